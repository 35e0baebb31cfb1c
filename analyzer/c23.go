package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"maplverif/absint"
)

// units is the documented table of suffixes.
var units = []struct {
	suffix string
	factor float64
}{
	{"", 1}, {"%", 1e-2}, {"m", 1e-3},
	{"K", 1e3}, {"M", 1e6}, {"G", 1e9}, {"T", 1e12}, {"P", 1e15}, {"E", 1e18},
	{"e3", 1e3}, {"e6", 1e6}, {"e9", 1e9}, {"e12", 1e12}, {"e15", 1e15}, {"e18", 1e18},
	{"Ki", 1 << 10}, {"Mi", 1 << 20}, {"Gi", 1 << 30}, {"Ti", 1 << 40}, {"Pi", 1 << 50}, {"Ei", 1 << 60},
}

// numberText is an unknown number written with digits, sign and point.
func numberText(a *absint.Analysis) absint.Val {
	num := absint.Sym("number", absint.StringT)
	const al = "0123456789+-."
	a.Alphabet = func(v absint.Val) string {
		if v.K() == num.K() {
			return al
		}
		return ""
	}
	a.Domain = func(v absint.Val) []*absint.Const {
		t, ok := v.(*absint.Term)
		if !ok || t.Op != "at" || t.Args[0].K() != num.K() {
			return nil
		}
		var out []*absint.Const
		for _, r := range al {
			out = append(out, absint.Int(int64(r)))
		}
		return out
	}
	return num
}

// scaled tells whether v is the number read from num times the factor.
func scaled(v, num absint.Val, factor float64) (string, bool) {
	name := func(x absint.Val) (map[string]*big.Rat, bool) {
		t, ok := x.(*absint.Term)
		if ok && t.Op == "strconv.ParseFloat#0" && t.Args[0].K() == num.K() {
			return map[string]*big.Rat{"number": big.NewRat(1, 1)}, true
		}
		return nil, false
	}
	m, ok := linearForm(v, name)
	if !ok {
		return "is not a multiple of the written number", false
	}
	for k, c := range m {
		if k != "number" && c.Sign() != 0 {
			return "is not a multiple of the written number", false
		}
	}
	if m["number"] == nil {
		return "does not depend on the written number", false
	}
	f, _ := m["number"].Float64()
	if math.Abs(f-factor) > 1e-9*factor {
		return fmt.Sprintf("scales the number by %g", f), false
	}
	return "", true
}

func checkC23(c *C) {
	for _, u := range units {
		for _, m := range []string{"EQ", "NEQ", "LT", "LE", "GT", "GE", "ne", "ge"} {
			c.ruleNumber(u.suffix, u.factor, m)
		}
		c.messageNumber(u.suffix, u.factor, false)
		c.messageNumber(u.suffix, u.factor, true)
	}
	c.Want("rule value", 60)
	c.Want("message value", 80)
}

// ruleNumber examines preparing a condition whose value is a number with a unit.
func (c *C) ruleNumber(unit string, factor float64, method string) {
	fn := c.fn("ConvertConditionStringToIntFloatRegex")
	if fn == nil {
		return
	}
	a := c.P.NewAnalysis()
	a.Unroll = 32
	num := numberText(a)
	cond := absint.SymPtr("condition", fn.Params[0].Type())
	st := a.NewState()
	st.Assume(absint.Eq(num, absint.Str("")), false)
	st.StoreField(cond, "Value", absint.Cat(num, absint.Str(unit)))
	st.StoreField(cond, "Method", absint.Str(method))
	st.StoreField(cond, "Attribute", absint.Str("payloadSize"))
	st.StoreField(cond, "ValueFloat", absint.Nil(fieldType(c.typ("Condition"), "ValueFloat")))
	rets := a.Run(st, fn, []absint.Val{cond})
	where := fmt.Sprintf("rule value with unit %q", unit)
	c.absorb(a, where, fn.Pos(), rets)
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			if o.NotNil(r.Vals[0]) {
				return // rejected
			}
			got := o.St.Resolve(o.St.Load(absint.FieldLoc(cond, "ValueFloat")))
			isNum := !o.NotNil(absint.NewTerm("strconv.ParseFloat#err", absint.ErrorT, num, absint.Int(64)))
			switch {
			case !isNum && !absint.IsNil(got):
				c.Fail("rule value", where, r.Pos, "text that is not a number gets the number %s; path: %s", got.K(), describe(o))
				return
			case isNum:
				if absint.IsNil(got) || absint.LocOf(got) == nil {
					c.Fail("rule value", where, r.Pos, "a number with unit %q stays text; path: %s", unit, describe(o))
					return
				}
				v := o.St.Load(absint.LocOf(got))
				if why, ok := scaled(v, num, factor); !ok {
					c.Fail("rule value", where, r.Pos, "a number with unit %q becomes %s, which %s, expected factor %g", unit, v.K(), why, factor)
					return
				}
			}
			c.OK("rule value")
		})
	}
}

// messageNumber examines comparing a message's number with a unit.
func (c *C) messageNumber(unit string, factor float64, parsed bool) {
	fn := c.fn("Condition.Eval")
	if fn == nil {
		return
	}
	a := c.P.NewAnalysis()
	a.Unroll = 32
	num := numberText(a)
	text := absint.Cat(num, absint.Str(unit))
	noerr := absint.Nil(absint.ErrorT)
	a.Models["jsonslice.Get"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("bytes", bytesT, text), noerr}}}
	}
	a.Models["json.Unmarshal"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		p := args[1]
		if iv, ok := p.(*absint.IfaceV); ok {
			p = iv.X
		}
		l := absint.LocOf(p)
		if l == nil || absint.TypeName(l.T) != "string" || args[0].K() != absint.NewTerm("bytes", bytesT, text).K() {
			return nil
		}
		ok := st.Clone()
		ok.Store(l, text)
		return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("newerr", absint.ErrorT)}}, {St: ok, Vals: []absint.Val{noerr}}}
	}
	a.Models["call"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		rt := call.Sig.Results().At(0).Type()
		outs := []absint.Ret{{St: st.Clone(), Vals: []absint.Val{absint.NewIface(text, rt), noerr}}}
		if unit == "" {
			f := absint.Sym("json number", absint.FloatT)
			outs = append(outs, absint.Ret{St: st, Vals: []absint.Val{absint.NewIface(f, rt), noerr}})
		}
		return outs
	}
	a.Models["strconv.FormatFloat"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		return []absint.Ret{{St: st, Vals: []absint.Val{text}}}
	}
	var args []absint.Val
	for _, p := range fn.Params {
		args = append(args, absint.SymPtr(p.Name(), p.Type()))
	}
	cond, msg := args[0], absint.ArgOf(fn, args, "*MessageAttributes")
	ct := c.typ("Condition")
	st := a.NewState()
	st.Assume(absint.Eq(num, absint.Str("")), false)
	st.StoreField(cond, "Attribute", absint.Str("jsonpath"))
	st.Assume(absint.At(cond, "AttributeIsJsonpath"), true)
	st.StoreField(cond, "AttributeJsonpathQuery", absint.Str("$.x"))
	st.StoreField(cond, "ReturnValueJsonpath", absint.Nil(fieldType(ct, "ReturnValueJsonpath")))
	vf := absint.At(cond, "ValueFloat")
	st.Assume(absint.Eq(vf, absint.Nil(vf.Typ())), false)
	for _, f := range []string{"RequestRawInterface", "RequestRawInterfaceRelative"} {
		v := absint.At(msg, f)
		st.Assume(absint.Eq(v, absint.Nil(v.Typ())), !parsed)
	}
	if q := absint.At(cond, "PreparedJsonpathQuery"); parsed {
		st.Assume(absint.Eq(q, absint.Nil(q.Typ())), false)
	}
	rets := a.Run(st, fn, args)
	where := fmt.Sprintf("message value with unit %q (parsed: %v)", unit, parsed)
	c.absorb(a, where, fn.Pos(), rets)
	found := 0
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		var ats []absint.Val
		for _, t := range r.St.Atoms() {
			ats = append(ats, t)
		}
		ats = append(ats, r.Vals[0])
		for _, at := range ats {
			for _, side := range comparedWith(at, absint.Content(vf)) {
				if why, ok := scaled(side, num, factor); !ok {
					c.Fail("message value", where, r.Pos, "a message value with unit %q is compared as %s, which %s, expected factor %g; path: %s", unit, side.K(), why, factor, facts(r.St))
					return
				}
				found++
				c.OK("message value")
			}
		}
	}
	if found == 0 {
		c.Fail("message value", where, fn.Pos(), "a message value with unit %q is never compared as a number", unit)
	}
}

// comparedWith lists what a comparison puts against x.
func comparedWith(v, x absint.Val) []absint.Val {
	t, ok := v.(*absint.Term)
	if !ok {
		return nil
	}
	switch t.Op {
	case "not":
		return comparedWith(t.Args[0], x)
	case "flt", "fle", "eq", "lt":
		for i := 0; i < 2; i++ {
			if t.Args[i].K() == x.K() {
				return []absint.Val{t.Args[1-i]}
			}
			if strings.Contains(t.Args[i].K(), x.K()) {
				return []absint.Val{t}
			}
		}
	}
	return nil
}
