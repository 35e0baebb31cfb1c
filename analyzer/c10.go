package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"maplverif/absint"
)

var orderMethods = []string{"GE", "GT", "LE", "LT"}

var allMethods = func() []string {
	var out []string
	for _, m := range []string{"GE", "GT", "LE", "LT", "RE", "NRE", "IN", "NIN", "EQ", "NEQ", "NE", "EX", "NEX"} {
		out = append(out, m, strings.ToLower(m))
	}
	return append(out, "IS")
}()

func isOneOf(s string, l ...string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type attrClass struct {
	name string
	ok   bool // well formed
	kind string
}

var attrClasses = []attrClass{
	{"true", true, ""}, {"TRUE", true, ""}, {"false", true, ""}, {"FALSE", true, ""},
	{"payloadSize", true, ""}, {"requestUseragent", true, ""}, {"utcHoursFromMidnight", true, ""},
	{"encryptionType", true, ""}, {"encryptionVersion", true, "version"}, {"domain", true, ""},
	{"$sender.name", true, "object"}, {"$receiver.a.b", true, "object"},
	{"senderLabel[key1]", true, "object"}, {"receiverLabel[k]", true, "object"},
	{"senderLabel[key1", false, ""}, {"receiverLabel[k", false, ""}, {"senderLabel[k]x", false, ""}, {"receiverLabel[k]]", false, ""},
	{"jsonpath:$.a", true, ""}, {"jsonpath:$.a.b", true, ""}, {"jsonpath:.a", true, ""}, {"jsonpath:$RELATIVE.a", true, ""}, {"jsonpath:$RELATIVE", true, ""},
	{"jsonpath:$KEY", true, ""}, {"jsonpath:$VALUE", true, ""}, {"jsonpath:$VALUE.a", true, ""},
	{"jsonpath:$.a[0].b", true, ""}, {"jsonpath:$.a[12]", true, ""}, {"jsonpath:$.a['x'].b", true, ""}, {"jsonpath:$.a[\"x\"]", true, ""},
	{"jsonpath:a", false, ""}, {"jsonpath:$a", false, ""}, {"jsonpath:$KEY.a", false, ""}, {"jsonpath:$.a[:]", false, ""}, {"jsonpath:$.a[:].b", false, ""},
	{"jsonpath:$.a[].b", false, ""}, {"jsonpath:$.a[-1]", false, ""}, {"jsonpath:$.a[x]", false, ""}, {"jsonpath:$.a[0][x].b", false, ""}, {"jsonpath:$.a['x'][-2]", false, ""},
	{"jsonpath:$RELATIVEa", false, ""},
	{"", false, ""}, {"foo", false, ""}, {"Domain", false, ""}, {"senderLabel", false, ""}, {"$sender", false, ""}, {"jsonpath", false, ""}, {"jsonpath:", false, ""}, {"domain2", false, ""}, {"my$sender.x", false, ""},
}

func checkC10(c *C) {
	c.validationTable()
	c.validatedConditions()
	c.Want("accepted", 400)
	c.Want("rejected", 400)
	c.Want("validated", 2)
}

// validationRun follows ValidateOneCondition for a value over digits.
func (c *C) validationRun(fn *ssa.Function, what string, attr, method, value absint.Val, setup func(st *absint.State), expect func(o *absint.Oracle, r absint.Ret, seen map[string]absint.Val) (accept, reject bool)) {
	a := c.P.NewAnalysis()
	a.Unroll = 40
	a.Alphabet = func(v absint.Val) string {
		if v.K() == value.K() {
			return "0123456789.-"
		}
		return ""
	}
	seen := watchPatterns(a)
	cond := absint.SymPtr("condition", fn.Params[0].Type())
	st := a.NewState()
	st.StoreField(cond, "Attribute", attr)
	st.StoreField(cond, "Method", method)
	st.StoreField(cond, "Value", value)
	if _, ok := absint.IsStr(value); !ok {
		st.Assume(absint.Eq(value, absint.Str("")), false)
	}
	if setup != nil {
		setup(st)
	}
	rets := a.Run(st, fn, []absint.Val{cond})
	c.absorb(a, what, fn.Pos(), rets)
	for _, r := range rets {
		if r.Panic != "" {
			c.Fail("accepted", what, r.Pos, "validating stops the program: %s", r.Panic)
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			mayAccept, mayReject := expect(o, r, seen)
			accepted := !o.NotNil(r.Vals[1])
			flag := o.Is(r.Vals[0])
			switch {
			case accepted && flag && !mayAccept:
				c.Fail("rejected", what, r.Pos, "accepted, but the engine cannot evaluate it as documented; path: %s", describe(o))
			case !(accepted && flag) && !mayReject:
				c.Fail("accepted", what, r.Pos, "refused, although attribute, method and value are as documented; path: %s", describe(o))
			case accepted && flag:
				c.OK("accepted")
			default:
				c.OK("rejected")
			}
		})
	}
}

// listFailed tells whether some pattern other than the value itself failed to
// compile on this path.
func listFailed(o *absint.Oracle, seen map[string]absint.Val, value absint.Val) bool {
	own := absint.NewTerm("regexp.Compile#err", absint.ErrorT, value).K()
	for k, e := range seen {
		if k == own {
			continue
		}
		if v, known := o.St.Decide(absint.Eq(e, absint.Nil(absint.ErrorT))); known && !v {
			return true
		}
	}
	return false
}

// watchPatterns collects the errors of compiling patterns.
func watchPatterns(a *absint.Analysis) map[string]absint.Val {
	seen := map[string]absint.Val{}
	base := a.Externals("regexp.Compile")
	a.Models["regexp.Compile"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		e := absint.NewTerm("regexp.Compile#err", absint.ErrorT, args[0])
		seen[e.K()] = e
		return base(a, st, args, call)
	}
	return seen
}

func isNumberText(o *absint.Oracle, v absint.Val) (float, integer bool) {
	if s, ok := absint.IsStr(v); ok {
		n := s != "" && strings.Trim(s, "0123456789") == ""
		return n, n
	}
	float = !o.NotNil(absint.NewTerm("strconv.ParseFloat#err", absint.ErrorT, v, absint.Int(64)))
	integer = !o.NotNil(absint.NewTerm("strconv.ParseInt#err", absint.ErrorT, v, absint.Int(10), absint.Int(64)))
	return
}

// expected is the documented rule; both are true where an outcome is impossible or left open.
func expectedValidity(o *absint.Oracle, at attrClass, method string, value absint.Val, seen map[string]absint.Val) (accept, reject bool) {
	if !at.ok || !isOneOf(method, allMethods...) {
		return false, true
	}
	m := strings.ToUpper(method)
	order := isOneOf(m, orderMethods...)
	if at.kind == "object" && order {
		return false, true
	}
	if at.kind == "version" && !order && m != "EQ" {
		return false, true
	}
	if order {
		f, i := isNumberText(o, value)
		if f != i && i {
			return true, true // no integer fails to be a number
		}
		return f, !f
	}
	switch m {
	case "IN", "NIN":
		if s, ok := absint.IsStr(value); ok && s == "" {
			return false, true
		}
		bad := listFailed(o, seen, value)
		return !bad, bad
	case "RE", "NRE":
		bad := false
		if _, ok := absint.IsStr(value); !ok {
			bad = o.NotNil(absint.NewTerm("regexp.Compile#err", absint.ErrorT, value))
		}
		return !bad, bad
	}
	return true, false
}

func (c *C) validationTable() {
	fn := c.fn("ValidateOneCondition")
	if fn == nil {
		return
	}
	value := absint.Sym("value", absint.StringT)
	for _, at := range attrClasses {
		methods := allMethods
		if !at.ok || strings.HasPrefix(at.name, "jsonpath:") {
			methods = []string{"EQ", "ge", "RE", "nin", "EX"}
		}
		for _, m := range methods {
			at, m := at, m
			c.validationRun(fn, "attribute "+at.name+" with "+m, absint.Str(at.name), absint.Str(m), value, nil, func(o *absint.Oracle, r absint.Ret, seen map[string]absint.Val) (bool, bool) {
				return expectedValidity(o, at, m, value, seen)
			})
		}
	}
	// no value
	for _, m := range allMethods {
		m := m
		c.validationRun(fn, "empty value with "+m, absint.Str("domain"), absint.Str(m), absint.Str(""), nil, func(o *absint.Oracle, r absint.Ret, seen map[string]absint.Val) (bool, bool) {
			if isOneOf(strings.ToUpper(m), "IN", "NIN") || isOneOf(strings.ToUpper(m), orderMethods...) {
				return false, true
			}
			return true, false
		})
	}
	// a method that is none of the documented ones
	method := absint.Sym("method", absint.StringT)
	c.validationRun(fn, "unknown method", absint.Str("domain"), method, value, func(st *absint.State) {
		for _, m := range allMethods {
			st.Assume(absint.Eq(method, absint.Str(m)), false)
		}
	}, func(*absint.Oracle, absint.Ret, map[string]absint.Val) (bool, bool) { return false, true })
	// an attribute that is none of the documented ones
	attr := absint.Sym("attribute", absint.StringT)
	c.validationRun(fn, "unknown attribute", attr, absint.Str("EQ"), value, func(st *absint.State) {
		for _, at := range attrClasses {
			if at.ok {
				st.Assume(absint.Eq(attr, absint.Str(at.name)), false)
			}
		}
		for _, p := range []string{"$sender.", "$receiver.", "senderLabel[", "receiverLabel[", "jsonpath:"} {
			st.Assume(absint.NewTerm("HasPrefix", absint.BoolT, attr, absint.Str(p)), false)
		}
	}, func(*absint.Oracle, absint.Ret, map[string]absint.Val) (bool, bool) { return false, true })
	// a value that names a receiver's label
	for _, v := range []struct {
		text string
		ok   bool
	}{{"receiverLabel[k]", true}, {"receiverLabel[k", false}, {"receiverLabel[k]x", false}} {
		v := v
		c.validationRun(fn, "value "+v.text, absint.Str("senderLabel[key1]"), absint.Str("EQ"), absint.Str(v.text), nil, func(*absint.Oracle, absint.Ret, map[string]absint.Val) (bool, bool) { return v.ok, !v.ok })
	}
}

// validatedConditions: a condition is prepared or parsed only if it was found valid.
func (c *C) validatedConditions() {
	val := c.fn("ValidateOneCondition")
	if val == nil {
		return
	}
	for _, name := range []string{"Condition.PrepareAndValidate"} {
		fn := c.fn(name)
		if fn == nil {
			continue
		}
		c.validatedRun(fn, val, name, func(a *absint.Analysis, st *absint.State) []absint.Val {
			var args []absint.Val
			for _, p := range fn.Params {
				args = append(args, absint.Param(p.Name(), p.Type()))
			}
			return args
		})
	}
}

func (c *C) validatedRun(fn, val *ssa.Function, name string, args func(a *absint.Analysis, st *absint.State) []absint.Val) {
	a := c.P.NewAnalysis()
	a.Unroll = 6
	ferr := absint.NewTerm("validate#err", absint.ErrorT)
	fok := absint.NewTerm("validate#0", absint.BoolT)
	a.ModelOf = func(f *ssa.Function) absint.Model {
		if f != val {
			return nil
		}
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			st.Mon["validated"] = "yes"
			return []absint.Ret{{St: st, Vals: []absint.Val{fok, ferr}}}
		}
	}
	a.Opaque = func(n string) bool {
		return strings.HasSuffix(n, "ConvertConditionStringToIntFloatRegex") || strings.HasSuffix(n, "ReplaceStringsAndListsInCondition") || strings.HasSuffix(n, "prepareJsonpathQuery")
	}
	st := a.NewState()
	rets := a.Run(st, fn, args(a, st))
	c.absorb(a, name, fn.Pos(), rets)
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			if o.NotNil(r.Vals[len(r.Vals)-1]) {
				c.OK("validated")
				return
			}
			if o.St.Mon["validated"] == "" || o.NotNil(ferr) || !o.Is(fok) {
				c.Fail("validated", name, r.Pos, "succeeds for a condition that was not found valid; path: %s", describe(o))
				return
			}
			c.OK("validated")
		})
	}
}
