package main

import (
	"go/types"

	"maplverif/absint"
)

// readyField and preparedField are the state of a rule: the private flag and
// the prepared copy.
func (c *C) preparedField() string {
	return c.onlyField("Rule", "preparedRule", "the prepared form of a rule", func(f *types.Var) bool {
		return absint.ShortType(f.Type()) == "*Rule"
	})
}

func (c *C) readyField() string {
	return c.onlyField("Rule", "ruleAlreadyPrepared", "the ready flag of a rule", func(f *types.Var) bool {
		b, ok := f.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Bool && !f.Exported()
	})
}

func (c *C) onlyField(typ, usual, what string, sel func(*types.Var) bool) string {
	s, ok := c.typ(typ).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	name, n := "", 0
	for i := 0; i < s.NumFields(); i++ {
		if sel(s.Field(i)) {
			name = s.Field(i).Name()
			n++
		}
	}
	if n > 1 {
		for i := 0; i < s.NumFields(); i++ {
			if sel(s.Field(i)) && s.Field(i).Name() == usual {
				return usual
			}
		}
	}
	if n != 1 {
		c.Fail("anchor", typ, 0, "%s was not identified: %d candidate fields", what, n)
		panic("anchor")
	}
	return name
}

func senderExists(rule, msg absint.Val) *exists {
	return sideExists("sender", absint.At(rule, "Sender", "SenderList"), msg, "SourceIp", "SourceNetIp", "SourceService", "")
}

func receiverExists(rule, msg absint.Val) *exists {
	return sideExists("receiver", absint.At(rule, "Receiver", "ReceiverList"), msg, "DestinationIp", "DestinationNetIp", "DestinationService", "RequestHost")
}

func sideExists(key string, list, msg absint.Val, ip, netip, service, host string) *exists {
	kind := func(o *absint.Oracle, e absint.Val) string {
		t := absint.At(e, "Type")
		switch {
		case o.StrIs(t, "subnet"):
			return "subnet"
		case o.StrIs(t, "*", "workload"):
			return "workload"
		case host != "" && o.StrIs(t, "hostname"):
			return "hostname"
		}
		return ""
	}
	return &exists{
		key: key, list: list,
		match: func(o *absint.Oracle, e absint.Val) bool {
			switch kind(o, e) {
			case "subnet":
				if o.Is(absint.At(e, "IsCIDR")) {
					return o.Is(absint.Pred("(*net.IPNet).Contains", absint.NewTerm("&of", types.NewPointer(fieldType(e.Typ(), "CIDR")), absint.At(e, "CIDR")), absint.At(msg, netip)))
				}
				if o.Is(absint.At(e, "IsIP")) {
					return o.Is(absint.Eq(absint.At(e, "Name"), absint.At(msg, ip)))
				}
			case "workload":
				return o.Is(absint.Pred("rematch", absint.At(e, "Regexp"), absint.At(msg, service)))
			case "hostname":
				return o.Is(absint.Pred("rematch", absint.At(e, "Regexp"), absint.At(msg, host)))
			}
			return false
		},
		inert: func(o *absint.Oracle, e absint.Val) bool { return kind(o, e) == "" },
	}
}

func checkC03(c *C) {
	c.entryFields()
	for _, x := range []struct {
		fn string
		mk func(rule, msg absint.Val) *exists
	}{{"TestSender", senderExists}, {"TestReceiver", receiverExists}} {
		fn := c.fn(x.fn)
		if fn == nil {
			continue
		}
		a := c.P.NewAnalysis()
		var args []absint.Val
		for _, p := range fn.Params {
			args = append(args, absint.Param(p.Name(), p.Type()))
		}
		rule, msg := absint.ArgOf(fn, args, "*Rule"), absint.ArgOf(fn, args, "*MessageAttributes")
		if rule == nil || msg == nil {
			c.Fail("anchor", x.fn, fn.Pos(), "%s does not take a rule and a message", x.fn)
			continue
		}
		e := x.mk(rule, msg)
		attach(a, e)
		st := a.NewState()
		st.Assume(absint.At(rule, "AlreadyConvertedFieldsToRegexFlag"), true)
		rets := a.Run(st, fn, args)
		c.absorb(a, x.fn, fn.Pos(), rets)
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				v, ok := o.St.Mon[e.key]
				if !ok {
					if b, known := o.St.Decide(absint.Eq(absint.Len(e.list), absint.Int(0))); !known || !b {
						c.Fail("any entry", x.fn, r.Pos, "%s returns without a loop over all of %s; path: %s", x.fn, e.list.K(), describe(o))
						return
					}
					v = "no"
				}
				got := o.Is(r.Vals[0])
				if v == "cut" {
					c.Fail("any entry", x.fn, r.Pos, "%s returns %v at an entry that does not match, without looking at the remaining entries; path: %s", x.fn, got, describe(o))
					return
				}
				if got != (v == "yes") {
					c.Fail("any entry", x.fn, r.Pos, "%s returns %v although a matching entry was seen: %s; path: %s", x.fn, got, v, describe(o))
					return
				}
				c.OK("any entry")
			})
		}
		c.Want("any entry", 8)
	}
}

func checkC02(c *C) {
	fn := c.fn("CheckOneRule")
	if fn == nil {
		return
	}
	prep, ready := c.preparedField(), c.readyField()
	a := c.P.NewAnalysis()
	args := []absint.Val{absint.SymPtr("message", fn.Params[0].Type()), absint.SymPtr("rule", fn.Params[1].Type())}
	orig, msg := absint.ArgOf(fn, args, "*Rule"), absint.ArgOf(fn, args, "*MessageAttributes")
	rule := absint.At(orig, prep)
	snd, rcv := senderExists(rule, msg), receiverExists(rule, msg)
	attach(a, snd, rcv)
	tree := absint.At(rule, "Conditions", "ConditionsTree")
	a.Models["Node.Eval"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		x := []absint.Val{args[0]}
		if args[1].K() != msg.K() {
			x = append(x, args[1])
		}
		return []absint.Ret{{St: st, Vals: []absint.Val{absint.Pred("holds", x...), absint.NewTerm("returndata", call.Sig.Results().At(1).Type(), x...)}}}
	}
	st := a.NewState()
	st.Assume(absint.At(orig, ready), true)
	st.Assume(absint.Eq(rule, absint.Nil(rule.Typ())), false)
	st.Assume(absint.At(rule, "AlreadyConvertedFieldsToRegexFlag"), true)
	rets := a.Run(st, fn, args)
	c.absorb(a, "CheckOneRule", fn.Pos(), rets)
	side := func(o *absint.Oracle, e *exists) bool {
		v, ok := o.St.Mon[e.key]
		if !ok || v == "cut" {
			if o.Is(absint.Eq(absint.Len(e.list), absint.Int(0))) {
				return false
			}
			return o.Is(absint.Pred("some-entry-matches", e.list))
		}
		return v == "yes"
	}
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			applies := func() (bool, string) {
				if !side(o, snd) {
					return false, "the sender does not match"
				}
				if !side(o, rcv) {
					return false, "the receiver does not match"
				}
				if !o.Is(absint.Pred("rematch", absint.At(rule, "OperationRegex"), absint.At(msg, "RequestMethod"))) {
					return false, "the operation does not match"
				}
				res := absint.At(rule, "Resource")
				name := func(f string) bool {
					return o.Is(absint.Pred("rematch", absint.At(res, "ResourceNameRegex"), absint.At(msg, f)))
				}
				proto := absint.At(rule, "Protocol")
				if o.StrIs(proto, "tcp") {
					if !name("DestinationPort") {
						return false, "the port does not match"
					}
				} else if !o.StrIs(proto, "*") {
					if !o.Is(absint.Pred("EqualFold", absint.At(msg, "ContextProtocol"), proto)) {
						return false, "the protocol does not match"
					}
					if !o.StrIs(absint.At(res, "ResourceType"), "*") && !o.Is(absint.Eq(absint.At(msg, "ContextType"), absint.At(res, "ResourceType"))) {
						return false, "the resource type does not match"
					}
					if !name("RequestPath") {
						return false, "the path does not match"
					}
				}
				if o.NotNil(tree) && !o.Is(absint.Pred("holds", tree)) {
					return false, "the conditions do not hold"
				}
				return true, "everything matches"
			}
			ok, why := applies()
			want := int64(0)
			if ok {
				d := absint.At(rule, "Decision")
				switch {
				case o.StrIs(d, "allow", "ALLOW", "Allow"):
					want = 1
				case o.StrIs(d, "alert", "ALERT", "Alert"):
					want = 2
				case o.StrIs(d, "block", "BLOCK", "Block"):
					want = 3
				default:
					why = "the decision is not a known one"
				}
			}
			got, isC := absint.IsInt(o.St.Resolve(r.Vals[0]))
			if !isC || got != want {
				c.Fail("verdict", "CheckOneRule: "+why, r.Pos, "the verdict is %s, expected %d, when %s; path: %s", r.Vals[0].K(), want, why, describe(o))
			} else {
				c.OK("verdict")
			}
			data := o.St.Resolve(r.Vals[1])
			switch {
			case want == 0 || !o.NotNil(tree):
				if !emptyList(data) {
					c.Fail("return data", "CheckOneRule: "+why, r.Pos, "return data %s with verdict %d (%s)", data.K(), want, why)
				} else {
					c.OK("return data")
				}
			case data.K() != absint.NewTerm("returndata", data.Typ(), tree).K():
				c.Fail("return data", "CheckOneRule: "+why, r.Pos, "return data is %s, expected that of the conditions", data.K())
			default:
				c.OK("return data")
			}
		})
	}
	c.Want("verdict", 30)
}

func emptyList(v absint.Val) bool {
	if absint.IsNil(v) {
		return true
	}
	l, ok := v.(*absint.ListV)
	if ok && l.Base == nil && len(l.Elems) == 0 {
		return true
	}
	if s, ok := v.(*absint.SliceV); ok {
		n, isC := absint.IsInt(s.Len)
		return isC && n == 0
	}
	return false
}
