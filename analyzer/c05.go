package main

import (
	"go/token"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

var methodSpellings = []string{"EQ", "eq", "NEQ", "neq", "NE", "ne", "LT", "lt", "LE", "le", "GT", "gt", "GE", "ge",
	"RE", "re", "NRE", "nre", "EX", "ex", "NEX", "nex", "IN", "in", "NIN", "nin"}

// condEnv is one run of a condition's evaluation with some fields fixed.
type condEnv struct {
	c      absint.Val // *Condition
	m      absint.Val // *MessageAttributes
	method string     // upper case
}

func order(o *absint.Oracle, method string, l, r absint.Val) bool {
	switch method {
	case "EQ":
		return o.Is(absint.Eq(l, r))
	case "NEQ", "NE":
		return !o.Is(absint.Eq(l, r))
	case "LT":
		return o.Cmp(token.LSS, l, r)
	case "LE":
		return o.Cmp(token.LEQ, l, r)
	case "GT":
		return o.Cmp(token.GTR, l, r)
	case "GE":
		return o.Cmp(token.GEQ, l, r)
	}
	return false
}

// text is the comparison of a message text with a prepared value.
func (e *condEnv) text(o *absint.Oracle, l absint.Val) bool {
	match := func(field string) bool {
		re := absint.At(e.c, field)
		return o.NotNil(re) && o.Is(absint.Pred("rematch", re, l))
	}
	switch e.method {
	case "EQ":
		return match("ValueStringRegex")
	case "NEQ", "NE":
		return !match("ValueStringRegex")
	case "RE":
		return match("ValueRegex")
	case "NRE":
		return !match("ValueRegex")
	case "EX":
		return !o.Is(absint.Eq(l, absint.Str("")))
	case "NEX":
		return o.Is(absint.Eq(l, absint.Str("")))
	}
	return false
}

func (e *condEnv) plain(o *absint.Oracle, l, r absint.Val) bool {
	if e.method == "EQ" || e.method == "NEQ" || e.method == "NE" {
		return order(o, e.method, l, r)
	}
	return false
}

func (e *condEnv) msgText(f string) func(o *absint.Oracle) bool {
	return func(o *absint.Oracle) bool { return e.text(o, absint.At(e.m, f)) }
}

type condCase struct {
	name string
	attr string
	kind string // comparison kind, for C04
	init func(e *condEnv, st *absint.State)
	spec func(e *condEnv) func(o *absint.Oracle) bool
}

func set(st *absint.State, v absint.Val, s string) { st.Assume(absint.Eq(v, absint.Str(s)), true) }

func condCases() []condCase {
	none := func(e *condEnv, st *absint.State) {}
	number := func(msgField, valField string, ptr bool) (func(e *condEnv, st *absint.State), func(e *condEnv) func(o *absint.Oracle) bool) {
		return func(e *condEnv, st *absint.State) {
				v := absint.At(e.c, valField)
				st.Assume(absint.Eq(v, absint.Nil(v.Typ())), false)
				if ptr {
					m := absint.At(e.m, msgField)
					st.Assume(absint.Eq(m, absint.Nil(m.Typ())), false)
				}
			}, func(e *condEnv) func(o *absint.Oracle) bool {
				return func(o *absint.Oracle) bool {
					l := absint.At(e.m, msgField)
					if ptr {
						l = absint.Content(l)
					}
					return order(o, e.method, l, absint.Content(absint.At(e.c, valField)))
				}
			}
	}
	text := func(f string) func(e *condEnv) func(o *absint.Oracle) bool {
		return func(e *condEnv) func(o *absint.Oracle) bool { return e.msgText(f) }
	}
	konst := func(b bool) func(e *condEnv) func(o *absint.Oracle) bool {
		return func(e *condEnv) func(o *absint.Oracle) bool { return func(o *absint.Oracle) bool { return b } }
	}
	out := []condCase{
		{"true", "true", "", none, konst(true)},
		{"TRUE", "TRUE", "", none, konst(true)},
		{"false", "false", "", none, konst(false)},
		{"FALSE", "FALSE", "", none, konst(false)},
		{"requestUseragent", "requestUseragent", "text", none, text("RequestUseragent")},
		{"encryptionType", "encryptionType", "text", none, text("EncryptionType")},
		{"domain", "domain", "text", none, text("Domain")},
	}
	i, s := number("RequestSize", "ValueInt", false)
	out = append(out, condCase{"payloadSize", "payloadSize", "integer", i, s})
	i, s = number("RequestTimeHoursFromMidnightUTC", "ValueFloat", false)
	out = append(out, condCase{"utcHoursFromMidnight", "utcHoursFromMidnight", "float", i, s})
	i, s = number("EncryptionVersion", "ValueFloat", true)
	out = append(out, condCase{"encryptionVersion", "encryptionVersion", "float", i, s})
	for _, x := range []struct{ obj, src, dst string }{{"namespace", "SourceNamespace", "DestinationNamespace"}, {"cluster", "SourceCluster", "DestinationCluster"}} {
		x := x
		out = append(out, condCase{"$sender." + x.obj, "$sender", "text", func(e *condEnv, st *absint.State) {
			set(st, absint.At(e.c, "AttributeSenderObjectAttribute"), x.obj)
			st.Assume(absint.At(e.c, "ValueIsReceiverObject"), false)
		}, text(x.src)})
		out = append(out, condCase{"$receiver." + x.obj, "$receiver", "text", func(e *condEnv, st *absint.State) {
			set(st, absint.At(e.c, "AttributeReceiverObjectAttribute"), x.obj)
		}, text(x.dst)})
		for _, y := range []struct{ obj, dst string }{{"namespace", "DestinationNamespace"}, {"cluster", "DestinationCluster"}} {
			y := y
			out = append(out, condCase{"$sender." + x.obj + " with $receiver." + y.obj, "$sender", "plain text", func(e *condEnv, st *absint.State) {
				set(st, absint.At(e.c, "AttributeSenderObjectAttribute"), x.obj)
				st.Assume(absint.At(e.c, "ValueIsReceiverObject"), true)
				set(st, absint.At(e.c, "ValueReceiverObject"), y.obj)
			}, func(e *condEnv) func(o *absint.Oracle) bool {
				return func(o *absint.Oracle) bool { return e.plain(o, absint.At(e.m, x.src), absint.At(e.m, y.dst)) }
			}})
		}
	}
	label := func(e *condEnv, o *absint.Oracle, labels, key string) bool {
		m, k := absint.At(e.m, labels), absint.At(e.c, key)
		if !o.Is(absint.MapHas(m, k)) {
			return e.method == "NEX"
		}
		if e.method == "EX" || e.method == "NEX" {
			return e.method == "EX"
		}
		return e.text(o, absint.MapGet(m, k))
	}
	out = append(out,
		condCase{"senderLabel", "senderLabel", "", func(e *condEnv, st *absint.State) {
			st.Assume(absint.At(e.c, "AttributeIsSenderLabel"), true)
			st.Assume(absint.At(e.c, "ValueIsReceiverLabel"), false)
		}, func(e *condEnv) func(o *absint.Oracle) bool {
			return func(o *absint.Oracle) bool { return label(e, o, "SourceLabels", "AttributeSenderLabelKey") }
		}},
		condCase{"receiverLabel", "receiverLabel", "", func(e *condEnv, st *absint.State) {
			st.Assume(absint.At(e.c, "AttributeIsReceiverLabel"), true)
		}, func(e *condEnv) func(o *absint.Oracle) bool {
			return func(o *absint.Oracle) bool { return label(e, o, "DestinationLabels", "AttributeReceiverLabelKey") }
		}},
		condCase{"senderLabel with receiverLabel", "senderLabel", "", func(e *condEnv, st *absint.State) {
			st.Assume(absint.At(e.c, "AttributeIsSenderLabel"), true)
			st.Assume(absint.At(e.c, "ValueIsReceiverLabel"), true)
		}, func(e *condEnv) func(o *absint.Oracle) bool {
			return func(o *absint.Oracle) bool {
				a, ka := absint.At(e.m, "SourceLabels"), absint.At(e.c, "AttributeSenderLabelKey")
				b, kb := absint.At(e.m, "DestinationLabels"), absint.At(e.c, "ValueReceiverLabelKey")
				if !o.Is(absint.MapHas(a, ka)) {
					return e.method == "NEX"
				}
				if e.method == "NEX" {
					return false
				}
				if !o.Is(absint.MapHas(b, kb)) {
					return false
				}
				return e.plain(o, absint.MapGet(a, ka), absint.MapGet(b, kb))
			}
		}},
	)
	return out
}

var knownAttrs = []string{"true", "TRUE", "false", "FALSE", "payloadSize", "requestUseragent", "utcHoursFromMidnight",
	"encryptionType", "encryptionVersion", "domain", "$sender", "$receiver", "senderLabel", "receiverLabel", "jsonpath"}

// runCondition analyses one evaluation of a condition.
func (c *C) runCondition(fn *ssa.Function, e *condEnv, init func(st *absint.State)) []absint.Ret {
	a := c.P.NewAnalysis()
	args := make([]absint.Val, len(fn.Params))
	for i, p := range fn.Params {
		switch absint.ShortType(p.Type()) {
		case "*Condition":
			args[i] = e.c
		case "*MessageAttributes":
			args[i] = e.m
		default:
			args[i] = absint.Param(p.Name(), p.Type())
		}
	}
	st := a.NewState()
	init(st)
	rets := a.Run(st, fn, args)
	c.absorb(a, c.P.Name(fn), fn.Pos(), rets)
	return rets
}

func (c *C) condEnv(fn *ssa.Function) *condEnv {
	e := &condEnv{}
	for _, p := range fn.Params {
		switch absint.ShortType(p.Type()) {
		case "*Condition":
			e.c = absint.SymPtr("condition", p.Type())
		case "*MessageAttributes":
			e.m = absint.SymPtr("message", p.Type())
		}
	}
	if e.c == nil || e.m == nil {
		c.Fail("anchor", fn.Name(), fn.Pos(), "the evaluation of a condition does not take a message")
		return nil
	}
	return e
}

func checkConditions(c *C, only func(condCase) bool) {
	fn := c.fn("Condition.Eval")
	if fn == nil {
		return
	}
	e := c.condEnv(fn)
	if e == nil {
		return
	}
	for _, cc := range condCases() {
		if only != nil && !only(cc) {
			continue
		}
		for _, m := range methodSpellings {
			e.method = strings.ToUpper(m)
			spec := cc.spec(e)
			rets := c.runCondition(fn, e, func(st *absint.State) {
				set(st, absint.At(e.c, "Attribute"), cc.attr)
				set(st, absint.At(e.c, "Method"), m)
				cc.init(e, st)
			})
			what := cc.name + " " + m
			n := 0
			for _, r := range rets {
				if r.Panic != "" {
					continue
				}
				n++
				absint.Complete(r.St, func(o *absint.Oracle) {
					want := spec(o)
					if got := o.Is(r.Vals[0]); got != want {
						c.Fail("comparison", what, r.Pos, "a condition on %s yields %v, expected %v; path: %s", what, got, want, describe(o))
						return
					}
					c.OK("comparison")
				})
			}
			if n == 0 {
				c.Fail("comparison", what, fn.Pos(), "no ordinary way out of evaluating a condition on %s", what)
			}
		}
	}
	c.Want("comparison", 100)
}

func checkC04(c *C) { checkConditions(c, func(cc condCase) bool { return cc.kind != "" }) }

func checkC05(c *C) {
	checkConditions(c, nil)
	fn := c.fn("Condition.Eval")
	if fn == nil {
		return
	}
	e := c.condEnv(fn)
	if e == nil {
		return
	}
	rets := c.runCondition(fn, e, func(st *absint.State) {
		for _, k := range knownAttrs {
			st.Assume(absint.Eq(absint.At(e.c, "Attribute"), absint.Str(k)), false)
		}
	})
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			if o.Is(r.Vals[0]) {
				c.Fail("unknown attribute", "unknown attribute", r.Pos, "an unknown attribute can yield true; path: %s", describe(o))
				return
			}
			c.OK("unknown attribute")
		})
	}
	c.Want("unknown attribute", 1)
}
