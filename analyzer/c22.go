package main

import (
	"fmt"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// checkC22 follows Coverage for small lists of messages and rules whose ids are
// known and whose per-rule verdicts are every combination.
func checkC22(c *C) {
	fn := c.fn("Coverage")
	if fn == nil {
		return
	}
	for _, d := range []struct{ m, n int }{{0, 1}, {1, 0}, {1, 2}, {2, 2}, {1, 3}, {3, 1}} {
		c.coverage(fn, d.m, d.n)
	}
	c.Want("message coverage", 400)
	c.Want("rule coverage", 400)
}

func (c *C) coverage(fn *ssa.Function, m, n int) {
	a := c.P.NewAnalysis()
	a.Unroll = 8
	a.MaxSteps = 8000000
	var args []absint.Val
	for _, p := range fn.Params {
		args = append(args, absint.SymPtr(p.Name(), p.Type()))
	}
	msgs, rules := absint.ArgOf(fn, args, "*Messages"), absint.ArgOf(fn, args, "*Rules")
	if msgs == nil || rules == nil {
		c.Fail("anchor", "Coverage", fn.Pos(), "Coverage does not take messages and rules")
		return
	}
	ml, rl := absint.At(msgs, "Messages"), absint.At(rules, "Rules")
	st := a.NewState()
	st.Assume(absint.Eq(absint.Len(ml), absint.Int(int64(m))), true)
	st.Assume(absint.Eq(absint.Len(rl), absint.Int(int64(n))), true)
	for i := 0; i < m; i++ {
		st.Store(absint.FieldLoc(absint.ElemAt(ml, absint.Int(int64(i))), "MessageID"), absint.Str(fmt.Sprintf("m%d", i)))
	}
	for i := 0; i < n; i++ {
		st.Store(absint.FieldLoc(absint.ElemAt(rl, absint.Int(int64(i))), "RuleID"), absint.Str(fmt.Sprintf("r%d", i)))
	}
	a.Domain = verdictDomain
	verdict := func(mid, rid absint.Val) absint.Val { return absint.NewTerm("verdict", absint.IntT, mid, rid) }
	a.ModelOf = func(f *ssa.Function) absint.Model {
		if !absint.SigIs(f, []string{"*Rule", "*MessageAttributes"}, []string{"int", extraT}) {
			return nil
		}
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			id := func(t, field string) absint.Val {
				return st.Resolve(st.Load(absint.FieldLoc(absint.ArgOf(f, args, t), field)))
			}
			mid, rid := id("*MessageAttributes", "MessageID"), id("*Rule", "RuleID")
			res := f.Signature.Results()
			var out []absint.Ret
			v := verdict(mid, rid)
			for _, k := range []int64{0, 1, 2, 3} {
				s := st.Clone()
				if s.Assume(absint.Eq(v, absint.Int(k)), true) {
					out = append(out, absint.Ret{St: s, Vals: []absint.Val{absint.Int(k), absint.NewTerm("returndata", res.At(1).Type(), mid, rid)}})
				}
			}
			return out
		}
	}
	rets := a.Run(st, fn, args)
	where := fmt.Sprintf("Coverage of %d messages by %d rules", m, n)
	c.absorb(a, where, fn.Pos(), rets)
	ids := func(l []absint.Val) string {
		var s []string
		for _, v := range l {
			if x, ok := absint.IsStr(v); ok {
				s = append(s, x)
			} else if x, ok := absint.IsInt(v); ok {
				s = append(s, fmt.Sprint(x))
			} else {
				s = append(s, v.K())
			}
		}
		return strings.Join(s, ",")
	}
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			bad := func(rule, format string, args ...interface{}) {
				c.Fail(rule, "Coverage", r.Pos, "%s; verdicts: %s", fmt.Sprintf(format, args...), describe(o))
			}
			table := func(v absint.Val) (map[string]absint.Val, bool) {
				ks, vs, ok := o.St.Entries(o.St.Resolve(v))
				out := map[string]absint.Val{}
				for i, k := range ks {
					s, isS := absint.IsStr(o.St.Resolve(k))
					ok = ok && isS
					out[s] = vs[i]
				}
				return out, ok
			}
			mt, ok1 := table(r.Vals[0])
			rt, ok2 := table(r.Vals[1])
			if !ok1 || !ok2 {
				bad("message coverage", "the tables %s and %s are not keyed by the ids", r.Vals[0].K(), r.Vals[1].K())
				return
			}
			hits := make([][]string, n)
			good := len(mt) == m
			if !good {
				bad("message coverage", "%d messages are listed, expected %d", len(mt), m)
			}
			for i := 0; i < m && good; i++ {
				mid := absint.Str(fmt.Sprintf("m%d", i))
				var rs, vs []string
				max := int64(0)
				for j := 0; j < n; j++ {
					rid := absint.Str(fmt.Sprintf("r%d", j))
					v := verdictValue(o, verdict(mid, rid))
					if v == 0 {
						continue
					}
					rs, vs = append(rs, fmt.Sprintf("r%d", j)), append(vs, fmt.Sprint(v))
					hits[j] = append(hits[j], fmt.Sprintf("m%d", i))
					if v > max {
						max = v
					}
				}
				e := mt[fmt.Sprintf("m%d", i)]
				if e == nil {
					bad("message coverage", "message m%d is not listed", i)
					good = false
					break
				}
				f := func(name string) absint.Val { return o.St.Resolve(absint.FieldOf(e, name, fieldType(e.Typ(), name))) }
				covered, isB := absint.IsBool(f("Covered"))
				dec, isI := absint.IsInt(f("Decision"))
				l1, ok1 := c.list(a, o.St, f("IdsOfCoveringRules"))
				l2, ok2 := c.list(a, o.St, f("DecisionsOfCoveringRules"))
				if !isB || !isI || !ok1 || !ok2 {
					bad("message coverage", "the entry %s of message m%d is not determined by the verdicts", e.K(), i)
					good = false
					break
				}
				if covered != (max != 0) || dec != max || ids(l1) != strings.Join(rs, ",") || ids(l2) != strings.Join(vs, ",") {
					bad("message coverage", "m%d is reported covered=%v decision=%d rules=[%s] verdicts=[%s], expected covered=%v decision=%d rules=%v verdicts=%v", i, covered, dec, ids(l1), ids(l2), max != 0, max, rs, vs)
					good = false
					break
				}
			}
			if good {
				c.OK("message coverage")
			} else {
				return
			}
			if len(rt) != n {
				bad("rule coverage", "%d rules are listed, expected %d", len(rt), n)
				return
			}
			for j := 0; j < n; j++ {
				e := rt[fmt.Sprintf("r%d", j)]
				if e == nil {
					bad("rule coverage", "rule r%d is not listed", j)
					return
				}
				l, ok := c.list(a, o.St, e)
				if !ok || ids(l) != strings.Join(hits[j], ",") {
					bad("rule coverage", "r%d is reported with messages %s, expected %v", j, e.K(), hits[j])
					return
				}
			}
			c.OK("rule coverage")
		})
	}
}
