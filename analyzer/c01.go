package main

import (
	"fmt"
	"go/types"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

const extraT = "[]map[string]interface{}"

// verdictModel abstracts "the verdict and return data of rule r for message m":
// any function of the package from a rule and a message to (int, return data).
func verdictModel(msg absint.Val) func(fn *ssa.Function) absint.Model {
	return func(fn *ssa.Function) absint.Model {
		if !absint.SigIs(fn, []string{"*Rule", "*MessageAttributes"}, []string{"int", extraT}) {
			return nil
		}
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			r := absint.ArgOf(fn, args, "*Rule")
			m := absint.ArgOf(fn, args, "*MessageAttributes")
			l := absint.LocOf(r)
			if l == nil {
				return nil
			}
			return []absint.Ret{{St: st, Vals: verdictOf(st.Load(l), m, msg, fn.Signature.Results())}}
		}
	}
}

func verdictOf(rule, m, msg absint.Val, res *types.Tuple) []absint.Val {
	if m.K() == msg.K() {
		return []absint.Val{absint.NewTerm("verdict", res.At(0).Type(), rule), absint.NewTerm("returndata", res.At(1).Type(), rule)}
	}
	return []absint.Val{absint.NewTerm("verdict", res.At(0).Type(), rule, m), absint.NewTerm("returndata", res.At(1).Type(), rule, m)}
}

func verdictDomain(v absint.Val) []*absint.Const {
	if t, ok := v.(*absint.Term); ok && t.Op == "verdict" {
		return []*absint.Const{absint.Int(0), absint.Int(1), absint.Int(2), absint.Int(3)}
	}
	return nil
}

func verdictValue(o *absint.Oracle, v absint.Val) int64 {
	for d := int64(0); d < 3; d++ {
		if o.Is(absint.Eq(v, absint.Int(d))) {
			return d
		}
	}
	return 3
}

func checkC01(c *C) {
	fn := c.fn("Check")
	if fn == nil {
		return
	}
	msg := absint.SymPtr("message", fn.Params[0].Type())
	rules := absint.SymPtr("rules", fn.Params[1].Type())
	list := absint.At(rules, "Rules")
	n := absint.Len(list)
	verdictAt := func(i absint.Val) absint.Val {
		return absint.NewTerm("verdict", types.Typ[types.Int], absint.ElemAt(list, i))
	}
	a := c.P.NewAnalysis()
	a.ModelOf = verdictModel(msg)
	a.Domain = verdictDomain
	run := func() []absint.Ret {
		st := a.NewState()
		return a.Run(st, fn, []absint.Val{msg, rules})
	}
	run()
	// loops that fold the verdicts of all rules
	fold := map[string]bool{}
	for _, r := range a.Recs {
		if r.Loop.Full && r.Loop.Bound.K() == n.K() && r.St.Mentions(verdictAt(r.Loop.Iter).K()) {
			fold[r.Loop.ID] = true
		}
	}
	if len(fold) == 0 {
		c.Fail("fold", "Check", fn.Pos(), "no loop was found that takes every rule of the list into account when deciding")
		return
	}
	step := func(s *absint.State, lm *absint.LoopMeta, key string) []*absint.State {
		var out []*absint.State
		absint.Complete(s, func(o *absint.Oracle) {
			v := verdictValue(o, verdictAt(lm.Iter))
			m := o.St.Mon[key]
			if m == "" {
				m = "0"
			}
			if fmt.Sprint(v) > m {
				m = fmt.Sprint(v)
			}
			if tot, ok := o.St.Mon["total"]; ok && m > tot {
				return // no rule is stricter than the maximum over all rules
			}
			o.St.Mon[key] = m
			out = append(out, o.St)
		})
		return out
	}
	a.OnEnter = func(s *absint.State, lm *absint.LoopMeta) {
		if fold[lm.ID] {
			s.Mon["max:"+lm.ID] = "0"
		}
	}
	a.OnBackEdge = func(s *absint.State, lm *absint.LoopMeta, old, nw map[string]absint.Val) []*absint.State {
		if !fold[lm.ID] {
			return []*absint.State{s}
		}
		return step(s, lm, "max:"+lm.ID)
	}
	a.OnExit = func(s *absint.State, lm *absint.LoopMeta, early bool) []*absint.State {
		if !fold[lm.ID] {
			return []*absint.State{s}
		}
		if early {
			// the element that ended the loop is not folded in
			return []*absint.State{s}
		}
		// the maximum over all rules is a function of the rules: complete
		// folds of different loops agree
		if m, ok := s.Mon["total"]; ok && m != s.Mon["max:"+lm.ID] {
			return nil
		}
		s.Mon["total"] = s.Mon["max:"+lm.ID]
		return []*absint.State{s}
	}
	rets := run()
	c.absorb(a, "Check", fn.Pos(), rets)
	c.Notes = append(c.Notes, fmt.Sprintf("%d loop(s) fold the verdicts", len(fold)))

	desc := func(o *absint.Oracle, i absint.Val) absint.Val {
		md := absint.At(absint.ElemAt(list, i), "Metadata")
		k := absint.Str("description")
		if o.Is(absint.MapHas(md, k)) {
			return absint.MapGet(md, k)
		}
		return absint.Str("")
	}
	sameDesc := func(o *absint.Oracle, got, i absint.Val) bool {
		got = o.St.Resolve(got)
		md := absint.At(absint.ElemAt(list, i), "Metadata")
		if got.K() == absint.MapGet(md, absint.Str("description")).K() {
			return true
		}
		return got.K() == desc(o, i).K()
	}
	// carried checks, for every iteration of a fold loop, how a returned
	// loop-carried value evolves.
	carried := func(tok absint.Val, what string, ok func(o *absint.Oracle, old, nw, it absint.Val, v, max int64) bool) (string, bool) {
		lm, comp, is := a.TokenOf(tok)
		if !is || !fold[lm.ID] {
			return "the value does not come from the loop over all rules: " + tok.K(), false
		}
		bad := ""
		for _, r := range a.Recs {
			if r.Loop.ID != lm.ID {
				continue
			}
			max := int64(0)
			fmt.Sscan(r.St.Mon["max:"+lm.ID], &max)
			absint.Complete(r.St, func(o *absint.Oracle) {
				v := verdictValue(o, verdictAt(lm.Iter))
				if !ok(o, o.St.Resolve(r.Old[comp]), o.St.Resolve(r.New[comp]), lm.Iter, v, max) && bad == "" {
					bad = fmt.Sprintf("with verdict %d for the current rule and strictest verdict %d so far, %s goes from %s to %s", v, max, what, r.Old[comp].K(), r.New[comp].K())
				}
				c.OK(what + " step")
			})
		}
		return bad, bad == ""
	}
	indexOK := func(s *absint.State, idx absint.Val, d int64) (string, bool) {
		if i, isC := absint.IsInt(idx); isC {
			if i == -1 && d == 0 {
				return "", true
			}
			return fmt.Sprintf("index %d with strictest verdict %d", i, d), false
		}
		if d == 0 {
			return "an index is reported although no rule fired: " + idx.K(), false
		}
		if lm := a.LoopOfIter(idx); lm != nil {
			m := int64(0)
			fmt.Sscan(s.Mon["max:"+lm.ID], &m)
			v := int64(-1)
			if b, known := s.Decide(absint.Eq(verdictAt(idx), absint.Int(d))); known && b {
				v = d
			}
			if fold[lm.ID] && v == d && m < d {
				return "", true
			}
			return "the reported index is not that of the first strictest rule", false
		}
		return carried(idx, "decisive index", func(o *absint.Oracle, old, nw, it absint.Val, v, max int64) bool {
			if v > max {
				return nw.K() == it.K()
			}
			return nw.K() == old.K()
		})
	}
	cache := map[string]string{}
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		var d int64
		tot, ok := r.St.Mon["total"]
		if !ok {
			if b, known := r.St.Decide(absint.Eq(n, absint.Int(0))); known && b {
				tot = "0"
			} else {
				c.Fail("fold", "Check", r.Pos, "a result is returned before every rule was considered; path: %s", facts(r.St))
				continue
			}
		}
		fmt.Sscan(tot, &d)
		res := fn.Signature.Results()
		name := func(i int) string { return fmt.Sprintf("result %d of Check (%s)", i+1, res.At(i).Name()) }
		check := func(rule string, i int, why string, good bool) {
			if good {
				c.OK(rule)
			} else {
				c.Fail(rule, name(i), r.Pos, "%s; strictest verdict %d; path: %s", why, d, facts(r.St))
			}
		}
		memo := func(key string, f func() (string, bool)) (string, bool) {
			if w, ok := cache[key]; ok {
				return w, w == ""
			}
			w, ok := f()
			if !ok && w == "" {
				w = "mismatch"
			}
			cache[key] = w
			return w, ok
		}
		// decision
		got := r.Vals[0]
		goodIdx := func(i absint.Val) bool {
			w, g := memo(fmt.Sprint("idx", i.K(), d, r.St.Mon), func() (string, bool) { return indexOK(r.St, i, d) })
			_ = w
			return g
		}
		gi, isC := absint.IsInt(got)
		dOK := isC && gi == d
		if t, isT := got.(*absint.Term); isT && t.Op == "verdict" && len(t.Args) == 1 {
			if l := absint.LocOf(t.Args[0]); l != nil && l.Idx != nil {
				dOK = goodIdx(l.Idx) && got.K() == verdictAt(l.Idx).K()
			}
		}
		if !isC && !dOK {
			if b, known := r.St.Decide(absint.Eq(got, absint.Int(d))); known && b {
				dOK = true
			}
		}
		check("strictest verdict", 0, "the decision is "+got.K(), dOK)
		// index
		idx := r.Vals[2]
		w, g := memo(fmt.Sprint("idx", idx.K(), d, r.St.Mon), func() (string, bool) { return indexOK(r.St, idx, d) })
		check("decisive rule", 2, w, g)
		// per-rule results
		for _, x := range []struct {
			i  int
			op string
		}{{3, "verdict"}, {6, "returndata"}} {
			et := res.At(x.i).Type().Underlying().(*types.Slice).Elem()
			w, g := memo(fmt.Sprint("map", x.i, r.Vals[x.i].K(), r.St.HeapAt(r.Vals[x.i])), func() (string, bool) {
				return mapsOver(a, r.St, r.Vals[x.i], n, func(o *absint.Oracle, v, i absint.Val) bool {
					return v.K() == absint.NewTerm(x.op, et, absint.ElemAt(list, i)).K()
				})
			})
			check("per-rule "+x.op, x.i, w, g)
		}
		// applied rules
		w, g = "", true
		if l, isL := r.Vals[4].(*absint.ListV); isL && l.Base == nil && len(l.Elems) == 0 || absint.IsNil(r.Vals[4]) {
			if d != 0 {
				w, g = "the list of applied rules is empty although a rule fired", false
			}
		} else {
			w, g = memo("app"+r.Vals[4].K(), func() (string, bool) {
				return carried(r.Vals[4], "applied list", func(o *absint.Oracle, old, nw, it absint.Val, v, max int64) bool {
					if v == 0 {
						return old.K() == nw.K()
					}
					ol, ok1 := a.ToList(o.St, old)
					nl, ok2 := a.ToList(o.St, nw)
					return ok1 && ok2 && appended(ol, nl, it)
				})
			})
		}
		check("applied rules", 4, w, g)
		// description
		dv := r.Vals[5]
		if s, isS := absint.IsStr(dv); isS {
			w, g = "", s == ""
			if d != 0 {
				// only right when the decisive rule has none
				w, g = "the description is constant although a rule fired", false
				if goodIdx(idx) {
					g = true
					absint.Complete(r.St, func(o *absint.Oracle) {
						g = g && sameDesc(o, dv, idx)
					})
				}
				if g {
				} else if lm, _, is := a.TokenOf(idx); is && s == "" {
					w, g = carriedDesc(a, lm, verdictAt, sameDesc)
				}
			} else if !g {
				w = "description " + s + " without a decisive rule"
			}
		} else if d == 0 {
			w, g = "a description is reported although no rule fired: "+dv.K(), false
		} else if t, isT := dv.(*absint.Term); isT && t.Op == "get" {
			g = false
			w = "description of another rule: " + dv.K()
			if l := absint.LocOf(t.Args[0]); l != nil && l.Parent != nil && l.Parent.Idx != nil && goodIdx(l.Parent.Idx) {
				g = dv.K() == absint.MapGet(absint.At(absint.ElemAt(list, l.Parent.Idx), "Metadata"), absint.Str("description")).K()
			}
		} else {
			w, g = memo("desc"+dv.K(), func() (string, bool) {
				return carried(dv, "description", func(o *absint.Oracle, old, nw, it absint.Val, v, max int64) bool {
					if v > max {
						return sameDesc(o, nw, it)
					}
					return nw.K() == old.K()
				})
			})
		}
		check("decisive description", 5, w, g)
	}
	c.Want("strictest verdict", 4)
	c.Want("decisive rule", 4)
	c.Want("applied rules", 4)
	c.Want("decisive description", 4)
}

// carriedDesc: a constant empty description is right only if on every strict
// increase the rule has no description; the facts of this path cannot tell for
// all rules, so the steps of the loop have to set it to empty themselves.
func carriedDesc(a *absint.Analysis, lm *absint.LoopMeta, verdictAt func(absint.Val) absint.Val, sameDesc func(o *absint.Oracle, got, i absint.Val) bool) (string, bool) {
	// the component is not known here: accept if some component of the loop
	// carries the description correctly
	comps := map[string]bool{}
	for _, r := range a.Recs {
		if r.Loop.ID == lm.ID {
			for k := range r.New {
				comps[k] = true
			}
		}
	}
	for k := range comps {
		good, n := true, 0
		for _, r := range a.Recs {
			if r.Loop.ID != lm.ID {
				continue
			}
			old, nw := r.Old[k], r.New[k]
			if old == nil || nw == nil {
				good = false
				break
			}
			max := int64(0)
			fmt.Sscan(r.St.Mon["max:"+lm.ID], &max)
			absint.Complete(r.St, func(o *absint.Oracle) {
				v := verdictValue(o, verdictAt(lm.Iter))
				if v > max {
					n++
					if !sameDesc(o, nw, lm.Iter) {
						good = false
					}
				} else if old.K() != nw.K() {
					good = false
				}
			})
		}
		if good && n > 0 {
			return "", true
		}
	}
	return "the description is empty although a rule fired", false
}

// appended: nw is old followed by exactly one element x.
func appended(old, nw *absint.ListV, x absint.Val) bool {
	if len(nw.Elems) != len(old.Elems)+1 {
		return false
	}
	ob, nb := "", ""
	if old.Base != nil {
		ob = old.Base.K()
	}
	if nw.Base != nil {
		nb = nw.Base.K()
	}
	if ob != nb {
		return false
	}
	for i, e := range old.Elems {
		if e.K() != nw.Elems[i].K() {
			return false
		}
	}
	return nw.Elems[len(nw.Elems)-1].K() == x.K()
}

// mapsOver decides whether a slice holds f(i) at every index i < n.
func mapsOver(a *absint.Analysis, st *absint.State, v absint.Val, n absint.Val, f func(o *absint.Oracle, v, i absint.Val) bool) (string, bool) {
	if b, known := st.Decide(absint.Eq(n, absint.Int(0))); known && b {
		return "", true
	}
	switch x := v.(type) {
	case *absint.SliceV:
		if st.Resolve(x.Len).K() != n.K() {
			return "the list has length " + x.Len.K() + ", not " + n.K(), false
		}
		i := &absint.Term{Op: "anyindex", T: types.Typ[types.Int]}
		et := x.T.Underlying().(*types.Slice).Elem()
		bad := ""
		for _, alt := range st.Split(st.Load(x.Root.Index(i, et))) {
			absint.Complete(alt.St, func(o *absint.Oracle) {
				if !f(o, o.St.Resolve(alt.V), i) && bad == "" {
					bad = "element i is " + alt.V.K()
				}
			})
		}
		return bad, bad == ""
	case *absint.Term:
		lm, comp, is := a.TokenOf(x)
		if !is || !lm.Full || lm.Bound.K() != n.K() || st.Mon["exit:"+lm.ID] != "done" {
			return "not built by a loop over all elements: " + x.K(), false
		}
		bad := ""
		for _, r := range a.Recs {
			if r.Loop.ID != lm.ID {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				ol, ok1 := a.ToList(o.St, r.Old[comp])
				nl, ok2 := a.ToList(o.St, r.New[comp])
				if !ok1 || !ok2 || len(nl.Elems) != len(ol.Elems)+1 || !appended(ol, nl, nl.Elems[len(nl.Elems)-1]) ||
					!f(o, o.St.Resolve(nl.Elems[len(nl.Elems)-1]), lm.Iter) {
					if bad == "" {
						bad = "in one iteration the list goes from " + r.Old[comp].K() + " to " + r.New[comp].K()
					}
				}
			})
		}
		return bad, bad == ""
	}
	return "not a list built per element: " + v.K(), false
}
