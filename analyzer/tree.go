package main

import (
	"go/types"
	"sort"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// treeRun is the analysis of one node type's method with the child nodes
// abstract: evaluating child n with the message in context x is the atom
// holds(n, x) and its return data the term data(n, x).
type treeRun struct {
	c    *C
	a    *absint.Analysis
	fn   *ssa.Function
	name string
	self absint.Val
	msg  absint.Val
	args []absint.Val
}

// with lists how the message differs from the one the caller passed.
func (t *treeRun) with(st *absint.State, m absint.Val) []absint.Val {
	var out []absint.Val
	if m.K() != t.msg.K() {
		out = append(out, absint.NewTerm("message", m.Typ(), m))
	}
	root := absint.LocOf(t.msg).S
	for _, c := range st.Changed() {
		l := c.Loc()
		if l.Root().S != root {
			continue
		}
		v := st.Resolve(c.Val())
		if p, ok := v.(*absint.Ptr); ok {
			v = st.Load(p.L)
		}
		out = append(out, absint.NewTerm("with:"+strings.TrimPrefix(l.S, root+"."), v.Typ(), v))
	}
	return out
}

func holds(n absint.Val, x ...absint.Val) absint.Val {
	return absint.Pred("holds", append([]absint.Val{n}, x...)...)
}

// newTree prepares the analysis of Type.Method.
func (c *C) newTree(typ, method string) *treeRun {
	fn := c.fn(typ + "." + method)
	if fn == nil {
		return nil
	}
	t := &treeRun{c: c, a: c.P.NewAnalysis(), fn: fn, name: typ + "." + method}
	for i, p := range fn.Params {
		v := absint.Param(p.Name(), p.Type())
		if i == 0 {
			v = absint.Param("node", p.Type())
			t.self = v
		}
		if absint.ShortType(p.Type()) == "*MessageAttributes" {
			v = absint.SymPtr("message", p.Type())
			t.msg = v
		}
		t.args = append(t.args, v)
	}
	t.a.Models["Node.Eval"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		x := append([]absint.Val{args[0]}, t.with(st, args[1])...)
		return []absint.Ret{{St: st, Vals: []absint.Val{absint.Pred("holds", x...), absint.NewTerm("data", call.Sig.Results().At(1).Type(), x...)}}}
	}
	t.a.Models["AnyAllNode.Eval"] = t.a.Models["Node.Eval"]
	t.a.Models["Node.PrepareAndValidate"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		return []absint.Ret{{St: st, Vals: []absint.Val{prepErr(args...)}}}
	}
	t.a.ModelOf = t.models
	return t
}

func prepErr(args ...absint.Val) absint.Val {
	return absint.NewTerm("preperr", types.Universe.Lookup("error").Type(), args...)
}

// models abstracts selecting the elements of a quantifier and extracting
// return values; both are examined on their own.
func (t *treeRun) models(fn *ssa.Function) absint.Model {
	res := fn.Signature.Results()
	takesMsg := false
	for _, p := range fn.Params {
		if absint.ShortType(p.Type()) == "*MessageAttributes" {
			takesMsg = true
		}
	}
	if !takesMsg {
		return nil
	}
	kind := ""
	if res.Len() == 2 && absint.ShortType(res.At(1).Type()) == "error" {
		switch absint.ShortType(res.At(0).Type()) {
		case "[]interface{}":
			kind = "selected values"
		case "[][]byte":
			kind = "selected bytes"
		}
	}
	if res.Len() == 1 && absint.ShortType(res.At(0).Type()) == "map[string]interface{}" {
		kind = "extract"
	}
	if kind == "" {
		return nil
	}
	return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		var x []absint.Val
		for i, p := range fn.Params {
			if absint.ShortType(p.Type()) == "*MessageAttributes" {
				x = append(x, t.with(st, args[i])...)
				continue
			}
			v := args[i]
			if iv, ok := v.(*absint.IfaceV); ok {
				v = iv.X
			}
			x = append(x, v)
		}
		if kind == "extract" {
			return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("extract", res.At(0).Type(), x...)}}}
		}
		return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm(kind, res.At(0).Type(), x...), absint.NewTerm(kind+"#err", res.At(1).Type(), x...)}}}
	}
}

func (t *treeRun) run(init func(st *absint.State)) []absint.Ret {
	st := t.a.NewState()
	if init != nil {
		init(st)
	}
	return t.a.Run(st, t.fn, t.args)
}

// nodeTypes are the types that implement Node.
func (c *C) nodeTypes() []string {
	iface, ok := c.typ("Node").Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []string
	sc := c.P.Pkgs.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), iface) || types.Implements(types.NewPointer(tn.Type()), iface) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	if len(out) < 6 {
		c.Fail("anchor", "Node", 0, "only %d node types were found", len(out))
	}
	return out
}

func checkC06(c *C) {
	for _, x := range []struct {
		typ string
		all bool
	}{{"And", true}, {"Or", false}} {
		if t := c.newTree(x.typ, "Eval"); t != nil {
			list := absint.At(t.self, "Nodes")
			e := &exists{key: "child", list: list, match: func(o *absint.Oracle, el absint.Val) bool {
				return o.Is(holds(el)) != x.all
			}}
			attach(t.a, e)
			rets := t.run(nil)
			c.absorb(t.a, t.name, t.fn.Pos(), rets)
			c.foldResult(t, rets, e, func(o *absint.Oracle, r absint.Ret) bool { return o.Is(r.Vals[0]) != x.all }, "children")
		}
		if t := c.newTree(x.typ, "PrepareAndValidate"); t != nil {
			list := absint.At(t.self, "Nodes")
			lists := t.args[1]
			e := &exists{key: "child", list: list, match: func(o *absint.Oracle, el absint.Val) bool {
				return o.NotNil(prepErr(el, lists))
			}}
			attach(t.a, e)
			rets := t.run(nil)
			c.absorb(t.a, t.name, t.fn.Pos(), rets)
			c.foldResult(t, rets, e, func(o *absint.Oracle, r absint.Ret) bool { return o.NotNil(r.Vals[0]) }, "preparation of children")
		}
	}
	if t := c.newTree("Not", "Eval"); t != nil {
		rets := t.run(nil)
		c.absorb(t.a, t.name, t.fn.Pos(), rets)
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				child := o.Is(holds(absint.At(t.self, "Node")))
				if got := o.Is(r.Vals[0]); got == child {
					c.Fail("negation", t.name, r.Pos, "%s returns %v when its child is %v; path: %s", t.name, got, child, describe(o))
					return
				}
				c.OK("negation")
			})
		}
	}
	for _, typ := range []string{"Not", "Any", "All"} {
		t := c.newTree(typ, "PrepareAndValidate")
		if t == nil {
			continue
		}
		rets := t.run(nil)
		c.absorb(t.a, t.name, t.fn.Pos(), rets)
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				failed := o.NotNil(prepErr(absint.At(t.self, "Node"), t.args[1]))
				if got := o.NotNil(r.Vals[0]); failed && !got {
					c.Fail("preparation of children", t.name, r.Pos, "%s returns no error although its child's preparation may fail; path: %s", t.name, describe(o))
					return
				} else if typ == "Not" && got && !failed {
					c.Fail("preparation of children", t.name, r.Pos, "%s returns an error although its child is prepared; path: %s", t.name, describe(o))
					return
				}
				c.OK("preparation of children")
			})
		}
	}
	c.Want("children", 6)
	c.Want("preparation of children", 9)
	c.Want("negation", 2)
}

// foldResult compares the returned truth with the search over all children.
func (c *C) foldResult(t *treeRun, rets []absint.Ret, e *exists, result func(o *absint.Oracle, r absint.Ret) bool, rule string) {
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			v, ok := o.St.Mon[e.key]
			if !ok {
				if b, known := o.St.Decide(absint.Eq(absint.Len(e.list), absint.Int(0))); !known || !b {
					c.Fail(rule, t.name, r.Pos, "%s returns without considering all of %s; path: %s", t.name, e.list.K(), describe(o))
					return
				}
				v = "no"
			}
			got := result(o, r)
			if v == "cut" {
				c.Fail(rule, t.name, r.Pos, "%s stops at a child that does not decide the result; path: %s", t.name, describe(o))
				return
			}
			if got != (v == "yes") {
				c.Fail(rule, t.name, r.Pos, "the result of %s does not follow from its children (deciding child seen: %s); path: %s", t.name, v, describe(o))
				return
			}
			c.OK(rule)
		})
	}
}

// quantLoops finds the loops whose iterations evaluate the inner condition.
func (t *treeRun) quantLoops() map[string]bool {
	out := map[string]bool{}
	for _, r := range t.a.Recs {
		if !r.Loop.Full || r.Loop.Iter == nil || listOf(r.Loop) == nil {
			continue
		}
		for _, f := range r.St.FactList() {
			if strings.Contains(f, "holds(") && strings.Contains(f, r.Loop.Iter.Op) {
				out[r.Loop.ID] = true
			}
		}
	}
	return out
}

// listOf is the list a loop runs over.
func listOf(lm *absint.LoopMeta) absint.Val {
	b, ok := lm.Bound.(*absint.Term)
	if !ok || b.Op != "len" || len(b.Args) != 1 {
		return nil
	}
	return b.Args[0]
}

// elemCtx is the context in which the inner condition has to be evaluated.
func elemCtx(list, it absint.Val) absint.Val {
	el := absint.ElemAt(list, it)
	f := "RequestRawInterfaceRelative"
	if absint.ShortType(list.Typ()) == "[][]byte" {
		f = "RequestJsonRawRelative"
	}
	return absint.NewTerm("with:"+f, el.Typ(), el)
}

// quantMonitor keeps, per quantifier loop, whether an element decided it.
func (t *treeRun) quantMonitor(loops map[string]bool, all bool) {
	node := absint.At(t.self, "Node")
	match := func(o *absint.Oracle, lm *absint.LoopMeta) bool {
		return o.Is(holds(node, elemCtx(listOf(lm), lm.Iter))) != all
	}
	t.a.OnEnter = func(s *absint.State, lm *absint.LoopMeta) {
		if loops[lm.ID] {
			s.Mon["q"] = "no"
			s.Mon["list"] = listOf(lm).K()
		}
	}
	t.a.OnBackEdge = func(s *absint.State, lm *absint.LoopMeta, old, nw map[string]absint.Val) []*absint.State {
		if !loops[lm.ID] {
			return []*absint.State{s}
		}
		var out []*absint.State
		absint.Complete(s, func(o *absint.Oracle) {
			if match(o, lm) {
				o.St.Mon["q"] = "yes"
			}
			out = append(out, o.St)
		})
		return out
	}
	t.a.OnExit = func(s *absint.State, lm *absint.LoopMeta, early bool) []*absint.State {
		if !loops[lm.ID] || !early {
			return []*absint.State{s}
		}
		var out []*absint.State
		absint.Complete(s, func(o *absint.Oracle) {
			if o.St.Mon["q"] != "yes" {
				if match(o, lm) {
					o.St.Mon["q"] = "yes"
				} else {
					o.St.Mon["q"] = "cut"
				}
			}
			out = append(out, o.St)
		})
		return out
	}
}

func checkC07(c *C) {
	for _, x := range []struct {
		typ string
		all bool
	}{{"Any", false}, {"All", true}} {
		t := c.newTree(x.typ, "Eval")
		if t == nil {
			continue
		}
		t.run(nil)
		loops := t.quantLoops()
		if len(loops) == 0 {
			c.Fail("elements", t.name, t.fn.Pos(), "no loop was found that evaluates the inner condition with each element as its context")
			continue
		}
		t.quantMonitor(loops, x.all)
		rets := t.run(nil)
		c.absorb(t.a, t.name, t.fn.Pos(), rets)
		kinds := map[string]bool{}
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				got := o.Is(r.Vals[0])
				parsed := o.NotNil(absint.At(t.msg, "RequestRawInterface")) && o.NotNil(absint.At(t.self, "PreparedJsonpathQuery"))
				kind := "selected bytes"
				if parsed {
					kind = "selected values"
				}
				// the selection that was made
				errT := absint.NewTerm(kind+"#err", types.Universe.Lookup("error").Type(), t.self)
				if o.NotNil(errT) {
					if got {
						c.Fail("selection", t.name, r.Pos, "%s is true although selecting the elements failed; path: %s", t.name, describe(o))
						return
					}
					c.OK("selection")
					return
				}
				list, ok := o.St.Mon["list"]
				v := o.St.Mon["q"]
				if !ok {
					// no loop was entered: only right for no elements
					c.Fail("elements", t.name, r.Pos, "%s returns without looking at the elements; path: %s", t.name, describe(o))
					return
				}
				if list != absint.NewTerm(kind, t.self.Typ(), t.self).K() {
					c.Fail("representation", t.name, r.Pos, "%s runs over %s, expected the %s of the node; path: %s", t.name, list, kind, describe(o))
					return
				}
				kinds[kind] = true
				if v == "cut" {
					c.Fail("elements", t.name, r.Pos, "%s stops at an element that does not decide the result; path: %s", t.name, describe(o))
					return
				}
				if got != ((v == "yes") != x.all) {
					c.Fail("elements", t.name, r.Pos, "%s returns %v (deciding element seen: %s); path: %s", t.name, got, v, describe(o))
					return
				}
				c.OK("elements")
			})
		}
		for _, k := range []string{"selected bytes", "selected values"} {
			if !kinds[k] {
				c.Fail("representation", t.name+" "+k, t.fn.Pos(), "%s never runs over the %s", t.name, k)
			}
		}
	}
	c.Want("elements", 8)
	c.Want("selection", 4)
	selection(c)
}
