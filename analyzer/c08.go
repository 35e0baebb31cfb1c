package main

import (
	"go/types"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

var checkFuncs = []string{"Check", "CheckOneRule", "TestConditions", "TestSender", "TestReceiver", "Rule.Check", "Rule.TestConditions"}

// evalFuncs are the public ways to evaluate a message: the check functions
// and every node type's evaluation.
func (c *C) evalFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, n := range checkFuncs {
		if fn := c.fn(n); fn != nil {
			out = append(out, fn)
		}
	}
	for _, n := range c.nodeTypes() {
		if fn := c.fn(n + ".Eval"); fn != nil {
			out = append(out, fn)
		}
	}
	return out
}

func isMsg(t types.Type) bool { return absint.ShortType(t) == "*MessageAttributes" }

// ready restricts a run to rules that are prepared.
func (c *C) assumePrepared(st *absint.State, fn *ssa.Function, args []absint.Val) {
	prep, ready := c.preparedField(), c.readyField()
	rule := absint.ArgOf(fn, args, "*Rule")
	if rule == nil {
		return
	}
	st.Assume(absint.At(rule, "AlreadyConvertedFieldsToRegexFlag"), true)
	st.Assume(absint.At(rule, ready), true)
	p := absint.At(rule, prep)
	st.Assume(absint.Eq(p, absint.Nil(p.Typ())), false)
	st.Assume(absint.At(p, "AlreadyConvertedFieldsToRegexFlag"), true)
}

// deadWhenPrepared finds the code that evaluating prepared rules never
// reaches, by dataflow through the public check functions with the ready
// state assumed.
func (c *C) deadWhenPrepared() map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	roots := map[*ssa.Function]bool{}
	for _, name := range checkFuncs {
		roots[c.fn(name)] = true
	}
	for _, name := range checkFuncs {
		fn := c.fn(name)
		if fn == nil {
			continue
		}
		a := c.P.NewAnalysis()
		var args []absint.Val
		for _, p := range fn.Params {
			v := absint.Param(p.Name(), p.Type())
			if isMsg(p.Type()) {
				v = absint.SymPtr("message", p.Type())
			}
			args = append(args, v)
		}
		a.Models["Node.Eval"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			return []absint.Ret{{St: st, Vals: []absint.Val{absint.Pred("holds", args[0]), absint.NewTerm("data", call.Sig.Results().At(1).Type(), args[0])}}}
		}
		// the other check functions are followed on their own
		a.ModelOf = func(f *ssa.Function) absint.Model {
			if !roots[f] {
				return nil
			}
			return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
				return []absint.Ret{{St: st, Vals: absint.OpaqueResults(call.Name, call.Sig, args)}}
			}
		}
		st := a.NewState()
		c.assumePrepared(st, fn, args)
		rets := a.Run(st, fn, args)
		c.absorb(a, name, fn.Pos(), rets)
		for b := range a.Visited {
			seen[b] = true
		}
	}
	dead := map[*ssa.BasicBlock]bool{}
	fns := map[*ssa.Function]bool{}
	for b := range seen {
		fns[b.Parent()] = true
	}
	for f := range fns {
		for _, b := range f.Blocks {
			if !seen[b] {
				dead[b] = true
			}
		}
	}
	return dead
}

// evalEffects are the memory effects of evaluating prepared rules.
func (c *C) evalEffects() *effects {
	e := newEffects(c)
	e.dead = c.deadWhenPrepared()
	for _, fn := range c.evalFuncs() {
		var ps []objs
		for _, p := range fn.Params {
			switch {
			case isMsg(p.Type()):
				ps = append(ps, objs{"message": true})
			case mayPoint(p.Type()):
				ps = append(ps, objs{"rule": true})
			default:
				ps = append(ps, nil)
			}
		}
		e.root(fn, ps)
	}
	e.solve()
	return e
}

func checkC08(c *C) {
	covered := map[*ssa.Function]bool{}
	// on every way out of a quantifier or connective the message is as before
	for _, typ := range c.nodeTypes() {
		if typ == "Condition" {
			continue // no write at all is allowed there
		}
		t := c.newTree(typ, "Eval")
		if t == nil {
			continue
		}
		rets := t.run(nil)
		c.absorb(t.a, t.name, t.fn.Pos(), rets)
		for b := range t.a.Visited {
			covered[b.Parent()] = true
		}
		root := absint.LocOf(t.msg).S
		for _, r := range rets {
			bad := false
			for _, cl := range r.St.Changed() {
				l := cl.Loc()
				if l.Root().S != root {
					continue
				}
				bad = true
				way := "returns"
				if r.Panic != "" {
					continue
				}
				c.Fail("message restored", t.name+": "+strings.TrimPrefix(l.S, root+"."), r.Pos, "%s %s with %s changed to %s; path: %s", t.name, way, l.S, cut(cl.Val().K(), 200), facts(r.St))
			}
			if !bad {
				c.OK("message restored")
			}
		}
	}
	// everything else leaves the message and all it refers to alone
	e := c.evalEffects()
	for _, w := range e.list() {
		if w.obj == "message" && w.field != "" && covered[w.fn] {
			c.OK("writes covered by the exit rule")
			continue
		}
		if strings.HasPrefix(w.obj, "message") {
			what := "memory the message refers to"
			if w.obj == "message" {
				what = "the message's field " + w.field
			}
			c.Fail("no other write", c.P.Name(w.fn)+": "+w.how+" "+w.field, w.in.Pos(), "%s may write %s by %s while evaluating", c.P.Name(w.fn), what, w.how)
		}
	}
	c.Obl["no other write"] += len(e.sites)
	c.Want("message restored", 20)
	c.Want("no other write", 200)
}

// checkC15: evaluation writes no shared memory.
func checkC15(c *C) {
	e := c.evalEffects()
	for _, w := range e.list() {
		if strings.HasPrefix(w.obj, "message") {
			continue
		}
		what := "memory reachable from the rules"
		if strings.HasPrefix(w.obj, "global ") {
			what = "the package variable " + strings.TrimPrefix(w.obj, "global ")
		}
		c.Fail("shared memory", c.P.Name(w.fn)+": "+w.how+" "+w.field, w.in.Pos(), "%s may write %s by %s while evaluating prepared rules", c.P.Name(w.fn), what, w.how)
	}
	c.Obl["shared memory"] += len(e.sites)
	c.Want("shared memory", 200)
	c.globals()
}

// globals: package variables are written only by their initialisers and by
// the documented setter.
func (c *C) globals() {
	e := newEffects(c)
	e.depth = 2
	for _, fn := range c.P.AllFuncs() {
		if fn.Pkg != c.P.Pkg || len(fn.Blocks) == 0 || fn.Name() == "init" || fn.Parent() != nil {
			continue
		}
		var ps []objs
		for _, p := range fn.Params {
			if mayPoint(p.Type()) {
				ps = append(ps, objs{"argument of " + c.P.Name(fn) + "." + p.Name(): true})
			} else {
				ps = append(ps, nil)
			}
		}
		e.root(fn, ps)
		c.OK("package variables")
	}
	e.solve()
	setter := c.fn("SetGlobalPredefinedStringsAndLists")
	only := c.onlyCalledFrom(setter)
	for _, w := range e.list() {
		if !strings.HasPrefix(w.obj, "global ") || strings.Contains(w.obj, ".") {
			continue
		}
		if w.obj == "global GlobalPredefinedStringsAndLists" && (w.fn == setter || only[w.fn]) {
			c.OK("package variables")
			continue
		}
		c.Fail("package variables", c.P.Name(w.fn)+": "+w.obj, w.in.Pos(), "%s may write the package variable %s by %s", c.P.Name(w.fn), strings.TrimPrefix(w.obj, "global "), w.how)
	}
	c.Want("package variables", 100)
}

// onlyCalledFrom are the unexported functions with no caller but fn.
func (c *C) onlyCalledFrom(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	if fn == nil {
		return out
	}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range c.P.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if callers[g] == nil {
							callers[g] = map[*ssa.Function]bool{}
						}
						callers[g][f] = true
					}
				}
			}
		}
	}
	for g, cs := range callers {
		if len(cs) == 1 && cs[fn] && !token_IsExported(g.Name()) {
			out[g] = true
		}
	}
	return out
}

func token_IsExported(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }
