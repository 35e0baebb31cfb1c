package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"maplverif/absint"
)

// C09: the preparation of a rule is followed with every step succeeding or
// failing, then every function that uses the prepared form with the rule
// ready, not ready and preparable, and not ready and not preparable.
func checkC09(c *C) {
	set := c.fn("Rule.SetPredefinedStringsAndLists")
	if set == nil {
		return
	}
	c.preparation(set)
	c.users(set)
	c.Want("preparation", 10)
	c.Want("author's rule", 10)
	c.Want("use", 12)
}

// under reports whether a location belongs to the object v points to or to
// one reached from it.
func under(l *absint.Loc, v absint.Val) bool {
	r, own := l.Root(), absint.LocOf(v)
	return r.S == own.S || r.Term != nil && mentions(r.Term, own.S)
}

// of reports whether a value belongs to the object v points to.
func of(x, v absint.Val) bool { return mentions(x, absint.LocOf(v).S) }

func mentions(v absint.Val, key string) bool {
	if v.K() == key {
		return true
	}
	switch x := v.(type) {
	case *absint.Term:
		for _, y := range x.Args {
			if mentions(y, key) {
				return true
			}
		}
	case *absint.IfaceV:
		return mentions(x.X, key)
	}
	return strings.Contains(v.K(), key)
}

// ownText reports whether a location is part of what the author wrote.
func ownText(l *absint.Loc) bool {
	top := l
	for top.Parent != nil && top.Parent.Parent != nil {
		top = top.Parent
	}
	name := strings.TrimPrefix(top.Sel, ".")
	return name == "" || token.IsExported(name)
}

func (c *C) preparation(set *ssa.Function) {
	ready, prep := c.readyField(), c.preparedField()
	a := c.P.NewAnalysis()
	a.Unroll = 6
	a.TrackErrors = true
	oneEntry(a)
	rule := absint.SymPtr("author's rule", set.Params[0].Type())
	dict := absint.Param("dict", set.Params[1].Type())
	ruleT := c.typ("Rule")
	copied := absint.Param("copy", ruleT)
	tree := func(v absint.Val) absint.Val {
		ct := absint.FieldOf(v, "Conditions", fieldType(ruleT, "Conditions"))
		return absint.FieldOf(ct, "ConditionsTree", fieldType(ct.Typ(), "ConditionsTree"))
	}
	a.Models["deepcopy.Copy"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		dst, src := unbox(args[0]), unbox(args[1])
		l := absint.LocOf(dst)
		if l == nil || absint.ShortType(dst.Typ()) != "*Rule" {
			return nil
		}
		fresh := l.Root().Zero && l.Parent == nil
		for _, x := range st.Stored() {
			if strings.HasPrefix(x.L.S, l.S) && !absint.IsNil(x.V) && x.V.K() != absint.ZeroOf(x.L.T).K() {
				fresh = false
			}
		}
		if !fresh {
			c.Fail("preparation", "destination", call.Pos, "the copy is laid over memory that already holds a form of the rule")
		}
		if src.K() != rule.K() && src.K() != absint.Content(rule).K() {
			c.Fail("preparation", "source", call.Pos, "what is copied is %s, not the rule", src.K())
		}
		st.Store(l, copied)
		st.StoreField(dst, ready, absint.Bool(false))
		st.StoreField(dst, prep, absint.Nil(rule.Typ()))
		st.Mon["copy"] = l.S
		return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("deepcopy.Copy#err", absint.ErrorT, src)}}}
	}
	a.Models["Node.PrepareAndValidate"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		if of(args[0], rule) {
			c.Fail("author's rule", "conditions", call.Pos, "the conditions of the author's rule are prepared in place")
		}
		st.Mon["tree"] = args[0].K()
		if args[1].K() == dict.K() {
			st.Mon["dict"] = "given"
		} else {
			st.Mon["dict"] = args[1].K()
		}
		return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("PrepareAndValidate#err", absint.ErrorT, args[0])}}}
	}
	a.ModelOf = func(f *ssa.Function) absint.Model {
		if !absint.SigIs(f, []string{"string", "string"}, []string{"[]ExpandedSenderReceiver", "error"}) {
			return nil
		}
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			return []absint.Ret{{St: st, Vals: absint.OpaqueResults("expand", call.Sig, args)}}
		}
	}
	st := a.NewState()
	sender, receiver := absint.FieldOf(copied, "Sender", fieldType(ruleT, "Sender")), absint.FieldOf(copied, "Receiver", fieldType(ruleT, "Receiver"))
	names := map[string]absint.Val{
		"Sender":   absint.FieldOf(sender, "SenderName", absint.StringT),
		"Receiver": absint.FieldOf(receiver, "ReceiverName", absint.StringT),
	}
	listsOfThree(a, st, dict, names["Sender"], names["Receiver"])
	st.Assume(absint.Eq(absint.FieldOf(copied, "Operation", absint.StringT), absint.Str("GET")), true)
	rets := a.Run(st, set, []absint.Val{rule, dict})
	c.absorb(a, c.P.Name(set), set.Pos(), rets)
	done := 0
	for _, r := range rets {
		if r.Panic != "" {
			c.Fail("preparation", "panic", r.Pos, "preparing a rule may panic: %s", r.Panic)
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			failed, why := false, ""
			for _, e := range o.St.Errors() {
				if o.NotNil(e.V) {
					failed, why = true, e.From+" reports an error"
					break
				}
			}
			isErr := o.NotNil(r.Vals[0])
			isReady := o.Is(o.St.Load(absint.FieldLoc(rule, ready)))
			for _, x := range o.St.Changed() {
				if under(x.L, rule) && ownText(x.L) {
					c.Fail("author's rule", x.L.S, r.Pos, "preparing the rule writes %s of the author's rule; path: %s", x.L.S, describe(o))
					return
				}
			}
			c.OK("author's rule")
			switch {
			case failed && !isErr:
				c.Fail("preparation", "error lost", r.Pos, "%s, but no error is returned; path: %s", why, describe(o))
			case isErr && isReady:
				c.Fail("preparation", "ready after error", r.Pos, "an error is returned while the rule counts as ready; path: %s", describe(o))
			case isErr:
				c.OK("preparation")
			case !isReady:
				c.Fail("preparation", "not ready", r.Pos, "no error is returned but the rule does not count as ready; path: %s", describe(o))
			default:
				for _, side := range []string{"Sender", "Receiver"} {
					if resolved(o, names[side], dict, ",") == nil {
						c.Fail("preparation", side+" reference", r.Pos, "a rule whose %s name refers to nothing predefined counts as ready; path: %s", side, describe(o))
						return
					}
				}
				p := o.St.Resolve(o.St.Load(absint.FieldLoc(rule, prep)))
				l := absint.LocOf(p)
				if l == nil || o.St.Mon["copy"] == "" || l.S != o.St.Mon["copy"] {
					c.Fail("preparation", "prepared form", r.Pos, "the rule counts as ready but its prepared form is %s, not the copy prepared by this call; path: %s", p.K(), describe(o))
					return
				}
				t := tree(copied)
				if o.NotNil(t) {
					if o.St.Mon["tree"] != t.K() {
						c.Fail("preparation", "conditions", r.Pos, "the rule counts as ready though its conditions were not prepared (%s); path: %s", o.St.Mon["tree"], describe(o))
						return
					}
					if o.St.Mon["dict"] != "given" {
						c.Fail("preparation", "predefined values", r.Pos, "the conditions are prepared with %s, not with the given predefined values; path: %s", o.St.Mon["dict"], describe(o))
						return
					}
				}
				for _, f := range [][]string{{"Sender", "SenderList"}, {"Receiver", "ReceiverList"}, {"OperationRegex"}, {"Resource", "ResourceNameRegex"}} {
					v := o.St.Resolve(at(o, p, f...))
					if absint.IsNil(v) || mentions(v, copied.K()) && v.K() == deepField(copied, f).K() {
						c.Fail("preparation", strings.Join(f, "."), r.Pos, "the rule counts as ready though %s was not prepared; path: %s", strings.Join(f, "."), describe(o))
						return
					}
				}
				done++
				c.OK("preparation")
			}
		})
	}
	if done == 0 {
		c.Fail("preparation", "no success", set.Pos(), "no path on which a rule becomes ready was found")
	}
}

func deepField(v absint.Val, path []string) absint.Val {
	for _, f := range path {
		v = absint.FieldOf(v, f, fieldType(v.Typ(), f))
	}
	return v
}

// users: the exported functions that read the prepared form of a rule,
// themselves or through unexported functions.
func (c *C) users(set *ssa.Function) {
	ready, prep := c.readyField(), c.preparedField()
	callers := map[*ssa.Function][]*ssa.Function{}
	var reads []*ssa.Function
	for _, f := range c.P.AllFuncs() {
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && absint.ShortType(fa.X.Type()) == "*Rule" && absint.FieldName(fa.X.Type(), fa.Field) == prep {
					for _, u := range *fa.Referrers() {
						if _, ok := u.(*ssa.UnOp); ok {
							hit = true
						}
					}
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					callers[g] = append(callers[g], f)
				}
			}
		}
		if hit {
			reads = append(reads, f)
		}
	}
	entries := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	for len(reads) > 0 {
		f := reads[0]
		reads = reads[1:]
		if seen[f] || f == set {
			continue
		}
		seen[f] = true
		if f.Object() != nil && f.Object().Exported() {
			entries[f] = true
			continue
		}
		reads = append(reads, callers[f]...)
	}
	for _, n := range []string{"CheckOneRule", "TestConditions", "Rule.ToMongoQuery"} {
		if f := c.fn(n); f != nil {
			entries[f] = true
		}
	}
	// functions that cannot reach the typestate of a rule need not be followed
	relevant := closure(callers, func(f *ssa.Function) bool { return f == set || touches(f, prep, ready) })
	derived := closure(callers, func(f *ssa.Function) bool { return touches(f, preparedParts...) })
	var list []*ssa.Function
	for f := range entries {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return c.P.Name(list[i]) < c.P.Name(list[j]) })
	for _, f := range list {
		c.user(f, set, ready, prep, relevant, derived)
	}
}

// preparedParts are the parts of a rule made by its preparation.
var preparedParts = []string{"SenderList", "ReceiverList", "OperationRegex", "ResourceNameRegex"}

// touches reports whether a function accesses one of the named fields.
func touches(f *ssa.Function, names ...string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var t types.Type
			i := 0
			switch x := in.(type) {
			case *ssa.FieldAddr:
				t, i = x.X.Type(), x.Field
			case *ssa.Field:
				t, i = x.X.Type(), x.Field
			default:
				continue
			}
			for _, n := range names {
				if absint.FieldName(t, i) == n {
					return true
				}
			}
		}
	}
	return false
}

// closure is the set of functions from which a selected one is reached.
func closure(callers map[*ssa.Function][]*ssa.Function, sel func(*ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	for g, fs := range callers {
		todo = append(todo, fs...)
		todo = append(todo, g)
	}
	var grow func(f *ssa.Function)
	grow = func(f *ssa.Function) {
		if out[f] {
			return
		}
		out[f] = true
		for _, g := range callers[f] {
			grow(g)
		}
	}
	for _, f := range todo {
		if !out[f] && sel(f) {
			grow(f)
		}
	}
	return out
}

func (c *C) user(fn, set *ssa.Function, ready, prep string, relevant, derived map[*ssa.Function]bool) {
	name := c.P.Name(fn)
	a := c.P.NewAnalysis()
	var args []absint.Val
	var rule absint.Val
	for _, p := range fn.Params {
		switch absint.ShortType(p.Type()) {
		case "*Rule":
			rule = absint.SymPtr("author's rule", p.Type())
			args = append(args, rule)
		default:
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				args = append(args, absint.SymPtr(p.Name(), p.Type()))
			} else {
				args = append(args, absint.Param(p.Name(), p.Type()))
			}
		}
	}
	if rule == nil {
		c.Fail("decided", name, fn.Pos(), "%s uses the prepared form of a rule it is not given by pointer", name)
		return
	}
	stale, flag := absint.At(rule, prep), absint.At(rule, ready)
	fresh := absint.SymPtr("newly prepared rule", rule.Typ())
	bad := ""
	used := func(st *absint.State, what string, pos token.Pos) {
		if v, known := st.Decide(flag); !known || !v {
			bad = what
			c.Fail("use", name, pos, "%s uses the prepared form of a rule (%s) on a path on which the rule is not known to be ready; path: %s", name, what, facts(st))
		}
	}
	a.OnLoad = func(st *absint.State, l *absint.Loc, pos token.Pos) {
		if t := l.Root().Term; t != nil && t.K() == stale.K() {
			used(st, l.S, pos)
		}
		if l.Root().S == absint.LocOf(rule).S {
			for x := l; x.Parent != nil; x = x.Parent {
				for _, p := range preparedParts {
					if x.Sel != "."+p {
						continue
					}
					bad = l.S
					c.Fail("use", name+" unprepared", pos, "%s reads %s of the author's rule instead of its prepared form", name, l.S)
				}
			}
		}
	}
	node := func(what string) absint.Model {
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			switch {
			case of(args[0], fresh):
			case mentions(args[0], stale.K()):
				used(st, what, call.Pos)
			case of(args[0], rule):
				bad = what
				c.Fail("use", name+" unprepared", call.Pos, "%s applies %s to the conditions of the author's rule instead of the prepared ones", name, what)
			}
			st.Mon["judged"] = "yes"
			return []absint.Ret{{St: st, Vals: absint.OpaqueResults(what, call.Sig, args)}}
		}
	}
	a.Models["Node.Eval"] = node("Node.Eval")
	a.Models["Node.ToMongoQuery"] = node("Node.ToMongoQuery")
	a.ModelOf = func(f *ssa.Function) absint.Model {
		if f != set {
			if f.Pkg != c.P.Pkg || relevant[f] {
				return nil
			}
			return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
				for _, x := range args {
					if mentions(x, stale.K()) {
						used(st, "passed to "+c.P.Name(f), call.Pos)
					} else if x.K() == rule.K() && derived[f] {
						bad = c.P.Name(f)
						c.Fail("use", name+" unprepared", call.Pos, "%s hands the author's rule to %s instead of its prepared form", name, c.P.Name(f))
					}
				}
				return []absint.Ret{{St: st, Vals: absint.OpaqueResults(c.P.Name(f), call.Sig, args)}}
			}
		}
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			err := absint.NewTerm("preparation#err", absint.ErrorT, args[0])
			failing := st.Clone()
			var out []absint.Ret
			if failing.Assume(absint.Eq(err, absint.Nil(absint.ErrorT)), false) {
				failing.StoreField(args[0], ready, absint.Bool(false))
				failing.Mon["setter"] = "failed"
				out = append(out, absint.Ret{St: failing, Vals: []absint.Val{err}})
			}
			if st.Assume(absint.Eq(err, absint.Nil(absint.ErrorT)), true) {
				st.StoreField(args[0], ready, absint.Bool(true))
				st.StoreField(args[0], prep, fresh)
				st.Mon["setter"] = "succeeded"
				out = append(out, absint.Ret{St: st, Vals: []absint.Val{absint.Nil(absint.ErrorT)}})
			}
			return out
		}
	}
	rets := a.Run(a.NewState(), fn, args)
	c.absorb(a, name, fn.Pos(), rets)
	dflt := int64(0)
	if k := c.P.Pkg.Const("DEFAULT"); k != nil {
		dflt = k.Value.Int64()
	} else {
		c.Fail("anchor", "DEFAULT", 0, "the constant DEFAULT was not found")
	}
	res := fn.Signature.Results()
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		for _, v := range r.Vals {
			if v.K() == stale.K() {
				used(r.St, "returned", r.Pos)
			}
		}
		if bad != "" {
			return
		}
		setter := r.St.Mon["setter"]
		isReady, known := r.St.Decide(flag)
		if setter == "succeeded" || known && isReady && setter != "failed" {
			c.OK("use")
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			for i, v := range r.Vals {
				t := res.At(i).Type()
				switch {
				case types.Identical(t, absint.ErrorT):
					if !o.NotNil(v) {
						c.Fail("use", name+" error", r.Pos, "%s reports no error for a rule that is not ready; path: %s", name, describe(o))
						return
					}
				case types.Identical(t, absint.BoolT):
					if o.Is(v) {
						c.Fail("use", name+" result", r.Pos, "%s is true for a rule that is not ready; path: %s", name, describe(o))
						return
					}
				case types.Identical(t, absint.IntT):
					if !o.Is(absint.Eq(v, absint.Int(dflt))) {
						c.Fail("use", name+" result", r.Pos, "%s gives %s for a rule that is not ready, expected the default; path: %s", name, v.K(), describe(o))
						return
					}
				}
			}
			c.OK("use")
		})
	}
}
