package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// C13: evaluating, translating and coverage never end in a run-time panic.
//
// The panics of every analysed path are collected: dereferences of pointers
// that may be nil, failing type assertions, indices and slice bounds out of
// range, writes to nil maps, explicit panics. What evaluation may rely on is
// not assumed but computed: preparation is followed first, for unknown texts,
// and evaluation continues in each state in which it succeeded, on a message of
// which nothing is known.

func checkC13(c *C) {
	c.crashed = map[token.Pos]bool{}
	c.quantPanics()
	c.groupPanics()
	c.rulePanics()
	c.translationPanics()
	c.listPanics()
	c.leafPanics()
}

// rulePanics: the functions that use a rule, which prepare it if that has not
// been done, and use it once more afterwards. The conditions are abstract; the
// lists of names have one element.
func (c *C) rulePanics() {
	var users []*ssa.Function
	for _, n := range []string{"CheckOneRule", "TestConditions", "Rule.ToMongoQuery"} {
		if f := c.fn(n); f != nil {
			users = append(users, f)
		}
	}
	ready, prep := c.readyField(), c.preparedField()
	if ready == "" || prep == "" {
		return
	}
	for _, fn := range users {
		for _, refs := range []bool{false, true} {
			what := c.P.Name(fn) + " of a rule"
			if refs {
				what += " with predefined names"
			}
			a := c.P.NewAnalysis()
			a.Bounds, a.Unroll, a.MaxSteps = true, 1, 4000000
			oneEntry(a)
			copied := absint.Param("copy", c.typ("Rule"))
			a.Models["deepcopy.Copy"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
				dst, src := unbox(args[0]), unbox(args[1])
				l := absint.LocOf(dst)
				if l == nil || absint.ShortType(dst.Typ()) != "*Rule" {
					return nil
				}
				st.Store(l, copied)
				st.StoreField(dst, ready, absint.Bool(false))
				st.StoreField(dst, prep, absint.Nil(dst.Typ()))
				return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("deepcopy.Copy#err", absint.ErrorT, src)}}}
			}
			a.Models["Node.PrepareAndValidate"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
				return []absint.Ret{{St: st, Vals: []absint.Val{prepErr(args[0])}}}
			}
			a.Models["Node.Eval"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
				return []absint.Ret{{St: st, Vals: []absint.Val{holds(args[0]), absint.NewTerm("data", call.Sig.Results().At(1).Type(), args[0])}}}
			}
			a.Models["Node.ToMongoQuery"] = translated
			var args []absint.Val
			for _, p := range fn.Params {
				if _, ok := p.Type().Underlying().(*types.Pointer); ok {
					args = append(args, absint.SymPtr(p.Name(), p.Type()))
				} else {
					args = append(args, absint.Param(p.Name(), p.Type()))
				}
			}
			rule := absint.ArgOf(fn, args, "*Rule")
			if rule == nil {
				c.Fail("anchor", c.P.Name(fn), fn.Pos(), "%s does not take a rule", c.P.Name(fn))
				continue
			}
			st := a.NewState()
			st.StoreField(rule, ready, absint.Bool(false))
			st.StoreField(rule, prep, absint.Nil(rule.Typ()))
			part := func(path ...string) absint.Val {
				v := absint.Val(copied)
				for _, n := range path {
					v = absint.FieldOf(v, n, fieldType(v.Typ(), n))
				}
				return v
			}
			for _, n := range []absint.Val{part("Sender", "SenderName"), part("Receiver", "ReceiverName")} {
				st.Assume(absint.Pred("HasPrefix", n, absint.Str("#")), refs)
			}
			st.Assume(absint.Eq(part("Decision"), absint.Str("block")), true)
			if refs {
				st.Assume(absint.Eq(part("Sender", "SenderType"), absint.Str("workload")), true)
				st.Assume(absint.Eq(part("Receiver", "ReceiverType"), absint.Str("workload")), true)
				st.Assume(absint.Eq(part("Protocol"), absint.Str("*")), true)
			}
			rets := a.Run(st, fn, args)
			c.absorb(a, what, fn.Pos(), rets)
			c.crashes("rule", what, rets)
			// once more, for one state of each kind that was left
			seen := map[string]bool{}
			for _, r := range rets {
				if r.Panic != "" {
					continue
				}
				p := r.St.Load(absint.FieldLoc(rule, prep))
				k := r.St.Resolve(r.St.Load(absint.FieldLoc(rule, ready))).K() + r.St.Resolve(absint.Eq(p, absint.Nil(p.Typ()))).K()
				if seen[k] {
					continue
				}
				seen[k] = true
				again := a.Run(r.St.Clone(), fn, args)
				c.absorb(a, what+" used before", fn.Pos(), again)
				c.crashes("rule", what+" used before", again)
			}
		}
	}
	c.Want("rule", 12)
}

// translated is the translation of an abstract condition.
func translated(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
	return []absint.Ret{{St: st, Vals: absint.OpaqueResults("translated", call.Sig, args[:1])}}
}

// translationPanics: the translation of each kind of node.
func (c *C) translationPanics() {
	for _, typ := range c.nodeTypes() {
		t := c.newTree(typ, "ToMongoQuery")
		if t == nil {
			continue
		}
		t.solid()
		t.a.Bounds, t.a.Unroll = true, 2
		t.a.Models["Node.ToMongoQuery"] = translated
		rets := t.run(nil)
		c.absorb(t.a, t.name, t.fn.Pos(), rets)
		c.crashes("translation", t.name, rets)
	}
	c.Want("translation", 6)
}

// listPanics: checking and covering lists of rules and messages.
func (c *C) listPanics() {
	for _, n := range []string{"Check", "Coverage"} {
		fn := c.fn(n)
		if fn == nil {
			continue
		}
		a := c.P.NewAnalysis()
		a.Bounds, a.Unroll, a.MaxSteps = true, 2, 4000000
		a.Domain = verdictDomain
		a.ModelOf = func(f *ssa.Function) absint.Model {
			if !absint.SigIs(f, []string{"*Rule", "*MessageAttributes"}, []string{"int", extraT}) {
				return nil
			}
			return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
				res := f.Signature.Results()
				var out []absint.Ret
				for _, k := range []int64{0, 2} {
					out = append(out, absint.Ret{St: st.Clone(), Vals: []absint.Val{absint.Int(k), absint.NewTerm("returndata", res.At(1).Type(), args...)}})
				}
				return out
			}
		}
		var args []absint.Val
		for _, p := range fn.Params {
			args = append(args, absint.SymPtr(p.Name(), p.Type()))
		}
		rets := a.Run(a.NewState(), fn, args)
		c.absorb(a, n, fn.Pos(), rets)
		c.crashes("lists", n, rets)
	}
	c.Want("lists", 2)
}

// quantPanics: ANY and ALL, prepared and then evaluated on any message, with
// the condition inside them abstract. Lists and texts read from the message
// have up to three elements.
func (c *C) quantPanics() {
	for _, typ := range []string{"Any", "All"} {
		t := c.newTree(typ, "PrepareAndValidate")
		if t == nil {
			continue
		}
		t.solid()
		t.a.Bounds, t.a.Unroll = true, 2
		base := t.a.Externals("jsonpath.Prepare")
		t.a.Models["jsonpath.Prepare"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			res := absint.OpaqueResults("jsonpath.Prepare", call.Sig, args)
			if base != nil {
				return base(a, st, args, call)
			}
			if q, ok := absint.IsStr(args[0]); ok && (q == "$" || q == "$.*") { // valid paths
				st.Assume(absint.Eq(res[0], absint.Nil(res[0].Typ())), false)
				res[1] = absint.Nil(absint.ErrorT)
			}
			return []absint.Ret{{St: st, Vals: res}}
		}
		rets := t.run(func(st *absint.State) {
			st.StoreField(t.self, "PreparedJsonpathQuery", absint.ZeroOf(absint.At(t.self, "PreparedJsonpathQuery").Typ()))
		})
		c.absorb(t.a, t.name, t.fn.Pos(), rets)
		c.crashes("preparation", t.name, rets)
		forms := map[string]bool{} // of the prepared paths: their number and which may be nil
		for _, r := range rets {
			if r.Panic != "" || !r.St.Assume(absint.Eq(r.Vals[0], absint.Nil(absint.ErrorT)), true) {
				continue
			}
			l, ok := t.a.ToList(r.St, r.St.Load(absint.FieldLoc(t.self, "PreparedJsonpathQuery")))
			if !ok || l.Base != nil {
				c.Fail("preparation", t.name, r.Pos, "the prepared paths of %s could not be followed", t.name)
				continue
			}
			form := ""
			for _, q := range l.Elems {
				if isNil, known := r.St.Decide(absint.Eq(q, absint.Nil(q.Typ()))); known && !isNil {
					form += "f"
				} else {
					form += "n"
				}
			}
			forms[form] = true
		}
		for form := range forms {
			for _, x := range []struct {
				parsed  bool
				extract bool // return values are read, elements abstract
				unroll  int
			}{{true, false, 2}, {false, false, 3}, {true, true, 2}, {false, true, 2}} {
				if (x.extract || !x.parsed) && len(form) > 1 {
					continue
				}
				e := c.newTree(typ, "Eval")
				if e == nil {
					continue
				}
				e.solid()
				e.a.Bounds, e.a.Unroll, e.a.MaxSteps = true, x.unroll, 4000000
				if len(form) > 1 {
					e.a.Unroll = 1
				}
				e.a.ModelOf = func(f *ssa.Function) absint.Model {
					m := e.models(f)
					if m == nil || (f.Signature.Results().Len() == 2) != x.extract {
						return nil
					}
					return m
				}
				if !x.extract { // all elements are visited
					eval := func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
						return []absint.Ret{{St: st, Vals: []absint.Val{absint.Bool(typ == "All"), absint.NewTerm("data", call.Sig.Results().At(1).Type())}}}
					}
					e.a.Models["Node.Eval"], e.a.Models["AnyAllNode.Eval"] = eval, eval
				}
				raw, paths := absint.At(e.msg, "RequestRawInterface"), absint.At(e.self, "ParentJsonpathAttributeArray")
				rets := e.run(func(st *absint.State) {
					st.Assume(absint.Eq(raw, absint.Nil(raw.Typ())), !x.parsed)
					l := absint.At(e.self, "PreparedJsonpathQuery")
					for _, l := range []absint.Val{l, paths} {
						st.Assume(absint.Eq(absint.Len(l), absint.Int(int64(len(form)))), true)
					}
					for i, k := range form {
						if q := absint.ElemAt(l, absint.Int(int64(i))); k == 'f' {
							st.Assume(absint.Eq(q, absint.Nil(q.Typ())), false)
						}
					}
				})
				what := e.name + " on raw bytes"
				if x.parsed {
					what = e.name + " on parsed data"
				}
				c.absorb(e.a, what, e.fn.Pos(), rets)
				c.crashes("quantifier", what, rets)
			}
		}
	}
	c.Want("quantifier", 4)
}

// solid: the node is there and so is its inner condition, as the parser leaves
// them (C25).
func (t *treeRun) solid() {
	if _, ok := t.fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		t.self = absint.SymPtr("node", t.fn.Params[0].Type())
		t.args[0] = t.self
	}
	t.a.NonNil = func(x *absint.Term) bool { return absint.ShortType(x.Typ()) == "Node" }
}

// groupPanics: AND, OR and NOT.
func (c *C) groupPanics() {
	for _, typ := range []string{"And", "Or", "Not"} {
		for _, m := range []string{"PrepareAndValidate", "Eval"} {
			if t := c.newTree(typ, m); t != nil {
				t.solid()
				t.a.Bounds, t.a.Unroll = true, 3
				rets := t.run(nil)
				c.absorb(t.a, t.name, t.fn.Pos(), rets)
				c.crashes("group", t.name, rets)
			}
		}
	}
	c.Want("group", 6)
}

// crashes reports the panics among the outcomes of a run, one per instruction.
func (c *C) crashes(rule, what string, rets []absint.Ret) int {
	bad := false
	n := 0
	for _, r := range rets {
		if r.Panic == "" {
			n++
			continue
		}
		bad = true
		if !c.crashed[r.Pos] {
			c.crashed[r.Pos] = true
			c.Fail(rule, what, r.Pos, "%s: %s; path: %s", what, r.Panic, cut(facts(r.St), 600))
		}
	}
	if !bad {
		c.OK(rule)
	}
	return n
}

// safe follows evaluation for what all forms have in common; if that is not
// enough, for the forms with and without a feature, down to the single forms.
func (c *C) safe(rule, what string, forms []signature, follow func(sig signature) []absint.Ret) {
	outs := follow(common(forms))
	panic := ""
	for _, r := range outs {
		panic += r.Panic + " "
	}
	if strings.TrimSpace(panic) == "" || len(forms) == 1 {
		c.crashes(rule, what, outs)
		return
	}
	with, without := divide(forms, panic)
	for _, fs := range [][]signature{with, without} {
		if len(c.crashed) == 0 {
			c.safe(rule, what, fs, follow)
		}
	}
}

// divide splits forms by a feature they do not share, one the text mentions
// if there is one.
func divide(forms []signature, text string) (with, without []signature) {
	n := map[string]int{}
	for _, s := range forms {
		for _, l := range strings.Split(string(s), "\n") {
			n[l]++
		}
	}
	best, score := "", -1
	var ls []string
	for l := range n {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		if n[l] == len(forms) {
			continue
		}
		k := n[l]
		if 2*k > len(forms) {
			k = len(forms) - k
		}
		if name, _, _ := strings.Cut(l, "="); strings.Contains(text, "."+name) {
			k += len(forms)
		}
		if k > score {
			best, score = l, k
		}
	}
	for _, s := range forms {
		if strings.Contains("\n"+string(s)+"\n", "\n"+best+"\n") {
			with = append(with, s)
		} else {
			without = append(without, s)
		}
	}
	return with, without
}

// common is what signatures agree on.
func common(sigs []signature) signature {
	n := map[string]int{}
	for _, s := range sigs {
		for _, l := range strings.Split(string(s), "\n") {
			n[l]++
		}
	}
	var out []string
	for l, k := range n {
		if k == len(sigs) {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return signature(strings.Join(out, "\n"))
}

// attrForms are the forms of attributes the loader accepts.
var attrForms = []string{"true", "false", "payloadSize", "requestUseragent", "utcHoursFromMidnight", "encryptionType", "encryptionVersion", "domain",
	"$sender.namespace", "$sender.cluster", "$receiver.namespace", "$receiver.cluster", "senderLabel[", "receiverLabel[", "$sender.", "$receiver.",
	"jsonpath:$.a", "jsonpath:$RELATIVE.a", "jsonpath:$KEY", "jsonpath:$VALUE", "jsonpath:$VALUE.a"}

// leafPanics: single conditions, prepared and then evaluated.
func (c *C) leafPanics() {
	prep, eval := c.fn("Condition.PrepareAndValidate"), c.fn("Condition.Eval")
	if prep == nil || eval == nil {
		return
	}
	methods := map[string]bool{}
	for _, m := range methodSpellings {
		methods[strings.ToUpper(m)] = true
	}
	methods["IS"] = true
	var ms []string
	for m := range methods {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, attr := range attrForms {
		if len(c.crashed) > 0 { // decided
			return
		}
		for _, m := range ms {
			what := "condition on " + attr + " with " + m
			a := c.P.NewAnalysis()
			a.Bounds, a.Unroll = true, 40
			a.ModelOf = conversions
			cond := absint.SymPtr("condition", prep.Params[0].Type())
			st := a.NewState()
			fresh(st, cond, "Attribute", "Method", "Value")
			if open := strings.HasSuffix(attr, "[") || strings.HasSuffix(attr, "."); open { // anything may follow
				st.Assume(absint.Pred("HasPrefix", absint.At(cond, "Attribute"), absint.Str(attr)), true)
			} else {
				st.StoreField(cond, "Attribute", absint.Str(attr))
			}
			st.StoreField(cond, "Method", absint.Str(m))
			st.Assume(absint.Pred("HasPrefix", absint.At(cond, "Value"), absint.Str("#")), false)
			rets := a.Run(st, prep, c.argsFor(prep, cond, nil))
			c.absorb(a, what+" prepared", prep.Pos(), rets)
			c.crashes("preparation", what, rets)
			forms := signatures(cond, rets)
			follow := func(sig signature) []absint.Ret {
				a := c.P.NewAnalysis()
				a.Bounds, a.ModelOf = true, conversions
				st := a.NewState()
				cond := absint.SymPtr("condition", prep.Params[0].Type())
				sig.assume(st, cond)
				outs := a.Run(st, eval, c.argsFor(eval, cond, absint.SymPtr("message", eval.Params[1].Type())))
				c.absorb(a, what, eval.Pos(), outs)
				return outs
			}
			if len(forms) > 0 {
				c.safe("evaluation", what, forms, follow)
			}
		}
	}
	c.Want("evaluation", 100)
}

// conversions of texts stand for themselves.
func conversions(f *ssa.Function) absint.Model {
	if !plain(f) || !unitsFn(f) && !absint.SigIs(f, []string{"string", "string"}, []string{"string"}) {
		return nil
	}
	return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		return []absint.Ret{{St: st, Vals: absint.OpaqueResults(f.Name(), f.Signature, args)}}
	}
}

// fresh gives the fields of an object but the listed ones and its maps their
// zero value.
func fresh(st *absint.State, obj absint.Val, but ...string) {
	t := obj.Typ().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	keep := " " + strings.Join(but, " ") + " "
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		if _, ok := f.Type().Underlying().(*types.Map); !ok && !strings.Contains(keep, " "+f.Name()+" ") {
			st.StoreField(obj, f.Name(), absint.ZeroOf(f.Type()))
		}
	}
}

// argsFor gives a function the condition and the message.
func (c *C) argsFor(fn *ssa.Function, recv, msg absint.Val) []absint.Val {
	var args []absint.Val
	for i, p := range fn.Params {
		switch {
		case i == 0:
			args = append(args, recv)
		case absint.ShortType(p.Type()) == "*MessageAttributes":
			args = append(args, msg)
		default:
			args = append(args, absint.Param(p.Name(), p.Type()))
		}
	}
	return args
}

// signature is what is known of the fields of an object: constants and
// whether references are nil, one "field=value" per line.
type signature string

// signatures are the forms an object has where a function reported no error.
// Texts are kept if they are the same in all of them.
func signatures(obj absint.Val, rets []absint.Ret) []signature {
	t := obj.Typ().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	var good []*absint.State
	for _, r := range rets {
		if r.Panic == "" && r.St.Assume(absint.Eq(r.Vals[len(r.Vals)-1], absint.Nil(absint.ErrorT)), true) {
			good = append(good, r.St)
		}
	}
	texts := map[string]map[string]bool{}
	field := func(st *absint.State, f *types.Var) absint.Val {
		return st.Resolve(st.Load(absint.FieldLoc(obj, f.Name())))
	}
	for _, st := range good {
		for i := 0; i < t.NumFields(); i++ {
			if f := t.Field(i); types.Identical(f.Type(), absint.StringT) {
				if texts[f.Name()] == nil {
					texts[f.Name()] = map[string]bool{}
				}
				texts[f.Name()][field(st, f).K()] = true
			}
		}
	}
	seen := map[signature]bool{}
	var out []signature
	for _, st := range good {
		var sig []string
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			v := field(st, f)
			switch f.Type().Underlying().(type) {
			case *types.Basic:
				if s, ok := absint.IsStr(v); ok && len(texts[f.Name()]) == 1 {
					sig = append(sig, f.Name()+"=s"+s)
				} else if b, ok := absint.IsBool(v); ok {
					sig = append(sig, fmt.Sprintf("%s=b%v", f.Name(), b))
				}
			case *types.Pointer, *types.Signature, *types.Interface:
				if b, ok := st.Decide(absint.Eq(v, absint.Nil(f.Type()))); ok {
					sig = append(sig, fmt.Sprintf("%s=n%v", f.Name(), b))
				}
			}
		}
		s := signature(strings.Join(sig, "\n"))
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// assume makes the signature hold of an object.
func (s signature) assume(st *absint.State, obj absint.Val) {
	for _, l := range strings.Split(string(s), "\n") {
		name, val, ok := strings.Cut(l, "=")
		if !ok {
			continue
		}
		f := absint.At(obj, name)
		switch val[0] {
		case 's':
			st.StoreField(obj, name, absint.Str(val[1:]))
		case 'b':
			st.StoreField(obj, name, absint.Bool(val[1:] == "true"))
		case 'n':
			st.Assume(absint.Eq(f, absint.Nil(f.Typ())), val[1:] == "true")
		}
	}
}
