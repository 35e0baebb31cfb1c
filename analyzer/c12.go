package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"maplverif/absint"
)

// C12: every function of the package that can report an error is analysed on
// its own, with the calls it makes to other such functions succeeding or
// failing freely. On every path on which one of them fails the function has
// to report an error itself, and then its other results are empty.
func checkC12(c *C) {
	fns := c.reporters()
	for _, f := range fns {
		c.errorsReach(f)
	}
	c.Want("error reaches the caller", 40)
	c.Want("empty results", 30)
}

// reporters lists the functions with an error result that public operations
// reporting errors are made of.
func (c *C) reporters() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != c.P.Pkg || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		if reports(f.Signature) && f.Synthetic == "" {
			out = append(out, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					visit(call.Common().StaticCallee())
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range c.P.AllFuncs() {
		if f.Object() != nil && f.Object().Exported() && reports(f.Signature) && c.aboutRules(f) {
			visit(f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func reports(s *types.Signature) bool {
	n := s.Results().Len()
	return n > 0 && types.Identical(s.Results().At(n-1).Type(), absint.ErrorT)
}

// aboutRules: operations on the package's own types, as opposed to plain
// utilities.
func (c *C) aboutRules(f *ssa.Function) bool {
	own := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() == c.P.Pkg.Pkg
	}
	for _, p := range f.Params {
		if own(p.Type()) {
			return true
		}
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if own(f.Signature.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

// plain reports whether a function works on texts, numbers and lists of texts only.
func plain(f *ssa.Function) bool {
	if len(f.FreeVars) > 0 {
		return false
	}
	for _, p := range f.Params {
		t := p.Type().Underlying()
		if s, ok := t.(*types.Slice); ok {
			t = s.Elem().Underlying()
		}
		if _, ok := t.(*types.Basic); !ok {
			return false
		}
	}
	return len(f.Params) > 0
}

// tolerated reports whether a failing step is not a failure of the operation:
// a text is probed for being a number or an address, an encoding cannot fail,
// a fixed text is compiled, a condition's value is compiled whose method may
// not need it, labels are not JSON (the message then has none), or
// a return path cannot be compiled (no data is returned for it then).
func tolerated(e absint.ErrSeen) bool {
	t, ok := e.V.(*absint.Term)
	if !ok {
		return false
	}
	switch {
	case strings.HasPrefix(e.From, "strconv."), strings.HasPrefix(e.From, "net.Parse"):
		return true
	case strings.Contains(t.K(), "ReturnValueJsonpath"):
		return true
	case e.From == "regexp.Compile" && strings.Contains(t.K(), "condition.Value"): // the method decides, see C10
		return true
	}
	constant := len(t.Args) > 0
	for _, x := range t.Args {
		if _, ok := absint.IsStr(unbox(x)); !ok {
			constant = false
		}
	}
	if constant {
		return !strings.HasPrefix(t.Op, "earlier ")
	}
	var typed []types.Type
	for _, x := range t.Args {
		typed = append(typed, unbox(x).Typ())
	}
	switch e.From {
	case "json.Marshal":
		return plainJSON(typed[0])
	case "json.Unmarshal":
		return absint.ShortType(typed[len(typed)-1]) == "*map[string]string"
	case "deepcopy.Copy":
		return plainJSON(typed[len(typed)-1])
	}
	return false
}

// plainJSON: values whose encoding cannot fail.
func plainJSON(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0
	case *types.Pointer:
		return plainJSON(u.Elem())
	case *types.Slice:
		return plainJSON(u.Elem())
	case *types.Map:
		return plainJSON(u.Key()) && plainJSON(u.Elem())
	}
	return false
}

func (c *C) errorsReach(fn *ssa.Function) {
	name := c.P.Name(fn)
	a := c.P.NewAnalysis()
	a.Unroll = 2
	a.TrackErrors = true
	a.ModelOf = func(f *ssa.Function) absint.Model {
		if f == fn || f.Pkg != c.P.Pkg {
			return nil
		}
		if reports(f.Signature) {
			return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
				return []absint.Ret{{St: st, Vals: absint.OpaqueResults(c.P.Name(f), call.Sig, args)}}
			}
		}
		if plain(f) {
			return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
				return []absint.Ret{{St: st, Vals: absint.OpaqueResults(c.P.Name(f), call.Sig, args)}}
			}
		}
		return nil
	}
	var args []absint.Val
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			n := p.Name()
			if absint.ShortType(p.Type()) == "*Condition" {
				n = "condition"
			}
			args = append(args, absint.SymPtr(n, p.Type()))
		} else {
			args = append(args, absint.Param(p.Name(), p.Type()))
		}
	}
	rets := a.Run(a.NewState(), fn, args)
	c.absorb(a, name, fn.Pos(), rets)
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		last := len(r.Vals) - 1
		absint.Complete(r.St, func(o *absint.Oracle) {
			for _, e := range o.St.Errors() {
				if tolerated(e) || !o.NotNil(e.V) {
					continue
				}
				if !o.NotNil(r.Vals[last]) {
					c.Fail("error reaches the caller", name+" / "+e.From, r.Pos, "%s fails but %s returns no error; path: %s", e.From, name, describe(o))
					return
				}
				c.OK("error reaches the caller")
				break
			}
			if last == 0 || !o.NotNil(r.Vals[last]) {
				return
			}
			for i, v := range r.Vals[:last] {
				if d := c.notEmpty(o, v, r.Vals[last]); d != "" {
					c.Fail("empty results", name, r.Pos, "%s returns an error together with %s as result %d; path: %s", name, d, i+1, describe(o))
					return
				}
			}
			c.OK("empty results")
		})
	}
}

// notEmpty describes a result that is not empty; a result passed on with the
// error of the same call is judged where that call is.
func (c *C) notEmpty(o *absint.Oracle, v, err absint.Val) string {
	v = o.St.Resolve(v)
	if t, ok := v.(*absint.Term); ok {
		if e, ok := err.(*absint.Term); ok && strings.HasSuffix(e.Op, "#err") && strings.HasPrefix(t.Op, strings.TrimSuffix(e.Op, "err")) {
			return ""
		}
	}
	if emptyVal(o, v) || v.K() == absint.ZeroOf(v.Typ()).K() {
		return ""
	}
	return v.K()
}

func emptyVal(o *absint.Oracle, v absint.Val) bool {
	v = o.St.Resolve(v)
	switch x := v.(type) {
	case *absint.MapV:
		ks, _, ok := o.St.Entries(x)
		return ok && len(ks) == 0
	case *absint.ListV:
		return len(x.Elems) == 0
	case *absint.SliceV:
		return o.Is(absint.Eq(x.Len, absint.Int(0)))
	case *absint.StructV:
		st, ok := x.T.Underlying().(*types.Struct)
		if !ok || x.Base != nil && !emptyVal(o, x.Base) {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if f, ok := x.Over[st.Field(i).Name()]; ok && !emptyVal(o, f) {
				return false
			}
		}
		return true
	case *absint.Const:
		return absint.IsNil(x) || x.K() == absint.ZeroOf(x.Typ()).K()
	}
	return absint.IsNil(v) || v.K() == absint.ZeroOf(v.Typ()).K()
}
