package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Inline analyses a call of fn made by a library function standing at call c.
func (a *Analysis) Inline(st *State, fn *ssa.Function, args []Val, c *Call, tag string) []Ret {
	if m, ok := a.Models[FnName(fn, a.P.Pkg.Pkg)]; ok {
		if out := m(a, st, args, c); out != nil {
			return out
		}
	}
	if len(fn.Blocks) == 0 {
		return nil
	}
	n := 0
	for f := st.fr; f != nil; f = f.parent {
		if f.fn == fn {
			n++
		}
	}
	if n > a.Recurse {
		a.undecided("recursion of %s deeper than %d", fn, a.Recurse)
		return nil
	}
	ctx := c.Ctx + "/" + tag
	if c.Instr != nil {
		ctx = c.Ctx + "/" + callSite(c.Instr) + "/" + tag
	}
	fr := st.fr
	rets := a.runFn(st, fn, args, nil, ctx)
	for i := range rets {
		rets[i].St.fr = fr.clone()
	}
	return rets
}

// MethodOf is the method of the dynamic type of v declared in the analysed
// package, nil if it has none.
func (a *Analysis) MethodOf(v Val, name string) *ssa.Function {
	if iv, ok := v.(*IfaceV); ok {
		v = iv.X
	}
	t := v.Typ()
	if t == nil || types.IsInterface(t) {
		return nil
	}
	if sel := a.P.Prog.MethodSets.MethodSet(t).Lookup(a.P.Pkg.Pkg, name); sel != nil {
		return a.P.Prog.MethodValue(sel)
	}
	return nil
}

func formatVerbs(f string) []string {
	var out []string
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[j])) {
			j++
		}
		if j < len(f) && f[j] != '%' {
			out = append(out, f[i:j+1])
		}
		i = j
	}
	return out
}

// asPrinted is the content of a slice in memory, the text of bytes.
func (a *Analysis) asPrinted(st *State, e Val, text bool) Val {
	iv, ok := e.(*IfaceV)
	if !ok {
		return e
	}
	if t, ok := iv.X.(*Term); ok && t.Op == "bytes" && text {
		return &IfaceV{X: t.Args[0], T: iv.T}
	}
	if _, ok := iv.X.(*SliceV); !ok {
		return e
	}
	if l, ok := a.toList(st, iv.X); ok {
		return &IfaceV{X: l, T: iv.T}
	}
	return e
}

// texts replaces the operands that print themselves by their text.
func (a *Analysis) texts(st *State, verbs []string, elems []Val, c *Call) []Ret {
	rets := []Ret{{St: st, Vals: nil}}
	for i, e := range elems {
		var fn *ssa.Function
		if i < len(verbs) && (verbs[i] == "%v" || verbs[i] == "%s" || verbs[i] == "%+v") {
			if iv, ok := e.(*IfaceV); ok && !IsNil(iv.X) {
				fn = a.MethodOf(e, "String")
			}
		}
		var next []Ret
		for _, r := range rets {
			if r.Panic != "" || fn == nil {
				if r.Panic == "" {
					r.Vals = append(append([]Val{}, r.Vals...), a.asPrinted(r.St, e, i < len(verbs) && verbs[i] == "%s"))
				}
				next = append(next, r)
				continue
			}
			out := a.Inline(r.St, fn, []Val{e.(*IfaceV).X}, c, fmt.Sprintf("text%d", i))
			if out == nil {
				r.Vals = append(append([]Val{}, r.Vals...), e)
				next = append(next, r)
				continue
			}
			for _, o := range out {
				if o.Panic == "" {
					o.Vals = append(append([]Val{}, r.Vals...), o.St.Resolve(o.Vals[0]))
				}
				next = append(next, o)
			}
		}
		rets = next
	}
	return rets
}

func init() {
	E := externals
	sprintf := func(a *Analysis, st *State, format, operands Val, c *Call) []Ret {
		f, ok := IsStr(format)
		if !ok {
			return nil
		}
		l, ok := a.toList(st, operands)
		if !ok || l.Base != nil {
			return nil
		}
		var out []Ret
		for _, r := range a.texts(st, formatVerbs(f), l.Elems, c) {
			if r.Panic != "" {
				out = append(out, r)
				continue
			}
			v, ok := Sprintf(f, r.Vals)
			if !ok {
				return nil
			}
			out = append(out, Ret{St: r.St, Vals: []Val{v}})
		}
		return out
	}
	E["fmt.Sprintf"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		return sprintf(a, st, args[0], args[1], c)
	}
	// text under construction
	content := func(v Val) *Loc {
		if iv, ok := v.(*IfaceV); ok {
			v = iv.X
		}
		p, ok := v.(*Ptr)
		if !ok {
			return nil
		}
		switch TypeName(p.L.T) {
		case "strings.Builder", "bytes.Buffer":
			return p.L.index(Str("text"), tString)
		}
		return nil
	}
	add := func(st *State, b *Loc, v Val) { st.Store(b, Cat(st.Resolve(st.Load(b)), v)) }
	write := func(text func(Val) Val) Model {
		return func(a *Analysis, st *State, args []Val, c *Call) []Ret {
			b := content(args[0])
			if b == nil {
				return nil
			}
			v := text(args[1])
			add(st, b, v)
			res := c.Sig.Results()
			var vals []Val
			for i := 0; i < res.Len(); i++ {
				if types.Identical(res.At(i).Type(), tError) {
					vals = append(vals, Nil(tError))
				} else {
					vals = append(vals, st.lenOf(v))
				}
			}
			return []Ret{{St: st, Vals: vals}}
		}
	}
	id := func(v Val) Val { return v }
	char := func(v Val) Val {
		if i, ok := IsInt(v); ok {
			return Str(string(rune(i)))
		}
		return NewTerm("runestr", tString, v)
	}
	fromBytes := func(v Val) Val { return convert(v, v.Typ(), tString) }
	for _, t := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		E[t+".WriteString"] = write(id)
		E[t+".WriteByte"] = write(char)
		E[t+".WriteRune"] = write(char)
		E[t+".Write"] = write(fromBytes)
		E[t+".String"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
			if b := content(args[0]); b != nil {
				return v1(st, st.Resolve(st.Load(b)))
			}
			return nil
		}
		E[t+".Bytes"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
			if b := content(args[0]); b != nil {
				return v1(st, convert(st.Resolve(st.Load(b)), tString, c.Sig.Results().At(0).Type()))
			}
			return nil
		}
		E[t+".Len"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
			if b := content(args[0]); b != nil {
				return v1(st, st.lenOf(st.Resolve(st.Load(b))))
			}
			return nil
		}
		E[t+".Reset"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
			if b := content(args[0]); b != nil {
				st.Store(b, Str(""))
				return []Ret{{St: st}}
			}
			return nil
		}
		E[t+".Grow"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret { return []Ret{{St: st}} }
	}
	E["fmt.Fprintf"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		b := content(args[0])
		var out []Ret
		if b != nil {
			for _, r := range sprintf(a, st, args[1], args[2], c) {
				if r.Panic == "" {
					add(r.St, b, r.Vals[0])
					r.Vals = []Val{r.St.lenOf(r.Vals[0]), Nil(tError)}
				}
				out = append(out, r)
			}
		}
		if out != nil {
			return out
		}
		var vs []Val
		for i := 0; i < c.Sig.Results().Len(); i++ {
			vs = append(vs, &Term{Op: c.Name + "#r" + fmt.Sprint(i), T: c.Sig.Results().At(i).Type()})
		}
		return []Ret{{St: st, Vals: vs}}
	}
	// Sorting gives one order per set of texts, whatever the order before. For
	// texts that are not known any fixed order stands for it.
	order := func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		v := args[0]
		if iv, ok := v.(*IfaceV); ok {
			v = iv.X
		}
		if t, ok := v.(*Term); ok && strings.HasPrefix(t.Op, "conv<") {
			v = t.Args[0]
		}
		if l, ok := a.toList(st, v); ok {
			st.Event("sorted " + l.K())
		}
		if l, ok := v.(*ListV); ok && len(l.Elems) > 1 {
			if sv, ok := st.inMemory(l, c.Ctx+"/"+callSite(c.Instr)); ok {
				v = sv
			}
		}
		sv, ok := v.(*SliceV)
		if !ok {
			return []Ret{{St: st}}
		}
		l, ok := a.toList(st, sv)
		if !ok || l.Base != nil {
			return []Ret{{St: st}}
		}
		all := true
		es := append([]Val{}, l.Elems...)
		for i := range es {
			es[i] = st.Resolve(es[i])
			if _, ok := IsStr(es[i]); !ok {
				all = false
			}
		}
		if !all && !a.SortAny {
			return []Ret{{St: st}}
		}
		sort.SliceStable(es, func(i, j int) bool {
			if all {
				x, _ := IsStr(es[i])
				y, _ := IsStr(es[j])
				return x < y
			}
			return es[i].K() < es[j].K()
		})
		for i, e := range es {
			st.Store(sv.Root.index(Int(int64(i)), tString), e)
		}
		return []Ret{{St: st}}
	}
	E["sort.Strings"] = order
	// ordered by a function comparing the elements themselves
	byText := func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		v := args[0]
		if iv, ok := v.(*IfaceV); ok {
			v = iv.X
		}
		if l, ok := a.toList(st, v); !ok || l.Base != nil || len(l.Elems) < 2 {
			return nil
		}
		if l, ok := v.(*ListV); ok {
			sv, ok := st.inMemory(l, c.Ctx+"/"+callSite(c.Instr))
			if !ok {
				return nil
			}
			v = sv
		}
		sv, ok := v.(*SliceV)
		cl, ok2 := args[1].(*FuncV)
		if !ok || !ok2 || !isStringT(sv.T.Underlying().(*types.Slice).Elem()) {
			return nil
		}
		x, y := Sym("sorted x", tString), Sym("sorted y", tString)
		in := []Val{Int(0), Int(1)}
		try := st.Clone()
		try.Store(sv.Root.index(Int(0), tString), x)
		try.Store(sv.Root.index(Int(1), tString), y)
		if isStringT(cl.Fn.Params[0].Type()) {
			in = []Val{x, y}
		}
		out := a.runFn(try, cl.Fn, in, cl.Bind, c.Ctx+"/order")
		if len(out) != 1 || out[0].Panic != "" {
			return nil
		}
		k := out[0].St.Resolve(out[0].Vals[0]).K()
		if k != Lt(x, y).K() && k != NewTerm("strings.Compare", tInt, x, y).K() && k != NewTerm("cmp.Compare", tInt, x, y).K() {
			return nil
		}
		return order(a, st, []Val{sv}, c)
	}
	E["sort.Slice"] = byText
	E["sort.SliceStable"] = byText
	E["slices.SortFunc"] = byText
	E["slices.Sort"] = order
	E["sort.Sort"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		if iv, ok := args[0].(*IfaceV); ok && TypeName(iv.X.Typ()) == "sort.StringSlice" {
			return order(a, st, args, c)
		}
		return nil
	}
}
