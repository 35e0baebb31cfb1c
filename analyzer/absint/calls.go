package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *run) callee(st *State, c *ssa.CallCommon) (Val, []Val) {
	args := make([]Val, 0, len(c.Args)+1)
	for _, x := range c.Args {
		args = append(args, st.Resolve(r.val(st, x)))
	}
	if c.IsInvoke() {
		return st.Resolve(r.val(st, c.Value)), args
	}
	return st.Resolve(r.val(st, c.Value)), args
}

func (r *run) call(st *State, in *ssa.Call) []*State {
	fn, args := r.callee(st, &in.Call)
	fr := st.fr
	rets := r.callVal(st, fn, &in.Call, args, in)
	var outs []*State
	for _, rt := range rets {
		s := rt.St
		if len(rets) == 1 {
			s.fr = fr
		} else {
			s.fr = fr.clone()
		}
		if rt.Panic != "" {
			r.panic(s, rt.Panic, rt.Pos)
			continue
		}
		if r.a.TrackErrors {
			r.trackError(s, in, rt.Vals)
		}
		switch len(rt.Vals) {
		case 0:
			s.fr.env[in] = &TupleV{}
		case 1:
			s.fr.env[in] = s.Resolve(rt.Vals[0])
		default:
			s.fr.env[in] = &TupleV{rt.Vals}
		}
		outs = append(outs, s)
	}
	return outs
}

// trackError keeps the error result of a call unless the call only makes one.
func (r *run) trackError(s *State, in *ssa.Call, vals []Val) {
	if len(vals) == 0 {
		return
	}
	v := s.Resolve(vals[len(vals)-1])
	if !types.Identical(v.Typ(), tError) || IsNil(v) {
		return
	}
	name := "an interface method"
	if in.Call.IsInvoke() {
		name = in.Call.Method.Name()
	} else if f := in.Call.StaticCallee(); f != nil {
		name = FnName(f, r.a.P.Pkg.Pkg)
	}
	switch name {
	case "fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap":
		return
	}
	if strings.HasPrefix(name, "errors.Wrap") || strings.HasPrefix(name, "errors.With") || strings.HasPrefix(name, "errors.Errorf") {
		return
	}
	if r.a.errTerms == nil {
		r.a.errTerms = map[string]Val{}
	}
	r.a.errTerms[v.K()] = v
	if _, ok := s.Mon["err:"+v.K()]; !ok {
		s.Mon["err:"+v.K()] = name
	}
}

// ErrSeen is an error result of a call on a path.
type ErrSeen struct {
	V    Val
	From string
}

// Errors lists the error results of the calls on a path (TrackErrors).
func (s *State) Errors() []ErrSeen {
	var ks []string
	for k := range s.Mon {
		if strings.HasPrefix(k, "err:") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []ErrSeen
	for _, k := range ks {
		out = append(out, ErrSeen{s.A.errTerms[k[4:]], s.Mon[k]})
	}
	return out
}

func (r *run) callVal(st *State, fv Val, c *ssa.CallCommon, args []Val, in ssa.Instruction) []Ret {
	r.a.Calls++
	if c.IsInvoke() {
		return r.invoke(st, fv, c, args, in)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return r.builtin(st, b, c, args, in)
	}
	switch f := fv.(type) {
	case *FuncV:
		return r.callFn(st, f.Fn, f.Bind, args, c, in)
	case *Term:
		// call through an unknown function value
		isNil := Eq(f, Nil(f.T))
		var rets []Ret
		if v, known := st.Decide(isNil); !known || v {
			s := st.Clone()
			if s.Assume(isNil, true) {
				rets = append(rets, Ret{s, nil, "call of nil function " + f.K(), in.Pos()})
			}
			if !st.Assume(isNil, false) {
				return rets
			}
		}
		sig := c.Signature()
		if m, ok := r.a.Models["call"]; ok {
			if out := m(r.a, st, append([]Val{f}, args...), &Call{Name: "call", Sig: sig, Instr: in, Pos: in.Pos(), Ctx: r.ctx}); out != nil {
				return append(rets, out...)
			}
		}
		return append(rets, r.opaque(st, "call", sig, append([]Val{f}, args...), in)...)
	case *Const:
		return []Ret{{st, nil, "call of nil function", in.Pos()}}
	}
	r.a.undecided("call of %s", fv.K())
	return nil
}

func (r *run) invoke(st *State, recv Val, c *ssa.CallCommon, args []Val, in ssa.Instruction) []Ret {
	a := r.a
	name := TypeName(c.Value.Type())
	if i := strings.LastIndex(name, "."); i >= 0 {
		if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() == a.P.Pkg.Pkg {
			name = name[i+1:]
		}
	}
	full := name + "." + c.Method.Name()
	switch v := recv.(type) {
	case *IfaceV:
		fn := a.P.Prog.LookupMethod(v.X.Typ(), c.Method.Pkg(), c.Method.Name())
		if fn != nil {
			return r.callFn(st, fn, nil, append([]Val{v.X}, args...), c, in)
		}
	case *Const:
		return []Ret{{st, nil, "method call on nil interface: " + full, in.Pos()}}
	}
	var rets []Ret
	isNil := Eq(recv, Nil(c.Value.Type()))
	if v, known := st.Decide(isNil); !known || v {
		s := st.Clone()
		if s.Assume(isNil, true) {
			rets = append(rets, Ret{s, nil, "method call on nil interface " + shortKey(recv) + ": " + full, in.Pos()})
		}
		if !st.Assume(isNil, false) {
			return rets
		}
	}
	call := &Call{Name: full, Sig: c.Signature(), Instr: in, Pos: in.Pos(), Ctx: r.ctx}
	all := append([]Val{recv}, args...)
	if m, ok := a.Models[full]; ok {
		if out := m(a, st, all, call); out != nil {
			return append(rets, out...)
		}
	}
	// methods of any interface by bare name
	if m, ok := a.Models["*."+c.Method.Name()]; ok {
		if out := m(a, st, all, call); out != nil {
			return append(rets, out...)
		}
	}
	return append(rets, r.opaque(st, full, c.Signature(), all, in)...)
}

func (r *run) callFn(st *State, fn *ssa.Function, bind, args []Val, c *ssa.CallCommon, in ssa.Instruction) []Ret {
	a := r.a
	name := FnName(fn, a.P.Pkg.Pkg)
	call := &Call{Name: name, Sig: fn.Signature, Instr: in, Pos: in.Pos(), Ctx: r.ctx}
	if m, ok := a.Models[name]; ok {
		if out := m(a, st, args, call); out != nil {
			return out
		}
	}
	if a.ModelOf != nil {
		if m := a.ModelOf(fn); m != nil {
			call.Fn = fn
			if out := m(a, st, args, call); out != nil {
				return out
			}
		}
	}
	inPkg := fn.Pkg == a.P.Pkg || fn.Pkg == nil && len(fn.Blocks) > 0
	if inPkg && a.Opaque != nil && a.Opaque(name) {
		return r.opaque(st, name, fn.Signature, args, in)
	}
	if inPkg && len(fn.Blocks) > 0 {
		if fn.Name() == "init" && fn.Parent() == nil && fn.Pkg != a.P.Pkg {
			return []Ret{{St: st}}
		}
		// recursion guard
		n := 0
		for f := st.fr; f != nil; f = f.parent {
			if f.fn == fn {
				n++
			}
		}
		if n > a.Recurse || st.fr.depth > 30+10*a.Recurse {
			if a.Recurse > 0 {
				a.undecided("recursion of %s deeper than %d", name, a.Recurse)
			}
			return r.opaque(st, name, fn.Signature, args, in)
		}
		ctx := r.ctx + "/" + callSite(in)
		if a.Unroll > 0 {
			ctx += r.turn(st, in)
		}
		fr := st.fr
		_ = fr
		return a.runFn(st, fn, args, bind, ctx)
	}
	if m, ok := externals[name]; ok {
		if out := m(a, st, args, call); out != nil {
			return out
		}
	}
	if fn.Name() == "init" {
		return []Ret{{St: st}}
	}
	return r.external(st, name, fn.Signature, args, in)
}

func callSite(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return v.Name()
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return fmt.Sprintf("b%d.%d", in.Block().Index, i)
		}
	}
	return "?"
}

// opaque gives a call's results as terms named by callee and arguments.
func (r *run) opaque(st *State, name string, sig *types.Signature, args []Val, in ssa.Instruction) []Ret {
	return []Ret{{St: st, Vals: OpaqueResults(name, sig, args)}}
}

// OpaqueResults are terms for the results of an unanalysed call.
func OpaqueResults(name string, sig *types.Signature, args []Val) []Val {
	res := sig.Results()
	vals := make([]Val, res.Len())
	for i := range vals {
		t := res.At(i).Type()
		op := name
		if res.Len() > 1 {
			op = fmt.Sprintf("%s#%d", name, i)
		}
		if types.Identical(t, tError) && i == res.Len()-1 {
			op = name + "#err"
		}
		vals[i] = &Term{Op: op, Args: args, T: t}
	}
	return vals
}

// pure external packages: results depend on arguments only and nothing is written
var purePkgs = map[string]bool{"strings": true, "strconv": true, "regexp": true, "errors": true, "math": true, "unicode": true, "utf8": true, "net": true, "slice": true, "md5": true, "path": true, "filepath": true, "slices": true, "maps": true, "cmp": true, "time": true, "hex": true, "sha256": true}

func (r *run) external(st *State, name string, sig *types.Signature, args []Val, in ssa.Instruction) []Ret {
	pkg := strings.TrimLeft(name, "(*")
	if i := strings.Index(pkg, "."); i > 0 {
		pkg = pkg[:i]
	}
	st.Event("call " + name)
	if !purePkgs[pkg] && pkg != "log" && pkg != "fmt" {
		for i, x := range args {
			var rest []Val
			for j, y := range args {
				if j != i {
					rest = append(rest, y)
				}
			}
			r.a.havoc(st, x, name, i, rest)
		}
	} else {
		// reads through pointers: the result depends on the content
		cp := make([]Val, len(args))
		for i, x := range args {
			cp[i] = x
			if p, ok := x.(*Ptr); ok {
				cp[i] = NewTerm("&of", p.T, st.Load(p.L))
			}
			if _, ok := x.(*SliceV); ok {
				if l, ok := r.a.toList(st, x); ok {
					cp[i] = l
				}
			}
		}
		args = cp
	}
	return r.opaque(st, name, sig, args, in)
}

// havoc forgets memory an unknown callee may write through a pointer.
func (a *Analysis) havoc(st *State, v Val, name string, i int, rest []Val) {
	switch x := v.(type) {
	case *Ptr:
		st.Store(x.L, NewTerm(fmt.Sprintf("written-by:%s:%d", name, i), x.L.T, rest...))
	case *IfaceV:
		a.havoc(st, x.X, name, i, rest)
	}
}

// ---- builtins -----------------------------------------------------------

func (r *run) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, in ssa.Instruction) []Ret {
	ret := func(v Val) []Ret { return []Ret{{St: st, Vals: []Val{v}}} }
	t := c.Signature().Results()
	switch b.Name() {
	case "len":
		return ret(st.Resolve(st.lenOf(args[0])))
	case "cap":
		return ret(NewTerm("cap", tInt, args[0]))
	case "append":
		base := args[0]
		rt := t.At(0).Type()
		l, ok := r.a.toList(st, base)
		if !ok {
			r.a.undecided("append to %s in %s", shortKey(base), r.fn)
			return nil
		}
		if len(args) < 2 {
			return ret(base)
		}
		if r.a.OnAppend != nil {
			r.a.OnAppend(st, base, in.Pos())
		}
		if _, fixed := IsStr(args[1]); isStringT(args[1].Typ()) && !(fixed && r.a.ByteText) {
			return ret(NewTerm("appendstr", rt, base, args[1]))
		}
		add, ok := r.a.toList(st, args[1])
		if !ok {
			return ret(NewTerm("concat", rt, base, args[1]))
		}
		if add.Base != nil {
			if l.Base == nil && len(l.Elems) == 0 {
				return ret(add)
			}
			return ret(NewTerm("concat", rt, l, add))
		}
		n := &ListV{Base: l.Base, T: rt}
		n.Elems = append(append([]Val{}, l.Elems...), add.Elems...)
		return ret(n)
	case "copy":
		if sv, ok := args[0].(*SliceV); ok {
			if src, ok := r.a.toList(st, args[1]); ok && src.Base == nil {
				if n, ok := IsInt(sv.Len); ok {
					et := sv.T.Underlying().(*types.Slice).Elem()
					i := int64(0)
					for ; i < n && i < int64(len(src.Elems)); i++ {
						st.Store(sv.Root.index(Int(i), et), src.Elems[i])
					}
					return ret(Int(i))
				}
			}
			st.Store(sv.Root, NewTerm("copied", sv.T, args[1]))
			return ret(NewTerm("ncopied", tInt, args[1]))
		}
		r.a.undecided("copy in %s", r.fn)
		return ret(NewTerm("ncopied", tInt, args[1]))
	case "delete":
		if m, ok := args[0].(*MapV); ok {
			for k, cc := range st.heap {
				if cc.L.Parent != nil && cc.L.Parent.S == m.Root.S && cc.L.Idx.K() == args[1].K() {
					delete(st.heap, k)
				}
			}
			return []Ret{{St: st, Vals: []Val{}}}
		}
		st.Event("delete from " + args[0].K())
		return []Ret{{St: st}}
	case "panic":
		return []Ret{{st, nil, "panic called", in.Pos()}}
	case "recover":
		if st.pan != "" {
			st.pan = ""
			return ret(&Term{Op: "nonnil:recovered", T: t.At(0).Type()})
		}
		return ret(Nil(t.At(0).Type()))
	case "print", "println", "close":
		return []Ret{{St: st}}
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "min", "max":
		return ret(NewTerm(b.Name(), t.At(0).Type(), args...))
	}
	r.a.undecided("builtin %s in %s", b.Name(), r.fn)
	return nil
}

// ---- standard library models --------------------------------------------

var externals map[string]Model

func v1(st *State, vs ...Val) []Ret { return []Ret{{St: st, Vals: vs}} }

func strFold(name string, f func(...string) Val) Model {
	return func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		ss := make([]string, len(args))
		for i, x := range args {
			s, ok := IsStr(x)
			if !ok {
				return nil
			}
			ss[i] = s
		}
		return v1(st, f(ss...))
	}
}

func init() {
	externals = map[string]Model{}
	E := externals
	var within func(a *Analysis, x, y Val) (mid Val, suf, ys string, ok bool)
	pred := func(op string, f func(a, b string) bool) Model {
		return func(a *Analysis, st *State, args []Val, c *Call) []Ret {
			x, y := args[0], args[1]
			if p, ok := IsStr(y); ok {
				pre, suf := knownEnds(x)
				switch {
				case op == "HasSuffix" && suf != "" && (len(suf) >= len(p) || !strings.HasSuffix(p, suf)):
					return v1(st, Bool(strings.HasSuffix(suf, p)))
				case op == "HasPrefix" && pre != "" && (len(pre) >= len(p) || !strings.HasPrefix(p, pre)):
					return v1(st, Bool(strings.HasPrefix(pre, p)))
				}
			}
			if _, suf, p, ok := within(a, x, y); ok {
				switch op {
				case "HasSuffix":
					return v1(st, Bool(strings.HasSuffix(suf, p)))
				case "Contains":
					return v1(st, Bool(strings.Contains(suf, p)))
				case "HasPrefix":
					return v1(st, Bool(false))
				}
			}
			if s, ok := IsStr(x); ok {
				if p, ok := IsStr(y); ok {
					return v1(st, Bool(f(s, p)))
				}
			}
			if p, ok := IsStr(y); ok && p == "" {
				return v1(st, Bool(true))
			}
			return v1(st, NewTerm(op, tBool, x, y))
		}
	}
	// within tells the known end of a text in which alone occurrences of y can lie,
	// because the unknown part has none of y's first character
	within = func(a *Analysis, x, y Val) (mid Val, suf, ys string, ok bool) {
		ys, isS := IsStr(y)
		if !isS || ys == "" || a.Alphabet == nil {
			return
		}
		pre, mid, suf, ok := around(x)
		if !ok || pre != "" {
			return nil, "", "", false
		}
		al := a.Alphabet(mid)
		if al == "" || strings.ContainsRune(al, []rune(ys)[0]) {
			return nil, "", "", false
		}
		return mid, suf, ys, true
	}
	E["strings.HasPrefix"] = pred("HasPrefix", strings.HasPrefix)
	E["strings.HasSuffix"] = pred("HasSuffix", strings.HasSuffix)
	E["strings.Contains"] = pred("Contains", strings.Contains)
	E["strings.EqualFold"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		return v1(st, equalFold(args[0], args[1]))
	}
	rep := func(a *Analysis, st *State, s, o, n Val, cnt int64) Val {
		if x, ok := IsStr(s); ok {
			if y, ok := IsStr(o); ok {
				if z, ok := IsStr(n); ok {
					return Str(strings.Replace(x, y, z, int(cnt)))
				}
			}
		}
		if mid, suf, y, ok := within(a, s, o); ok {
			if z, ok := IsStr(n); ok {
				return Cat(mid, Str(strings.Replace(suf, y, z, int(cnt))))
			}
		}
		if cnt < 0 {
			return NewTerm("ReplaceAll", tString, s, o, n)
		}
		// removing a known prefix
		if cnt == 1 {
			if y, ok := IsStr(o); ok {
				if v, known := st.Decide(NewTerm("HasPrefix", tBool, s, o)); known && v {
					return Cat(n, st.dropPrefix(s, int64(len(y))))
				}
			}
		}
		return NewTerm("Replace", tString, s, o, n, Int(cnt))
	}
	E["strings.Replace"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		n, ok := IsInt(args[3])
		if !ok {
			return nil
		}
		return v1(st, rep(a, st, args[0], args[1], args[2], n))
	}
	E["strings.ReplaceAll"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		return v1(st, rep(a, st, args[0], args[1], args[2], -1))
	}
	E["(*strings.Replacer).Replace"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		r, ok := args[0].(*Term)
		if !ok || r.Op != "strings.NewReplacer" && r.Op != "strings.NewReplacer#0" || len(r.Args) != 1 {
			return nil
		}
		l, ok := a.toList(st, r.Args[0])
		if !ok || l.Base != nil || len(l.Elems)%2 != 0 {
			return nil
		}
		var olds []string
		for _, e := range l.Elems {
			s, ok := IsStr(st.Resolve(e))
			if !ok {
				return nil
			}
			olds = append(olds, s)
		}
		if x, ok := IsStr(args[1]); ok {
			return v1(st, Str(strings.NewReplacer(olds...).Replace(x)))
		}
		// single characters none of which comes from an earlier replacement can
		// be replaced one after the other
		for i := 0; i < len(olds); i += 2 {
			if len(olds[i]) != 1 {
				return nil
			}
			for j := 0; j < i; j += 2 {
				if strings.Contains(olds[j+1], olds[i]) || olds[i] == olds[j] {
					return nil
				}
			}
		}
		v := args[1]
		for i := 0; i < len(olds); i += 2 {
			v = rep(a, st, v, Str(olds[i]), Str(olds[i+1]), -1)
		}
		return v1(st, v)
	}
	E["strings.TrimSuffix"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		x, okx := IsStr(args[0])
		y, oky := IsStr(args[1])
		if okx && oky {
			return v1(st, Str(strings.TrimSuffix(x, y)))
		}
		if !oky {
			return nil
		}
		cut := func(s *State) Val {
			n := s.lenOf(args[0])
			b, k := linear(n)
			return Substr(args[0], Int(0), mkLinear(b, k-int64(len(y)), tInt), n, tString)
		}
		var outs []Ret
		at := E["strings.HasSuffix"](a, st, args, c)[0].Vals[0]
		for _, b := range []bool{true, false} {
			s := st.Clone()
			if !s.Assume(at, b) {
				continue
			}
			v := args[0]
			if b {
				v = cut(s)
			}
			outs = append(outs, Ret{St: s, Vals: []Val{v}})
		}
		return outs
	}
	E["strings.TrimPrefix"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		x, okx := IsStr(args[0])
		y, oky := IsStr(args[1])
		if okx && oky {
			return v1(st, Str(strings.TrimPrefix(x, y)))
		}
		if oky {
			at := NewTerm("HasPrefix", tBool, args[0], args[1])
			var outs []Ret
			for _, b := range []bool{true, false} {
				s := st.Clone()
				if !s.Assume(at, b) {
					continue
				}
				if b {
					outs = append(outs, Ret{St: s, Vals: []Val{s.dropPrefix(args[0], int64(len(y)))}})
				} else {
					outs = append(outs, Ret{St: s, Vals: []Val{args[0]}})
				}
			}
			return outs
		}
		return nil
	}
	E["strings.ToUpper"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		if s, ok := IsStr(args[0]); ok {
			return v1(st, Str(strings.ToUpper(s)))
		}
		return nil
	}
	E["strings.ToLower"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		if s, ok := IsStr(args[0]); ok {
			return v1(st, Str(strings.ToLower(s)))
		}
		return nil
	}
	E["strings.TrimSpace"] = strFold("", func(s ...string) Val { return Str(strings.TrimSpace(s[0])) })
	count := strFold("", func(s ...string) Val { return Int(int64(strings.Count(s[0], s[1]))) })
	E["strings.Count"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		if _, suf, y, ok := within(a, args[0], args[1]); ok {
			return v1(st, Int(int64(strings.Count(suf, y))))
		}
		return count(a, st, args, c)
	}
	E["strings.Index"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		x, okx := IsStr(args[0])
		y, oky := IsStr(args[1])
		if okx && oky {
			return v1(st, Int(int64(strings.Index(x, y))))
		}
		if mid, suf, y, ok := within(a, args[0], args[1]); ok {
			i := strings.Index(suf, y)
			if i < 0 {
				return v1(st, Int(-1))
			}
			return v1(st, mkLinear(st.lenOf(mid), int64(i), tInt))
		}
		// position inside a known prefix
		if oky {
			if p, ok := st.knownPrefix(args[0]); ok {
				if i := strings.Index(p, y); i >= 0 {
					return v1(st, Int(int64(i)))
				}
				if a.Bounds && len(y) == 1 { // nowhere, or after that prefix
					at := NewTerm("strings.Index", tInt, args...)
					out, after := []Ret(nil), st.Clone()
					if !st.orderExcludes(at, Int(-1)) && st.Assume(Eq(at, Int(-1)), true) {
						out = append(out, Ret{St: st, Vals: []Val{Int(-1)}})
					}
					if after.Assume(Not(Lt(at, Int(int64(len(p))))), true) {
						out = append(out, Ret{St: after, Vals: []Val{at}})
					}
					return out
				}
			}
		}
		return nil
	}
	E["strings.Split"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		x, okx := IsStr(args[0])
		y, oky := IsStr(args[1])
		if okx && oky {
			l := &ListV{T: c.Sig.Results().At(0).Type()}
			for _, p := range strings.Split(x, y) {
				l.Elems = append(l.Elems, Str(p))
			}
			return v1(st, l)
		}
		t := NewTerm("strings.Split", c.Sig.Results().At(0).Type(), args...)
		if oky && y != "" {
			st.setLo(NewTerm("len", tInt, t), 1)
		}
		return v1(st, t)
	}
	E["strings.Join"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		l, ok := a.toList(st, args[0])
		if ok && l.Base == nil {
			var parts []Val
			for i, e := range l.Elems {
				if i > 0 {
					parts = append(parts, args[1])
				}
				parts = append(parts, e)
			}
			return v1(st, Cat(parts...))
		}
		return nil
	}
	E["slice.ContainsString"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		l, ok := a.toList(st, args[0])
		if !ok || l.Base != nil {
			return nil
		}
		return v1(st, st.Resolve(InSet(st.Resolve(args[1]), l.Elems)))
	}
	E["slices.Contains"] = E["slice.ContainsString"]
	newerr := func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		return v1(st, &Term{Op: "newerr", Args: []Val{Str(a.P.Pos(c.Pos))}, T: tError})
	}
	E["errors.New"] = newerr
	E["fmt.Errorf"] = newerr
	E["fmt.Sprint"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		l, ok := a.toList(st, args[0])
		if ok && l.Base == nil && len(l.Elems) == 1 {
			return v1(st, fmtV("%v", l.Elems[0]))
		}
		return nil
	}
	nop := func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		var vs []Val
		for i := 0; i < c.Sig.Results().Len(); i++ {
			vs = append(vs, &Term{Op: c.Name + "#r" + fmt.Sprint(i), T: c.Sig.Results().At(i).Type()})
		}
		return []Ret{{St: st, Vals: vs}}
	}
	for _, n := range []string{"log.Println", "log.Printf", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln", "fmt.Fprint"} {
		E[n] = nop
	}
	fatal := func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		return []Ret{{st, nil, c.Name + " ends the process", c.Pos}}
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit"} {
		E[n] = fatal
	}
	E["regexp.Compile"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		rt := c.Sig.Results().At(0).Type()
		if s, ok := IsStr(args[0]); ok {
			if _, err := regexp.Compile(s); err != nil {
				return v1(st, Nil(rt), &Term{Op: "newerr", Args: []Val{Str("regexp")}, T: tError})
			}
			return v1(st, &Term{Op: "regexp", Args: args, T: rt}, Nil(tError))
		}
		return nil
	}
	E["regexp.MustCompile"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		rt := c.Sig.Results().At(0).Type()
		if s, ok := IsStr(args[0]); ok {
			if _, err := regexp.Compile(s); err == nil {
				return v1(st, &Term{Op: "regexp", Args: args, T: rt})
			}
			return []Ret{{st, nil, "regexp.MustCompile panics", c.Pos}}
		}
		et := NewTerm("regexp.Compile#err", tError, args...)
		ok := Eq(et, Nil(tError))
		var outs []Ret
		if v, known := st.Decide(ok); !known || !v {
			s := st.Clone()
			if s.Assume(ok, false) {
				outs = append(outs, Ret{s, nil, "regexp.MustCompile panics on " + shortKey(args[0]), c.Pos})
			}
		}
		if st.Assume(ok, true) {
			outs = append(outs, Ret{St: st, Vals: []Val{NewTerm("regexp.Compile#0", rt, args...)}})
		}
		return outs
	}
	nilrecv := func(st *State, v Val, c *Call) (outs []Ret, live bool) {
		v = st.Resolve(v)
		if IsNil(v) {
			return []Ret{{st, nil, "nil receiver in " + c.Name, c.Pos}}, false
		}
		if t, ok := v.(*Term); ok {
			isNil := Eq(t, Nil(t.T))
			if b, known := st.Decide(isNil); !known || b {
				s := st.Clone()
				if s.Assume(isNil, true) {
					outs = append(outs, Ret{s, nil, "nil receiver " + shortKey(v) + " in " + c.Name, c.Pos})
				}
				if !st.Assume(isNil, false) {
					return outs, false
				}
			}
		}
		return outs, true
	}
	match := func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		outs, live := nilrecv(st, args[0], c)
		if !live {
			return outs
		}
		x := args[1]
		if t, ok := x.(*Term); ok && t.Op == "bytes" {
			x = t.Args[0]
		} else if isByteSlice(x.Typ()) {
			x = convert(x, x.Typ(), tString)
		}
		if rt, ok := args[0].(*Term); ok && rt.Op == "regexp" {
			if p, ok := IsStr(rt.Args[0]); ok {
				if s, ok := IsStr(x); ok {
					return append(outs, Ret{St: st, Vals: []Val{Bool(regexp.MustCompile(p).MatchString(s))}})
				}
			}
		}
		return append(outs, Ret{St: st, Vals: []Val{st.Resolve(NewTerm("rematch", tBool, args[0], x))}})
	}
	E["(*regexp.Regexp).Match"] = match
	E["(*regexp.Regexp).MatchString"] = match
	E["(*regexp.Regexp).Copy"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		outs, live := nilrecv(st, args[0], c)
		if !live {
			return outs
		}
		return append(outs, Ret{St: st, Vals: []Val{args[0]}})
	}
	E["(*regexp.Regexp).String"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		outs, live := nilrecv(st, args[0], c)
		if !live {
			return outs
		}
		if t, ok := args[0].(*Term); ok && (t.Op == "regexp" || t.Op == "regexp.Compile#0") {
			return append(outs, Ret{St: st, Vals: []Val{t.Args[0]}})
		}
		return append(outs, Ret{St: st, Vals: []Val{NewTerm("restring", tString, args[0])}})
	}
	E["math.Pow"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		x, ok1 := args[0].(*Const)
		y, ok2 := args[1].(*Const)
		if !ok1 || !ok2 {
			return nil
		}
		fx, _ := constant.Float64Val(constant.ToFloat(x.V))
		fy, _ := constant.Float64Val(constant.ToFloat(y.V))
		return v1(st, &Const{constant.MakeFloat64(math.Pow(fx, fy)), types.Typ[types.Float64]})
	}
	E["strconv.ParseFloat"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		s, ok := IsStr(args[0])
		if !ok {
			return nil
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return v1(st, &Const{constant.MakeFloat64(0), types.Typ[types.Float64]}, &Term{Op: "newerr", Args: []Val{Str("parsefloat")}, T: tError})
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return v1(st, &Term{Op: "float:" + s, T: types.Typ[types.Float64]}, Nil(tError))
		}
		return v1(st, &Const{constant.MakeFloat64(f), types.Typ[types.Float64]}, Nil(tError))
	}
	parsed := func(v Val, err error) []Val {
		if err != nil {
			return []Val{v, &Term{Op: "newerr", Args: []Val{Str("parseint")}, T: tError}}
		}
		return []Val{v, Nil(tError)}
	}
	E["strconv.Atoi"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		s, ok := IsStr(args[0])
		if !ok {
			return nil
		}
		n, err := strconv.Atoi(s)
		return v1(st, parsed(Int(int64(n)), err)...)
	}
	E["strconv.ParseInt"] = func(a *Analysis, st *State, args []Val, c *Call) []Ret {
		s, ok := IsStr(args[0])
		base, okb := IsInt(args[1])
		bits, okz := IsInt(args[2])
		if !ok || !okb || !okz {
			return nil
		}
		n, err := strconv.ParseInt(s, int(base), int(bits))
		return v1(st, parsed(&Const{constant.MakeInt64(n), types.Typ[types.Int64]}, err)...)
	}
}

// InSet is the canonical membership predicate.
func InSet(x Val, set []Val) Val {
	if c, ok := x.(*Const); ok {
		allC := true
		for _, e := range set {
			ec, ok := e.(*Const)
			if !ok {
				allC = false
				continue
			}
			if ec.K() == c.K() {
				return Bool(true)
			}
		}
		if allC {
			return Bool(false)
		}
	}
	seen := map[string]bool{}
	var cs []Val
	for _, e := range set {
		if _, ok := e.(*Const); !ok {
			return NewTerm("contains", tBool, append([]Val{x}, set...)...)
		}
		if !seen[e.K()] {
			seen[e.K()] = true
			cs = append(cs, e)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].K() < cs[j].K() })
	if len(cs) == 0 {
		return Bool(false)
	}
	if len(cs) == 1 {
		return Eq(x, cs[0])
	}
	return NewTerm("in", tBool, append([]Val{x}, cs...)...)
}

// knownPrefix is the longest prefix the facts guarantee for a string.
func (s *State) knownPrefix(v Val) (string, bool) {
	if t, ok := v.(*Term); ok && t.Op == "cat" {
		if p, ok := IsStr(t.Args[0]); ok {
			return p, true
		}
	}
	best, found := "", false
	for k, val := range s.facts {
		if !val {
			continue
		}
		at := s.A.atoms[k]
		if at != nil && at.Op == "HasPrefix" && at.Args[0].K() == v.K() {
			if p, ok := IsStr(at.Args[1]); ok && len(p) > len(best) {
				best, found = p, true
			}
		}
	}
	return best, found
}

func (s *State) dropPrefix(v Val, n int64) Val {
	if t, ok := v.(*Term); ok && t.Op == "cat" {
		if p, ok := IsStr(t.Args[0]); ok && int64(len(p)) >= n {
			return Cat(append([]Val{Str(p[n:])}, t.Args[1:]...)...)
		}
	}
	return Substr(v, Int(n), NewTerm("len", tInt, v), NewTerm("len", tInt, v), tString)
}

// fmtV is the rendering of one formatted operand.
func fmtV(verb string, v Val) Val {
	x := v
	if iv, ok := v.(*IfaceV); ok {
		x = iv.X
	}
	if (verb == "%v" || verb == "%s") && isStringT(x.Typ()) {
		return x
	}
	if c, ok := x.(*Const); ok && c.V != nil && c.V.Kind() == constant.Int && (verb == "%v" || verb == "%d") {
		return Str(c.V.ExactString())
	}
	if c, ok := x.(*Const); ok && c.V != nil && c.V.Kind() == constant.Bool && (verb == "%v" || verb == "%t") {
		return Str(c.V.ExactString())
	}
	if IsNil(v) && verb == "%v" {
		if _, ok := v.Typ().Underlying().(*types.Interface); ok {
			return Str("<nil>")
		}
	}
	return NewTerm("fmt"+verb, tString, x)
}

// Sprintf renders a format with abstract operands.
func Sprintf(f string, args []Val) (Val, bool) {
	var parts []Val
	ai := 0
	i := 0
	lit := ""
	for i < len(f) {
		if f[i] != '%' {
			lit += string(f[i])
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[j])) {
			j++
		}
		if j >= len(f) {
			return nil, false
		}
		verb := f[i : j+1]
		i = j + 1
		if verb == "%%" {
			lit += "%"
			continue
		}
		if ai >= len(args) {
			return nil, false
		}
		parts = append(parts, Str(lit))
		lit = ""
		parts = append(parts, fmtV(verb, args[ai]))
		ai++
	}
	parts = append(parts, Str(lit))
	if ai != len(args) {
		return nil, false
	}
	return Cat(parts...), true
}

// orderExcludes: a comparison known of t does not hold of the number n, for a
// text with a known prefix.
func (s *State) orderExcludes(t, n Val) bool {
	for k, v := range s.facts {
		at := s.A.atoms[k]
		if at == nil || at.Op != "lt" {
			continue
		}
		l, r := at.Args[0], at.Args[1]
		if l.K() == t.K() {
			l = n
		} else if r.K() == t.K() {
			r = n
		} else {
			continue
		}
		if got, known := s.Decide(Lt(l, r)); known && got != v {
			return true
		}
	}
	return false
}
