// Package absint is a path-sensitive, finite-store dataflow analysis over the
// SSA form of the analysed package.  Facts at a program point are abstract
// stores: registers and memory cells hold constants, opaque value terms
// (named by where the value came from) or small containers of these, together
// with the branch predicates that hold.  Facts are propagated block by block
// with a worklist until no new fact appears; equal facts are merged.
package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
type Val interface {
	K() string // canonical key: equal keys denote equal abstract values
	Typ() types.Type
}

// Const is a known constant; V == nil means the nil/zero reference.
type Const struct {
	V constant.Value
	T types.Type
}

func (c *Const) K() string {
	if c.V == nil {
		return "nil"
	}
	switch c.V.Kind() {
	case constant.String:
		return strconv.Quote(constant.StringVal(c.V))
	case constant.Float:
		f, _ := constant.Float64Val(c.V)
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
	return c.V.ExactString()
}
func (c *Const) Typ() types.Type { return c.T }

// Term is an opaque value identified by its operator and operands.
type Term struct {
	Op   string
	Args []Val
	T    types.Type
	L    *Loc // set when the term is the initial content of a location
	k    string
}

func locTerm(l *Loc) *Term { return &Term{Op: l.S, T: l.T, L: l} }

func (t *Term) K() string {
	if t.k == "" {
		if len(t.Args) == 0 {
			t.k = t.Op
		} else {
			ks := make([]string, len(t.Args))
			for i, a := range t.Args {
				ks[i] = a.K()
			}
			t.k = t.Op + "(" + strings.Join(ks, ", ") + ")"
		}
	}
	return t.k
}
func (t *Term) Typ() types.Type { return t.T }

// NewTerm builds a term.
func NewTerm(op string, typ types.Type, args ...Val) *Term {
	return &Term{Op: op, Args: args, T: typ}
}

// Loc is a memory location: a root object plus a selector path.
type Loc struct {
	Parent *Loc
	Sel    string // ".Field" or "[idx]"
	Idx    Val    // index value for "[idx]" selectors
	S      string
	T      types.Type // content type
	Zero   bool       // the root is freshly allocated memory (zero default)
	Term   Val        // for symbolic roots: the pointer/slice the root belongs to
	Value  bool       // the root is the value Term itself, not its pointee
}

func rootLoc(s string, t types.Type, zero bool) *Loc { return &Loc{S: s, T: t, Zero: zero} }
func (l *Loc) field(name string, t types.Type) *Loc {
	return &Loc{Parent: l, Sel: "." + name, S: l.S + "." + name, T: t, Zero: l.Zero}
}
func (l *Loc) index(i Val, t types.Type) *Loc {
	s := "[" + i.K() + "]"
	return &Loc{Parent: l, Sel: s, Idx: i, S: l.S + s, T: t, Zero: l.Zero}
}
func (l *Loc) root() *Loc {
	for l.Parent != nil {
		l = l.Parent
	}
	return l
}

// Ptr is a pointer to a known location.
type Ptr struct {
	L *Loc
	T types.Type
}

func (p *Ptr) K() string       { return "&" + p.L.S }
func (p *Ptr) Typ() types.Type { return p.T }

// StructV is a struct value: Base overridden by Over. Base may be nil (zero).
type StructV struct {
	Base Val
	Over map[string]Val
	T    types.Type
}

func (s *StructV) K() string {
	ks := make([]string, 0, len(s.Over))
	for k, v := range s.Over {
		ks = append(ks, k+":"+v.K())
	}
	sort.Strings(ks)
	b := ""
	if s.Base != nil {
		b = s.Base.K() + "|"
	}
	return "{" + b + strings.Join(ks, ",") + "}"
}
func (s *StructV) Typ() types.Type { return s.T }

// ListV is a slice value with known trailing elements: Base ++ Elems.
// Base is nil for a fully known list.
type ListV struct {
	Base  Val
	Elems []Val
	T     types.Type
	k     string
	of    *ListV // the list this is a conversion of
}

func (l *ListV) K() string {
	if l.k == "" {
		ks := make([]string, 0, len(l.Elems)+1)
		if l.Base != nil {
			ks = append(ks, l.Base.K()+"...")
		}
		for _, e := range l.Elems {
			ks = append(ks, e.K())
		}
		l.k = "[" + strings.Join(ks, "; ") + "]"
	}
	return l.k
}
func (l *ListV) Typ() types.Type { return l.T }

// SliceV is a slice backed by mutable analysed memory.
type SliceV struct {
	Root *Loc
	Len  Val
	T    types.Type
}

func (s *SliceV) K() string       { return "slice(" + s.Root.S + "," + s.Len.K() + ")" }
func (s *SliceV) Typ() types.Type { return s.T }

// MapV is a map created by the analysed code.
type MapV struct {
	Root *Loc
	T    types.Type
}

func (m *MapV) K() string       { return "map(" + m.Root.S + ")" }
func (m *MapV) Typ() types.Type { return m.T }

// IfaceV is an interface holding a value of known dynamic type.
type IfaceV struct {
	X Val
	T types.Type
}

func (i *IfaceV) K() string {
	return "iface<" + TypeName(i.X.Typ()) + ">(" + i.X.K() + ")"
}
func (i *IfaceV) Typ() types.Type { return i.T }

// FuncV is a function or closure value.
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	T    types.Type
}

func (f *FuncV) K() string {
	ks := make([]string, len(f.Bind))
	for i, a := range f.Bind {
		ks[i] = a.K()
	}
	return "func:" + f.Fn.String() + "{" + strings.Join(ks, ",") + "}"
}
func (f *FuncV) Typ() types.Type { return f.T }

// TupleV is a multi-value result.
type TupleV struct{ Vs []Val }

func (t *TupleV) K() string {
	ks := make([]string, len(t.Vs))
	for i, a := range t.Vs {
		ks[i] = a.K()
	}
	return "(" + strings.Join(ks, ", ") + ")"
}
func (t *TupleV) Typ() types.Type { return nil }

// ---- constructors -------------------------------------------------------

var (
	tBool   = types.Typ[types.Bool]
	tInt    = types.Typ[types.Int]
	tString = types.Typ[types.String]
	tError  = types.Universe.Lookup("error").Type()
)

func Bool(b bool) *Const      { return &Const{constant.MakeBool(b), tBool} }
func Int(i int64) *Const      { return &Const{constant.MakeInt64(i), tInt} }
func Str(s string) *Const     { return &Const{constant.MakeString(s), tString} }
func Nil(t types.Type) *Const { return &Const{nil, t} }

func IsConst(v Val) (*Const, bool) { c, ok := v.(*Const); return c, ok }

func IsBool(v Val) (bool, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}
func IsStr(v Val) (string, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	return "", false
}
func IsInt(v Val) (int64, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.Int {
		return constant.Int64Val(c.V)
	}
	return 0, false
}
func IsNil(v Val) bool {
	c, ok := v.(*Const)
	return ok && c.V == nil
}

// TypeName prints a type without package path noise.
func TypeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ZeroOf is the zero value of a type.
func ZeroOf(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Const{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return &Const{constant.MakeString(""), t}
		case u.Info()&types.IsInteger != 0:
			return &Const{constant.MakeInt64(0), t}
		case u.Info()&types.IsFloat != 0:
			return &Const{constant.MakeFloat64(0), t}
		}
		return Nil(t)
	case *types.Struct:
		return &StructV{Over: map[string]Val{}, T: t}
	case *types.Array:
		return &StructV{Over: map[string]Val{}, T: t}
	case *types.Tuple:
		vs := make([]Val, u.Len())
		for i := range vs {
			vs[i] = ZeroOf(u.At(i).Type())
		}
		return &TupleV{vs}
	}
	return Nil(t)
}

// FieldOf selects a field of a struct value.
func FieldOf(v Val, name string, ft types.Type) Val {
	switch v := v.(type) {
	case *StructV:
		if x, ok := v.Over[name]; ok {
			return x
		}
		if v.Base == nil {
			return ZeroOf(ft)
		}
		return FieldOf(v.Base, name, ft)
	case *Const:
		return ZeroOf(ft)
	case *Term:
		if v.Op == "choice" {
			n := &Term{Op: "choice", T: ft}
			for _, x := range v.Args {
				n.Args = append(n.Args, FieldOf(x, name, ft))
			}
			return n
		}
		if v.Op == "alt" {
			return &Term{Op: "alt", Args: append([]Val{FieldOf(v.Args[0], name, ft)}, v.Args[1:]...), T: ft}
		}
		if v.L != nil {
			return locTerm(v.L.field(name, ft))
		}
	}
	return locTerm((&Loc{S: v.K(), T: v.Typ(), Term: v, Value: true}).field(name, ft))
}

// Subst replaces, in v, every sub-value for which f returns non-nil.
func Subst(v Val, f func(Val) Val) Val {
	if v == nil {
		return nil
	}
	if r := f(v); r != nil {
		return r
	}
	many := func(vs []Val) ([]Val, bool) {
		var out []Val
		for i, x := range vs {
			y := Subst(x, f)
			if y != x && out == nil {
				out = append([]Val{}, vs...)
			}
			if out != nil {
				out[i] = y
			}
		}
		if out == nil {
			return vs, false
		}
		return out, true
	}
	switch v := v.(type) {
	case *Term:
		if v.L != nil {
			if l := substLoc(v.L, f); l != v.L {
				return locTerm(l)
			}
			return v
		}
		if a, ch := many(v.Args); ch {
			return &Term{Op: v.Op, Args: a, T: v.T}
		}
	case *ListV:
		a, ch := many(v.Elems)
		b := v.Base
		if b != nil {
			b = Subst(b, f)
		}
		if ch || b != v.Base {
			return &ListV{Base: b, Elems: a, T: v.T}
		}
	case *StructV:
		over := map[string]Val{}
		ch := false
		for k, x := range v.Over {
			y := Subst(x, f)
			over[k] = y
			ch = ch || y != x
		}
		b := v.Base
		if b != nil {
			b = Subst(b, f)
			ch = ch || b != v.Base
		}
		if ch {
			return &StructV{Base: b, Over: over, T: v.T}
		}
	case *IfaceV:
		if x := Subst(v.X, f); x != v.X {
			return &IfaceV{X: x, T: v.T}
		}
	case *TupleV:
		if a, ch := many(v.Vs); ch {
			return &TupleV{a}
		}
	case *FuncV:
		if a, ch := many(v.Bind); ch {
			return &FuncV{Fn: v.Fn, Bind: a, T: v.T}
		}
	case *Ptr:
		if l := substLoc(v.L, f); l != v.L {
			return &Ptr{L: l, T: v.T}
		}
	case *SliceV:
		if l := substLoc(v.Root, f); l != v.Root {
			return &SliceV{Root: l, Len: Subst(v.Len, f), T: v.T}
		}
	}
	return v
}

func substLoc(l *Loc, f func(Val) Val) *Loc {
	if l == nil {
		return nil
	}
	if l.Parent == nil {
		if l.Term != nil {
			if t := Subst(l.Term, f); t != l.Term {
				if l.Value {
					return &Loc{S: t.K(), T: l.T, Term: t, Value: true}
				}
				return derefLoc(t, l.T)
			}
		}
		return l
	}
	p := substLoc(l.Parent, f)
	if l.Idx != nil {
		i := Subst(l.Idx, f)
		if p != l.Parent || i != l.Idx {
			return p.index(i, l.T)
		}
		return l
	}
	if p != l.Parent {
		return p.field(l.Sel[1:], l.T)
	}
	return l
}

// derefLoc is the object a symbolic pointer or slice value refers to.
func derefLoc(v Val, t types.Type) *Loc {
	return &Loc{S: v.K() + "^", T: t, Term: v}
}

// ---- comparisons --------------------------------------------------------

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// Not negates a boolean value.
func Not(v Val) Val {
	if b, ok := IsBool(v); ok {
		return Bool(!b)
	}
	if t, ok := v.(*Term); ok && t.Op == "not" {
		return t.Args[0]
	}
	return NewTerm("not", tBool, v)
}

// linear splits an integer value into base + constant.
func linear(v Val) (Val, int64) {
	if i, ok := IsInt(v); ok {
		return nil, i
	}
	if t, ok := v.(*Term); ok && t.Op == "add" {
		if c, ok := IsInt(t.Args[1]); ok {
			return t.Args[0], c
		}
	}
	return v, 0
}

func mkLinear(b Val, c int64, t types.Type) Val {
	if b == nil {
		return &Const{constant.MakeInt64(c), t}
	}
	if c == 0 {
		return b
	}
	return NewTerm("add", t, b, &Const{constant.MakeInt64(c), t})
}

// Eq is the canonical equality atom.
func Eq(a, b Val) Val {
	if a.K() == b.K() {
		if !isFloat(a.Typ()) {
			return Bool(true)
		}
	}
	ca, oka := a.(*Const)
	cb, okb := b.(*Const)
	if oka && okb {
		if ca.V == nil || cb.V == nil {
			return Bool(ca.V == nil && cb.V == nil)
		}
		return Bool(constant.Compare(ca.V, token.EQL, cb.V))
	}
	if oka && !okb {
		a, b = b, a
		ca, oka = nil, false
		cb, okb = b.(*Const)
	}
	if okb {
		// booleans: x == true is x
		if bv, ok := IsBool(b); ok {
			if bv {
				return a
			}
			return Not(a)
		}
		if cb.V == nil {
			switch x := a.(type) {
			case *Ptr, *MapV, *SliceV, *FuncV, *IfaceV:
				return Bool(false)
			case *ListV:
				if len(x.Elems) > 0 || x.Base == nil {
					return Bool(false)
				}
			case *Term:
				if nonNilOp(x.Op) {
					return Bool(false)
				}
			}
		}
		if i, ok := IsInt(b); ok {
			if bs, off := linear(a); off != 0 && bs != nil {
				return Eq(bs, Int(i-off))
			}
			if t, ok := a.(*Term); ok && t.Op == "len" && i == 0 && isStringT(t.Args[0].Typ()) {
				return Eq(t.Args[0], Str(""))
			}
			if t, ok := a.(*Term); ok && t.Op == "strings.Index" {
				if i == 0 {
					return NewTerm("HasPrefix", tBool, t.Args...)
				}
				if i == -1 {
					return Not(NewTerm("Contains", tBool, t.Args...))
				}
			}
			// the first and last byte, read within bounds
			if t, ok := a.(*Term); ok && t.Op == "at" && isStringT(t.Args[0].Typ()) && i > 0 && i < 128 {
				if n, ok := IsInt(t.Args[1]); ok && n == 0 {
					return NewTerm("HasPrefix", tBool, t.Args[0], Str(string(rune(i))))
				}
				if bs, off := linear(t.Args[1]); off == -1 && bs != nil && bs.K() == NewTerm("len", tInt, t.Args[0]).K() {
					return NewTerm("HasSuffix", tBool, t.Args[0], Str(string(rune(i))))
				}
			}
			if t, ok := a.(*Term); ok && t.Op == "strings.Count" && i == 0 {
				return Not(NewTerm("Contains", tBool, t.Args...))
			}
			if t, ok := a.(*Term); ok && t.Op == "strings.Compare" && i == 0 {
				return Eq(t.Args[0], t.Args[1])
			}
		}
		return NewTerm("eq", tBool, a, b)
	}
	// linear forms over the same base
	if isIntT(a.Typ()) {
		ba, ia := linear(a)
		bb, ib := linear(b)
		if ba != nil && bb != nil && ba.K() == bb.K() {
			return Bool(ia == ib)
		}
	}
	if ia, ok := a.(*IfaceV); ok {
		if ib, ok := b.(*IfaceV); ok {
			if !types.Identical(ia.X.Typ(), ib.X.Typ()) {
				return Bool(false)
			}
			return Eq(ia.X, ib.X)
		}
	}
	if a.K() > b.K() {
		a, b = b, a
	}
	return NewTerm("eq", tBool, a, b)
}

// Lt is the canonical a < b atom.
func Lt(a, b Val) Val {
	ca, oka := a.(*Const)
	cb, okb := b.(*Const)
	if oka && okb && ca.V != nil && cb.V != nil {
		return Bool(constant.Compare(ca.V, token.LSS, cb.V))
	}
	if a.K() == b.K() && !isFloat(a.Typ()) {
		return Bool(false)
	}
	if isIntT(a.Typ()) || isIntT(b.Typ()) {
		ba, ia := linear(a)
		bb, ib := linear(b)
		if ba != nil && bb != nil && ba.K() == bb.K() {
			return Bool(ia < ib)
		}
		if bb == nil { // base < const
			c := ib - ia
			if t, ok := ba.(*Term); ok {
				if t.Op == "len" && isStringT(t.Args[0].Typ()) {
					if c <= 0 {
						return Bool(false)
					}
					if c == 1 {
						return Eq(t.Args[0], Str(""))
					}
				}
				if t.Op == "strings.Index" && c == 0 {
					return Not(NewTerm("Contains", tBool, t.Args...))
				}
			}
			return NewTerm("lt", tBool, ba, Int(c))
		}
		if ba == nil { // const < base  ==  not (base < const+1)
			return Not(Lt(bb, Int(ia-ib+1)))
		}
		// move offsets to the right
		return NewTerm("lt", tBool, ba, mkLinear(bb, ib-ia, tInt))
	}
	return NewTerm("lt", tBool, a, b)
}

// Cmp builds the boolean value of a comparison operator.
func Cmp(op token.Token, a, b Val) Val {
	switch op {
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	}
	if isFloat(a.Typ()) || isFloat(b.Typ()) {
		if _, ok := a.(*Const); ok {
			if _, ok := b.(*Const); ok {
				return Bool(constant.Compare(a.(*Const).V, op, b.(*Const).V))
			}
		}
		switch op { // NaN: x>=y is not the negation of x<y
		case token.LSS:
			return NewTerm("flt", tBool, a, b)
		case token.GTR:
			return NewTerm("flt", tBool, b, a)
		case token.LEQ:
			return NewTerm("fle", tBool, a, b)
		case token.GEQ:
			return NewTerm("fle", tBool, b, a)
		}
	}
	switch op {
	case token.LSS:
		return Lt(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.LEQ:
		return Not(Lt(b, a))
	case token.GEQ:
		return Not(Lt(a, b))
	}
	panic(fmt.Sprintf("cmp %v", op))
}

func nonNilOp(op string) bool {
	return op == "newerr" || op == "regexp" || op == "closure" || strings.HasPrefix(op, "nonnil:")
}

// Cat is canonical string concatenation.
func Cat(vs ...Val) Val {
	var out []Val
	for _, v := range vs {
		if t, ok := v.(*Term); ok && t.Op == "cat" {
			out = append(out, t.Args...)
			continue
		}
		out = append(out, v)
	}
	var m []Val
	for _, v := range out {
		s, ok := IsStr(v)
		if ok && s == "" {
			continue
		}
		if ok && len(m) > 0 {
			if p, ok := IsStr(m[len(m)-1]); ok {
				m[len(m)-1] = Str(p + s)
				continue
			}
		}
		m = append(m, v)
	}
	switch len(m) {
	case 0:
		return Str("")
	case 1:
		return m[0]
	}
	return NewTerm("cat", tString, m...)
}
