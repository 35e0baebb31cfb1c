package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// At is the initial content of a field, following pointers.
func At(v Val, names ...string) Val {
	for _, n := range names {
		v = at1(v, n)
	}
	return v
}

func at1(v Val, name string) Val {
	l := LocOf(v)
	if l == nil {
		return nil
	}
	ft := structField(l.T, name)
	if ft == nil {
		panic("no field " + name + " in " + TypeName(l.T))
	}
	return locTerm(l.field(name, ft))
}

// LocOf is the location denoted by a pointer, or the location a term is the content of.
func LocOf(v Val) *Loc {
	switch x := v.(type) {
	case *Ptr:
		return x.L
	case *Term:
		if p, ok := x.T.Underlying().(*types.Pointer); ok {
			return derefLoc(x, p.Elem())
		}
		if x.L != nil {
			return x.L
		}
		return &Loc{S: x.K(), T: x.T, Term: x, Value: true}
	}
	return nil
}

// FieldLoc is the location of a field of the object v points to or is.
func FieldLoc(v Val, name string) *Loc {
	l := LocOf(v)
	return l.field(name, structField(l.T, name))
}

// ElemAt is the initial content of a slice element.
func ElemAt(v Val, idx Val) Val {
	t := v.(*Term)
	et := t.T.Underlying().(*types.Slice).Elem()
	return locTerm(derefLoc(t, t.T).index(idx, et))
}

// Content is the initial content behind a pointer term.
func Content(v Val) Val { return locTerm(LocOf(v)) }

func structField(t types.Type, name string) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// HasField tells whether a struct type has a field.
func HasField(t types.Type, name string) bool { return structField(t, name) != nil }

// Len is the length term.
func Len(v Val) Val { return NewTerm("len", tInt, v) }

// MapGet and MapHas are the content of and membership in a map term.
func MapGet(m, k Val) Val {
	return NewTerm("get", m.Typ().Underlying().(*types.Map).Elem(), m, k)
}

// MapHas is the membership predicate.
func MapHas(m, k Val) Val { return NewTerm("has", tBool, m, k) }

// SigIs compares parameter (with receiver) and result types, ignoring parameter order.
func SigIs(fn *ssa.Function, params, results []string) bool {
	var ps []string
	for _, p := range fn.Params {
		ps = append(ps, shortType(p.Type()))
	}
	if len(ps) != len(params) {
		return false
	}
	used := make([]bool, len(params))
	for _, p := range ps {
		ok := false
		for i, w := range params {
			if !used[i] && w == p {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	rs := fn.Signature.Results()
	if rs.Len() != len(results) {
		return false
	}
	for i := 0; i < rs.Len(); i++ {
		if shortType(rs.At(i).Type()) != results[i] {
			return false
		}
	}
	return true
}

func shortType(t types.Type) string {
	return strings.Replace(types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "MAPL_engine" {
			return ""
		}
		return p.Name()
	}), "interface {}", "interface{}", -1)
}

// ShortType is the type name without the analysed package's own qualifier.
func ShortType(t types.Type) string { return strings.Replace(shortType(t), "any", "interface{}", -1) }

// ArgOf returns the argument whose parameter has the given short type.
func ArgOf(fn *ssa.Function, args []Val, typ string) Val {
	for i, p := range fn.Params {
		if shortType(p.Type()) == typ && i < len(args) {
			return args[i]
		}
	}
	return nil
}

// Bool type for terms.
func Pred(op string, args ...Val) Val { return NewTerm(op, tBool, args...) }

// TokenOf splits a loop-carried value into its loop and component.
func (a *Analysis) TokenOf(v Val) (lm *LoopMeta, comp string, ok bool) {
	t, isT := v.(*Term)
	if !isT || len(t.Args) != 0 || !strings.HasPrefix(t.Op, "tok@") {
		return nil, "", false
	}
	rest := t.Op[len("tok@"):]
	for id, l := range a.Loops {
		if strings.HasPrefix(rest, id+":") {
			c := rest[len(id)+1:]
			if strings.HasPrefix(c, "φ:") || strings.HasPrefix(c, "H:") {
				return l, c, true
			}
		}
	}
	return nil, "", false
}

// LoopOfIter finds the loop an iteration term belongs to.
func (a *Analysis) LoopOfIter(v Val) *LoopMeta {
	t, ok := v.(*Term)
	if !ok || len(t.Args) != 0 {
		return nil
	}
	for _, l := range a.Loops {
		if l.Iter != nil && l.Iter.Op == t.Op {
			return l
		}
	}
	return nil
}

// Index is the location of an element.
func (l *Loc) Index(i Val, t types.Type) *Loc { return l.index(i, t) }

// Mentions tells whether a fact is about the given term.
func (s *State) Mentions(key string) bool {
	for _, f := range s.FactList() {
		if strings.Contains(f, key) {
			return true
		}
	}
	return false
}

// HeapAt renders the memory below a slice for caching.
func (s *State) HeapAt(v Val) string {
	sv, ok := v.(*SliceV)
	if !ok {
		return ""
	}
	out := ""
	for _, h := range s.HeapList() {
		if strings.HasPrefix(h, sv.Root.S) {
			out += h
		}
	}
	return out
}

// Root is the outermost object of a location.
func (l *Loc) Root() *Loc { return l.root() }

// Changed lists the stored cells whose content differs from the initial one
// and which do not belong to memory allocated during the analysed call.
func (s *State) Changed() []cell {
	var out []cell
	for _, c := range s.Stored() {
		r := c.L.root()
		if r.Zero {
			continue
		}
		if c.V.K() == locTerm(c.L).K() {
			continue
		}
		out = append(out, c)
	}
	return out
}

// FieldName is the name of the i-th field of a struct or pointer to one.
func FieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

// NewMap is a map with exactly the given entries.
func (s *State) NewMap(name string, t types.Type, keys, vals []Val) Val {
	m := &MapV{Root: rootLoc("new:"+name, t, true), T: t}
	et := t.Underlying().(*types.Map).Elem()
	for i, k := range keys {
		s.Store(m.Root.index(k, et), vals[i])
	}
	return m
}

// StoreEntry sets one entry of a map.
func (s *State) StoreEntry(m, k, v Val) {
	mv := m.(*MapV)
	s.Store(mv.Root.index(k, mv.T.Underlying().(*types.Map).Elem()), v)
}

// Entries lists the entries of a map built by the analysed code or NewMap.
func (s *State) Entries(v Val) (keys, vals []Val, ok bool) {
	m, isMap := v.(*MapV)
	if !isMap {
		return nil, nil, false
	}
	keys, ok = s.entriesOf(m.Root)
	if !ok {
		return nil, nil, false
	}
	for _, k := range keys {
		x, _ := s.A.mapGet(s, m, k, m.T.Underlying().(*types.Map).Elem())
		vals = append(vals, x)
	}
	return keys, vals, true
}

// NewList is a list value.
func NewList(t types.Type, elems ...Val) Val { return &ListV{T: t, Elems: elems} }

// StoreField sets a field of the object v points to.
func (s *State) StoreField(v Val, name string, x Val) { s.Store(FieldLoc(v, name), x) }

// IntT, BoolT, StringT and ErrorT are basic types for terms.
var (
	IntT    = tInt
	BoolT   = tBool
	StringT = types.Type(types.Typ[types.String])
	ErrorT  = tError
	FloatT  = types.Type(types.Typ[types.Float64])
)

// Atoms are the comparisons and predicates decided on a path.
func (s *State) Atoms() []*Term {
	var ks []string
	for k := range s.facts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*Term
	for _, k := range ks {
		if t := s.A.atoms[k]; t != nil {
			out = append(out, t)
		}
	}
	return out
}

// FactMap is what is known of single terms, by their text.
func (s *State) FactMap() map[string]string {
	m := map[string]string{}
	for k, v := range s.facts {
		m[k] = fmt.Sprint(v)
	}
	for k, c := range s.bind {
		m["="+k] = c.K()
	}
	return m
}

// NewIface is a value of known dynamic type in an interface.
func NewIface(x Val, t types.Type) Val { return &IfaceV{X: x, T: t} }

// Externals is the built-in model of a library function.
func (a *Analysis) Externals(name string) Model { return externals[name] }

// StringsT is the type of a list of texts.
var StringsT = types.Type(types.NewSlice(types.Typ[types.String]))

// Field is the location of a field.
func (l *Loc) Field(name string) *Loc { return l.field(name, structField(l.T, name)) }

// Global is the address of a package-level variable, nil if there is none.
func (p *Program) Global(name string) Val {
	g, ok := p.Pkg.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	return &Ptr{L: globalLoc(g), T: g.Type()}
}

// Mul is the product of two numbers.
func (s *State) Mul(x, y Val) Val { return s.A.binop(s, token.MUL, x, y, x.Typ()) }
