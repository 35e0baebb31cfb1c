package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cell struct {
	L *Loc
	V Val
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  ssa.Instruction
}

type loopInst struct {
	mode  int // loopConcrete, loopGeneric, loopFree
	iter  *Term
	full  bool
	count int
	limit int             // of a loop followed iteration by iteration
	keys  []Val           // of a map whose entries are known
	snap  map[string]Val  // header values of components
	tmpl  map[string]bool // element templates written by this loop
}

const (
	loopConcrete = iota
	loopGeneric
	loopFree
)

// Frame is the register file of one activation.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	loops  map[int]*loopInst
	defers []deferred
	ctx    string // call path, names allocation sites
	parent *Frame
	depth  int
	result []Val // set when returning through recover
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = make(map[int]*loopInst, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	return &n
}

// State is one dataflow fact: an abstract store plus predicates.
type State struct {
	A     *Analysis
	fr    *Frame
	heap  map[string]cell
	facts map[string]bool
	bind  map[string]*Const
	diseq map[string]map[string]*Const
	lo    map[string]int64
	hi    map[string]int64
	Mon   map[string]string
	Ev    []string
	lists map[*ListV]*SliceV // lists written to in place
	pan   string             // non-empty while a panic unwinds
	dead  bool
}

func (s *State) Clone() *State {
	n := &State{A: s.A, fr: s.fr.clone(), pan: s.pan}
	n.heap = make(map[string]cell, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.facts = make(map[string]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.bind = make(map[string]*Const, len(s.bind))
	for k, v := range s.bind {
		n.bind[k] = v
	}
	n.diseq = make(map[string]map[string]*Const, len(s.diseq))
	for k, v := range s.diseq {
		m := make(map[string]*Const, len(v))
		for a, b := range v {
			m[a] = b
		}
		n.diseq[k] = m
	}
	n.lo = make(map[string]int64, len(s.lo))
	for k, v := range s.lo {
		n.lo[k] = v
	}
	n.hi = make(map[string]int64, len(s.hi))
	for k, v := range s.hi {
		n.hi[k] = v
	}
	n.Mon = make(map[string]string, len(s.Mon))
	for k, v := range s.Mon {
		n.Mon[k] = v
	}
	n.Ev = append([]string{}, s.Ev...)
	if len(s.lists) > 0 {
		n.lists = make(map[*ListV]*SliceV, len(s.lists))
		for k, v := range s.lists {
			n.lists[k] = v
		}
	}
	return n
}

// Key is a canonical rendering of the store used to merge equal facts.
func (s *State) Key() string {
	var b strings.Builder
	regs := make([]string, 0, len(s.fr.env))
	for k, v := range s.fr.env {
		regs = append(regs, k.Name()+"="+v.K())
	}
	sort.Strings(regs)
	b.WriteString(strings.Join(regs, ";"))
	var ls []string
	for h, l := range s.fr.loops {
		c := l.count
		if l.mode == loopGeneric {
			c = 0
			if l.count > 0 {
				c = 1
			}
		}
		ls = append(ls, fmt.Sprintf("%d:%d:%d", h, l.mode, c))
	}
	sort.Strings(ls)
	b.WriteString("|L" + strings.Join(ls, ";"))
	b.WriteString(fmt.Sprintf("|D%d", len(s.fr.defers)))
	b.WriteString("|" + s.factKey())
	return b.String()
}

func (s *State) factKey() string {
	var b strings.Builder
	var hs []string
	for k, c := range s.heap {
		hs = append(hs, k+"="+c.V.K())
	}
	sort.Strings(hs)
	b.WriteString("H" + strings.Join(hs, ";"))
	b.WriteString("|F" + strings.Join(s.FactList(), ";"))
	var ms []string
	for k, v := range s.Mon {
		ms = append(ms, k+"="+v)
	}
	sort.Strings(ms)
	b.WriteString("|M" + strings.Join(ms, ";"))
	b.WriteString("|E" + strings.Join(s.Ev, ";"))
	b.WriteString("|P" + s.pan)
	return b.String()
}

// FactList renders the predicates that hold.
func (s *State) FactList() []string {
	var fs []string
	for k, v := range s.facts {
		if v {
			fs = append(fs, k)
		} else {
			fs = append(fs, "!"+k)
		}
	}
	for k, v := range s.bind {
		fs = append(fs, k+"="+v.K())
	}
	for k, m := range s.diseq {
		for c := range m {
			fs = append(fs, k+"≠"+c)
		}
	}
	for k, v := range s.lo {
		fs = append(fs, fmt.Sprintf("%s≥%d", k, v))
	}
	for k, v := range s.hi {
		fs = append(fs, fmt.Sprintf("%s≤%d", k, v))
	}
	sort.Strings(fs)
	return fs
}

// Event records that something happened on this path.
func (s *State) Event(e string) {
	for _, x := range s.Ev {
		if x == e {
			return
		}
	}
	s.Ev = append(s.Ev, e)
}

// ---- memory -------------------------------------------------------------

func (s *State) hasBelow(l *Loc) bool {
	for k := range s.heap {
		if len(k) > len(l.S) && strings.HasPrefix(k, l.S) && (k[len(l.S)] == '.' || k[len(l.S)] == '[') {
			return true
		}
	}
	return false
}

func (s *State) cellAt(k string) (cell, bool) {
	if c, ok := s.heap[k]; ok {
		return c, true
	}
	c, ok := s.A.base[k]
	return c, ok
}

// Load reads the value stored at a location.
func (s *State) Load(l *Loc) Val {
	v := s.load0(l)
	// re-read the index of symbolic element locations through bindings
	return s.Resolve(v)
}

func (s *State) load0(l *Loc) Val {
	var v Val
	if c, ok := s.cellAt(l.S); ok {
		v = c.V
	} else if l.Parent != nil {
		// value templates for "every index written by a completed loop"
		if l.Idx != nil {
			if c, ok := s.heap[l.Parent.S+"[∀]"]; ok {
				return Subst(c.V, func(x Val) Val {
					if t, ok := x.(*Term); ok && t.Op == "∀" {
						return l.Idx
					}
					return nil
				})
			}
		}
		v = s.fromParent(l)
	} else {
		v = s.rootDefault(l)
	}
	if s.hasBelow(l) {
		if st, ok := l.T.Underlying().(*types.Struct); ok {
			over := map[string]Val{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				fl := l.field(f.Name(), f.Type())
				_, here := s.heap[fl.S]
				if here || s.hasBelow(fl) {
					over[f.Name()] = s.load0(fl)
				}
			}
			if len(over) > 0 {
				if b, ok := v.(*StructV); ok {
					m := map[string]Val{}
					for k, x := range b.Over {
						m[k] = x
					}
					for k, x := range over {
						m[k] = x
					}
					v = &StructV{Base: b.Base, Over: m, T: l.T}
				} else {
					v = &StructV{Base: v, Over: over, T: l.T}
				}
			}
		}
		if at, ok := l.T.Underlying().(*types.Array); ok {
			over := map[string]Val{}
			if b, ok := v.(*StructV); ok {
				for k, x := range b.Over {
					over[k] = x
				}
			}
			for i := int64(0); i < at.Len() && i < 4096; i++ {
				fl := l.index(Int(i), at.Elem())
				_, here := s.heap[fl.S]
				if here || s.hasBelow(fl) {
					over[fl.Sel] = s.load0(fl)
				}
			}
			v = &StructV{Over: over, T: l.T}
		}
	}
	return v
}

func (s *State) rootDefault(l *Loc) Val {
	if l.Zero {
		return ZeroOf(l.T)
	}
	return locTerm(l)
}

func (s *State) fromParent(l *Loc) Val {
	// nearest stored ancestor
	p := l.Parent
	var base Val
	if c, ok := s.cellAt(p.S); ok {
		base = c.V
	} else if p.Parent != nil {
		if p.Idx != nil {
			if c, ok := s.heap[p.Parent.S+"[∀]"]; ok {
				idx := p.Idx
				base = Subst(c.V, func(x Val) Val {
					if t, ok := x.(*Term); ok && t.Op == "∀" {
						return idx
					}
					return nil
				})
			}
		}
		if base == nil {
			if !s.ancestorStored(p) {
				if l.Zero {
					return ZeroOf(l.T)
				}
				return locTerm(l)
			} else {
				base = s.fromParent(p)
			}
		}
	} else {
		base = s.rootDefault(p)
		if t, ok := base.(*Term); ok && t.Op == p.S {
			return locTerm(l)
		}
	}
	return s.selectFrom(base, l)
}

func (s *State) ancestorStored(l *Loc) bool {
	for p := l; p != nil; p = p.Parent {
		if _, ok := s.cellAt(p.S); ok {
			return true
		}
		if p.Idx != nil {
			if _, ok := s.heap[p.Parent.S+"[∀]"]; ok {
				return true
			}
		}
	}
	return false
}

func (s *State) selectFrom(base Val, l *Loc) Val {
	if l.Idx != nil {
		if sv, ok := base.(*StructV); ok {
			if x, ok := sv.Over[l.Sel]; ok {
				return x
			}
			if sv.Base == nil {
				if _, ok := IsInt(l.Idx); ok {
					return ZeroOf(l.T)
				}
				if len(sv.Over) == 0 {
					return ZeroOf(l.T)
				}
			}
		}
		return NewTerm("elem", l.T, base, l.Idx)
	}
	return FieldOf(base, l.Sel[1:], l.T)
}

// Store writes a location.
func (s *State) Store(l *Loc, v Val) {
	for k := range s.heap {
		if len(k) > len(l.S) && strings.HasPrefix(k, l.S) && (k[len(l.S)] == '.' || k[len(l.S)] == '[') {
			delete(s.heap, k)
		}
	}
	s.heap[l.S] = cell{l, v}
}

// ForgetRoot drops everything stored below a root (fresh allocation).
func (s *State) ForgetRoot(root string) {
	for k := range s.heap {
		if k == root || strings.HasPrefix(k, root+".") || strings.HasPrefix(k, root+"[") {
			delete(s.heap, k)
		}
	}
}

// Stored lists the stored cells.
func (s *State) Stored() []cell {
	var out []cell
	for _, c := range s.heap {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].L.S < out[j].L.S })
	return out
}
func (c cell) Loc() *Loc { return c.L }
func (c cell) Val() Val  { return c.V }

// ---- predicates ---------------------------------------------------------

// Resolve replaces terms that are known to equal a constant.
func (s *State) Resolve(v Val) Val {
	if l, ok := v.(*ListV); ok {
		if sv := s.lists[l]; sv != nil {
			return sv
		}
	}
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	if c, ok := s.bind[t.K()]; ok {
		return &Const{c.V, t.T}
	}
	if t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if r, known := s.Decide(t); known {
				return Bool(r)
			}
		}
	}
	if t.Op == "add" {
		if r := s.Resolve(t.Args[0]); r != t.Args[0] {
			if i, ok := IsInt(r); ok {
				j, _ := IsInt(t.Args[1])
				return &Const{constant.MakeInt64(i + j), t.T}
			}
		}
	}
	if t.Op == "len" {
		if r := s.Resolve(t.Args[0]); r != t.Args[0] {
			return s.lenOf(r)
		}
	}
	return v
}

func (s *State) lenOf(v Val) Val {
	switch v := v.(type) {
	case *Const:
		if v.V == nil {
			return Int(0)
		}
		if str, ok := IsStr(v); ok {
			return Int(int64(len(str)))
		}
	case *ListV:
		if v.Base == nil {
			return Int(int64(len(v.Elems)))
		}
		return mkLinear(s.lenOf(v.Base), int64(len(v.Elems)), tInt)
	case *SliceV:
		return v.Len
	case *MapV:
		n := int64(0)
		exact := true
		var keys []Val
		for k, c := range s.heap {
			if strings.HasPrefix(k, v.Root.S+"[") && c.L.Parent != nil && c.L.Parent.S == v.Root.S {
				n++
				for _, x := range keys {
					if same, known := s.Decide(Eq(x, c.L.Idx)); !known || same {
						exact = false
					}
				}
				keys = append(keys, c.L.Idx)
			}
		}
		if exact || n <= 1 {
			return Int(n)
		}
		return NewTerm("len", tInt, v, Int(n))
	case *Term:
		if v.Op == "bytes" || v.Op == "str" {
			return s.lenOf(v.Args[0])
		}
		if pre, mid, suf, ok := around(v); ok && pre+suf != "" {
			return mkLinear(s.lenOf(mid), int64(len(pre)+len(suf)), tInt)
		}
		if at, ok := v.T.Underlying().(*types.Array); ok {
			return Int(at.Len())
		}
	case *StructV:
		if at, ok := v.T.Underlying().(*types.Array); ok {
			return Int(at.Len())
		}
	}
	return NewTerm("len", tInt, v)
}

// Bounds of an integer term.
func (s *State) bounds(t Val) (lo, hi int64, hasLo, hasHi bool) {
	k := t.K()
	lo, hasLo = s.lo[k]
	hi, hasHi = s.hi[k]
	if tt, ok := t.(*Term); ok {
		switch tt.Op {
		case "len":
			if !hasLo || lo < 0 {
				lo, hasLo = 0, true
			}
			if s.A.Bounds && isStringT(tt.Args[0].Typ()) {
				if p, ok := s.knownPrefix(tt.Args[0]); ok && int64(len(p)) > lo {
					lo = int64(len(p))
				}
			}
		case "strings.Index", "strings.LastIndex", "strings.IndexByte":
			if !hasLo || lo < -1 {
				lo, hasLo = -1, true
			}
		}
		if (strings.HasPrefix(tt.Op, "i@") || strings.HasPrefix(tt.Op, "tok@") && s.A.tokNonNeg[tt.Op]) && (!hasLo || lo < 0) {
			lo, hasLo = 0, true
		}
	}
	return
}

func (s *State) neqKnown(t Val, c *Const) bool {
	if m, ok := s.diseq[t.K()]; ok {
		if _, ok := m[c.K()]; ok {
			return true
		}
	}
	return false
}

// posIn: i is the position of a character within a text of length n.
func posIn(i, n Val) bool {
	t, ok := i.(*Term)
	l, ok2 := n.(*Term)
	if !ok || !ok2 || l.Op != "len" || len(t.Args) != 2 || t.Op != "strings.Index" && t.Op != "strings.LastIndex" || t.Args[0].K() != l.Args[0].K() {
		return false
	}
	y, ok := IsStr(t.Args[1])
	return ok && y != ""
}

// Decide tells whether a boolean value is determined by the facts.
func (s *State) Decide(v Val) (val, known bool) {
	if b, ok := IsBool(v); ok {
		return b, true
	}
	t, ok := v.(*Term)
	if !ok {
		return false, false
	}
	if t.Op == "not" {
		r, k := s.Decide(t.Args[0])
		return !r, k
	}
	if r, ok := s.facts[t.K()]; ok {
		return r, true
	}
	if c, ok := s.bind[t.K()]; ok {
		if b, ok := IsBool(c); ok {
			return b, true
		}
	}
	switch t.Op {
	case "eq":
		a, b := s.Resolve(t.Args[0]), s.Resolve(t.Args[1])
		if a != t.Args[0] || b != t.Args[1] {
			return s.Decide(Eq(a, b))
		}
		c, ok := b.(*Const)
		if !ok {
			if isIntT(a.Typ()) {
				// a == b+c over bounds is not tracked
			}
			return false, false
		}
		if s.neqKnown(a, c) {
			return false, true
		}
		if i, ok := IsInt(c); ok {
			lo, hi, hl, hh := s.bounds(a)
			if hl && i < lo || hh && i > hi {
				return false, true
			}
			if hl && hh && lo == hi && i == lo {
				return true, true
			}
		}
		if d := s.A.domainOf(a); d != nil {
			in := false
			for _, x := range d {
				if x.K() == c.K() {
					in = true
				}
			}
			if !in {
				return false, true
			}
		}
		if str, ok := IsStr(c); ok {
			if pre, mid, suf, ok := around(a); ok && pre+suf != "" {
				if len(str) < len(pre)+len(suf) || !strings.HasPrefix(str, pre) || !strings.HasSuffix(str, suf) {
					return false, true
				}
				return s.Decide(Eq(mid, Str(str[len(pre):len(str)-len(suf)])))
			}
			if r, known := s.prefixVsEq(a, str); known {
				return r, true
			}
			if str == "" {
				if lo, _, hl, _ := s.bounds(NewTerm("len", tInt, a)); hl && lo > 0 {
					return false, true
				}
				if at, ok := a.(*Term); ok && at.Op == "cat" {
					for _, p := range at.Args {
						if ps, ok := IsStr(p); ok && ps != "" {
							return false, true
						}
					}
				}
			} else if at, ok := a.(*Term); ok && at.Op == "cat" {
				if ps, ok := IsStr(at.Args[0]); ok && !strings.HasPrefix(str, ps) {
					return false, true
				}
				if ps, ok := IsStr(at.Args[len(at.Args)-1]); ok && !strings.HasSuffix(str, ps) {
					return false, true
				}
			}
		}
		if c.V == nil {
			if r, known := s.nilness(a); known {
				return r, true
			}
		}
	case "lt":
		a, b := s.Resolve(t.Args[0]), s.Resolve(t.Args[1])
		if a != t.Args[0] || b != t.Args[1] {
			return s.Decide(Lt(a, b))
		}
		if posIn(a, b) {
			return true, true
		}
		if posIn(b, a) {
			return false, true
		}
		if i, ok := IsInt(b); ok {
			lo, hi, hl, hh := s.bounds(a)
			if hh && hi < i {
				return true, true
			}
			if hl && lo >= i {
				return false, true
			}
			if d := s.A.domainOf(a); d != nil {
				allT, allF := true, true
				for _, x := range d {
					v, _ := IsInt(x)
					if s.neqKnown(a, x) || hl && v < lo || hh && v > hi {
						continue
					}
					if v < i {
						allF = false
					} else {
						allT = false
					}
				}
				if allT {
					return true, true
				}
				if allF {
					return false, true
				}
			}
		} else {
			// a < b where b has a known lower bound and a an upper bound
			bb, off := linear(b)
			_, hi, _, hh := s.bounds(a)
			lo, _, hl, _ := s.bounds(bb)
			if hh && hl && hi < lo+off {
				return true, true
			}
			lo2, _, hl2, _ := s.bounds(a)
			_, hi2, _, hh2 := s.bounds(bb)
			if hl2 && hh2 && lo2 >= hi2+off {
				return false, true
			}
			// transitivity through one other known fact: a < x and x <= b
			if off > 0 {
				if r, ok := s.facts["lt("+a.K()+", "+bb.K()+")"]; ok && r {
					return true, true
				}
			}
		}
	case "HasPrefix":
		if s.outside(t.Args[0], t.Args[1], true) {
			return false, true
		}
		if str, ok := IsStr(s.Resolve(t.Args[0])); ok {
			if p, ok := IsStr(t.Args[1]); ok {
				return strings.HasPrefix(str, p), true
			}
		}
		if p, ok := IsStr(t.Args[1]); ok {
			if p == "" {
				return true, true
			}
			if ct, ok := t.Args[0].(*Term); ok && ct.Op == "cat" {
				if ps, ok := IsStr(ct.Args[0]); ok {
					if strings.HasPrefix(ps, p) {
						return true, true
					}
					if !strings.HasPrefix(p, ps) {
						return false, true
					}
				}
			}
			if r, known := s.prefixVsPrefix(t.Args[0], p); known {
				return r, true
			}
			if str, ok := IsStr(t.Args[1]); ok && len(str) > 0 {
				if _, hi, _, hh := s.bounds(NewTerm("len", tInt, t.Args[0])); hh && hi < int64(len(str)) {
					return false, true
				}
			}
		}
	case "HasSuffix":
		if s.outside(t.Args[0], t.Args[1], false) {
			return false, true
		}
		if str, ok := IsStr(s.Resolve(t.Args[0])); ok {
			if p, ok := IsStr(t.Args[1]); ok {
				return strings.HasSuffix(str, p), true
			}
		}
	case "Contains":
		if str, ok := IsStr(s.Resolve(t.Args[0])); ok {
			if p, ok := IsStr(t.Args[1]); ok {
				return strings.Contains(str, p), true
			}
		}
		if p, ok := IsStr(t.Args[1]); ok {
			// a known prefix/suffix that contains p
			for k, v := range s.facts {
				if !v {
					continue
				}
				at := s.A.atoms[k]
				if at == nil || len(at.Args) < 2 || at.Args[0].K() != t.Args[0].K() {
					continue
				}
				if at.Op == "HasPrefix" || at.Op == "HasSuffix" || at.Op == "Contains" {
					if q, ok := IsStr(at.Args[1]); ok && strings.Contains(q, p) {
						return true, true
					}
				}
			}
		}
	case "in":
		x := s.Resolve(t.Args[0])
		if c, ok := x.(*Const); ok {
			for _, e := range t.Args[1:] {
				if e.K() == c.K() {
					return true, true
				}
			}
			return false, true
		}
		all := true
		for _, e := range t.Args[1:] {
			if !s.neqKnown(x, e.(*Const)) {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	if strings.HasPrefix(t.Op, "is<") {
		x := s.Resolve(t.Args[0])
		if iv, ok := x.(*IfaceV); ok {
			return "is<"+TypeName(iv.X.Typ())+">" == t.Op, true
		}
		if IsNil(x) {
			return false, true
		}
		// another concrete type is known
		for k, v := range s.facts {
			if !v {
				continue
			}
			at := s.A.atoms[k]
			if at != nil && strings.HasPrefix(at.Op, "is<") && at.Op != t.Op && at.Args[0].K() == t.Args[0].K() {
				return false, true
			}
		}
	}
	return false, false
}

// nilness of a reference term from related facts.
func (s *State) nilness(a Val) (isnil, known bool) {
	t, ok := a.(*Term)
	if !ok {
		return false, false
	}
	if s.A.NonNil != nil && s.A.NonNil(t) {
		return false, true
	}
	// type facts imply non-nil
	for k, v := range s.facts {
		if !v {
			continue
		}
		at := s.A.atoms[k]
		if at != nil && strings.HasPrefix(at.Op, "is<") && at.Args[0].K() == t.K() {
			return false, true
		}
	}
	// result of a (value, error) call
	if i := strings.LastIndex(t.Op, "#"); i > 0 && t.Op[i:] != "#err" && errNilMeansNonNil[t.Op[:i]] {
		et := &Term{Op: t.Op[:i] + "#err", Args: t.Args, T: tError}
		if r, k := s.Decide(Eq(et, Nil(tError))); k {
			return !r, true
		}
	}
	// a collection with a positive length
	switch t.T.Underlying().(type) {
	case *types.Slice, *types.Map:
		if lo, ok := s.lo["len("+t.K()+")"]; ok && lo > 0 {
			return false, true
		}
	}
	return false, false
}

var errNilMeansNonNil = map[string]bool{
	"regexp.Compile": true, "net.ParseCIDR": true, "jsonpath.Prepare": true,
}

func (s *State) prefixVsEq(a Val, c string) (val, known bool) {
	for k, v := range s.facts {
		at := s.A.atoms[k]
		if at == nil || len(at.Args) < 1 || at.Args[0].K() != a.K() {
			continue
		}
		switch at.Op {
		case "HasPrefix", "HasSuffix", "Contains":
			p, ok := IsStr(at.Args[1])
			if !ok {
				continue
			}
			var h bool
			switch at.Op {
			case "HasPrefix":
				h = strings.HasPrefix(c, p)
			case "HasSuffix":
				h = strings.HasSuffix(c, p)
			default:
				h = strings.Contains(c, p)
			}
			if h != v {
				return false, true
			}
		case "in":
			h := false
			for _, e := range at.Args[1:] {
				if q, ok := IsStr(e); ok && q == c {
					h = true
				}
			}
			if h != v {
				return false, true
			}
		}
	}
	return false, false
}

func (s *State) prefixVsPrefix(a Val, q string) (val, known bool) {
	for k, v := range s.facts {
		at := s.A.atoms[k]
		if at == nil || at.Op != "HasPrefix" || at.Args[0].K() != a.K() {
			continue
		}
		p, ok := IsStr(at.Args[1])
		if !ok {
			continue
		}
		if v {
			if strings.HasPrefix(p, q) {
				return true, true
			}
			if !strings.HasPrefix(q, p) {
				return false, true
			}
		} else if strings.HasPrefix(q, p) {
			return false, true
		}
	}
	return false, false
}

// Assume adds a predicate; it returns false when it contradicts the facts.
func (s *State) Assume(v Val, truth bool) bool {
	if r, known := s.Decide(v); known {
		return r == truth
	}
	t := v.(*Term)
	if t.Op == "not" {
		return s.Assume(t.Args[0], !truth)
	}
	s.A.atoms[t.K()] = t
	switch t.Op {
	case "eq":
		a, b := s.Resolve(t.Args[0]), s.Resolve(t.Args[1])
		if a != t.Args[0] || b != t.Args[1] {
			return s.Assume(Eq(a, b), truth)
		}
		if c, ok := b.(*Const); ok && !isFloat(a.Typ()) {
			if truth {
				return s.bindTo(a, c)
			}
			k := a.K()
			if s.diseq[k] == nil {
				s.diseq[k] = map[string]*Const{}
			}
			s.diseq[k][c.K()] = c
			if str, ok := IsStr(c); ok && str == "" {
				s.setLo(NewTerm("len", tInt, a), 1)
			}
			if i, ok := IsInt(c); ok {
				lo, hi, hl, hh := s.bounds(a)
				if hl && lo == i {
					s.setLo(a, i+1)
				}
				if hh && hi == i {
					s.setHi(a, i-1)
				}
			}
			return s.domainCheck(a)
		}
		s.facts[t.K()] = truth
		return true
	case "lt":
		a, b := s.Resolve(t.Args[0]), s.Resolve(t.Args[1])
		if a != t.Args[0] || b != t.Args[1] {
			return s.Assume(Lt(a, b), truth)
		}
		if i, ok := IsInt(b); ok {
			if truth {
				s.setHi(a, i-1)
			} else {
				s.setLo(a, i)
			}
			return s.domainCheck(a)
		}
		s.facts[t.K()] = truth
		return true
	case "in":
		s.facts[t.K()] = truth
		if !truth {
			for _, e := range t.Args[1:] {
				k := t.Args[0].K()
				if s.diseq[k] == nil {
					s.diseq[k] = map[string]*Const{}
				}
				s.diseq[k][e.K()] = e.(*Const)
			}
		}
		return true
	}
	s.facts[t.K()] = truth
	return true
}

func (s *State) setLo(t Val, v int64) {
	if o, ok := s.lo[t.K()]; !ok || v > o {
		s.lo[t.K()] = v
	}
	s.collapse(t)
}
func (s *State) setHi(t Val, v int64) {
	if o, ok := s.hi[t.K()]; !ok || v < o {
		s.hi[t.K()] = v
	}
	s.collapse(t)
}
func (s *State) collapse(t Val) {
	lo, hi, hl, hh := s.bounds(t)
	if hl && hh && lo == hi {
		if _, ok := s.bind[t.K()]; !ok {
			s.bindTo(t, &Const{constant.MakeInt64(lo), t.Typ()})
		}
	}
}

func (s *State) domainCheck(a Val) bool {
	lo, hi, hl, hh := s.bounds(a)
	if hl && hh && lo > hi {
		return false
	}
	d := s.A.domainOf(a)
	if d == nil {
		return true
	}
	var left []*Const
	for _, c := range d {
		if s.neqKnown(a, c) {
			continue
		}
		if v, ok := IsInt(c); ok {
			if hl && v < lo || hh && v > hi {
				continue
			}
		}
		left = append(left, c)
	}
	if len(left) == 0 {
		return false
	}
	if len(left) == 1 {
		return s.bindTo(a, left[0])
	}
	return true
}

func (s *State) bindTo(a Val, c *Const) bool {
	k := a.K()
	if o, ok := s.bind[k]; ok {
		return o.K() == c.K()
	}
	s.bind[k] = c
	delete(s.diseq, k)
	delete(s.lo, k)
	delete(s.hi, k)
	if t, ok := a.(*Term); ok && t.Op == "len" {
		if i, ok := IsInt(c); ok && i == 0 && isStringT(t.Args[0].Typ()) {
			s.bind[t.Args[0].K()] = Str("")
		}
	}
	// facts that are now constants
	for fk, fv := range s.facts {
		at := s.A.atoms[fk]
		if at == nil {
			continue
		}
		rel := false
		for _, x := range at.Args {
			if x.K() == k {
				rel = true
			}
		}
		if !rel {
			continue
		}
		delete(s.facts, fk)
		r, known := s.Decide(at)
		if known {
			if r != fv {
				return false
			}
			continue
		}
		s.facts[fk] = fv
	}
	if ls, ok := s.lo["len("+k+")"]; ok {
		if str, ok := IsStr(c); ok {
			if int64(len(str)) < ls {
				return false
			}
			delete(s.lo, "len("+k+")")
		} else if c.V == nil && ls > 0 {
			return false
		}
	}
	return true
}

// KillMentioning forgets every fact whose text mentions the given name.
func (s *State) KillMentioning(name string) {
	// an error of an earlier turn stays known under another name
	for k, from := range s.Mon {
		if !strings.HasPrefix(k, "err:") || !strings.Contains(k, name) {
			continue
		}
		e := s.A.errTerms[k[4:]]
		isNil, known := s.Decide(Eq(e, Nil(tError)))
		delete(s.Mon, k)
		if known && isNil {
			continue
		}
		old := &Term{Op: "earlier " + from + "#err", Args: []Val{Str(strings.Replace(e.K(), name, "…", -1))}, T: tError}
		s.A.errTerms[old.K()] = old
		s.Mon["err:"+old.K()] = from
		if known {
			s.Assume(Eq(old, Nil(tError)), false)
		}
	}
	for k := range s.facts {
		if strings.Contains(k, name) {
			delete(s.facts, k)
		}
	}
	for k := range s.bind {
		if strings.Contains(k, name) {
			delete(s.bind, k)
		}
	}
	for k := range s.diseq {
		if strings.Contains(k, name) {
			delete(s.diseq, k)
		}
	}
	for k := range s.lo {
		if strings.Contains(k, name) {
			delete(s.lo, k)
		}
	}
	for k := range s.hi {
		if strings.Contains(k, name) {
			delete(s.hi, k)
		}
	}
}

// HeapList renders the memory for diagnostics.
func (s *State) HeapList() []string {
	var out []string
	for k, c := range s.heap {
		out = append(out, k+" = "+c.V.K())
	}
	sort.Strings(out)
	return out
}

// outside tells that a text over a known alphabet cannot start (end) with p.
func (s *State) outside(x, p Val, start bool) bool {
	q, ok := IsStr(p)
	if !ok || q == "" || s.A.Alphabet == nil {
		return false
	}
	pre, mid, suf, ok := around(x)
	if !ok || start && pre != "" || !start && suf != "" {
		return false
	}
	al := s.A.Alphabet(mid)
	r := []rune(q)
	c := r[0]
	if !start {
		c = r[len(r)-1]
	}
	return al != "" && !strings.ContainsRune(al, c)
}

// inMemory gives the elements of a known list places in memory, where they
// can be written to. Every holder of the list refers to them from then on.
func (s *State) inMemory(l *ListV, name string) (*SliceV, bool) {
	if l.Base != nil {
		return nil, false
	}
	et := l.T.Underlying().(*types.Slice).Elem()
	sv := &SliceV{Root: rootLoc(fmt.Sprintf("new:list:%s#%d", name, len(s.lists)), l.T, true), Len: Int(int64(len(l.Elems))), T: l.T}
	for i, e := range l.Elems {
		s.Store(sv.Root.index(Int(int64(i)), et), e)
	}
	if s.lists == nil {
		s.lists = map[*ListV]*SliceV{}
	}
	for ; l != nil; l = l.of {
		s.lists[l] = &SliceV{Root: sv.Root, Len: sv.Len, T: l.T}
	}
	return sv, true
}
