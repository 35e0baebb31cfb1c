package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ret is one way out of a function.
type Ret struct {
	St    *State
	Vals  []Val
	Panic string // non-empty: the function panics (reason)
	Pos   token.Pos
}

// Rec describes one loop back edge: how the loop-carried values change.
type Rec struct {
	Loop *LoopMeta
	Old  map[string]Val
	New  map[string]Val
	St   *State
}

// LoopMeta describes a loop met by the analysis.
type LoopMeta struct {
	ID    string // names the iteration term and the loop-carried tokens
	Fn    *ssa.Function
	Pos   token.Pos
	Iter  *Term
	Full  bool // visits every index of [0,Bound) (or every map key)
	Bound Val
	Guard Val // predicate "there is another element"
}

// Model replaces the analysis of a call.
type Model func(a *Analysis, st *State, args []Val, c *Call) []Ret

// Call carries what a model may need about the call site.
type Call struct {
	Fn    *ssa.Function
	Name  string
	Sig   *types.Signature
	Instr ssa.Instruction
	Pos   token.Pos
	Ctx   string
}

// Analysis is one dataflow problem over the program.
type Analysis struct {
	P       *Program
	atoms   map[string]*Term
	base    map[string]cell
	Models  map[string]Model
	Opaque  func(name string) bool
	ModelOf func(fn *ssa.Function) Model
	NonNil  func(*Term) bool
	Domain  func(Val) []*Const
	// Alphabet lists the characters an unknown, non-empty text consists of
	Alphabet func(Val) string
	Bounds   bool // report possible index/slice range panics
	Unroll   int  // follow every loop up to this many iterations instead of a generic one
	Recurse  int  // follow recursive calls this deep
	SortAny  bool // sorting puts unknown texts into one fixed order
	Reverse  bool // visit the entries of known maps in the opposite order
	// MapEntries is the number of entries an unknown map has where it is
	// iterated over; Order is the order in which entries are visited
	MapEntries int
	Order      []int
	Dropped    int // paths beyond that bound
	MaxSteps   int
	ByteText   bool // constant texts among bytes are lists of bytes

	OnBackEdge func(st *State, lp *LoopMeta, old, new map[string]Val) []*State
	OnExit     func(st *State, lp *LoopMeta, early bool) []*State
	OnEnter    func(st *State, lp *LoopMeta)
	OnAppend   func(st *State, base Val, pos token.Pos)
	OnLoad     func(st *State, l *Loc, pos token.Pos)

	// TrackErrors keeps the error results of the calls on a path
	TrackErrors bool
	errTerms    map[string]Val

	Visited   map[*ssa.BasicBlock]bool // blocks reached
	Recs      []*Rec
	recSeen   map[string]bool
	Loops     map[string]*LoopMeta
	Undecided map[string]bool
	Steps     int
	Blocks    map[string]bool // function/block pairs visited
	Funcs     map[string]bool
	Calls     int
	NilSites  int
	tokNonNeg map[string]bool
	Rerun     bool
}

// NewAnalysis prepares a dataflow problem.
func (p *Program) NewAnalysis() *Analysis {
	a := &Analysis{P: p, atoms: map[string]*Term{}, Models: map[string]Model{}, MaxSteps: 400000,
		recSeen: map[string]bool{}, Loops: map[string]*LoopMeta{}, Undecided: map[string]bool{}, Blocks: map[string]bool{}, Funcs: map[string]bool{}, base: p.base, Visited: map[*ssa.BasicBlock]bool{}, tokNonNeg: map[string]bool{}}
	return a
}

func (a *Analysis) undecided(format string, args ...interface{}) {
	a.Undecided[fmt.Sprintf(format, args...)] = true
}

func (a *Analysis) domainOf(v Val) []*Const {
	if a.Domain == nil {
		return nil
	}
	return a.Domain(v)
}

// NewState is the empty fact.
func (a *Analysis) NewState() *State {
	return &State{A: a, fr: &Frame{env: map[ssa.Value]Val{}, loops: map[int]*loopInst{}},
		heap: map[string]cell{}, facts: map[string]bool{}, bind: map[string]*Const{}, diseq: map[string]map[string]*Const{},
		lo: map[string]int64{}, hi: map[string]int64{}, Mon: map[string]string{}}
}

// Sym is a symbolic input.
func Sym(name string, t types.Type) Val {
	return locTerm(&Loc{S: name, T: t})
}

// SymPtr is a non-nil pointer to a symbolic object called name.
func SymPtr(name string, ptr types.Type) *Ptr {
	return &Ptr{L: &Loc{S: name, T: ptr.Underlying().(*types.Pointer).Elem()}, T: ptr}
}

// Run analyses fn from the given entry fact and arguments.
func (a *Analysis) Run(st *State, fn *ssa.Function, args []Val) []Ret {
	for i := 0; ; i++ {
		a.Rerun = false
		a.Recs, a.recSeen = nil, map[string]bool{}
		rets := a.runFn(st.Clone(), fn, args, nil, fn.Name())
		if !a.Rerun || i > 4 {
			if a.Rerun {
				a.undecided("no fixpoint for loop-carried values of %s", fn)
			}
			return rets
		}
	}
}

type item struct {
	st   *State
	prev *ssa.BasicBlock
	blk  *ssa.BasicBlock
}

type run struct {
	a       *Analysis
	fn      *ssa.Function
	info    *fnInfo
	ctx     string
	visited map[string]bool
	work    []item
	rets    []Ret
	retSeen map[string]bool
	consts  map[string]map[string]bool
	seenHdr map[string]int
}

func (a *Analysis) runFn(st *State, fn *ssa.Function, args []Val, bind []Val, ctx string) []Ret {
	r := &run{a: a, fn: fn, info: a.P.info(fn), ctx: ctx, visited: map[string]bool{}, retSeen: map[string]bool{}, consts: map[string]map[string]bool{}, seenHdr: map[string]int{}}
	depth := 0
	if st.fr != nil {
		depth = st.fr.depth + 1
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[int]*loopInst{}, ctx: ctx, parent: st.fr, depth: depth}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			fr.env[fv] = bind[i]
		}
	}
	a.Funcs[FnName(fn, a.P.Pkg.Pkg)] = true
	st.fr = fr
	r.work = append(r.work, item{st, nil, fn.Blocks[0]})
	for len(r.work) > 0 {
		it := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		a.Steps++
		if a.Steps > a.MaxSteps {
			a.undecided("step budget exhausted in %s", fn)
			break
		}
		r.enter(it)
	}
	return r.rets
}

func (r *run) enter(it item) {
	st, prev, blk := it.st, it.prev, it.blk
	// phis
	phiVals := map[*ssa.Phi]Val{}
	if prev != nil {
		pi := -1
		for i, p := range blk.Preds {
			if p == prev {
				pi = i
			}
		}
		for _, in := range blk.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phiVals[ph] = st.Resolve(r.val(st, ph.Edges[pi]))
		}
	}
	// loop exits
	states := []*State{st}
	var hs []int
	for h := range st.fr.loops {
		if !r.info.loops[h].body[blk.Index] {
			hs = append(hs, h)
		}
	}
	sort.Sort(sort.Reverse(sort.IntSlice(hs)))
	for _, h := range hs {
		lm := r.a.Loops[r.loopID(h)]
		var next []*State
		for _, s := range states {
			li := s.fr.loops[h]
			delete(s.fr.loops, h)
			if li.mode == loopGeneric && lm != nil {
				early := true
				if lm.Guard != nil {
					if v, known := s.Decide(lm.Guard); known && !v {
						early = false
					}
				}
				if early {
					s.Mon["exit:"+lm.ID] = "early"
				} else {
					s.Mon["exit:"+lm.ID] = "done"
					if li.count == 0 && lm.Full && !s.Assume(Eq(lm.Bound, Int(0)), true) {
						continue
					}
				}
				if r.a.OnExit != nil {
					next = append(next, r.a.OnExit(s, lm, early)...)
					continue
				}
			}
			next = append(next, s)
		}
		states = next
	}
	for _, s := range states {
		r.enterHeader(s, prev, blk, phiVals)
	}
}

func (r *run) loopID(h int) string { return r.ctx + ":" + fmt.Sprint(h) }

func (r *run) enterHeader(st *State, prev, blk *ssa.BasicBlock, phiVals map[*ssa.Phi]Val) {
	lp := r.info.loops[blk.Index]
	if lp == nil || prev == nil {
		for p, v := range phiVals {
			st.fr.env[p] = v
		}
		r.body(st, blk)
		return
	}
	if !lp.body[prev.Index] || st.fr.loops[blk.Index] == nil {
		r.loopEntry(st, blk, lp, phiVals)
		if !st.dead {
			r.body(st, blk)
		}
		return
	}
	for _, s := range r.backEdge(st, blk, lp, phiVals) {
		r.body(s, blk)
	}
}

func (r *run) loopEntry(st *State, blk *ssa.BasicBlock, lp *loopInfo, phiVals map[*ssa.Phi]Val) {
	id := r.loopID(blk.Index)
	iterName := "i@" + id
	// forget facts of an earlier execution of this loop
	st.KillMentioning("@" + id)
	delete(st.Mon, "exit:"+id)
	ren := func(x Val) Val {
		if t, ok := x.(*Term); ok && len(t.Args) == 0 && t.L == nil && (t.Op == iterName || t.Op == "ir@"+id || strings.HasPrefix(t.Op, "tok@"+id+":")) {
			return &Term{Op: "old-" + strings.Replace(t.Op, "@", "%", -1), T: t.T}
		}
		return nil
	}
	for k, v := range st.fr.env {
		st.fr.env[k] = Subst(v, ren)
	}
	for k, c := range st.heap {
		if strings.Contains(c.V.K(), "@"+id) {
			st.heap[k] = cell{c.L, Subst(c.V, ren)}
		}
	}
	li := &loopInst{}
	lm := &LoopMeta{ID: id, Fn: r.fn, Pos: loopPos(blk)}
	ind := lp.ind
	switch {
	case ind != nil:
		init := phiVals[ind.phi]
		// bound must be known at entry
		saved := st.fr.env[ind.phi]
		st.fr.env[ind.phi] = init
		bound := r.evalPure(st, ind.bound)
		if saved != nil {
			st.fr.env[ind.phi] = saved
		}
		if bound != nil {
			bound = st.Resolve(bound)
			if ind.incl {
				b, c := linear(bound)
				bound = mkLinear(b, c+1, tInt)
			}
		}
		start := init
		if ind.useNext {
			b, c := linear(init)
			start = mkLinear(b, c+ind.step, tInt)
		}
		if bound == nil {
			li.mode = loopFree
			break
		}
		_, bc := IsInt(bound)
		_, sc := IsInt(start)
		if bc && sc {
			li.mode = loopConcrete
			break
		}
		if r.a.Unroll > 0 {
			li.mode, li.limit = loopConcrete, r.a.Unroll
			break
		}
		li.mode = loopGeneric
		if ind.step > 0 {
			it := &Term{Op: iterName, T: tInt}
			lm.Iter, lm.Bound = it, bound
			if s0, ok := IsInt(start); ok && s0 == 0 {
				lm.Full = true
			}
			lm.Guard = Lt(it, bound)
			phiVals[ind.phi] = it
			if ind.useNext {
				phiVals[ind.phi] = mkLinear(it, -1, tInt)
			}
		} else {
			it := &Term{Op: "ir@" + id, T: tInt}
			lm.Iter = it
			b, c := linear(start)
			lm.Bound = mkLinear(b, c+1, tInt)
			if b0, ok := IsInt(bound); ok && b0 == 0 {
				lm.Full = true
			}
			lm.Guard = Not(Lt(it, bound))
			st.Assume(Lt(it, lm.Bound), true)
			phiVals[ind.phi] = it
			if ind.useNext {
				phiVals[ind.phi] = mkLinear(it, 1, tInt)
			}
		}
	case lp.next != nil:
		li.mode = loopGeneric
		it := &Term{Op: iterName, T: tInt}
		lm.Iter = it
		coll := r.val(st, lp.next.Iter)
		if t, ok := coll.(*Term); ok && t.Op == "range" {
			coll = t.Args[0]
		}
		lm.Bound = st.lenOf(coll)
		lm.Full = true
		lm.Guard = NewTerm("more", tBool, coll, it)
		if s, ok := IsStr(coll); ok && len(s) <= 64 {
			li.mode = loopConcrete
		}
		if mv, ok := coll.(*MapV); ok && r.a.Unroll > 0 {
			if cs, ok := st.entriesOf(mv.Root); ok && len(cs) > 0 {
				if r.a.Reverse {
					rev := make([]Val, len(cs))
					for i, k := range cs {
						rev[len(cs)-1-i] = k
					}
					cs = rev
				}
				li.mode, li.limit, li.keys = loopConcrete, len(cs)+1, r.a.ordered(cs)
			}
		} else if ks, ok := st.MapKeys(coll); ok {
			li.mode, li.limit, li.keys = loopConcrete, len(ks)+1, r.a.ordered(ks)
		}
	default:
		li.mode = loopFree
	}
	if li.mode == loopFree && r.a.Unroll > 0 {
		li.mode, li.limit = loopConcrete, r.a.Unroll+1
	}
	if li.mode == loopGeneric {
		li.iter, li.full = lm.Iter, lm.Full
		if old := r.a.Loops[id]; old == nil || old.Full && !lm.Full {
			r.a.Loops[id] = lm
		} else {
			r.a.Loops[id] = lm
		}
		if !lm.Full {
			lm.ID = id
		}
		if r.a.OnEnter != nil {
			r.a.OnEnter(st, lm)
		}
	}
	for p, v := range phiVals {
		st.fr.env[p] = v
	}
	st.fr.loops[blk.Index] = li
	r.gc(st, nil)
	li.snap = r.components(st, blk)
}

func loopPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (r *run) components(st *State, blk *ssa.BasicBlock) map[string]Val {
	m := map[string]Val{}
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m["φ:"+ph.Name()] = st.fr.env[ph]
	}
	for k, c := range st.heap {
		m["H:"+k] = c.V
	}
	return m
}

// backEdge first decides the truth of carried conditions, so that they stay
// constants instead of becoming loop-carried unknowns.
func (r *run) backEdge(st *State, blk *ssa.BasicBlock, lp *loopInfo, phiVals map[*ssa.Phi]Val) []*State {
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := phiVals[ph]
		t, isT := v.(*Term)
		if !isT || t.T == nil {
			continue
		}
		if b, ok := t.T.Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
			continue
		}
		if strings.HasPrefix(t.Op, "tok@") {
			continue
		}
		var out []*State
		for _, truth := range []bool{true, false} {
			s := st.Clone()
			if !s.Assume(v, truth) {
				continue
			}
			pv := map[*ssa.Phi]Val{}
			for k, x := range phiVals {
				pv[k] = s.Resolve(x)
			}
			pv[ph] = Bool(truth)
			out = append(out, r.backEdge(s, blk, lp, pv)...)
		}
		return out
	}
	return r.backEdge1(st, blk, lp, phiVals)
}

func (r *run) backEdge1(st *State, blk *ssa.BasicBlock, lp *loopInfo, phiVals map[*ssa.Phi]Val) []*State {
	li := st.fr.loops[blk.Index]
	id := r.loopID(blk.Index)
	nli := *li
	nli.count++
	if li.mode == loopConcrete {
		if li.limit > 0 && nli.count > li.limit {
			r.a.Dropped++
			return nil
		}
		if nli.count > 400 {
			r.a.undecided("loop in %s not finished after 400 constant iterations", r.fn)
			return nil
		}
		for p, v := range phiVals {
			st.fr.env[p] = v
		}
		st.fr.loops[blk.Index] = &nli
		return []*State{st}
	}
	lm := r.a.Loops[id]
	if li.mode == loopFree && nli.count <= 24 {
		// try to follow constant progress
		allConst := true
		for p, v := range phiVals {
			if _, ok := v.(*Const); !ok && v.K() != st.fr.env[p].K() {
				allConst = false
			}
		}
		if allConst && len(phiVals) > 0 {
			for p, v := range phiVals {
				st.fr.env[p] = v
			}
			st.fr.loops[blk.Index] = &nli
			return []*State{st}
		}
	}
	for p, v := range phiVals {
		st.fr.env[p] = v
	}
	// registers that die here must not keep memory alive
	r.prune(st, blk)
	r.gc(st, nil)
	newC := r.components(st, blk)
	rec := &Rec{Loop: lm, Old: li.snap, New: newC, St: st.Clone()}
	states := []*State{st}
	if lm != nil && li.mode == loopGeneric {
		k := id + "|" + st.Key() + "|" + snapKey(li.snap)
		if !r.a.recSeen[k] {
			r.a.recSeen[k] = true
			r.a.Recs = append(r.a.Recs, rec)
		}
		if r.a.OnBackEdge != nil {
			states = r.a.OnBackEdge(st, lm, li.snap, newC)
		}
	}
	iterKey := ""
	if li.iter != nil {
		iterKey = li.iter.Op
	}
	for _, s := range states {
		n := nli
		ind := lp.ind
		keep := map[string]int64{}
		carried := func(comp string, v Val, t types.Type) {
			if lo, k, ok := s.carriedLo("tok@"+id+":"+comp, v, t); ok {
				keep[k] = lo
			}
		}
		for comp, v := range newC {
			carried(comp, v, v.Typ())
		}
		for _, in := range blk.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if ind != nil && ph == ind.phi && li.mode == loopGeneric {
				// next generic iteration
				s.fr.env[ph] = li.snap["φ:"+ph.Name()]
				continue
			}
			s.fr.env[ph] = r.widen(s, id, iterKey, "φ:"+ph.Name(), li.snap["φ:"+ph.Name()], s.fr.env[ph], ph.Type())
		}
		n.tmpl = r.widenHeap(s, id, iterKey, li)
		if iterKey != "" {
			s.KillMentioning(iterKey)
			// stale iteration values elsewhere
			ren := func(x Val) Val {
				if t, ok := x.(*Term); ok && len(t.Args) == 0 && t.L == nil && t.Op == iterKey {
					return &Term{Op: "prev-" + strings.Replace(t.Op, "@", "%", -1), T: t.T}
				}
				return nil
			}
			for k, v := range s.fr.env {
				if ph, ok := k.(*ssa.Phi); ok && ph.Block() == blk {
					continue
				}
				if strings.Contains(v.K(), iterKey) {
					s.fr.env[k] = Subst(v, ren)
				}
			}
			if ind != nil && ind.step < 0 {
				s.Assume(Lt(li.iter, lm.Bound), true)
			}
		}
		s.KillMentioning("tok@" + id + ":")
		for k, lo := range keep {
			s.lo[k] = lo
		}
		if lm != nil && lm.Bound != nil && li.mode == loopGeneric {
			s.Assume(Lt(Int(0), lm.Bound), true)
		}
		n.snap = r.components(s, blk)
		s.fr.loops[blk.Index] = &n
	}
	return states
}

// carriedLo is what stays known about a counter or list that becomes a
// loop-carried unknown: whether it is at least 0 or 1, or not empty.
func (s *State) carriedLo(tok string, v Val, t types.Type) (lo int64, key string, ok bool) {
	if t == nil {
		return
	}
	if isIntT(t) {
		b, c := linear(v)
		if b == nil {
			lo, ok = c, true
		} else if l, _, hl, _ := s.bounds(b); hl {
			lo, ok = l+c, true
		}
		if lo > 1 {
			lo = 1
		}
		return lo, tok, ok && lo >= 0
	}
	if _, isS := t.Underlying().(*types.Slice); isS {
		key = "len(" + tok + ")"
		switch x := v.(type) {
		case *ListV:
			return 1, key, len(x.Elems) > 0
		case *Term:
			if l, has := s.lo["len("+x.K()+")"]; has && l >= 1 {
				return 1, key, true
			}
			if x.Op == "concat" {
				for _, a := range x.Args {
					if _, _, o := s.carriedLo(tok, a, t); o {
						return 1, key, true
					}
				}
			}
		}
	}
	return 0, "", false
}

func snapKey(m map[string]Val) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+v.K())
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (r *run) widen(s *State, id, iterKey, comp string, old, nw Val, t types.Type) (out Val) {
	if old != nil && old.K() == nw.K() {
		return nw
	}
	tok := &Term{Op: "tok@" + id + ":" + comp, T: t}
	defer func() {
		if out == Val(tok) && isIntT(t) {
			r.a.noteToken(s, tok.Op, nw)
		}
	}()
	if old != nil && old.K() == tok.K() && !isFiniteVal(nw) {
		return tok
	}
	if iterKey != "" && strings.Contains(nw.K(), iterKey) || strings.Contains(nw.K(), tok.Op) {
		return tok
	}
	switch v := nw.(type) {
	case *Const:
		m := r.consts[comp+id]
		if m == nil {
			m = map[string]bool{}
			r.consts[comp+id] = m
		}
		m[v.K()] = true
		if len(m) > 10 {
			return tok
		}
		return nw
	case *Ptr, *FuncV, *MapV, *SliceV:
		return nw
	case *ListV:
		if len(v.Elems) == 0 {
			return nw
		}
		return tok
	case *Term:
		if old != nil && strings.Contains(nw.K(), old.K()) && len(nw.K()) > len(old.K()) {
			return tok
		}
		m := r.consts[comp+id]
		if m == nil {
			m = map[string]bool{}
			r.consts[comp+id] = m
		}
		m[v.K()] = true
		if len(m) > 10 {
			return tok
		}
		return nw
	case *IfaceV:
		if _, ok := v.X.(*Const); ok {
			return nw
		}
		if _, ok := v.X.(*Ptr); ok {
			return nw
		}
		return tok
	}
	return tok
}

// noteToken records whether a loop-carried integer can be negative.
func (a *Analysis) noteToken(s *State, tok string, v Val) {
	if v.K() == tok {
		return
	}
	b, c := linear(v)
	ok := false
	if b == nil {
		ok = c >= 0
	} else if lo, _, hl, _ := s.bounds(b); hl && lo+c >= 0 {
		ok = true
	}
	if _, seen := a.tokNonNeg[tok]; !seen {
		a.tokNonNeg[tok] = ok
	} else if !ok && a.tokNonNeg[tok] {
		a.tokNonNeg[tok] = false
		a.Rerun = true
	}
}

func isFiniteVal(v Val) bool {
	switch v.(type) {
	case *Const, *Ptr:
		return true
	}
	return false
}

func initialOf(l *Loc) Val {
	if l.root().Zero {
		return ZeroOf(l.T)
	}
	return locTerm(l)
}

// guards are the facts about the current element, with the element generalised.
func (s *State) guards(iterKey string) []Val {
	var out []Val
	sub := func(v Val) Val {
		return Subst(v, func(x Val) Val {
			if t, ok := x.(*Term); ok && len(t.Args) == 0 && t.L == nil && t.Op == iterKey {
				return &Term{Op: "∀", T: tInt}
			}
			return nil
		})
	}
	for k, a := range s.A.atoms {
		if !strings.Contains(k, iterKey) || a.Op == "lt" || a.Op == "more" {
			continue
		}
		if b, known := s.Decide(a); known {
			g := sub(a)
			if !b {
				g = Not(g)
			}
			out = append(out, g)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].K() < out[j].K() })
	return out
}

func mkAlt(v Val, guards []Val) Val {
	return &Term{Op: "choice", Args: []Val{&Term{Op: "alt", Args: append([]Val{v}, guards...), T: v.Typ()}}, T: v.Typ()}
}

func (r *run) widenHeap(s *State, id, iterKey string, li *loopInst) (tm map[string]bool) {
	keys := make([]string, 0, len(s.heap))
	for k := range s.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	// element writes at the current index become templates for every index
	if iterKey != "" {
		done := map[string]bool{}
		for _, k := range keys {
			c, ok := s.heap[k]
			if !ok {
				continue
			}
			for l := c.L; l != nil; l = l.Parent {
				if l.Idx != nil && l.Idx.K() == iterKey {
					if done[l.S] {
						break
					}
					done[l.S] = true
					v := s.load0(l)
					v = Subst(v, func(x Val) Val {
						if t, ok := x.(*Term); ok && len(t.Args) == 0 && t.L == nil && t.Op == iterKey {
							return &Term{Op: "∀", T: tInt}
						}
						return nil
					})
					s.ForgetRoot(l.S)
					fk := l.Parent.S + "[∀]"
					fl := l.Parent.index(&Term{Op: "∀", T: tInt}, l.T)
					v = mkAlt(v, s.guards(iterKey))
					if o, ok := s.heap[fk]; ok {
						v = mkChoice(o.V, v)
					} else if li.count > 0 {
						v = mkChoice(mkAlt(initialOf(fl), nil), v)
					}
					s.heap[fk] = cell{fl, v}
					break
				}
			}
		}
		// templates not refreshed by this iteration: its element keeps the old content
		for k, c := range s.heap {
			if !strings.HasSuffix(k, "[∀]") {
				continue
			}
			if _, was := li.snap["H:"+k]; !was || done[c.L.Parent.S+"["+iterKey+"]"] {
				continue
			}
			if li.tmpl[k] {
				s.heap[k] = cell{c.L, mkChoice(c.V, mkAlt(initialOf(c.L), s.guards(iterKey)))}
			}
		}
		for k := range s.heap {
			if strings.HasSuffix(k, "[∀]") {
				if _, was := li.snap["H:"+k]; !was || li.tmpl[k] {
					if tm == nil {
						tm = map[string]bool{}
					}
					tm[k] = true
				}
			}
		}
	}
	for k, c := range s.heap {
		if strings.HasSuffix(k, "[∀]") {
			continue
		}
		old := li.snap["H:"+k]
		if iterKey != "" && strings.Contains(k, iterKey) {
			// location depends on the iteration: forget
			delete(s.heap, k)
			continue
		}
		nv := r.widen(s, id, iterKey, "H:"+k, old, c.V, c.L.T)
		if nv != c.V {
			s.heap[k] = cell{c.L, nv}
		}
	}
	return
}

// SplitVal is one alternative of a value with the facts it holds under.
type SplitVal struct {
	St *State
	V  Val
}

// Split resolves a value that depends on facts about its element.
func (s *State) Split(v Val) []SplitVal {
	t, ok := v.(*Term)
	if !ok || t.Op != "choice" && t.Op != "alt" {
		return []SplitVal{{s, v}}
	}
	alts := []Val{t}
	if t.Op == "choice" {
		alts = t.Args
	}
	var outs []SplitVal
	for _, o := range alts {
		a := o.(*Term)
		c := s.Clone()
		ok := true
		for _, g := range a.Args[1:] {
			if !c.Assume(g, true) {
				ok = false
				break
			}
		}
		if ok {
			outs = append(outs, SplitVal{c, c.Resolve(a.Args[0])})
		}
	}
	return outs
}

func mkChoice(a, b Val) Val {
	var opts []Val
	add := func(v Val) {
		if t, ok := v.(*Term); ok && t.Op == "choice" {
			opts = append(opts, t.Args...)
			return
		}
		opts = append(opts, v)
	}
	add(a)
	add(b)
	seen := map[string]bool{}
	var u []Val
	for _, o := range opts {
		if !seen[o.K()] {
			seen[o.K()] = true
			u = append(u, o)
		}
	}
	u = mergeAlts(u)
	sort.Slice(u, func(i, j int) bool { return u[i].K() < u[j].K() })
	return &Term{Op: "choice", Args: u, T: a.Typ()}
}

// mergeAlts joins alternatives with the same value whose guards differ in one
// complementary predicate, and drops alternatives implied by a weaker one.
func mergeAlts(u []Val) []Val {
	type alt struct {
		v Val
		g map[string]Val
	}
	var as []alt
	for _, x := range u {
		t := x.(*Term)
		g := map[string]Val{}
		for _, q := range t.Args[1:] {
			g[q.K()] = q
		}
		as = append(as, alt{t.Args[0], g})
	}
	for changed := true; changed; {
		changed = false
	outer:
		for i := range as {
			for j := range as {
				if i == j || as[i].v.K() != as[j].v.K() {
					continue
				}
				// guards of i a subset of those of j: j is implied
				sub := true
				for k := range as[i].g {
					if _, ok := as[j].g[k]; !ok {
						sub = false
					}
				}
				if sub {
					as = append(as[:j], as[j+1:]...)
					changed = true
					break outer
				}
				if len(as[i].g) == len(as[j].g) {
					var diff []string
					for k := range as[i].g {
						if _, ok := as[j].g[k]; !ok {
							diff = append(diff, k)
						}
					}
					if len(diff) == 1 {
						n := Not(as[i].g[diff[0]]).K()
						if _, ok := as[j].g[n]; ok {
							delete(as[i].g, diff[0])
							as = append(as[:j], as[j+1:]...)
							changed = true
							break outer
						}
					}
				}
			}
		}
	}
	var out []Val
	for _, a := range as {
		gs := []Val{a.v}
		var ks []string
		for k := range a.g {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			gs = append(gs, a.g[k])
		}
		out = append(out, &Term{Op: "alt", Args: gs, T: a.v.Typ()})
	}
	return out
}

func (r *run) prune(st *State, blk *ssa.BasicBlock) {
	live := r.info.liveIn[blk.Index]
	for k := range st.fr.env {
		if ph, ok := k.(*ssa.Phi); ok && ph.Block() == blk {
			continue
		}
		if !live[k] {
			delete(st.fr.env, k)
		}
	}
}

// gc removes memory of analysed allocations that nothing refers to any more.
func (r *run) gc(st *State, extra []Val) {
	gcState(st, extra)
}

func gcState(st *State, extra []Val) {
	mark := map[string]bool{}
	var visit func(v Val)
	byRoot := map[string][]cell{}
	for _, c := range st.heap {
		rt := c.L.root().S
		byRoot[rt] = append(byRoot[rt], c)
	}
	visitRoot := func(l *Loc) {
		rt := l.root()
		if mark[rt.S] {
			return
		}
		mark[rt.S] = true
		for _, c := range byRoot[rt.S] {
			visit(c.V)
		}
		if rt.Term != nil {
			visit(rt.Term)
		}
	}
	visit = func(v Val) {
		if v == nil {
			return
		}
		Subst(v, func(x Val) Val {
			switch x := x.(type) {
			case *Ptr:
				visitRoot(x.L)
			case *SliceV:
				visitRoot(x.Root)
			case *MapV:
				visitRoot(x.Root)
			case *Term:
				if x.L != nil {
					visitRoot(x.L)
				}
			}
			return nil
		})
	}
	for f := st.fr; f != nil; f = f.parent {
		for _, v := range f.env {
			visit(v)
		}
		for _, d := range f.defers {
			for _, v := range d.args {
				visit(v)
			}
			if d.fn != nil {
				visit(d.fn)
			}
		}
	}
	for _, v := range extra {
		visit(v)
	}
	for _, v := range st.lists {
		visit(v)
	}
	for rt, cs := range byRoot {
		if !strings.HasPrefix(rt, "new:") {
			for _, c := range cs {
				visit(c.V)
			}
		}
	}
	for k, c := range st.heap {
		rt := c.L.root().S
		if strings.HasPrefix(rt, "new:") && !mark[rt] {
			delete(st.heap, k)
		}
	}
}

func (r *run) body(st *State, blk *ssa.BasicBlock) {
	r.a.Visited[blk] = true
	r.prune(st, blk)
	gcState(st, nil)
	k := fmt.Sprint(blk.Index) + "|" + st.Key()
	if r.visited[k] {
		return
	}
	r.visited[k] = true
	r.a.Blocks[r.fn.String()+"#"+fmt.Sprint(blk.Index)] = true
	i := 0
	for i < len(blk.Instrs) {
		if _, ok := blk.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	r.instrs(st, blk, i)
}

func (r *run) push(st *State, from, to *ssa.BasicBlock) {
	r.work = append(r.work, item{st, from, to})
}

func (r *run) instrs(st *State, blk *ssa.BasicBlock, i int) {
	for ; i < len(blk.Instrs); i++ {
		in := blk.Instrs[i]
		switch in := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			r.push(st, blk, blk.Succs[0])
			return
		case *ssa.If:
			c := st.Resolve(r.val(st, in.Cond))
			r.branch(st, c, func(s *State, b bool) {
				if b {
					r.push(s, blk, blk.Succs[0])
				} else {
					r.push(s, blk, blk.Succs[1])
				}
			})
			return
		case *ssa.Return:
			vals := make([]Val, len(in.Results))
			for j, x := range in.Results {
				vals[j] = st.Resolve(r.val(st, x))
			}
			r.emit(st, vals, "", in.Pos())
			return
		case *ssa.Panic:
			r.panic(st, "panic called", in.Pos())
			return
		case *ssa.RunDefers:
			outs := r.runDefers(st)
			for _, s := range outs {
				r.instrs(s, blk, i+1)
			}
			return
		}
		outs := r.step(st, in)
		if len(outs) == 1 && outs[0] == st {
			continue
		}
		for _, s := range outs {
			r.instrs(s, blk, i+1)
		}
		return
	}
}

// branch forks on a boolean value.
func (r *run) branch(st *State, c Val, k func(*State, bool)) {
	if v, known := st.Decide(c); known {
		k(st, v)
		return
	}
	t, ok := c.(*Term)
	if !ok {
		r.a.undecided("branch on %s", c.K())
		return
	}
	// finite domain values are split completely
	if sub := r.a.domainTerm(t); sub != nil {
		for _, d := range r.a.domainOf(sub) {
			s := st.Clone()
			if !s.Assume(Eq(sub, d), true) {
				continue
			}
			r.branch(s, c, k)
		}
		return
	}
	for _, b := range []bool{true, false} {
		s := st.Clone()
		if s.Assume(c, b) {
			k(s, b)
		}
	}
}

func (a *Analysis) domainTerm(t *Term) Val {
	if t.Op == "not" {
		if x, ok := t.Args[0].(*Term); ok {
			return a.domainTerm(x)
		}
	}
	if t.Op == "eq" || t.Op == "lt" {
		for _, x := range t.Args {
			b, _ := linear(x)
			if b != nil && a.domainOf(b) != nil {
				return b
			}
		}
	}
	return nil
}

func (r *run) emit(st *State, vals []Val, pan string, pos token.Pos) {
	gcState2 := st
	// the callee frame is gone: only results and outer frames keep memory alive
	saved := st.fr
	outer := &Frame{env: map[ssa.Value]Val{}, parent: st.fr.parent}
	st.fr = outer
	gcState(gcState2, vals)
	st.fr = saved
	// facts on dead iteration terms stay: they say why the function returned
	ks := make([]string, len(vals))
	for i, v := range vals {
		ks[i] = v.K()
	}
	k := strings.Join(ks, "|") + "|" + pan + "|" + st.factKey()
	if pan != "" {
		k += fmt.Sprint(pos)
	}
	if r.retSeen[k] {
		return
	}
	r.retSeen[k] = true
	r.rets = append(r.rets, Ret{st, vals, pan, pos})
}

func (r *run) panic(st *State, why string, pos token.Pos) {
	st.pan = why
	if len(st.fr.defers) > 0 {
		for _, s := range r.runDefers(st) {
			if s.pan == "" { // recovered
				if r.fn.Recover != nil {
					r.push(s, nil, r.fn.Recover)
				} else {
					var vals []Val
					res := r.fn.Signature.Results()
					for i := 0; i < res.Len(); i++ {
						vals = append(vals, ZeroOf(res.At(i).Type()))
					}
					r.emit(s, vals, "", pos)
				}
				continue
			}
			r.emit(s, nil, why, pos)
		}
		return
	}
	r.emit(st, nil, why, pos)
}

func (r *run) runDefers(st *State) []*State {
	states := []*State{st}
	for {
		var next []*State
		progress := false
		for _, s := range states {
			n := len(s.fr.defers)
			if n == 0 {
				next = append(next, s)
				continue
			}
			progress = true
			d := s.fr.defers[n-1]
			s.fr.defers = s.fr.defers[:n-1]
			fr := s.fr
			rets := r.callVal(s, d.fn, d.call, d.args, d.pos)
			for _, rt := range rets {
				rt.St.fr = fr.clone()
				if rt.Panic != "" {
					rt.St.pan = rt.Panic
				}
				next = append(next, rt.St)
			}
		}
		states = next
		if !progress {
			return states
		}
	}
}

// val reads an SSA operand.
func (r *run) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return ZeroOf(v.Type())
		}
		return &Const{v.Value, v.Type()}
	case *ssa.Function:
		return &FuncV{Fn: v, T: v.Type()}
	case *ssa.Global:
		return &Ptr{L: globalLoc(v), T: v.Type()}
	case *ssa.Builtin:
		return &Term{Op: "builtin:" + v.Name(), T: v.Type()}
	}
	if x, ok := st.fr.env[v]; ok {
		return x
	}
	r.a.undecided("no value for %s in %s", v.Name(), r.fn)
	return &Term{Op: "undef:" + v.Name(), T: v.Type()}
}

func globalLoc(g *ssa.Global) *Loc {
	return &Loc{S: "G:" + g.Name(), T: g.Type().Underlying().(*types.Pointer).Elem()}
}

// evalPure evaluates side-effect free instructions inside a loop header ahead
// of their execution (used for loop bounds).
func (r *run) evalPure(st *State, v ssa.Value) Val {
	if x, ok := st.fr.env[v]; ok {
		return st.Resolve(x)
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return r.val(st, v)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if x := r.evalPure(st, v.Call.Args[0]); x != nil {
				return st.lenOf(st.Resolve(x))
			}
		}
	case *ssa.BinOp:
		x, y := r.evalPure(st, v.X), r.evalPure(st, v.Y)
		if x != nil && y != nil && (v.Op == token.ADD || v.Op == token.SUB) && isIntT(v.Type()) {
			if c, ok := IsInt(y); ok {
				if v.Op == token.SUB {
					c = -c
				}
				b, k := linear(x)
				return mkLinear(b, k+c, v.Type())
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if p, ok := r.evalPure(st, v.X).(*Ptr); ok {
				return st.Load(p.L)
			}
		}
	case *ssa.FieldAddr:
		if p, ok := r.evalPure(st, v.X).(*Ptr); ok {
			f := fieldOf(v.X.Type(), v.Field)
			return &Ptr{L: p.L.field(f.Name(), f.Type()), T: v.Type()}
		}
	case *ssa.Field:
		if x := r.evalPure(st, v.X); x != nil {
			f := v.X.Type().Underlying().(*types.Struct).Field(v.Field)
			return FieldOf(x, f.Name(), f.Type())
		}
	}
	return nil
}

func fieldOf(t types.Type, i int) *types.Var {
	return t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(i)
}

func (r *run) site(st *State, in ssa.Value) string {
	return "new:" + r.ctx + ":" + in.Name() + r.turn(st, in.(ssa.Instruction))
}

// turn tells iterations of followed loops apart.
func (r *run) turn(st *State, in ssa.Instruction) string {
	s := ""
	var hs []int
	for h, l := range st.fr.loops {
		if l.mode != loopGeneric && r.info.loops[h].body[in.Block().Index] {
			hs = append(hs, h)
		}
	}
	sort.Ints(hs)
	for _, h := range hs {
		if st.fr.loops[h].mode == loopConcrete || st.fr.loops[h].count < 24 {
			s += fmt.Sprintf("~%d", st.fr.loops[h].count)
		}
	}
	return s
}

// deref gives the location a pointer value refers to, splitting off the nil case.
func (r *run) deref(st *State, v Val, pos token.Pos, what string) *Loc {
	v = st.Resolve(v)
	switch p := v.(type) {
	case *Ptr:
		return p.L
	case *Const:
		r.panic(st.Clone(), "nil dereference of "+what, pos)
		return nil
	case *Term:
		r.a.NilSites++
		isNil := Eq(p, Nil(p.T))
		if val, known := st.Decide(isNil); known {
			if val {
				r.panic(st.Clone(), "nil dereference of "+p.K(), pos)
				return nil
			}
		} else {
			s := st.Clone()
			if s.Assume(isNil, true) {
				r.panic(s, "nil dereference of "+p.K(), pos)
			}
			if !st.Assume(isNil, false) {
				return nil
			}
		}
		return derefLoc(p, p.T.Underlying().(*types.Pointer).Elem())
	}
	r.a.undecided("dereference of %s", v.K())
	return nil
}

func (r *run) step(st *State, in ssa.Instruction) []*State {
	one := []*State{st}
	set := func(v ssa.Value, x Val) []*State {
		st.fr.env[v] = x
		return one
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		name := r.site(st, in)
		t := in.Type().Underlying().(*types.Pointer).Elem()
		st.ForgetRoot(name)
		return set(in, &Ptr{L: rootLoc(name, t, true), T: in.Type()})

	case *ssa.Store:
		l := r.deref(st, r.val(st, in.Addr), in.Pos(), in.Addr.Name())
		if l == nil {
			return nil
		}
		if strings.HasPrefix(l.root().S, "new:elem:") {
			r.a.undecided("write to an element of a list value in %s", r.fn)
		}
		st.Store(l, st.Resolve(r.val(st, in.Val)))
		return one

	case *ssa.UnOp:
		x := st.Resolve(r.val(st, in.X))
		switch in.Op {
		case token.MUL:
			l := r.deref(st, x, in.Pos(), in.X.Name())
			if l == nil {
				return nil
			}
			if r.a.OnLoad != nil {
				r.a.OnLoad(st, l, in.Pos())
			}
			v := st.Load(l)
			var outs []*State
			for _, sv := range st.Split(v) {
				sv.St.fr.env[in] = sv.V
				outs = append(outs, sv.St)
			}
			return outs
		case token.NOT:
			return set(in, Not(x))
		case token.SUB:
			if c, ok := x.(*Const); ok && c.V != nil {
				return set(in, &Const{constant.UnaryOp(token.SUB, c.V, 0), in.Type()})
			}
			return set(in, NewTerm("neg", in.Type(), x))
		case token.ARROW:
			v := &Term{Op: "recv", T: in.Type()}
			if in.CommaOk {
				return set(in, &TupleV{[]Val{&Term{Op: "recv", T: in.Type().(*types.Tuple).At(0).Type()}, &Term{Op: "recvok", T: tBool}}})
			}
			return set(in, v)
		}
		return set(in, NewTerm("unop"+in.Op.String(), in.Type(), x))

	case *ssa.BinOp:
		x, y := st.Resolve(r.val(st, in.X)), st.Resolve(r.val(st, in.Y))
		if (in.Op == token.EQL || in.Op == token.NEQ) && isBoolT(x.Typ()) && !isConst(x) && !isConst(y) {
			// comparing two truth values: one of them decided on each path
			var out []*State
			for _, b := range []bool{true, false} {
				s2 := st.Clone()
				if !s2.Assume(x, b) {
					continue
				}
				v := s2.Resolve(y)
				if b != (in.Op == token.EQL) {
					v = s2.Resolve(Not(v))
				}
				s2.fr.env[in] = v
				out = append(out, s2)
			}
			return out
		}
		return set(in, st.Resolve(r.a.binop(st, in.Op, x, y, in.Type())))

	case *ssa.FieldAddr:
		f := fieldOf(in.X.Type(), in.Field)
		l := r.deref(st, r.val(st, in.X), in.Pos(), in.X.Name())
		if l == nil {
			return nil
		}
		return set(in, &Ptr{L: l.field(f.Name(), f.Type()), T: in.Type()})

	case *ssa.Field:
		f := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
		return set(in, st.Resolve(FieldOf(r.val(st, in.X), f.Name(), f.Type())))

	case *ssa.IndexAddr:
		idx := st.Resolve(r.val(st, in.Index))
		base := st.Resolve(r.val(st, in.X))
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if !r.inRange(st, base, idx, in.Pos()) {
			return nil
		}
		if l, ok := base.(*ListV); ok && written(in) {
			if sv, ok := st.inMemory(l, r.site(st, in)); ok {
				base = sv
			}
		}
		switch b := base.(type) {
		case *Ptr: // pointer to array
			return set(in, &Ptr{L: b.L.index(idx, et), T: in.Type()})
		case *SliceV:
			return set(in, &Ptr{L: b.Root.index(idx, et), T: in.Type()})
		case *ListV:
			if i, ok := IsInt(idx); ok && b.Base == nil && i >= 0 && i < int64(len(b.Elems)) {
				// read-only view of a known element
				l := rootLoc("new:elem:"+b.K()+"["+idx.K()+"]", et, true)
				st.heap[l.S] = cell{l, b.Elems[i]}
				return set(in, &Ptr{L: l, T: in.Type()})
			}
			l := derefLoc(b, b.T).index(idx, et)
			return set(in, &Ptr{L: l, T: in.Type()})
		case *Term:
			return set(in, &Ptr{L: derefLoc(b, b.T).index(idx, et), T: in.Type()})
		case *Const: // nil slice
			r.panic(st.Clone(), "index of nil slice", in.Pos())
			return nil
		}
		r.a.undecided("index of %s", base.K())
		return nil

	case *ssa.Index:
		x, idx := st.Resolve(r.val(st, in.X)), st.Resolve(r.val(st, in.Index))
		if !r.inRange(st, x, idx, in.Pos()) {
			return nil
		}
		if s, ok := IsStr(x); ok {
			if i, ok := IsInt(idx); ok && i >= 0 && i < int64(len(s)) {
				return set(in, &Const{constant.MakeInt64(int64(s[i])), in.Type()})
			}
		}
		if sv, ok := x.(*StructV); ok {
			if v, ok := sv.Over["["+idx.K()+"]"]; ok {
				return set(in, v)
			}
		}
		return set(in, st.Resolve(charAt(st, x, idx, in.Type())))

	case *ssa.Lookup:
		return r.lookup(st, in)

	case *ssa.MapUpdate:
		m := st.Resolve(r.val(st, in.Map))
		k := st.Resolve(r.val(st, in.Key))
		v := st.Resolve(r.val(st, in.Value))
		et := in.Map.Type().Underlying().(*types.Map).Elem()
		switch m := m.(type) {
		case *MapV:
			if ks, ok := st.entriesOf(m.Root); ok && r.a.MapEntries > 0 {
				var out []*State
				for _, c := range st.sameKey(k, ks) {
					c.st.Store(m.Root.index(c.key, et), v)
					out = append(out, c.st)
				}
				return out
			}
			st.Store(m.Root.index(k, et), v)
		case *Term:
			isNil := Eq(m, Nil(m.T))
			if val, known := st.Decide(isNil); !known || val {
				s := st.Clone()
				if s.Assume(isNil, true) {
					r.panic(s, "write to nil map "+m.K(), in.Pos())
				}
				if !st.Assume(isNil, false) {
					return nil
				}
			}
			st.Store(derefLoc(m, m.T).index(k, et), v)
		case *Const:
			r.panic(st.Clone(), "write to nil map", in.Pos())
			return nil
		default:
			r.a.undecided("map update of %s", m.K())
		}
		return one

	case *ssa.MakeMap:
		name := r.site(st, in)
		st.ForgetRoot(name)
		return set(in, &MapV{Root: rootLoc(name, in.Type(), true), T: in.Type()})

	case *ssa.MakeSlice:
		n := st.Resolve(r.val(st, in.Len))
		if i, ok := IsInt(n); ok && i == 0 {
			return set(in, &ListV{T: in.Type()})
		}
		name := r.site(st, in)
		st.ForgetRoot(name)
		return set(in, &SliceV{Root: rootLoc(name, in.Type(), true), Len: n, T: in.Type()})

	case *ssa.MakeChan:
		return set(in, &Term{Op: "nonnil:chan", T: in.Type()})

	case *ssa.MakeInterface:
		x := st.Resolve(r.val(st, in.X))
		if _, ok := x.(*IfaceV); ok {
			return set(in, x)
		}
		return set(in, &IfaceV{X: retype(x, in.X.Type()), T: in.Type()})

	case *ssa.ChangeInterface:
		return set(in, st.Resolve(r.val(st, in.X)))

	case *ssa.ChangeType:
		return set(in, retype(st.Resolve(r.val(st, in.X)), in.Type()))

	case *ssa.Convert:
		return set(in, convert(st.Resolve(r.val(st, in.X)), in.X.Type(), in.Type()))

	case *ssa.MakeClosure:
		b := make([]Val, len(in.Bindings))
		for i, x := range in.Bindings {
			b[i] = r.val(st, x)
		}
		return set(in, &FuncV{Fn: in.Fn.(*ssa.Function), Bind: b, T: in.Type()})

	case *ssa.Extract:
		t := r.val(st, in.Tuple)
		if tv, ok := t.(*TupleV); ok {
			return set(in, st.Resolve(tv.Vs[in.Index]))
		}
		return set(in, NewTerm(fmt.Sprintf("extract%d", in.Index), in.Type(), t))

	case *ssa.TypeAssert:
		return r.typeAssert(st, in)

	case *ssa.Slice:
		return r.slice(st, in)

	case *ssa.Range:
		x := st.Resolve(r.val(st, in.X))
		if c, ok := x.(*Const); ok && c.V == nil {
			return set(in, NewTerm("range", in.Type(), x))
		}
		return set(in, NewTerm("range", in.Type(), x))

	case *ssa.Next:
		return r.next(st, in)

	case *ssa.Call:
		return r.call(st, in)

	case *ssa.Defer:
		d := deferred{call: &in.Call, pos: in}
		d.fn, d.args = r.callee(st, &in.Call)
		st.fr.defers = append(st.fr.defers, d)
		return one

	case *ssa.Go:
		r.a.undecided("goroutine started in %s", FnName(r.fn, r.a.P.Pkg.Pkg))
		return one

	case *ssa.Send:
		return one

	case *ssa.Select:
		r.a.undecided("select in %s", r.fn)
		return nil
	}
	r.a.undecided("instruction %T in %s", in, r.fn)
	return nil
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case *Const:
		return &Const{x.V, t}
	case *Term:
		n := *x
		n.T = t
		return &n
	case *Ptr:
		return &Ptr{x.L, t}
	case *ListV:
		return &ListV{Base: x.Base, Elems: x.Elems, T: t, of: x}
	case *SliceV:
		return &SliceV{x.Root, x.Len, t}
	case *MapV:
		return &MapV{x.Root, t}
	case *StructV:
		return &StructV{x.Base, x.Over, t}
	case *FuncV:
		return &FuncV{x.Fn, x.Bind, t}
	}
	return v
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8)
}

func convert(x Val, from, to types.Type) Val {
	if isByteSlice(to) && isStringT(from) {
		if t, ok := x.(*Term); ok && t.Op == "str" {
			return t.Args[0]
		}
		return NewTerm("bytes", to, x)
	}
	if isStringT(to) && isByteSlice(from) {
		if t, ok := x.(*Term); ok && t.Op == "bytes" {
			return t.Args[0]
		}
		if IsNil(x) {
			return Str("")
		}
		if l, ok := x.(*ListV); ok && l.Base == nil && len(l.Elems) == 0 {
			return Str("")
		}
		return NewTerm("str", to, x)
	}
	if isStringT(to) && isStringT(from) {
		return retype(x, to)
	}
	if isStringT(to) && isIntT(from) {
		if i, ok := IsInt(x); ok {
			return &Const{constant.MakeString(string(rune(i))), to}
		}
		return NewTerm("runestr", to, x)
	}
	if c, ok := x.(*Const); ok && c.V != nil {
		if isFloat(to) {
			return &Const{constant.ToFloat(c.V), to}
		}
		if isIntT(to) {
			if v := constant.ToInt(c.V); v.Kind() == constant.Int {
				return &Const{v, to}
			}
		}
	}
	if isIntT(to) && isIntT(from) {
		return retype(x, to)
	}
	return NewTerm("conv<"+TypeName(to)+">", to, x)
}

func (r *run) inRange(st *State, base, idx Val, pos token.Pos) bool {
	n := st.lenOf(base)
	if p, ok := base.(*Ptr); ok {
		if at, ok := p.L.T.Underlying().(*types.Array); ok {
			n = Int(at.Len())
		}
	}
	ok1 := Not(Lt(idx, Int(0)))
	ok2 := Lt(idx, n)
	for _, c := range []Val{ok1, ok2} {
		v, known := st.Decide(c)
		if known && v {
			continue
		}
		if known && !v {
			r.panic(st.Clone(), "index out of range: "+base.K()+"["+idx.K()+"]", pos)
			return false
		}
		if r.a.Bounds {
			s := st.Clone()
			if s.Assume(c, false) {
				r.panic(s, "index out of range: "+base.K()+"["+idx.K()+"]", pos)
			}
		}
		if !st.Assume(c, true) {
			return false
		}
	}
	return true
}

func (r *run) lookup(st *State, in *ssa.Lookup) []*State {
	m := st.Resolve(r.val(st, in.X))
	k := st.Resolve(r.val(st, in.Index))
	if isStringT(in.X.Type()) {
		if !r.inRange(st, m, k, in.Pos()) {
			return nil
		}
		if s, ok := IsStr(m); ok {
			if i, ok := IsInt(k); ok {
				st.fr.env[in] = &Const{constant.MakeInt64(int64(s[i])), in.Type()}
				return []*State{st}
			}
		}
		st.fr.env[in] = st.Resolve(charAt(st, m, k, in.Type()))
		return []*State{st}
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	put := func(s *State, v, ok Val) {
		if in.CommaOk {
			s.fr.env[in] = &TupleV{[]Val{v, ok}}
		} else {
			s.fr.env[in] = v
		}
	}
	if mv, ok := m.(*MapV); ok {
		if _, isC := k.(*Const); !isC {
			if cells, ok := st.tableOf(mv.Root); ok {
				var out []*State
				rest := st.Clone()
				for _, c := range cells {
					s := rest.Clone()
					if s.Assume(Eq(k, c.L.Idx), true) {
						put(s, s.Resolve(c.V), Bool(true))
						out = append(out, s)
					}
					if !rest.Assume(Eq(k, c.L.Idx), false) {
						return out
					}
				}
				put(rest, ZeroOf(et), Bool(false))
				return append(out, rest)
			}
		}
	}
	if mv, ok := m.(*MapV); ok && r.a.MapEntries > 0 {
		if ks, ok := st.entriesOf(mv.Root); ok {
			var out []*State
			for _, c := range st.sameKey(k, ks) {
				if c.found {
					v, _ := r.a.mapGet(c.st, m, c.key, et)
					put(c.st, c.st.Resolve(v), Bool(true))
				} else {
					put(c.st, ZeroOf(et), Bool(false))
				}
				out = append(out, c.st)
			}
			return out
		}
	}
	v, has := r.a.mapGet(st, m, k, et)
	put(st, st.Resolve(v), st.Resolve(has))
	return []*State{st}
}

type keyCase struct {
	st    *State
	key   Val
	found bool
}

// sameKey distinguishes which of the entries of a map a key names.
func (s *State) sameKey(k Val, ks []Val) []keyCase {
	var out []keyCase
	rest := s.Clone()
	for _, o := range ks {
		if o.K() == k.K() {
			return []keyCase{{s, o, true}}
		}
	}
	for _, o := range ks {
		t := rest.Clone()
		if t.Assume(Eq(k, o), true) {
			out = append(out, keyCase{t, o, true})
		}
		if !rest.Assume(Eq(k, o), false) {
			return out
		}
	}
	return append(out, keyCase{rest, k, false})
}

func (a *Analysis) mapGet(st *State, m, k Val, et types.Type) (Val, Val) {
	var root *Loc
	switch m := m.(type) {
	case *Const:
		return ZeroOf(et), Bool(false)
	case *MapV:
		root = m.Root
	case *Term:
		root = derefLoc(m, m.T)
	default:
		return NewTerm("get", et, m, k), NewTerm("has", tBool, m, k)
	}
	l := root.index(k, et)
	if c, ok := st.cellAt(l.S); ok {
		return c.V, Bool(true)
	}
	if c, ok := st.cellAt(root.S + "[∀]"); ok {
		return Subst(c.V, func(x Val) Val {
			if t, ok := x.(*Term); ok && t.Op == "∀" {
				return k
			}
			return nil
		}), NewTerm("has", tBool, m, k)
	}
	// other keys may alias
	alias := false
	for hk, c := range st.heap {
		if strings.HasPrefix(hk, root.S+"[") && c.L.Parent != nil && c.L.Parent.S == root.S {
			_, c1 := c.L.Idx.(*Const)
			_, c2 := k.(*Const)
			if !(c1 && c2) {
				alias = true
			}
		}
	}
	if _, ok := m.(*MapV); ok {
		if !alias && !a.mapTouched(st, root) {
			if _, isC := k.(*Const); isC {
				return ZeroOf(et), Bool(false)
			}
			anyKey := false
			for hk := range st.heap {
				if strings.HasPrefix(hk, root.S+"[") {
					anyKey = true
				}
			}
			if !anyKey {
				return ZeroOf(et), Bool(false)
			}
		}
		return NewTerm("get", et, m, k), NewTerm("has", tBool, m, k)
	}
	return NewTerm("get", et, m, k), NewTerm("has", tBool, m, k)
}

// tableOf lists the entries of a map whose keys are all known constants.
func (s *State) tableOf(root *Loc) ([]cell, bool) {
	m := map[string]cell{}
	collect := func(h map[string]cell) bool {
		for k, c := range h {
			if k == root.S {
				return false
			}
			if !strings.HasPrefix(k, root.S+"[") {
				continue
			}
			if c.L.Parent == nil || c.L.Parent.S != root.S || c.L.Idx == nil {
				return false
			}
			if _, isC := c.L.Idx.(*Const); !isC {
				return false
			}
			m[k] = c
		}
		return true
	}
	if !collect(s.A.base) || !collect(s.heap) || len(m) == 0 || len(m) > 64 {
		return nil, false
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []cell
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out, true
}

func (a *Analysis) mapTouched(st *State, root *Loc) bool {
	_, ok := st.heap[root.S]
	return ok
}

func (r *run) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	x := st.Resolve(r.val(st, in.X))
	t := in.AssertedType
	if types.IsInterface(t) {
		// assertion to an interface type
		var ok Val
		switch v := x.(type) {
		case *IfaceV:
			ok = Bool(types.Implements(v.X.Typ(), t.Underlying().(*types.Interface)))
		case *Const:
			ok = Bool(false)
		default:
			ok = NewTerm("implements<"+TypeName(t)+">", tBool, x)
		}
		return r.assertResult(st, in, ok, x)
	}
	switch v := x.(type) {
	case *IfaceV:
		if types.Identical(v.X.Typ(), t) {
			return r.assertResult(st, in, Bool(true), v.X)
		}
		return r.assertResult(st, in, Bool(false), ZeroOf(t))
	case *Const:
		return r.assertResult(st, in, Bool(false), ZeroOf(t))
	}
	ok := NewTerm("is<"+TypeName(t)+">", tBool, x)
	return r.assertResult(st, in, ok, NewTerm("as<"+TypeName(t)+">", t, x))
}

func (r *run) assertResult(st *State, in *ssa.TypeAssert, ok, v Val) []*State {
	if in.CommaOk {
		st.fr.env[in] = &TupleV{[]Val{v, st.Resolve(ok)}}
		return []*State{st}
	}
	val, known := st.Decide(ok)
	if known && !val {
		r.panic(st.Clone(), "type assertion to "+TypeName(in.AssertedType)+" fails", in.Pos())
		return nil
	}
	if !known {
		s := st.Clone()
		if s.Assume(ok, false) {
			r.panic(s, "type assertion of "+shortKey(r.val(st, in.X))+" to "+TypeName(in.AssertedType)+" may fail", in.Pos())
		}
		if !st.Assume(ok, true) {
			return nil
		}
	}
	st.fr.env[in] = st.Resolve(v)
	return []*State{st}
}

func shortKey(v Val) string {
	k := v.K()
	if len(k) > 100 {
		return k[:100] + "…"
	}
	return k
}

func (r *run) slice(st *State, in *ssa.Slice) []*State {
	x := st.Resolve(r.val(st, in.X))
	var lo, hi Val = Int(0), nil
	if in.Low != nil {
		lo = st.Resolve(r.val(st, in.Low))
	}
	if in.High != nil {
		hi = st.Resolve(r.val(st, in.High))
	}
	set := func(v Val) []*State {
		st.fr.env[in] = v
		return []*State{st}
	}
	lo0, loC := IsInt(lo)
	if p, ok := x.(*Ptr); ok { // slicing an array
		at, ok := p.L.T.Underlying().(*types.Array)
		if ok && loC && lo0 == 0 && hi == nil {
			if at.Len() == 0 {
				return set(&ListV{T: in.Type()})
			}
			return set(&SliceV{Root: p.L, Len: Int(at.Len()), T: in.Type()})
		}
		if ok && loC && lo0 == 0 && hi != nil {
			if h, ok := IsInt(hi); ok && h == 0 {
				return set(&ListV{T: in.Type()})
			}
			return set(&SliceV{Root: p.L, Len: hi, T: in.Type()})
		}
		r.a.undecided("slice of array in %s", r.fn)
		return nil
	}
	n := st.lenOf(x)
	h := hi
	if h == nil {
		h = n
	}
	// bounds: 0 <= lo <= hi <= len
	for _, c := range []Val{Not(Lt(lo, Int(0))), Not(Lt(h, lo)), Not(Lt(n, h))} {
		v, known := st.Decide(c)
		if known && v {
			continue
		}
		if known && !v {
			r.panic(st.Clone(), "slice bounds out of range: "+shortKey(x)+"["+lo.K()+":"+h.K()+"]", in.Pos())
			return nil
		}
		if r.a.Bounds {
			s := st.Clone()
			if s.Assume(c, false) {
				r.panic(s, "slice bounds out of range: "+shortKey(x)+"["+lo.K()+":"+h.K()+"]", in.Pos())
			}
		}
		if !st.Assume(c, true) {
			return nil
		}
	}
	if loC && lo0 == 0 && (hi == nil || h.K() == n.K()) {
		return set(x)
	}
	if s, ok := IsStr(x); ok && loC {
		if hh, ok := IsInt(h); ok {
			return set(&Const{constant.MakeString(s[lo0:hh]), in.Type()})
		}
	}
	if l, ok := x.(*ListV); ok && l.Base == nil && loC {
		if hh, ok := IsInt(h); ok {
			return set(&ListV{Elems: append([]Val{}, l.Elems[lo0:hh]...), T: in.Type()})
		}
	}
	_, isTerm := x.(*Term)
	if _, isSlice := x.Typ().Underlying().(*types.Slice); isTerm && isSlice && r.a.Unroll > 0 {
		if l, ok := r.a.toList(st, x); ok && loC && l.Base == nil {
			if hh, ok := IsInt(h); ok {
				return set(&ListV{Elems: append([]Val{}, l.Elems[lo0:hh]...), T: in.Type()})
			}
		}
	}
	if sv, ok := x.(*SliceV); ok {
		if l, ok := r.a.toList(st, sv); ok && loC && l.Base == nil {
			if hh, ok := IsInt(h); ok {
				return set(&ListV{Elems: append([]Val{}, l.Elems[lo0:hh]...), T: in.Type()})
			}
		}
	}
	return set(Substr(x, lo, h, n, in.Type()))
}

// Substr is the canonical sub-slice value.
func Substr(x, lo, hi, n Val, t types.Type) Val {
	if pre, mid, suf, ok := around(x); ok && pre+suf != "" {
		// cutting inside the known ends
		a, okLo := IsInt(lo)
		b, c := linear(hi)
		if okLo && a >= 0 && a <= int64(len(pre)) && b != nil && b.K() == NewTerm("len", tInt, mid).K() {
			if c -= int64(len(pre)); c >= 0 && c <= int64(len(suf)) {
				return Cat(Str(pre[a:]), mid, Str(suf[:c]))
			}
		}
	}
	if tt, ok := x.(*Term); ok && tt.Op == "slice" && hi.K() == n.K() {
		// x[a:][b:] == x[a+b:]
		if a, ok := IsInt(tt.Args[1]); ok {
			if b, ok := IsInt(lo); ok {
				return NewTerm("slice", t, tt.Args[0], Int(a+b), tt.Args[2])
			}
		}
	}
	if hi.K() == n.K() {
		return NewTerm("slice", t, x, lo, &Term{Op: "end", T: tInt})
	}
	return NewTerm("slice", t, x, lo, hi)
}

// around splits a text into known ends and one unknown part.
func around(v Val) (pre string, mid Val, suf string, ok bool) {
	t, isT := v.(*Term)
	if !isT {
		return
	}
	if t.Op != "cat" {
		return "", v, "", true
	}
	for _, x := range t.Args {
		s, isS := IsStr(x)
		switch {
		case isS && mid == nil:
			pre += s
		case isS:
			suf += s
		case mid != nil:
			return "", nil, "", false
		default:
			mid = x
		}
	}
	return pre, mid, suf, mid != nil
}

// knownEnds are the constant texts at the two ends of a concatenation.
func knownEnds(v Val) (pre, suf string) {
	t, ok := v.(*Term)
	if !ok || t.Op != "cat" || len(t.Args) == 0 {
		return "", ""
	}
	pre, _ = IsStr(t.Args[0])
	suf, _ = IsStr(t.Args[len(t.Args)-1])
	return
}

// charAt is one byte of a text.
func charAt(st *State, x, idx Val, t types.Type) Val {
	if pre, mid, suf, ok := around(x); ok && pre+suf != "" {
		if i, ok := IsInt(idx); ok && i >= 0 && i < int64(len(pre)) {
			return &Const{constant.MakeInt64(int64(pre[i])), t}
		}
		b, c := linear(idx)
		if c -= int64(len(pre)); b != nil && b.K() == NewTerm("len", tInt, mid).K() && c >= 0 && c < int64(len(suf)) {
			return &Const{constant.MakeInt64(int64(suf[c])), t}
		}
		if i, ok := IsInt(idx); ok && i == int64(len(pre)) && st.A.Alphabet != nil && st.A.Alphabet(mid) != "" {
			return NewTerm("at", t, mid, Int(0))
		}
	}
	return NewTerm("at", t, x, idx)
}

func (r *run) next(st *State, in *ssa.Next) []*State {
	it := r.val(st, in.Iter)
	var coll Val = it
	if t, ok := it.(*Term); ok && t.Op == "range" {
		coll = t.Args[0]
	}
	var li *loopInst
	h := -1
	for hb := range st.fr.loops {
		if r.info.loops[hb].next == in {
			li = st.fr.loops[hb]
			h = hb
		}
	}
	tup := in.Type().(*types.Tuple)
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	if li != nil && li.mode == loopConcrete {
		if s, ok := IsStr(coll); ok {
			rs := []rune(s)
			if li.count >= len(rs) {
				st.fr.env[in] = &TupleV{[]Val{Bool(false), ZeroOf(tInt), ZeroOf(tInt)}}
			} else {
				off := len(string(rs[:li.count]))
				st.fr.env[in] = &TupleV{[]Val{Bool(true), Int(int64(off)), &Const{constant.MakeInt64(int64(rs[li.count])), types.Typ[types.Rune]}}}
			}
			return []*State{st}
		}
		if mt, ok := coll.Typ().Underlying().(*types.Map); ok && li.keys != nil {
			if li.count >= len(li.keys) {
				st.fr.env[in] = &TupleV{[]Val{Bool(false), zeroOr(kt), zeroOr(vt)}}
			} else {
				k := li.keys[li.count]
				v, _ := r.a.mapGet(st, coll, k, mt.Elem())
				st.fr.env[in] = &TupleV{[]Val{Bool(true), k, v}}
			}
			return []*State{st}
		}
	}
	if IsNil(coll) {
		st.fr.env[in] = &TupleV{[]Val{Bool(false), zeroOr(kt), zeroOr(vt)}}
		return []*State{st}
	}
	if mv, ok := coll.(*MapV); ok && li == nil && r.a.Unroll > 0 {
		// a single step of an iteration: any entry may come first
		if ks, ok := st.entriesOf(mv.Root); ok {
			if len(ks) == 0 {
				st.fr.env[in] = &TupleV{[]Val{Bool(false), zeroOr(kt), zeroOr(vt)}}
				return []*State{st}
			}
			if r.a.Order != nil {
				ks = r.a.ordered(ks)[:1]
			}
			var out []*State
			for _, k := range ks {
				s2 := st.Clone()
				v, _ := r.a.mapGet(s2, mv, k, mv.T.Underlying().(*types.Map).Elem())
				s2.fr.env[in] = &TupleV{[]Val{Bool(true), k, v}}
				out = append(out, s2)
			}
			return out
		}
	}
	if ks, ok := st.MapKeys(coll); ok && li == nil {
		if st.dead {
			return nil
		}
		if len(ks) == 0 {
			st.fr.env[in] = &TupleV{[]Val{Bool(false), zeroOr(kt), zeroOr(vt)}}
			return []*State{st}
		}
		k := r.a.ordered(ks)[0]
		v, _ := r.a.mapGet(st, coll, k, coll.Typ().Underlying().(*types.Map).Elem())
		st.fr.env[in] = &TupleV{[]Val{Bool(true), k, v}}
		return []*State{st}
	}
	iter := &Term{Op: "i@" + r.loopID(h), T: tInt}
	more := NewTerm("more", tBool, coll, iter)
	key := Val(NewTerm("key", kt, coll, iter))
	if in.IsString {
		st.fr.env[in] = &TupleV{[]Val{more, key, NewTerm("rune", vt, coll, iter)}}
		return []*State{st}
	}
	var val Val
	if mt, ok := coll.Typ().Underlying().(*types.Map); ok {
		if !types.IsInterface(mt.Key()) && (kt == nil || kt == types.Typ[types.Invalid]) {
			key = NewTerm("key", mt.Key(), coll, iter)
		}
		key = NewTerm("key", mt.Key(), coll, iter)
		val = NewTerm("get", mt.Elem(), coll, key)
		if mv, ok := coll.(*MapV); ok {
			v, _ := r.a.mapGet(st, mv, key, mt.Elem())
			val = v
			// a known single-entry map
			var cs []cell
			for hk, c := range st.heap {
				if strings.HasPrefix(hk, mv.Root.S+"[") && c.L.Parent != nil && c.L.Parent.S == mv.Root.S {
					cs = append(cs, c)
				}
			}
			if len(cs) == 0 {
				st.fr.env[in] = &TupleV{[]Val{Bool(false), key, ZeroOf(mt.Elem())}}
				return []*State{st}
			}
		}
	}
	if val == nil {
		val = NewTerm("val", vt, coll, iter)
	}
	st.fr.env[in] = &TupleV{[]Val{more, key, val}}
	return []*State{st}
}

func zeroOr(t types.Type) Val {
	if t == nil || t == types.Typ[types.Invalid] {
		return Int(0)
	}
	return ZeroOf(t)
}

// toList reads a slice of known length as a list of values.
func (a *Analysis) toList(st *State, v Val) (*ListV, bool) {
	if a.ByteText {
		x := v
		if t, ok := v.(*Term); ok && t.Op == "bytes" {
			x = t.Args[0]
		}
		if s, ok := IsStr(x); ok {
			l := &ListV{T: types.NewSlice(types.Typ[types.Uint8])}
			for i := 0; i < len(s); i++ {
				l.Elems = append(l.Elems, &Const{constant.MakeInt64(int64(s[i])), types.Typ[types.Uint8]})
			}
			return l, true
		}
	}
	switch v := v.(type) {
	case *ListV:
		return v, true
	case *Const:
		if v.V == nil {
			return &ListV{T: v.T}, true
		}
	case *SliceV:
		n, ok := IsInt(v.Len)
		if !ok {
			return nil, false
		}
		et := v.T.Underlying().(*types.Slice).Elem()
		l := &ListV{T: v.T}
		for i := int64(0); i < n; i++ {
			l.Elems = append(l.Elems, st.Load(v.Root.index(Int(i), et)))
		}
		return l, true
	case *Term:
		if t, ok := v.T.Underlying().(*types.Slice); ok && a.Unroll > 0 {
			if n, ok := IsInt(st.Resolve(st.lenOf(v))); ok && n <= 16 {
				l := &ListV{T: v.T}
				for i := int64(0); i < n; i++ {
					l.Elems = append(l.Elems, st.Load(derefLoc(v, v.T).index(Int(i), t.Elem())))
				}
				return l, true
			}
		}
		return &ListV{Base: v, T: v.T}, true
	}
	return nil, false
}

// ordered puts the entries of a map into the order of visits under study.
func (a *Analysis) ordered(ks []Val) []Val {
	if a.Order == nil {
		return ks
	}
	out := []Val{}
	for _, i := range a.Order {
		if i < len(ks) {
			out = append(out, ks[i])
		}
	}
	for i := len(a.Order); i < len(ks); i++ {
		out = append(out, ks[i])
	}
	return out
}

// MapKeys gives an unknown map the number of entries under study and names
// their keys.
func (s *State) MapKeys(m Val) ([]Val, bool) {
	t, ok := m.(*Term)
	if !ok || s.A.MapEntries == 0 || t.T == nil {
		return nil, false
	}
	mt, ok := t.T.Underlying().(*types.Map)
	if !ok {
		return nil, false
	}
	n := int64(s.A.MapEntries)
	l := s.Resolve(s.lenOf(m))
	if c, ok := IsInt(l); ok {
		if c > n {
			s.dead = true
			return nil, true
		}
		n = c
	} else if !s.Assume(Eq(l, Int(n)), true) {
		s.dead = true
		return nil, true
	}
	ks := []Val{}
	for i := int64(0); i < n; i++ {
		k := NewTerm("entry", mt.Key(), m, Int(i))
		s.dead = s.dead || !s.Assume(NewTerm("has", tBool, m, k), true)
		for _, o := range ks {
			s.dead = s.dead || !s.Assume(Eq(o, k), false)
		}
		ks = append(ks, k)
	}
	return ks, true
}

// Meet is the fact that holds where both s and t do, in the memory of s.
func (s *State) Meet(t *State) (*State, bool) {
	n := s.Clone()
	for k, c := range t.bind {
		if o, ok := n.bind[k]; ok {
			if o.K() != c.K() {
				return nil, false
			}
			continue
		}
		if n.diseq[k][c.K()] != nil {
			return nil, false
		}
		if i, ok := IsInt(c); ok {
			if lo, ok := n.lo[k]; ok && i < lo {
				return nil, false
			}
			if hi, ok := n.hi[k]; ok && i > hi {
				return nil, false
			}
		}
		n.bind[k] = c
		delete(n.diseq, k)
		delete(n.lo, k)
		delete(n.hi, k)
	}
	for k, m := range t.diseq {
		o, bound := n.bind[k]
		for ck, c := range m {
			if bound && o.K() == ck {
				return nil, false
			}
			if bound {
				continue
			}
			if n.diseq[k] == nil {
				n.diseq[k] = map[string]*Const{}
			}
			n.diseq[k][ck] = c
		}
	}
	for k, v := range t.lo {
		if c, ok := n.bind[k]; ok {
			if i, ok := IsInt(c); ok && i < v {
				return nil, false
			}
			continue
		}
		if hi, ok := n.hi[k]; ok && hi < v {
			return nil, false
		}
		if o, ok := n.lo[k]; !ok || o < v {
			n.lo[k] = v
		}
	}
	for k, v := range t.hi {
		if c, ok := n.bind[k]; ok {
			if i, ok := IsInt(c); ok && i > v {
				return nil, false
			}
			continue
		}
		if lo, ok := n.lo[k]; ok && lo > v {
			return nil, false
		}
		if o, ok := n.hi[k]; !ok || o > v {
			n.hi[k] = v
		}
	}
	// what was assumed of s still has to hold
	for fk, fv := range s.facts {
		if at := s.A.atoms[fk]; at != nil {
			delete(n.facts, fk)
			if !n.Assume(at, fv) {
				return nil, false
			}
		}
	}
	for fk, fv := range t.facts {
		if at := t.A.atoms[fk]; at != nil {
			if !n.Assume(at, fv) {
				return nil, false
			}
		} else if o, ok := n.facts[fk]; ok && o != fv {
			return nil, false
		}
	}
	return n, true
}

// entriesOf lists the keys of a map built by the analysed code.
func (s *State) entriesOf(root *Loc) ([]Val, bool) {
	if _, ok := s.heap[root.S]; ok {
		return nil, false
	}
	m := map[string]Val{}
	var ks []string
	for k, c := range s.heap {
		if !strings.HasPrefix(k, root.S+"[") {
			continue
		}
		l := c.L
		for l.Parent != nil && l.Parent.S != root.S {
			l = l.Parent
		}
		if l.Parent == nil || l.Idx == nil || strings.Contains(l.Idx.K(), "∀") {
			return nil, false
		}
		if m[l.S] == nil {
			ks = append(ks, l.S)
		}
		m[l.S] = l.Idx
	}
	sort.Strings(ks)
	var out []Val
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out, true
}

// ToList is toList for property code.
func (a *Analysis) ToList(st *State, v Val) (*ListV, bool) { return a.toList(st, v) }

func (a *Analysis) binop(st *State, op token.Token, x, y Val, t types.Type) Val {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		// comparisons of equal-folded strings
		if op == token.EQL || op == token.NEQ {
			if fx, ok := x.(*Term); ok && (fx.Op == "strings.ToLower" || fx.Op == "strings.ToUpper") {
				if fy, ok := y.(*Term); ok && fy.Op == fx.Op {
					v := equalFold(fx.Args[0], fy.Args[0])
					if op == token.NEQ {
						return Not(v)
					}
					return v
				}
			}
		}
		return Cmp(op, x, y)
	case token.ADD:
		if isStringT(t) {
			return Cat(x, y)
		}
	case token.AND, token.OR:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			// non-short-circuit booleans do not occur in Go source
		}
	}
	cx, okx := x.(*Const)
	cy, oky := y.(*Const)
	if okx && oky && cx.V != nil && cy.V != nil {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.REM:
			if op == token.REM && constant.Sign(cy.V) == 0 {
				break
			}
			return &Const{constant.BinaryOp(cx.V, op, cy.V), t}
		case token.QUO:
			if constant.Sign(cy.V) != 0 {
				o := op
				if isIntT(t) {
					o = token.QUO_ASSIGN
				}
				return &Const{constant.BinaryOp(cx.V, o, cy.V), t}
			}
		case token.SHL, token.SHR:
			if s, ok := IsInt(y); ok && s >= 0 && s < 64 {
				return &Const{constant.Shift(cx.V, op, uint(s)), t}
			}
		}
	}
	if isIntT(t) && (op == token.ADD || op == token.SUB) {
		if c, ok := IsInt(y); ok {
			if op == token.SUB {
				c = -c
			}
			b, k := linear(x)
			return mkLinear(b, k+c, t)
		}
		if c, ok := IsInt(x); ok && op == token.ADD {
			b, k := linear(y)
			return mkLinear(b, k+c, t)
		}
	}
	if isFloat(t) {
		// canonical order for commutative float operations
		if op == token.MUL {
			if okx && isOne(cx) {
				return y
			}
			if oky && isOne(cy) {
				return x
			}
		}
	}
	if op == token.ADD || op == token.MUL {
		if x.K() > y.K() {
			x, y = y, x
		}
	}
	return NewTerm("op"+op.String(), t, x, y)
}

func isOne(c *Const) bool {
	f, ok := constant.Float64Val(constant.ToFloat(c.V))
	_ = ok
	return f == 1
}

func equalFold(a, b Val) Val {
	sa, oka := IsStr(a)
	sb, okb := IsStr(b)
	if oka && okb {
		return Bool(strings.EqualFold(sa, sb))
	}
	if a.K() > b.K() {
		a, b = b, a
	}
	return NewTerm("EqualFold", tBool, a, b)
}

// Param is a symbolic argument; pointers are non-nil.
func Param(name string, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return SymPtr(name, t)
	}
	return Sym(name, t)
}

// written tells whether something is stored at the address.
func written(in ssa.Value) bool {
	for _, ref := range *in.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr == in {
				return true
			}
		case *ssa.FieldAddr:
			if written(ref) {
				return true
			}
		}
	}
	return false
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isConst(v Val) bool {
	_, ok := v.(*Const)
	return ok
}
