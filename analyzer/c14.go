package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// C14: results do not depend on the order in which a map is iterated over.
//
// Every function which iterates over a map is analysed once per order of
// visits, for maps of up to three arbitrary entries. Two paths of different
// orders which can be taken for the same inputs have to give the same results
// and leave the same memory. A function for which they do not (such as one
// listing the keys of a map) passes the question on to its callers, analysed
// with it inlined; what is still there three calls up, or in a function nobody
// in the package calls, is an order dependence.

func checkC14(c *C) {
	d := &determinism{c: c, callers: map[*ssa.Function][]*ssa.Function{}, calls: map[*ssa.Function]map[*ssa.Function]bool{}, state: map[*ssa.Function]string{}, why: map[*ssa.Function]string{}, open: map[*ssa.Function]bool{}, stale: map[*ssa.Function]bool{}}
	d.graph()
	d.orders()
	d.sources()
	c.Want("order of visits", 10)
	c.Want("sources", 100)
}

type determinism struct {
	c       *C
	callers map[*ssa.Function][]*ssa.Function
	calls   map[*ssa.Function]map[*ssa.Function]bool
	state   map[*ssa.Function]string // "fixed" or "depends"
	why     map[*ssa.Function]string
	open    map[*ssa.Function]bool // being decided, taken for fixed meanwhile
	stale   map[*ssa.Function]bool // to be decided again
	quiet   bool
	steps   int
}

// outer is the declared function a closure belongs to.
func outer(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// graph collects who calls whom within the package, also through interfaces.
func (d *determinism) graph() {
	methods := map[string][]*ssa.Function{}
	for _, f := range d.c.P.AllFuncs() {
		if f.Signature.Recv() != nil {
			methods[f.Name()] = append(methods[f.Name()], f)
		}
	}
	add := func(f, g *ssa.Function) {
		f, g = outer(f), outer(g)
		if d.calls[f] == nil {
			d.calls[f] = map[*ssa.Function]bool{}
		}
		if f != g && !d.calls[f][g] {
			d.calls[f][g] = true
			d.callers[g] = append(d.callers[g], f)
		}
	}
	for _, f := range d.c.P.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var rands [8]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg == d.c.P.Pkg {
						add(f, g)
					}
				}
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().IsInvoke() {
					m := call.Common().Method
					for _, g := range methods[m.Name()] {
						if it, ok := call.Common().Value.Type().Underlying().(*types.Interface); ok && types.Implements(g.Signature.Recv().Type(), it) {
							add(f, g)
						}
					}
				}
			}
		}
	}
}

func mapRanges(f *ssa.Function) []*ssa.Range {
	var out []*ssa.Range
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Range); ok {
				if _, ok := r.X.Type().Underlying().(*types.Map); ok {
					out = append(out, r)
				}
			}
		}
	}
	for _, g := range f.AnonFuncs {
		out = append(out, mapRanges(g)...)
	}
	return out
}

func (d *determinism) orders() {
	var fns []*ssa.Function
	for _, f := range d.c.P.AllFuncs() {
		if f.Parent() == nil && f.Synthetic == "" && len(mapRanges(f)) > 0 {
			fns = append(fns, f)
		}
	}
	// functions others are made of first
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	look := func() {
		for _, f := range fns {
			for _, r := range mapRanges(f) {
				d.observed(f, f, r.Pos(), 0, map[*ssa.Function]bool{})
			}
		}
	}
	d.quiet = true
	for _, f := range fns {
		d.decide(f)
	}
	for n := -1; n != len(d.why); {
		n = len(d.why)
		look()
	}
	d.quiet = false
	look()
}

// observed follows an order dependence to where it can be seen.
func (d *determinism) observed(f, site *ssa.Function, pos token.Pos, up int, seen map[*ssa.Function]bool) {
	if seen[f] {
		return
	}
	seen[f] = true
	name := d.c.P.Name(site)
	if d.decide(f) == "fixed" {
		if !d.quiet {
			d.c.OK("order of visits")
		}
		return
	}
	if len(d.callers[f]) == 0 || up == 3 {
		if d.quiet {
			return
		}
		d.c.Fail("order of visits", name, pos, "what %s gives depends on the order in which the map is iterated over: %s", d.c.P.Name(f), d.why[f])
		return
	}
	for _, g := range d.callers[f] {
		d.observed(g, site, pos, up+1, seen)
	}
}

// permutations are the orders compared with the first one. The entries are
// arbitrary, so exchanging neighbours stands for every order.
var permutations = map[int][][]int{
	2: {{0, 1}, {1, 0}},
	3: {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}},
}

func (d *determinism) reaches(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(x *ssa.Function) bool
	visit = func(x *ssa.Function) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		for y := range d.calls[x] {
			if y == g || visit(y) {
				return true
			}
		}
		return false
	}
	return visit(f)
}

// decide tells whether the results of f are the same for every order.
func (d *determinism) decide(f *ssa.Function) string {
	if s := d.state[f]; s != "" {
		return s
	}
	d.state[f] = "fixed"
	why := ""
	if d.steps > 8000000 {
		d.state[f], d.why[f] = "depends", "no answer within the bounds of the analysis"
		return d.state[f]
	}
	d.open[f] = true
	defer delete(d.open, f)
	for again := true; again; {
		delete(d.stale, f)
		for detail := 0; detail < 2; detail++ {
			if why = d.compare(f, detail); why == "" {
				break
			}
		}
		again = d.stale[f] && why == ""
	}
	if why == "" {
		return d.state[f]
	}
	d.state[f], d.why[f] = "depends", why
	// what took this function for fixed is decided again
	for g, s := range d.state {
		if s == "fixed" && d.reaches(g, f) {
			if d.open[g] {
				d.stale[g] = true
			} else {
				delete(d.state, g)
			}
		}
	}
	return d.state[f]
}

type outcome struct {
	absint.Ret
	known map[string]string
	text  string
}

func withFacts(f *ssa.Function, rets []absint.Ret) []outcome {
	var out []outcome
	for _, r := range rets {
		text := "panics"
		if r.Panic == "" {
			text = outcomeText(f, r.St, r.Vals)
		}
		out = append(out, outcome{r, r.St.FactMap(), text})
	}
	return out
}

// pairs visits the pairs of paths whose facts do not contradict each other.
func pairs(xs, ys []outcome, done map[string]bool, f func(x, y outcome) bool) bool {
	if len(xs) == 0 || len(ys) == 0 {
		return true
	}
	best, most := "", 0
	if len(xs) > 1 || len(ys) > 1 {
		n, m := map[string]int{}, map[string]int{}
		for _, x := range xs {
			for k := range x.known {
				n[k]++
			}
		}
		for _, y := range ys {
			for k := range y.known {
				m[k]++
			}
		}
		for k, i := range n {
			if v := i * m[k]; !done[k] && m[k] > 0 && (v > most || v == most && k < best) {
				best, most = k, v
			}
		}
	}
	if best == "" {
		for _, x := range xs {
			for _, y := range ys {
				if x.text != y.text && !f(x, y) {
					return false
				}
			}
		}
		return true
	}
	done[best] = true
	defer delete(done, best)
	split := func(os []outcome) (map[string][]outcome, []outcome) {
		by, rest := map[string][]outcome{}, []outcome(nil)
		for _, o := range os {
			if v, ok := o.known[best]; ok {
				by[v] = append(by[v], o)
			} else {
				rest = append(rest, o)
			}
		}
		return by, rest
	}
	bx, rx := split(xs)
	by, ry := split(ys)
	var vals []string
	for v := range bx {
		vals = append(vals, v)
	}
	sort.Strings(vals)
	for _, v := range vals {
		if !pairs(bx[v], by[v], done, f) || !pairs(bx[v], ry, done, f) {
			return false
		}
	}
	return pairs(rx, ys, done, f)
}

func (d *determinism) compare(f *ssa.Function, detail int) string {
	for n := 2; n <= 3; n++ {
		var base []outcome
		for i, order := range permutations[n] {
			rets, open := d.run(f, n, order, detail)
			if open != "" {
				return open
			}
			if i == 0 {
				base = withFacts(f, rets)
				continue
			}
			why := ""
			pairs(base, withFacts(f, rets), map[string]bool{}, func(x, y outcome) bool {
				why = d.differ(f, x.Ret, y.Ret)
				return why == ""
			})
			if why != "" {
				return fmt.Sprintf("with %d entries visited in the orders %v and %v %s", n, permutations[n][0], order, why)
			}
		}
	}
	return ""
}

func (d *determinism) run(f *ssa.Function, n int, order []int, detail int) ([]absint.Ret, string) {
	c := d.c
	a := c.P.NewAnalysis()
	a.Unroll, a.Recurse, a.SortAny, a.MapEntries, a.Order, a.MaxSteps = 2, 4, true, n, order, 600000
	st := a.NewState()
	a.Models["deepcopy.Copy"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		src := unbox(args[1])
		sv := st.Resolve(st.Load(absint.LocOf(src)))
		if ks, ok := st.MapKeys(sv); ok {
			var vs []absint.Val
			for _, k := range ks {
				vs = append(vs, absint.MapGet(sv, k))
			}
			st.Store(absint.LocOf(src), st.NewMap("entries of "+sv.K(), sv.Typ(), ks, vs))
		}
		dst := absint.LocOf(unbox(args[0]))
		if _, ok := st.Resolve(st.Load(dst)).(*absint.Term); ok { // what was there before stays in every order
			st.Store(dst, absint.Nil(sv.Typ()))
		}
		return copyMap(a, st, args, call)
	}
	a.Models["json.Unmarshal"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		err := absint.NewTerm("json.Unmarshal#err", absint.ErrorT, args[0])
		p, ok := unbox(args[1]).(*absint.Ptr)
		if !ok {
			return nil
		}
		bad := st.Clone()
		var out []absint.Ret
		if st.Assume(absint.Eq(err, absint.Nil(absint.ErrorT)), true) {
			st.Store(p.L, absint.NewTerm("json.Unmarshal", p.L.T, args[0]))
			out = append(out, absint.Ret{St: st, Vals: []absint.Val{absint.Nil(absint.ErrorT)}})
		}
		if bad.Assume(absint.Eq(err, absint.Nil(absint.ErrorT)), false) {
			out = append(out, absint.Ret{St: bad, Vals: []absint.Val{err}})
		}
		return out
	}
	a.Models["json.Marshal"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		x := absint.Str(deepText(st, args[0], 0))
		return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("json.Marshal", bytesT, x), absint.NewTerm("json.Marshal#err", absint.ErrorT, x)}}}
	}
	contains := func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		l, ok := a.ToList(st, args[0])
		if !ok || l.Base != nil {
			return nil
		}
		var out []absint.Ret
		for _, e := range l.Elems {
			s := st.Clone()
			if s.Assume(absint.Eq(st.Resolve(e), args[1]), true) {
				out = append(out, absint.Ret{St: s, Vals: []absint.Val{absint.Bool(true)}})
			}
			if !st.Assume(absint.Eq(st.Resolve(e), args[1]), false) {
				return out
			}
		}
		return append(out, absint.Ret{St: st, Vals: []absint.Val{absint.Bool(false)}})
	}
	a.Models["slice.ContainsString"], a.Models["slices.Contains"] = contains, contains
	inside := map[*ssa.Function]bool{}
	a.ModelOf = func(g *ssa.Function) absint.Model {
		if g.Pkg != c.P.Pkg || g.Parent() != nil {
			return nil
		}
		if g != f && !d.opaque(g, detail) {
			if d.reaches(g, g) { // followed once
				return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
					if inside[g] {
						return d.standsForItself(st, g, args)
					}
					inside[g] = true
					defer delete(inside, g)
					return a.Inline(st, g, args, call, "once")
				}
			}
			if detail > 0 && verdict(g) && !inside[g] && d.decide(g) == "fixed" {
				return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
					inside[g] = true
					defer delete(inside, g)
					return d.summary(a, st, g, args, call)
				}
			}
			return nil
		}
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			return d.standsForItself(st, g, args)
		}
	}
	var args []absint.Val
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			args = append(args, absint.SymPtr(p.Name(), p.Type()))
		} else {
			args = append(args, absint.Param(p.Name(), p.Type()))
		}
	}
	rets := a.Run(st, f, args)
	d.steps += a.Steps
	open := ""
	for u := range a.Undecided {
		if open == "" || u < open {
			open = u
		}
	}
	if open != "" {
		return nil, "the analysis met a construct it does not model: " + open
	}
	c.absorb(a, c.P.Name(f)+" for every order of visits", f.Pos(), rets)
	return rets, ""
}

func (d *determinism) standsForItself(st *absint.State, g *ssa.Function, args []absint.Val) []absint.Ret {
	var in []absint.Val
	for _, x := range args {
		in = append(in, absint.Str(deepText(st, x, 0)))
	}
	return []absint.Ret{{St: st, Vals: absint.OpaqueResults(d.c.P.Name(g), g.Signature, in)}}
}

// verdict: a function that only tells yes or no, error or none.
func verdict(g *ssa.Function) bool {
	rs := g.Signature.Results()
	return rs.Len() == 1 && (types.Identical(rs.At(0).Type(), absint.BoolT) || types.Identical(rs.At(0).Type(), absint.ErrorT))
}

// summary follows a function that tests its arguments and keeps apart the
// ways to the rarer of its two answers only.
func (d *determinism) summary(a *absint.Analysis, st *absint.State, g *ssa.Function, args []absint.Val, call *absint.Call) []absint.Ret {
	before := st.Clone()
	var in []absint.Val
	for _, x := range args {
		in = append(in, absint.Str(deepText(st, x, 0)))
	}
	p := absint.OpaqueResults(d.c.P.Name(g), g.Signature, in)[0]
	atom := p
	isErr := types.Identical(p.Typ(), absint.ErrorT)
	if isErr {
		atom = absint.Eq(p, absint.Nil(absint.ErrorT))
	}
	by := map[bool][]absint.Ret{}
	var out []absint.Ret
	for _, r := range a.Inline(st, g, args, call, "test") {
		if r.Panic != "" {
			out = append(out, r)
			continue
		}
		v := r.St.Resolve(r.Vals[0])
		for _, yes := range []bool{true, false} {
			s := r.St.Clone()
			got := absint.Val(v)
			if isErr {
				got = absint.Eq(v, absint.Nil(absint.ErrorT))
			}
			if s.Assume(got, yes) && s.Assume(atom, yes) {
				by[yes] = append(by[yes], absint.Ret{St: s})
			}
		}
	}
	for _, yes := range []bool{true, false} {
		val := p
		if !isErr {
			val = absint.Bool(yes)
		} else if yes {
			val = absint.Nil(absint.ErrorT)
		}
		if n, m := len(by[yes]), len(by[!yes]); n > 16 && (n > m || n == m && yes) {
			s := before.Clone()
			if s.Assume(atom, yes) {
				out = append(out, absint.Ret{St: s, Vals: []absint.Val{val}})
			}
			continue
		}
		for _, r := range by[yes] {
			out = append(out, absint.Ret{St: r.St, Vals: []absint.Val{val}})
		}
	}
	return out
}

// opaque: functions which give the same results for the same arguments and
// write to nothing they are given, so that a call stands for itself.
func (d *determinism) opaque(g *ssa.Function, detail int) bool {
	if plain(g) && !d.iterates(g) || absint.SigIs(g, []string{"*Condition"}, []string{"bool", "error"}) {
		return true
	}
	for _, p := range g.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			return false
		}
	}
	if len(g.Params) == 0 || g.Signature.Results().Len() == 0 {
		return false
	}
	// tests made of the arguments and conversions are looked into where they matter
	switch g.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Map, *types.Slice:
		if detail > 0 {
			return false
		}
	}
	if detail > 0 && verdict(g) {
		return false
	}
	return d.iterates(g) && d.decide(g) == "fixed"
}

// iterates tells whether a map is iterated over below f.
func (d *determinism) iterates(f *ssa.Function) bool {
	for _, g := range d.c.P.AllFuncs() {
		if g.Parent() == nil && len(mapRanges(g)) > 0 && (f == g || d.reaches(f, g)) {
			return true
		}
	}
	return false
}

func (d *determinism) differ(f *ssa.Function, x, y absint.Ret) string {
	sx, ok := x.St.Meet(y.St)
	if !ok {
		return ""
	}
	sy, ok := y.St.Meet(x.St)
	if !ok {
		return ""
	}
	if (x.Panic == "") != (y.Panic == "") {
		return fmt.Sprintf("it panics for one of them only (%s%s)", x.Panic, y.Panic)
	}
	if x.Panic != "" {
		return ""
	}
	p, q := outcomeText(f, sx, x.Vals), outcomeText(f, sy, y.Vals)
	if p == q {
		return ""
	}
	i := 0
	for i < len(p) && i < len(q) && p[i] == q[i] {
		i++
	}
	if i > 60 {
		p, q = "…"+p[i-60:], "…"+q[i-60:]
	}
	return fmt.Sprintf("it gives %s and %s (%s)", cut(p, 300), cut(q, 300), cut(facts(sx), 500))
}

// outcomeText writes down the results of a call and the memory it leaves.
func outcomeText(f *ssa.Function, st *absint.State, vals []absint.Val) string {
	var b strings.Builder
	for i, v := range vals {
		if types.Identical(f.Signature.Results().At(i).Type(), absint.ErrorT) {
			v = st.Resolve(v)
			isNil, known := st.Decide(absint.Eq(v, absint.Nil(absint.ErrorT)))
			switch {
			case known && isNil:
				b.WriteString("no error; ")
			case known:
				b.WriteString("an error; ")
			default:
				b.WriteString("error " + v.K() + "; ")
			}
			continue
		}
		b.WriteString(deepText(st, v, 0) + "; ")
	}
	var cells []string
	for _, x := range st.Changed() {
		cells = append(cells, x.Loc().S+" = "+deepText(st, x.Val(), 0))
	}
	sort.Strings(cells)
	return b.String() + strings.Join(cells, "; ")
}

func deepText(st *absint.State, v absint.Val, depth int) string {
	v = st.Resolve(v)
	if depth > 8 {
		return v.K()
	}
	switch v := v.(type) {
	case *absint.IfaceV:
		return absint.TypeName(v.X.Typ()) + "(" + deepText(st, v.X, depth+1) + ")"
	case *absint.Ptr:
		if !v.L.Root().Zero {
			return v.K()
		}
		return "&" + memoryText(st, v.L, depth+1)
	case *absint.StructV:
		s, ok := v.T.Underlying().(*types.Struct)
		if !ok {
			return v.K()
		}
		var out []string
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, s.Field(i).Name()+": "+deepText(st, absint.FieldOf(v, s.Field(i).Name(), s.Field(i).Type()), depth+1))
		}
		return "{" + strings.Join(out, ", ") + "}"
	case *absint.ListV, *absint.SliceV:
		l, ok := st.A.ToList(st, v)
		if sv, is := v.(*absint.SliceV); !ok && is && sv.Root.Zero {
			return madeText(st, sv, depth)
		}
		if !ok {
			return v.K()
		}
		var out []string
		if l.Base != nil {
			out = append(out, l.Base.K()+"...")
		}
		for _, e := range l.Elems {
			out = append(out, deepText(st, e, depth+1))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case *absint.MapV:
		ks, vs, ok := st.Entries(v)
		if !ok {
			return v.K()
		}
		var out []string
		for i, k := range ks {
			out = append(out, sameAs(st, k)+": "+deepText(st, vs[i], depth+1))
		}
		sort.Strings(out)
		return "map{" + strings.Join(out, ", ") + "}"
	}
	return v.K()
}

// madeText is a new slice of open length: what is stored in it, wherever it was made.
func madeText(st *absint.State, v *absint.SliceV, depth int) string {
	var out []string
	for _, x := range st.Stored() {
		if at := x.Loc().S; strings.HasPrefix(at, v.Root.S+"[") || strings.HasPrefix(at, v.Root.S+".") {
			out = append(out, strings.TrimPrefix(at, v.Root.S)+" = "+deepText(st, x.Val(), depth+1))
		}
	}
	return strings.ReplaceAll(v.K(), v.Root.S, "new") + "{" + strings.Join(out, ", ") + "}"
}

func memoryText(st *absint.State, l *absint.Loc, depth int) string {
	s, ok := l.T.Underlying().(*types.Struct)
	if !ok || depth > 8 {
		return deepText(st, st.Load(l), depth)
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, s.Field(i).Name()+": "+memoryText(st, l.Field(s.Field(i).Name()), depth+1))
	}
	return "{" + strings.Join(out, ", ") + "}"
}

// sameAs is one name for all keys known to be equal.
func sameAs(st *absint.State, k absint.Val) string {
	best := st.Resolve(k).K()
	for _, t := range st.Atoms() {
		if t.Op != "eq" {
			continue
		}
		if v, known := st.Decide(t); !known || !v {
			continue
		}
		x, y := t.Args[0].K(), t.Args[1].K()
		if x == k.K() && y < best {
			best = y
		}
		if y == k.K() && x < best {
			best = x
		}
	}
	return best
}

// fickle are calls whose results differ from one call to the next.
func fickle(fn *types.Func) bool {
	if fn == nil || fn.Pkg() == nil {
		return false
	}
	n := fn.Name()
	switch fn.Pkg().Path() {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return true
	case "time":
		return n == "Now" || n == "Since" || n == "Until"
	case "os":
		return n == "Getenv" || n == "LookupEnv" || n == "Environ" || n == "Getpid" || n == "Hostname" || n == "Getwd"
	case "reflect":
		return n == "MapRange" || n == "MapKeys" || n == "Select"
	case "maps":
		return n == "Keys" || n == "Values" || n == "All"
	case "runtime":
		return n == "NumGoroutine" || n == "Stack" || n == "ReadMemStats"
	}
	return false
}

// live lists the blocks that can be reached.
func live(f *ssa.Function) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if b == nil || out[b] {
			return
		}
		out[b] = true
		succs := b.Succs
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if k, ok := i.Cond.(*ssa.Const); ok && k.Value != nil {
				if constant.BoolVal(k.Value) {
					succs = succs[:1]
				} else {
					succs = succs[1:]
				}
			}
		}
		for _, s := range succs {
			visit(s)
		}
	}
	visit(f.Blocks[0])
	visit(f.Recover)
	return out
}

// sources looks for values that differ from call to call and for work whose
// order is left to the scheduler.
func (d *determinism) sources() {
	c := d.c
	for _, f := range c.P.AllFuncs() {
		if len(f.Blocks) == 0 {
			continue
		}
		alive := live(f)
		for _, b := range f.Blocks {
			if !alive[b] {
				continue
			}
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					if w := d.shared(in); w != "" {
						c.Fail("schedules", c.P.Name(f), in.Pos(), "work started concurrently %s", w)
					} else {
						c.OK("schedules")
					}
				case *ssa.Select:
					if len(in.States) > 1 {
						c.Fail("schedules", c.P.Name(f), in.Pos(), "the case taken by a select is left to the scheduler")
					}
				case ssa.CallInstruction:
					fn, _ := in.Common().Value.(*ssa.Function)
					var obj *types.Func
					if in.Common().IsInvoke() {
						obj = in.Common().Method
					} else if fn != nil {
						if fn.Origin() != nil {
							fn = fn.Origin()
						}
						obj, _ = fn.Object().(*types.Func)
					}
					c.OK("sources")
					if !fickle(obj) {
						continue
					}
					if v, ok := in.(*ssa.Call); ok {
						if u := usedFor(v, map[ssa.Value]bool{}); u != "" {
							c.Fail("sources", c.P.Name(f), in.Pos(), "the result of %s, which differs from call to call, is used for %s", obj.FullName(), u)
						}
					}
				}
			}
		}
	}
}

// usedFor tells what a value is used for other than messages to the operator.
func usedFor(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] || v.Referrers() == nil {
		return ""
	}
	seen[v] = true
	for _, in := range *v.Referrers() {
		u := ""
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Call, *ssa.Defer:
			obj := in.(ssa.CallInstruction).Common().StaticCallee()
			pkg := ""
			if obj != nil && obj.Pkg != nil {
				pkg = obj.Pkg.Pkg.Path()
			}
			switch {
			case pkg == "log" || pkg == "fmt" && strings.HasPrefix(obj.Name(), "Print"):
			case pkg == "time":
				if r, ok := in.(ssa.Value); ok {
					u = usedFor(r, seen)
				}
			default:
				u = in.String()
			}
		case *ssa.Store: // the operand list of a call
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
					u = usedFor(al, seen)
					break
				}
			}
			if al, ok := in.Addr.(*ssa.Alloc); ok && in.Val == v {
				u = usedFor(al, seen)
				break
			}
			if in.Val == v {
				u = "a store"
			}
		case *ssa.IndexAddr:
		case *ssa.MakeClosure:
			for i, b := range in.Bindings {
				if fn := in.Fn.(*ssa.Function); b == v && u == "" {
					u = usedFor(fn.FreeVars[i], seen)
				}
			}
		case ssa.Value:
			u = usedFor(in, seen)
		default:
			u = in.String()
		}
		if u != "" {
			return u
		}
	}
	return ""
}

// shared tells whether concurrent work writes to what others read or write.
func (d *determinism) shared(g *ssa.Go) string {
	var start *ssa.Function
	switch v := g.Call.Value.(type) {
	case *ssa.Function:
		start = v
	case *ssa.MakeClosure:
		start = v.Fn.(*ssa.Function)
	default:
		return "is not known statically"
	}
	own := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() == d.c.P.Pkg.Pkg
	}
	var todo []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Pkg == d.c.P.Pkg {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	add(start)
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					if _, local := a.X.(*ssa.Alloc); !local && own(a.X.Type()) {
						return fmt.Sprintf("writes to the field %s of a shared %s in %s", absint.FieldName(a.X.Type(), a.Field), absint.ShortType(a.X.Type()), d.c.P.Name(f))
					}
				case *ssa.FreeVar:
					return fmt.Sprintf("writes to the captured variable %s", a.Name())
				case *ssa.Global:
					return fmt.Sprintf("writes to the package variable %s", a.Name())
				}
			}
		}
		for h := range d.calls[outer(f)] {
			add(h)
		}
		for _, h := range f.AnonFuncs {
			add(h)
		}
	}
	return ""
}
