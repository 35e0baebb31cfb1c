package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the analysed package in SSA form.
type Program struct {
	Fset  *token.FileSet
	Pkgs  *packages.Package
	Prog  *ssa.Program
	Pkg   *ssa.Package
	Dir   string
	infos map[*ssa.Function]*fnInfo
	base  map[string]cell
}

// Load type-checks and builds the package pattern in dir.
func Load(dir, pattern string, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env, Tests: false,
	}
	pkgs, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package for %s, got %d", pattern, len(pkgs))
	}
	var errs []string
	for _, e := range pkgs[0].Errors {
		errs = append(errs, e.Error())
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the package does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	if sp[0] == nil {
		return nil, fmt.Errorf("no SSA package")
	}
	sp[0].Build()
	p := &Program{Fset: pkgs[0].Fset, Pkgs: pkgs[0], Prog: prog, Pkg: sp[0], Dir: dir, infos: map[*ssa.Function]*fnInfo{}, base: map[string]cell{}}
	p.initGlobals()
	return p, nil
}

// FnName is the display and lookup name of a function.
func FnName(fn *ssa.Function, pkg *types.Package) string {
	q := func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		return p.Name()
	}
	if recv := fn.Signature.Recv(); recv != nil {
		return "(" + types.TypeString(recv.Type(), q) + ")." + fn.Name()
	}
	if fn.Parent() != nil {
		return FnName(fn.Parent(), pkg) + "$" + fn.Name()
	}
	if fn.Pkg != nil && fn.Pkg.Pkg != pkg {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && fn.Object().Pkg() != pkg {
		return fn.Object().Pkg().Name() + "." + fn.Name()
	}
	return fn.Name()
}

// Name of an analysed function.
func (p *Program) Name(fn *ssa.Function) string { return FnName(fn, p.Pkg.Pkg) }

// Func finds a package-level function.
func (p *Program) Func(name string) *ssa.Function { return p.Pkg.Func(name) }

// Method finds a method of a named type of the package (pointer receiver set).
func (p *Program) Method(typ, name string) *ssa.Function {
	m := p.Pkg.Type(typ)
	if m == nil {
		return nil
	}
	for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
		ms := p.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			if sel.Obj().Name() == name {
				fn := p.Prog.MethodValue(sel)
				if fn != nil && fn.Synthetic == "" {
					return fn
				}
			}
		}
	}
	return nil
}

// Type finds a named type of the package.
func (p *Program) Type(name string) types.Type {
	m := p.Pkg.Type(name)
	if m == nil {
		return nil
	}
	return m.Type()
}

// AllFuncs lists the declared functions, methods and closures of the package.
func (p *Program) AllFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Synthetic != "" || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := p.Prog.MethodValue(ms.At(i))
					if f != nil && f.Pkg == p.Pkg {
						add(f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// Pos renders a source position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := strings.TrimPrefix(ps.Filename, p.Dir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ---- per-function facts -------------------------------------------------

type induction struct {
	phi     *ssa.Phi
	step    int64
	useNext bool // the guard and body use phi+step
	bound   ssa.Value
	incl    bool // bound is inclusive (i <= b)
}

type loopInfo struct {
	header int
	body   map[int]bool
	ind    *induction
	next   *ssa.Next
}

type fnInfo struct {
	loops  map[int]*loopInfo
	liveIn []map[ssa.Value]bool
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if i, ok := p.infos[fn]; ok {
		return i
	}
	fi := &fnInfo{loops: map[int]*loopInfo{}}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := fi.loops[s.Index]
				if lp == nil {
					lp = &loopInfo{header: s.Index, body: map[int]bool{s.Index: true}}
					fi.loops[s.Index] = lp
				}
				var stack []*ssa.BasicBlock
				if !lp.body[b.Index] {
					lp.body[b.Index] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, q := range x.Preds {
						if !lp.body[q.Index] {
							lp.body[q.Index] = true
							stack = append(stack, q)
						}
					}
				}
			}
		}
	}
	for _, lp := range fi.loops {
		findInduction(fn, lp)
	}
	fi.liveIn = liveness(fn)
	p.infos[fn] = fi
	return fi
}

func findInduction(fn *ssa.Function, lp *loopInfo) {
	h := fn.Blocks[lp.header]
	for bi := range lp.body {
		for _, in := range fn.Blocks[bi].Instrs {
			if n, ok := in.(*ssa.Next); ok && bi == lp.header {
				lp.next = n
			}
		}
	}
	// guard: the If that leaves the loop, in the header
	last := h.Instrs[len(h.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return
	}
	inT, inF := lp.body[h.Succs[0].Index], lp.body[h.Succs[1].Index]
	if inT == inF {
		return
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var next *ssa.BinOp
		good := true
		for i, pred := range h.Preds {
			if !lp.body[pred.Index] {
				continue
			}
			b, ok := ph.Edges[i].(*ssa.BinOp)
			if !ok || b.X != ssa.Value(ph) || next != nil && next != b {
				good = false
				break
			}
			next = b
		}
		if !good || next == nil {
			continue
		}
		c, ok := next.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			continue
		}
		if !isIntT(c.Type()) {
			continue
		}
		st := c.Int64()
		if next.Op == token.SUB {
			st = -st
		} else if next.Op != token.ADD {
			continue
		}
		if st != 1 && st != -1 {
			continue
		}
		x, y, op := cmp.X, cmp.Y, cmp.Op
		isIdx := func(v ssa.Value) bool { return v == ssa.Value(ph) || v == ssa.Value(next) }
		if isIdx(y) && !isIdx(x) {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !isIdx(x) {
			continue
		}
		if !inT { // the true branch leaves the loop
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		ind := &induction{phi: ph, step: st, useNext: x == ssa.Value(next), bound: y}
		if ind.useNext && next.Block() != h {
			continue
		}
		switch {
		case st > 0 && (op == token.LSS || op == token.NEQ):
		case st > 0 && op == token.LEQ:
			ind.incl = true
		case st < 0 && op == token.GEQ:
		case st < 0 && op == token.GTR:
			ind.incl = true // i > b  ==  i >= b+1
		default:
			continue
		}
		lp.ind = ind
		return
	}
}

func liveness(fn *ssa.Function) []map[ssa.Value]bool {
	n := len(fn.Blocks)
	in := make([]map[ssa.Value]bool, n)
	for i := range in {
		in[i] = map[ssa.Value]bool{}
	}
	changed := true
	for changed {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
				}
				for v := range in[s.Index] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					live[ph.Edges[pi]] = true
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				ins := b.Instrs[i]
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !in[bi][v] {
					in[bi][v] = true
					changed = true
				}
			}
		}
	}
	return in
}

// initGlobals analyses the package initialiser once, so that package-level
// tables that are never written again are known constants.
func (p *Program) initGlobals() {
	init := p.Pkg.Func("init")
	if init == nil {
		return
	}
	written := map[string]bool{}
	for _, f := range p.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(st.Addr); g != nil {
						written[g.Name()] = true
					}
				}
			}
		}
	}
	a := p.NewAnalysis()
	st := a.NewState()
	// package variables start at zero
	for _, m := range p.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok && g.Name() == "init$guard" {
			st.Store(globalLoc(g), Bool(false))
		}
	}
	rets := a.Run(st, init, nil)
	if len(rets) != 1 || rets[0].Panic != "" {
		return
	}
	for k, c := range rets[0].St.heap {
		rt := c.L.root().S
		if strings.HasPrefix(rt, "G:") {
			if written[rt[2:]] {
				continue
			}
		}
		p.base[k] = c
	}
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
				continue
			}
			return nil
		default:
			return nil
		}
	}
}
