package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// effects is an inclusion-based memory effect analysis: for every value it
// computes the set of objects it may point into, and for every instruction
// the objects it may write. Objects are the memory an argument starts from
// ("message"), everything reachable from it ("message*"), package variables
// and allocation sites. Functions are analysed per call chain of up to depth
// calls, so that a helper used on private and on shared memory is not mixed
// up.
type effects struct {
	c     *C
	dead  map[*ssa.BasicBlock]bool
	stop  func(*ssa.Function) bool // callees not followed (none by default)
	depth int

	vals   map[effKey]objs
	heap   map[string]objs
	res    map[string][]objs
	inst   map[string]*effInst
	order  []string
	bound  map[*ssa.Function]map[int]objs // free variables
	writes map[string]*effWrite
	sites  map[ssa.Instruction]bool
	grown  bool
	reach  map[string]map[string]bool
}

type effKey struct {
	ctx string
	v   ssa.Value
}

type effInst struct {
	fn  *ssa.Function
	ctx string
	ins []ssa.Instruction // call chain
}

// effWrite is one instruction that may write an object.
type effWrite struct {
	obj   string
	how   string
	field string // field of the object itself that is written, if known
	in    ssa.Instruction
	fn    *ssa.Function
}

type objs map[string]bool

func newEffects(c *C) *effects {
	return &effects{c: c, depth: 4, vals: map[effKey]objs{}, heap: map[string]objs{}, res: map[string][]objs{}, inst: map[string]*effInst{}, bound: map[*ssa.Function]map[int]objs{}, writes: map[string]*effWrite{}, dead: map[*ssa.BasicBlock]bool{}, sites: map[ssa.Instruction]bool{}, reach: map[string]map[string]bool{}}
}

func (e *effects) add(dst objs, src objs) bool {
	ch := false
	for o := range src {
		if !dst[o] {
			dst[o] = true
			ch = true
		}
	}
	if ch {
		e.grown = true
	}
	return ch
}

func (e *effects) at(ctx string, v ssa.Value) objs {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return objs{"global " + globalName(x, e.c): true}
	case *ssa.Function:
		return objs{funcObj(x): true}
	}
	k := effKey{ctx, v}
	s := e.vals[k]
	if s == nil {
		s = objs{}
		e.vals[k] = s
	}
	return s
}

func globalName(g *ssa.Global, c *C) string {
	if g.Pkg != nil && g.Pkg != c.P.Pkg {
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	return g.Name()
}

func funcObj(f *ssa.Function) string { return "func " + f.RelString(nil) }

func (e *effects) flow(ctx string, v ssa.Value, src objs) {
	if len(src) == 0 || !mayPoint(v.Type()) {
		return
	}
	dst := e.at(ctx, v)
	for o := range src {
		if !dst[o] && e.fits(o, v.Type()) {
			dst[o] = true
			e.grown = true
		}
	}
}

// fits tells whether memory reachable from a package variable can hold what a
// pointer of the given type points to.
func (e *effects) fits(o string, t types.Type) bool {
	if !strings.HasPrefix(o, "global ") {
		return true
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return true
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return true
	}
	g, ok := e.c.P.Pkg.Members[strings.TrimPrefix(o, "global ")].(*ssa.Global)
	if !ok {
		return true
	}
	set, ok := e.reach[o]
	if !ok {
		set = map[string]bool{}
		reachTypes(g.Type(), set)
		e.reach[o] = set
	}
	return set["?"] || set[n.String()]
}

// reachTypes collects the types of all memory reachable from a type; "?" is anything.
func reachTypes(t types.Type, out map[string]bool) {
	k := t.String()
	if out[k] {
		return
	}
	out[k] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		reachTypes(u.Elem(), out)
	case *types.Slice:
		reachTypes(u.Elem(), out)
	case *types.Array:
		reachTypes(u.Elem(), out)
	case *types.Map:
		reachTypes(u.Key(), out)
		reachTypes(u.Elem(), out)
	case *types.Chan:
		reachTypes(u.Elem(), out)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			reachTypes(u.Field(i).Type(), out)
		}
	case *types.Interface, *types.Signature:
		out["?"] = true
	}
}

// mayPoint tells whether values of a type can refer to mutable memory.
func mayPoint(t types.Type) bool { return mayPoint1(t, 0) }

func mayPoint1(t types.Type, d int) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		if d > 4 {
			return true
		}
		for i := 0; i < u.NumFields(); i++ {
			if mayPoint1(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return mayPoint1(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if mayPoint1(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// isRoot tells whether an object stands for memory that exists before the analysed call.
func isRoot(o string) bool { return !strings.HasPrefix(o, "new ") && !strings.HasPrefix(o, "func ") }

func star(o string) string {
	if strings.HasSuffix(o, "*") || strings.HasPrefix(o, "global ") {
		return o
	}
	return o + "*"
}

func (e *effects) contents(src objs) objs {
	out := objs{}
	for o := range src {
		if isRoot(o) {
			out[star(o)] = true
		}
		for x := range e.heap[o] {
			out[x] = true
		}
	}
	return out
}

func (e *effects) put(dst objs, src objs) {
	if len(src) == 0 {
		return
	}
	for o := range dst {
		h := e.heap[o]
		if h == nil {
			h = objs{}
			e.heap[o] = h
		}
		e.add(h, src)
	}
}

func (e *effects) write(in ssa.Instruction, fn *ssa.Function, to objs, how, field string) {
	for o := range to {
		if !isRoot(o) {
			continue
		}
		k := fmt.Sprintf("%s|%s|%p", o, field, in)
		if e.writes[k] == nil {
			e.writes[k] = &effWrite{o, how, field, in, fn}
			e.grown = true
		}
	}
}

// root adds a function to be analysed with given objects for its parameters.
func (e *effects) root(fn *ssa.Function, params []objs) {
	ctx := fn.RelString(nil)
	e.enter(fn, ctx, nil)
	for i, p := range fn.Params {
		if i < len(params) {
			e.flow(ctx, p, params[i])
		}
	}
}

func (e *effects) enter(fn *ssa.Function, ctx string, chain []ssa.Instruction) {
	k := ctx + "#" + fn.RelString(nil)
	if e.inst[k] == nil {
		e.inst[k] = &effInst{fn, ctx, chain}
		e.order = append(e.order, k)
		e.grown = true
	}
}

// solve iterates to the fixpoint.
func (e *effects) solve() {
	for round := 0; ; round++ {
		e.grown = false
		for i := 0; i < len(e.order); i++ {
			e.pass(e.inst[e.order[i]])
		}
		if !e.grown {
			break
		}
		if round > 200 {
			e.c.Fail("decided", "effect analysis", token.NoPos, "no fixpoint after %d rounds", round)
			return
		}
	}
	for _, k := range e.order {
		e.c.Funcs[absint.FnName(e.inst[k].fn, e.c.P.Pkg.Pkg)] = true
	}
	e.c.Calls += len(e.sites)
}

func (e *effects) site(i *effInst, v ssa.Value) string {
	return "new " + i.ctx + "#" + i.fn.Name() + ":" + v.Name()
}

func (e *effects) pass(i *effInst) {
	ctx := i.ctx
	for _, b := range i.fn.Blocks {
		if e.dead[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
				v := in.(ssa.Value)
				e.flow(ctx, v, objs{e.site(i, v): true})
			case *ssa.FieldAddr:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.IndexAddr:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.Field:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.Index:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL, token.ARROW:
					e.flow(ctx, x, e.contents(e.at(ctx, x.X)))
				}
			case *ssa.Store:
				to := e.at(ctx, x.Addr)
				e.put(to, e.at(ctx, x.Val))
				e.write(in, i.fn, to, "assignment", storeField(x.Addr))
			case *ssa.MapUpdate:
				to := e.at(ctx, x.Map)
				e.put(to, e.at(ctx, x.Key))
				e.put(to, e.at(ctx, x.Value))
				e.write(in, i.fn, to, "map assignment", "")
			case *ssa.Send:
				e.put(e.at(ctx, x.Chan), e.at(ctx, x.X))
			case *ssa.Lookup:
				e.flow(ctx, x, e.contents(e.at(ctx, x.X)))
			case *ssa.Range:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.Next:
				e.flow(ctx, x, e.contents(e.at(ctx, x.Iter)))
			case *ssa.Extract:
				e.flow(ctx, x, e.at(ctx, x.Tuple))
			case *ssa.Phi:
				for k, ed := range x.Edges {
					if !e.dead[b.Preds[k]] {
						e.flow(ctx, x, e.at(ctx, ed))
					}
				}
			case *ssa.Select:
				for _, s := range x.States {
					e.flow(ctx, x, e.contents(e.at(ctx, s.Chan)))
				}
			case *ssa.MakeInterface:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.ChangeInterface:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.ChangeType:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.Convert:
				if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
					e.flow(ctx, x, objs{e.site(i, x): true})
				} else {
					e.flow(ctx, x, e.at(ctx, x.X))
				}
			case *ssa.MultiConvert:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.SliceToArrayPointer:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.Slice:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.TypeAssert:
				e.flow(ctx, x, e.at(ctx, x.X))
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				m := e.bound[fn]
				if m == nil {
					m = map[int]objs{}
					e.bound[fn] = m
				}
				for k, bnd := range x.Bindings {
					if m[k] == nil {
						m[k] = objs{}
					}
					e.add(m[k], e.at(ctx, bnd))
				}
				e.flow(ctx, x, objs{funcObj(fn): true})
			case *ssa.Call:
				e.call(i, in, &x.Call, x)
			case *ssa.Go:
				e.call(i, in, &x.Call, nil)
			case *ssa.Defer:
				e.call(i, in, &x.Call, nil)
			case *ssa.Return:
				k := ctx + "#" + i.fn.RelString(nil)
				rs := e.res[k]
				if rs == nil {
					rs = make([]objs, len(x.Results))
					for j := range rs {
						rs[j] = objs{}
					}
					e.res[k] = rs
				}
				for j, r := range x.Results {
					e.add(rs[j], e.at(ctx, r))
				}
			}
		}
	}
}

// storeField is the field of the object itself an address denotes.
func storeField(a ssa.Value) string {
	path := ""
	for {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			return path
		}
		if path != "" {
			path = "." + path
		}
		path = absint.FieldName(fa.X.Type(), fa.Field) + path
		a = fa.X
	}
}

func (e *effects) call(i *effInst, in ssa.Instruction, c *ssa.CallCommon, val ssa.Value) {
	e.sites[in] = true
	ctx := i.ctx
	args := make([]objs, len(c.Args))
	for k, a := range c.Args {
		args[k] = e.at(ctx, a)
	}
	out := func(src objs) {
		if val != nil {
			e.flow(ctx, val, src)
		}
	}
	if c.IsInvoke() {
		recv := e.at(ctx, c.Value)
		impls := e.c.implementers(c.Value.Type(), c.Method.Name())
		for _, fn := range impls {
			e.follow(i, in, fn, append([]objs{recv}, args...), out)
		}
		if len(impls) == 0 {
			e.external(i, in, c.Value.Type().String()+"."+c.Method.Name(), append([]objs{recv}, args...), c, val, out)
		}
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			res := objs{}
			for o := range args[0] {
				res[o] = true
			}
			if val != nil {
				res[e.site(i, val)] = true
			}
			if len(args) > 1 {
				e.put(res, e.contents(args[1]))
				if !capped(c.Args[0]) {
					e.write(in, i.fn, args[0], "append", "")
				}
			}
			out(res)
		case "copy":
			e.put(args[0], e.contents(args[1]))
			e.write(in, i.fn, args[0], "copy", "")
		case "delete", "clear":
			e.write(in, i.fn, args[0], b.Name(), "")
		case "recover", "len", "cap", "print", "println", "panic", "close", "min", "max", "ssa:wrapnilchk":
			if b.Name() == "ssa:wrapnilchk" {
				out(args[0])
			}
		}
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		e.follow(i, in, fn, args, out)
		return
	}
	found := false
	for o := range e.at(ctx, c.Value) {
		if strings.HasPrefix(o, "func ") {
			if fn := e.c.funcByObj(o); fn != nil {
				e.follow(i, in, fn, args, out)
				found = true
			}
		}
	}
	if !found {
		e.external(i, in, "value of type "+types.TypeString(c.Value.Type(), func(p *types.Package) string { return p.Name() }), args, c, val, out)
	}
}

// capped tells whether a slice has no spare capacity to write into: x[a:b:b].
func capped(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.High == s.Max
}

func (e *effects) follow(i *effInst, in ssa.Instruction, fn *ssa.Function, args []objs, out func(objs)) {
	inPkg := fn.Pkg == e.c.P.Pkg || fn.Pkg == nil && len(fn.Blocks) > 0
	if !inPkg || len(fn.Blocks) == 0 {
		cc := in.(ssa.CallInstruction)
		var val ssa.Value
		if v := cc.Value(); v != nil {
			val = v
		}
		e.external(i, in, absint.FnName(fn, e.c.P.Pkg.Pkg), args, cc.Common(), val, out)
		return
	}
	var chain []ssa.Instruction
	if cc, ok := in.(ssa.CallInstruction); !ok || !cc.Common().IsInvoke() {
		chain = append(append(chain, i.ins...), in)
	}
	if len(chain) > e.depth {
		chain = chain[len(chain)-e.depth:]
	}
	ctx := ""
	for _, c := range chain {
		ctx += fmt.Sprintf("/%s:%d", c.Parent().Name(), instrIndex(c))
	}
	e.enter(fn, ctx, chain)
	for k, p := range fn.Params {
		if k < len(args) {
			e.flow(ctx, p, args[k])
		}
	}
	for k, fv := range fn.FreeVars {
		e.flow(ctx, fv, e.bound[fn][k])
	}
	all := objs{}
	for _, r := range e.res[ctx+"#"+fn.RelString(nil)] {
		for o := range r {
			all[o] = true
		}
	}
	out(all)
}

func instrIndex(in ssa.Instruction) int {
	n := 0
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			if x == in {
				return n
			}
			n++
		}
	}
	return -1
}

// extEffect describes an external function.
type extEffect struct {
	writes []int // arguments whose memory it writes
	alias  bool  // results may share memory with the arguments
}

// Packages whose functions write nothing through their arguments and return
// fresh memory.
var freshPkgs = map[string]bool{"strings": true, "strconv": true, "errors": true, "fmt": true, "log": true, "math": true, "bits": true, "unicode": true, "utf8": true, "time": true, "slice": true, "md5": true, "sha1": true, "sha256": true, "hex": true, "base64": true, "filepath": true, "path": true, "os": true, "ioutil": true, "sync": true, "atomic": true, "runtime": true, "debug": true, "jsonpath": true, "reflect": true, "cmp": true, "maps": true}

// Packages whose functions write nothing but may return memory of an argument.
var aliasPkgs = map[string]bool{"bytes": true, "regexp": true, "net": true, "jsonslice": true, "primitive": true, "slices": true}

var extEffects = map[string]extEffect{
	"encoding/json.Unmarshal":           {writes: []int{1}},
	"json.Unmarshal":                    {writes: []int{1}},
	"json.Marshal":                      {},
	"json.MarshalIndent":                {},
	"json.Valid":                        {},
	"json.Compact":                      {writes: []int{0}},
	"json.Indent":                       {writes: []int{0}},
	"json.HTMLEscape":                   {writes: []int{0}},
	"yaml.Unmarshal":                    {writes: []int{1}},
	"yaml.UnmarshalStrict":              {writes: []int{1}},
	"yaml.Marshal":                      {},
	"bson.Unmarshal":                    {writes: []int{1}},
	"bson.Marshal":                      {},
	"deepcopy.Copy":                     {writes: []int{0}},
	"pretty.Ugly":                       {},
	"pretty.Pretty":                     {},
	"pretty.UglyInPlace":                {writes: []int{0}, alias: true},
	"sort.Strings":                      {writes: []int{0}},
	"sort.Ints":                         {writes: []int{0}},
	"sort.Float64s":                     {writes: []int{0}},
	"sort.Slice":                        {writes: []int{0}},
	"sort.SliceStable":                  {writes: []int{0}},
	"sort.Sort":                         {writes: []int{0}},
	"sort.Stable":                       {writes: []int{0}},
	"sort.SearchStrings":                {},
	"sort.StringsAreSorted":             {},
	"slices.Sort":                       {writes: []int{0}},
	"slices.SortFunc":                   {writes: []int{0}},
	"slices.Reverse":                    {writes: []int{0}},
	"slices.Insert":                     {writes: []int{0}, alias: true},
	"slices.Delete":                     {writes: []int{0}, alias: true},
	"slices.Compact":                    {writes: []int{0}, alias: true},
	"slices.Replace":                    {writes: []int{0}, alias: true},
	"slices.Grow":                       {alias: true},
	"slices.Clone":                      {},
	"maps.Copy":                         {writes: []int{0}},
	"maps.DeleteFunc":                   {writes: []int{0}},
	"structs.Map":                       {},
	"fmt.Fprintf":                       {writes: []int{0}},
	"fmt.Fprint":                        {writes: []int{0}},
	"fmt.Fprintln":                      {writes: []int{0}},
	"fmt.Sscanf":                        {writes: []int{2}},
	"fmt.Sscan":                         {writes: []int{1}},
	"strconv.AppendInt":                 {writes: []int{0}, alias: true},
	"strconv.AppendQuote":               {writes: []int{0}, alias: true},
	"rand.Shuffle":                      {},
	"value of type jsonpath.FilterFunc": {alias: true},
	"error.Error":                       {},
	"(*regexp.Regexp).Longest":          {writes: []int{0}},
}

func (e *effects) external(i *effInst, in ssa.Instruction, name string, args []objs, c *ssa.CallCommon, val ssa.Value, out func(objs)) {
	// functions handed over may be called, on anything reachable from the other arguments
	all := objs{}
	for _, a := range args {
		for o := range a {
			all[o] = true
		}
	}
	for _, a := range args {
		for o := range a {
			if strings.HasPrefix(o, "func ") {
				if fn := e.c.funcByObj(o); fn != nil {
					ps := make([]objs, len(fn.Params))
					for k := range ps {
						ps[k] = objs{}
						for x := range all {
							if !strings.HasPrefix(x, "func ") {
								ps[k][x] = true
							}
						}
						for x := range e.contents(ps[k]) {
							ps[k][x] = true
						}
					}
					e.follow(i, in, fn, ps, func(objs) {})
				}
			}
		}
	}
	ef, known := extEffects[name]
	pkg := strings.TrimLeft(name, "(*")
	if k := strings.Index(pkg, "."); k > 0 {
		pkg = pkg[:k]
	}
	if !known {
		recvPtr := strings.HasPrefix(name, "(*")
		switch {
		case recvPtr && (strings.HasPrefix(name, "(*bytes.Buffer)") || strings.HasPrefix(name, "(*strings.Builder)")):
			ef, known = extEffect{writes: []int{0}}, true
		case freshPkgs[pkg]:
			known = true
		case aliasPkgs[pkg]:
			ef, known = extEffect{alias: true}, true
		}
	}
	if !known {
		for k, a := range args {
			for o := range a {
				if isRoot(o) {
					e.write(in, i.fn, objs{o: true}, "call of "+name+" (effect unknown), argument "+fmt.Sprint(k), "")
				}
			}
		}
		ef.alias = true
	}
	for _, w := range ef.writes {
		if w < len(args) {
			e.write(in, i.fn, args[w], "call of "+name, "")
			if val != nil {
				e.put(args[w], objs{e.site(i, val): true})
			}
		}
	}
	res := objs{}
	if val != nil {
		res[e.site(i, val)] = true
	}
	if ef.alias {
		for o := range all {
			if !strings.HasPrefix(o, "func ") {
				res[o] = true
			}
		}
		for o := range e.contents(all) {
			res[o] = true
		}
	}
	out(res)
}

// list returns the writes in a stable order.
func (e *effects) list() []*effWrite {
	var ks []string
	for k := range e.writes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]*effWrite, len(ks))
	for i, k := range ks {
		out[i] = e.writes[k]
	}
	return out
}

// implementers are the package's methods an interface call may reach.
func (c *C) implementers(t types.Type, method string) []*ssa.Function {
	iface, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	sc := c.P.Pkgs.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		for _, T := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if !types.Implements(T, iface) {
				continue
			}
			if fn := c.P.Prog.LookupMethod(T, c.P.Pkgs.Types, method); fn != nil && len(fn.Blocks) > 0 {
				out = append(out, fn)
			}
			break
		}
	}
	return out
}

func (c *C) funcByObj(o string) *ssa.Function {
	if c.funcs == nil {
		c.funcs = map[string]*ssa.Function{}
		for _, f := range c.P.AllFuncs() {
			c.funcs[funcObj(f)] = f
		}
	}
	return c.funcs[o]
}
