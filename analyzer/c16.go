package main

import (
	"fmt"
	"go/types"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// The decision procedure of a JSON-path condition, for both representations
// of a message.
//
// The evaluation is followed from Condition.Eval for every method, with the
// path, the value of the condition and the text found in the message left
// open. The library calls which select a value stand for themselves: what is
// found is a term of the document and the query they are given. The outcome of
// every path is compared with the procedure written down in judge, which is
// the same for both representations.

// jsonKinds are the kinds of values a parsed document holds.
var jsonKinds = map[string]types.Type{
	"text":   absint.StringT,
	"number": absint.FloatT,
	"true":   absint.BoolT,
	"false":  absint.BoolT,
	"object": types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)),
	"list":   types.NewSlice(types.NewInterfaceType(nil, nil)),
	"null":   nil,
}

var jsonKindNames = []string{"text", "number", "true", "false", "object", "list", "null"}

// pathRun is one evaluation of a JSON-path condition.
type pathRun struct {
	*condEnv
	spelling string
	parsed   bool
	relative bool
	query    string // kind of path: plain, $KEY, $VALUE, $VALUE.
	kind     string // kind of the value found or, for $KEY and $VALUE, of the element's value
	element  int    // number of entries of the current element, -1 if it is no object
	keys     []absint.Val
	vals     []absint.Val
}

func (p *pathRun) String() string {
	rep, rel := "raw bytes", "absolute"
	if p.parsed {
		rep = "parsed value"
	}
	if p.relative {
		rel = "relative"
	}
	s := fmt.Sprintf("%s, %s path", rep, rel)
	if p.query != "plain" {
		s += " " + p.query
		if p.element >= 0 {
			s += fmt.Sprintf(" of an element with %d entries", p.element)
		} else {
			s += " of an element that is no object"
		}
	}
	if p.kind != "" {
		s += ", " + p.kind + " found"
	}
	return s + ", " + p.spelling
}

func jsonValue(kind string, x func(t types.Type) absint.Val) absint.Val {
	t := jsonKinds[kind]
	switch kind {
	case "null":
		return absint.Nil(anyT)
	case "true", "false":
		return absint.NewIface(absint.Bool(kind == "true"), anyT)
	}
	return absint.NewIface(x(t), anyT)
}

func jsonFound(doc, query absint.Val) absint.Val {
	return absint.NewTerm("jsonslice.Get", absint.StringT, doc, query)
}

func (p *pathRun) doc() absint.Val {
	f := "RequestJsonRaw"
	if p.parsed {
		f = "RequestRawInterface"
	}
	if p.relative {
		f += "Relative"
	}
	return absint.At(p.m, f)
}

// found is the term for what a prepared query selects.
func (p *pathRun) found(f, doc absint.Val) (absint.Val, absint.Val) {
	key := absint.Str(doc.K())
	return jsonValue(p.kind, func(t types.Type) absint.Val { return absint.NewTerm("found", t, f, key) }),
		absint.NewTerm("found#err", absint.ErrorT, f, key)
}

// unitsFn tells whether a function splits a text into a number and a factor.
func unitsFn(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return len(fn.Params) == 1 && rs.Len() >= 2 && absint.ShortType(fn.Params[0].Type()) == "string" &&
		absint.ShortType(rs.At(0).Type()) == "string" && absint.ShortType(rs.At(1).Type()) == "float64"
}

func (p *pathRun) models(a *absint.Analysis) {
	noerr := absint.Nil(absint.ErrorT)
	str := func(v absint.Val) absint.Val { // text of a byte slice
		if t, ok := v.(*absint.Term); ok && t.Op == "bytes" {
			return t.Args[0]
		}
		return absint.NewTerm("str", absint.StringT, v)
	}
	none := func(v absint.Val) bool { // no bytes at all
		l, ok := v.(*absint.ListV)
		return ok && len(l.Elems) == 0 || absint.IsNil(v)
	}
	a.Models["jsonslice.Get"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		if none(args[0]) {
			return []absint.Ret{{St: st, Vals: []absint.Val{absint.Nil(bytesT), absint.NewTerm("newerr", absint.ErrorT)}}}
		}
		x := jsonFound(args[0], args[1])
		bytes := absint.NewTerm("bytes", bytesT, x)
		err := absint.NewTerm("jsonslice.Get#err", absint.ErrorT, args[0], args[1])
		bad := st.Clone()
		var out []absint.Ret
		if st.Assume(absint.Eq(err, noerr), true) {
			out = append(out, absint.Ret{St: st, Vals: []absint.Val{bytes, noerr}})
		}
		if bad.Assume(absint.Eq(err, noerr), false) {
			out = append(out, absint.Ret{St: bad, Vals: []absint.Val{absint.Nil(bytesT), err}})
		}
		return out
	}
	a.Models["json.Marshal"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("bytes", bytesT, absint.NewTerm("json", absint.StringT, unbox(args[0]))), noerr}}}
	}
	a.Models["json.Unmarshal"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		l := absint.LocOf(unbox(args[1]))
		if l == nil {
			return nil
		}
		if none(args[0]) {
			return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("newerr", absint.ErrorT)}}}
		}
		src := str(args[0])
		fail := absint.NewTerm("newerr", absint.ErrorT)
		switch absint.ShortType(l.T) {
		case "string":
			if t, ok := src.(*absint.Term); ok && t.Op == "json" {
				if absint.IsNil(t.Args[0]) {
					return []absint.Ret{{St: st, Vals: []absint.Val{noerr}}}
				}
				if absint.ShortType(t.Args[0].Typ()) != "string" {
					return []absint.Ret{{St: st, Vals: []absint.Val{fail}}}
				}
				st.Store(l, t.Args[0])
				return []absint.Ret{{St: st, Vals: []absint.Val{noerr}}}
			}
			is := absint.Pred("jsonstring", src)
			bad := st.Clone()
			var out []absint.Ret
			if st.Assume(is, true) {
				st.Store(l, absint.NewTerm("jsontext", absint.StringT, src))
				out = append(out, absint.Ret{St: st, Vals: []absint.Val{noerr}})
			}
			if bad.Assume(is, false) {
				out = append(out, absint.Ret{St: bad, Vals: []absint.Val{fail}})
			}
			return out
		case "map[string]interface{}", "interface{}":
			if p.element < 0 {
				return []absint.Ret{{St: st, Vals: []absint.Val{fail}}}
			}
			mt := jsonKinds["object"]
			m := st.NewMap("element of "+src.K(), mt, p.keys, p.vals)
			if absint.ShortType(l.T) == "interface{}" {
				m = absint.NewIface(m, anyT)
			}
			st.Store(l, m)
			return []absint.Ret{{St: st, Vals: []absint.Val{noerr}}}
		}
		return nil
	}
	a.Models["call"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		if len(args) != 2 || call.Sig.Results().Len() != 2 {
			return nil
		}
		v, err := p.found(args[0], args[1])
		bad := st.Clone()
		var out []absint.Ret
		if st.Assume(absint.Eq(err, noerr), true) {
			out = append(out, absint.Ret{St: st, Vals: []absint.Val{v, noerr}})
		}
		if bad.Assume(absint.Eq(err, noerr), false) {
			out = append(out, absint.Ret{St: bad, Vals: []absint.Val{absint.Nil(anyT), err}})
		}
		return out
	}
	a.ModelOf = func(fn *ssa.Function) absint.Model {
		if !unitsFn(fn) {
			return nil
		}
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			res := absint.OpaqueResults("units", fn.Signature, args)
			return []absint.Ret{{St: st, Vals: res}}
		}
	}
}

// text is what the path selects: the text, whether there is one.
func (p *pathRun) text(o *absint.Oracle) (absint.Val, bool) {
	q := absint.At(p.c, "AttributeJsonpathQuery")
	content := func(kind string, v absint.Val) (absint.Val, bool) { // text of a value
		switch kind {
		case "null":
			return nil, false
		case "text":
			return v, true
		case "number":
			if p.parsed {
				return absint.NewTerm("strconv.FormatFloat", absint.StringT, v, absint.Int('f'), absint.Int(-1), absint.Int(64)), true
			}
		case "true", "false":
			if p.parsed {
				return absint.Str(kind), true
			}
		}
		return absint.NewTerm("json", absint.StringT, v), true
	}
	raw := func(doc, query absint.Val) (absint.Val, bool) {
		if o.NotNil(absint.NewTerm("jsonslice.Get#err", absint.ErrorT, doc, query)) {
			return nil, false
		}
		t := jsonFound(doc, query)
		if o.Is(absint.Pred("jsonstring", t)) {
			t = absint.NewTerm("jsontext", absint.StringT, t)
		}
		return t, true
	}
	prepared := func(doc absint.Val) (absint.Val, bool) {
		v, err := p.found(absint.At(p.c, "PreparedJsonpathQuery"), doc)
		if o.NotNil(err) {
			return nil, false
		}
		return content(p.kind, unbox(v))
	}
	doc := absint.Content(p.doc())
	if p.query == "plain" {
		if p.parsed {
			return prepared(doc)
		}
		return raw(doc, q)
	}
	if p.element != 1 {
		return nil, false
	}
	switch p.query {
	case "$KEY":
		return p.keys[0], true
	case "$VALUE":
		return content(p.kind, unbox(p.vals[0]))
	}
	if p.parsed {
		return prepared(p.vals[0])
	}
	return raw(absint.NewTerm("bytes", bytesT, absint.NewTerm("json", absint.StringT, unbox(p.vals[0]))),
		absint.Cat(absint.Str("$."), absint.Sym("path", absint.StringT)))
}

// judge is the procedure: the outcome of comparing a text with the condition.
func (p *pathRun) judge(o *absint.Oracle) (bool, string) {
	missing := p.method == "NEX"
	if !o.NotNil(p.doc()) {
		return false, "no document"
	}
	if !p.parsed && o.Is(absint.Eq(absint.Len(absint.Content(p.doc())), absint.Int(0))) {
		return false, "no document"
	}
	t, ok := p.text(o)
	if !ok {
		return missing, "nothing found"
	}
	empty := func() bool { return o.Is(absint.Eq(t, absint.Str(""))) }
	if empty() {
		return missing, "empty text found"
	}
	all := func(from, to string) {
		t = o.St.A.Externals("strings.ReplaceAll")(o.St.A, o.St, []absint.Val{t, absint.Str(from), absint.Str(to)}, nil)[0].Vals[0]
		t = o.St.Resolve(t)
	}
	all("[[", "[")
	all("]]", "]")
	all(`["`, `"`)
	all(`"]`, `"`)
	if empty() || o.StrIs(t, "[]") {
		return missing, "empty text found"
	}
	ends := func() (bool, bool) {
		return o.Is(absint.Pred("HasPrefix", t, absint.Str(`"`))), o.Is(absint.Pred("HasSuffix", t, absint.Str(`"`)))
	}
	inner := func() {
		n := o.St.Resolve(absint.Len(t))
		t = o.St.Resolve(absint.Substr(t, absint.Int(1), o.St.Resolve(absint.NewTerm("add", absint.IntT, n, absint.Int(-1))), n, absint.StringT))
	}
	long := func() bool {
		if s, ok := absint.IsStr(t); ok {
			return len(s) >= 2
		}
		return !o.Is(absint.Lt(absint.Len(t), absint.Int(2)))
	}
	if long() {
		if l, r := ends(); l && r {
			inner()
			if empty() {
				return missing, "empty text found"
			}
		}
	}
	if long() {
		l, r := ends()
		if l != r {
			return false, "quotation marks not aligned"
		}
		if l {
			inner()
		}
	}
	value := absint.At(p.c, "Value")
	vf := absint.At(p.c, "ValueFloat")
	switch p.method {
	case "EX":
		return !empty(), "text found"
	case "NEX":
		return empty(), "text found"
	case "RE", "NRE":
		re := absint.At(p.c, "ValueRegex")
		return (o.NotNil(re) && o.Is(absint.Pred("rematch", re, t))) == (p.method == "RE"), "text found"
	case "EQ", "NEQ", "NE", "LT", "LE", "GT", "GE":
	default:
		return false, "no such method"
	}
	if vi := absint.At(p.c, "ValueInt"); !o.NotNil(vf) && o.NotNil(vi) {
		return false, "" // every whole number is also a number
	}
	units := absint.NewTerm("units#0", absint.StringT, t)
	num := !o.NotNil(absint.NewTerm("strconv.ParseFloat#err", absint.ErrorT, units, absint.Int(64)))
	ref := o.NotNil(vf)
	switch {
	case num && ref:
		n := o.St.Mul(absint.NewTerm("strconv.ParseFloat#0", absint.FloatT, units, absint.Int(64)), absint.NewTerm("units#1", absint.FloatT, t))
		return order(o, p.method, n, absint.Content(vf)), "numbers compared"
	case p.method != "EQ" && p.method != "NEQ" && p.method != "NE":
		return false, "no number to compare"
	case num != ref:
		if b, known := o.St.Decide(absint.Eq(t, value)); known && b {
			return false, "" // the same text is a number or not
		}
		return p.method != "EQ", "a number and a text"
	}
	return order(o, p.method, t, value), "texts compared"
}

func (c *C) pathCondition(fn *ssa.Function, p pathRun) {
	a := c.P.NewAnalysis()
	a.Unroll = 8
	p.models(a)
	args := make([]absint.Val, len(fn.Params))
	for i, q := range fn.Params {
		switch absint.ShortType(q.Type()) {
		case "*Condition":
			args[i] = p.c
		case "*MessageAttributes":
			args[i] = p.m
		default:
			args[i] = absint.Param(q.Name(), q.Type())
		}
	}
	st := a.NewState()
	set(st, absint.At(p.c, "Attribute"), "jsonpath")
	set(st, absint.At(p.c, "Method"), p.spelling)
	st.Assume(absint.At(p.c, "AttributeIsJsonpath"), true)
	st.Assume(absint.At(p.c, "AttributeIsJsonpathRelative"), p.relative)
	nonnil := func(v absint.Val, b bool) { st.Assume(absint.Eq(v, absint.Nil(v.Typ())), !b) }
	nonnil(absint.At(p.c, "PreparedJsonpathQuery"), true)
	nonnil(absint.At(p.m, "RequestRawInterface"), p.parsed)
	q := absint.At(p.c, "AttributeJsonpathQuery")
	switch p.query {
	case "plain":
		if p.relative {
			st.Assume(absint.Eq(q, absint.Str("$KEY")), false)
			st.Assume(absint.Pred("HasPrefix", q, absint.Str("$VALUE")), false)
		}
	case "$VALUE.":
		st.StoreField(p.c, "AttributeJsonpathQuery", absint.Cat(absint.Str("$VALUE."), absint.Sym("path", absint.StringT)))
	default:
		st.StoreField(p.c, "AttributeJsonpathQuery", absint.Str(p.query))
	}
	if p.query != "plain" {
		n := p.element
		if n < 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			p.keys = append(p.keys, absint.Sym(fmt.Sprintf("key%d", i), absint.StringT))
			for _, k := range p.keys[:i] {
				st.Assume(absint.Eq(k, p.keys[i]), false)
			}
			p.vals = append(p.vals, jsonValue(p.kind, func(t types.Type) absint.Val { return absint.Sym(fmt.Sprintf("value%d", i), t) }))
		}
		if p.parsed {
			d := absint.At(p.m, "RequestRawInterfaceRelative")
			nonnil(d, true)
			v := absint.NewIface(absint.Sym("element", absint.StringT), anyT)
			if p.element >= 0 {
				v = absint.NewIface(st.NewMap("element", jsonKinds["object"], p.keys, p.vals), anyT)
			}
			st.Store(absint.LocOf(d), v)
		}
	}
	what := p.String()
	rets := a.Run(st, fn, args)
	c.absorb(a, what, fn.Pos(), rets)
	n := 0
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		n++
		absint.Complete(r.St, func(o *absint.Oracle) {
			want, why := p.judge(o)
			if why == "" {
				return
			}
			if got := o.Is(r.Vals[0]); got != want {
				c.Fail("procedure", what, r.Pos, "%s (%s): yields %v, expected %v; path: %s", what, why, got, want, describe(o))
				return
			}
			c.OK("procedure")
		})
	}
	if n == 0 {
		c.Fail("procedure", what, fn.Pos(), "%s: no ordinary way out of the evaluation", what)
	}
}

func checkC16(c *C) {
	fn := c.fn("Condition.Eval")
	if fn == nil {
		return
	}
	e := c.condEnv(fn)
	if e == nil {
		return
	}
	for _, m := range methodSpellings {
		run := func(p pathRun) {
			pe := *e
			pe.method = strings.ToUpper(m)
			p.condEnv, p.spelling = &pe, m
			c.pathCondition(fn, p)
		}
		kinds := jsonKindNames
		if m == strings.ToLower(m) {
			kinds = []string{"text"} // the spelling is examined with one kind
		}
		for _, rel := range []bool{false, true} {
			run(pathRun{relative: rel, query: "plain", element: -1})
			for _, k := range kinds {
				run(pathRun{parsed: true, relative: rel, query: "plain", kind: k, element: -1})
			}
		}
		for _, q := range []string{"$KEY", "$VALUE", "$VALUE."} {
			for _, parsed := range []bool{false, true} {
				for _, n := range []int{-1, 0, 2} {
					run(pathRun{parsed: parsed, relative: true, query: q, kind: "text", element: n})
				}
				for _, k := range kinds {
					if q == "$KEY" && k != "text" {
						continue
					}
					run(pathRun{parsed: parsed, relative: true, query: q, kind: k, element: 1})
				}
			}
		}
	}
	c.Want("procedure", 1000)
	c.preparedQuery()
	c.Want("prepared query", len(preparedQueries))
}

// preparedQueries are paths of conditions with the query that selects the same
// value from a parsed document, empty if the path is not looked up by a query.
var preparedQueries = [][2]string{
	{"$.a", "$.a"}, {"$.a.b[0].c", "$.a.b[0].c"}, {`$["a"].b`, `$["a"].b`}, {"$.a[*].b", "$.a[*].b"}, {"$..a", "$..a"}, {"$*", "$.*"},
	{"$VALUE.a", "$.a"}, {"$VALUE.a.b", "$.a.b"}, {"$VALUE.a[0]", "$.a[0]"}, {"$KEY", ""}, {"$VALUE", ""},
}

// preparedQuery examines which query a condition's preparation compiles.
func (c *C) preparedQuery() {
	fn := c.fn("Condition.PrepareAndValidate")
	if fn == nil {
		return
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	compiles := map[*ssa.Function]bool{}
	for _, f := range c.P.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
						if g.Pkg != nil && g.Pkg.Pkg.Name() == "jsonpath" {
							compiles[f] = true
						}
					}
				}
			}
		}
	}
	relevant := closure(callers, func(f *ssa.Function) bool { return compiles[f] })
	for _, q := range preparedQueries {
		a := c.P.NewAnalysis()
		a.ModelOf = func(f *ssa.Function) absint.Model {
			if f.Pkg == nil || f.Pkg != fn.Pkg || relevant[f] || plain(f) {
				return nil
			}
			return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
				return []absint.Ret{{St: st, Vals: absint.OpaqueResults(f.Name(), f.Signature, args)}}
			}
		}
		args := make([]absint.Val, len(fn.Params))
		for i, p := range fn.Params {
			args[i] = absint.Param(p.Name(), p.Type())
		}
		cond := absint.SymPtr("condition", fn.Params[0].Type())
		args[0] = cond
		st := a.NewState()
		st.Assume(absint.At(cond, "AttributeIsJsonpath"), true)
		st.StoreField(cond, "AttributeJsonpathQuery", absint.Str(q[0]))
		what := "condition on " + q[0]
		rets := a.Run(st, fn, args)
		c.absorb(a, what, fn.Pos(), rets)
		n := 0
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				if o.NotNil(r.Vals[0]) {
					return
				}
				n++
				got := o.St.Resolve(o.St.Load(absint.FieldLoc(cond, "PreparedJsonpathQuery")))
				t, ok := got.(*absint.Term)
				if !ok || t.Op != "jsonpath.Prepare#0" || len(t.Args) != 1 {
					c.Fail("prepared query", what, r.Pos, "a %s is prepared with %s; path: %s", what, got.K(), describe(o))
					return
				}
				if s, ok := absint.IsStr(o.St.Resolve(t.Args[0])); q[1] != "" && (!ok || s != q[1]) {
					c.Fail("prepared query", what, r.Pos, "a %s looks up %s in a parsed document, expected %q", what, t.Args[0].K(), q[1])
					return
				}
				c.OK("prepared query")
			})
		}
		if n == 0 {
			c.Fail("prepared query", what, fn.Pos(), "a %s is never prepared", what)
		}
	}
}
