package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// checkC25 follows the parser over documents whose shape is fixed and whose
// texts are arbitrary, and compares the tree built with the tree written.
func checkC25(c *C) {
	fn := c.fn("ParseConditionsTree")
	if fn == nil {
		return
	}
	for _, s := range parseShapes() {
		for _, variant := range []struct {
			name             string
			anyKeys, reverse bool
		}{{"", false, false}, {" (keys of any type)", true, true}} {
			p := &parse{c: c, anyKeys: variant.anyKeys, name: s.name + variant.name}
			p.run(fn, s, variant.reverse)
		}
	}
	c.readTree("UnmarshalYAML")
	c.readTree("UnmarshalJSON")
	c.Want("stored", 6)
	c.Want("built", 60)
	c.Want("rejected", 60)
	c.Want("return path", 20)
}

// doc builds a document and tells the tree it stands for (nil: none).
type doc func(p *parse) (absint.Val, *wantNode)

type shape struct {
	name string
	doc  doc
}

type wantNode struct {
	kind                     string
	children                 []*wantNode
	attribute, method, value absint.Val
	valid                    absint.Val // nil: always
	parent                   absint.Val
	paths                    map[string]absint.Val
	either                   bool // a single child may stand for the node
}

type parse struct {
	c       *C
	a       *absint.Analysis
	st      *absint.State
	name    string
	anyKeys bool
	n       int
	whenOK  []absint.Val // what has to hold for the document to be well formed
}

var anyT = types.Type(types.NewInterfaceType(nil, nil).Complete())

func (p *parse) fresh(name string) string {
	p.n++
	return fmt.Sprintf("%s%d", name, p.n)
}

// text is an arbitrary text.
func (p *parse) text(name string) absint.Val { return absint.Sym(p.fresh(name), absint.StringT) }

func (p *parse) box(v absint.Val) absint.Val { return absint.NewIface(v, anyT) }

func (p *parse) mapping(keys []string, vals []absint.Val) absint.Val {
	t := types.Type(types.NewMap(types.Typ[types.String], anyT))
	var ks []absint.Val
	if p.anyKeys {
		t = types.NewMap(anyT, anyT)
	}
	for _, k := range keys {
		var v absint.Val = absint.Str(k)
		if p.anyKeys {
			v = p.box(v)
		}
		ks = append(ks, v)
	}
	return p.box(p.st.NewMap(p.fresh("document"), t, ks, vals))
}

func (p *parse) sequence(vals []absint.Val) absint.Val {
	return p.box(absint.NewList(types.NewSlice(anyT), vals...))
}

// leaf is a condition with the given keys ("attribute", "method", "value").
func leaf(keys ...string) doc {
	if keys == nil {
		keys = []string{"attribute", "method", "value"}
	}
	return func(p *parse) (absint.Val, *wantNode) {
		w := &wantNode{kind: "Condition", attribute: absint.Str(""), method: absint.Str(""), value: absint.Str("")}
		var vals []absint.Val
		for _, k := range keys {
			var v absint.Val
			switch strings.ToLower(k) {
			case "attribute":
				w.attribute = p.text("attribute")
				v = p.box(w.attribute)
			case "method":
				w.method = p.text("method")
				v = p.box(w.method)
			case "value":
				w.value = p.text("value")
				v = p.box(w.value)
			default: // the reader keeps but does not use these
				v = p.box(absint.Int(7))
			}
			vals = append(vals, v)
		}
		w.valid = validAtom(w.attribute)
		return p.mapping(keys, vals), w
	}
}

func validAtom(attribute absint.Val) absint.Val { return absint.Pred("valid", attribute) }

// numberLeaf is a condition whose value is written as a number.
func numberLeaf(p *parse) (absint.Val, *wantNode) {
	w := &wantNode{kind: "Condition", attribute: p.text("attribute"), method: p.text("method"), value: absint.Str("7")}
	w.valid = validAtom(w.attribute)
	return p.mapping([]string{"attribute", "method", "value"}, []absint.Val{p.box(w.attribute), p.box(w.method), p.box(absint.Int(7))}), w
}

// badLeaf is a condition with a number where text is required.
func badLeaf(key string) doc {
	return func(p *parse) (absint.Val, *wantNode) {
		keys := []string{"attribute", "method", "value"}
		var vals []absint.Val
		for _, k := range keys {
			v := p.box(p.text(k))
			if k == key {
				v = p.box(absint.Int(7))
			}
			vals = append(vals, v)
		}
		return p.mapping(keys, vals), nil
	}
}

var writtenPaths = []string{"jsonpath:$RELATIVE.name", "jsonpath:$.a.b", "jsonpath:$RELATIVE"}

// pathLeaf is a condition with return paths.
func pathLeaf(names ...string) doc {
	return spelledPathLeaf([]string{"attribute", "method", "value", "returnValueJsonpath"}, names...)
}

func spelledPathLeaf(keys []string, names ...string) doc {
	return func(p *parse) (absint.Val, *wantNode) {
		w := &wantNode{kind: "Condition", attribute: p.text("attribute"), method: p.text("method"), value: p.text("value"), paths: map[string]absint.Val{}}
		w.valid = validAtom(w.attribute)
		var pv []absint.Val
		for i, n := range names {
			t := absint.Str(writtenPaths[i%len(writtenPaths)])
			w.paths[n] = t
			pv = append(pv, p.box(t))
		}
		return p.mapping(keys, []absint.Val{p.box(w.attribute), p.box(w.method), p.box(w.value), p.mapping(names, pv)}), w
	}
}

func badPathLeaf(what string) doc {
	return func(p *parse) (absint.Val, *wantNode) {
		v := p.box(absint.Int(7))
		switch what {
		case "text":
			v = p.box(p.text("path"))
		case "number in map":
			v = p.mapping([]string{"name", "other"}, []absint.Val{p.box(absint.Str("jsonpath:$.a")), p.box(absint.Int(7))})
		}
		return p.mapping([]string{"attribute", "method", "value", "returnValueJsonpath"},
			[]absint.Val{p.box(p.text("attribute")), p.box(p.text("method")), p.box(p.text("value")), v}), nil
	}
}

// logic is {kind: [children]}.
func logic(kind string, children ...doc) doc {
	return func(p *parse) (absint.Val, *wantNode) {
		w := &wantNode{kind: strings.Title(strings.ToLower(kind))}
		bad := false
		var vals []absint.Val
		for _, d := range children {
			v, n := d(p)
			vals = append(vals, v)
			bad = bad || n == nil
			w.children = append(w.children, n)
		}
		if bad || kind == "NOT" && len(children) != 1 {
			w = nil
		}
		return p.mapping([]string{kind}, []absint.Val{p.sequence(vals)}), w
	}
}

// direct is {kind: child} without a list.
func direct(kind string, child doc) doc {
	return func(p *parse) (absint.Val, *wantNode) {
		v, n := child(p)
		m := p.mapping([]string{kind}, []absint.Val{v})
		if n == nil {
			return m, nil
		}
		w := &wantNode{kind: strings.Title(strings.ToLower(kind)), children: []*wantNode{n}}
		w.either = kind != "NOT" && n.kind != "Condition"
		return m, w
	}
}

// wrapped is {key: child} standing for the child.
func wrapped(key string, child doc) doc {
	return func(p *parse) (absint.Val, *wantNode) {
		v, n := child(p)
		return p.mapping([]string{key}, []absint.Val{v}), n
	}
}

// rejected is a document that stands for no tree.
func rejected(d doc) doc {
	return func(p *parse) (absint.Val, *wantNode) {
		v, _ := d(p)
		return v, nil
	}
}

func list(ds ...doc) doc {
	return func(p *parse) (absint.Val, *wantNode) {
		var vals []absint.Val
		var last *wantNode
		for _, d := range ds {
			v, n := d(p)
			vals = append(vals, v)
			last = n
		}
		if len(ds) != 1 {
			last = nil
		}
		return p.sequence(vals), last
	}
}

// quantifier is {kind: {parentJsonpathAttribute: parent, returnValueJsonpath: paths, key: child}}.
func quantifier(kind, parent string, paths []string, key string, child doc) doc {
	return func(p *parse) (absint.Val, *wantNode) {
		w := &wantNode{kind: strings.Title(strings.ToLower(kind))}
		v, n := child(p)
		if strings.ToUpper(key) == key && n != nil { // a nested keyword keeps its own node
			ks, vs, _ := p.st.Entries(unbox(v))
			if len(ks) == 1 {
				v = vs[0]
			}
		}
		w.children = []*wantNode{n}
		keys := []string{key}
		vals := []absint.Val{v}
		switch parent {
		case "":
		case "#":
			keys = append(keys, "parentJsonpathAttribute")
			vals = append(vals, p.box(absint.Int(7)))
		case "?":
			t := p.text("parent")
			keys = append(keys, "parentJsonpathAttribute")
			vals = append(vals, p.box(t))
			w.parent = t
			p.whenOK = append(p.whenOK, t)
		default:
			w.parent = absint.Str(parent)
			keys = append(keys, "parentJsonpathAttribute")
			vals = append(vals, p.box(w.parent))
		}
		if paths != nil {
			w.paths = map[string]absint.Val{}
			var ns []string
			var pv []absint.Val
			for i, t := range paths {
				name := fmt.Sprintf("path %d", i)
				ns = append(ns, name)
				pv = append(pv, p.box(absint.Str(t)))
				w.paths[name] = absint.Str(t)
				if !strings.HasPrefix(t, "jsonpath:$RELATIVE") {
					n = nil
				}
			}
			keys = append(keys, "returnValueJsonpath")
			vals = append(vals, p.mapping(ns, pv))
		}
		m := p.mapping([]string{kind}, []absint.Val{p.mapping(keys, vals)})
		if n == nil || w.parent == nil {
			return m, nil
		}
		return m, w
	}
}

func unbox(v absint.Val) absint.Val {
	if i, ok := v.(*absint.IfaceV); ok {
		return i.X
	}
	return v
}

func scalar(v absint.Val) doc {
	return func(p *parse) (absint.Val, *wantNode) { return p.box(v), nil }
}

// mapOf is a map with several keys, none of them making a condition.
func mapOf(kv ...interface{}) doc {
	return func(p *parse) (absint.Val, *wantNode) {
		var ks []string
		var vs []absint.Val
		for i := 0; i+1 < len(kv); i += 2 {
			ks = append(ks, kv[i].(string))
			v, _ := kv[i+1].(doc)(p)
			vs = append(vs, v)
		}
		return p.mapping(ks, vs), nil
	}
}

func parseShapes() []shape {
	l := leaf()
	var out []shape
	add := func(name string, d doc) { out = append(out, shape{name, d}) }
	add("a condition", l)
	add("a condition without value", leaf("attribute", "method"))
	add("a condition with capital keys", leaf("Attribute", "Method", "Value"))
	add("a condition with an integer", leaf("attribute", "method", "value", "valueInt"))
	add("a condition with a number", leaf("attribute", "method", "value", "valueFloat"))
	add("a condition with both numbers", leaf("attribute", "method", "value", "valueInt", "valueFloat"))
	add("a condition with a number as value", numberLeaf)
	add("a condition with one return path", pathLeaf("name"))
	add("a condition with three return paths", pathLeaf("a", "b", "c"))
	add("a condition with capital keys and return paths", spelledPathLeaf([]string{"Attribute", "Method", "Value", "ReturnValueJsonpath"}, "a", "b"))
	for i, k := range []string{"attribute", "method", "value", "returnValueJsonpath"} {
		ks := []string{"attribute", "method", "value", "returnValueJsonpath"}
		ks[i] = strings.ToUpper(k[:1]) + k[1:]
		add("a condition with the key "+ks[i], spelledPathLeaf(ks, "a"))
	}
	add("a condition with an integer under a capital key", leaf("attribute", "method", "value", "ValueInt"))
	add("a condition with a number under a capital key", leaf("attribute", "method", "value", "ValueFloat"))
	add("a condition in a list", list(l))
	add("two conditions in a list", list(l, l))
	add("an empty list", list())
	add("a condition under 'condition'", wrapped("condition", l))
	add("a condition under 'conditionsTree'", wrapped("conditionsTree", l))
	for _, k := range []string{"AND", "OR"} {
		add(k+" of none", logic(k))
		add(k+" of one", logic(k, l))
		add(k+" of two", logic(k, l, l))
		add(k+" of three", logic(k, l, pathLeaf("x"), l))
		add(k+" of a bare condition", direct(k, l))
		add(k+" of AND and OR", logic(k, logic("AND", l, l), logic("OR", l, l)))
		add(k+" of NOT", logic(k, direct("NOT", l), l))
		add(k+" of an unknown keyword", logic(k, l, rejected(logic("XOR", l, l))))
		add(k+" of a text", logic(k, l, scalar(absint.Str("x"))))
		add(k+" of two conditions in a list", logic(k, list(l, l)))
		add(k+" and another keyword", mapOf(k, list(l, l), "NOT", l))
		add(k+" under conditionsTree", wrapped("conditionsTree", logic(k, l, l)))
		add(k+" under conditions", wrapped("conditions", logic(k, l, l)))
		add(k+" over a quantifier", logic(k, quantifier("ANY", "jsonpath:$.a[:]", nil, "condition", l), l))
	}
	add("NOT of a condition", direct("NOT", l))
	add("NOT of none", logic("NOT"))
	add("NOT of a list of one", logic("NOT", l))
	add("NOT of a list of two", logic("NOT", l, l))
	add("NOT of AND", direct("NOT", logic("AND", l, l)))
	add("NOT of OR", direct("NOT", logic("OR", l, l)))
	add("NOT of NOT", direct("NOT", direct("NOT", l)))
	add("NOT of ANY", direct("NOT", quantifier("ANY", "jsonpath:$.a[:]", nil, "condition", l)))
	add("NOT of two keywords", direct("NOT", mapOf("AND", list(l, l), "OR", list(l, l))))
	for _, k := range []string{"ANY", "ALL"} {
		add(k+" of a condition", quantifier(k, "jsonpath:$.a[:]", nil, "condition", l))
		add(k+" relative", quantifier(k, "jsonpath:$RELATIVE.b[:]", nil, "condition", l))
		add(k+" over any path", quantifier(k, "?", nil, "condition", l))
		add(k+" over a number", quantifier(k, "#", nil, "condition", l))
		add(k+" without path", quantifier(k, "", nil, "condition", l))
		add(k+" of AND", quantifier(k, "jsonpath:$.a[:]", nil, "AND", logic("AND", l, l)))
		add(k+" of OR", quantifier(k, "jsonpath:$.a[:]", nil, "OR", logic("OR", l, l)))
		add(k+" of NOT", quantifier(k, "jsonpath:$.a[:]", nil, "NOT", direct("NOT", l)))
		add(k+" of ANY", quantifier(k, "jsonpath:$.a[:]", nil, "ANY", quantifier("ANY", "jsonpath:$RELATIVE.b[:]", nil, "condition", l)))
		add(k+" of ALL", quantifier(k, "jsonpath:$.a[:]", nil, "ALL", quantifier("ALL", "jsonpath:$RELATIVE.b[:]", nil, "AND", logic("AND", l, l))))
		add(k+" with return paths", quantifier(k, "jsonpath:$.a[:]", []string{"jsonpath:$RELATIVE.name", "jsonpath:$RELATIVE"}, "condition", l))
		add(k+" with an absolute return path", quantifier(k, "jsonpath:$.a[:]", []string{"jsonpath:$RELATIVE.name", "jsonpath:$.x"}, "condition", l))
		add(k+" with a condition with return paths", quantifier(k, "jsonpath:$.a[:]", []string{"jsonpath:$RELATIVE.name"}, "condition", pathLeaf("x", "y")))
		add(k+" of a bare condition", rejected(direct(k, l)))
		add(k+" of a list", rejected(logic(k, l, l)))
		add(k+" without condition", wrapped(k, mapOf("parentJsonpathAttribute", scalar(absint.Str("jsonpath:$.a[:]")))))
		add(k+" with return paths only", wrapped(k, mapOf("parentJsonpathAttribute", scalar(absint.Str("jsonpath:$.a[:]")), "returnValueJsonpath", mapOf("x", scalar(absint.Str("jsonpath:$RELATIVE"))))))
		add(k+" with two conditions", wrapped(k, mapOf("parentJsonpathAttribute", scalar(absint.Str("jsonpath:$.a[:]")), "AND", list(l, l), "OR", list(l, l))))
		add(k+" with two conditions and return paths", wrapped(k, mapOf("parentJsonpathAttribute", scalar(absint.Str("jsonpath:$.a[:]")), "AND", list(l, l), "condition", l, "returnValueJsonpath", mapOf("x", scalar(absint.Str("jsonpath:$RELATIVE"))))))
		add(k+" with a number as return path", wrapped(k, mapOf("parentJsonpathAttribute", scalar(absint.Str("jsonpath:$.a[:]")), "condition", l, "returnValueJsonpath", mapOf("x", scalar(absint.Int(7))))))
		add(k+" with a text for return paths", wrapped(k, mapOf("parentJsonpathAttribute", scalar(absint.Str("jsonpath:$.a[:]")), "condition", l, "returnValueJsonpath", scalar(absint.Str("jsonpath:$RELATIVE")))))
	}
	add("an unknown keyword over a list", rejected(logic("XOR", l, l)))
	add("an unknown keyword over a condition", rejected(direct("XOR", l)))
	add("an unknown keyword over a map", rejected(direct("XOR", logic("AND", l, l))))
	add("a lower-case keyword", rejected(logic("and", l, l)))
	add("a list under 'condition'", rejected(wrapped("condition", list(l, l))))
	add("a text", scalar(absint.Str("x")))
	add("a number", scalar(absint.Int(7)))
	add("nothing", func(p *parse) (absint.Val, *wantNode) { return absint.Nil(anyT), nil })
	add("an empty map", mapOf())
	add("an attribute that is no text", badLeaf("attribute"))
	add("a method that is no text", badLeaf("method"))
	add("a condition without method", mapOf("attribute", scalar(absint.Str("domain")), "value", scalar(absint.Str("x"))))
	add("a condition with an unknown key", mapOf("attribute", scalar(absint.Str("domain")), "method", scalar(absint.Str("EQ")), "value", scalar(absint.Str("x")), "other", scalar(absint.Str("x"))))
	add("a number for the return paths", badPathLeaf("number"))
	add("a text for the return paths", badPathLeaf("text"))
	add("a number as return path", badPathLeaf("number in map"))
	return out
}

func (p *parse) run(fn *ssa.Function, s shape, reverse bool) {
	c := p.c
	a := c.P.NewAnalysis()
	p.a = a
	a.Unroll, a.Recurse, a.Reverse = 8, 8, reverse
	p.st = a.NewState()
	st := p.st
	a.Models["deepcopy.Copy"] = copyMap
	a.ModelOf = func(f *ssa.Function) absint.Model {
		if !absint.SigIs(f, []string{"*Condition"}, []string{"bool", "error"}) {
			return nil
		}
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			att := st.Resolve(st.Load(absint.FieldLoc(args[0], "Attribute")))
			e := absint.NewTerm("invalid", absint.ErrorT, att)
			var out []absint.Ret
			for _, ok := range []bool{true, false} {
				s := st.Clone()
				if !s.Assume(validAtom(att), ok) {
					continue
				}
				if ok {
					out = append(out, absint.Ret{St: s, Vals: []absint.Val{absint.Bool(true), absint.Nil(absint.ErrorT)}})
				} else if s.Assume(absint.Eq(e, absint.Nil(absint.ErrorT)), false) {
					out = append(out, absint.Ret{St: s, Vals: []absint.Val{absint.Bool(false), e}})
				}
			}
			return out
		}
	}
	d, want := s.doc(p)
	rets := a.Run(st, fn, []absint.Val{d})
	c.absorb(a, "conditions: "+p.name, fn.Pos(), rets)
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			failed := o.NotNil(r.Vals[1])
			bad := want == nil
			if want != nil {
				for _, v := range want.atoms(nil) {
					bad = !o.Is(v) || bad
				}
				for _, t := range p.whenOK {
					in := false
					for _, pre := range []string{"jsonpath:.", "jsonpath:$.", "jsonpath:$RELATIVE"} {
						in = in || o.Is(absint.Pred("HasPrefix", t, absint.Str(pre)))
					}
					bad = bad || !in
					rest := absint.Eq(absint.NewTerm("ReplaceAll", absint.StringT, t, absint.Str("jsonpath:"), absint.Str("")), absint.Str(""))
					if v, known := o.St.Decide(rest); known && v {
						return // something follows the prefix
					}
				}
			}
			switch {
			case bad && !failed:
				c.Fail("rejected", p.name, r.Pos, "accepted as %s; path: %s", p.render(o, r.Vals[0]), describe(o))
			case bad:
				c.OK("rejected")
			case failed:
				c.Fail("built", p.name, r.Pos, "refused; path: %s", describe(o))
			default:
				if got, diff := p.match(o, r.Vals[0], want); !got {
					c.Fail("built", p.name, r.Pos, "the tree built is not the one written: %s; path: %s", diff, describe(o))
				} else {
					c.OK("built")
				}
			}
		})
	}
}

// copyMap is the copying of one map over another through their JSON form.
func copyMap(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
	ok := []absint.Val{absint.Nil(absint.ErrorT)}
	dst, src := unbox(args[0]), unbox(args[1])
	sv := st.Resolve(st.Load(absint.LocOf(src)))
	if absint.IsNil(sv) {
		st.Store(absint.LocOf(dst), sv)
		return []absint.Ret{{St: st, Vals: ok}}
	}
	ks, vs, known := st.Entries(sv)
	dv := st.Resolve(st.Load(absint.LocOf(dst)))
	if !known {
		panic("copy of " + sv.K())
	}
	if absint.IsNil(dv) {
		dv = st.NewMap(fmt.Sprintf("copy of %s at %s", sv.K(), absint.LocOf(dst).S), sv.Typ(), nil, nil)
		st.Store(absint.LocOf(dst), dv)
	}
	for i, k := range ks {
		st.StoreEntry(dv, k, vs[i])
	}
	return []absint.Ret{{St: st, Vals: ok}}
}

func (w *wantNode) atoms(out []absint.Val) []absint.Val {
	if w.valid != nil {
		out = append(out, w.valid)
	}
	for _, ch := range w.children {
		out = ch.atoms(out)
	}
	return out
}

// node is the object an interface value holds and its type.
func (p *parse) node(o *absint.Oracle, v absint.Val) (absint.Val, string) {
	v = unbox(o.St.Resolve(v))
	return v, strings.TrimPrefix(absint.ShortType(v.Typ()), "*")
}

func (p *parse) children(o *absint.Oracle, v absint.Val, kind string) ([]absint.Val, bool) {
	switch kind {
	case "And", "Or":
		return p.c.list(p.a, o.St, o.St.Load(absint.FieldLoc(v, "Nodes")))
	case "Not", "Any", "All":
		n := o.St.Resolve(o.St.Load(absint.FieldLoc(v, "Node")))
		if absint.IsNil(n) {
			return nil, true
		}
		return []absint.Val{n}, true
	}
	return nil, true
}

func (p *parse) render(o *absint.Oracle, v absint.Val) string {
	v, kind := p.node(o, v)
	ch, _ := p.children(o, v, kind)
	var s []string
	for _, x := range ch {
		s = append(s, p.render(o, x))
	}
	return kind + "(" + strings.Join(s, ", ") + ")"
}

func (p *parse) match(o *absint.Oracle, v absint.Val, w *wantNode) (bool, string) {
	v, kind := p.node(o, v)
	if w.either && kind != w.kind {
		return p.match(o, v, w.children[0])
	}
	if kind != w.kind {
		return false, "a " + kind + " node where " + w.kind + " is written"
	}
	field := func(name string) absint.Val { return o.St.Resolve(o.St.Load(absint.FieldLoc(v, name))) }
	same := func(name string, x absint.Val) (bool, string) {
		got := field(name)
		if got.K() == o.St.Resolve(x).K() {
			return true, ""
		}
		return false, fmt.Sprintf("%s of %s is %s where %s is written", name, kind, got.K(), x.K())
	}
	switch kind {
	case "Condition":
		for _, f := range []struct {
			name string
			x    absint.Val
		}{{"Attribute", w.attribute}, {"Method", w.method}, {"Value", w.value}} {
			if ok, d := same(f.name, f.x); !ok {
				return false, d
			}
		}
		return p.matchPaths(o, v, w, "PreparedReturnValueJsonpathQuery", "PreparedReturnValueJsonpathQueryRelativeFlag")
	case "Any", "All":
		if ok, d := same("ParentJsonpathAttributeOriginal", w.parent); !ok {
			return false, d
		}
		if t, ok := absint.IsStr(w.parent); ok {
			if ok, d := same("ParentJsonpathAttribute", absint.Str(strings.Replace(t, "jsonpath:", "", -1))); !ok {
				return false, d
			}
		}
		if ok, d := p.matchPaths(o, v, w, "ReturnValuePreparedJsonpathQuery", "ReturnValuePreparedJsonpathQueryRelativeFlag"); !ok {
			return false, d
		}
	}
	ch, ok := p.children(o, v, kind)
	if !ok || len(ch) != len(w.children) {
		return false, fmt.Sprintf("%d children of %s where %d are written", len(ch), kind, len(w.children))
	}
	for i := range ch {
		if ok, d := p.match(o, ch[i], w.children[i]); !ok {
			return false, d
		}
	}
	return true, ""
}

// matchPaths compares the return paths of a node, their compiled forms and the
// flags telling which of them start at the current element.
func (p *parse) matchPaths(o *absint.Oracle, v absint.Val, w *wantNode, prepared, flags string) (bool, string) {
	table := func(name string) (map[string]absint.Val, bool) {
		m := o.St.Resolve(o.St.Load(absint.FieldLoc(v, name)))
		out := map[string]absint.Val{}
		if absint.IsNil(m) {
			return out, true
		}
		ks, vs, ok := o.St.Entries(m)
		for i, k := range ks {
			s, isS := absint.IsStr(o.St.Resolve(k))
			ok = ok && isS
			out[s] = o.St.Resolve(vs[i])
		}
		return out, ok
	}
	keys := func(m map[string]absint.Val) string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return strings.Join(ks, ",")
	}
	for _, f := range []struct {
		name string
		want func(t string) absint.Val
	}{
		{"ReturnValueJsonpathOriginal", func(t string) absint.Val { return absint.Str(t) }},
		{"ReturnValueJsonpath", func(t string) absint.Val { return absint.Str(pathQuery(t)) }},
		{flags, func(t string) absint.Val { return absint.Bool(strings.HasPrefix(t, "jsonpath:$RELATIVE")) }},
		{prepared, nil},
	} {
		got, ok := table(f.name)
		if !ok || keys(got) != keys(w.paths) {
			return false, fmt.Sprintf("%s holds the names [%s] where [%s] are written", f.name, keys(got), keys(w.paths))
		}
		for k, t := range w.paths {
			text, _ := absint.IsStr(t)
			if f.want != nil {
				if x := f.want(text); got[k].K() != x.K() {
					return false, fmt.Sprintf("%s of %q is %s, expected %s", f.name, k, got[k].K(), x.K())
				}
				p.c.OK("return path")
				continue
			}
			q := absint.Str(pathQuery(text))
			if absint.IsNil(got[k]) {
				if !o.NotNil(absint.NewTerm("jsonpath.Prepare#err", absint.ErrorT, q)) {
					return false, fmt.Sprintf("%s of %q is missing", f.name, k)
				}
			} else if !strings.Contains(got[k].K(), q.K()) {
				return false, fmt.Sprintf("%s of %q is %s, expected the compiled form of %s", f.name, k, got[k].K(), q.K())
			}
			p.c.OK("return path")
		}
	}
	return true, ""
}

// pathQuery is the query a written path stands for.
func pathQuery(t string) string {
	t = strings.Replace(t, "jsonpath:$RELATIVE", "$", 1)
	return strings.TrimPrefix(t, "jsonpath:")
}

// readTree follows the reading of a conditions field: the document read is
// parsed and the tree stored, and a failure of either step is returned.
func (c *C) readTree(method string) {
	fn := c.fn("ConditionsTree." + method)
	if fn == nil {
		return
	}
	a := c.P.NewAnalysis()
	a.Unroll = 4
	st := a.NewState()
	self := absint.SymPtr("conditions", fn.Params[0].Type())
	data := absint.Sym("data", fn.Params[1].Type())
	document := absint.Sym("document", anyT)
	readErr := absint.Sym("reading", absint.ErrorT)
	parseErr := absint.Sym("parsing", absint.ErrorT)
	var tree absint.Val
	fill := func(st *absint.State, into absint.Val) []absint.Ret {
		var out []absint.Ret
		for _, ok := range []bool{true, false} {
			s := st.Clone()
			if !s.Assume(absint.Eq(readErr, absint.Nil(absint.ErrorT)), ok) {
				continue
			}
			if ok {
				s.Store(absint.LocOf(unbox(into)), document)
				out = append(out, absint.Ret{St: s, Vals: []absint.Val{absint.Nil(absint.ErrorT)}})
			} else {
				out = append(out, absint.Ret{St: s, Vals: []absint.Val{readErr}})
			}
		}
		return out
	}
	a.Models["call"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		if args[0].K() != data.K() || len(args) != 2 {
			return nil
		}
		return fill(st, args[1])
	}
	a.Models["json.Unmarshal"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		if args[0].K() != data.K() || len(args) != 2 {
			return nil
		}
		return fill(st, args[1])
	}
	a.ModelOf = func(f *ssa.Function) absint.Model {
		if !absint.SigIs(f, []string{"interface{}"}, []string{"Node", "error"}) {
			return nil
		}
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			nt := f.Signature.Results().At(0).Type()
			tree = absint.NewTerm("tree", nt, document)
			got := absint.NewTerm("tree", nt, unbox(st.Resolve(args[0])))
			bad := st.Clone()
			var out []absint.Ret
			if st.Assume(absint.Eq(parseErr, absint.Nil(absint.ErrorT)), true) {
				out = append(out, absint.Ret{St: st, Vals: []absint.Val{got, absint.Nil(absint.ErrorT)}})
			}
			if bad.Assume(absint.Eq(parseErr, absint.Nil(absint.ErrorT)), false) {
				out = append(out, absint.Ret{St: bad, Vals: []absint.Val{absint.Nil(nt), parseErr}})
			}
			return out
		}
	}
	rets := a.Run(st, fn, []absint.Val{self, data})
	c.absorb(a, "ConditionsTree."+method, fn.Pos(), rets)
	at := func(i int64) absint.Val { return absint.ElemAt(data, absint.Int(i)) }
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			got := o.St.Resolve(o.St.Load(absint.FieldLoc(self, "ConditionsTree")))
			failed := o.NotNil(r.Vals[0])
			if method == "UnmarshalJSON" && o.Is(absint.Eq(absint.Len(data), absint.Int(2))) {
				is := func(x, y int64) bool {
					return o.Is(absint.Eq(at(0), absint.Int(x))) && o.Is(absint.Eq(at(1), absint.Int(y)))
				}
				if is('{', '}') || is('[', ']') {
					if failed || !absint.IsNil(got) {
						c.Fail("stored", fn.Name(), r.Pos, "empty conditions are read as %s (failed: %v)", got.K(), failed)
					} else {
						c.OK("stored")
					}
					return
				}
			}
			bad := o.NotNil(readErr) || o.NotNil(parseErr)
			switch {
			case bad && !failed:
				c.Fail("stored", fn.Name(), r.Pos, "the document could not be read, but no error is returned; path: %s", describe(o))
			case !bad && failed:
				c.Fail("stored", fn.Name(), r.Pos, "an error although the document was read; path: %s", describe(o))
			case !bad && (tree == nil || got.K() != tree.K()):
				c.Fail("stored", fn.Name(), r.Pos, "the tree stored is %s; path: %s", got.K(), describe(o))
			default:
				c.OK("stored")
			}
		})
	}
}
