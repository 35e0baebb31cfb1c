package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// checkC18 follows the translation of rules whose condition tree has a fixed
// shape, with fixed paths and methods and arbitrary values, and compares the
// query built with the query the tree stands for.
func checkC18(c *C) {
	fn := c.fn("Rule.ToMongoQuery")
	if fn == nil {
		return
	}
	for _, s := range mongoTrees() {
		for _, base := range []string{"", "raw"} {
			c.translate(fn, s, base)
		}
	}
	c.Want("query", 200)
	c.Want("no translation", 60)
}

// mongoTree is a condition tree: a leaf, or a node with children.
type mongoTree struct {
	kind              string // And, Or, Not, Any, All, Condition, "" (no conditions)
	path              string // parent path of a quantifier, path of a leaf
	method            string
	children          []*mongoTree
	value             absint.Val
	plain             bool // the attribute is not a path
	query, pipe, fail string
}

func mleaf(path, method string) *mongoTree {
	return &mongoTree{kind: "Condition", path: path, method: method}
}

func mnode(kind string, children ...*mongoTree) *mongoTree {
	return &mongoTree{kind: kind, children: children}
}

func mquant(kind, path string, child *mongoTree) *mongoTree {
	return &mongoTree{kind: kind, path: path, children: []*mongoTree{child}}
}

func mongoTrees() []*mongoTree {
	var out []*mongoTree
	add := func(t ...*mongoTree) { out = append(out, t...) }
	add(&mongoTree{})
	for _, m := range []string{"EQ", "eq", "NEQ", "neq", "NE", "ne", "GT", "gt", "GE", "ge", "LT", "lt", "LE", "le", "EX", "ex", "NEX", "nex", "RE", "re", "NRE", "nre", "IN", "in", "NIN", "nin", "IS", "other"} {
		add(mleaf("jsonpath:$.a.b", m))
	}
	for _, p := range []string{"jsonpath:.a", "jsonpath:$.a.b['c d'].e", `jsonpath:$.a["b"]`, "jsonpath:$.a[0].b", "jsonpath:$.a[12]", "jsonpath:$RELATIVE.x",
		"jsonpath:$RELATIVE.x['y']", "jsonpath:$RELATIVE", "jsonpath:$..a", "jsonpath:$.a..b", "jsonpath:$RELATIVE..b", "jsonpath:$VALUE", "jsonpath:$KEY", "jsonpath:$VALUE.x", "jsonpath:$KEY.x", "jsonpath:$.a['b]", "jsonpath:$.a['b'", `jsonpath:$.a["b]`} {
		add(mleaf(p, "EQ"))
	}
	l := func() *mongoTree { return mleaf("jsonpath:$.a.b", "GE") }
	k := func() *mongoTree { return mleaf("jsonpath:$.c", "RE") }
	add(&mongoTree{kind: "Condition", path: "domain", method: "EQ", plain: true})
	for _, kind := range []string{"And", "Or"} {
		add(mnode(kind, l()), mnode(kind, l(), k()), mnode(kind, k(), l(), mleaf("jsonpath:$.d", "NEX")))
		add(mnode(kind, l(), mleaf("jsonpath:$.c", "IN")), mnode(kind, mleaf("jsonpath:$.c", "IN"), l()))
		add(mnode(kind, mnode("Or", l(), k()), mnode("And", k(), l())))
		add(mnode(kind, mquant("Any", "jsonpath:$.labels", mleaf("jsonpath:$VALUE", "EQ")), l(), mquant("Any", "jsonpath:$.names", mleaf("jsonpath:$KEY", "RE"))))
	}
	add(mnode("Not", l()), mnode("Not", mnode("And", l(), k())), mnode("Not", mnode("Or", l(), k())), mnode("Not", mnode("Not", l())), mnode("Not", mleaf("jsonpath:$.a", "NIN")))
	add(mnode("Not", mquant("Any", "jsonpath:$.labels", mleaf("jsonpath:$VALUE.x", "LT"))))
	r := func() *mongoTree { return mleaf("jsonpath:$RELATIVE.x", "EQ") }
	for _, kind := range []string{"Any", "All"} {
		for _, p := range []string{"jsonpath:$.list[:]", "jsonpath:$.list[*]", "jsonpath:.list[:]", "jsonpath:$.list", "jsonpath:$.o.list[:]", "jsonpath:$RELATIVE.list[:]", "jsonpath:$..list[:]", "jsonpath:$.list[:],$.other[:]", "jsonpath:$.a[:].b[:]"} {
			add(mquant(kind, p, r()))
		}
		p := "jsonpath:$.list[:]"
		add(mquant(kind, p, mnode("And", r(), mleaf("jsonpath:$RELATIVE.y", "NRE"))), mquant(kind, p, mnode("Or", r(), mleaf("jsonpath:$RELATIVE.y", "NE"))), mquant(kind, p, mnode("Not", r())), mquant(kind, p, mleaf("jsonpath:$RELATIVE.x", "IN")))
		add(mquant(kind, p, mquant("Any", "jsonpath:$RELATIVE.sub[:]", r())), mquant(kind, p, mquant("All", "jsonpath:$RELATIVE.sub[:]", r())))
		for _, v := range []string{"jsonpath:$VALUE", "jsonpath:$KEY", "jsonpath:$VALUE.x"} {
			add(mquant(kind, "jsonpath:$.labels", mleaf(v, "EQ")), mquant(kind, p, mleaf(v, "EQ")), mquant(kind, "jsonpath:$.labels", mnode("And", mleaf(v, "EQ"), mleaf(v, "NE"))))
			add(mquant(kind, "jsonpath:$.labels", mquant("Any", "jsonpath:$RELATIVE.o", mleaf(v, "EQ"))))
		}
		add(mquant(kind, "jsonpath:$.labels", mleaf("jsonpath:$KEY.x", "EQ")))
		add(mquant(kind, "jsonpath:$.labels", mnode("Not", mleaf("jsonpath:$KEY", "EQ"))), mquant(kind, "jsonpath:$.labels", mnode("Or", mleaf("jsonpath:$VALUE", "EQ"))))
	}
	return out
}

func (t *mongoTree) String() string {
	var s []string
	for _, ch := range t.children {
		s = append(s, ch.String())
	}
	switch t.kind {
	case "":
		return "no conditions"
	case "Condition":
		return t.path + " " + t.method
	case "Any", "All":
		return t.kind + " " + t.path + " (" + strings.Join(s, ", ") + ")"
	}
	return t.kind + "(" + strings.Join(s, ", ") + ")"
}

// build lays the tree out in memory.
func (t *mongoTree) build(c *C, st *absint.State, nodeT types.Type, n *int) absint.Val {
	*n++
	name := fmt.Sprintf("node%d", *n)
	typ := c.typ(t.kind)
	if typ == nil {
		return nil
	}
	self := absint.SymPtr(name, types.NewPointer(typ))
	set := func(f string, v absint.Val) { st.StoreField(self, f, v) }
	switch t.kind {
	case "Condition":
		t.value = absint.Sym(fmt.Sprintf("value%d", *n), absint.StringT)
		set("Attribute", absint.Str("jsonpath"))
		set("AttributeIsJsonpath", absint.Bool(true))
		if t.plain {
			set("Attribute", absint.Str(t.path))
			set("AttributeIsJsonpath", absint.Bool(false))
		}
		set("OriginalAttribute", absint.Str(t.path))
		set("Method", absint.Str(t.method))
		set("OriginalMethod", absint.Str(t.method))
		set("Value", t.value)
		set("OriginalValue", t.value)
	case "And", "Or":
		var kids []absint.Val
		for _, ch := range t.children {
			kids = append(kids, ch.build(c, st, nodeT, n))
		}
		set("Nodes", absint.NewList(fieldType(typ, "Nodes"), kids...))
	default:
		if t.kind != "Not" {
			set("ParentJsonpathAttributeOriginal", absint.Str(t.path))
			set("ParentJsonpathAttribute", absint.Str(strings.Replace(t.path, "jsonpath:", "", -1)))
		}
		set("Node", t.children[0].build(c, st, nodeT, n))
	}
	return absint.NewIface(self, nodeT)
}

// mq is a query and the steps that have to precede it.
type mq struct {
	query string
	steps []string
	fail  string
}

func obj(kv ...string) string {
	var s []string
	for i := 0; i+1 < len(kv); i += 2 {
		s = append(s, fmt.Sprintf("%q: %s", kv[i], kv[i+1]))
	}
	sort.Strings(s)
	return "{" + strings.Join(s, ", ") + "}"
}

func arr(s ...string) string { return "[" + strings.Join(s, ", ") + "]" }

// spec is the query a tree stands for. owner is the field of the quantifier
// directly above, depth the number of quantifiers and lists above.
func (t *mongoTree) spec(o *absint.Oracle, base, owner string, depth int) mq {
	switch t.kind {
	case "":
		return mq{query: "{}"}
	case "And", "Or":
		var qs, steps []string
		for _, ch := range t.children {
			q := ch.spec(o, base, "", depth)
			if q.fail != "" {
				return q
			}
			qs, steps = append(qs, q.query), append(steps, q.steps...)
		}
		return mq{query: obj("$"+strings.ToLower(t.kind), arr(qs...)), steps: steps}
	case "Not":
		q := t.children[0].spec(o, base, "", depth)
		if q.fail == "" {
			q.query = obj("$nor", arr(q.query))
		}
		return q
	case "Any", "All":
		if strings.Contains(t.path, "..") || strings.Contains(t.path, ",") {
			return mq{fail: "the parent path cannot be expressed"}
		}
		if strings.HasSuffix(t.path, "[:]") || strings.HasSuffix(t.path, "[*]") {
			depth++
		}
		f := strings.TrimPrefix(t.path, "jsonpath:")
		if strings.HasPrefix(f, "$RELATIVE.") {
			f = strings.TrimPrefix(f, "$RELATIVE.")
		} else {
			f = strings.TrimPrefix(strings.TrimPrefix(f, "$"), ".")
			if base != "" {
				f = base + "." + f
			}
		}
		f = strings.NewReplacer("[:]", "", "[*]", "").Replace(f)
		o2 := f
		if t.kind == "All" {
			o2 = ""
		}
		q := t.children[0].spec(o, base, o2, depth+1)
		if q.fail != "" {
			return q
		}
		if t.kind == "All" {
			if len(q.steps) > 0 {
				return mq{fail: "keys and values of ALL"}
			}
			q.query = obj("$nor", arr(obj(f, obj("$elemMatch", obj("$nor", arr(q.query))))))
		} else if len(q.steps) == 0 {
			q.query = obj(f, obj("$elemMatch", q.query))
		}
		return q
	}
	if t.plain {
		return mq{fail: "not a path"}
	}
	var f string
	var steps []string
	path := strings.TrimPrefix(t.path, "jsonpath:")
	switch {
	case strings.Contains(path, "..") || path == "$RELATIVE" || strings.HasPrefix(path, "$KEY."):
		return mq{fail: "the path cannot be expressed"}
	case strings.HasPrefix(path, "$RELATIVE."):
		f = strings.TrimPrefix(path, "$RELATIVE.")
	case strings.HasPrefix(path, "$VALUE"), strings.HasPrefix(path, "$KEY"):
		if depth >= 2 || owner == "" {
			return mq{fail: "keys and values below a list or not directly in ANY"}
		}
		f = "addedField." + owner
		steps = []string{obj("$addFields", obj(f, obj("$objectToArray", fmt.Sprintf("%q", "$"+owner))))}
		if path == "$KEY" {
			f += ".k"
		} else {
			f += ".v" + strings.TrimPrefix(path, "$VALUE")
		}
	default:
		f = strings.TrimPrefix(strings.TrimPrefix(path, "$"), ".")
		if base != "" {
			f = base + "." + f
		}
	}
	if strings.Count(f, "'")%2 != 0 || strings.Count(f, `"`)%2 != 0 || strings.Count(f, "[") != strings.Count(f, "]") {
		return mq{fail: "unbalanced path"}
	}
	f = strings.NewReplacer("'", "", `"`, "", "[", ".", "]", "").Replace(f)
	f = strings.Replace(f, "..", ".", -1)
	val := t.value.K()
	if !o.NotNil(absint.NewTerm("strconv.ParseFloat#err", absint.ErrorT, t.value, absint.Int(64))) {
		val = absint.NewTerm("strconv.ParseFloat#0", absint.FloatT, t.value, absint.Int(64)).K()
	}
	op := func(name, v string) string { return obj(f, obj(name, v)) }
	q := ""
	switch strings.ToUpper(t.method) {
	case "EQ":
		q = op("$eq", val)
	case "NE", "NEQ":
		q = op("$ne", val)
	case "GT", "LT":
		q = op("$"+strings.ToLower(t.method), val)
	case "GE", "LE":
		q = op("$"+strings.ToLower(t.method[:1])+"te", val)
	case "EX":
		q = op("$exists", "true")
	case "NEX":
		q = op("$exists", "false")
	case "RE":
		q = op("$regex", t.value.K())
	case "NRE":
		q = obj("$and", arr(op("$not", obj("$regex", t.value.K())), op("$exists", "true")))
	default:
		return mq{fail: "no such operator"}
	}
	return mq{query: q, steps: steps}
}

// written renders a query built by the analysed code.
func (c *C) written(a *absint.Analysis, st *absint.State, v absint.Val) string {
	v = unbox(st.Resolve(v))
	if ks, vs, ok := st.Entries(v); ok {
		var kv []string
		for i, k := range ks {
			s, isS := absint.IsStr(st.Resolve(k))
			if !isS {
				s = st.Resolve(k).K()
			}
			kv = append(kv, s, c.written(a, st, vs[i]))
		}
		return obj(kv...)
	}
	if _, ok := v.Typ().Underlying().(*types.Slice); ok {
		if l, ok := c.list(a, st, v); ok {
			var s []string
			for _, x := range l {
				s = append(s, c.written(a, st, x))
			}
			return arr(s...)
		}
	}
	if s, ok := absint.IsStr(v); ok {
		return fmt.Sprintf("%q", s)
	}
	return v.K()
}

func (c *C) translate(fn *ssa.Function, t *mongoTree, base string) {
	a := c.P.NewAnalysis()
	a.Unroll, a.Recurse = 8, 8
	st := a.NewState()
	treeT := fieldType(c.typ("Rule"), "Conditions")
	nodeT := fieldType(treeT, "ConditionsTree")
	rule := absint.SymPtr("rule", fn.Params[0].Type())
	st.StoreField(rule, "ruleAlreadyPrepared", absint.Bool(true))
	ready := absint.SymPtr("ready", fn.Params[0].Type())
	st.StoreField(rule, "preparedRule", ready)
	n := 0
	var root absint.Val = absint.Nil(nodeT)
	if t.kind != "" {
		root = t.build(c, st, nodeT, &n)
	}
	if root == nil {
		return
	}
	st.Store(absint.FieldLoc(ready, "Conditions").Field("ConditionsTree"), root)
	rets := a.Run(st, fn, []absint.Val{rule, absint.Str(base)})
	what := fmt.Sprintf("%s under %q", t, base)
	c.absorb(a, "query of "+what, fn.Pos(), rets)
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			failed := o.NotNil(r.Vals[1])
			want := t.spec(o, base, "", 0)
			typ := absint.FieldOf(r.Vals[0], "Type", absint.StringT)
			got := absint.FieldOf(r.Vals[0], "Query", anyT)
			if want.fail != "" {
				if !failed {
					c.Fail("no translation", what, r.Pos, "translated to %s although %s; path: %s", c.written(a, o.St, got), want.fail, describe(o))
				} else {
					c.OK("no translation")
				}
				return
			}
			if failed {
				c.Fail("query", what, r.Pos, "refused; path: %s", describe(o))
				return
			}
			wantQ, wantT := want.query, "simple"
			if len(want.steps) > 0 {
				wantQ, wantT = arr(append(want.steps, obj("$match", want.query))...), "aggregate"
			}
			if w := c.written(a, o.St, got); w != wantQ {
				c.Fail("query", what, r.Pos, "translated to %s instead of %s; path: %s", w, wantQ, describe(o))
				return
			}
			if s, ok := absint.IsStr(o.St.Resolve(typ)); !ok || s != wantT {
				c.Fail("query", what, r.Pos, "the query is said to be %s instead of %s", typ.K(), wantT)
				return
			}
			c.OK("query")
		})
	}
}
