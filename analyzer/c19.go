package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// ctree is a condition tree with arbitrary texts in it.
type ctree struct {
	kind     string
	name     string // tells the texts of this node from those of the others
	children []*ctree
	at       int
	paths    []string          // names of its return paths
	pathText map[string]string // the return paths, if they are fixed
}

func ct(kind, name string, children ...*ctree) *ctree {
	return &ctree{kind: kind, name: name, children: children}
}

func (t *ctree) returning(names ...string) *ctree {
	t.paths = names
	return t
}

func (t *ctree) String() string {
	var s []string
	for _, ch := range t.children {
		s = append(s, ch.String())
	}
	out := t.kind + " " + t.name
	if t.kind == "And" || t.kind == "Or" || t.kind == "Not" {
		out = t.kind
	}
	if len(s) > 0 {
		out += "(" + strings.Join(s, ", ") + ")"
	}
	if t.paths != nil {
		out += " returning"
	}
	return out
}

// number tells the nodes of a tree apart.
func (t *ctree) number(n *int) {
	for _, ch := range t.children {
		ch.number(n)
	}
	*n++
	t.at = *n
}

// written are the texts of a leaf or quantifier.
func (t *ctree) written() map[string]absint.Val {
	sym := func(f string) absint.Val { return absint.Sym(f+" of "+t.name, absint.StringT) }
	switch t.kind {
	case "Condition":
		return map[string]absint.Val{"Attribute": sym("attribute"), "Method": sym("method"), "Value": sym("value")}
	case "Any", "All":
		return map[string]absint.Val{"ParentJsonpathAttribute": sym("parent")}
	}
	return nil
}

// form tells in which of the fields of a node the written texts are.
type form int

const (
	bare     form = iota // as put together by hand
	parsed               // as left by the parser
	prepared             // as left by the preparation
)

func (f form) String() string { return [...]string{"bare", "parsed", "prepared"}[f] }

// lay puts the tree into memory.
func (t *ctree) lay(c *C, st *absint.State, nodeT types.Type, f form) absint.Val {
	t.number(new(int))
	return t.layNode(c, st, nodeT, f)
}

func (t *ctree) layNode(c *C, st *absint.State, nodeT types.Type, f form) absint.Val {
	typ := c.typ(t.kind)
	if typ == nil {
		return nil
	}
	self := absint.SymPtr(fmt.Sprintf("node %d %s %s", t.at, t.kind, t.name), types.NewPointer(typ))
	t.layAt(c, st, nodeT, f, self)
	return absint.NewIface(self, nodeT)
}

func (t *ctree) layAt(c *C, st *absint.State, nodeT types.Type, f form, self absint.Val) {
	typ := c.typ(t.kind)
	set := func(f string, v absint.Val) { st.StoreField(self, f, v) }
	nonEmpty := func(v absint.Val) {
		st.Assume(absint.Lt(absint.Int(0), absint.Len(v)), true)
		st.Assume(absint.Eq(v, absint.Str("")), false)
	}
	original := func(name string) string {
		if t.kind == "Condition" {
			return "Original" + name
		}
		return name + "Original"
	}
	for name, v := range t.written() {
		if name != "Value" {
			nonEmpty(v)
		}
		replaced := f == prepared || f == parsed && t.kind != "Condition"
		if replaced {
			set(original(name), v)
			set(name, absint.Sym("replaced "+v.K(), absint.StringT))
		} else {
			set(original(name), absint.Str(""))
			set(name, v)
		}
	}
	if t.kind == "Condition" || t.kind == "Any" || t.kind == "All" {
		mt := fieldType(typ, "ReturnValueJsonpath")
		table := func(tag string) absint.Val {
			if t.paths == nil {
				return absint.Nil(mt)
			}
			var ks, vs []absint.Val
			for _, n := range t.paths {
				ks = append(ks, absint.Str(n))
				v := absint.Sym(tag+"path "+n+" of "+t.name, absint.StringT)
				if w := t.pathText[n]; w != "" {
					v = absint.Str(tag + w)
				}
				vs = append(vs, v)
			}
			return st.NewMap(tag+"paths of "+t.name, mt, ks, vs)
		}
		if f == bare {
			set("ReturnValueJsonpath", table(""))
			set("ReturnValueJsonpathOriginal", absint.Nil(mt))
		} else {
			set("ReturnValueJsonpath", table("replaced "))
			set("ReturnValueJsonpathOriginal", table(""))
		}
	}
	switch t.kind {
	case "And", "Or":
		var kids []absint.Val
		for _, ch := range t.children {
			kids = append(kids, ch.layNode(c, st, nodeT, f))
		}
		set("Nodes", absint.NewList(fieldType(typ, "Nodes"), kids...))
	case "Not", "Any", "All":
		set("Node", t.children[0].layNode(c, st, nodeT, f))
	}
}

// permutations of the children of every AND and OR node.
func (t *ctree) permutations() []*ctree {
	opts := [][]*ctree{nil}
	for _, ch := range t.children {
		var next [][]*ctree
		for _, o := range opts {
			for _, p := range ch.permutations() {
				next = append(next, append(append([]*ctree{}, o...), p))
			}
		}
		opts = next
	}
	var out []*ctree
	for _, kids := range opts {
		orders := [][]*ctree{kids}
		if t.kind == "And" || t.kind == "Or" {
			orders = shuffles(kids)
		}
		for _, k := range orders {
			out = append(out, &ctree{kind: t.kind, name: t.name, paths: t.paths, children: k})
		}
	}
	return out
}

func shuffles(l []*ctree) [][]*ctree {
	if len(l) <= 1 {
		return [][]*ctree{l}
	}
	var out [][]*ctree
	for i := range l {
		rest := append(append([]*ctree{}, l[:i]...), l[i+1:]...)
		for _, s := range shuffles(rest) {
			out = append(out, append([]*ctree{l[i]}, s...))
		}
	}
	return out
}

func pieces(v absint.Val) []absint.Val {
	if t, ok := v.(*absint.Term); ok && t.Op == "cat" {
		return t.Args
	}
	return []absint.Val{v}
}

// contains tells whether text v carries x, as one of its pieces.
func contains(v, x absint.Val) bool {
	for _, p := range pieces(v) {
		if p.K() == x.K() {
			return true
		}
	}
	return false
}

func textTrees() [][]*ctree {
	l := func(n string) *ctree { return ct("Condition", n) }
	// the trees of one group mean different things with the same conditions
	return [][]*ctree{
		{l("a"), ct("Not", "", l("a")), ct("Any", "q", l("a")), ct("All", "q", l("a")), ct("Not", "", ct("Any", "q", l("a"))), ct("Any", "q", ct("Not", "", l("a"))), ct("Any", "q", l("a")).returning("x"), ct("All", "q", l("a")).returning("x")},
		{ct("And", "", l("a"), l("b")), ct("Or", "", l("a"), l("b")), ct("Not", "", ct("And", "", l("a"), l("b"))), ct("Not", "", ct("Or", "", l("a"), l("b"))),
			ct("And", "", ct("Not", "", l("a")), l("b")), ct("And", "", l("a"), ct("Not", "", l("b"))), ct("Or", "", ct("Not", "", l("a")), l("b")),
			ct("Any", "q", ct("And", "", l("a"), l("b"))), ct("And", "", ct("Any", "q", l("a")), l("b")), ct("All", "q", ct("Or", "", l("a"), l("b"))), ct("Or", "", ct("All", "q", l("a")), l("b"))},
		{ct("And", "", l("a"), l("b"), l("c")), ct("Or", "", l("a"), l("b"), l("c")), ct("And", "", l("a"), ct("Or", "", l("b"), l("c"))), ct("Or", "", l("a"), ct("And", "", l("b"), l("c"))),
			ct("And", "", ct("Or", "", l("a"), l("b")), l("c")), ct("Or", "", ct("And", "", l("a"), l("b")), l("c"))},
		{ct("And", "", ct("Any", "q", l("a")), ct("All", "r", l("b")), l("c")), ct("And", "", ct("All", "q", l("a")), ct("Any", "r", l("b")), l("c")), ct("And", "", ct("Any", "q", ct("All", "r", l("b"))), l("a"), l("c"))},
	}
}

// checkC19 follows the rendering of rules and condition trees.
func checkC19(c *C) {
	nodeT := fieldType(fieldType(c.typ("Rule"), "Conditions"), "ConditionsTree")
	for _, group := range textTrees() {
		texts := map[string]*ctree{}
		for _, t := range group {
			base := ""
			for _, p := range t.permutations() {
				for _, f := range []form{bare, parsed, prepared} {
					text := c.render(nodeT, p, f)
					if text == nil {
						return
					}
					if base == "" {
						base = text.K()
						c.carries(p, text)
						if o := texts[base]; o != nil {
							c.Fail("distinct", t.String(), 0, "renders the same as %s", o)
						} else {
							c.OK("distinct")
						}
						texts[base] = t
						continue
					}
					if text.K() != base {
						c.Fail("canonical", t.String(), 0, "%s (%s) renders as %s, but %s as %s", p, f, text.K(), t, base)
					} else {
						c.OK("canonical")
					}
				}
			}
		}
	}
	c.preparedForm("prepared", func(a *absint.Analysis, st *absint.State, x absint.Val) []absint.Ret {
		return a.Inline(st, a.MethodOf(x, "String"), []absint.Val{x}, &absint.Call{Ctx: "text"}, "text")
	})
	c.ruleText(nodeT)
	c.Want("distinct", 20)
	c.Want("canonical", 120)
	c.Want("carried", 60)
	c.Want("prepared", 10)
	c.Want("rule text", 12)
	c.Want("hash", 4)
}

// textOf runs a function giving text, following the trees in memory.
func (c *C) textOf(fn *ssa.Function, setup func(st *absint.State) []absint.Val) (absint.Val, *absint.State) {
	a := c.P.NewAnalysis()
	a.Unroll, a.Recurse, a.SortAny = 8, 8, true
	st := a.NewState()
	args := setup(st)
	if args == nil {
		return nil, nil
	}
	rets := a.Run(st, fn, args)
	c.absorb(a, fn.String(), fn.Pos(), rets)
	var text absint.Val
	var at *absint.State
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		v := r.St.Resolve(r.Vals[0])
		if text != nil && text.K() != v.K() {
			c.Fail("canonical", fn.Name(), r.Pos, "the text is %s or %s, depending on something else than the rule", text.K(), v.K())
			return nil, nil
		}
		text, at = v, r.St
	}
	if text == nil {
		c.Fail("canonical", fn.Name(), fn.Pos(), "no text is returned")
	}
	return text, at
}

func (c *C) render(nodeT types.Type, t *ctree, f form) absint.Val {
	fn := c.fn(t.kind + ".String")
	if fn == nil {
		return nil
	}
	text, _ := c.textOf(fn, func(st *absint.State) []absint.Val {
		v := t.lay(c, st, nodeT, f)
		if v == nil {
			return nil
		}
		return []absint.Val{unbox(v)}
	})
	return text
}

// carries checks that every text of the tree is part of the rendered text.
func (c *C) carries(t *ctree, text absint.Val) {
	var walk func(n *ctree)
	walk = func(n *ctree) {
		w := n.written()
		var names []string
		for k := range w {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if !contains(text, w[k]) {
				c.Fail("carried", n.kind+" "+k, 0, "the %s is missing from the text %s of %s", w[k].K(), text.K(), t)
			} else {
				c.OK("carried")
			}
		}
		if n.kind != "Condition" {
			for _, p := range n.paths {
				if s := text.K(); !strings.Contains(s, "paths of "+n.name) && !strings.Contains(s, "path "+p+" of "+n.name) {
					c.Fail("carried", n.kind+" return paths", 0, "the return path %s is missing from the text %s of %s", p, s, t)
				} else {
					c.OK("carried")
				}
			}
		}
		for _, ch := range n.children {
			walk(ch)
		}
	}
	walk(t)
}

// ruleText checks that the parts of a rule are parts of its text, its own
// parts only, and that the hashes are hashes of the texts.
func (c *C) ruleText(nodeT types.Type) {
	type part struct {
		path  []string
		anyCs bool // upper and lower case mean the same
	}
	parts := []part{{[]string{"Decision"}, true}, {[]string{"Sender", "SenderType"}, true}, {[]string{"Sender", "SenderName"}, false}, {[]string{"Receiver", "ReceiverType"}, true}, {[]string{"Receiver", "ReceiverName"}, false},
		{[]string{"Operation"}, true}, {[]string{"Protocol"}, true}, {[]string{"Resource", "ResourceType"}, true}, {[]string{"Resource", "ResourceName"}, false}}
	fns := map[string]*ssa.Function{}
	for _, n := range []string{"RuleToString", "RuleConditionsToString", "RuleMD5Hash", "RuleMD5HashConditions", "Rule.ConditionsEqual", "Rule.String"} {
		if fns[n] = c.fn(n); fns[n] == nil {
			return
		}
	}
	for _, tree := range []*ctree{nil, ct("Condition", "a"), ct("And", "", ct("Condition", "a"), ct("Condition", "b"))} {
		lay := func(st *absint.State, name string) absint.Val {
			p := absint.SymPtr(name, types.NewPointer(c.typ("Rule")))
			var root absint.Val = absint.Nil(nodeT)
			if tree != nil {
				t := *tree
				root = t.lay(c, st, nodeT, parsed)
			}
			st.Store(absint.FieldLoc(p, "Conditions").Field("ConditionsTree"), root)
			return st.Load(absint.LocOf(p))
		}
		one := func(st *absint.State) []absint.Val { return []absint.Val{lay(st, "rule")} }
		run := func(n string) absint.Val {
			v, _ := c.textOf(fns[n], one)
			return v
		}
		text, conds := run("RuleToString"), run("RuleConditionsToString")
		if text == nil || conds == nil {
			return
		}
		if s := run("Rule.String"); s == nil || s.K() != text.K() {
			c.Fail("rule text", "Rule.String", fns["Rule.String"].Pos(), "differs from the text of the rule")
		} else {
			c.OK("rule text")
		}
		for _, p := range parts {
			v := absint.Sym("rule."+strings.Join(p.path, "."), absint.StringT)
			low := absint.NewTerm("strings.ToLower", absint.StringT, v)
			up := absint.NewTerm("strings.ToUpper", absint.StringT, v)
			if contains(text, v) || p.anyCs && (contains(text, low) || contains(text, up)) {
				c.OK("rule text")
			} else {
				c.Fail("rule text", strings.Join(p.path, "."), fns["RuleToString"].Pos(), "is not part of the text %s", text.K())
			}
		}
		if tree == nil {
			if _, ok := absint.IsStr(conds); !ok {
				c.Fail("rule text", "no conditions", fns["RuleConditionsToString"].Pos(), "a rule without conditions renders as %s", conds.K())
			}
		} else {
			c.carries(tree, conds)
			c.carries(tree, text)
		}
		for h, t := range map[string]absint.Val{"RuleMD5Hash": text, "RuleMD5HashConditions": conds} {
			v := run(h)
			if v == nil {
				return
			}
			if c.hashOf(v, t) {
				c.OK("hash")
			} else {
				c.Fail("hash", h, fns[h].Pos(), "%s is not a hash of the text %s alone", v.K(), t.K())
			}
		}
	}
	c.equalConditions(fns["Rule.ConditionsEqual"], nodeT)
}

// hashOf tells whether v is computed from text t and from nothing else.
func (c *C) hashOf(v, t absint.Val) bool {
	found := false
	var walk func(x absint.Val) bool
	walk = func(x absint.Val) bool {
		if x.K() == t.K() {
			found = true
			return true
		}
		switch x := x.(type) {
		case *absint.Const:
			return true
		case *absint.IfaceV:
			return walk(x.X)
		case *absint.ListV:
			for _, e := range x.Elems {
				if !walk(e) {
					return false
				}
			}
			return x.Base == nil
		case *absint.Term:
			switch x.Op {
			case "strings.ToLower", "strings.ToUpper", "substr", "len":
				return false // loses part of the text
			}
			if len(x.Args) == 0 {
				return false
			}
			for _, a := range x.Args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		return false
	}
	return walk(v) && found
}

// equalConditions checks that rules have equal conditions when their
// conditions have the same text, and only then.
func (c *C) equalConditions(fn *ssa.Function, nodeT types.Type) {
	l := func(n string) *ctree { return ct("Condition", n) }
	for _, k := range []struct {
		x, y *ctree
		same bool
	}{
		{ct("And", "", l("a"), l("b")), ct("And", "", l("b"), l("a")), true},
		{ct("And", "", l("a"), l("b")), ct("Or", "", l("a"), l("b")), false},
		{l("a"), l("b"), false},
		{l("a"), nil, false},
		{nil, nil, true},
	} {
		v, st := c.textOf(fn, func(st *absint.State) []absint.Val {
			var out []absint.Val
			for i, t := range []*ctree{k.x, k.y} {
				p := absint.SymPtr(fmt.Sprintf("rule%d", i), types.NewPointer(c.typ("Rule")))
				var root absint.Val = absint.Nil(nodeT)
				if t != nil {
					root = t.lay(c, st, nodeT, parsed)
				}
				st.Store(absint.FieldLoc(p, "Conditions").Field("ConditionsTree"), root)
				out = append(out, st.Load(absint.LocOf(p)))
			}
			return out
		})
		if v == nil {
			return
		}
		d, known := st.Decide(v)
		if k.same && !(known && d) || !k.same && known && d {
			c.Fail("hash", "ConditionsEqual", fn.Pos(), "the conditions of %v and %v are said to be equal: %s", k.x, k.y, v.K())
		} else {
			c.OK("hash")
		}
	}
}
