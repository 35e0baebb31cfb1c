package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// checkC20 writes bounded trees with arbitrary texts as JSON, reads the
// written document back and compares the trees.
func checkC20(c *C) {
	fn := c.fn("ParseConditionsTree")
	if fn == nil {
		return
	}
	nodeT := fieldType(fieldType(c.typ("Rule"), "Conditions"), "ConditionsTree")
	l := func(n string) *ctree { return ct("Condition", n) }
	trees := []*ctree{
		l("a").returning("x"), l("a").returning("x", "y", "z"), l("a").returning(),
		ct("Any", "q", l("a").returning("x")).returning("x", "y"), ct("All", "q", l("a").returning("x")).returning("x", "y"),
		ct("And", "", l("a")), ct("Or", "", l("a")), ct("Not", "", ct("Not", "", l("a"))), ct("Not", "", ct("And", "", l("a"))),
		ct("Any", "q", ct("And", "", l("a"))), ct("All", "q", ct("Or", "", l("a"), l("b"))).returning("x"),
		ct("Any", "q", ct("All", "r", l("a")).returning("y")).returning("x"), ct("All", "q", ct("Any", "r", l("a")).returning("y")).returning("x"),
		ct("All", "q", ct("Not", "", l("a"))), ct("All", "q", ct("All", "r", ct("And", "", l("a"), l("b")))),
		ct("Or", "", ct("And", "", l("a"), ct("Not", "", ct("Or", "", l("b"), l("c")))), ct("Any", "q", l("d"))),
	}
	for _, g := range textTrees() {
		trees = append(trees, g...)
	}
	for _, t := range trees {
		for _, f := range []form{bare, parsed, prepared} {
			c.roundTrip(fn, nodeT, t, f)
		}
	}
	c.preparedForm("written", func(a *absint.Analysis, st *absint.State, x absint.Val) []absint.Ret {
		return a.JSON(st, x, &absint.Call{Ctx: "json"})
	})
	c.Want("written", 100)
	c.Want("read back", 100)
}

// roundTrip writes one tree and reads it.
func (c *C) roundTrip(fn *ssa.Function, nodeT types.Type, t *ctree, f form) {
	name := fmt.Sprintf("%s (%s)", t, f)
	a := c.P.NewAnalysis()
	a.Unroll, a.Recurse = 8, 10
	a.Models["json.Marshal"] = absint.MarshalJSON
	st := a.NewState()
	t.constPaths()
	root := t.lay(c, st, nodeT, f)
	if root == nil {
		return
	}
	p := absint.SymPtr("tree", types.NewPointer(c.typ("ConditionsTree")))
	st.StoreField(p, "ConditionsTree", root)
	rets := a.JSON(st, p, &absint.Call{Ctx: "json"})
	c.absorb(a, "JSON of "+name, 0, rets)
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		if len(r.Vals) > 1 {
			c.Fail("written", name, 0, "writing fails: %s", r.Vals[1].K())
			continue
		}
		c.readBack(fn, t, name, r.Vals[0])
	}
}

// readBack decodes the written text and follows the parser over it.
func (c *C) readBack(fn *ssa.Function, t *ctree, name string, text absint.Val) {
	p := &parse{c: c, name: name}
	a := c.P.NewAnalysis()
	p.a = a
	a.Unroll, a.Recurse = 8, 10
	p.st = a.NewState()
	a.Models["deepcopy.Copy"] = copyMap
	a.ModelOf = func(f *ssa.Function) absint.Model {
		if !absint.SigIs(f, []string{"*Condition"}, []string{"bool", "error"}) {
			return nil
		}
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			return []absint.Ret{{St: st, Vals: []absint.Val{absint.Bool(true), absint.Nil(absint.ErrorT)}}}
		}
	}
	d := &jsonDoc{p: p}
	d.load(text)
	doc, err := d.document()
	if err != nil {
		c.Fail("written", name, 0, "%v: %s", err, text.K())
		return
	}
	c.OK("written")
	want := t.want(p.st)
	rets := a.Run(p.st, fn, []absint.Val{doc})
	c.absorb(a, "reading back "+name, fn.Pos(), rets)
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			if o.NotNil(r.Vals[1]) {
				c.Fail("read back", name, r.Pos, "the written conditions are refused: %s; path: %s", text.K(), describe(o))
			} else if ok, diff := p.match(o, r.Vals[0], want); !ok {
				c.Fail("read back", name, r.Pos, "%s; written as %s", diff, text.K())
			} else {
				c.OK("read back")
			}
		})
	}
}

// constPaths gives the return paths texts the reader accepts.
func (t *ctree) constPaths() {
	if t.paths != nil {
		t.pathText = map[string]string{}
		for i, n := range t.paths {
			t.pathText[n] = writtenPaths[i%len(writtenPaths)]
			if t.kind != "Condition" {
				t.pathText[n] = writtenPaths[i%2*2]
			}
		}
	}
	for _, ch := range t.children {
		ch.constPaths()
	}
}

// want is the tree the reader has to build. Parent paths are those the reader
// accepts.
func (t *ctree) want(st *absint.State) *wantNode {
	w := &wantNode{kind: t.kind}
	for _, ch := range t.children {
		w.children = append(w.children, ch.want(st))
	}
	v := t.written()
	switch t.kind {
	case "Condition":
		w.attribute, w.method, w.value = v["Attribute"], v["Method"], v["Value"]
	case "Any", "All":
		w.parent = v["ParentJsonpathAttribute"]
		st.Assume(absint.Pred("HasPrefix", w.parent, absint.Str("jsonpath:$.")), true)
		st.Assume(absint.Eq(absint.NewTerm("ReplaceAll", absint.StringT, w.parent, absint.Str("jsonpath:"), absint.Str("")), absint.Str("")), false)
		st.Assume(absint.Eq(w.parent, absint.Str("")), false)
	}
	if len(t.paths) > 0 {
		w.paths = map[string]absint.Val{}
		for _, n := range t.paths {
			w.paths[n] = absint.Str(t.pathText[n])
		}
	}
	return w
}

// jsonDoc reads JSON text in which terms "json(x)" stand for quoted texts.
type jsonDoc struct {
	p    *parse
	toks []absint.Val // one character, or a term
	i    int
}

func (d *jsonDoc) load(text absint.Val) {
	for _, x := range pieces(text) {
		if s, ok := absint.IsStr(x); ok {
			for _, r := range s {
				d.toks = append(d.toks, absint.Str(string(r)))
			}
			continue
		}
		d.toks = append(d.toks, x)
	}
}

func (d *jsonDoc) peek() string {
	if d.i >= len(d.toks) {
		return ""
	}
	s, _ := absint.IsStr(d.toks[d.i])
	return s
}

func (d *jsonDoc) space() {
	for d.peek() != "" && strings.TrimSpace(d.peek()) == "" {
		d.i++
	}
}

func (d *jsonDoc) expect(s string) error {
	d.space()
	if d.peek() != s {
		return fmt.Errorf("%q expected in the written text at %s", s, d.at())
	}
	d.i++
	return nil
}

func (d *jsonDoc) at() string {
	if d.i >= len(d.toks) {
		return "its end"
	}
	return d.toks[d.i].K()
}

func (d *jsonDoc) document() (absint.Val, error) {
	v, err := d.value()
	if err != nil {
		return nil, err
	}
	d.space()
	if d.i < len(d.toks) {
		return nil, fmt.Errorf("text after the end of the document")
	}
	return v, nil
}

// str reads a quoted text without unknown parts.
func (d *jsonDoc) str() (string, error) {
	if err := d.expect(`"`); err != nil {
		return "", err
	}
	b := `"`
	for {
		if d.i >= len(d.toks) {
			return "", fmt.Errorf("unclosed text")
		}
		s := d.peek()
		if s == "" {
			return "", fmt.Errorf("%s is written between quotes without escaping", d.at())
		}
		d.i++
		b += s
		if s == `\` {
			b += d.peek()
			d.i++
			continue
		}
		if s == `"` {
			var out string
			err := json.Unmarshal([]byte(b), &out)
			return out, err
		}
	}
}

func (d *jsonDoc) value() (absint.Val, error) {
	d.space()
	if d.i >= len(d.toks) {
		return nil, fmt.Errorf("the text ends too early")
	}
	if t, ok := d.toks[d.i].(*absint.Term); ok {
		if t.Op != absint.JSONText {
			return nil, fmt.Errorf("%s is written without quotes and escaping", t.K())
		}
		d.i++
		return d.p.box(t.Args[0]), nil
	}
	switch s := d.peek(); {
	case s == "{":
		d.i++
		vals := map[string]absint.Val{}
		var keys []string
		d.space()
		if d.peek() == "}" {
			d.i++
			return d.p.mapping(nil, nil), nil
		}
		for {
			d.space()
			k, err := d.str()
			if err != nil {
				return nil, err
			}
			if err := d.expect(":"); err != nil {
				return nil, err
			}
			v, err := d.value()
			if err != nil {
				return nil, err
			}
			if vals[k] == nil {
				keys = append(keys, k)
			}
			vals[k] = v
			d.space()
			if d.peek() == "," {
				d.i++
				continue
			}
			if err := d.expect("}"); err != nil {
				return nil, err
			}
			sort.Strings(keys)
			var vs []absint.Val
			for _, k := range keys {
				vs = append(vs, vals[k])
			}
			return d.p.mapping(keys, vs), nil
		}
	case s == "[":
		d.i++
		var vs []absint.Val
		d.space()
		if d.peek() == "]" {
			d.i++
			return d.p.sequence(vs), nil
		}
		for {
			v, err := d.value()
			if err != nil {
				return nil, err
			}
			vs = append(vs, v)
			d.space()
			if d.peek() == "," {
				d.i++
				continue
			}
			if err := d.expect("]"); err != nil {
				return nil, err
			}
			return d.p.sequence(vs), nil
		}
	case s == `"`:
		s, err := d.str()
		return d.p.box(absint.Str(s)), err
	}
	b := ""
	for s := d.peek(); s != "" && !strings.Contains(",]}", s) && strings.TrimSpace(s) != ""; s = d.peek() {
		b += s
		d.i++
	}
	switch b {
	case "null":
		return absint.Nil(anyT), nil
	case "true", "false":
		return d.p.box(absint.Bool(b == "true")), nil
	}
	var n int64
	if json.Unmarshal([]byte(b), &n) == nil {
		return d.p.box(absint.Int(n)), nil
	}
	return nil, fmt.Errorf("%q is no JSON value", b+d.peek())
}

// preparedForm prepares a single condition and a quantifier and checks that
// they are rendered as if they had not been prepared.
func (c *C) preparedForm(rule string, render func(a *absint.Analysis, st *absint.State, x absint.Val) []absint.Ret) {
	for _, kind := range []string{"Condition", "Any", "All"} {
		fn := c.fn(kind + ".PrepareAndValidate")
		typ := c.typ(kind)
		if fn == nil || typ == nil {
			return
		}
		a := c.P.NewAnalysis()
		a.Unroll, a.Recurse = 3, 8
		a.Models["json.Marshal"] = absint.MarshalJSON
		nodeT := fieldType(c.typ("Not"), "Node")
		a.Models["Node.PrepareAndValidate"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("error of the child", absint.ErrorT)}}}
		}
		a.Models["Node.String"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			return []absint.Ret{{St: st, Vals: []absint.Val{absint.Sym("text of the child", absint.StringT)}}}
		}
		a.ModelOf = func(f *ssa.Function) absint.Model {
			if absint.SigIs(f, []string{"string"}, []string{"string", "float64"}) || absint.SigIs(f, []string{"string", "string"}, []string{"string"}) {
				return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
					return []absint.Ret{{St: st, Vals: absint.OpaqueResults(f.Name(), f.Signature, args)}}
				}
			}
			if !absint.SigIs(f, []string{"*Condition"}, []string{"bool", "error"}) {
				return nil
			}
			return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
				return []absint.Ret{{St: st, Vals: []absint.Val{absint.Bool(true), absint.Nil(absint.ErrorT)}}}
			}
		}
		st := a.NewState()
		t := ct(kind, "p")
		if kind != "Condition" {
			t.children = []*ctree{ct("Condition", "child")}
		}
		var objs []absint.Val
		for _, who := range []string{"prepared", "unprepared"} {
			x := absint.SymPtr(who, types.NewPointer(typ))
			f := parsed
			t.layAt(c, st, nodeT, f, x)
			if kind != "Condition" {
				st.StoreField(x, "Node", absint.Param("child", nodeT))
			}
			objs = append(objs, x)
		}
		if v := t.written()["Value"]; v != nil {
			st.Assume(absint.Pred("HasPrefix", v, absint.Str("#")), false)
		}
		args := []absint.Val{objs[0]}
		for _, prm := range fn.Params[1:] {
			args = append(args, absint.Param(prm.Name(), prm.Type()))
		}
		rets := a.Run(st, fn, args)
		c.absorb(a, kind+" prepared", fn.Pos(), rets)
		n := 0
		for _, r := range rets {
			if r.Panic != "" || len(r.Vals) != 1 || !r.St.Assume(absint.Eq(r.Vals[0], absint.Nil(absint.ErrorT)), true) {
				continue
			}
			a.Steps = 0 // each pair of renderings has the whole budget
			var texts [2]absint.Val
			var key [2]string
			for i, x := range objs {
				for _, o := range render(a, r.St.Clone(), x) {
					if o.Panic == "" {
						texts[i] = o.Vals[0]
						key[i] += " / " + r.St.Resolve(o.Vals[0]).K()
					}
				}
			}
			if texts[0] == nil || key[0] != key[1] {
				c.Fail(rule, kind+" after preparation", r.Pos, "rendered as %s, before preparation as %s", key[0], key[1])
			} else {
				c.OK(rule)
				n++
			}
		}
		if n == 0 {
			c.Fail(rule, kind+" after preparation", fn.Pos(), "no successful preparation found")
		}
	}
}
