package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"maplverif/absint"
)

// selection follows ANY and ALL together with the functions that choose their
// elements, for what their paths find in the data: the inner condition has to
// be evaluated once for each element found and for nothing else. Contents are
// open; only the shape is fixed.
func selection(c *C) {
	for _, typ := range []string{"Any", "All"} {
		for _, relative := range []bool{false, true} {
			for _, s := range parsedShapes() {
				if !c.selected(typ, true, relative, s) {
					return
				}
			}
			for _, s := range byteShapes() {
				if !c.selected(typ, false, relative, s) {
					return
				}
			}
		}
	}
	c.Want("elements selected", 90)
	c.Want("failed selection", 8)
}

// found is what the paths of a quantifier find, and the elements that stands for.
type found struct {
	name string
	all  bool // the path is $RELATIVE*: the entries of the context itself
	vals func(st *absint.State) []absint.Val
	want func(st *absint.State) []absint.Val
	keys []string // bytes: the entries of an object
	fail string   // nothing can be found: "no data" or "no answer"
}

func sym(n string) absint.Val { return absint.NewIface(absint.Sym(n, absint.StringT), anyT) }

func anyList(vs ...absint.Val) absint.Val {
	return absint.NewIface(absint.NewList(types.NewSlice(anyT), vs...), anyT)
}

func anyMap(st *absint.State, name string, keys ...string) absint.Val {
	var ks, vs []absint.Val
	for _, k := range keys {
		ks = append(ks, absint.Str(k))
		vs = append(vs, sym("value of "+k))
	}
	return absint.NewIface(st.NewMap(name, jsonKinds["object"], ks, vs), anyT)
}

func entries1(st *absint.State, keys ...string) []absint.Val {
	var out []absint.Val
	for _, k := range keys {
		out = append(out, anyMap(st, "wanted "+k, k))
	}
	return out
}

func parsedShapes() []found {
	syms := func(p string, n int) []absint.Val {
		var out []absint.Val
		for i := 0; i < n; i++ {
			out = append(out, sym(fmt.Sprintf("%s%d", p, i)))
		}
		return out
	}
	var out []found
	add := func(name string, vals, want func(st *absint.State) []absint.Val) {
		out = append(out, found{name: name, vals: vals, want: want})
	}
	none := func(st *absint.State) []absint.Val { return nil }
	one := func(v func(st *absint.State) absint.Val) func(st *absint.State) []absint.Val {
		return func(st *absint.State) []absint.Val { return []absint.Val{v(st)} }
	}
	add("nothing", one(func(st *absint.State) absint.Val { return absint.Nil(anyT) }), none)
	add("a single value", one(func(st *absint.State) absint.Val { return sym("x") }), none)
	for n := 0; n <= 4; n++ {
		n := n
		add(fmt.Sprintf("a list of %d", n), one(func(st *absint.State) absint.Val { return anyList(syms("x", n)...) }),
			func(st *absint.State) []absint.Val { return syms("x", n) })
	}
	add("a list of objects", one(func(st *absint.State) absint.Val {
		return anyList(anyMap(st, "m0", "a"), anyMap(st, "m1", "b", "c"), anyMap(st, "m2"))
	}), func(st *absint.State) []absint.Val {
		return []absint.Val{anyMap(st, "w0", "a"), anyMap(st, "w1", "b", "c"), anyMap(st, "w2")}
	})
	add("a list with nothing in it", one(func(st *absint.State) absint.Val {
		return anyList(sym("x"), absint.Nil(anyT), sym("y"), absint.Nil(anyT))
	}), func(st *absint.State) []absint.Val {
		return []absint.Val{sym("x"), absint.Nil(anyT), sym("y"), absint.Nil(anyT)}
	})
	add("a list of lists", one(func(st *absint.State) absint.Val {
		return anyList(anyList(syms("x", 2)...), anyList(), anyList(syms("y", 1)...))
	}), func(st *absint.State) []absint.Val { return append(syms("x", 2), syms("y", 1)...) })
	for n := 0; n <= 3; n++ {
		ks := []string{"k0", "k1", "k2"}[:n]
		add(fmt.Sprintf("an object of %d", n), one(func(st *absint.State) absint.Val { return anyMap(st, "m", ks...) }),
			func(st *absint.State) []absint.Val { return entries1(st, ks...) })
	}
	add("two lists", func(st *absint.State) []absint.Val {
		return []absint.Val{anyList(syms("x", 2)...), anyList(syms("y", 2)...)}
	}, func(st *absint.State) []absint.Val { return append(syms("x", 2), syms("y", 2)...) })
	add("nothing and a list", func(st *absint.State) []absint.Val {
		return []absint.Val{absint.Nil(anyT), anyList(syms("y", 2)...)}
	}, func(st *absint.State) []absint.Val { return syms("y", 2) })
	add("a list and an object", func(st *absint.State) []absint.Val {
		return []absint.Val{anyList(syms("x", 1)...), anyMap(st, "m", "k0", "k1")}
	}, func(st *absint.State) []absint.Val { return append(syms("x", 1), entries1(st, "k0", "k1")...) })
	for n := 0; n <= 3; n++ {
		ks := []string{"k0", "k1", "k2"}[:n]
		out = append(out, found{name: fmt.Sprintf("the %d entries of the context", n), all: true,
			vals: one(func(st *absint.State) absint.Val { return anyMap(st, "m", ks...) }),
			want: func(st *absint.State) []absint.Val { return entries1(st, ks...) }})
	}
	out = append(out, found{name: "the entries of a value", all: true, vals: one(func(st *absint.State) absint.Val { return sym("x") }), want: none})
	out = append(out, found{name: "no data", fail: "no data", vals: none})
	return out
}

// laid lays out a text of bytes: '.' is any character without a meaning of its
// own, '~' any character within a string, '!' any character after a backslash.
func laid(st *absint.State, text, name string) []absint.Val {
	var out []absint.Val
	bt := types.Typ[types.Uint8]
	char := func(r rune) absint.Val { return &absint.Const{V: constant.MakeInt64(int64(r)), T: bt} }
	for i, r := range text {
		open := ""
		switch r {
		case '.':
			open = `{}[]",\:`
		case '~':
			open = `"\`
		case '!':
			open = " "
		}
		if open == "" {
			out = append(out, char(r))
			continue
		}
		b := absint.Sym(fmt.Sprintf("%s%d", name, i), bt)
		for _, x := range strings.TrimSpace(open) {
			st.Assume(absint.Eq(b, char(x)), false)
		}
		out = append(out, b)
	}
	return out
}

func byteList(b []absint.Val) absint.Val { return absint.NewList(bytesT, b...) }

func byteShapes() []found {
	var out []found
	add := func(name string, texts ...string) {
		out = append(out, found{name: name,
			vals: func(st *absint.State) []absint.Val {
				var vs []absint.Val
				for i, t := range texts {
					t = strings.NewReplacer("<", "", ">", "").Replace(t)
					vs = append(vs, byteList(laid(st, t, fmt.Sprintf("b%d.", i))))
				}
				return vs
			},
			want: func(st *absint.State) []absint.Val { // what is between < and >
				var vs []absint.Val
				for i, t := range texts {
					all := laid(st, strings.NewReplacer("<", "", ">", "").Replace(t), fmt.Sprintf("b%d.", i))
					n, from := 0, 0
					for _, r := range t {
						switch r {
						case '<':
							from = n
						case '>':
							vs = append(vs, byteList(all[from:n]))
						default:
							n++
						}
					}
				}
				return vs
			}})
	}
	add("no bytes", "")
	add("a value", "..")
	add("an empty list", "[]")
	add("one object", `[<{..}>]`)
	add("an empty object in a list", `[<{}>]`)
	add("three objects", `[<{.}>,<{..}>,<{}>]`)
	add("objects within objects", `[<{.:{.},.:{{.}}}>,<{.}>]`)
	add("lists within objects", `[<{.:[{.},{.}]}>,<{.}>]`)
	add("lists deep within objects", `[<{.:{.:[.],.:[]}}>,<{.}>]`)
	add("strings", `[<{"~":"~~"}>,<{"~":.}>]`)
	add("strings with a backslash", `[<{"\!":"~\!\!~"}>,<{.}>]`)
	add("objects of several lists", `[[<{.}>,<{.}>],[<{..}>]]`)
	add("two paths", `[<{.}>,<{..}>]`, `[<{.}>]`)
	add("nothing and a list", ``, `[<{.}>]`)
	add("a list and nothing", `[<{.}>]`, ``)
	for n := 0; n <= 3; n++ {
		ks := []string{"k0", "k1", "k2"}[:n]
		out = append(out, found{name: fmt.Sprintf("an object of %d", n), keys: append([]string{"#"}, ks...),
			vals: func(st *absint.State) []absint.Val { return []absint.Val{byteList(laid(st, "{...}", "b"))} },
			want: func(st *absint.State) []absint.Val { return entries1(st, ks...) }})
	}
	none := func(st *absint.State) []absint.Val { return nil }
	out = append(out, found{name: "no data", fail: "no data", vals: none})
	out = append(out, found{name: "a failing path", fail: "no answer", vals: none})
	return out
}

// selected follows one quantifier and tells whether all of it could be followed.
func (c *C) selected(typ string, parsed, relative bool, s found) bool {
	if s.all && !relative {
		return true
	}
	t := c.newTree(typ, "Eval")
	if t == nil {
		return false
	}
	t.self = absint.SymPtr("node", t.fn.Params[0].Type())
	t.args[0] = t.self
	t.a.Unroll, t.a.MaxSteps, t.a.ByteText = 40, 60000, true
	t.a.ModelOf = nil
	doc := "RequestJsonRaw"
	if parsed {
		doc = "RequestRawInterface"
	}
	ctx := doc + "Relative"
	if relative {
		doc = ctx
	}
	eval := func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		p := st.Resolve(st.Load(absint.FieldLoc(args[1], ctx)))
		st.Mon["seen"] += c.written(a, st, st.Load(absint.LocOf(p))) + "\n"
		return []absint.Ret{{St: st, Vals: []absint.Val{absint.Bool(typ == "All"), absint.NewTerm("data", call.Sig.Results().At(1).Type())}}}
	}
	t.a.Models["Node.Eval"], t.a.Models["AnyAllNode.Eval"] = eval, eval

	st := t.a.NewState()
	root := absint.At(t.msg, doc)
	there := func(v absint.Val, is bool) { st.Assume(absint.Eq(v, absint.Nil(v.Typ())), !is) }
	there(absint.At(t.msg, "RequestRawInterface"), parsed)
	if parsed && s.fail == "no data" && !relative {
		return true // the other representation is looked at
	}
	there(root, s.fail != "no data")
	vals := s.vals(st)
	n := len(vals)
	if n == 0 {
		n = 1
	}
	pre := "$."
	if relative {
		pre = "$RELATIVE."
	}
	var paths, queries []absint.Val
	var text []string
	qt := fieldType(c.typ(typ), "PreparedJsonpathQuery").Underlying().(*types.Slice).Elem()
	for i := 0; i < n; i++ {
		x := fmt.Sprintf("%sp%d", pre, i)
		if s.all {
			x = "$RELATIVE*"
		}
		text = append(text, x)
		paths = append(paths, absint.Str(x))
		q := absint.Sym(fmt.Sprintf("query%d", i), qt)
		st.Assume(absint.Eq(q, absint.Nil(qt)), false)
		queries = append(queries, q)
	}
	st.StoreField(t.self, "ParentJsonpathAttribute", absint.Str(strings.Join(text, ",")))
	st.StoreField(t.self, "ParentJsonpathAttributeArray", absint.NewList(absint.StringsT, paths...))
	st.StoreField(t.self, "PreparedJsonpathQuery", absint.NewList(fieldType(c.typ(typ), "PreparedJsonpathQuery"), queries...))
	noerr := absint.Nil(absint.ErrorT)
	data := absint.Content(root)
	if s.all {
		st.Store(absint.LocOf(root), vals[0])
	}
	t.a.Models["call"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		for i, q := range queries {
			if q.K() == args[0].K() && len(args) == 2 {
				if args[1].K() != data.K() {
					return []absint.Ret{{St: st, Vals: []absint.Val{anyList(absint.NewIface(args[1], anyT)), noerr}}}
				}
				return []absint.Ret{{St: st, Vals: []absint.Val{s.vals(st)[i], noerr}}}
			}
		}
		return nil
	}
	t.a.Models["jsonslice.Get"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		if s.fail == "no answer" {
			return []absint.Ret{{St: st, Vals: []absint.Val{absint.Nil(bytesT), absint.NewTerm("newerr", absint.ErrorT)}}}
		}
		for i := range vals {
			if q, ok := absint.IsStr(args[1]); ok && q == fmt.Sprintf("$.p%d", i) && args[0].K() == data.K() {
				return []absint.Ret{{St: st, Vals: []absint.Val{vals[i], noerr}}}
			}
		}
		return []absint.Ret{{St: st, Vals: []absint.Val{byteList(append(append(laid(st, "[{", "o"), absint.NewTerm("found", types.Typ[types.Uint8], args...)), laid(st, "}]", "o")...)), noerr}}}
	}
	same := func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		return []absint.Ret{{St: st, Vals: []absint.Val{args[0]}}}
	}
	t.a.Models["pretty.Ugly"] = same
	t.a.Models["bytes.Join"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		parts, ok := a.ToList(st, args[0])
		sep, ok2 := a.ToList(st, args[1])
		if !ok || !ok2 || parts.Base != nil || sep.Base != nil {
			return nil
		}
		var all []absint.Val
		for i, p := range parts.Elems {
			if i > 0 {
				all = append(all, sep.Elems...)
			}
			l, ok := a.ToList(st, p)
			if !ok || l.Base != nil {
				return nil
			}
			all = append(all, l.Elems...)
		}
		return []absint.Ret{{St: st, Vals: []absint.Val{byteList(all)}}}
	}
	begins := func(whole bool) absint.Model {
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			x, ok := a.ToList(st, args[0])
			y, ok2 := a.ToList(st, args[1])
			if !ok || !ok2 || x.Base != nil || y.Base != nil {
				return nil
			}
			var out []absint.Ret
			end := func(st *absint.State, b bool) []absint.Ret {
				return append(out, absint.Ret{St: st, Vals: []absint.Val{absint.Bool(b)}})
			}
			if len(x.Elems) < len(y.Elems) || whole && len(x.Elems) != len(y.Elems) {
				return end(st, false)
			}
			for i := range y.Elems {
				is := absint.Eq(x.Elems[i], y.Elems[i])
				if no := st.Clone(); no.Assume(is, false) {
					out = end(no, false)
				}
				if !st.Assume(is, true) {
					return out
				}
			}
			return end(st, true)
		}
	}
	t.a.Models["bytes.HasPrefix"], t.a.Models["bytes.Equal"] = begins(false), begins(true)
	t.a.Models["json.Unmarshal"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		if len(s.keys) == 0 {
			return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("newerr", absint.ErrorT)}}}
		}
		l := absint.LocOf(unbox(args[1]))
		m := anyMap(st, "object", s.keys[1:]...)
		if absint.ShortType(l.T) == "map[string]interface{}" {
			m = unbox(m)
		} else if absint.ShortType(l.T) != "interface{}" {
			return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("newerr", absint.ErrorT)}}}
		}
		st.Store(l, m)
		return []absint.Ret{{St: st, Vals: []absint.Val{noerr}}}
	}
	t.a.Models["json.Marshal"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		return []absint.Ret{{St: st, Vals: []absint.Val{absint.NewTerm("json", bytesT, absint.Str(c.written(a, st, args[0]))), noerr}}}
	}

	rets := t.a.Run(st, t.fn, t.args)
	rep := "raw bytes"
	if parsed {
		rep = "parsed data"
	}
	if relative {
		rep += ", relative path"
	}
	what := fmt.Sprintf("%s on %s finding %s", t.name, rep, s.name)
	c.absorb(t.a, what, t.fn.Pos(), rets)
	n = 0
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		n++
		if s.fail != "" {
			if b, ok := absint.IsBool(r.St.Resolve(r.Vals[0])); !ok || b || r.St.Mon["seen"] != "" {
				c.Fail("failed selection", what, r.Pos, "%s is %s although its elements could not be selected", what, r.Vals[0].K())
			} else {
				c.OK("failed selection")
			}
			continue
		}
		var want []string
		for _, v := range s.want(r.St) {
			w := c.written(t.a, r.St, v)
			if !parsed && len(s.keys) > 0 {
				w = absint.NewTerm("json", bytesT, absint.Str(w)).K()
			}
			want = append(want, w)
		}
		got := strings.Split(strings.TrimSuffix(r.St.Mon["seen"], "\n"), "\n")
		if r.St.Mon["seen"] == "" {
			got = nil
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "\n") != strings.Join(got, "\n") {
			c.Fail("elements selected", what, r.Pos, "%s evaluates its condition for %s, the elements are %s", what, cut(fmt.Sprint(got), 300), cut(fmt.Sprint(want), 300))
			continue
		}
		c.OK("elements selected")
	}
	if n == 0 {
		c.Fail("elements selected", what, t.fn.Pos(), "%s: no way through was found", what)
	}
	return len(t.a.Undecided) == 0
}
