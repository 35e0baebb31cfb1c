package main

import (
	"fmt"
	"go/types"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// boundedTree is newTree with lists of known length: evaluating a child gives
// 0 to 2 return values, each a term of its own, and selecting gives 0 to 3
// elements.
func (c *C) boundedTree(typ, method string, sel, data int) *treeRun {
	t := c.newTree(typ, method)
	if t == nil {
		return nil
	}
	t.a.Unroll = 6
	t.a.MaxSteps = 4000000
	t.a.Models["Node.Eval"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		x := append([]absint.Val{args[0]}, t.with(st, args[1])...)
		dt := call.Sig.Results().At(1).Type()
		n := dataLen(x...)
		var out []absint.Ret
		for k := 0; k <= data; k++ {
			s := st.Clone()
			if !s.Assume(absint.Eq(n, absint.Int(int64(k))), true) {
				continue
			}
			out = append(out, absint.Ret{St: s, Vals: []absint.Val{absint.Pred("holds", x...), absint.NewList(dt, entries(dt, k, x...)...)}})
		}
		return out
	}
	t.a.Models["AnyAllNode.Eval"] = t.a.Models["Node.Eval"]
	inner := t.a.ModelOf
	t.a.ModelOf = func(fn *ssa.Function) absint.Model {
		m := inner(fn)
		if m == nil {
			return nil
		}
		res := fn.Signature.Results()
		if res.Len() != 2 {
			return nil // extraction is analysed, not abstracted
		}
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			var out []absint.Ret
			for _, r := range m(a, st, args, call) {
				for k := 0; k <= sel; k++ {
					s := r.St.Clone()
					if s.Assume(absint.Eq(absint.Len(r.Vals[0]), absint.Int(int64(k))), true) {
						out = append(out, absint.Ret{St: s, Vals: r.Vals})
					}
				}
			}
			return out
		}
	}
	return t
}

var bytesT = types.Type(types.NewSlice(types.Universe.Lookup("byte").Type()))

func dataLen(x ...absint.Val) absint.Val { return absint.NewTerm("datalen", absint.IntT, x...) }

func entries(dt types.Type, k int, x ...absint.Val) []absint.Val {
	var out []absint.Val
	for i := 0; i < k; i++ {
		out = append(out, absint.NewTerm("entry", dt.Underlying().(*types.Slice).Elem(), append(append([]absint.Val{}, x...), absint.Int(int64(i)))...))
	}
	return out
}

func keysOf(vs []absint.Val) string {
	var s []string
	for _, v := range vs {
		s = append(s, v.K())
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// list reads returned data as explicit elements.
func (c *C) list(a *absint.Analysis, st *absint.State, v absint.Val) ([]absint.Val, bool) {
	l, ok := a.ToList(st, st.Resolve(v))
	if !ok || l.Base != nil {
		return nil, false
	}
	return l.Elems, true
}

func checkC24(c *C) {
	and, or := 0, 0
	for n := 0; n <= 3; n++ {
		for _, typ := range []string{"And", "Or"} {
			t := c.boundedTree(typ, "Eval", 0, 2)
			if t == nil {
				return
			}
			nodes := absint.At(t.self, "Nodes")
			rets := t.run(func(st *absint.State) { st.Assume(absint.Eq(absint.Len(nodes), absint.Int(int64(n))), true) })
			c.absorb(t.a, t.name, t.fn.Pos(), rets)
			for _, r := range rets {
				if r.Panic != "" {
					continue
				}
				absint.Complete(r.St, func(o *absint.Oracle) {
					verdict := o.Is(r.Vals[0])
					got, ok := c.list(t.a, o.St, r.Vals[1])
					if !ok {
						c.Fail("data of "+typ, t.name, r.Pos, "the return data %s cannot be traced to the children", r.Vals[1].K())
						return
					}
					dt := r.Vals[1].Typ()
					if !verdict {
						if len(got) != 0 {
							c.Fail("data of "+typ, t.name+" false", r.Pos, "%s is false but returns data %s; path: %s", t.name, keysOf(got), describe(o))
							return
						}
						c.OK("data of " + typ)
						return
					}
					var want []absint.Val
					own := map[string]bool{}
					for i := 0; i < n; i++ {
						ch := absint.ElemAt(nodes, absint.Int(int64(i)))
						if !o.Is(holds(ch)) {
							continue
						}
						for k := 0; k <= 2; k++ {
							if o.Is(absint.Eq(dataLen(ch), absint.Int(int64(k)))) {
								es := entries(dt, k, ch)
								want = append(want, es...)
								for _, e := range es {
									own[e.K()] = true
								}
								break
							}
						}
					}
					if typ == "Or" {
						if keysOf(want) != keysOf(got) {
							c.Fail("data of Or", t.name, r.Pos, "%s returns %s, expected the data of its true children %s; path: %s", t.name, keysOf(got), keysOf(want), describe(o))
							return
						}
						or++
					} else {
						for _, g := range got {
							if !own[g.K()] {
								c.Fail("data of And", t.name, r.Pos, "%s returns %s, which no child returned; path: %s", t.name, g.K(), describe(o))
								return
							}
						}
						if len(want) > 0 && len(got) == 0 {
							c.Fail("data of And", t.name+" lost", r.Pos, "%s returns nothing although its children returned %s; path: %s", t.name, keysOf(want), describe(o))
							return
						}
						and++
					}
					c.OK("data of " + typ)
				})
			}
		}
	}
	for _, typ := range c.nodeTypes() {
		switch typ {
		case "And", "Or", "Any", "Condition":
			continue
		}
		t := c.boundedTree(typ, "Eval", 2, 1)
		if t == nil {
			continue
		}
		rets := t.run(nil)
		c.absorb(t.a, t.name, t.fn.Pos(), rets)
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			if !emptyList(r.St.Resolve(r.Vals[1])) {
				c.Fail("no data", t.name, r.Pos, "%s returns data %s", t.name, r.Vals[1].K())
				continue
			}
			c.OK("no data")
		}
	}
	c.anyData()
	c.leafData()
	c.Want("data of And", 60)
	c.Want("data of Or", 60)
	c.Want("no data", 6)
	c.Want("data of Any", 60)
	c.Want("data of Condition", 20)
}

// returnPaths gives a node the named return paths a and b, with their compiled
// forms and relative flags as separate unknowns.
type returnPaths struct {
	names                []string
	text, query, flag    map[string]absint.Val
	fText, fQuery, fFlag string
}

func (c *C) returnFields(typ string) *returnPaths {
	p := &returnPaths{text: map[string]absint.Val{}, query: map[string]absint.Val{}, flag: map[string]absint.Val{}}
	s, ok := c.typ(typ).Underlying().(*types.Struct)
	if !ok {
		return p
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !strings.Contains(f.Name(), "ReturnValue") || strings.HasSuffix(f.Name(), "Original") {
			continue
		}
		m, ok := f.Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		switch {
		case m.Elem().String() == "string":
			p.fText = f.Name()
		case m.Elem().String() == "bool":
			p.fFlag = f.Name()
		default:
			p.fQuery = f.Name()
		}
	}
	if p.fText == "" || p.fFlag == "" || p.fQuery == "" {
		c.Fail("anchor", typ, 0, "the return paths of %s were not identified", typ)
	}
	return p
}

func (p *returnPaths) set(c *C, typ string, st *absint.State, self absint.Val, n int) {
	p.names = []string{"a", "b"}[:n]
	var ks, ts, qs, fs []absint.Val
	ft := func(f string) types.Type { return fieldType(c.typ(typ), f) }
	for _, k := range p.names {
		p.text[k] = absint.Sym("path:"+k, absint.StringT)
		p.query[k] = absint.Sym("query:"+k, ft(p.fQuery).Underlying().(*types.Map).Elem())
		p.flag[k] = absint.Sym("relative:"+k, absint.BoolT)
		ks, ts, qs, fs = append(ks, absint.Str(k)), append(ts, p.text[k]), append(qs, p.query[k]), append(fs, p.flag[k])
	}
	st.StoreField(self, p.fText, st.NewMap("paths", ft(p.fText), ks, ts))
	st.StoreField(self, p.fQuery, st.NewMap("queries", ft(p.fQuery), ks, qs))
	st.StoreField(self, p.fFlag, st.NewMap("flags", ft(p.fFlag), ks, fs))
}

// entry compares one returned entry with the extraction of every return path
// from the element (relative paths) or the whole document.
func (p *returnPaths) entry(o *absint.Oracle, got absint.Val, parsed bool, elem, doc absint.Val) string {
	ks, vs, ok := o.St.Entries(got)
	if !ok {
		return "the entry " + got.K() + " is not a known map"
	}
	have := map[string]absint.Val{}
	for i, k := range ks {
		s, isS := absint.IsStr(k)
		if !isS || p.text[s] == nil {
			return "the entry has a value under " + k.K()
		}
		have[s] = o.St.Resolve(vs[i])
	}
	for _, k := range p.names {
		data := doc
		if o.Is(p.flag[k]) {
			data = elem
		}
		if data == nil {
			if have[k] != nil {
				return "return value " + k + " is taken from data the message does not have"
			}
			continue
		}
		var want, errv absint.Val
		if parsed {
			if o.StrIs(p.text[k], "$*") {
				want = data
			} else if !o.NotNil(p.query[k]) {
				if have[k] != nil && !absint.IsNil(have[k]) {
					return "return value " + k + " without a compiled path is " + have[k].K()
				}
				continue
			} else {
				res := absint.OpaqueResults("call", p.query[k].Typ().Underlying().(*types.Signature), []absint.Val{p.query[k], data})
				want, errv = res[0], res[1]
			}
		} else {
			get := absint.NewTerm("jsonslice.Get#0", bytesT, data, p.text[k])
			if have[k] != nil {
				if !strings.Contains(have[k].K(), get.K()) {
					return "return value " + k + " is " + have[k].K() + ", expected what " + get.K() + " holds"
				}
			} else if !o.St.Mentions(get.K()) {
				return "return value " + k + " is left out without reading " + get.K()
			}
			continue
		}
		if have[k] == nil {
			if errv == nil || !o.NotNil(errv) {
				return "return value " + k + " is left out"
			}
			continue
		}
		if have[k].K() != want.K() {
			return "return value " + k + " is " + have[k].K() + ", expected " + want.K()
		}
	}
	return ""
}

func (c *C) anyData() {
	for n := 0; n <= 2; n++ {
		t := c.boundedTree("Any", "Eval", 3-n/2, 0)
		if t == nil {
			return
		}
		p := c.returnFields("Any")
		node := absint.At(t.self, "Node")
		rets := t.run(func(st *absint.State) { p.set(c, "Any", st, t.self, n) })
		c.absorb(t.a, t.name, t.fn.Pos(), rets)
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				verdict := o.Is(r.Vals[0])
				got, ok := c.list(t.a, o.St, r.Vals[1])
				bad := func(format string, args ...interface{}) {
					c.Fail("data of Any", t.name, r.Pos, "%s; path: %s", fmt.Sprintf(format, args...), describe(o))
				}
				if !ok {
					bad("the return data %s cannot be traced to the elements", r.Vals[1].K())
					return
				}
				if !verdict {
					if len(got) != 0 {
						bad("false, but with data %s", keysOf(got))
						return
					}
					c.OK("data of Any")
					return
				}
				parsed := o.NotNil(absint.At(t.msg, "RequestRawInterface")) && o.NotNil(absint.At(t.self, "PreparedJsonpathQuery"))
				list, doc := absint.NewTerm("selected bytes", types.NewSlice(bytesT), t.self), absint.At(t.msg, "RequestJsonRaw")
				if parsed {
					list, doc = absint.NewTerm("selected values", types.NewSlice(types.NewInterfaceType(nil, nil)), t.self), absint.At(t.msg, "RequestRawInterface")
				}
				var whole absint.Val
				if o.NotNil(doc) {
					whole = absint.Content(doc)
				}
				m := int64(-1)
				for k := int64(0); k <= 3; k++ {
					if b, known := o.St.Decide(absint.Eq(absint.Len(list), absint.Int(k))); known && b {
						m = k
					}
				}
				if m < 0 {
					bad("true without selecting elements")
					return
				}
				var els []absint.Val
				for i := int64(0); i < m; i++ {
					if o.Is(holds(node, elemCtx(list, absint.Int(i)))) {
						els = append(els, absint.ElemAt(list, absint.Int(i)))
					}
				}
				if n > 0 && len(got) != len(els) {
					bad("%d entries of return data for %d elements that hold", len(got), len(els))
					return
				}
				if n == 0 && len(got) > len(els) {
					bad("%d entries of return data for %d elements that hold", len(got), len(els))
					return
				}
				for i, g := range got {
					if why := p.entry(o, o.St.Resolve(g), parsed, els[i], whole); why != "" {
						bad("entry %d: %s", i, why)
						return
					}
				}
				c.OK("data of Any")
			})
		}
	}
}

// leafData examines a single condition: the truth of the comparison itself is
// abstract.
func (c *C) leafData() {
	for n := -1; n <= 2; n++ {
		t := c.boundedTree("Condition", "Eval", 0, 0)
		if t == nil {
			return
		}
		prev := t.a.ModelOf
		t.a.ModelOf = func(fn *ssa.Function) absint.Model {
			if absint.SigIs(fn, []string{"*Condition", "*MessageAttributes"}, []string{"bool"}) {
				return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
					return []absint.Ret{{St: st, Vals: []absint.Val{absint.Pred("decides:"+call.Name, args...)}}}
				}
			}
			return prev(fn)
		}
		p := c.returnFields("Condition")
		rets := t.run(func(st *absint.State) {
			if n >= 0 {
				p.set(c, "Condition", st, t.self, n)
			} else {
				st.StoreField(t.self, p.fText, absint.Nil(fieldType(c.typ("Condition"), p.fText)))
			}
		})
		c.absorb(t.a, t.name, t.fn.Pos(), rets)
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				verdict := o.Is(r.Vals[0])
				got, ok := c.list(t.a, o.St, r.Vals[1])
				bad := func(format string, args ...interface{}) {
					c.Fail("data of Condition", t.name, r.Pos, "%s; path: %s", fmt.Sprintf(format, args...), describe(o))
				}
				switch {
				case !ok:
					bad("the return data %s cannot be traced", r.Vals[1].K())
					return
				case len(got) > 1 || len(got) == 1 && (n < 0 || !verdict):
					bad("verdict %v with %d return paths and data %s", verdict, n, keysOf(got))
					return
				case len(got) == 0:
					if verdict && n > 0 && o.StrIs(absint.At(t.self, "Attribute"), "jsonpath") {
						bad("a condition that holds returns no data although it has return paths")
						return
					}
					c.OK("data of Condition")
					return
				}
				parsed := o.NotNil(absint.At(t.msg, "RequestRawInterface"))
				f := [2]string{"RequestJsonRawRelative", "RequestJsonRaw"}
				if parsed {
					f = [2]string{"RequestRawInterfaceRelative", "RequestRawInterface"}
				}
				var d [2]absint.Val
				for i := range f {
					if x := absint.At(t.msg, f[i]); o.NotNil(x) {
						d[i] = absint.Content(x)
					}
				}
				if why := p.entry(o, o.St.Resolve(got[0]), parsed, d[0], d[1]); why != "" {
					bad("%s", why)
					return
				}
				c.OK("data of Condition")
			})
		}
	}
}
