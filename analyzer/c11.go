package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"maplverif/absint"
)

// refKey is the text after the leading '#'.
func refKey(x absint.Val) absint.Val {
	l := absint.Len(x)
	return absint.Substr(x, absint.Int(1), l, l, absint.StringT)
}

func isRef(o *absint.Oracle, x absint.Val) bool {
	return o.Is(absint.NewTerm("HasPrefix", absint.BoolT, x, absint.Str("#")))
}

const refLen = 3

// joined lists the terms a list of refLen entries joined by sep may have.
func joined(list absint.Val, sep string) []absint.Val {
	var parts []absint.Val
	for i := int64(0); i < refLen; i++ {
		if i > 0 {
			parts = append(parts, absint.Str(sep))
		}
		parts = append(parts, absint.ElemAt(list, absint.Int(i)))
	}
	return []absint.Val{absint.NewTerm("strings.Join", absint.StringT, list, absint.Str(sep)), absint.Cat(parts...)}
}

// resolved gives the possible terms of a text after replacement of references,
// or nothing when the reference names neither a list nor a string.
func resolved(o *absint.Oracle, x, dict absint.Val, sep string) []absint.Val {
	if !isRef(o, x) {
		return []absint.Val{x, o.St.Resolve(x)}
	}
	get := func(name string) absint.Val { return absint.FieldOf(dict, name, fieldType(dict.Typ(), name)) }
	key := refKey(x)
	if lists := get("PredefinedListsWithoutRefs"); o.Is(absint.MapHas(lists, key)) {
		return joined(absint.MapGet(lists, key), sep)
	}
	if strs := get("PredefinedStrings"); o.Is(absint.MapHas(strs, key)) {
		return []absint.Val{absint.MapGet(strs, key)}
	}
	return nil
}

func oneOf(v absint.Val, vs []absint.Val) bool {
	for _, x := range vs {
		if x.K() == v.K() {
			return true
		}
	}
	return false
}

// listsOfThree bounds the lists of the dictionary.
func listsOfThree(a *absint.Analysis, st *absint.State, dict absint.Val, xs ...absint.Val) {
	lists := absint.FieldOf(dict, "PredefinedListsWithoutRefs", fieldType(dict.Typ(), "PredefinedListsWithoutRefs"))
	for _, x := range xs {
		st.Assume(absint.Eq(absint.Len(absint.MapGet(lists, refKey(x))), absint.Int(refLen)), true)
	}
}

func checkC11(c *C) {
	c.nameReferences()
	c.valueReferences()
	c.listReferences()
	c.Want("name reference", 16)
	c.Want("value reference", 20)
	c.Want("list reference", 9)
}

// nameReferences: the names of sender and receiver, up to the patterns built from them.
func (c *C) nameReferences() {
	fn := c.fn("PrepareOneRuleWithPredefinedStrings")
	if fn == nil {
		return
	}
	a := c.P.NewAnalysis()
	a.Unroll = 6
	oneEntry(a)
	args := make([]absint.Val, len(fn.Params))
	var rule, dict absint.Val
	for i, p := range fn.Params {
		if absint.ShortType(p.Type()) == "*Rule" {
			rule = absint.SymPtr("rule", p.Type())
			args[i] = rule
		} else {
			dict = absint.Param(p.Name(), p.Type())
			args[i] = dict
		}
	}
	st := a.NewState()
	sender, receiver := absint.At(rule, "Sender", "SenderName"), absint.At(rule, "Receiver", "ReceiverName")
	st.Assume(absint.At(rule, "AlreadyConvertedFieldsToRegexFlag"), false)
	st.Assume(absint.Eq(absint.At(rule, "Conditions", "ConditionsTree"), absint.Nil(absint.At(rule, "Conditions", "ConditionsTree").Typ())), true)
	st.Assume(absint.Eq(absint.At(rule, "Sender", "SenderType"), absint.Str("subnet")), false)
	st.Assume(absint.Eq(absint.At(rule, "Receiver", "ReceiverType"), absint.Str("subnet")), false)
	st.Assume(absint.Eq(absint.At(rule, "Operation"), absint.Str("GET")), true)
	listsOfThree(a, st, dict, sender, receiver)
	rets := a.Run(st, fn, args)
	c.absorb(a, "PrepareOneRuleWithPredefinedStrings", fn.Pos(), rets)
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			failed := o.NotNil(r.Vals[0])
			for _, side := range []struct {
				side string
				name absint.Val
			}{{"Sender", sender}, {"Receiver", receiver}} {
				want := resolved(o, side.name, dict, ",")
				if failed {
					c.OK("name reference")
					continue
				}
				if want == nil {
					c.Fail("name reference", side.side, r.Pos, "a %s name that refers to nothing predefined is accepted; path: %s", side.side, describe(o))
					return
				}
				got := at(o, rule, side.side, side.side+"Name")
				if !oneOf(got, want) {
					c.Fail("name reference", side.side, r.Pos, "the %s name becomes %s, expected %s; path: %s", side.side, got.K(), want[0].K(), describe(o))
					return
				}
				list, ok := c.list(a, o.St, at(o, rule, side.side, side.side+"List"))
				if !ok || len(list) != 1 {
					c.Fail("name reference", side.side, r.Pos, "the %s list is not made from the resolved name", side.side)
					return
				}
				name := o.St.Resolve(absint.FieldOf(list[0], "Name", absint.StringT))
				good := false
				for _, w := range want {
					if s, ok := absint.IsStr(w); ok {
						n, isS := absint.IsStr(name)
						good = good || isS && n == strings.Split(s, ",")[0]
						continue
					}
					if b, im, ok := charMap(name); ok && plainImage(im) && b.K() == absint.ElemAt(splitOf(w), absint.Int(0)).K() {
						good = true
					}
				}
				if !good {
					c.Fail("name reference", side.side, r.Pos, "the %s list has the entry %s, expected the first part of %s", side.side, name.K(), want[0].K())
					return
				}
				c.OK("name reference")
			}
		})
	}
}

// valueReferences: the value of a condition, for each method.
func (c *C) valueReferences() {
	fn := c.fn("ReplaceStringsAndListsInCondition")
	if fn == nil {
		return
	}
	for _, m := range []string{"RE", "re", "NRE", "nre", "EQ", "neq", "IN", "nin"} {
		sep := ","
		switch m {
		case "RE", "re", "NRE", "nre":
			sep = "|"
		}
		a := c.P.NewAnalysis()
		a.Unroll = 10
		args := make([]absint.Val, len(fn.Params))
		var cond, dict absint.Val
		for i, p := range fn.Params {
			if absint.ShortType(p.Type()) == "*Condition" {
				cond = absint.SymPtr("condition", p.Type())
				args[i] = cond
			} else {
				dict = absint.Param(p.Name(), p.Type())
				args[i] = dict
			}
		}
		st := a.NewState()
		value := absint.At(cond, "Value")
		st.StoreField(cond, "Method", absint.Str(m))
		listsOfThree(a, st, dict, value)
		rets := a.Run(st, fn, args)
		c.absorb(a, "ReplaceStringsAndListsInCondition with "+m, fn.Pos(), rets)
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				want := resolved(o, value, dict, sep)
				failed := o.NotNil(r.Vals[0])
				if failed {
					// a list that is not a pattern may be refused here, nothing else
					refused := false
					if isRef(o, value) {
						for _, w := range want {
							refused = refused || o.NotNil(absint.NewTerm("regexp.Compile#err", absint.ErrorT, w))
						}
					}
					if want != nil && !refused {
						c.Fail("value reference", m, r.Pos, "a value that needs no replacement or refers to something predefined is refused; path: %s", describe(o))
						return
					}
					c.OK("value reference")
					return
				}
				if want == nil {
					c.Fail("value reference", m, r.Pos, "a value that refers to nothing predefined is accepted; path: %s", describe(o))
					return
				}
				if got := at(o, cond, "Value"); !oneOf(got, want) {
					c.Fail("value reference", m, r.Pos, "the value becomes %s, expected %s; path: %s", got.K(), want[0].K(), describe(o))
					return
				}
				c.OK("value reference")
			})
		}
	}
	c.preparedCondition()
}

// preparedCondition: preparing a condition replaces its references before
// anything is derived from its value.
func (c *C) preparedCondition() {
	fn := c.fn("Condition.PrepareAndValidate")
	rep := c.fn("ReplaceStringsAndListsInCondition")
	conv := c.fn("ConvertConditionStringToIntFloatRegex")
	val := c.fn("ValidateOneCondition")
	if fn == nil || rep == nil || conv == nil || val == nil {
		return
	}
	a := c.P.NewAnalysis()
	cond := absint.SymPtr("c", fn.Params[0].Type())
	dict := absint.Param("lists", fn.Params[1].Type())
	count := 0
	models := map[*ssa.Function]absint.Model{}
	a.ModelOf = func(f *ssa.Function) absint.Model { return models[f] }
	models[rep] = absint.Model(func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		var gotC, gotD absint.Val
		for i, p := range rep.Params {
			if absint.ShortType(p.Type()) == "*Condition" {
				gotC = args[i]
			} else {
				gotD = args[i]
			}
		}
		if gotC.K() != cond.K() || gotD.K() != dict.K() {
			c.Fail("value reference", "Condition.PrepareAndValidate", call.Pos, "references are replaced in %s from %s", gotC.K(), gotD.K())
		}
		st.Mon["replaced"] = "yes"
		count++
		return []absint.Ret{{St: st, Vals: absint.OpaqueResults("replace", rep.Signature, args)}}
	})
	before := func(name string, f func() []absint.Val) absint.Model {
		return func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			if st.Mon["replaced"] == "" {
				c.Fail("value reference", "Condition.PrepareAndValidate", call.Pos, "%s sees the value before its references are replaced", name)
			}
			return []absint.Ret{{St: st, Vals: f()}}
		}
	}
	models[conv] = (before("the conversion of values", func() []absint.Val { return absint.OpaqueResults("convert", conv.Signature, []absint.Val{cond}) }))
	models[val] = (before("the validation", func() []absint.Val { return absint.OpaqueResults("validate", val.Signature, []absint.Val{cond}) }))
	rets := a.Run(a.NewState(), fn, []absint.Val{cond, dict})
	c.absorb(a, "Condition.PrepareAndValidate", fn.Pos(), rets)
	for _, r := range rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			if !o.NotNil(r.Vals[0]) && o.St.Mon["replaced"] == "" {
				c.Fail("value reference", "Condition.PrepareAndValidate", r.Pos, "a condition is prepared without replacing its references")
				return
			}
			c.OK("value reference")
		})
	}
}

// listReferences: the entries of the predefined lists, at load.
func (c *C) listReferences() {
	dictT := c.typ("PredefinedStringsAndLists")
	if dictT == nil {
		return
	}
	listsT := fieldType(dictT, "PredefinedLists")
	listT := listsT.Underlying().(*types.Map).Elem()
	a1 := absint.Sym("first", absint.StringT)
	a2 := absint.Sym("second", absint.StringT)
	b1 := absint.Sym("other", absint.StringT)
	strsT := fieldType(dictT, "PredefinedStrings")
	strs := absint.Sym("strings", strsT)
	fill := func(st *absint.State, ptr absint.Val) {
		m := st.NewMap("lists", listsT, []absint.Val{absint.Str("k1"), absint.Str("k2"), absint.Str("k3")},
			[]absint.Val{absint.NewList(listT, a1, a2), absint.NewList(listT, b1), absint.NewList(listT)})
		st.StoreField(ptr, "PredefinedLists", m)
		st.StoreField(ptr, "PredefinedStrings", strs)
	}
	judge := func(what string, o *absint.Oracle, r absint.Ret, failed bool, dict func(string) absint.Val) {
		want := map[string][]absint.Val{}
		broken := false
		for _, l := range []struct {
			k string
			e []absint.Val
		}{{"k1", []absint.Val{a1, a2}}, {"k2", []absint.Val{b1}}, {"k3", nil}} {
			want[l.k] = nil
			for _, e := range l.e {
				w := e
				if isRef(o, e) {
					key := refKey(e)
					if !o.Is(absint.MapHas(strs, key)) {
						broken = true
						continue
					}
					w = absint.MapGet(strs, key)
				}
				want[l.k] = append(want[l.k], w)
			}
		}
		bad := func(format string, args ...interface{}) {
			c.Fail("list reference", what, r.Pos, "%s; path: %s", fmt.Sprintf(format, args...), describe(o))
		}
		if failed != broken {
			if failed {
				bad("lists whose references are all predefined are refused")
			} else {
				bad("a list with a reference to nothing predefined is accepted")
			}
			return
		}
		if failed {
			c.OK("list reference")
			return
		}
		keys, vals, ok := o.St.Entries(o.St.Resolve(dict("PredefinedListsWithoutRefs")))
		if !ok || len(keys) != 3 {
			bad("the resolved lists are %s", dict("PredefinedListsWithoutRefs").K())
			return
		}
		for i, k := range keys {
			s, _ := absint.IsStr(k)
			w, isKey := want[s]
			l, ok := c.list(o.St.A, o.St, vals[i])
			if !isKey || !ok || keysOf(l) != keysOf(w) {
				bad("the list %s becomes %s, expected %s", k.K(), vals[i].K(), keysOf(w))
				return
			}
		}
		if got := o.St.Resolve(dict("PredefinedStrings")); got.K() != strs.K() {
			bad("the predefined strings become %s", got.K())
			return
		}
		c.OK("list reference")
	}
	if fn := c.fn("YamlReadStringListsFromString"); fn != nil {
		a := c.P.NewAnalysis()
		a.Unroll = 6
		read := 0
		a.Models["yaml.Unmarshal"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			p := args[1]
			if iv, ok := p.(*absint.IfaceV); ok {
				p = iv.X
			}
			if l := absint.LocOf(p); l == nil || absint.TypeName(l.T) != absint.TypeName(dictT) {
				return nil
			}
			read++
			fill(st, p)
			err := absint.NewTerm("yaml.Unmarshal#err", absint.ErrorT, args[0])
			return []absint.Ret{{St: st, Vals: []absint.Val{err}}}
		}
		a.Models["yaml.UnmarshalStrict"] = a.Models["yaml.Unmarshal"]
		text := absint.Param("text", absint.StringT)
		rets := a.Run(a.NewState(), fn, []absint.Val{text})
		c.absorb(a, "YamlReadStringListsFromString", fn.Pos(), rets)
		if read == 0 {
			c.Fail("anchor", "YamlReadStringListsFromString", fn.Pos(), "the lists are not read by yaml.Unmarshal into PredefinedStringsAndLists")
		}
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				if o.NotNil(absint.NewTerm("yaml.Unmarshal#err", absint.ErrorT, absint.NewTerm("bytes", bytesT, text))) {
					if !o.NotNil(r.Vals[1]) {
						c.Fail("list reference", "YamlReadStringListsFromString", r.Pos, "a document that cannot be read is accepted")
					}
					return
				}
				judge("YamlReadStringListsFromString", o, r, o.NotNil(r.Vals[1]), func(n string) absint.Val {
					return absint.FieldOf(r.Vals[0], n, fieldType(dictT, n))
				})
			})
		}
	}
	if fn := c.fn("SetGlobalPredefinedStringsAndLists"); fn != nil {
		a := c.P.NewAnalysis()
		a.Unroll = 6
		st := a.NewState()
		ptr := absint.SymPtr("given", types.NewPointer(dictT))
		fill(st, ptr)
		rets := a.Run(st, fn, []absint.Val{st.Load(absint.LocOf(ptr))})
		c.absorb(a, "SetGlobalPredefinedStringsAndLists", fn.Pos(), rets)
		g := c.global("GlobalPredefinedStringsAndLists")
		for _, r := range rets {
			if r.Panic != "" || g == nil {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				judge("SetGlobalPredefinedStringsAndLists", o, r, o.NotNil(r.Vals[0]), func(n string) absint.Val {
					return o.St.Load(absint.FieldLoc(g, n))
				})
			})
		}
	}
}
