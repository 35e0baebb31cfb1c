package main

import (
	"fmt"
	"sort"
	"strings"

	"maplverif/absint"
)

// fieldsRun follows ConvertFieldsToRegex for a rule with unknown texts; counts
// gives the number of comma-separated entries of each text.
type fieldsRun struct {
	a    *absint.Analysis
	rule absint.Val
	rets []absint.Ret
	pos  func(r absint.Ret) string
}

func splitOf(text absint.Val) absint.Val {
	return absint.NewTerm("strings.Split", absint.StringsT, text, absint.Str(","))
}

func (c *C) fieldsRun(counts map[string]int64, subnetSender, subnetReceiver bool, operation string) *fieldsRun {
	fn := c.fn("ConvertFieldsToRegex")
	if fn == nil {
		return nil
	}
	a := c.P.NewAnalysis()
	a.Unroll = 8
	a.MaxSteps = 4000000
	rule := absint.SymPtr("rule", fn.Params[0].Type())
	base := a.Externals("strings.Split")
	a.Models["strings.Split"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		outs := base(a, st, args, call)
		t, ok := outs[0].Vals[0].(*absint.Term)
		if !ok {
			return outs
		}
		n := int64(1)
		for f, k := range counts {
			if strings.HasSuffix(args[0].K(), "."+f) {
				n = k
			}
		}
		st.Assume(absint.Eq(absint.Len(t), absint.Int(n)), true)
		return outs
	}
	st := a.NewState()
	st.Assume(absint.At(rule, "AlreadyConvertedFieldsToRegexFlag"), false)
	if !subnetSender {
		st.Assume(absint.Eq(absint.At(rule, "Sender", "SenderType"), absint.Str("subnet")), false)
	}
	if !subnetReceiver {
		st.Assume(absint.Eq(absint.At(rule, "Receiver", "ReceiverType"), absint.Str("subnet")), false)
	}
	if operation != "?" {
		st.Assume(absint.Eq(absint.At(rule, "Operation"), absint.Str(operation)), true)
	}
	rets := a.Run(st, fn, []absint.Val{rule})
	c.absorb(a, "ConvertFieldsToRegex", fn.Pos(), rets)
	return &fieldsRun{a: a, rule: rule, rets: rets}
}

func at(o *absint.Oracle, v absint.Val, names ...string) absint.Val {
	l := absint.FieldLoc(v, names[0])
	for _, n := range names[1:] {
		l = l.Field(n)
	}
	return o.St.Resolve(o.St.Load(l))
}

// patternText is the text a compiled pattern was made from.
func patternText(v absint.Val) (absint.Val, bool) {
	t, ok := v.(*absint.Term)
	if !ok || t.Op != "regexp.Compile#0" && t.Op != "regexp" {
		return nil, false
	}
	return t.Args[0], true
}

// listPattern decides whether a compiled pattern matches whole texts against
// one of the entries, with wildcards.
func listPattern(re absint.Val, entries []absint.Val) string {
	text, ok := patternText(re)
	if !ok {
		return "the pattern " + re.K() + " is not compiled from the text"
	}
	parts := []absint.Val{text}
	if t, ok := text.(*absint.Term); ok && t.Op == "cat" {
		parts = t.Args
	}
	skeleton := ""
	want := map[string]bool{}
	mark := func(i int) string { return fmt.Sprintf("q%cq", 'A'+i) }
	for i := range entries {
		want[mark(i)] = true
	}
	for _, p := range parts {
		if s, ok := absint.IsStr(p); ok {
			skeleton += s
			continue
		}
		b, image, ok := charMap(p)
		if !ok {
			return "the text " + p.K() + " is not a chain of replacements of characters"
		}
		idx := -1
		for i, e := range entries {
			if e.K() == b.K() {
				idx = i
			}
		}
		if idx < 0 {
			return "the pattern contains " + b.K() + ", which is not an entry of its own list"
		}
		if why := wildcardImage(image); why != "" {
			return why
		}
		skeleton += mark(idx)
	}
	got, why := wholeWords(skeleton)
	if why != "" {
		return "the pattern " + skeleton + " " + why
	}
	return sameSet(got, want)
}

func sameSet(got, want map[string]bool) string {
	l := func(m map[string]bool) string {
		var s []string
		for k := range m {
			s = append(s, k)
		}
		sort.Strings(s)
		return strings.Join(s, ",")
	}
	if l(got) != l(want) {
		return "it matches {" + l(got) + "}, expected {" + l(want) + "}"
	}
	return ""
}

func entriesOf(text absint.Val, n int64) []absint.Val {
	var out []absint.Val
	for i := int64(0); i < n; i++ {
		out = append(out, absint.ElemAt(splitOf(text), absint.Int(i)))
	}
	return out
}

// onConverted visits the successful outcomes.
func (c *C) onConverted(f *fieldsRun, visit func(o *absint.Oracle, r absint.Ret)) {
	if f == nil {
		return
	}
	for _, r := range f.rets {
		if r.Panic != "" {
			continue
		}
		absint.Complete(r.St, func(o *absint.Oracle) {
			if o.NotNil(r.Vals[0]) {
				return
			}
			visit(o, r)
		})
	}
}

func checkC17(c *C) {
	for n := int64(1); n <= 3; n++ {
		// names
		for _, side := range []struct{ list, name string }{{"Sender", "Sender"}, {"Receiver", "Receiver"}} {
			f := c.fieldsRun(map[string]int64{side.name + "." + side.name + "Name": n}, false, false, "GET")
			c.onConverted(f, func(o *absint.Oracle, r absint.Ret) {
				list, ok := c.list(f.a, o.St, at(o, f.rule, side.list, side.name+"List"))
				src := entriesOf(absint.At(f.rule, side.name, side.name+"Name"), n)
				if !ok || int64(len(list)) != n {
					c.Fail("name pattern", side.name, r.Pos, "a %s with %d names does not have %d entries", side.name, n, n)
					return
				}
				for i, e := range list {
					re := o.St.Resolve(absint.FieldOf(e, "Regexp", fieldType(e.Typ(), "Regexp")))
					if why := listPattern(re, src[i:i+1]); why != "" {
						c.Fail("name pattern", side.name, r.Pos, "entry %d of %d of %s: %s", i, n, side.name, why)
						return
					}
				}
				c.OK("name pattern")
			})
		}
		// resource
		f := c.fieldsRun(map[string]int64{"Resource.ResourceName": n}, false, false, "GET")
		c.onConverted(f, func(o *absint.Oracle, r absint.Ret) {
			re := at(o, f.rule, "Resource", "ResourceNameRegex")
			if why := listPattern(re, entriesOf(absint.At(f.rule, "Resource", "ResourceName"), n)); why != "" {
				c.Fail("resource pattern", "Resource", r.Pos, "resource with %d entries: %s", n, why)
				return
			}
			c.OK("resource pattern")
		})
		// operation
		g := c.fieldsRun(map[string]int64{"Operation": n}, false, false, "?")
		c.onConverted(g, func(o *absint.Oracle, r absint.Ret) {
			c.operationPattern(o, r, g, n)
		})
	}
	c.membership()
	c.Want("name pattern", 6)
	c.Want("resource pattern", 3)
	c.Want("operation pattern", 15)
	c.Want("membership pattern", 6)
}

func (c *C) operationPattern(o *absint.Oracle, r absint.Ret, g *fieldsRun, n int64) {
	op := absint.At(g.rule, "Operation")
	re := at(o, g.rule, "OperationRegex")
	var want, opt []string
	which := "other"
	switch {
	case o.StrIs(op, "*"):
		which = "*"
	case o.StrIs(op, "read", "READ"):
		which = "read"
		want, opt = []string{"GET", "HEAD", "OPTIONS", "TRACE", "CONSUME"}, []string{"read", "READ"}
	case o.StrIs(op, "write", "WRITE"):
		which = "write"
		want, opt = []string{"POST", "PUT", "DELETE", "PRODUCE"}, []string{"write", "WRITE"}
	}
	bad := func(format string, args ...interface{}) {
		c.Fail("operation pattern", "operation "+which, r.Pos, "%s", fmt.Sprintf(format, args...))
	}
	if which == "other" {
		if why := listPattern(re, entriesOf(op, n)); why != "" {
			bad("operation with %d entries: %s; path: %s", n, why, describe(o))
			return
		}
		c.OK("operation pattern")
		return
	}
	text, ok := patternText(re)
	var s string
	if ok {
		s, ok = absint.IsStr(text)
	}
	if !ok {
		bad("the operation %s has the pattern %s, which is not a known one", which, re.K())
		return
	}
	if which == "*" {
		if !matchesAll(s) {
			bad("the operation * has the pattern %s, which does not match everything", s)
			return
		}
		c.OK("operation pattern")
		return
	}
	got, why := wholeWords(s)
	if why != "" {
		bad("the operation %s has the pattern %s, which %s", which, s, why)
		return
	}
	ws := map[string]bool{}
	for _, w := range want {
		ws[w] = true
	}
	for _, w := range opt {
		if got[w] {
			ws[w] = true
		}
	}
	if why := sameSet(got, ws); why != "" {
		bad("the operation %s has the pattern %s: %s", which, s, why)
		return
	}
	c.OK("operation pattern")
}

// oneEntry keeps the splitting of texts the rule does not look at small.
func oneEntry(a *absint.Analysis) {
	base := a.Externals("strings.Split")
	a.Models["strings.Split"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
		outs := base(a, st, args, call)
		if t, ok := outs[0].Vals[0].(*absint.Term); ok {
			st.Assume(absint.Eq(absint.Len(t), absint.Int(1)), true)
		}
		return outs
	}
}

// membership examines the pattern made from the list of IN, IS and NIN.
func (c *C) membership() {
	fn := c.fn("ConvertConditionStringToIntFloatRegex")
	if fn == nil {
		return
	}
	for _, m := range []struct{ written, becomes string }{{"IN", "RE"}, {"in", "RE"}, {"IS", "RE"}, {"is", "RE"}, {"NIN", "NRE"}, {"nin", "NRE"}} {
		a := c.P.NewAnalysis()
		a.Unroll = 30
		oneEntry(a)
		cond := absint.SymPtr("condition", fn.Params[0].Type())
		st := a.NewState()
		st.StoreField(cond, "Method", absint.Str(m.written))
		st.StoreField(cond, "Attribute", absint.Str("domain"))
		rets := a.Run(st, fn, []absint.Val{cond})
		c.absorb(a, "membership list with "+m.written, fn.Pos(), rets)
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) {
				if o.NotNil(r.Vals[0]) {
					return
				}
				got := at(o, cond, "Method")
				re := at(o, cond, "ValueRegex")
				if s, ok := absint.IsStr(got); !ok || strings.ToUpper(s) != m.becomes {
					c.Fail("membership pattern", m.written, r.Pos, "the method %s is evaluated as %s, expected %s", m.written, got.K(), m.becomes)
					return
				}
				if why := memberPattern(re, absint.At(cond, "Value")); why != "" {
					c.Fail("membership pattern", m.written, r.Pos, "list of %s: %s; path: %s", m.written, why, describe(o))
					return
				}
				c.OK("membership pattern")
			})
		}
	}
}

func memberPattern(re, value absint.Val) string {
	text, ok := patternText(re)
	if !ok {
		return "the pattern " + re.K() + " is not compiled from the list"
	}
	parts := []absint.Val{text}
	if t, ok := text.(*absint.Term); ok && t.Op == "cat" {
		parts = t.Args
	}
	skeleton := ""
	for _, p := range parts {
		if s, ok := absint.IsStr(p); ok {
			skeleton += s
			continue
		}
		b, image, ok := charMap(p)
		if !ok || b.K() != value.K() {
			return "the pattern is made from " + p.K() + ", expected the condition's own value"
		}
		for _, r := range "abcXYZ0189-_:.*?$^/()|\\" {
			if image(string(r)) != string(r) {
				return "the character " + string(r) + " of an entry becomes " + image(string(r))
			}
		}
		for _, r := range "[qAq,qBq,qCq]" {
			skeleton += image(string(r))
		}
	}
	got, why := wholeWords(skeleton)
	if why != "" {
		return "the pattern " + skeleton + " " + why
	}
	return sameSet(got, map[string]bool{"qAq": true, "qBq": true, "qCq": true})
}

// entryFields decides what a list entry carries: its own text, the type of its
// side, and, for subnets, the parsed network or address.
func (c *C) entryFields() {
	for _, side := range []struct {
		name        string
		list, typ   string
		send, recev bool
	}{{"Sender", "SenderList", "SenderType", true, false}, {"Receiver", "ReceiverList", "ReceiverType", false, true}} {
		for n := int64(1); n <= 2; n++ {
			f := c.fieldsRun(map[string]int64{side.name + "." + side.name + "Name": n}, side.send, side.recev, "GET")
			if f == nil {
				return
			}
			typ := absint.At(f.rule, side.name, side.typ)
			src := entriesOf(absint.At(f.rule, side.name, side.name+"Name"), n)
			for _, r := range f.rets {
				if r.Panic != "" {
					continue
				}
				absint.Complete(r.St, func(o *absint.Oracle) {
					subnet := o.StrIs(typ, "subnet")
					type want struct{ cidr, ip bool }
					var ws []want
					bad := false
					for _, p := range src {
						w := want{}
						if subnet {
							eff := p
							if o.StrIs(p, "*") {
								eff = absint.Str("0.0.0.0/0")
							}
							w.cidr = !o.NotNil(absint.NewTerm("net.ParseCIDR#err", absint.ErrorT, eff))
							if !w.cidr {
								w.ip = o.NotNil(absint.NewTerm("net.ParseIP", fieldType(c.typ("ExpandedSenderReceiver"), "IP"), eff))
							}
							bad = bad || !w.cidr && !w.ip
						}
						ws = append(ws, w)
					}
					if o.NotNil(r.Vals[0]) {
						c.OK("list entry")
						return
					}
					fail := func(format string, args ...interface{}) {
						c.Fail("list entry", side.name, r.Pos, "%s; path: %s", fmt.Sprintf(format, args...), describe(o))
					}
					if bad {
						fail("a %s subnet entry that is neither a network nor an address is accepted", side.name)
						return
					}
					list, ok := c.list(f.a, o.St, at(o, f.rule, side.name, side.list))
					if !ok || int64(len(list)) != n {
						fail("%d names give a list of another length", n)
						return
					}
					for i, e := range list {
						get := func(name string) absint.Val {
							return o.St.Resolve(absint.FieldOf(e, name, fieldType(e.Typ(), name)))
						}
						if b, im, ok := charMap(get("Name")); get("Name").K() != o.St.Resolve(src[i]).K() && (!ok || b.K() != src[i].K() || !plainImage(im)) {
							fail("entry %d has the name %s", i, get("Name").K())
							return
						}
						if t := get("Type"); t.K() != typ.K() && !o.Is(absint.Eq(t, typ)) {
							fail("entry %d has the type %s, expected the %s's own", i, t.K(), side.name)
							return
						}
						if !subnet {
							continue
						}
						cidr, ok1 := absint.IsBool(get("IsCIDR"))
						ip, ok2 := absint.IsBool(get("IsIP"))
						if !ok1 || !ok2 || cidr != ws[i].cidr || ip != ws[i].ip {
							fail("entry %d: network %s, address %s; expected %v, %v", i, get("IsCIDR").K(), get("IsIP").K(), ws[i].cidr, ws[i].ip)
							return
						}
						eff := src[i]
						if o.StrIs(eff, "*") {
							eff = absint.Str("0.0.0.0/0")
						}
						if k := "net.ParseCIDR#1(" + eff.K() + ")^"; cidr && get("CIDR").K() != k {
							fail("entry %d has the network %s, expected the one parsed from its text", i, get("CIDR").K())
							return
						}
					}
					c.OK("list entry")
				})
			}
		}
	}
	c.Want("list entry", 12)
}

func plainImage(image func(string) string) bool {
	for _, r := range plainChars {
		if image(string(r)) != string(r) {
			return false
		}
	}
	return true
}
