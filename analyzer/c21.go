package main

import (
	"fmt"
	"math/big"
	"strings"

	"maplverif/absint"
)

// checkC21 follows the message loader for documents of 0 to 3 messages whose
// fields are unknown.
func checkC21(c *C) {
	fn := c.fn("YamlReadMessagesFromString")
	if fn == nil {
		return
	}
	mt := c.typ("Messages")
	for n := 0; n <= 3; n++ {
		a := c.P.NewAnalysis()
		a.Unroll = 6
		a.MaxSteps = 4000000
		var doc absint.Val
		a.Models["yaml.Unmarshal"] = func(a *absint.Analysis, st *absint.State, args []absint.Val, call *absint.Call) []absint.Ret {
			p := args[1]
			if iv, ok := p.(*absint.IfaceV); ok {
				p = iv.X
			}
			l := absint.LocOf(p)
			if l == nil || absint.TypeName(l.T) != absint.TypeName(mt) {
				return nil
			}
			doc = absint.NewTerm("loaded", mt, args[0])
			bad := st.Clone()
			err := absint.NewTerm("yaml.Unmarshal#err", absint.ErrorT, args[0])
			bad.Assume(absint.Eq(err, absint.Nil(absint.ErrorT)), false)
			bad.Store(l, absint.NewTerm("part", mt, args[0]))
			st.Assume(absint.Eq(err, absint.Nil(absint.ErrorT)), true)
			st.Store(l, doc)
			st.Assume(absint.Eq(absint.Len(absint.At(doc, "Messages")), absint.Int(int64(n))), true)
			return []absint.Ret{{St: st, Vals: []absint.Val{err}}, {St: bad, Vals: []absint.Val{err}}}
		}
		a.Models["yaml.UnmarshalStrict"] = a.Models["yaml.Unmarshal"]
		rets := a.Run(a.NewState(), fn, []absint.Val{absint.Param("text", fn.Params[0].Type())})
		c.absorb(a, fmt.Sprintf("loading %d messages", n), fn.Pos(), rets)
		if doc == nil {
			c.Fail("anchor", "YamlReadMessagesFromString", fn.Pos(), "the document is not read by yaml.Unmarshal into Messages")
			return
		}
		list := absint.At(doc, "Messages")
		for _, r := range rets {
			if r.Panic != "" {
				continue
			}
			absint.Complete(r.St, func(o *absint.Oracle) { c.loadedMessages(a, o, r, doc, list, n) })
		}
	}
	c.Want("resource type", 20)
	c.Want("address", 20)
	c.Want("time", 20)
	c.Want("labels", 20)
	c.Want("bad timestamp", 3)
}

func (c *C) loadedMessages(a *absint.Analysis, o *absint.Oracle, r absint.Ret, doc, list absint.Val, n int) {
	const where = "YamlReadMessagesFromString"
	bad := func(rule, format string, args ...interface{}) {
		c.Fail(rule, where, r.Pos, "%s; path: %s", fmt.Sprintf(format, args...), describe(o))
	}
	failed := o.NotNil(absint.NewTerm("yaml.Unmarshal#err", absint.ErrorT, doc.(*absint.Term).Args[0]))
	parse := func(i int) []absint.Val {
		text := absint.At(absint.ElemAt(list, absint.Int(int64(i))), "RequestTime")
		return []absint.Val{absint.Str("2006-01-02T15:04:05Z07:00"), text}
	}
	badTime := false
	for i := 0; i < n && !failed; i++ {
		if o.NotNil(absint.NewTerm("time.Parse#err", absint.ErrorT, parse(i)...)) {
			badTime = true
			break
		}
	}
	err := o.NotNil(r.Vals[1])
	if err != (failed || badTime) {
		bad("bad timestamp", "returns an error: %v, expected %v", err, failed || badTime)
		return
	}
	got := o.St.Resolve(absint.FieldOf(r.Vals[0], "Messages", list.Typ()))
	if err {
		if !emptyList(got) {
			bad("bad timestamp", "returns an error together with messages %s", got.K())
			return
		}
		c.OK("bad timestamp")
		return
	}
	els, ok := c.list(a, o.St, got)
	if !ok || len(els) != n {
		bad("resource type", "%d messages were read but the result is %s", n, got.K())
		return
	}
	for i := 0; i < n; i++ {
		src := absint.ElemAt(list, absint.Int(int64(i)))
		f := func(name string) absint.Val {
			return o.St.Resolve(absint.FieldOf(els[i], name, fieldType(els[i].Typ(), name)))
		}
		// resource type
		proto := absint.At(src, "ContextProtocol")
		want := ""
		switch {
		case o.StrIs(proto, "HTTP", "http"):
			want = "path"
		case o.StrIs(proto, "TCP", "tcp"):
			want = "port"
		}
		if s, ok := absint.IsStr(f("ContextType")); !ok || s != want {
			bad("resource type", "message %d of %d has resource type %s, expected %q", i, n, f("ContextType").K(), want)
			return
		}
		c.OK("resource type")
		// every other field of the document is kept
		for _, name := range []string{"MessageID", "SourceIp", "DestinationIp", "RequestTime", "ContextProtocol", "SourceService", "DestinationService", "RequestPath", "RequestMethod", "DestinationPort"} {
			if f(name).K() != o.St.Resolve(absint.At(src, name)).K() {
				bad("resource type", "%s of message %d is %s", name, i, f(name).K())
				return
			}
		}
		for _, side := range [][2]string{{"SourceNetIp", "SourceIp"}, {"DestinationNetIp", "DestinationIp"}} {
			w := absint.NewTerm("net.ParseIP", f(side[0]).Typ(), absint.At(src, side[1]))
			if f(side[0]).K() != o.St.Resolve(w).K() {
				bad("address", "%s of message %d of %d is %s, expected the parsed %s of the same message", side[0], i, n, f(side[0]).K(), side[1])
				return
			}
		}
		c.OK("address")
		// times
		own := absint.NewTerm("time.Parse#0", absint.IntT, parse(i)...)
		if why := timesOf(own, f); why != "" {
			bad("time", "message %d of %d: %s", i, n, why)
			return
		}
		c.OK("time")
		for _, side := range [][2]string{{"SourceLabels", "SourceLabelsJson"}, {"DestinationLabels", "DestinationLabelsJson"}} {
			if why := labelsFrom(f(side[0]), absint.At(src, side[1])); why != "" {
				bad("labels", "%s of message %d of %d: %s", side[0], i, n, why)
				return
			}
		}
		c.OK("labels")
	}
}

// timesOf compares the three derived times with the clock of the parsed time.
func timesOf(own absint.Val, f func(string) absint.Val) string {
	unit := map[string]int64{"(time.Time).Hour": 3600e9, "(time.Time).Minute": 60e9, "(time.Time).Second": 1e9, "(time.Time).Nanosecond": 1,
		"(time.Time).Clock#0": 3600e9, "(time.Time).Clock#1": 60e9, "(time.Time).Clock#2": 1e9}
	short := map[string]string{"(time.Time).Clock#0": "(time.Time).Hour", "(time.Time).Clock#1": "(time.Time).Minute", "(time.Time).Clock#2": "(time.Time).Second"}
	var name func(v absint.Val) (map[string]*big.Rat, bool)
	name = func(v absint.Val) (map[string]*big.Rat, bool) {
		t, ok := v.(*absint.Term)
		if !ok {
			return nil, false
		}
		if unit[t.Op] != 0 && len(t.Args) == 1 && t.Args[0].K() == own.K() {
			k := t.Op
			if s := short[k]; s != "" {
				k = s
			}
			return map[string]*big.Rat{k: big.NewRat(1, 1)}, true
		}
		if d := map[string]int64{"(time.Duration).Seconds": 1e9, "(time.Duration).Minutes": 60e9, "(time.Duration).Hours": 3600e9}[t.Op]; d != 0 {
			if m, ok := linearForm(t.Args[0], name); ok {
				for k := range m {
					m[k] = new(big.Rat).Quo(m[k], big.NewRat(d, 1))
				}
				return m, true
			}
		}
		if t.Op == "(time.Time).Sub" && t.Args[0].K() == own.K() {
			// time since midnight of the same day
			if d, ok := t.Args[1].(*absint.Term); ok && d.Op == "time.Date" && len(d.Args) == 8 {
				k := own.K()
				okDate := d.Args[7].K() == "(time.Time).Location("+k+")"
				for j, op := range []string{"Year", "Month", "Day"} {
					s := d.Args[j].K()
					okDate = okDate && (s == "(time.Time)."+op+"("+k+")" || s == fmt.Sprintf("(time.Time).Date#%d(%s)", j, k))
				}
				for j := 3; j < 7; j++ {
					z, isC := absint.IsInt(d.Args[j])
					okDate = okDate && isC && z == 0
				}
				if okDate {
					m := map[string]*big.Rat{}
					for op, u := range unit {
						if !strings.Contains(op, "Clock") {
							m[op] = big.NewRat(u, 1)
						}
					}
					return m, true
				}
			}
		}
		return nil, false
	}
	for _, x := range []struct {
		field string
		per   int64
	}{{"RequestTimeSecondsFromMidnightUTC", 1e9}, {"RequestTimeMinutesFromMidnightUTC", 60e9}, {"RequestTimeHoursFromMidnightUTC", 3600e9}} {
		got, ok := linearForm(f(x.field), name)
		if !ok {
			return fmt.Sprintf("%s is %s, which is not computed from the clock of its own timestamp", x.field, f(x.field).K())
		}
		want := map[string]*big.Rat{}
		for op, u := range unit {
			if !strings.Contains(op, "Clock") {
				want[op] = big.NewRat(u, x.per)
			}
		}
		if !sameForm(got, want) {
			return fmt.Sprintf("%s is %s, expected the time since midnight in its own unit", x.field, f(x.field).K())
		}
	}
	return ""
}

// labelsFrom checks that the labels are decoded from their own text, quoted.
func labelsFrom(got, text absint.Val) string {
	t, ok := got.(*absint.Term)
	if !ok || !strings.HasPrefix(t.Op, "written-by:json.Unmarshal") || len(t.Args) != 1 {
		return "they are " + got.K() + ", expected what json.Unmarshal reads"
	}
	b, ok := t.Args[0].(*absint.Term)
	if !ok || b.Op != "bytes" {
		return "they are read from " + t.Args[0].K()
	}
	base, image, ok := charMap(b.Args[0])
	if !ok {
		return "the text " + b.Args[0].K() + " is not a chain of replacements of characters"
	}
	if base.K() != text.K() {
		return "they are read from " + base.K() + ", expected " + text.K()
	}
	want := map[string]string{" ": "", "{": "{\"", "}": "\"}", ":": "\":\"", ",": "\",\""}
	for r := rune(32); r < 127; r++ {
		w, special := want[string(r)]
		if !special {
			w = string(r)
		}
		if image(string(r)) != w {
			return fmt.Sprintf("the character %q becomes %q, expected %q", string(r), image(string(r)), w)
		}
	}
	return ""
}
