package absint

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// JSONText marks the JSON form of an arbitrary text.
const JSONText = "json"

// JSON gives the JSON form of a value as text, in the way of encoding/json:
// methods of the analysed types are followed, structs are written by their
// field tags. Texts that are not known become terms "json(x)".
func (a *Analysis) JSON(st *State, v Val, c *Call) []Ret {
	return a.json(st, v, true, c, "j")
}

func (a *Analysis) json(st *State, v Val, addressable bool, c *Call, tag string) []Ret {
	v = st.Resolve(v)
	text := func(t Val) []Ret { return []Ret{{St: st, Vals: []Val{t}}} }
	fail := func(format string, args ...interface{}) []Ret {
		a.undecided("JSON form of "+format, args...)
		return nil
	}
	if iv, ok := v.(*IfaceV); ok {
		return a.json(st, iv.X, false, c, tag)
	}
	if IsNil(v) {
		return text(Str("null"))
	}
	t := v.Typ()
	if t == nil {
		return fail("%s", v.K())
	}
	if x, ok := v.(*Term); ok && types.IsInterface(t) {
		return text(NewTerm(JSONText, tString, x))
	}
	if TypeName(t) == "json.RawMessage" {
		if s, ok := asText(v); ok {
			return text(s)
		}
		return fail("%s", v.K())
	}
	if fn := a.MethodOf(v, "MarshalJSON"); fn != nil {
		_, ptrRecv := fn.Signature.Recv().Type().(*types.Pointer)
		_, isPtr := t.Underlying().(*types.Pointer)
		if isPtr || !ptrRecv {
			var out []Ret
			for _, r := range a.Inline(st, fn, []Val{v}, c, tag) {
				if r.Panic != "" {
					out = append(out, r)
					continue
				}
				e := r.St.Resolve(r.Vals[1])
				isNil := Eq(e, Nil(tError))
				for _, failed := range []bool{true, false} {
					s := r.St.Clone()
					if !s.Assume(isNil, !failed) {
						continue
					}
					if failed {
						out = append(out, Ret{St: s, Vals: []Val{nil, e}})
						continue
					}
					txt, ok := asText(s.Resolve(r.Vals[0]))
					if !ok {
						return fail("%s", r.Vals[0].K())
					}
					out = append(out, Ret{St: s, Vals: []Val{txt}})
				}
			}
			return out
		}
	}
	// several parts, one after the other
	type part struct {
		before string
		v      Val
		addr   bool
	}
	parts := func(open string, ps []part, end string) []Ret {
		rets := []Ret{{St: st, Vals: []Val{Str(open)}}}
		for i, p := range ps {
			var next []Ret
			for _, r := range rets {
				if r.Panic != "" || len(r.Vals) > 1 {
					next = append(next, r)
					continue
				}
				for _, x := range a.json(r.St, p.v, p.addr, c, fmt.Sprintf("%s.%d", tag, i)) {
					if x.Panic == "" && len(x.Vals) == 1 {
						x.Vals = []Val{Cat(r.Vals[0], Str(p.before), x.Vals[0])}
					}
					next = append(next, x)
				}
			}
			rets = next
		}
		for i, r := range rets {
			if r.Panic == "" && len(r.Vals) == 1 {
				rets[i].Vals = []Val{Cat(r.Vals[0], Str(end))}
			}
		}
		return rets
	}
	comma := func(i int) string {
		if i > 0 {
			return ","
		}
		return ""
	}
	quote := func(s string) string {
		b, _ := json.Marshal(s)
		return string(b)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		l := LocOf(v)
		if l == nil {
			return fail("%s", v.K())
		}
		return a.json(st, st.Load(l), true, c, tag)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if s, ok := IsStr(v); ok {
				return text(Str(quote(s)))
			}
			return text(NewTerm(JSONText, tString, v))
		default:
			if k, ok := v.(*Const); ok {
				return text(Str(k.V.ExactString()))
			}
		}
	case *types.Slice:
		l, ok := a.toList(st, v)
		if !ok || l.Base != nil {
			return fail("%s", v.K())
		}
		var ps []part
		for i, e := range l.Elems {
			ps = append(ps, part{comma(i), e, true})
		}
		return parts("[", ps, "]")
	case *types.Map:
		ks, vs, ok := st.Entries(v)
		if !ok {
			return fail("%s", v.K())
		}
		type entry struct {
			k string
			v Val
		}
		var es []entry
		for i, k := range ks {
			if iv, ok := k.(*IfaceV); ok {
				k = iv.X
			}
			s, ok := IsStr(k)
			if !ok {
				return fail("a map with the key %s", k.K())
			}
			es = append(es, entry{s, vs[i]})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		var ps []part
		for i, e := range es {
			ps = append(ps, part{comma(i) + quote(e.k) + ":", e.v, false})
		}
		return parts("{", ps, "}")
	case *types.Struct:
		var ps []part
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			if f.Anonymous() {
				return fail("a struct with an embedded field")
			}
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			opts := strings.Split(tag, ",")
			name := f.Name()
			if opts[0] != "" {
				name = opts[0]
			}
			fv := st.Resolve(FieldOf(v, f.Name(), f.Type()))
			omit := false
			for _, o := range opts[1:] {
				switch o {
				case "omitempty":
					e, known := st.emptyJSON(fv)
					if !known {
						return fail("the field %s, which may be empty", f.Name())
					}
					omit = e
				case "string":
					return fail("a field written as a string")
				}
			}
			if !omit {
				ps = append(ps, part{comma(len(ps)) + quote(name) + ":", fv, addressable})
			}
		}
		return parts("{", ps, "}")
	}
	return fail("%s", v.K())
}

// emptyJSON tells whether encoding/json takes the value for empty.
func (s *State) emptyJSON(v Val) (empty, known bool) {
	if IsNil(v) {
		return true, true
	}
	switch v.Typ().Underlying().(type) {
	case *types.Interface, *types.Pointer:
		if _, ok := v.(*IfaceV); ok {
			return false, true
		}
		if _, ok := v.(*Ptr); ok {
			return false, true
		}
		return s.Decide(Eq(v, Nil(v.Typ())))
	case *types.Struct:
		return false, true
	case *types.Slice, *types.Map:
		n, ok := IsInt(s.Resolve(s.lenOf(v)))
		return n == 0, ok
	case *types.Basic:
		if k, ok := v.(*Const); ok {
			switch k.V.ExactString() {
			case `""`, "0", "false":
				return true, true
			}
			return false, true
		}
		b, ok := s.Decide(Eq(v, ZeroOf(v.Typ())))
		return b, ok
	}
	return false, false
}

// asText is the text of which v are the bytes.
func asText(v Val) (Val, bool) {
	switch v := v.(type) {
	case *Term:
		if v.Op == "bytes" {
			return v.Args[0], true
		}
		if isStringT(v.T) {
			return v, true
		}
	case *Const:
		if _, ok := IsStr(v); ok {
			return v, true
		}
	case *ListV:
		if v.Base == nil && len(v.Elems) == 0 {
			return Str(""), true
		}
	}
	return nil, false
}

// MarshalJSON is a model of json.Marshal.
func MarshalJSON(a *Analysis, st *State, args []Val, c *Call) []Ret {
	rt := c.Sig.Results()
	var out []Ret
	for _, r := range a.JSON(st, args[0], c) {
		switch {
		case r.Panic != "":
		case len(r.Vals) == 1:
			r.Vals = []Val{&Term{Op: "bytes", Args: []Val{r.Vals[0]}, T: rt.At(0).Type()}, Nil(rt.At(1).Type())}
		default:
			r.Vals = []Val{Nil(rt.At(0).Type()), r.Vals[1]}
		}
		out = append(out, r)
	}
	return out
}
