package main

import (
	"go/constant"
	"math/big"
	"regexp"
	"regexp/syntax"
	"strings"

	"maplverif/absint"
)

// linearForm reads an arithmetic term as a sum of named quantities with exact
// coefficients; "" is the constant part. Rounding is not modelled.
func linearForm(v absint.Val, name func(absint.Val) (map[string]*big.Rat, bool)) (map[string]*big.Rat, bool) {
	if m, ok := name(v); ok {
		return m, true
	}
	switch x := v.(type) {
	case *absint.Const:
		if x.V == nil || x.V.Kind() != constant.Int && x.V.Kind() != constant.Float {
			return nil, false
		}
		r, ok := new(big.Rat).SetString(constant.ToFloat(x.V).ExactString())
		if !ok {
			return nil, false
		}
		return map[string]*big.Rat{"": r}, true
	case *absint.Term:
		if strings.HasPrefix(x.Op, "conv<float") {
			return linearForm(x.Args[0], name)
		}
		var a, b map[string]*big.Rat
		if len(x.Args) != 2 {
			return nil, false
		}
		a, ok1 := linearForm(x.Args[0], name)
		b, ok2 := linearForm(x.Args[1], name)
		if !ok1 || !ok2 {
			return nil, false
		}
		konst := func(m map[string]*big.Rat) (*big.Rat, bool) {
			for k, c := range m {
				if k != "" && c.Sign() != 0 {
					return nil, false
				}
			}
			if m[""] == nil {
				return new(big.Rat), true
			}
			return m[""], true
		}
		scale := func(m map[string]*big.Rat, f *big.Rat) map[string]*big.Rat {
			out := map[string]*big.Rat{}
			for k, c := range m {
				out[k] = new(big.Rat).Mul(c, f)
			}
			return out
		}
		switch x.Op {
		case "add", "op+", "op-":
			if x.Op == "op-" {
				b = scale(b, big.NewRat(-1, 1))
			}
			out := scale(a, big.NewRat(1, 1))
			for k, c := range b {
				if out[k] == nil {
					out[k] = new(big.Rat)
				}
				out[k].Add(out[k], c)
			}
			return out, true
		case "op*":
			if f, ok := konst(a); ok {
				return scale(b, f), true
			}
			if f, ok := konst(b); ok {
				return scale(a, f), true
			}
		case "op/":
			if f, ok := konst(b); ok && f.Sign() != 0 && strings.HasPrefix(absint.TypeName(x.T), "float") {
				return scale(a, new(big.Rat).Inv(f)), true
			}
		}
	}
	return nil, false
}

func sameForm(a, b map[string]*big.Rat) bool {
	for k, c := range a {
		d := b[k]
		if d == nil {
			d = new(big.Rat)
		}
		if c.Cmp(d) != 0 {
			return false
		}
	}
	for k, c := range b {
		if a[k] == nil && c.Sign() != 0 {
			return false
		}
	}
	return true
}

// charMap reads a chain of replacements of single characters on top of some
// base text: image tells what one character of the base becomes.
func charMap(v absint.Val) (base absint.Val, image func(r string) string, ok bool) {
	t, isT := v.(*absint.Term)
	if !isT {
		return v, func(r string) string { return r }, true
	}
	single := func(s string) bool { return len([]rune(s)) == 1 }
	switch t.Op {
	case "ReplaceAll":
		o, ok1 := absint.IsStr(t.Args[1])
		n, ok2 := absint.IsStr(t.Args[2])
		if !ok1 || !ok2 || o == "" {
			return nil, nil, false
		}
		b, im, ok := charMap(t.Args[0])
		if !ok {
			return nil, nil, false
		}
		if !single(o) && (len(o) > 2 || !apart(o, im)) {
			return nil, nil, false
		}
		return b, func(r string) string { return strings.Replace(im(r), o, n, -1) }, true
	case "regexp.QuoteMeta":
		b, im, ok := charMap(t.Args[0])
		return b, func(r string) string { return regexp.QuoteMeta(im(r)) }, ok
	case "strings.TrimSpace", "strings.Trim":
		// changes white space at the ends only
		if t.Op == "strings.Trim" {
			if s, ok := absint.IsStr(t.Args[1]); !ok || strings.TrimSpace(s) != "" {
				return nil, nil, false
			}
		}
		return charMap(t.Args[0])
	case "(*strings.Replacer).Replace":
		pairs, ok := replacerPairs(t.Args[0])
		if !ok {
			return nil, nil, false
		}
		for i := 0; i < len(pairs); i += 2 {
			if !single(pairs[i]) {
				return nil, nil, false
			}
		}
		b, im, ok := charMap(t.Args[1])
		if !ok {
			return nil, nil, false
		}
		rep := strings.NewReplacer(pairs...)
		return b, func(r string) string { return rep.Replace(im(r)) }, true
	}
	return v, func(r string) string { return r }, true
}

// plainChars are the characters the pattern properties speak about.
const plainChars = "abcXYZ0189-_:.*?$^/"

// apart tells whether a two-character text never arises at the border of the
// images of two characters.
func apart(o string, im func(string) string) bool {
	for _, a := range plainChars {
		for _, b := range plainChars {
			x, y := im(string(a)), im(string(b))
			if x == "" || y == "" || strings.Count(x+y, o) != strings.Count(x, o)+strings.Count(y, o) {
				return false
			}
		}
	}
	return true
}

func replacerPairs(v absint.Val) ([]string, bool) {
	t, ok := v.(*absint.Term)
	if !ok {
		return nil, false
	}
	if t.Op == "&of" {
		return replacerPairs(t.Args[0])
	}
	if t.Op != "strings.NewReplacer" {
		return nil, false
	}
	l, ok := t.Args[0].(*absint.ListV)
	if !ok || l.Base != nil || len(l.Elems)%2 != 0 {
		return nil, false
	}
	var out []string
	for _, e := range l.Elems {
		s, ok := absint.IsStr(e)
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// word is a text a finite pattern matches, with its anchors.
type word struct {
	text       string
	begin, end bool
}

// words lists what a pattern without repetition matches.
func words(re *syntax.Regexp) ([]word, bool) {
	switch re.Op {
	case syntax.OpEmptyMatch:
		return []word{{}}, true
	case syntax.OpLiteral:
		if re.Flags&syntax.FoldCase != 0 {
			return nil, false
		}
		return []word{{text: string(re.Rune)}}, true
	case syntax.OpCharClass:
		var out []word
		for i := 0; i < len(re.Rune); i += 2 {
			if re.Rune[i+1]-re.Rune[i] > 64 {
				return nil, false
			}
			for r := re.Rune[i]; r <= re.Rune[i+1]; r++ {
				out = append(out, word{text: string(r)})
			}
		}
		return out, true
	case syntax.OpBeginText:
		return []word{{begin: true}}, true
	case syntax.OpEndText:
		return []word{{end: true}}, true
	case syntax.OpCapture:
		return words(re.Sub[0])
	case syntax.OpQuest:
		ws, ok := words(re.Sub[0])
		return append(ws, word{}), ok
	case syntax.OpAlternate:
		var out []word
		for _, s := range re.Sub {
			ws, ok := words(s)
			if !ok {
				return nil, false
			}
			out = append(out, ws...)
		}
		return out, true
	case syntax.OpConcat:
		out := []word{{}}
		for _, s := range re.Sub {
			ws, ok := words(s)
			if !ok || len(out)*len(ws) > 4096 {
				return nil, false
			}
			var nx []word
			for _, a := range out {
				for _, b := range ws {
					if b.begin && a.text != "" || a.end && b.text != "" {
						continue // matches nothing
					}
					nx = append(nx, word{a.text + b.text, a.begin || b.begin, a.end || b.end})
				}
			}
			out = nx
		}
		return out, true
	}
	return nil, false
}

// wholeWords reads a pattern as a set of texts matched in full.
func wholeWords(pattern string) (map[string]bool, string) {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return nil, "is not a pattern: " + err.Error()
	}
	ws, ok := words(re)
	if !ok {
		return nil, "is not a list of texts"
	}
	out := map[string]bool{}
	for _, w := range ws {
		if !w.begin || !w.end {
			return nil, "matches parts of a text"
		}
		out[w.text] = true
	}
	return out, ""
}

// matchesAll tells whether a pattern matches every text.
func matchesAll(pattern string) bool {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return false
	}
	var any func(re *syntax.Regexp) bool
	any = func(re *syntax.Regexp) bool {
		switch re.Op {
		case syntax.OpEmptyMatch:
			return true
		case syntax.OpStar:
			return true // unanchored: matches the empty text somewhere
		case syntax.OpCapture:
			return any(re.Sub[0])
		case syntax.OpConcat:
			if len(re.Sub) == 3 && re.Sub[0].Op == syntax.OpBeginText && re.Sub[2].Op == syntax.OpEndText {
				return re.Sub[1].Op == syntax.OpStar && (re.Sub[1].Sub[0].Op == syntax.OpAnyChar || re.Sub[1].Sub[0].Op == syntax.OpAnyCharNotNL)
			}
		}
		return false
	}
	return any(re)
}

// fragment tells what a piece of pattern stands for: a literal character,
// "any" for one character, "run" for any run of characters.
func fragment(p string) string {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return "invalid"
	}
	for re.Op == syntax.OpCapture {
		re = re.Sub[0]
	}
	anyc := func(r *syntax.Regexp) bool { return r.Op == syntax.OpAnyChar || r.Op == syntax.OpAnyCharNotNL }
	switch {
	case anyc(re):
		return "any"
	case re.Op == syntax.OpStar && anyc(re.Sub[0]):
		return "run"
	}
	ws, ok := words(re)
	if ok && len(ws) == 1 && !ws[0].begin && !ws[0].end {
		return "=" + ws[0].text
	}
	return "other"
}

func wildcardImage(image func(string) string) string {
	for _, r := range plainChars {
		want := "=" + string(r)
		switch r {
		case '*':
			want = "run"
		case '?':
			want = "any"
		}
		if got := fragment(image(string(r))); got != want {
			return "the character " + string(r) + " becomes " + image(string(r))
		}
	}
	return ""
}
