package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

// Violation is one construct for which a rule could not be established.
type Violation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Detail    string `json:"detail"`
}

// C collects the outcome of one property check.
type C struct {
	P       *absint.Program
	ID      string
	Obl     map[string]int // obligations per rule
	Funcs   map[string]bool
	Paths   int
	Calls   int
	Loops   int
	Viol    []Violation
	seen    map[string]bool
	Notes   []string
	Known   []Known
	min     map[string]int
	crashed map[token.Pos]bool // positions of panics reported
	funcs   map[string]*ssa.Function
}

func newC(p *absint.Program, id string) *C {
	return &C{P: p, ID: id, Obl: map[string]int{}, Funcs: map[string]bool{}, seen: map[string]bool{}, min: map[string]int{}}
}

// OK counts a discharged obligation of a rule.
func (c *C) OK(rule string) { c.Obl[rule]++ }

// Fail records a violation once per rule and construct.
func (c *C) Fail(rule, construct string, pos token.Pos, format string, args ...interface{}) {
	c.Obl[rule]++
	k := rule + "|" + construct
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	d := fmt.Sprintf(format, args...)
	d = cut(d, 1500)
	c.Viol = append(c.Viol, Violation{rule, construct, c.P.Pos(pos), d})
}

// Want demands at least n discharged instances of a rule, so that a rule that
// no longer finds its subject fails instead of passing vacuously.
func (c *C) Want(rule string, n int) { c.min[rule] = n }

func (c *C) finish() {
	var rs []string
	for r := range c.min {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	for _, r := range rs {
		if c.Obl[r] < c.min[r] {
			c.Fail("coverage", r, token.NoPos, "rule %q found %d instances, at least %d are expected", r, c.Obl[r], c.min[r])
		}
	}
}

// fn looks up an anchor function; a missing anchor is a violation.
func (c *C) fn(name string) *ssa.Function {
	var f *ssa.Function
	if i := strings.Index(name, "."); i > 0 {
		f = c.P.Method(name[:i], name[i+1:])
	} else {
		f = c.P.Func(name)
	}
	if f == nil || len(f.Blocks) == 0 {
		c.Fail("anchor", name, token.NoPos, "the public function %s was not found", name)
		return nil
	}
	return f
}

// typ looks up a named type.
func (c *C) typ(name string) types.Type {
	t := c.P.Type(name)
	if t == nil {
		c.Fail("anchor", name, token.NoPos, "the type %s was not found", name)
		return types.Typ[types.Invalid]
	}
	return t
}

// absorb adds the statistics of an analysis and turns undecided steps into
// violations.
func (c *C) absorb(a *absint.Analysis, what string, pos token.Pos, rets []absint.Ret) {
	for f := range a.Funcs {
		c.Funcs[f] = true
	}
	c.Paths += len(rets)
	c.Calls += a.Calls
	c.Loops += len(a.Loops)
	var us []string
	for u := range a.Undecided {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		c.Fail("decided", what+": "+u, pos, "the analysis of %s met a construct it does not model: %s", what, u)
	}
}

func facts(st *absint.State) string {
	var out []string
	for _, f := range st.FactList() {
		out = append(out, f)
	}
	return strings.Join(out, " ∧ ")
}

func describe(o *absint.Oracle) string {
	s := facts(o.St)
	return cut(s, 900)
}

// fieldType of a struct type by field name.
func fieldType(t types.Type, name string) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// cut shortens a text at a character boundary.
func cut(s string, n int) string {
	r := []rune(s)
	if len(r) <= n {
		return s
	}
	return string(r[:n]) + "…"
}

// global is the address of a package-level variable.
func (c *C) global(name string) absint.Val {
	v := c.P.Global(name)
	if v == nil {
		c.Fail("anchor", name, 0, "the package-level variable %s is gone", name)
	}
	return v
}
