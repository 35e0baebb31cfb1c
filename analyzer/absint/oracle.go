package absint

import "go/token"

// Oracle answers predicates for a specification: from the facts of a path if
// they determine the answer, otherwise by considering both answers.
type Oracle struct {
	St     *State
	script []bool
	pos    int
	Split  []string // predicates the facts left open, with the answer taken
}

// Complete runs f for every way of answering the predicates it asks that is
// consistent with the facts of st. It returns the number of runs.
func Complete(st *State, f func(o *Oracle)) int {
	work := [][]bool{nil}
	n := 0
	for len(work) > 0 {
		sc := work[len(work)-1]
		work = work[:len(work)-1]
		o := &Oracle{St: st.Clone(), script: sc}
		f(o)
		n++
		if n > 20000 {
			st.A.undecided("too many completions")
			return n
		}
		// siblings of the choices made beyond the script
		for i := len(sc); i < len(o.script); i++ {
			if o.script[i] {
				alt := append([]bool{}, o.script[:i]...)
				work = append(work, append(alt, false))
			}
		}
	}
	return n
}

// Is decides a predicate.
func (o *Oracle) Is(v Val) bool {
	v = o.St.Resolve(v)
	if b, known := o.St.Decide(v); known {
		return b
	}
	var b bool
	if o.pos < len(o.script) {
		b = o.script[o.pos]
	} else {
		b = true
		c := o.St.Clone()
		if !c.Assume(v, true) {
			// cannot hold; do not consider it
			o.St.Assume(v, false)
			return false
		}
		o.script = append(o.script, true)
	}
	o.pos++
	if !o.St.Assume(v, b) {
		// impossible answer: take the other one
		o.St.Assume(v, !b)
		b = !b
	}
	if b {
		o.Split = append(o.Split, v.K())
	} else {
		o.Split = append(o.Split, "!"+v.K())
	}
	return b
}

// StrIs decides whether a string value equals one of the constants.
func (o *Oracle) StrIs(v Val, alts ...string) bool {
	for _, a := range alts {
		if o.Is(Eq(v, Str(a))) {
			return true
		}
	}
	return false
}

// NotNil decides whether a reference is set.
func (o *Oracle) NotNil(v Val) bool { return !o.Is(Eq(v, Nil(v.Typ()))) }

// Cmp decides an order relation.
func (o *Oracle) Cmp(op token.Token, a, b Val) bool { return o.Is(Cmp(op, a, b)) }
