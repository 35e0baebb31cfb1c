package main

import (
	"maplverif/absint"
)

// exists watches the loops over one list and keeps, as a typestate in
// Mon[key], whether some element matched so far: "no", "yes", and after an
// early exit at an element that does not match "cut".
type exists struct {
	key   string
	list  absint.Val
	match func(o *absint.Oracle, elem absint.Val) bool
	// inert: the element can end the search (it never matches and lists are
	// homogeneous in it)
	inert func(o *absint.Oracle, elem absint.Val) bool
	seen  map[string]bool
}

func (e *exists) on(lm *absint.LoopMeta) bool {
	return lm.Full && lm.Bound != nil && lm.Bound.K() == absint.Len(e.list).K()
}

// attach installs monitors for several lists.
func attach(a *absint.Analysis, es ...*exists) {
	a.OnEnter = func(s *absint.State, lm *absint.LoopMeta) {
		for _, e := range es {
			if e.on(lm) {
				s.Mon[e.key+"@"+lm.ID] = "no"
			}
		}
	}
	a.OnBackEdge = func(s *absint.State, lm *absint.LoopMeta, old, nw map[string]absint.Val) []*absint.State {
		for _, e := range es {
			if !e.on(lm) {
				continue
			}
			var out []*absint.State
			absint.Complete(s, func(o *absint.Oracle) {
				if e.match(o, absint.ElemAt(e.list, lm.Iter)) {
					o.St.Mon[e.key+"@"+lm.ID] = "yes"
				}
				out = append(out, o.St)
			})
			return out
		}
		return []*absint.State{s}
	}
	a.OnExit = func(s *absint.State, lm *absint.LoopMeta, early bool) []*absint.State {
		for _, e := range es {
			if !e.on(lm) {
				continue
			}
			k := e.key + "@" + lm.ID
			if !early {
				return e.settle(s, s.Mon[k])
			}
			var out []*absint.State
			absint.Complete(s, func(o *absint.Oracle) {
				v := o.St.Mon[k]
				el := absint.ElemAt(e.list, lm.Iter)
				if v == "yes" && e.inert != nil && e.inert(o, el) {
					return // entries of one list share their kind
				}
				if v != "yes" {
					if e.match(o, el) {
						v = "yes"
					} else if e.inert == nil || !e.inert(o, el) {
						v = "cut"
					}
				}
				out = append(out, e.settle(o.St, v)...)
			})
			return out
		}
		return []*absint.State{s}
	}
}

// settle records the outcome; two complete searches of one list agree.
func (e *exists) settle(s *absint.State, v string) []*absint.State {
	if old, ok := s.Mon[e.key]; ok && old != "cut" {
		if v != "cut" && v != old {
			return nil
		}
		return []*absint.State{s}
	}
	s.Mon[e.key] = v
	return []*absint.State{s}
}
