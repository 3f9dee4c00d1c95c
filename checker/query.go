package main

import (
	"go/constant"
	"go/types"
	"strings"
)

// Queries over abstract states used by the rules.

var stripMemo = map[*Term]*Term{}

// strip identifies values of different loop iterations.
func strip(t *Term) *Term {
	if r, ok := stripMemo[t]; ok {
		return r
	}
	r := t
	if t.op == OpSome {
		r = strip(t.args[0])
	} else if len(t.args) > 0 || len(t.nest) > 0 {
		n := *t
		n.id, n.vol, n.some, n.depth = 0, nil, nil, 0
		n.nest = nil
		n.args = make([]*Term, len(t.args))
		for i, a := range t.args {
			n.args[i] = strip(a)
		}
		if n.op == OpBin && n.s == "==" && n.args[0].id > n.args[1].id {
			n.args[0], n.args[1] = n.args[1], n.args[0]
		}
		r = mk(n)
	}
	stripMemo[t] = r
	return r
}

func same(a, b *Term) bool { return a == b || strip(a) == strip(b) }

// lits calls f for every comparison with a constant that holds in the
// state (current facts and facts of earlier iterations).
func (s *State) lits(f func(t, val *Term, eq bool) bool) bool {
	for t, x := range s.facts {
		if x.eq != nil && f(t, x.eq, true) {
			return true
		}
		for _, n := range x.neq {
			if f(t, n, false) {
				return true
			}
		}
	}
	for x := range s.ex {
		if f(x.t, x.val, x.eq) {
			return true
		}
	}
	return false
}

// holds: t == v is established (also for an earlier iteration).
func (s *State) holds(t, v *Term) bool {
	if s.eqKnown(nil, t, v) == 1 {
		return true
	}
	st := strip(t)
	return s.lits(func(x, c *Term, eq bool) bool { return eq && c == v && strip(x) == st })
}

func (s *State) holdsNot(t, v *Term) bool {
	if s.eqKnown(nil, t, v) == 0 {
		return true
	}
	st := strip(t)
	return s.lits(func(x, c *Term, eq bool) bool {
		return strip(x) == st && (!eq && c == v || eq && c != v && c.distinct() && v.distinct())
	})
}

// heldEqual: a == b was established for two non-constant terms.
func (s *State) heldEqual(a, b *Term) bool {
	a, b = strip(a), strip(b)
	if a == b {
		return true
	}
	if b.distinct() {
		return s.holds(a, b)
	}
	if a.distinct() {
		return s.holds(b, a)
	}
	return s.lits(func(t, c *Term, eq bool) bool {
		if !(eq && c == kTrue) || t.op != OpBin || t.s != "==" {
			return false
		}
		x, y := strip(t.args[0]), strip(t.args[1])
		return x == a && y == b || x == b && y == a
	})
}

// elemOf: t is an element (any index) of slice base.
func elemBase(t *Term) *Term {
	t = strip(t)
	if t.op == OpDeref && t.args[0].op == OpElem {
		return t.args[0].args[0]
	}
	return nil
}

// anyElemEqual: some element of the slice was found equal to v.
func (s *State) anyElemEqual(isBase func(b *Term) bool, v func(*Term) bool) bool {
	return s.lits(func(t, c *Term, eq bool) bool {
		if !eq {
			return false
		}
		if b := elemBase(t); b != nil && isBase(b) && v(c) {
			return true
		}
		if c != kTrue {
			return false
		}
		if t.op == OpBin && t.s == "==" {
			for k := 0; k < 2; k++ {
				if b := elemBase(t.args[k]); b != nil && isBase(b) && v(strip(t.args[1-k])) {
					return true
				}
			}
		}
		if t.op == OpPure && strings.HasPrefix(t.s, "slices.Contains") && len(t.args) == 2 {
			return isBase(strip(t.args[0])) && v(strip(t.args[1]))
		}
		return false
	})
}

// fieldOf: t denotes field name of a value/pointer v.
func fieldOf(t *Term, name string) *Term {
	t = strip(t)
	switch t.op {
	case OpFVal:
		if t.s == name {
			return t.args[0]
		}
	case OpDeref:
		if a := t.args[0]; a.op == OpField && a.s == name {
			return a.args[0]
		}
	}
	return nil
}

// protoField: t is the (dereferenced, if scalar) content of field name
// of the message at pointer v.
func protoField(t *Term, name string) *Term {
	t = strip(t)
	if b := fieldOf(t, name); b != nil {
		return b
	}
	if t.op == OpDeref {
		return fieldOf(t.args[0], name)
	}
	return nil
}

// pathString renders r.Entity.ID like access paths rooted at params.
func accessPath(t *Term) (root *Term, path string) {
	t = strip(t)
	switch t.op {
	case OpDeref:
		if t.args[0].op == OpField || t.args[0].op == OpElem {
			return accessPath(t.args[0])
		}
		return accessPath(t.args[0])
	case OpField, OpFVal:
		r, p := accessPath(t.args[0])
		if r == nil {
			return t.args[0], t.s
		}
		if p == "" {
			return r, t.s
		}
		return r, p + "." + t.s
	case OpElem:
		r, p := accessPath(t.args[0])
		if r == nil {
			return t.args[0], "[]"
		}
		return r, p + "[]"
	case OpParam:
		return t, ""
	}
	return nil, ""
}

// isPath reports whether t is the access path "param.A.B" (param by
// position among the entry's parameters, e.g. a *Term).
func isPath(t, root *Term, path string) bool {
	r, p := accessPath(t)
	return r == root && p == path
}

func (P *Program) constOf(pkgPath, name string) *Term {
	for _, sp := range P.byPkg {
		for _, im := range sp.Pkg.Imports() {
			if im.Path() == pkgPath {
				if c, ok := im.Scope().Lookup(name).(*types.Const); ok {
					return kConst(c.Val(), c.Type())
				}
			}
		}
	}
	return nil
}

func (P *Program) capability(name string) *Term {
	return P.constOf(protoPath, "Capability_"+name)
}

func constStr(t *Term) string {
	if t != nil && t.op == OpConst && t.c != nil && t.c.Kind() == constant.String {
		return constant.StringVal(t.c)
	}
	return ""
}

func (s *State) lastEvent(name string) *Event {
	for i := len(s.events) - 1; i >= 0; i-- {
		if s.events[i].name == name {
			return s.events[i]
		}
	}
	return nil
}

func (s *State) eventsNamed(name string) []*Event {
	var l []*Event
	for _, e := range s.events {
		if e.name == name {
			l = append(l, e)
		}
	}
	return l
}

// lastField is the name of the field that t denotes the content of.
func (t *Term) lastField() string {
	switch {
	case t.op == OpFVal:
		return t.s
	case t.op == OpDeref && t.args[0].op == OpField:
		return t.args[0].s
	}
	return ""
}

func (s *State) lastEventPrefix(p string) *Event {
	for i := len(s.events) - 1; i >= 0; i-- {
		if strings.HasPrefix(s.events[i].name, p) {
			return s.events[i]
		}
	}
	return nil
}
