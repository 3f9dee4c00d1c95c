package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Rules about what an operation does to the record it saves: which
// fields change, and how the elements of a changed list relate to the
// list that was stored.

// pairs enumerates comparisons "a equals b" decided on the path.
func (s *State) pairs(factsOnly bool, f func(a, b *Term, eq bool) bool) bool {
	one := func(t, c *Term, eq bool) bool {
		for t.op == OpUn && t.s == "!" {
			t = t.args[0]
			if c == kTrue {
				c = kFalse
			} else if c == kFalse {
				c = kTrue
			}
		}
		if t.op == OpBin && (t.s == "==" || t.s == "!=") && (c == kTrue || c == kFalse) {
			v := (c == kTrue) == eq == (t.s == "==")
			return f(t.args[0], t.args[1], v) || f(t.args[1], t.args[0], v)
		}
		return f(t, c, eq) || f(c, t, eq)
	}
	for t, x := range s.facts {
		if x.eq != nil && one(t, x.eq, true) {
			return true
		}
		for _, n := range x.neq {
			if one(t, n, false) {
				return true
			}
		}
	}
	if factsOnly {
		return false
	}
	for x := range s.ex {
		if one(x.t, x.val, x.eq) {
			return true
		}
	}
	return false
}

// exhausted: a loop over list b ran to its end.
func (s *State) exhausted(b *Term) bool { return s.exhaustedBy(b, nil) }

// exhaustedBy: one of the given loops did (any loop if nil), or the list
// is empty.
func (s *State) exhaustedBy(b *Term, loops map[nestKey]bool) bool {
	if b.isNil() || s.nilness(b) == 1 {
		return true
	}
	if b.op == OpSlice && b.args[0].op == OpAlloc {
		if a, ok := b.args[0].typ.Underlying().(*types.Array); ok && a.Len() == 0 {
			return true
		}
	}
	sb := strip(b)
	ln := func(t *Term) bool {
		return t.op == OpPure && t.s == "len" && len(t.args) == 1 && strip(t.args[0]) == sb
	}
	return s.lits(func(t, c *Term, eq bool) bool {
		if t.op == OpBin && t.s == "<" && ln(t.args[1]) {
			if loops != nil {
				found := false
				for k := range loops {
					found = found || hasNest(t.args[0].vol, k)
				}
				if !found {
					return false
				}
			}
			return eq && c == kFalse || !eq && c == kTrue
		}
		if ln(t) && eq {
			n, ok := c.intv()
			return ok && n == 0
		}
		return false
	})
}

// edit specifies how an operation may change one list of a record.
type edit struct {
	op, kind string
	field    string // list of the record
	typ      string
	// item recognizes (the key of) the requested item
	match []func(t *Term, r *opRun) bool
	// key: the comparison value of an element; returns the element
	keyElem func(t *Term) *Term
	add     func(t *Term, r *opRun) bool // t is the requested new element
	mode    string                       // add, addnew, remove, replace, put
	when    func(s *save, r *opRun) bool
	inst    string
	// the elements are keys and values with a colon in between
	sep bool
}

// elem: the element whose comparison value t is.
func (sp *edit) elem(st *State, t *Term) *Term {
	if x := sp.keyElem(t); x != nil || !sp.sep {
		return x
	}
	x := strip(t)
	if y := replaceAll(x); y != nil {
		x = strip(y)
	} else if sp.inst == "CLEARFUZZY" {
		return nil
	}
	if st.noColon(x) {
		return x // all of it is the key
	}
	return nil
}

// keyed lists the comparisons of keys known in a state.
func (sp *edit) keyed(st *State, factsOnly bool, f func(el, key *Term, eq bool) bool) bool {
	if st.pairs(factsOnly, func(a, b *Term, eq bool) bool {
		el := sp.elem(st, a)
		return el != nil && f(el, b, eq)
	}) {
		return true
	}
	if !sp.sep || sp.inst == "CLEARFUZZY" {
		return false
	}
	// an element that starts with a key and a colon has this key
	has := func(t, v *Term, eq bool) bool {
		if t.op != OpPure && t.op != OpCall || t.s != "strings.HasPrefix" || v != kTrue && v != kFalse {
			return false
		}
		p := strip(t.args[1])
		if p.op != OpPure || p.s != "concat" || len(p.args) != 2 || constStr(p.args[1]) != ":" {
			return false
		}
		return f(strip(t.args[0]), p.args[0], (v == kTrue) == eq)
	}
	for t, x := range st.facts {
		if x.eq != nil && has(t, x.eq, true) {
			return true
		}
	}
	if !factsOnly {
		for x := range st.ex {
			if has(x.t, x.val, x.eq) {
				return true
			}
		}
	}
	return false
}

func plainElem(t *Term) *Term { return strip(t) }

// asList: the list without copies: append([]T{}, l...) holds what l does.
func asList(t *Term) *Term {
	x := strip(t)
	switch {
	case x.op == OpPure && x.s == "dedup" && len(x.args) > 0:
		if y := asList(x.args[0]); y != x.args[0] {
			d := *x
			d.args = append([]*Term{y}, x.args[1:]...)
			return mk(d)
		}
	case x.op == OpAppend:
		base := asList(x.args[0])
		els := x.args[1:]
		for emptyList(base) && len(els) > 0 && els[0].op == OpPure && els[0].s == "spread" {
			base, els = asList(els[0].args[0]), els[1:]
		}
		if len(els) == 0 {
			return base
		}
		if base != x.args[0] {
			return mkAppend(base, els, x.typ)
		}
	}
	return t
}

// emptyList: nil or a list made without elements.
func emptyList(t *Term) bool {
	t = strip(t)
	if t.isNil() {
		return true
	}
	if t.op == OpSlice && t.args[0].op == OpAlloc {
		a, ok := t.args[0].typ.Underlying().(*types.Array)
		return ok && a.Len() == 0
	}
	if t.op == OpMake && len(t.args) >= 1 {
		n, ok := t.args[0].intv()
		return ok && n == 0
	}
	return false
}

// lists from which the elements of a value come.
func (s *save) origins(t *Term, orig *Term, out map[*Term]bool, depth int) {
	t = strip(t)
	if b := elemBase(t); b != nil && depth < 12 {
		s.listOrigins(b, orig, t, out, depth+1)
		return
	}
	out[t] = true
}

func (s *save) listOrigins(b, orig, self *Term, out map[*Term]bool, depth int) {
	b = strip(b)
	switch {
	case b == strip(orig):
		out[nil] = true
	case b.op == OpPure && b.s == "dedup":
		s.listOrigins(b.args[0], orig, self, out, depth)
	case b.op == OpAppend:
		s.listOrigins(b.args[0], orig, nil, out, depth)
		for _, x := range b.args[1:] {
			if x.op == OpPure && x.s == "spread" {
				s.listOrigins(x.args[0], orig, nil, out, depth+1)
				continue
			}
			s.origins(x, orig, out, depth)
		}
	case b.isNil():
	case b.op == OpSlice && b.args[0].op == OpAlloc:
		if a, ok := b.args[0].typ.Underlying().(*types.Array); ok && a.Len() == 0 {
			return
		}
		if self != nil {
			out[self] = true
		} else {
			out[b] = true
		}
	default:
		if self != nil {
			out[self] = true
		} else {
			out[b] = true
		}
	}
}

// runEdits decides a set of edit specifications.
func (c *Ctx) runEdits(t *chainTable, rule string, specs []edit) {
	var ops []string
	had := map[string]bool{}
	for _, sp := range specs {
		if !had[sp.op] {
			had[sp.op] = true
			ops = append(ops, sp.op)
		}
	}
	res := c.runOps(t, rule, ops, nil)
	for i := range specs {
		sp := &specs[i]
		if r := res[sp.op]; r != nil {
			c.decideEdit(rule, sp, r)
		}
	}
}

func (c *Ctx) decideEdit(rule string, sp *edit, r *opRun) {
	inst := sp.op
	if sp.inst != "" {
		inst += " " + sp.inst
	}
	bad := func(s *save, what, format string, a ...any) {
		c.violate(rule, inst+" "+what, s.ev.pos, pathOf(s.ev, s.st), format, a...)
	}
	n, keptSome, added := 0, 0, 0
	matchAny := func(t *Term) int {
		t = strip(t)
		for i, m := range sp.match {
			if m(t, r) {
				return i
			}
		}
		return -1
	}
	var kept map[*Term]bool
	for _, s := range r.saves {
		if sp.when != nil && !sp.when(s, r) {
			continue
		}
		n++
		c.ob(rule, inst)
		c.frame(rule, inst, s, r, map[string]bool{sp.field: true})
		L := s.orig[sp.field]
		if L == nil {
			bad(s, "field", "the %s saved has no field %s", s.kind, sp.field)
			continue
		}
		V, ch := s.change[sp.field]
		if !ch {
			V = L
		}
		V = asList(V)
		// every element comes from the stored list or is the requested one
		kept = map[*Term]bool{}
		s.listOrigins(V, L, nil, kept, 0)
		isNew := false
		for x := range kept {
			switch {
			case x == nil:
				keptSome++
			case sp.add != nil && sp.add(x, r):
				isNew = true
			default:
				bad(s, "foreign", "the saved list %s may contain an element that was neither stored nor requested: %v", sp.field, x)
			}
		}
		if isNew {
			added++
		}
		inList := sp.keyed(s.st, false, func(el, b *Term, eq bool) bool {
			return eq && matchAny(b) >= 0 && elemOrigin(s, el, L)
		})
		whole := strip(V) == strip(L)
		for v := strip(V); v.op == OpAppend || v.op == OpPure && v.s == "dedup"; v = v.args[0] {
			if v.args[0] == strip(L) {
				whole = true // everything that was stored is kept
			}
		}
		if !whole && !s.st.exhausted(L) {
			bad(s, "partial", "the list %s is saved although the stored list was not processed to its end", sp.field)
		}
		switch sp.mode {
		case "add":
			if !isNew && !inList {
				bad(s, "missing", "the requested item is neither added to %s nor found in it", sp.field)
			}
		case "addnew", "replace", "put":
			if !isNew {
				bad(s, "missing", "the requested item is not in the saved list %s", sp.field)
			}
		}
		if sp.mode == "addnew" || sp.mode == "replace" {
			// the key was searched for in the complete list
			rest := V
			if V.op == OpAppend {
				var els []*Term
				for _, x := range V.args[1:] {
					if !sp.add(strip(x), r) {
						els = append(els, x)
					}
				}
				rest = V.args[0]
				if len(els) > 0 {
					rest = mkAppend(V.args[0], els, V.typ)
				}
			}
			if !s.st.exhausted(rest) {
				bad(s, "unsearched", "the requested item is added to %s although the list was not searched to its end for an item with that key", sp.field)
			}
		}
		if sp.mode == "addnew" && inList {
			bad(s, "exists", "the requested item is added to %s although an item with that key was found", sp.field)
		}
		if sp.mode == "removeold" || sp.mode == "replace" {
			shorter := s.st.lits(func(t, v *Term, eq bool) bool {
				if t.op != OpBin || t.s != "==" && t.s != "<" {
					return false
				}
				ln := 0
				for _, a := range t.args {
					if a.op == OpPure && a.s == "len" {
						if same(a.args[0], L) {
							ln |= 1
						} else {
							ln |= 2
						}
					} else if n, ok := a.intv(); ok && n == 0 {
						ln |= 2
					}
				}
				return ln == 3 && (t.s == "==" && (eq && v == kFalse || !eq && v == kTrue) || t.s == "<" && eq && v == kTrue)
			}) || s.st.lits(func(t, v *Term, eq bool) bool {
				n, isn := v.intv()
				return !eq && isn && n == 0 && t.op == OpPure && t.s == "len" && same(t.args[0], L)
			})
			if !inList && !shorter {
				bad(s, "absent", "the change of %s is saved although no item with the requested key was found", sp.field)
			}
		}
	}
	if n == 0 {
		c.violate(rule, inst+" none", r.fn.Pos(), nil, "no path of %s saves the change", sp.op)
		return
	}
	// the loops that build the new list
	type lk struct {
		k nestKey
		f string
	}
	loops := map[lk][]*iteration{}
	for _, it := range r.iters {
		if it.base == nil || it.elem == nil || len(r.saves) == 0 {
			continue
		}
		if sp.when != nil && !sp.when(&save{st: it.st, op: sp.op}, r) {
			continue
		}
		// only loops over the list edited
		s0 := &save{st: it.st}
		of := false
		for _, s := range r.saves {
			if L := s.orig[sp.field]; L != nil && elemOrigin(s0, it.elem, L) {
				of = true
			}
		}
		if of {
			loops[lk{it.key, fnName(it.fn)}] = append(loops[lk{it.key, fnName(it.fn)}], it)
		}
	}
	excluded := map[int]bool{}
	building := 0
	var keys []lk
	for k := range loops {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].f+fmt.Sprint(keys[i].k) < keys[j].f+fmt.Sprint(keys[j].k)
	})
	for _, k := range keys {
		its := loops[k]
		builds := false
		for _, it := range its {
			if it.keeps(it.elem) {
				builds = true
			}
		}
		known := func(it *iteration, want bool) map[int]bool {
			got := map[int]bool{}
			se := strip(it.elem)
			sp.keyed(it.st, true, func(el, b *Term, eq bool) bool {
				if eq == want && el == se {
					if i := matchAny(b); i >= 0 {
						got[i] = true
					}
				}
				return false
			})
			return got
		}
		if !builds {
			for _, it := range its {
				c.ob(rule, inst+" search")
				if sp.mode == "addnew" || sp.mode == "replace" {
					if len(known(it, false)) == 0 {
						c.violate(rule, inst+" search", it.fn.Pos(), trailOf(it.st), "the search for an existing item continues past an item that was not found to differ from the requested one")
					}
				}
			}
			continue
		}
		building++
		var excl map[int]bool
		for _, it := range its {
			c.ob(rule, inst+" element")
			if !it.keeps(it.elem) {
				if len(known(it, true)) == 0 {
					c.violate(rule, inst+" lost", it.fn.Pos(), trailOf(it.st), "an element of %s is dropped although it was not found to be the requested one", sp.field)
				}
				continue
			}
			ne := known(it, false)
			if excl == nil {
				excl = ne
			} else {
				for i := range excl {
					if !ne[i] {
						delete(excl, i)
					}
				}
			}
		}
		for i := range excl {
			excluded[i] = true
		}
	}
	switch sp.mode {
	case "remove", "removeold", "replace", "put":
		if keptSome == 0 {
			c.violate(rule, inst+" keeps", r.saves[0].ev.pos, nil, "no element of the stored list %s is ever kept", sp.field)
		}
		for i := range sp.match {
			if !excluded[i] {
				c.violate(rule, inst+fmt.Sprintf(" removes %d", i), r.saves[0].ev.pos, nil, "no loop over %s drops every element equal to the requested one", sp.field)
			}
		}
	case "add":
		if keptSome == 0 || added == 0 {
			c.violate(rule, inst+" keeps", r.saves[0].ev.pos, nil, "no element of the stored list %s is ever kept, or the requested one is never added", sp.field)
		}
	}
}

// elemOrigin: el is an element of (a list derived from) L.
func elemOrigin(s *save, el, L *Term) bool {
	o := map[*Term]bool{}
	s.origins(el, L, o, 0)
	if o[nil] {
		return true
	}
	return false
}

// frame: nothing but the allowed fields (and what may always be added:
// an empty metadata record) changes, and the record saved is the one
// named in the call.
func (c *Ctx) frame(rule, inst string, s *save, r *opRun, allow map[string]bool) {
	name := r.args[1]
	idf := "ID"
	if s.kind == "group" {
		idf = "Name"
	}
	if s.src == nil || s.load == nil {
		c.violate(rule, inst+" fresh", s.ev.pos, pathOf(s.ev, s.st), "the record saved by %s is not the one loaded from storage", s.op)
		return
	}
	if !same(s.load.args[1], name) {
		c.violate(rule, inst+" other", s.ev.pos, pathOf(s.ev, s.st), "the record saved by %s was loaded under the name %v, not the one requested", s.op, s.load.args[1])
	}
	if s.st.eqKnown(nil, ext(s.load.res, 1), kNil) != 1 {
		c.violate(rule, inst+" unloaded", s.ev.pos, pathOf(s.ev, s.st), "the record is saved by %s without being known to have been loaded", s.op)
	}
	for _, f := range s.changed() {
		if allow[f] {
			continue
		}
		if f == idf && s.idKept(s.change[f], name) {
			continue
		}
		c.violate(rule, inst+" changes "+f, s.ev.pos, pathOf(s.ev, s.st), "%s changes %s of the %s from %v to %v", s.op, f, s.kind, s.orig[f], s.change[f])
	}
}

// idKept: the identity written is the one the record was loaded by.
func (s *save) idKept(v, name *Term) bool {
	switch v.op {
	case OpMerge:
		for _, a := range v.args {
			if !s.idKept(a, name) && !same(a, s.orig["ID"]) && !same(a, s.orig["Name"]) {
				return false
			}
		}
		return true
	case OpAlloc:
		return same(s.content(v, types.Typ[types.String]), name)
	}
	return same(v, name)
}

// success: a nil error is returned only after the save reported one.
func (c *Ctx) saved(rule, inst string, r *opRun, del bool) {
	for _, o := range r.outs {
		if o.panic || o.ret == nil {
			continue
		}
		err := o.res(r.fn.Signature.Results().Len() - 1)
		if o.st.eqKnown(nil, err, kNil) == 0 {
			continue
		}
		c.ob(rule, inst+" outcome")
		var last *Event
		for _, ev := range o.st.events {
			if strings.HasPrefix(ev.name, tdb+"Save") || strings.HasPrefix(ev.name, tdb+"Delete") {
				last = ev
			}
		}
		if last == nil {
			c.violate(rule, inst+" unsaved", r.fn.Pos(), trailOf(o.st), "%s reports success although nothing was saved", r.name)
			continue
		}
		if last.res != nil && !same(err, last.res) && o.st.eqKnown(nil, last.res, kNil) != 1 {
			c.violate(rule, inst+" unsaved", last.pos, pathOf(last, o.st), "%s may report success although saving failed", r.name)
		}
	}
}
