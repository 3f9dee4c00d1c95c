package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:        "C15",
		technique: "path-sensitive reconstruction of the token sequence of every loop iteration over SSA, matched against a grammar, and dependency-propagation obligations over the resolver's maps",
		rule:      "The expression of a group is exactly ( group | (included)… ) & !(excluded)…, one term for each include and each exclude rule, every sub-expression being the cached resolution of that very group, known or just resolved without error; it is published under the group's name in the token cache, the expression map and the expression set together. Changing a group replaces its rules, replaces the dependencies recorded for it by one for each included and excluded group, and re-resolves it and, transitively, every group that depends on it. Removing a group drops it everywhere. Direct memberships are recorded exactly as given. Both listings evaluate those expressions over those memberships, and the caller drops nobody from what they return.",
		run:       runC15,
	})
}

const bsPkg = "github.com/the-maldridge/bsfilter"

type resolver struct {
	c        *Ctx
	typ      types.Type
	core     map[string]bool // functions resolving one group
	cascade  map[string]bool // functions re-resolving dependents
	inc, exc string          // fields of the rules of a group
	self     string
	maps     map[string]string
}

// kind of a map of the resolver, by what it holds
func (m *resolver) kind(t *Term) string {
	if t == nil || t.typ == nil {
		return ""
	}
	mt, ok := t.typ.Underlying().(*types.Map)
	if !ok {
		return ""
	}
	el := mt.Elem()
	switch {
	case el.String() == "[]"+bsPkg+".Symbol":
		return "gt"
	case el.String() == "*"+bsPkg+".Expression":
		return "gr"
	case el.String() == bsPkg+".ValueSet":
		return "dm"
	}
	switch u := el.Underlying().(type) {
	case *types.Map:
		return "ga"
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), resolverPkg) {
			return "gc"
		}
	case *types.Struct:
		if u.NumFields() == 0 {
			return "set"
		}
		if n, ok := el.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), resolverPkg) {
			return "gc"
		}
	}
	return ""
}

// own: the map of that kind of the resolver itself
func (m *resolver) own(kind string, recv *Term) func(t *Term) bool {
	return func(t *Term) bool {
		r, _ := accessPath(t)
		return m.kind(t) == kind && r == recv
	}
}

// entry: t is what the map holds for exactly this key.
func (m *resolver) entry(t *Term, kind string, recv, key *Term) bool {
	for t.op == OpConv {
		t = t.args[0]
	}
	return t.op == OpDeref && t.args[0].op == OpMapElem && m.own(kind, recv)(t.args[0].args[0]) && t.args[0].args[1] == key
}

func (m *resolver) has(st *State, kind string, recv, key *Term, strict bool) int {
	r := -1
	st.lits(func(t, v *Term, eq bool) bool {
		if t.op != OpPure || t.s != "has" || !m.own(kind, recv)(t.args[0]) || t.args[1] != key && (strict || !same(t.args[1], key)) {
			return false
		}
		r = 0
		if eq == (v == kTrue) {
			r = 1
		}
		return true
	})
	return r
}

// exhausted: the loops over the list ended because the list did.
func exhausted(st *State, list func(t *Term) bool) bool {
	return st.lits(func(t, v *Term, eq bool) bool {
		no := eq == (v == kFalse)
		if t.op == OpBin && t.s == "<" && no && t.args[1].op == OpPure && t.args[1].s == "len" && list(t.args[1].args[0]) {
			if n, ok := t.args[0].intv(); ok {
				return n == 0
			}
			return true
		}
		if t.op == OpPure && t.s == "len" && list(t.args[0]) {
			n, ok := v.intv()
			return ok && n == 0 && eq
		}
		return false
	}) || st.lits(func(t, v *Term, eq bool) bool { return eq && v.isNil() && list(t) })
}

// rangeDone: the loop over the map ended because the map did.
func rangeDone(st *State, m func(t *Term) bool) bool {
	return st.lits(func(t, v *Term, eq bool) bool {
		if t.op != OpExt || t.n != 0 || t.args[0].op != OpNext || eq != (v == kFalse) || len(t.some) > 0 {
			return false
		}
		r := t.args[0].args[0]
		return r.op == OpPure && r.s == "range" && m(r.args[0])
	})
}

// steps: the iteration moves to the next element.
func (it *iteration) steps() bool {
	e := it.elem
	if e == nil {
		return true
	}
	if e.op == OpDeref {
		e = e.args[0]
	}
	if e.op != OpElem {
		return false
	}
	for _, v := range it.vals {
		if v == e.args[1] {
			return true
		}
		if v.op == OpBin && v.s == "+" && (v.args[0] == e.args[1] && v.args[1] == kInt(1) || v.args[1] == e.args[1] && v.args[0] == kInt(1)) {
			return true
		}
	}
	return false
}

func runC15(c *Ctx) {
	m := &resolver{c: c, core: map[string]bool{}, cascade: map[string]bool{}}
	m.typ = c.P.namedType(resolverPkg, "MResolver")
	if m.typ == nil {
		c.unresolved("anchor", resolverPkg+".MResolver")
		return
	}
	fns := map[string]*ssa.Function{}
	for _, n := range []string{"SyncDirectGroups", "RemoveEntity", "SyncGroup", "RemoveGroup", "Resolve", "MembersOfGroup", "GroupsForEntity"} {
		if fns[n] = c.P.method(resolverPkg, "MResolver", n); fns[n] == nil {
			c.unresolved("anchor", "MResolver."+n)
			return
		}
	}
	var all []*ssa.Function
	for _, f := range c.P.fns {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == fns["Resolve"].Pkg.Pkg.Path() && f.Parent() == nil {
			all = append(all, f)
		}
	}
	rec := recursive(all)
	m.core[fnName(fns["Resolve"])] = true
	var cores, cascades []*ssa.Function
	for _, f := range all {
		sig := f.Signature
		if !rec[f] || sig.Recv() == nil || sig.Params().Len() != 1 || sig.Params().At(0).Type().String() != "string" {
			continue
		}
		switch {
		case sig.Results().Len() == 0:
			m.cascade[fnName(f)] = true
			cascades = append(cascades, f)
		case sig.Results().Len() == 1 && sig.Results().At(0).Type().String() == "error":
			m.core[fnName(f)] = true
			if f != fns["Resolve"] {
				cores = append(cores, f)
			}
		}
	}
	m.sync(fns["SyncGroup"])
	if m.inc != "" {
		m.resolve(fns["Resolve"])
		for _, f := range cores {
			m.resolve(f)
		}
	}
	for _, f := range cascades {
		m.propagate(f)
	}
	c.ob("propagate", "cascade")
	m.remove(fns["RemoveGroup"])
	m.direct(fns["SyncDirectGroups"], fns["RemoveEntity"])
	m.query(fns["MembersOfGroup"], fns["GroupsForEntity"])
	m.writers(fns, all)
	m.callers()
	c.need("expression", 3)
	c.need("sync", 3)
	c.need("propagate", 2)
	c.need("query", 4)
}

func (m *resolver) run(rule string, f *ssa.Function, changes ...bool) (*svcRun, []*iteration) {
	var its []*iteration
	r := m.c.runStore(rule, f, func(e *Engine) {
		old := e.boundary
		e.boundary = func(n string) bool { return m.core[n] || m.cascade[n] || old(n) }
		e.onBack = func(it *iteration) { its = append(its, it) }
		e.seqAppend = func(t types.Type) bool { return t.String() == "[]"+bsPkg+".Symbol" }
		e.changes = func(n string, args []*Term, st *State) {
			if len(changes) > 0 && m.core[n] && len(args) > 0 {
				if a := m.mapAt(e, st, args[0], "gt"); a != nil && st.hav[a] < 3 {
					st.hav[a]++
				}
			}
		}
		nk := e.noKill
		e.noKill = func(n string) bool { return strings.HasPrefix(n, bsPkg) || strings.Contains(n, bsPkg+".") || nk(n) }
	})
	return r, its
}

// mapAt: the map of that kind of the resolver.
func (m *resolver) mapAt(e *Engine, st *State, recv *Term, kind string) *Term {
	var find func(a *Term, t types.Type) *Term
	find = func(a *Term, t types.Type) *Term {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			f := mkField(a, s.Field(i).Name(), s.Field(i).Type())
			if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
				if v := e.load(st, f, s.Field(i).Type()); m.kind(v) == kind {
					return v
				}
			}
			if v := find(f, s.Field(i).Type()); v != nil {
				return v
			}
		}
		return nil
	}
	return find(recv, m.typ)
}

// seq: a list as a base followed by the elements appended to it.
func (m *resolver) seq(e *Engine, st *State, t *Term) (base *Term, l []*Term) {
	for t.op == OpPure && t.s == "seq" {
		l = append(append([]*Term{}, t.args[1:]...), l...)
		t = t.args[0]
	}
	if x, ok := e.sliceElems(st, t); ok {
		return nil, append(append([]*Term{}, x...), l...)
	}
	if t.isNil() || t.op == OpMake {
		return nil, l
	}
	return t, l
}

// word renders tokens; sub is the resolution a spread refers to.
func (m *resolver) word(l []*Term, names map[int64]string) (string, []*Term) {
	s := ""
	var subs []*Term
	for _, t := range l {
		switch {
		case t.op == OpPure && t.s == "spread":
			s += "E"
			subs = append(subs, t.args[0])
		case t.op == OpStruct && len(t.args) == 2:
			n, ok := t.args[0].intv()
			if !ok || names[n] == "" {
				return s + "?", subs
			}
			s += names[n]
			if names[n] == "I" {
				subs = append(subs, t.args[1])
			}
		default:
			return s + "?", subs
		}
	}
	return s, subs
}

func (m *resolver) symbols() map[int64]string {
	out := map[int64]string{}
	for n, x := range map[string]string{"SymbolLParen": "(", "SymbolRParen": ")", "SymbolBinaryAnd": "&", "SymbolBinaryOr": "|", "SymbolUnaryNot": "!", "SymbolIdent": "I"} {
		if t := m.c.P.constOf(bsPkg, n); t != nil {
			if v, ok := t.intv(); ok {
				out[v] = x
			}
		}
	}
	return out
}

// resolve: the expression built for a group.
func (m *resolver) resolve(f *ssa.Function) {
	const rule = "expression"
	c := m.c
	name := fnName(f)
	c.ob(rule, name)
	r, its := m.run(rule, f, true)
	if r.e.failed != "" {
		return
	}
	recv, group := r.args[0], r.args[1]
	names := m.symbols()
	if len(names) != 6 {
		c.unresolved(rule, "the symbols of "+bsPkg)
		return
	}
	bad := func(st *State, format string, a ...any) {
		var p []string
		if st != nil {
			p = trailOf(st)
		}
		c.violate(rule, name, f.Pos(), p, format, a...)
	}
	rules := func(t *Term, field string) bool {
		b := fieldOf(t, field)
		return b != nil && (m.entry(b, "gc", recv, group) || b.op == OpMapElem && m.own("gc", recv)(b.args[0]) && same(b.args[1], group))
	}
	isSelf := func(t *Term) bool { return same(t, group) || rules(t, m.self) }
	// the loops over the rules and the lists they build
	incVar, excVar := map[string]bool{}, map[string]bool{}
	loopID := func(t *Term) string {
		if t != nil && t.op == OpLoop {
			return strip(t).String()
		}
		return ""
	}
	type step struct {
		it   *iteration
		base *Term
		w    string
		subs []*Term
		exc  bool
	}
	var steps []step
	n := [2]int{}
	for _, it := range its {
		if it.base == nil {
			continue
		}
		exc := rules(it.base, m.exc)
		if !exc && !rules(it.base, m.inc) {
			continue
		}
		which := "include"
		if exc {
			which = "exclude"
			n[1]++
		} else {
			n[0]++
		}
		c.ob(rule, fmt.Sprintf("%s %s rules", name, which))
		if !it.steps() {
			bad(it.st, "the loop over the %s rules does not visit every rule", which)
			return
		}
		found := 0
		for _, v := range it.vals {
			if v.typ == nil || v.typ.String() != "[]"+bsPkg+".Symbol" {
				continue
			}
			found++
			b, l := m.seq(r.e, it.st, v)
			w, subs := m.word(l, names)
			steps = append(steps, step{it, b, w, subs, exc})
			want := "|(E)"
			if exc {
				want = "&!(E)"
			}
			if !strings.HasSuffix(w, want) {
				bad(it.st, "a rule to %s is not added to the expression as %s but as %s", which, want, w)
				return
			}
			sub := subs[len(subs)-1]
			if !m.entry(sub, "gt", recv, it.elem) {
				bad(it.st, "the %s term is %s, not the resolution of the group named in the rule", which, sub)
				return
			}
			if m.has(it.st, "gt", recv, it.elem, true) != 1 {
				ok := false
				x := sub
				for x.op == OpConv {
					x = x.args[0]
				}
				if x.n < it.st.epoch(x.args[0]) {
					bad(it.st, "the resolution of a group to %s is that from before it was resolved", which)
					return
				}
				for _, ev := range it.st.events {
					if ev.kind == "call" && m.core[ev.name] && same(ev.args[0], recv) && ev.args[1] == it.elem && it.st.nilness(errOf(ev)) == 1 {
						ok = true
					}
				}
				if !ok {
					bad(it.st, "the resolution of a group to %s is used though it may not be known", which)
					return
				}
			}
		}
		if found == 0 {
			bad(it.st, "a rule to %s adds nothing to the expression", which)
			return
		}
	}
	if n[0] == 0 {
		bad(nil, "no loop over the groups to include")
	}
	if n[1] == 0 {
		bad(nil, "no loop over the groups to exclude")
	}
	if n[0] == 0 || n[1] == 0 {
		return
	}
	// what the terms are put behind; a list variable belongs to the loop
	// that extends it by whole terms only
	cut := func(s step) (string, []*Term) {
		k := len("|(E)")
		if s.exc {
			k = len("&!(E)")
		}
		return s.w[:len(s.w)-k], s.subs[:len(s.subs)-1]
	}
	for _, s := range steps {
		if p, _ := cut(s); p == "" && s.base != nil && s.base.op == OpLoop && hasNest(s.base.vol, s.it.key) {
			if s.exc {
				excVar[loopID(s.base)] = true
			} else {
				incVar[loopID(s.base)] = true
			}
		}
	}
	phase := func(base *Term, w string, subs []*Term) string {
		switch {
		case base == nil && w == "(I" && isSelf(subs[0]):
			return "open"
		case base == nil && w == "(I)" && isSelf(subs[0]):
			return "closed"
		case base == nil:
			return ""
		case incVar[loopID(base)] && w == "":
			return "open"
		case incVar[loopID(base)] && w == ")":
			return "closed"
		case excVar[loopID(base)] && w == "":
			return "closed"
		}
		return ""
	}
	for _, s := range steps {
		p, subs := cut(s)
		ph := phase(s.base, p, subs)
		if s.exc && ph != "closed" {
			bad(s.it.st, "groups are excluded from %s rather than from ( group | included … )", p)
			return
		}
		if !s.exc && ph != "open" {
			bad(s.it.st, "groups are included behind %q rather than within ( group …", p)
			return
		}
	}
	// publication
	fin := 0
	for _, o := range r.outs {
		if o.panic {
			bad(o.st, "resolving may panic")
			continue
		}
		st := o.st
		if st.nilness(o.res(0)) == 0 {
			continue
		}
		for _, ev := range st.events {
			if ev.kind == "call" && m.core[ev.name] && len(ev.res.some) == 0 && st.nilness(errOf(ev)) != 1 && !same(errOf(ev), o.res(0)) {
				bad(st, "a failure to resolve %s is not reported", ev.args[1])
				return
			}
		}
		if st.nilness(o.res(0)) != 1 {
			if l := st.lastCore(m); l != nil && same(o.res(0), errOf(l)) && same(l.args[1], group) && same(l.args[0], recv) && f.Name() == "Resolve" {
				continue // hands on
			}
			bad(st, "it is not known whether resolving failed")
			return
		}
		if l := st.lastCore(m); l != nil && f.Name() == "Resolve" && same(l.args[1], group) && !m.self0(st, recv) {
			continue
		}
		fin++
		if m.has(st, "gc", recv, group, false) != 1 {
			bad(st, "a group that is not known is resolved")
			return
		}
		var toks, ex, add *Term
		for _, ev := range st.events {
			switch {
			case ev.kind == "mapset" && m.own("gt", recv)(ev.args[0]):
				if !same(ev.args[1], group) || toks != nil {
					bad(st, "the resolution is kept under %s", ev.args[1])
					return
				}
				toks = ev.args[2]
			case ev.kind == "mapset" && m.own("gr", recv)(ev.args[0]):
				if !same(ev.args[1], group) || ex != nil {
					bad(st, "the expression is kept under %s", ev.args[1])
					return
				}
				ex = ev.args[2]
			case ev.kind == "call" && ev.name == "(*"+bsPkg+".ExpressionSet).Add":
				if x, _ := accessPath(ev.args[0]); x != recv || !same(ev.args[1], group) || add != nil {
					bad(st, "the expression is added to the set under %s", ev.args[1])
					return
				}
				add = ev.args[2]
			}
		}
		switch {
		case toks == nil:
			bad(st, "the resolution is not kept for the groups that include this one")
			return
		case ex == nil || add == nil:
			bad(st, "the expression is not published to both listings")
			return
		case !same(ex, add):
			bad(st, "the two listings use different expressions")
			return
		}
		k := callOf(ex, -1, bsPkg+".NewFromTokens")
		if k == nil || !same(k.args[0], toks) {
			bad(st, "the expression %s is not that of the tokens kept", ex)
			return
		}
		b, l := m.seq(r.e, st, toks)
		w, subs := m.word(l, names)
		if phase(b, w, subs) != "closed" {
			bad(st, "the expression is %s rather than ( group | included … ) & ! excluded …", w)
			return
		}
		for _, fld := range []string{m.inc, m.exc} {
			if !exhausted(st, func(t *Term) bool { return rules(t, fld) }) {
				bad(st, "the rules to %s may not all be part of the expression", fld)
				return
			}
		}
	}
	if fin == 0 && f.Name() != "Resolve" {
		bad(nil, "no path resolves a group")
	}
}

// self0: the rules of a group were looked at on this path.
func (m *resolver) self0(st *State, recv *Term) bool {
	return st.lits(func(t, v *Term, eq bool) bool {
		return t.op == OpPure && t.s == "has" && m.own("gc", recv)(t.args[0])
	})
}

func (s *State) lastCore(m *resolver) *Event {
	var r *Event
	for _, ev := range s.events {
		if ev.kind == "call" && m.core[ev.name] {
			r = ev
		}
	}
	return r
}

// sync: a change of the rules of a group.
func (m *resolver) sync(f *ssa.Function) {
	const rule = "sync"
	c := m.c
	name := fnName(f)
	r, its := m.run(rule, f)
	if r.e.failed != "" {
		return
	}
	recv, group, inc, exc := r.args[0], r.args[1], r.args[2], r.args[3]
	bad := func(what string, st *State, format string, a ...any) {
		c.violate(rule, name+" "+what, f.Pos(), trailOf(st), format, a...)
	}
	c.ob(rule, name+" rules")
	c.ob(rule, name+" dependencies")
	c.ob(rule, name+" propagation")
	lists := func(t *Term) int {
		t = strip(t)
		for t.op == OpSlice || t.op == OpConv {
			t = t.args[0]
		}
		switch t {
		case inc:
			return 1
		case exc:
			return 2
		}
		return 0
	}
	// dependencies
	seen := map[int]bool{}
	for _, it := range its {
		if it.rng != nil && m.own("ga", recv)(it.rng) {
			ok := false
			for _, ev := range it.st.events {
				if ev.kind == "mapdel" && same(ev.args[1], group) && (ev.args[0] == it.rval || m.entry(ev.args[0], "ga", recv, it.rkey)) {
					ok = true
				}
			}
			if !ok {
				bad("dependencies", it.st, "a dependency of a prior version of the group may stay")
				return
			}
			continue
		}
		if it.base == nil {
			continue
		}
		l := lists(it.base)
		both := it.base.op == OpAppend
		if both {
			// one loop over both lists
			for _, x := range it.base.args {
				if x.op == OpPure && x.s == "spread" && lists(x.args[0]) > 0 || lists(x) > 0 {
					seen[lists(x)] = true
					if x.op == OpPure {
						seen[lists(x.args[0])] = true
					}
				}
			}
		} else if l == 0 {
			continue
		}
		sets := false
		made := map[*Term]bool{}
		for _, ev := range it.st.events {
			if ev.kind != "mapset" {
				continue
			}
			if m.own("ga", recv)(ev.args[0]) && ev.args[1] == it.elem {
				made[ev.args[2]] = true
			}
			if same(ev.args[1], group) && (made[ev.args[0]] || m.entry(ev.args[0], "ga", recv, it.elem)) {
				sets = true
			}
		}
		if !sets || !it.steps() {
			bad("dependencies", it.st, "a group named in a rule may not be recorded as one the group depends on")
			return
		}
		seen[l] = true
	}
	for _, o := range r.outs {
		st := o.st
		if o.panic {
			bad("rules", st, "it may panic")
			return
		}
		var set, prop *Event
		var si, pi, first, last int
		first = -1
		for i, ev := range st.events {
			switch {
			case ev.kind == "mapset" && m.own("gc", recv)(ev.args[0]):
				if set != nil || !same(ev.args[1], group) {
					bad("rules", st, "the rules are recorded for %s", ev.args[1])
					return
				}
				set, si = ev, i
			case ev.kind == "call" && m.cascade[ev.name]:
				prop, pi = ev, i
			case (ev.kind == "mapset" || ev.kind == "mapdel") && (m.kind(ev.args[0]) == "ga" || m.kind(ev.args[0]) == "set"):
				last = i
				if first < 0 {
					first = i
				}
				if ev.kind == "mapset" && m.kind(ev.args[0]) == "set" && !same(ev.args[1], group) {
					bad("dependencies", st, "%s is recorded as depending on the group", ev.args[1])
					return
				}
			}
			if ev.kind == "call" && m.core[ev.name] && set == nil {
				bad("rules", st, "the group is resolved before its rules are recorded")
				return
			}
		}
		if set == nil {
			bad("rules", st, "the rules of the group are not recorded on every path")
			return
		}
		v := unwrap(set.args[2])
		fields := map[string]*Term{}
		T := v.typ
		if p, ok := T.Underlying().(*types.Pointer); ok {
			T = p.Elem()
		}
		s, ok := T.Underlying().(*types.Struct)
		if !ok {
			c.unresolved(rule, "the rules of a group")
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			if v.op == OpStruct {
				fields[n] = v.args[i]
			} else {
				fields[n] = r.e.load(st, mkField(v, n, s.Field(i).Type()), s.Field(i).Type())
			}
		}
		var a, b, self string
		for n, x := range fields {
			switch {
			case lists(x) == 1:
				a = n
			case lists(x) == 2:
				b = n
			case same(x, group):
				self = n
			}
		}
		if a == "" || b == "" || m.inc != "" && (a != m.inc || b != m.exc) {
			bad("rules", st, "the rules recorded are not those given")
			return
		}
		m.inc, m.exc, m.self = a, b, self
		// propagation
		if prop == nil || !same(prop.args[0], recv) || !same(prop.args[1], group) {
			bad("propagation", st, "the groups that depend on the group are not resolved again")
			return
		}
		if pi < si || pi < last {
			bad("propagation", st, "the groups that depend on the group are resolved before its change is recorded")
			return
		}
		if !rangeDone(st, m.own("ga", recv)) {
			bad("dependencies", st, "the dependencies of a prior version of the group are not dropped")
			return
		}
		for i, l := range []*Term{inc, exc} {
			if !exhausted(st, func(t *Term) bool {
				if lists(t) == i+1 {
					return true
				}
				if t.op == OpAppend {
					for _, x := range t.args {
						if lists(x) == i+1 || x.op == OpPure && x.s == "spread" && lists(x.args[0]) == i+1 {
							return true
						}
					}
				}
				return false
			}) {
				bad("dependencies", st, "the groups of %s are not all recorded as ones the group depends on", l)
				return
			}
		}
		// nothing is dropped after something was added
		added := false
		for _, ev := range st.events {
			if ev.kind == "mapset" && m.kind(ev.args[0]) == "set" {
				added = true
			}
			if ev.kind == "mapdel" && added {
				bad("dependencies", st, "a dependency just recorded may be dropped")
				return
			}
		}
	}
	if !seen[1] || !seen[2] {
		c.violate(rule, name+" dependencies", f.Pos(), nil, "the groups named in the rules are not recorded as ones the group depends on")
	}
}

// propagate: re-resolution reaches all dependents.
func (m *resolver) propagate(f *ssa.Function) {
	const rule = "propagate"
	c := m.c
	name := fnName(f)
	c.ob(rule, name)
	r, its := m.run(rule, f)
	if r.e.failed != "" {
		return
	}
	recv, group := r.args[0], r.args[1]
	bad := func(st *State, format string, a ...any) {
		c.violate(rule, name, f.Pos(), trailOf(st), format, a...)
	}
	deps := func(t *Term) bool { return isEntry(t, m.own("ga", recv), group) }
	direct, collects := false, false
	again := func(st *State, x *Term) bool {
		for _, ev := range st.events {
			if ev.kind == "call" && m.cascade[ev.name] && same(ev.args[0], recv) && ev.args[1] == x {
				return true
			}
		}
		return false
	}
	for _, it := range its {
		if it.rng == nil || !deps(it.rng) {
			continue
		}
		switch {
		case again(it.st, it.rkey):
			direct = true
		case it.keeps(it.rkey):
			collects = true
		default:
			bad(it.st, "a group that depends on the group may not be resolved again")
			return
		}
	}
	if collects {
		n := 0
		for _, it := range its {
			if it.base == nil || it.base.op != OpAppend {
				continue
			}
			n++
			if !it.steps() || !again(it.st, it.elem) {
				bad(it.st, "a group that depends on the group may not be resolved again")
				return
			}
		}
		if n == 0 {
			bad(r.outs[0].st, "the groups that depend on the group are not resolved again")
			return
		}
	}
	if !direct && !collects {
		c.violate(rule, name, f.Pos(), nil, "the groups that depend on the group are not looked at")
		return
	}
	for _, o := range r.outs {
		if o.panic {
			bad(o.st, "it may panic")
			return
		}
		var res *Event
		for _, ev := range o.st.events {
			if ev.kind != "call" {
				continue
			}
			if m.core[ev.name] && same(ev.args[0], recv) && same(ev.args[1], group) && res == nil {
				res = ev
			}
			if m.cascade[ev.name] && res == nil {
				bad(o.st, "dependents are resolved before the group they depend on")
				return
			}
		}
		if res == nil {
			bad(o.st, "the group itself is not resolved again")
			return
		}
		if o.st.nilness(errOf(res)) == 0 {
			continue
		}
		if !rangeDone(o.st, deps) {
			bad(o.st, "not all groups that depend on the group are looked at")
			return
		}
		if collects {
			for _, it := range its {
				if it.base != nil && it.base.op == OpAppend && o.st.lits(func(t, v *Term, eq bool) bool {
					return t.op == OpExt && t.n == 0 && len(t.some) > 0 && eq == (v == kTrue)
				}) && !exhausted(o.st, func(t *Term) bool { return t.op == OpAppend }) {
					bad(o.st, "not all groups that depend on the group are resolved again")
					return
				}
			}
		}
	}
}

func (m *resolver) remove(f *ssa.Function) {
	const rule = "remove"
	c := m.c
	name := fnName(f)
	r, _ := m.run(rule, f)
	recv, group := r.args[0], r.args[1]
	for _, k := range []string{"gc", "gr", "gt", "ga", "gs"} {
		c.ob(rule, name+" "+k)
		for _, o := range r.outs {
			ok := false
			for _, ev := range o.st.events {
				if ev.kind == "mapdel" && m.own(k, recv)(ev.args[0]) && same(ev.args[1], group) {
					ok = true
				}
				if k == "gs" && ev.name == "(*"+bsPkg+".ExpressionSet).Del" && same(ev.args[1], group) {
					x, _ := accessPath(ev.args[0])
					ok = ok || x == recv
				}
			}
			// a group that is not known has nothing to drop
			if !ok && !o.panic && m.has(o.st, "gc", recv, group, false) == 0 {
				ok = true
			}
			if !ok {
				c.violate(rule, name+" "+k, f.Pos(), trailOf(o.st), "a removed group stays in %s", map[string]string{"gc": "the rules", "gr": "the expressions its members are listed by", "gt": "the resolutions other groups use", "ga": "the dependencies", "gs": "the expressions an entity's groups are listed by"}[k])
				break
			}
		}
	}
	c.need(rule, 5)
}

func (m *resolver) direct(f, del *ssa.Function) {
	const rule = "direct"
	c := m.c
	name := fnName(f)
	c.ob(rule, name)
	r, its := m.run(rule, f)
	recv, ent, groups := r.args[0], r.args[1], r.args[2]
	for _, o := range r.outs {
		var set *Term
		for _, ev := range o.st.events {
			if ev.kind == "mapset" && m.own("dm", recv)(ev.args[0]) {
				if !same(ev.args[1], ent) || set != nil {
					c.violate(rule, name, ev.pos, pathOf(ev, o.st), "the memberships are recorded for %s", ev.args[1])
					return
				}
				set = unwrap(ev.args[2])
			}
		}
		if set == nil || set.op != OpMake {
			c.violate(rule, name, f.Pos(), trailOf(o.st), "the memberships of the entity are not replaced on every path")
			return
		}
		for _, ev := range o.st.events {
			if (ev.kind == "mapset" || ev.kind == "mapdel") && unwrap(ev.args[0]) == set && (ev.kind == "mapdel" || elemBase(ev.args[1]) != groups) {
				c.violate(rule, name, ev.pos, pathOf(ev, o.st), "the memberships recorded are not the groups given: %s", ev.args[1])
				return
			}
		}
		if !exhausted(o.st, func(t *Term) bool { return same(t, groups) }) {
			c.violate(rule, name, f.Pos(), trailOf(o.st), "not all groups given are recorded")
			return
		}
		for _, it := range its {
			if it.base == nil || !same(it.base, groups) {
				continue
			}
			if k := it.mapKey(it.elem); k == nil || unwrap(k) != set || !it.steps() {
				c.violate(rule, name, f.Pos(), trailOf(it.st), "a group given may not be recorded")
				return
			}
		}
	}
	name = fnName(del)
	c.ob(rule, name)
	r, _ = m.run(rule, del)
	for _, o := range r.outs {
		ok := m.has(o.st, "dm", r.args[0], r.args[1], false) == 0
		for _, ev := range o.st.events {
			if ev.kind == "mapdel" && m.own("dm", r.args[0])(ev.args[0]) && same(ev.args[1], r.args[1]) {
				ok = true
			}
		}
		if !ok || o.panic {
			c.violate(rule, name, del.Pos(), trailOf(o.st), "a removed entity keeps its memberships")
			break
		}
	}
	c.need(rule, 2)
}

func (m *resolver) query(members, groups *ssa.Function) {
	const rule = "query"
	c := m.c
	empty := func(r *svcRun, st *State, t *Term) bool {
		if t.isNil() {
			return true
		}
		l, ok := r.e.sliceElems(st, t)
		return ok && len(l) == 0 || t.op == OpMake && len(t.args) == 0
	}
	c.ob(rule, fnName(members))
	r, _ := m.run(rule, members)
	for _, o := range r.outs {
		if k := callOf(o.res(0), -1, "("+bsPkg+".Expression).FilterValues", "(*"+bsPkg+".Expression).FilterValues"); k != nil {
			x := strip(k.args[0])
			for x.op == OpDeref && !isEntry(x, m.own("gr", r.args[0]), r.args[1]) {
				x = x.args[0]
			}
			if !isEntry(x, m.own("gr", r.args[0]), r.args[1]) {
				c.violate(rule, fnName(members), members.Pos(), trailOf(o.st), "the members are those of %s", k.args[0])
			} else if !m.own("dm", r.args[0])(unwrap(k.args[1])) {
				c.violate(rule, fnName(members), members.Pos(), trailOf(o.st), "the members are chosen among %s", k.args[1])
			}
			continue
		}
		if o.panic || !empty(r, o.st, o.res(0)) {
			c.violate(rule, fnName(members), members.Pos(), trailOf(o.st), "the members are not those the group's expression holds for: %s", o.res(0))
		} else if m.has(o.st, "gr", r.args[0], r.args[1], false) != 0 {
			c.violate(rule, fnName(members), members.Pos(), trailOf(o.st), "a group that was resolved is listed as empty")
		}
	}
	c.ob(rule, fnName(groups))
	r, _ = m.run(rule, groups)
	for _, o := range r.outs {
		if k := callOf(o.res(0), -1, "(*"+bsPkg+".ExpressionSet).Filter"); k != nil {
			if x, _ := accessPath(k.args[0]); x != r.args[0] {
				c.violate(rule, fnName(groups), groups.Pos(), trailOf(o.st), "the groups are chosen among %s", k.args[0])
			} else if !isEntry(unwrap(k.args[1]), m.own("dm", r.args[0]), r.args[1]) {
				c.violate(rule, fnName(groups), groups.Pos(), trailOf(o.st), "the groups are chosen by the memberships %s", k.args[1])
			}
			continue
		}
		if o.panic || !empty(r, o.st, o.res(0)) {
			c.violate(rule, fnName(groups), groups.Pos(), trailOf(o.st), "the groups are not those whose expression holds for the entity: %s", o.res(0))
		} else if m.has(o.st, "dm", r.args[0], r.args[1], false) != 0 {
			c.violate(rule, fnName(groups), groups.Pos(), trailOf(o.st), "an entity that is known is listed without groups")
		}
	}
}

// writers: nothing else changes the state of the resolver.
func (m *resolver) writers(fns map[string]*ssa.Function, all []*ssa.Function) {
	const rule = "writers"
	c := m.c
	for _, f := range all {
		if fns[f.Name()] == f || f.Signature.Recv() == nil || m.core[fnName(f)] || m.cascade[fnName(f)] || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if !types.Identical(f.Signature.Recv().Type(), types.NewPointer(m.typ)) {
			continue
		}
		c.ob(rule, fnName(f))
		r, _ := m.run(rule, f)
		for _, o := range r.outs {
			for _, ev := range o.st.events {
				k := ""
				if ev.kind == "mapset" || ev.kind == "mapdel" {
					k = m.kind(ev.args[0])
				}
				if k != "" && k != "set" || strings.HasPrefix(ev.name, "(*"+bsPkg+".ExpressionSet).Add") || strings.HasPrefix(ev.name, "(*"+bsPkg+".ExpressionSet).Del") {
					c.violate(rule, fnName(f), ev.pos, pathOf(ev, o.st), "the state of the resolver is changed in a way that is not understood")
				}
			}
		}
	}
}

// callers: the listings of the tree are those of the resolver.
func (m *resolver) callers() {
	const rule = "query"
	c := m.c
	const mr = "(*" + resolverPkg + ".MResolver)."
	gm, lm := c.P.method(treePkg, "Manager", "GetMemberships"), c.P.method(treePkg, "Manager", "ListMembers")
	if gm == nil || lm == nil {
		c.unresolved(rule, "GetMemberships and ListMembers")
		return
	}
	run := func(f *ssa.Function) (*svcRun, []*iteration) {
		var its []*iteration
		r := c.runStore(rule, f, func(e *Engine) {
			e.boundary = func(n string) bool { return strings.HasPrefix(n, mr) }
			e.onBack = func(it *iteration) { its = append(its, it) }
		})
		return r, its
	}
	c.ob(rule, fnName(gm))
	r, _ := run(gm)
	for _, o := range r.outs {
		k := callOf(o.res(0), -1, mr+"GroupsForEntity")
		if k == nil || !(protoField(k.args[1], "ID") != nil && same(protoField(k.args[1], "ID"), r.args[1]) || k.args[1] == kString("")) {
			c.violate(rule, fnName(gm), gm.Pos(), trailOf(o.st), "the groups of an entity are %s", o.res(0))
		}
	}
	c.ob(rule, fnName(lm))
	r, its := run(lm)
	for _, it := range its {
		if it.base == nil {
			continue
		}
		n := 0
		for _, v := range append(append([]*Term{}, it.vals...), it.memVals()...) {
			if v.op == OpAppend && len(v.args) > 1 && len(v.args[len(v.args)-1].some) == 0 {
				n++
			}
		}
		if n == 0 || !it.steps() {
			c.violate(rule, fnName(lm), lm.Pos(), trailOf(it.st), "a member may be left out of the listing")
			return
		}
	}
	for _, o := range r.outs {
		st := o.st
		if st.nilness(o.res(1)) == 0 {
			continue
		}
		ev := st.lastEvent(mr + "MembersOfGroup")
		if ev == nil || !same(ev.args[1], r.args[1]) {
			c.violate(rule, fnName(lm), lm.Pos(), trailOf(st), "the listing is not that of the members of the group")
			return
		}
		if !exhausted(st, func(t *Term) bool { return same(t, ev.res) }) {
			c.violate(rule, fnName(lm), lm.Pos(), trailOf(st), "not all members are listed")
			return
		}
		for _, ld := range st.eventsNamed(dbIface + "LoadEntity") {
			if elemBase(ld.args[1]) == nil || !same(elemBase(ld.args[1]), ev.res) {
				c.violate(rule, fnName(lm), ld.pos, pathOf(ld, st), "the entity listed is %s", ld.args[1])
				return
			}
		}
	}
}

func (it *iteration) memVals() []*Term {
	var out []*Term
	for a, v := range it.st.mem {
		if a.op == OpElem && it.elem != nil {
			out = append(out, mk(Term{op: OpAppend, args: []*Term{kNil, v}}))
			continue
		}
		out = append(out, v)
	}
	return out
}
