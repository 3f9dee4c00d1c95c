package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// managerOps lists the operations of the tree manager that requests can
// reach.
func (c *Ctx) managerOps(rule string) []string {
	it := c.P.namedType(rpcPkg, "Manager")
	if it == nil {
		c.unresolved(rule, "the manager interface of the request server")
		return nil
	}
	m, ok := it.Underlying().(*types.Interface)
	if !ok {
		c.unresolved(rule, "the manager interface of the request server")
		return nil
	}
	var l []string
	for i := 0; i < m.NumMethods(); i++ {
		if n := m.Method(i).Name(); !mgrSetup[n] {
			l = append(l, n)
		}
	}
	return l
}

// reach collects the values reachable from t in the memory of st.
func (e *Engine) reach(st *State, t *Term) []*Term {
	seen := map[*Term]bool{}
	roots := map[*Term]bool{}
	var out []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
		if t.op == OpAlloc || t.op == OpMake || t.op == OpSome && (t.args[0].op == OpAlloc || t.args[0].op == OpMake) {
			if !roots[t] {
				roots[t] = true
				for k, v := range st.mem {
					if rootOf(k) == t || allocBase(k) == t {
						visit(v)
					}
				}
			}
		}
		// the arguments of a call are not part of its result
		if t.op == OpCall || t.op == OpPure && len(t.args) > 0 && t.s != "spread" && t.s != "dedup" {
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(t)
	return out
}

func entityType(t types.Type) (ptr, list bool) {
	isE := func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		return ok && n.Obj().Name() == "Entity" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == protoPath
	}
	if t == nil {
		return
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return false, isE(s.Elem())
	}
	return isE(t), false
}

// listItems flattens a list to its elements; lists that are included as
// a whole are returned as they are.
func (e *Engine) listItems(st *State, l *Term) (elems, whole []*Term) {
	seen := map[*Term]bool{}
	var visit func(l *Term)
	visit = func(l *Term) {
		if l == nil || seen[l] || l.isNil() {
			return
		}
		seen[l] = true
		switch {
		case l.op == OpOpaque && l.s == "join":
			for _, a := range l.args {
				visit(a)
			}
		case l.op == OpAppend:
			visit(l.args[0])
			for _, a := range l.args[1:] {
				if a.op == OpPure && a.s == "spread" {
					visit(a.args[0])
				} else {
					elems = append(elems, alts(a)...)
				}
			}
		case l.op == OpTuple:
			for _, a := range l.args {
				elems = append(elems, alts(a)...)
			}
		case l.op == OpSlice:
			visit(l.args[0])
		case l.op == OpPure && (l.s == "dedup" || l.s == "spread"):
			visit(l.args[0])
		case l.op == OpMake || l.op == OpAlloc || l.op == OpSome && (l.args[0].op == OpMake || l.args[0].op == OpAlloc):
			if st.epoch(l) != 0 {
				whole = append(whole, l)
			}
			for k, v := range st.mem {
				if k.op == OpElem && k.args[0] == l {
					elems = append(elems, alts(v)...)
				}
			}
		default:
			whole = append(whole, l)
		}
	}
	visit(l)
	return
}

// redacted: the secret of the entity at p is a constant.
func (e *Engine) redacted(st *State, p *Term) (string, bool) {
	if p.isNil() || st.nilness(p) == 1 {
		return "", true
	}
	v := e.load(st, mkField(p, "Secret", types.NewPointer(types.Typ[types.String])), types.NewPointer(types.Typ[types.String]))
	if v.isNil() || st.nilness(v) == 1 {
		return "it has no secret instead of the redaction marker", false
	}
	x := e.load(st, v, types.Typ[types.String])
	if _, ok := x.str(); !ok {
		return "its secret is " + x.String(), false
	}
	return "", true
}

func isSecretField(t *Term) bool {
	return (t.op == OpField || t.op == OpFVal) && t.s == "Secret"
}

func init() {
	register(&Check{
		id:        "C05",
		technique: "interprocedural dataflow over SSA: redaction state of every entity returned, and taint of results by secret fields",
		rule:      "At every return of every operation of the tree manager that requests can reach: each entity returned, alone or in a list, has a secret that was overwritten with a constant; lists as obtained from storage are not returned; no other result contains the secret of a record or of the request. In every response of a request handler: entities are results of such an operation, and no part is the secret of anything.",
		run:       runC05,
	})
	register(&Check{
		id:        "C07",
		technique: "path-sensitive interprocedural dataflow over SSA (must-precede analysis)",
		rule:      "At every return of the secret validation of the tree manager (chain expanded) that can be a success: the entity of the requested name was loaded without error, its lock state was found not to be set, and the crypto engine verified the secret given against the secret of that entity without error. In every request handler: an accepting result of an authentication, and every generation of a token, happen only where that validation of the requested entity and secret succeeded.",
		run:       runC07,
	})
	register(&Check{
		id:        "C08",
		technique: "path-sensitive interprocedural dataflow over SSA: provenance and completeness of the claims",
		rule:      "At every generation of a token: the identity in the claims is the one whose secret was validated in this request; every capability in the claims is an element of the capabilities of the entity fetched under that identity, or of a group fetched under a name in its effective memberships; and the loops over these capabilities, over the memberships and over the capabilities of each of these groups were completed with every element put in the claims. The token in a response is the one generated, whose error was found nil.",
		run:       runC08,
	})
}

func runC05(c *Ctx) {
	const rule = "redaction"
	t := c.chainsOf()
	plain := map[string]int{"CreateEntity": 3, "SetSecret": 2, "ValidateSecret": 2}
	ops := c.managerOps(rule)
	for n, r := range c.runOps(t, rule, ops, nil) {
		sig := r.fn.Signature.Results()
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			for i := 0; i < sig.Len(); i++ {
				v := o.res(i)
				if sig.Len() == 1 {
					v = o.ret
				}
				if v == nil {
					continue
				}
				ptr, list := entityType(sig.At(i).Type())
				bad := func(what string) {
					c.violate(rule, n, r.fn.Pos(), trailOf(o.st), "%s can return an entity that is not redacted: %s", n, what)
				}
				switch {
				case ptr:
					c.ob(rule, n)
					for _, p := range alts(v) {
						if why, ok := r.e.redacted(o.st, p); !ok {
							bad(why)
						}
					}
				case list:
					c.ob(rule, n)
					el, whole := r.e.listItems(o.st, v)
					for _, w := range whole {
						bad("it returns the list " + w.String())
					}
					for _, p := range el {
						if why, ok := r.e.redacted(o.st, p); !ok {
							bad(why)
						}
					}
				}
				if ptr || list {
					continue
				}
				c.ob("results", n)
				for _, x := range r.e.reach(o.st, v) {
					if isSecretField(x) || plain[n] > 0 && x == r.p(plain[n]) {
						c.violate("results", n, r.fn.Pos(), trailOf(o.st), "a result of %s contains a secret: %v", n, v)
					}
				}
			}
		}
	}
	c.need(rule, 3)
	var e *Engine
	for n, r := range c.runHandlers("responses", func(x *Engine) { e = x }) {
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			c.ob("responses", n)
			for i := 0; i < r.fn.Signature.Results().Len(); i++ {
				for _, x := range e.reach(o.st, o.res(i)) {
					if isSecretField(x) {
						c.violate("responses", n, r.fn.Pos(), trailOf(o.st), "the response contains a secret: %v", x)
					}
					ptr, list := entityType(x.typ)
					if !ptr && !list || x.isNil() {
						continue
					}
					if y := strip(x); y.op == OpExt && y.args[0].op == OpCall && strings.HasPrefix(y.args[0].s, mgr) {
						continue
					}
					if list {
						continue // its elements are visited
					}
					if x.op == OpExt && x.args[0].op == OpNext {
						continue
					}
					if y := strip(x); y.op == OpDeref && y.args[0].op == OpElem {
						continue
					}
					if why, ok := e.redacted(o.st, x); !ok && !strings.HasPrefix(why, "it has no secret") {
						c.violate("responses", n, r.fn.Pos(), trailOf(o.st), "the response contains an entity that does not come from an operation of the tree manager: %s", why)
					}
				}
			}
		}
	}
	c.need("responses", 30)
}

// unlocked: the record at src was found not to be locked.
func unlocked(st *State, src *Term) bool {
	return st.lits(func(t, v *Term, eq bool) bool {
		r, p := accessPath(t)
		if r == nil || !same(r, src) {
			return false
		}
		switch p {
		case "Meta":
			return eq && v == kNil
		case "Meta.Locked":
			return eq && (v == kFalse || v == kNil) || !eq && v == kTrue
		}
		return false
	})
}

// validated finds the successful secret validation of the entity and
// secret of the request.
func validated(r *rpcRes, st *State, e *Engine) (*Event, string) {
	why := "no secret was validated"
	own := func(t *Term, path string) bool {
		for _, x := range alts(t) {
			if s, ok := x.str(); ok && s == "" {
				continue // part of the request is absent
			}
			if !isPath(x, r.r, path) {
				return false
			}
		}
		return true
	}
	for _, ev := range st.eventsNamed(mgr + "ValidateSecret") {
		switch {
		case !own(ev.args[1], "Entity.ID"):
			why = "the secret validated is not that of the requested entity"
		case !own(ev.args[2], "Secret"):
			why = "the secret validated is not the one in the request"
		case !st.holds(ev.res, kNil):
			why = "the validation of the secret is not known to have succeeded"
		default:
			return ev, ""
		}
	}
	return nil, why
}

func runC07(c *Ctx) {
	const rule = "validation"
	t := c.chainsOf()
	for n, r := range c.runOps(t, rule, []string{"ValidateSecret"}, nil) {
		ok := 0
		for _, o := range r.outs {
			if o.panic || o.st.eqKnown(nil, o.ret, kNil) == 0 {
				continue
			}
			ok++
			c.ob(rule, n)
			why := "the requested entity is not known to have been loaded"
			for _, l := range o.st.eventsNamed(tdb + "LoadEntity") {
				if !same(l.args[1], r.p(1)) || !o.st.holds(ext(l.res, 1), kNil) {
					continue
				}
				src := ext(l.res, 0)
				if !unlocked(o.st, src) {
					why = "the entity is not known to be unlocked"
					continue
				}
				why = "the secret was not verified"
				for _, ev := range o.st.eventsNamed(emc + "VerifySecret") {
					rt, p := accessPath(ev.args[2])
					switch {
					case !same(ev.args[1], r.p(2)):
						why = "the secret verified is not the one given"
					case ev.args[2].isConst():
						// an entity without secret: nothing to verify against
						if s, k := ev.args[2].str(); k && s == "" && o.st.holds(ev.res, kNil) {
							why = ""
						}
					case p != "Secret" || !same(rt, src):
						why = "the secret is verified against something else than the stored secret of the entity"
					case !o.st.holds(ev.res, kNil):
						why = "the verification of the secret is not known to have succeeded"
					default:
						why = ""
					}
					if why == "" {
						break
					}
				}
				if why == "" {
					break
				}
			}
			if why != "" {
				c.violate(rule, n, r.fn.Pos(), trailOf(o.st), "%s can accept a secret although %s", n, why)
			}
		}
		if ok == 0 {
			c.violate(rule, n+" unreachable", r.fn.Pos(), nil, "no secret is ever accepted")
		}
	}
	c.need(rule, 1)
	var e *Engine
	accept := map[string]int{}
	for n, r := range c.runHandlers("acceptance", func(x *Engine) { e = x }) {
		for _, cl := range r.calls {
			if cl.ev.name != tsv+"Generate" {
				continue
			}
			c.ob("generation", n)
			if _, why := validated(r, cl.st, e); why != "" {
				c.violate("generation", n, cl.ev.pos, pathOf(cl.ev, cl.st), "a token is generated although %s", why)
			}
		}
		if n != "AuthEntity" && n != "AuthGetToken" {
			continue
		}
		for _, o := range r.outs {
			if o.panic || o.st.eqKnown(nil, o.res(1), kNil) == 0 {
				continue
			}
			accept[n]++
			c.ob("acceptance", n)
			if _, why := validated(r, o.st, e); why != "" {
				c.violate("acceptance", n, r.fn.Pos(), trailOf(o.st), "the authentication is accepted although %s", why)
			}
		}
	}
	for _, n := range []string{"AuthEntity", "AuthGetToken"} {
		if accept[n] == 0 {
			c.violate("acceptance", n+" unreachable", token.NoPos, nil, "%s never accepts", n)
		}
	}
	c.need("generation", 1)
	c.need("acceptance", 2)
}

type loopID struct {
	fn  *ssa.Function
	key nestKey
}

func runC08(c *Ctx) {
	const rule = "claims"
	var e *Engine
	var its []*iteration
	dd := c.dedupFns("dedup")
	perH := map[*ssa.Function][]*iteration{}
	rs := c.runHandlers(rule, func(x *Engine) {
		e = x
		its = nil
		cur := &its
		x.onBack = func(it *iteration) { *cur = append(*cur, it); perH[nil] = append(perH[nil], it) }
		for n := range dd {
			x.models[n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
				return one(st, mkDedup(args[0]))
			}
		}
	}, "AuthGetToken")
	r := rs["AuthGetToken"]
	if r == nil {
		c.unresolved(rule, "handler AuthGetToken")
		return
	}
	its = perH[nil]
	gens := 0
	maps := map[*Term]bool{}
	for pass := 0; pass < 2; pass++ {
		for _, cl := range r.calls {
			if cl.ev.name != tsv+"Generate" {
				continue
			}
			gens++
			c.ob(rule, "identity")
			c.ob(rule, "capabilities")
			q := &claimsQ{c: c, e: e, its: its, st: cl.st, r: r}
			bad := func(inst, f string, a ...any) {
				c.violate(rule, inst, cl.ev.pos, pathOf(cl.ev, cl.st), f, a...)
			}
			v, why := validated(r, cl.st, e)
			if why != "" {
				bad("identity", "a token is generated although %s", why)
				continue
			}
			q.id = v.args[1]
			id := fval(cl.ev.args[1], "EntityID", types.Typ[types.String])
			if !same(id, q.id) {
				bad("identity", "the token names %v, which is not the entity whose secret was validated", id)
			}
			var lt types.Type
			if n := c.P.namedType("internal/token", "Claims"); n != nil {
				if s, ok := n.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Name() == "Capabilities" {
							lt = s.Field(i).Type()
						}
					}
				}
			}
			q.collect(fval(cl.ev.args[1], "Capabilities", lt))
			if pass == 0 {
				for _, m := range q.maps {
					maps[m] = true
				}
				continue
			}
			q.maps = nil
			for m := range maps {
				q.maps = append(q.maps, m)
			}
			for _, w := range q.foreign {
				bad("foreign capability", "the claims contain %v, which is not a capability stored on the entity or one of its groups", w)
			}
			q.complete(bad)
		}
	}
	if gens == 0 {
		c.violate(rule, "generation unreachable", token.NoPos, nil, "no token is ever generated")
	}
	// the token handed out
	ok := 0
	for _, o := range r.outs {
		if o.panic || o.st.eqKnown(nil, o.res(1), kNil) == 0 {
			continue
		}
		c.ob(rule, "token")
		ok++
		p := e.load(o.st, mkField(o.res(0), "Token", types.NewPointer(types.Typ[types.String])), types.NewPointer(types.Typ[types.String]))
		var v *Term
		if !p.isNil() {
			v = e.load(o.st, p, types.Typ[types.String])
		}
		found := false
		for _, ev := range o.st.eventsNamed(tsv + "Generate") {
			if v != nil && same(v, ext(ev.res, 0)) && o.st.holds(ext(ev.res, 1), kNil) {
				found = true
			}
		}
		if !found {
			c.violate(rule, "token", r.fn.Pos(), trailOf(o.st), "the response reports success with the token %v, which is not a successfully generated one", v)
		}
	}
	for _, o := range r.outs {
		if o.panic || o.st.eqKnown(nil, o.res(1), kNil) == 1 {
			continue
		}
		c.ob(rule, "no token")
		if o.res(0).isNil() {
			continue
		}
		p := e.load(o.st, mkField(o.res(0), "Token", types.NewPointer(types.Typ[types.String])), types.NewPointer(types.Typ[types.String]))
		if !p.isNil() && o.st.eqKnown(nil, o.res(1), kNil) == 0 && o.res(0).op == OpAlloc {
			c.violate(rule, "token with error", r.fn.Pos(), trailOf(o.st), "a token is returned along with an error")
		}
	}
	if ok == 0 {
		c.violate(rule, "token unreachable", token.NoPos, nil, "no token is ever handed out")
	}
	c.need(rule, 3)
}

type claimsQ struct {
	c       *Ctx
	e       *Engine
	its     []*iteration
	st      *State
	r       *rpcRes
	id      *Term
	foreign []*Term
	maps    []*Term // maps whose keys become the capabilities
	lists   []*Term // lists that become the capabilities as a whole
	elems   map[*Term]bool
}

func (q *claimsQ) isEntity(t *Term) bool {
	t = strip(t)
	return t != nil && t.op == OpExt && t.n == 0 && t.args[0].op == OpCall && t.args[0].s == mgr+"FetchEntity" && same(callArg(t.args[0], 1), q.id)
}

// isMembership: an element of the memberships of the entity
func (q *claimsQ) isMembership(t *Term) bool {
	b := elemBase(t)
	return b != nil && q.isMemberships(b)
}

func (q *claimsQ) isMemberships(b *Term) bool {
	b = strip(b)
	return b.op == OpCall && b.s == mgr+"GetMemberships" && q.isEntity(callArg(b, 1))
}

func callArg(t *Term, i int) *Term {
	if i < len(t.args) {
		return t.args[i]
	}
	return kNil
}

// source classifies a capability list: 1 the entity's own, 2 that of a
// group in its memberships.
func (q *claimsQ) source(l *Term) (int, *Term) {
	b := fieldOf(l, "Capabilities")
	if b == nil {
		return 0, nil
	}
	if m := fieldOf(b, "Meta"); m != nil && q.isEntity(m) {
		return 1, nil
	}
	b = strip(b)
	if b.op == OpExt && b.n == 0 && b.args[0].op == OpCall && b.args[0].s == mgr+"FetchGroup" {
		if a := callArg(b.args[0], 1); q.isMembership(a) {
			return 2, strip(a)
		}
	}
	return 0, nil
}

// collect finds what the list is made of.
func (q *claimsQ) collect(l *Term) {
	q.elems = map[*Term]bool{}
	seenM := map[*Term]bool{}
	var list func(l *Term)
	var elem func(v *Term)
	var mapKeys func(m *Term)
	mapKeys = func(m *Term) {
		m = strip(m)
		if seenM[m] {
			return
		}
		seenM[m] = true
		q.maps = append(q.maps, m)
		// everything ever put into the map
		put := func(st *State) {
			for _, ev := range st.events {
				if ev.kind == "mapset" && strip(ev.args[0]) == m {
					elem(ev.args[1])
				}
				if ev.kind == "mapdel" && strip(ev.args[0]) == m {
					q.foreign = append(q.foreign, mk(Term{op: OpPure, s: "deletion", args: []*Term{m}}))
				}
			}
		}
		put(q.st)
		for _, it := range q.its {
			put(it.st)
		}
	}
	elem = func(v *Term) {
		for _, v := range alts(v) {
			s := strip(v)
			if q.elems[s] {
				continue
			}
			q.elems[s] = true
			if s.op == OpExt && s.args[0].op == OpNext {
				if rg := s.args[0].args[0]; rg.op == OpPure && rg.s == "range" && s.n == 1 {
					mapKeys(rg.args[0])
					continue
				}
			}
			if b := elemBase(s); b != nil {
				if k, _ := q.source(b); k != 0 {
					continue
				}
				list(b)
				continue
			}
			q.foreign = append(q.foreign, v)
		}
	}
	list = func(l *Term) {
		el, whole := q.e.listItems(q.st, l)
		for _, w := range whole {
			q.lists = append(q.lists, w)
			if k, _ := q.source(w); k == 0 {
				q.foreign = append(q.foreign, w)
			}
		}
		for _, v := range el {
			elem(v)
		}
	}
	list(l)
}

// put: in this iteration the element was put into the claims or found
// to be there already.
func (q *claimsQ) put(it *iteration, v *Term) bool {
	if it.keeps(v) {
		return true
	}
	m := it.mapKey(v)
	if m != nil {
		for _, x := range q.maps {
			if x == strip(m) {
				return true
			}
		}
	}
	for k, x := range it.st.mem {
		if k.op == OpElem && x == v {
			return true
		}
	}
	return it.st.lits(func(t, x *Term, eq bool) bool {
		return eq && x == kTrue && t.op == OpPure && t.s == "has" && len(t.args) == 2 && t.args[1] == v
	})
}

func (q *claimsQ) complete(bad func(inst, f string, a ...any)) {
	// loops by source
	loops := func(pred func(b *Term) bool) map[nestKey]bool {
		m := map[nestKey]bool{}
		for _, it := range q.its {
			if it.base != nil && pred(it.base) {
				m[it.key] = true
			}
		}
		return m
	}
	every := func(what string, pred func(b *Term) bool) {
		for _, it := range q.its {
			if it.base != nil && pred(it.base) && !q.put(it, it.elem) {
				bad(what+" left out", "a capability of the %s can be left out of the claims", what)
			}
		}
	}
	own := func(b *Term) bool { k, _ := q.source(b); return k == 1 }
	grp := func(b *Term) bool { k, _ := q.source(b); return k == 2 }
	every("entity", own)
	every("group", grp)
	// transfers between intermediate containers
	for _, it := range q.its {
		if it.rng == nil {
			continue
		}
		for _, m := range q.maps {
			if strip(it.rng) == m && !q.put(it, it.rkey) {
				bad("flattening", "a capability collected can be left out of the claims")
			}
		}
	}
	for _, m := range q.maps {
		if !exhaustedMap(q.st, m) {
			bad("flattening", "the capabilities collected are not all put into the claims")
		}
	}
	var bases []*Term
	byBase := map[*Term]map[nestKey]bool{}
	for _, it := range q.its {
		if it.base == nil {
			continue
		}
		if byBase[it.base] == nil {
			byBase[it.base] = map[nestKey]bool{}
			bases = append(bases, it.base)
		}
		byBase[it.base][it.key] = true
	}
	all := func(st *State, pred func(b *Term) bool, parent func(t *Term) bool) bool {
		for _, w := range q.lists {
			if pred(w) {
				return true
			}
		}
		var good []*Term
		m := map[nestKey]bool{}
		for _, b := range bases {
			if pred(b) {
				good = append(good, b)
				for k := range byBase[b] {
					m[k] = true
				}
			}
		}
		for _, b := range good {
			if st.exhaustedBy(b, m) {
				return true
			}
		}
		// there is no such list
		return st.lits(func(t, v *Term, eq bool) bool {
			if t.op == OpExt && t.n == 1 && (!eq && v == kNil || eq && v != kNil && v.nonNil()) && parent(ext(t.args[0], 0)) {
				return true // could not be loaded
			}
			return eq && v == kNil && parent(t)
		})
	}
	if !all(q.st, own, func(t *Term) bool { m := fieldOf(t, "Meta"); return m != nil && q.isEntity(m) || q.isEntity(t) }) {
		bad("entity incomplete", "the capabilities of the entity are not all put into the claims")
	}
	members := loops(q.isMemberships)
	if len(members) == 0 {
		bad("groups incomplete", "the groups of the entity are not examined")
		return
	}
	done := false
	for _, it := range q.its {
		if it.base == nil || !q.isMemberships(it.base) {
			continue
		}
		if q.st.exhaustedBy(it.base, members) {
			done = true
		}
		of := func(b *Term) bool { k, g := q.source(b); return k == 2 && g == strip(it.elem) }
		ok := all(it.st, of, func(t *Term) bool {
			t = strip(t)
			return t.op == OpExt && t.n == 0 && t.args[0].op == OpCall && t.args[0].s == mgr+"FetchGroup" && same(callArg(t.args[0], 1), it.elem)
		})
		if !ok {
			// appended as a whole
			for _, v := range it.vals {
				_, whole := q.e.listItems(it.st, v)
				for _, w := range whole {
					ok = ok || of(w)
				}
			}
		}
		if !ok {
			bad("group incomplete", "the capabilities of a group of the entity are not all put into the claims")
		}
	}
	if !done {
		bad("groups incomplete", "the groups of the entity are not all examined")
	}
}

// exhaustedMap: a range over the map was completed.
func exhaustedMap(st *State, m *Term) bool {
	return st.lits(func(t, v *Term, eq bool) bool {
		t = strip(t)
		if t.op != OpExt || t.n != 0 || t.args[0].op != OpNext {
			return false
		}
		rg := t.args[0].args[0]
		return rg.op == OpPure && rg.s == "range" && strip(rg.args[0]) == strip(m) && (eq && v == kFalse || !eq && v == kTrue)
	})
}
