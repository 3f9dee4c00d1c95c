package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:        "C21",
		technique: "constant propagation through package initialisation, and effect analysis of the chain steps",
		rule:      "The chain tables and the registry of steps are read from the package initialisers by dataflow; every step is constructed and its name, priority and the effects of its Run method on the record and on storage are computed. For every chain: each step is registered, under the very name it reports, once; the first step consults storage and no later one replaces the record; no step that only examines the record comes after one that changes it; exactly one step saves or destroys the record, comes last, if any step changes it. Every chain run by an operation is defined.",
		run:       runC21,
	})
	register(&Check{
		id:        "C22",
		technique: "interprocedural dataflow over SSA: loop obligations of the chain runner and comparator evaluation",
		rule:      "In the runners of entity and group chains: the loop visits every step of the chain named, in ascending order; every iteration that continues ran exactly the step visited, once, on the one record and the request of this run, and found its error nil; a failure returns exactly that error with nothing run after it; success is returned only after the last step. Registering a step to a chain fails if the step is unknown and otherwise appends it and sorts the list that is stored, afterwards, with a comparator that evaluates to strictly ascending priority. Initialisation registers every step listed for every chain and returns the first error.",
		run:       runC22,
	})
	register(&Check{
		id:        "C26",
		technique: "path-sensitive interprocedural dataflow over SSA (typestate of the bootstrap flag) and whole-program store census",
		rule:      "The flag tested by the bootstrap operation is identified by dataflow. At every storage operation reached from it the flag was found clear; the flag is set at every return of it and of the disabling operation; no other store in the program clears it except the construction of a new manager. On every path of the server's main function the disabling operation was called on the manager that is served before requests are accepted, and the bootstrap operation is not called afterwards or from a request handler.",
		run:       runC26,
	})
}

// stepEffects: what a chain step does to the record and to storage.
type stepEffects struct {
	changes bool // writes to the record
	ensures bool // ... but only fills in a missing part with an empty one
	loads   bool
	merges  bool // replaces/merges the record with one loaded
	saves   bool
	deletes bool
	fails   bool
	others  []string
}

// effects computes what the steps do to the record and to storage, from
// all the operations they occur in.
func (c *Ctx) effects(rule string, t *chainTable) map[*hookInfo]*stepEffects {
	effs := map[*hookInfo]*stepEffects{}
	for _, h := range t.all {
		effs[h] = &stepEffects{ensures: true}
	}
	step := func(fr *Frame) *hookInfo {
		for ; fr != nil; fr = fr.parent {
			for _, h := range t.all {
				if fr.fn == h.run && strings.HasSuffix(fr.ctx, "/R"+h.name) {
					return h
				}
			}
		}
		return nil
	}
	var ops []string
	ops = append(ops, c.managerOps(rule)...)
	for _, o := range allOps() {
		dup := false
		for _, x := range ops {
			dup = dup || x == o
		}
		if !dup {
			ops = append(ops, o)
		}
	}
	c.runOps(t, rule, ops, func(e *Engine) {
		inRec := func(a *Term, st *State) bool {
			ce := st.lastEvent("chain")
			if ce == nil {
				return false
			}
			for x := a; x != nil; {
				if x == ce.res {
					return true
				}
				if len(x.args) == 0 || x.op != OpField && x.op != OpElem && x.op != OpDeref && x.op != OpMapElem {
					return false
				}
				x = x.args[0]
			}
			return false
		}
		e.onStore = func(fr *Frame, in ssa.Instruction, a, v *Term, st *State) {
			h := step(fr)
			if h == nil || !inRec(a, st) && !storedIn(st, a) {
				return
			}
			ef := effs[h]
			ef.changes = true
			// rec.X = &T{} where rec.X is nil
			sv, ok := in.(*ssa.Store)
			fresh := ok && v.op == OpAlloc
			if fresh {
				pt, isPtr := sv.Val.Type().Underlying().(*types.Pointer)
				if isPtr {
					_, isPtr = pt.Elem().Underlying().(*types.Struct)
				}
				fresh = isPtr
				for k := range st.mem {
					if allocBase(k) == v && k != v {
						fresh = false
					}
				}
			}
			if !fresh || st.nilness(e.load(st, a, sv.Val.Type())) != 1 {
				ef.ensures = false
			}
		}
		prev := e.onCall
		e.onCall = func(ev *Event, st *State) {
			prev(ev, st)
			h := step(ev.fr)
			if h == nil {
				return
			}
			ef := effs[h]
			if ev.name == "proto.Merge" && inRec(ev.args[0], st) {
				loaded := false
				for _, l := range st.eventsNamed(tdb + "Load" + title(h.kind)) {
					if same(ev.args[1], ext(l.res, 0)) {
						loaded = true
					}
				}
				if loaded {
					ef.merges = true
				} else {
					ef.changes, ef.ensures = true, false
				}
				return
			}
			switch {
			case strings.HasPrefix(ev.name, tdb+"Load"):
				ef.loads = true
			case strings.HasPrefix(ev.name, tdb+"Save"):
				ce := st.lastEvent("chain")
				if ce != nil && ev.args[1] == ce.res && strings.HasSuffix(ev.name, title(h.kind)) {
					ef.saves = true
				} else {
					ef.others = append(ef.others, ev.name)
				}
			case strings.HasPrefix(ev.name, tdb+"Delete"):
				ef.deletes = true
			}
		}
	})
	return effs
}

// storedIn: the address belongs to memory that the record points to.
func storedIn(st *State, a *Term) bool {
	ce := st.lastEvent("chain")
	if ce == nil {
		return false
	}
	var prefixes []*Term
	for x := a; ; x = x.args[0] {
		prefixes = append(prefixes, x)
		if len(x.args) == 0 || x.op != OpField && x.op != OpElem && x.op != OpDeref && x.op != OpMapElem {
			break
		}
	}
	for k, v := range st.mem {
		if allocBase(k) != ce.res || k == ce.res {
			continue
		}
		for _, p := range prefixes {
			if p == v && !p.isNil() {
				return true
			}
		}
	}
	return false
}

func runC21(c *Ctx) {
	const rule = "chain"
	t := c.chainsOf()
	for _, m := range t.errs {
		c.violate("registry", m, 0, nil, "%s", m)
	}
	for _, d := range t.dups {
		c.violate("registry", d, 0, nil, "registered more than once: %s", d)
	}
	var eff map[*hookInfo]*stepEffects
	for _, h := range t.all {
		c.ob("registry", h.kind+" step "+h.reg)
		if h.reg != h.name {
			c.violate("registry", h.kind+" step "+h.reg, h.ctor.Pos(), nil, "the step registered as %q reports the name %q: chains cannot find it", h.reg, h.name)
		}
	}
	eff = c.effects("effects", t)
	c.need("registry", 44)
	for _, kind := range []string{"entity", "group"} {
		var names []string
		for n := range t.chains[kind] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			inst := kind + " chain " + n
			c.ob(rule, inst)
			bad := func(f string, a ...any) { c.violate(rule, inst, c.chainPos(kind), nil, "chain "+n+": "+f, a...) }
			had := map[string]bool{}
			ok := true
			for _, s := range t.chains[kind][n] {
				if had[s] {
					bad("step %s is listed twice", s)
				}
				had[s] = true
				if t.hooks[kind][s] == nil {
					bad("step %s is not registered", s)
					ok = false
				}
			}
			if len(t.chains[kind][n]) == 0 {
				bad("the chain is empty")
			}
			if !ok || len(t.chains[kind][n]) == 0 {
				continue
			}
			l, _ := t.sorted(kind, n)
			lastChange, last := -1, -1
			for i, h := range l {
				ef := eff[h]
				if ef == nil {
					continue
				}
				if i == 0 {
					if !ef.loads {
						bad("the first step to run is %s (priority %d), which does not consult storage", h.name, h.prio)
					}
					if len(l) > 1 && l[1].prio == h.prio {
						bad("step %s has the same priority (%d) as the initial step %s", l[1].name, h.prio, h.name)
					}
					continue
				}
				if ef.merges {
					bad("step %s replaces the record after other steps have run", h.name)
				}
				if ef.saves || ef.deletes {
					if last >= 0 {
						bad("steps %s and %s both save or destroy the record", l[last].name, h.name)
					}
					last = i
				}
			}
			// the order of the others
			changed := ""
			for i, h := range l {
				ef := eff[h]
				if ef == nil || i == 0 {
					continue
				}
				if last >= 0 && i > last {
					bad("step %s (priority %d) runs after the record was saved or destroyed by %s (priority %d)", h.name, h.prio, l[last].name, l[last].prio)
				}
				if last >= 0 && i < last && h.prio == l[last].prio {
					bad("step %s has the same priority (%d) as %s, which saves or destroys the record", h.name, h.prio, l[last].name)
				}
				switch {
				case ef.saves || ef.deletes:
				case ef.changes && ef.ensures:
					if lastChange >= 0 {
						bad("step %s fills in missing parts of the record after %s changed it", h.name, changed)
					}
				case ef.changes:
					lastChange, changed = i, h.name
				default:
					if lastChange >= 0 {
						bad("step %s (priority %d) examines the record after %s (priority %d) changed it", h.name, h.prio, changed, l[lastChange].prio)
					}
				}
			}
			if lastChange >= 0 && last < 0 {
				bad("the record is changed by %s but never saved", changed)
			}
			if lastChange >= 0 && last >= 0 && eff[l[last]].deletes {
				bad("the record is changed and then destroyed")
			}
			if last >= 0 && eff[l[0]] != nil && !eff[l[0]].merges && lastChange < 0 && !eff[l[last]].deletes {
				bad("a record is saved that was neither loaded nor filled in")
			}
		}
	}
	c.need(rule, 33)
	// what the steps do to storage
	for _, h := range t.all {
		if ef := eff[h]; ef != nil && len(ef.others) > 0 {
			c.violate("effects", h.kind+" step "+h.name, h.run.Pos(), nil, "the step saves something else than the record being processed: %v", ef.others)
		}
	}
	// chains that are run
	open := map[*ssa.Function][]token.Pos{}
	used := map[string]bool{}
	for _, f := range c.P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				var kind string
				switch fnName(call.Common().StaticCallee()) {
				case "(*" + treePkg + ".Manager).RunEntityChain":
					kind = "entity"
				case "(*" + treePkg + ".Manager).RunGroupChain":
					kind = "group"
				default:
					continue
				}
				names, ok := stringsOf(call.Common().Args[1], map[ssa.Value]bool{})
				if !ok {
					if c.passesOn(f, call.Common().Args[1]) {
						continue // decided at the callers
					}
					open[f] = append(open[f], call.Pos())
				}
				for _, n := range names {
					c.ob("uses", kind+" chain "+n+" in "+fnName(f))
					used[kind+n] = true
					if _, ok := t.chains[kind][n]; !ok {
						c.violate("uses", kind+" chain "+n+" in "+fnName(f), call.Pos(), nil, "%s runs the %s chain %s, which is not defined", fnName(f), kind, n)
					}
				}
			}
		}
	}
	// ... as expanded through the operations
	for n, r := range c.runOps(t, "uses", append(c.managerOps("uses"), "Bootstrap"), nil) {
		for _, o := range r.outs {
			for _, ev := range o.st.eventsNamed("chain") {
				c.ob("uses", n+" runs "+constStr(ev.args[0]))
				delete(open, ev.in) // the name is known on every path
			}
		}
	}
	for f, l := range open {
		c.violate("uses", "chain run in "+fnName(f), l[0], nil, "the chain that is run cannot be determined")
	}
	c.need("uses", 33)
}

// passesOn: v is a parameter of an unexported function.
func (c *Ctx) passesOn(f *ssa.Function, v ssa.Value) bool {
	_, ok := v.(*ssa.Parameter)
	return ok
}

func stringsOf(v ssa.Value, seen map[ssa.Value]bool) ([]string, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if t := kConst(x.Value, x.Type()); t != nil {
			if s, ok := t.str(); ok {
				return []string{s}, true
			}
		}
	case *ssa.Phi:
		var l []string
		for _, e := range x.Edges {
			s, ok := stringsOf(e, seen)
			if !ok {
				return nil, false
			}
			l = append(l, s...)
		}
		return l, true
	}
	return nil, false
}

// onlyInRuns is used by the chain rules to find positions.
func (c *Ctx) chainPos(kind string) (p token.Pos) {
	if sp := c.P.byPkg[treePkg]; sp != nil {
		if g, ok := sp.Members["default"+title(kind)+"Chains"].(*ssa.Global); ok {
			return g.Pos()
		}
	}
	return 0
}

func runC22(c *Ctx) {
	for _, kind := range []string{"entity", "group"} {
		c.chainRunner(kind)
		c.chainRegister(kind)
		c.chainInit(kind)
	}
	c.need("run", 2)
	c.need("register", 2)
	c.need("initialize", 2)
}

func (c *Ctx) chainRunner(kind string) {
	const rule = "run"
	T := title(kind)
	f := c.P.method(treePkg, "Manager", "Run"+T+"Chain")
	if f == nil {
		c.unresolved(rule, "Run"+T+"Chain")
		return
	}
	e := newEngine(c.P)
	var its []*iteration
	e.onBack = func(it *iteration) { its = append(its, it) }
	args := entryArgs(f)
	outs := e.run(f, args, newState())
	c.done(e, rule, fnName(f))
	inst := fnName(f)
	bad := func(st *State, what, format string, a ...any) {
		c.violate(rule, inst+" "+what, f.Pos(), trailOf(st), format, a...)
	}
	hook := "(" + treePkg + "." + T + "Hook).Run"
	// the list of the chain
	isList := func(b *Term) bool {
		b = strip(b)
		if b.op == OpDeref || b.op == OpPure || b.op == OpExt {
			return b.contains(func(x *Term) bool { return x == args[1] }) && b.contains(func(x *Term) bool { return x.op == OpField && x.s == kind+"Processes" || x.op == OpMapElem })
		}
		return false
	}
	loops := map[nestKey]bool{}
	var list *Term
	for _, it := range its {
		if it.base == nil || !isList(it.base) {
			continue
		}
		c.ob(rule, inst)
		loops[it.key] = true
		list = it.base
		for bo, sh := range c.P.loopConds(it.fn) {
			if bo.Block() == it.hdr && sh.down {
				bad(it.st, "order", "the steps of a chain are run in descending order")
			}
		}
		n := 0
		for _, ev := range it.st.eventsNamed(hook) {
			if ev.args[0] != it.elem {
				continue
			}
			n++
			if !it.st.holds(ev.res, kNil) {
				bad(it.st, "continue", "the chain is continued although a step is not known to have succeeded")
			}
			if strip(ev.args[2]) != args[2] {
				bad(it.st, "request", "a step is not given the request of this run")
			}
			if r := strip(ev.args[1]); r.op != OpAlloc || hasNest(ev.args[1].vol, it.key) || hasNest(ev.args[1].nest, it.key) {
				bad(it.st, "record", "the steps are not given one record of this run: %v", ev.args[1])
			}
		}
		if n != 1 {
			bad(it.st, "each step", "an iteration over the chain runs its step %d times", n)
		}
	}
	if list == nil {
		bad(nil, "loop", "no loop over all the steps of the chain was found")
		return
	}
	for _, o := range outs {
		if o.panic {
			bad(o.st, "panic", "the run can panic")
			continue
		}
		c.ob(rule, inst)
		runs := o.st.eventsNamed(hook)
		er := o.res(1)
		switch o.st.nilness(er) {
		case 1:
			if !o.st.exhaustedBy(list, loops) {
				bad(o.st, "success", "success is reported although the steps of the chain were not all run")
			}
			for _, ev := range runs {
				if !o.st.holds(ev.res, kNil) {
					bad(o.st, "success", "success is reported although a step is not known to have succeeded")
				}
				if strip(ev.args[1]) != strip(o.res(0)) {
					bad(o.st, "result", "the record returned is not the one the steps were run on")
				}
			}
		default:
			if len(runs) == 0 || er != runs[len(runs)-1].res {
				bad(o.st, "error", "a failure is not reported as the error of the step that failed: %v", er)
				continue
			}
			if o.st.eqKnown(nil, er, kNil) == 1 {
				bad(o.st, "error", "the run ends although the step did not fail")
			}
			for _, ev := range runs[:len(runs)-1] {
				if !o.st.holds(ev.res, kNil) {
					bad(o.st, "stop", "steps are run after one has failed")
				}
			}
		}
	}
}

func (c *Ctx) chainRegister(kind string) {
	const rule = "register"
	T := title(kind)
	f := c.P.method(treePkg, "Manager", "Register"+T+"HookToChain")
	if f == nil {
		c.unresolved(rule, "Register"+T+"HookToChain")
		return
	}
	e := newEngine(c.P)
	args := entryArgs(f) // m, hook, chain
	for _, n := range []string{"sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable"} {
		n := n
		e.models[n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			e.addEvent(fr, st, "call", n, nil, args, nil, call.Pos())
			return one(st, nil)
		}
	}
	outs := e.run(f, args, newState())
	c.done(e, rule, fnName(f))
	inst := fnName(f)
	bad := func(st *State, what, format string, a ...any) {
		c.violate(rule, inst+" "+what, f.Pos(), trailOf(st), format, a...)
	}
	success := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.ob(rule, inst)
		// stores into the map of chains
		var lists []*Term
		var addrs []*Term
		for a, v := range o.st.mem {
			if a.op == OpMapElem && v.typ != nil && strings.Contains(a.args[0].String(), "Processes") {
				lists = append(lists, v)
				addrs = append(addrs, a)
			}
		}
		known := 0
		for t, fa := range o.st.facts {
			if t.op == OpPure && t.s == "has" && len(t.args) == 2 && t.args[1] == args[1] {
				if fa.eq == kTrue {
					known = 1
				} else if fa.eq == kFalse {
					known = -1
				}
			}
		}
		if o.st.nilness(o.ret) != 1 {
			if len(lists) > 0 {
				bad(o.st, "failure", "a chain is changed although the registration fails")
			}
			if o.st.nilness(o.ret) != 0 {
				bad(o.st, "error", "an unknown step is not reported")
			}
			continue
		}
		success++
		if known != 1 {
			bad(o.st, "unknown step", "registering succeeds although the step is not known to exist")
			continue
		}
		if len(lists) != 1 || addrs[0].args[1] != args[2] {
			bad(o.st, "append", "registering does not change exactly the chain named")
			continue
		}
		v := lists[0]
		if v.op != OpAppend || len(v.args) != 2 || v.args[0].op != OpDeref || v.args[0].args[0] != addrs[0] || !v.args[1].contains(func(x *Term) bool { return x == args[1] }) {
			bad(o.st, "append", "the step is not appended to the chain: it becomes %v", v)
			continue
		}
		// sorted afterwards
		ok := ""
		for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
			for _, ev := range o.st.eventsNamed(n) {
				l := ev.args[0]
				if l.op == OpMkIface {
					l = l.args[0]
				}
				if l != v {
					ok = "the list that is sorted is not the one stored"
					continue
				}
				ok = c.ascending(e, ev.args[1], v, o.st, kind)
				if ok == "" {
					ok = "ok"
				}
			}
		}
		for _, n := range []string{"sort.Sort", "sort.Stable"} {
			for _, ev := range o.st.eventsNamed(n) {
				l := ev.args[0]
				var typ types.Type
				if l.op == OpMkIface {
					typ = l.typ
					l = l.args[0]
				}
				if un(strip(l)) != strip(v) && !(l.op == OpConv && l.args[0] == v) {
					ok = "the list that is sorted is not the one stored"
					continue
				}
				if typ == nil {
					continue
				}
				lf := c.P.methodOf(typ, "Less")
				if lf == nil {
					continue
				}
				ok = c.ascendingFn(e, lf, nil, []*Term{l}, v, o.st, kind)
				if ok == "" {
					ok = "ok"
				}
			}
		}
		if ok == "" {
			ok = "the chain is not sorted after the step was added"
		}
		if ok != "ok" {
			bad(o.st, "order", "%s", ok)
		}
	}
	if success == 0 {
		bad(nil, "unreachable", "no step is ever registered")
	}
}

func (c *Ctx) ascending(e *Engine, less, list *Term, st *State, kind string) string {
	if less.op != OpClosure && less.op != OpFn {
		return "the order of the chain cannot be determined"
	}
	f, ok := less.fn.(*ssa.Function)
	if !ok {
		return "the order of the chain cannot be determined"
	}
	var free []*Term
	if less.op == OpClosure {
		free = less.args
	}
	return c.ascendingFn(e, f, free, nil, list, st, kind)
}

// ascendingFn evaluates a comparator on two symbolic indices.
func (c *Ctx) ascendingFn(e *Engine, f *ssa.Function, free, recv []*Term, list *Term, st *State, kind string) string {
	i := mk(Term{op: OpParam, s: "i", typ: types.Typ[types.Int]})
	j := mk(Term{op: OpParam, s: "j", typ: types.Typ[types.Int]})
	fr := &Frame{fn: f, ctx: "less", args: append(append([]*Term{}, recv...), i, j), free: free, stack: []string{fnName(f)}}
	isPrio := func(t, idx *Term) bool {
		if t.op != OpCall && t.op != OpPure || !strings.HasSuffix(t.s, "Hook).Priority") || len(t.args) == 0 {
			return false
		}
		a := t.args[0]
		return a.op == OpDeref && a.args[0].op == OpElem && a.args[0].args[1] == idx
	}
	outs := e.exec(fr, st.clone())
	if len(outs) == 0 {
		return "the order of the chain cannot be determined"
	}
	for _, o := range outs {
		if o.panic {
			return "the comparator can panic"
		}
		v := o.ret
		if o.st.known(v) == 1 || v == kTrue {
			// decided by branching
			if !o.st.lits(func(t, x *Term, eq bool) bool {
				return eq && x == kTrue && t.op == OpBin && t.s == "<" && isPrio(t.args[0], i) && isPrio(t.args[1], j)
			}) {
				return "a step with a higher priority number is sorted before one with a lower number"
			}
			continue
		}
		if v == kFalse {
			if !o.st.lits(func(t, x *Term, eq bool) bool {
				return eq && x == kFalse && t.op == OpBin && t.s == "<" && isPrio(t.args[0], i) && isPrio(t.args[1], j)
			}) {
				return "the comparator does not order the steps by priority"
			}
			continue
		}
		if v.op != OpBin || v.s != "<" || !isPrio(v.args[0], i) || !isPrio(v.args[1], j) {
			return "the comparator does not order the steps by ascending priority: " + v.String()
		}
	}
	return ""
}

func (c *Ctx) chainInit(kind string) {
	const rule = "initialize"
	T := title(kind)
	f := c.P.method(treePkg, "Manager", "Initialize"+T+"Chains")
	if f == nil {
		c.unresolved(rule, "Initialize"+T+"Chains")
		return
	}
	e := newEngine(c.P)
	reg := "(*" + treePkg + ".Manager).Register" + T + "HookToChain"
	e.boundary = func(n string) bool { return n == reg }
	var its []*iteration
	e.onBack = func(it *iteration) { its = append(its, it) }
	args := entryArgs(f)
	outs := e.run(f, args, newState())
	c.done(e, rule, fnName(f))
	inst := fnName(f)
	bad := func(st *State, what, format string, a ...any) {
		c.violate(rule, inst+" "+what, f.Pos(), trailOf(st), format, a...)
	}
	loops := map[nestKey]bool{}
	inner, outer := 0, 0
	for _, it := range its {
		if it.base != nil && it.base.contains(func(x *Term) bool { return x == args[1] }) {
			loops[it.key] = true
		}
	}
	for _, it := range its {
		c.ob(rule, inst)
		switch {
		case it.base != nil && loops[it.key]:
			inner++
			ok := false
			for _, ev := range it.st.eventsNamed(reg) {
				if ev.args[1] == it.elem && it.st.holds(ev.res, kNil) && ev.args[2].op == OpExt && ev.args[2].n == 1 {
					ok = true
				}
			}
			if !ok {
				bad(it.st, "each step", "a step listed for a chain can remain unregistered")
			}
		case it.rng == args[1]:
			outer++
			if !it.st.exhaustedBy(it.rval, loops) {
				bad(it.st, "all steps", "the steps listed for a chain are not all registered")
			}
		}
	}
	if inner == 0 || outer == 0 {
		bad(nil, "loop", "the loops over the chains and their steps were not found")
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.ob(rule, inst)
		if o.st.nilness(o.ret) == 1 {
			if !exhaustedMap(o.st, args[1]) {
				bad(o.st, "all chains", "success is reported although not all chains were processed")
			}
			for _, ev := range o.st.eventsNamed(reg) {
				if !o.st.holds(ev.res, kNil) {
					bad(o.st, "error", "the failure to register a step is not reported")
				}
			}
		}
	}
}

const disable = "(*" + treePkg + ".Manager).DisableBootstrap"
const bootOp = "(*" + treePkg + ".Manager).Bootstrap"

func runC26(c *Ctx) {
	const rule = "bootstrap"
	t := c.chainsOf()
	// the flag
	flags := map[string]bool{}
	var anyF *ssa.Function
	for n, r := range c.runOps(t, rule, []string{"Bootstrap"}, nil) {
		anyF = r.fn
		m := r.p(0)
		boolField := func(t *Term) string {
			if b := fieldOf(t, t.lastField()); b == m && t.typ != nil {
				if bt, ok := t.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
					return t.lastField()
				}
			}
			return ""
		}
		clear := func(st *State) map[string]bool {
			l := map[string]bool{}
			st.lits(func(t, v *Term, eq bool) bool {
				if f := boolField(strip(t)); f != "" && (eq && v == kFalse || !eq && v == kTrue) {
					l[f] = true
				}
				return false
			})
			return l
		}
		first := true
		ran := 0
		for _, o := range r.outs {
			if len(o.st.eventsNamed("chain")) == 0 && o.st.lastEventPrefix(tdb) == nil {
				continue
			}
			ran++
			l := clear(o.st)
			if first {
				flags, first = l, false
				continue
			}
			for f := range flags {
				if !l[f] {
					delete(flags, f)
				}
			}
		}
		if ran == 0 {
			c.violate(rule, n+" unreachable", r.fn.Pos(), nil, "the bootstrap operation never does anything")
			return
		}
		set := func(o Outcome, m *Term, f string) bool {
			return r.e.load(o.st, mkField(m, f, types.Typ[types.Bool]), types.Typ[types.Bool]) == kTrue || o.st.holds(origin(mkField(m, f, types.Typ[types.Bool]), types.Typ[types.Bool]), kTrue)
		}
		// of the candidates, those that are set at every return
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			c.ob(rule, n)
			for f := range flags {
				if !set(o, m, f) {
					delete(flags, f)
				}
			}
		}
		if len(flags) == 0 {
			c.violate(rule, n, r.fn.Pos(), nil, "no flag is both required to be clear for a bootstrap and set at every return of it: a bootstrap can be repeated")
			return
		}
		if d := c.P.method(treePkg, "Manager", "DisableBootstrap"); d != nil {
			e := newEngine(c.P)
			a := entryArgs(d)
			for _, o := range e.run(d, a, newState()) {
				if o.panic {
					continue
				}
				c.ob(rule, "DisableBootstrap")
				for f := range flags {
					if e.load(o.st, mkField(a[0], f, types.Typ[types.Bool]), types.Typ[types.Bool]) != kTrue {
						c.violate(rule, "DisableBootstrap", d.Pos(), trailOf(o.st), "DisableBootstrap can return without setting the flag %s", f)
					}
				}
			}
			c.done(e, rule, "DisableBootstrap")
		} else {
			c.unresolved(rule, "DisableBootstrap")
		}
		// what is granted
		for _, s := range r.saves {
			c.ob("saved", n)
			for f, v := range s.change {
				switch f {
				case "Secret":
					if !c.secured(s, v, r.p(2)) {
						c.violate("saved", "secret", s.ev.pos, pathOf(s.ev, s.st), "the bootstrap secret saved is not the secured form of the one given")
					}
				}
			}
			if _, ok := s.change["Secret"]; !ok {
				c.violate("saved", "secret", s.ev.pos, pathOf(s.ev, s.st), "the bootstrap entity is saved without setting its secret")
			}
		}
	}
	if anyF == nil {
		return
	}
	c.need("saved", 1)
	// stores anywhere
	mt := c.P.namedType(treePkg, "Manager")
	for _, f := range c.P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || mt == nil {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), mt) {
					continue
				}
				name := pt.Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
				if !flags[name] {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						c.ob("stores", fnName(f))
						if x.Addr != fa {
							c.violate("stores", fnName(f), x.Pos(), nil, "the address of the bootstrap flag escapes")
							continue
						}
						if k, ok := x.Val.(*ssa.Const); ok {
							v := kConst(k.Value, k.Type())
							if v == kTrue {
								continue
							}
							if _, fresh := fa.X.(*ssa.Alloc); fresh {
								continue
							}
						}
						c.violate("stores", fnName(f), x.Pos(), nil, "%s can clear the flag that disables bootstrap", fnName(f))
					default:
						c.violate("stores", fnName(f), fa.Pos(), nil, "the address of the bootstrap flag escapes in %s", fnName(f))
					}
				}
			}
		}
	}
	c.need("stores", 1)
	// startup
	m := c.runMain("startup")
	if m == nil {
		return
	}
	serves := 0
	for _, cl := range m.calls {
		switch {
		case strings.HasSuffix(cl.ev.name, "grpc.Server).Serve"):
			serves++
			c.ob("startup", "serve")
			d := cl.st.eventsNamed(disable)
			if len(d) == 0 {
				c.violate("startup", "serve", cl.ev.pos, pathOf(cl.ev, cl.st), "requests are accepted although bootstrap was not disabled")
				continue
			}
			// the manager that is served
			for _, r := range cl.st.eventsNamed(rpcPkg + ".New") {
				served := false
				for _, ev := range d {
					served = served || r.args[0].contains(func(x *Term) bool { return x == ev.args[0] })
				}
				if !served {
					c.violate("startup", "served manager", cl.ev.pos, pathOf(cl.ev, cl.st), "bootstrap is disabled on another manager than the one that is served")
				}
			}
		case cl.ev.name == bootOp:
			c.ob("startup", "bootstrap")
			if len(cl.st.eventsNamed(disable)) > 0 {
				c.violate("startup", "bootstrap", cl.ev.pos, pathOf(cl.ev, cl.st), "a bootstrap is attempted after bootstrap was disabled")
			}
		}
	}
	if serves == 0 {
		c.violate("startup", "serve unreachable", m.fn.Pos(), nil, "the server never accepts requests")
	}
	// only startup bootstraps
	for _, f := range c.P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				var obj types.Object
				if cc.IsInvoke() {
					obj = cc.Method
				} else if s := cc.StaticCallee(); s != nil {
					obj = s.Object()
				}
				if fo, ok := obj.(*types.Func); !ok || !strings.HasSuffix(fo.FullName(), "Manager).Bootstrap") {
					continue
				}
				if f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "bound") {
					continue
				}
				c.ob("callers", fnName(f))
				if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" {
					c.violate("callers", fnName(f), call.Pos(), nil, "%s bootstraps, which only startup may do", fnName(f))
				}
			}
		}
	}
}

// runMain analyses the main function of the server; calls into other
// packages are kept as events.
func (c *Ctx) runMain(rule string) *rpcRes {
	f := c.P.fn("cmd/netauthd.main")
	if f == nil {
		c.unresolved(rule, "the main function of the server")
		return nil
	}
	e := newEngine(c.P)
	e.boundary = func(n string) bool {
		fn := c.P.fn(n)
		return fn != nil && (fn.Pkg == nil || fn.Pkg != f.Pkg)
	}
	pureGetBool(e)
	r := &rpcRes{name: "main", fn: f, e: e}
	seen := map[string]bool{}
	e.onCall = func(ev *Event, st *State) {
		if ev.kind != "call" && ev.kind != "go" {
			return
		}
		k := ev.key + st.key()
		if seen[k] {
			return
		}
		seen[k] = true
		r.calls = append(r.calls, rpcCall{ev, st.clone()})
	}
	r.outs = e.run(f, nil, newState())
	c.done(e, rule, "main")
	c.outs += len(r.outs)
	return r
}
