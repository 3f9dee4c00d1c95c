package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:        "C34",
		technique: "inductive loop-transition analysis over SSA (the loop state is replaced by arbitrary values and every path through one iteration is decided), value flow of the status reported and path-sensitive analysis of the registered checks",
		rule:      "Every registered check is called once and its result is one element of the list; the overall status starts out good, stays good exactly while the results are good, and the first failure is the first result that is not good; what is reported to a client is derived element by element in the same way from that very list. A later registration does not replace an earlier one. Each subsystem registers its check and reports itself as good only on paths on which what it needs is there and answered.",
		run:       runC34,
	})
}

const healthPkg = "internal/health"

// induction replaces the parts of local structs of some types, and loop
// variables, by arbitrary values whenever a loop is entered or repeated.
type induction struct {
	e     *Engine
	fn    *ssa.Function
	typ   func(t types.Type) bool // structs replaced field by field
	init  map[*Term]*Term         // arbitrary value -> what the loop is entered with
	cells map[*Term]func(it *iteration) *Term
	its   []*iteration
}

func (in *induction) install(e *Engine) {
	in.e = e
	in.init, in.cells = map[*Term]*Term{}, map[*Term]func(it *iteration) *Term{}
	e.onBack = func(it *iteration) { in.its = append(in.its, it) }
	e.onHead = func(fr *Frame, to *ssa.BasicBlock, back bool, en env, st *State) {
		if fr.fn.Pkg != in.fn.Pkg {
			return
		}
		set := func(name string, typ types.Type, old *Term, get func(it *iteration) *Term) *Term {
			sym := mk(Term{op: OpLoop, s: "any:" + name, typ: typ})
			if !back {
				in.init[sym] = old
				b := old
				for b.op == OpField {
					b = b.args[0]
				}
				if b.op == OpAlloc && old.typ != nil {
					in.init[old] = e.load(st, old, old.typ) // what it points to
				}
			}
			in.cells[sym] = get
			return sym
		}
		roots := map[*Term]bool{}
		for a := range st.mem {
			for a.op == OpField {
				a = a.args[0]
			}
			if a.op == OpAlloc && a.typ != nil {
				roots[a] = true
			}
		}
		for a := range roots {
			t := a.typ
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if !in.typ(t) {
				continue
			}
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				f := mkField(a, s.Field(i).Name(), s.Field(i).Type())
				old := e.load(st, f, s.Field(i).Type())
				e.store(st, f, set(f.String(), s.Field(i).Type(), old, func(it *iteration) *Term { return e.load(it.st, f, nil) }), s.Field(i).Type())
			}
		}
		for a := range roots {
			t := a.typ
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				cell := a
				e.store(st, a, set(a.String(), t, e.load(st, a, t), func(it *iteration) *Term { return e.load(it.st, cell, t) }), t)
			}
		}
		n := 0
		for _, x := range to.Instrs {
			ph, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			k := n
			n++
			switch ph.Type().Underlying().(type) {
			case *types.Basic:
				if ph.Type().Underlying().(*types.Basic).Kind() != types.Bool {
					continue
				}
			case *types.Slice, *types.Struct, *types.Pointer:
			default:
				continue
			}
			hdr := to
			en[ph] = set(fnName(fr.fn)+"."+ph.Name(), ph.Type(), en[ph], func(it *iteration) *Term {
				if it.hdr != hdr || k >= len(it.vals) {
					return nil
				}
				return it.vals[k]
			})
		}
	}
}

// known: the truth of a condition on a path (1, 0, -1).
func (s *State) truth(f func(t *Term) bool) int {
	r := -1
	s.lits(func(t, v *Term, eq bool) bool {
		if !f(t) || v != kTrue && v != kFalse {
			return false
		}
		r = 0
		if eq == (v == kTrue) {
			r = 1
		}
		return true
	})
	return r
}

func runC34(c *Ctx) {
	fns := map[string]*ssa.Function{}
	for _, n := range []string{"Check", "RegisterCheck"} {
		if fns[n] = c.P.fn(healthPkg + "." + n); fns[n] == nil {
			c.unresolved("anchor", healthPkg+"."+n)
			return
		}
	}
	sys, sub := c.P.namedType(healthPkg, "SystemStatus"), c.P.namedType(healthPkg, "SubsystemStatus")
	if sys == nil || sub == nil {
		c.unresolved("anchor", "the status types")
		return
	}
	proto := c.P.method(healthPkg, "SystemStatus", "Proto")
	if proto == nil {
		c.unresolved("anchor", "SystemStatus.Proto")
		return
	}
	if m, ok := proto.Object().(*types.Func); ok && c.P.prog.FuncValue(m) != nil {
		proto = c.P.prog.FuncValue(m) // not the wrapper for pointers
	}
	c.healthCheck(fns["Check"], sys, sub)
	c.healthProto(proto, sys, sub)
	c.healthRegister(fns["RegisterCheck"], fns["Check"])
	c.healthHandler(fns["Check"], proto)
	c.healthSubsystems(sub)
	c.need("overall", 1)
	c.need("report", 1)
	c.need("register", 2)
	c.need("handler", 1)
	c.need("subsystem", 4)
}

func isZero(t *Term, typ types.Type) bool {
	if t.op == OpStruct {
		for _, a := range t.args {
			if !(a == kFalse || a.isNil() || constStr(a) == "" && a.isConst()) {
				return false
			}
		}
		return true
	}
	return strings.HasPrefix(t.String(), "zero(") || t.isConst() && t.isNil()
}

func (c *Ctx) healthCheck(f *ssa.Function, sys, sub types.Type) {
	const rule = "overall"
	name := fnName(f)
	c.ob(rule, name)
	in := &induction{fn: f, typ: func(t types.Type) bool { return types.Identical(t, sys) }}
	r := c.runStore(rule, f, func(e *Engine) { in.install(e) })
	if r.e.failed != "" {
		return
	}
	bad := func(st *State, format string, a ...any) {
		c.violate(rule, name, f.Pos(), trailOf(st), format, a...)
	}
	isChecks := func(t *Term) bool { return c.isGlobalMap(t, healthPkg) }
	// the parts of the result
	part := func(o Outcome, n string) *Term {
		v := o.res(0)
		return r.e.fieldVal(o.st, v, n)
	}
	var ok, ff, list *Term
	for _, o := range r.outs {
		if o.panic {
			bad(o.st, "it may panic")
			return
		}
		if !rangeDone(o.st, isChecks) {
			bad(o.st, "not every registered check may be run")
			return
		}
		a, b, l := part(o, "OK"), part(o, "FirstFailure"), part(o, "Subsystems")
		if a == nil || b == nil || l == nil || in.cells[a] == nil || in.cells[b] == nil || in.cells[l] == nil {
			bad(o.st, "the status %v, %v, %v is not what was collected from the checks", a, b, l)
			return
		}
		if ok != nil && (ok != a || ff != b || list != l) {
			bad(o.st, "the status is collected in different places")
			return
		}
		ok, ff, list = a, b, l
	}
	if ok == nil {
		c.violate(rule, name, f.Pos(), nil, "no path reports a status")
		return
	}
	if in.init[ok] != kTrue {
		c.violate(rule, name, f.Pos(), nil, "the overall status starts out as %v", in.init[ok])
		return
	}
	if !isZero(in.init[ff], sub) {
		c.violate(rule, name, f.Pos(), nil, "the first failure starts out as %v", in.init[ff])
		return
	}
	if l := in.init[list]; !l.isNil() && l.op != OpMake {
		if x, is := r.e.sliceElems(newState(), l); !is || len(x) > 0 {
			c.violate(rule, name, f.Pos(), nil, "the results start out as %v", l)
			return
		}
	}
	n := 0
	for _, it := range in.its {
		if it.rng == nil || !isChecks(it.rng) {
			continue
		}
		n++
		st := it.st
		var res *Event
		for _, ev := range st.events {
			if ev.kind == "call" && ev.fval != nil && (ev.fval == it.rval || isValueOf(ev.fval, it)) && ev.res != nil && len(ev.res.some) == 0 {
				if res != nil {
					bad(st, "a check is run twice")
					return
				}
				res = ev
			}
		}
		if res == nil {
			bad(st, "a registered check is not run")
			return
		}
		R := res.res
		good := st.truth(func(t *Term) bool { return fieldOf(t, "OK") != nil && same(fieldOf(t, "OK"), R) })
		old := st.truth(func(t *Term) bool { return t == ok })
		none := -1
		st.lits(func(t, v *Term, eq bool) bool {
			if t.op == OpBin && t.s == "==" && (t.args[0] == ff && isZero(t.args[1], sub) || t.args[1] == ff && isZero(t.args[0], sub)) {
				none = 0
				if eq == (v == kTrue) {
					none = 1
				}
				return true
			}
			return false
		})
		v := in.cells[ok](it)
		isR := v != nil && fieldOf(v, "OK") != nil && same(fieldOf(v, "OK"), R)
		switch {
		case v == ok && (good == 1 || old == 0):
		case isR && old == 1:
		case v == kFalse && (good == 0 || old == 0):
		case v == kTrue && good == 1 && old == 1:
		default:
			bad(st, "the overall status becomes %v though the result may be otherwise", v)
			return
		}
		w := in.cells[ff](it)
		switch {
		case w == ff && (good == 1 || none == 0 || old == 0):
		case same(w, R) && good == 0 && (none == 1 || old == 1):
		default:
			bad(st, "the first failure becomes %v though that may not be the first failing check", w)
			return
		}
		l := in.cells[list](it)
		if l == nil || l.op != OpAppend || l.args[0] != list || len(l.args) != 2 || !same(l.args[1], R) {
			bad(st, "the result of a check is not listed exactly once: %v", l)
			return
		}
	}
	if n == 0 {
		c.violate(rule, name, f.Pos(), nil, "no loop over the registered checks")
	}
}

// isValueOf: what a map ranged over holds for the current key.
func isValueOf(t *Term, it *iteration) bool {
	return it.rkey != nil && t.op == OpDeref && t.args[0].op == OpMapElem && same(t.args[0].args[0], it.rng) && t.args[0].args[1] == it.rkey
}

// fieldVal: a field of a struct value, or of the struct a pointer refers to.
func (e *Engine) fieldVal(st *State, v *Term, n string) *Term {
	v = unwrap(v)
	t := v.typ
	if t == nil {
		return nil
	}
	ptr := v.op == OpAlloc
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != n {
			continue
		}
		if ptr {
			return e.load(st, mkField(v, n, s.Field(i).Type()), s.Field(i).Type())
		}
		return fval(v, n, s.Field(i).Type())
	}
	return nil
}

// isGlobalMap: the map of functions kept by a package.
func (c *Ctx) isGlobalMap(t *Term, pkg string) bool {
	return t != nil && t.op == OpDeref && t.args[0].op == OpGlobal && strings.Contains(t.args[0].String(), pkg) && t.typ != nil && func() bool {
		_, ok := t.typ.Underlying().(*types.Map)
		return ok
	}()
}

func (c *Ctx) healthProto(f *ssa.Function, sys, sub types.Type) {
	const rule = "report"
	name := fnName(f)
	c.ob(rule, name)
	T := f.Signature.Results().At(0).Type()
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	in := &induction{fn: f, typ: func(t types.Type) bool { return types.Identical(t, T) }}
	r := c.runStore(rule, f, func(e *Engine) { in.install(e) })
	if r.e.failed != "" {
		return
	}
	bad := func(st *State, format string, a ...any) {
		c.violate(rule, name, f.Pos(), trailOf(st), format, a...)
	}
	recv := r.args[0]
	isList := func(t *Term) bool {
		b := fieldOf(t, "Subsystems")
		return b != nil && same(b, recv)
	}
	// a part of the value the pointer refers to
	deref := func(st *State, p *Term) *Term {
		if p == nil {
			return nil
		}
		typ := p.typ
		if typ != nil && p.op != OpAlloc {
			if q, ok := typ.Underlying().(*types.Pointer); ok {
				typ = q.Elem()
			}
		}
		if typ == nil {
			return nil
		}
		return r.e.load(st, p, typ)
	}
	isElem := func(b, elem *Term) bool {
		if b == nil || elem == nil {
			return false
		}
		b, elem = strip(b), strip(elem)
		return b == elem || elem.op == OpDeref && b == elem.args[0]
	}
	// p: the message made of a result
	made := func(st *State, p, elem *Term) bool {
		if p == nil || p.op != OpAlloc {
			return false
		}
		for m, own := range map[string]string{"OK": "OK", "Name": "Name", "FaultMessage": "Status"} {
			v := deref(st, r.e.fieldVal(st, p, m))
			if v == nil || !isElem(fieldOf(v, own), elem) {
				return false
			}
		}
		return true
	}
	var ok, ff, list *Term
	for _, o := range r.outs {
		if o.panic {
			bad(o.st, "it may panic")
			return
		}
		a, b, l := r.e.fieldVal(o.st, o.res(0), "SystemOK"), r.e.fieldVal(o.st, o.res(0), "FirstFailure"), r.e.fieldVal(o.st, o.res(0), "SubSystems")
		if a == nil || b == nil || l == nil || in.cells[l] == nil || !exhausted(o.st, isList) {
			bad(o.st, "the report does not hold all results: %v", l)
			return
		}
		if in.cells[a] == nil && a.op == OpAlloc {
			a = deref(o.st, a) // collected in a variable of its own
		}
		if a == nil || in.cells[a] == nil || in.cells[b] == nil {
			bad(o.st, "the status reported is %v, %v", a, b)
			return
		}
		if ok != nil && (ok != a || ff != b || list != l) {
			bad(o.st, "the status is collected in different places")
			return
		}
		ok, ff, list = a, b, l
	}
	if ok == nil {
		c.violate(rule, name, f.Pos(), nil, "no path reports a status")
		return
	}
	_, isPtr := ok.typ.Underlying().(*types.Pointer)
	value := func(st *State, a *Term) *Term {
		if isPtr {
			return deref(st, a)
		}
		return a
	}
	start := in.init[ok]
	if isPtr {
		start = in.init[start]
	}
	overall := func(v *Term) string { // what a status is
		switch {
		case v == kTrue:
			return "good"
		case v == kFalse:
			return "bad"
		case v != nil && fieldOf(v, "OK") != nil && same(fieldOf(v, "OK"), recv):
			return "overall"
		}
		return ""
	}
	n := 0
	for _, it := range in.its {
		if it.base == nil || !isList(it.base) {
			continue
		}
		n++
		st := it.st
		if !it.steps() {
			bad(st, "not every result is reported")
			return
		}
		good := st.truth(func(t *Term) bool { return isElem(fieldOf(t, "OK"), it.elem) })
		has := st.nilness(ff) // 1 nil, 0 not
		a, b, l := in.cells[ok](it), in.cells[ff](it), in.cells[list](it)
		failed := has == 0
		switch {
		case overall(value(st, a)) == "bad" && (good == 0 || failed):
		case a != ok || isPtr && r.e.load(st, ok, types.Typ[types.Bool]).op != OpDeref:
			bad(st, "the overall status reported is %v though a result may be otherwise", a)
			return
		case good == 1 || failed || overall(start) == "overall":
		default:
			bad(st, "the overall status reported is %v though a result may be otherwise", a)
			return
		}
		switch {
		case b == ff && (good == 1 || failed):
		case made(st, b, it.elem) && good == 0 && has == 1:
		default:
			bad(st, "the first failure reported is %v though that may not be the first failing check", b)
			return
		}
		if l == nil || l.op != OpAppend || l.args[0] != list || len(l.args) != 2 || !made(st, l.args[1], it.elem) {
			bad(st, "a result is not reported as it is: %v", l)
			return
		}
	}
	if n == 0 {
		c.violate(rule, name, f.Pos(), nil, "no loop over the results")
		return
	}
	switch s := overall(start); {
	case s == "overall" || s == "good":
	default:
		c.violate(rule, name, f.Pos(), nil, "the overall status reported starts out as %v (%v)", in.init[ok], start)
	}
	if x := in.init[ff]; !x.isNil() {
		c.violate(rule, name, f.Pos(), nil, "the first failure reported starts out as %v", x)
	}
	if x := in.init[list]; !x.isNil() && x.op != OpMake {
		c.violate(rule, name, f.Pos(), nil, "the results reported start out as %v", x)
	}
}

func (c *Ctx) healthRegister(f, check *ssa.Function) {
	const rule = "register"
	name := fnName(f)
	c.ob(rule, name)
	isChecks := func(t *Term) bool { return c.isGlobalMap(t, healthPkg) }
	r := c.runStore(rule, f, nil)
	for _, o := range r.outs {
		if o.panic {
			c.violate(rule, name, f.Pos(), trailOf(o.st), "it may panic")
			return
		}
		sets := 0
		for _, ev := range o.st.events {
			if ev.kind == "mapdel" && isChecks(ev.args[0]) {
				c.violate(rule, name, ev.pos, pathOf(ev, o.st), "a registered check is removed")
				return
			}
			if ev.kind != "mapset" || !isChecks(ev.args[0]) {
				continue
			}
			sets++
			if !same(ev.args[1], r.args[0]) || !same(unwrap(ev.args[2]), r.args[1]) {
				c.violate(rule, name, ev.pos, pathOf(ev, o.st), "something other than the check given is registered under its name")
				return
			}
			if o.st.truth(func(t *Term) bool {
				return t.op == OpPure && t.s == "has" && isChecks(t.args[0]) && same(t.args[1], r.args[0])
			}) != 0 {
				c.violate(rule, name, ev.pos, pathOf(ev, o.st), "a check replaces one that was registered before")
				return
			}
		}
		if sets == 0 && o.st.truth(func(t *Term) bool {
			return t.op == OpPure && t.s == "has" && isChecks(t.args[0]) && same(t.args[1], r.args[0])
		}) != 1 {
			c.violate(rule, name, f.Pos(), trailOf(o.st), "a check may not be registered")
			return
		}
	}
	// nothing else changes what is registered
	for _, g := range c.P.fns {
		if g.Pkg == nil || g.Pkg != f.Pkg || r.in[g] || g == f || g.Name() == "init" || strings.HasPrefix(g.Name(), "init#") {
			continue
		}
		c.ob(rule, fnName(g))
		for _, b := range g.Blocks {
			for _, x := range b.Instrs {
				if st, ok := x.(*ssa.Store); ok {
					if gl, ok := st.Addr.(*ssa.Global); ok && strings.Contains(gl.Type().String(), "map[") {
						c.violate(rule, fnName(g), x.Pos(), nil, "the registered checks are replaced")
					}
				}
				var m ssa.Value
				if mu, ok := x.(*ssa.MapUpdate); ok {
					m = mu.Map
				}
				if k, ok := x.(*ssa.Call); ok {
					if bi, ok := k.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						m = k.Call.Args[0]
					}
				}
				if u, ok := m.(*ssa.UnOp); ok {
					if _, ok := u.X.(*ssa.Global); ok {
						c.violate(rule, fnName(g), x.Pos(), nil, "the registered checks are changed")
					}
				}
			}
		}
	}
}

func (c *Ctx) healthHandler(check, proto *ssa.Function) {
	const rule = "handler"
	f := c.P.method("internal/rpc2", "Server", "SystemStatus")
	if f == nil {
		c.unresolved(rule, "SystemStatus")
		return
	}
	name := fnName(f)
	c.ob(rule, name)
	r := c.runStore(rule, f, nil)
	for _, o := range r.outs {
		p := callOf(o.res(0), -1, fnName(proto), "(*"+fnName(proto)[1:])
		if o.panic || p == nil || callOf(p.args[0], -1, fnName(check)) == nil || o.st.nilness(o.res(1)) != 1 {
			c.violate(rule, name, f.Pos(), trailOf(o.st), "the status reported is %v, not that of all checks", o.res(0))
			return
		}
	}
}

// healthSubsystems: the checks themselves.
func (c *Ctx) healthSubsystems(sub types.Type) {
	const rule = "subsystem"
	reg := healthPkg + ".RegisterCheck"
	reach := c.prod()
	for _, f := range c.P.fns {
		sig := f.Signature
		if f.Pkg == nil || !reach[f.Pkg.Pkg] || f.Parent() != nil || f.Synthetic != "" || sig.Params().Len() != 0 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), sub) || sig.Recv() == nil {
			continue
		}
		name := fnName(f)
		c.ob(rule, name)
		r := c.runStore(rule, f, nil)
		recv := r.args[0]
		goods := 0
		for _, o := range r.outs {
			if o.panic {
				c.violate(rule, name, f.Pos(), trailOf(o.st), "asking for the status may crash")
				continue
			}
			ok := r.e.fieldVal(o.st, o.res(0), "OK")
			if ok == kFalse {
				continue
			}
			goods++
			// every part of the subsystem the check can see is there
			T := recv.typ
			if p, is := T.Underlying().(*types.Pointer); is {
				T = p.Elem()
			}
			s, is := T.Underlying().(*types.Struct)
			if !is {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				if !needed(ft) {
					continue
				}
				if o.st.nilness(r.e.load(o.st, mkField(recv, s.Field(i).Name(), ft), ft)) != 0 {
					c.violate(rule, name, f.Pos(), trailOf(o.st), "it is reported as good though %s may be missing", s.Field(i).Name())
					return
				}
			}
			// everything asked answered without an error
			for _, ev := range o.st.events {
				if ev.kind != "call" || ev.fn == nil {
					continue
				}
				sg := ev.fn.Type().(*types.Signature)
				if n := sg.Results().Len(); n > 0 && sg.Results().At(n-1).Type().String() == "error" && o.st.nilness(errOf(ev)) != 1 {
					c.violate(rule, name, ev.pos, pathOf(ev, o.st), "it is reported as good though %s may have failed", shortName(ev.name))
					return
				}
			}
			asks := 0
			for _, ev := range o.st.events {
				if ev.kind == "call" {
					asks++
				}
			}
			if asks == 0 {
				c.violate(rule, name, f.Pos(), trailOf(o.st), "it is reported as good without looking")
				return
			}
		}
		if goods == 0 {
			c.violate(rule, name, f.Pos(), nil, "it is never reported as good")
		}
		// registered by what sets the subsystem up
		m, _ := f.Object().(*types.Func)
		n := 0
		c.P.callsTo(func(n string) bool { return strings.HasSuffix(n, "/"+reg) }, func(in *ssa.Function, call ssa.CallInstruction, _ string) {
			args := call.Common().Args
			v := args[len(args)-1]
			for {
				if x, ok := v.(*ssa.ChangeType); ok {
					v = x.X
					continue
				}
				break
			}
			mc, ok := v.(*ssa.MakeClosure)
			if !ok {
				return
			}
			g, _ := mc.Fn.(*ssa.Function)
			if g == nil || g.Object() != m && !strings.HasPrefix(fnName(g), name) {
				return
			}
			n++
			c.ob(rule, "registration of "+name)
			root := in
			for root.Parent() != nil {
				root = root.Parent()
			}
			rr := c.runStore(rule, root, nil)
			for _, o := range rr.outs {
				if o.panic {
					continue
				}
				if k := root.Signature.Results().Len(); k > 0 && root.Signature.Results().At(k-1).Type().String() == "error" && o.st.nilness(o.res(k-1)) == 0 {
					continue
				}
				if o.st.lastEvent(reg) == nil {
					c.violate(rule, "registration of "+name, in.Pos(), trailOf(o.st), "the subsystem may be set up without its check being registered")
					return
				}
			}
		})
		if n == 0 {
			c.violate(rule, name, f.Pos(), nil, "the check is not registered")
		}
	}
}

// needed: parts without which a subsystem does not work.
func needed(t types.Type) bool {
	s := t.String()
	return strings.HasSuffix(s, "rsa.PrivateKey") || strings.HasSuffix(s, "rsa.PublicKey") || strings.HasSuffix(s, "go-plugin.ClientProtocol")
}
