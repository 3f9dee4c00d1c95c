package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Processing chains.  The chain tables and the hook registry are read
// from package initialisation by dataflow, and the operations of the
// tree manager are then analysed with every chain expanded into the
// steps it consists of, in the order of their priorities.

const treePkg = "internal/tree"
const hooksPkg = "internal/tree/hooks"
const tdb = "(internal/tree.DB)."
const emc = "(internal/crypto.EMCrypto)."

type hookInfo struct {
	kind  string // entity, group
	reg   string // name the constructor is registered under
	name  string // name the hook reports
	prio  int64
	ctor  *ssa.Function
	recv  types.Type
	run   *ssa.Function
	hasPr bool
}

type chainTable struct {
	P      *Program
	hooks  map[string]map[string]*hookInfo // kind -> reported name
	all    []*hookInfo
	dups   []string
	chains map[string]map[string][]string // kind -> chain -> steps as listed
	errs   []string
	steps  int
	fns    map[*ssa.Function]bool
}

func title(kind string) string {
	if kind == "entity" {
		return "Entity"
	}
	return "Group"
}

// chainsOf builds the table.
func (c *Ctx) chainsOf() *chainTable {
	t := &chainTable{P: c.P, hooks: map[string]map[string]*hookInfo{"entity": {}, "group": {}}, chains: map[string]map[string][]string{"entity": {}, "group": {}}, fns: map[*ssa.Function]bool{}}
	ti := c.P.fn(treePkg + ".init")
	hi := c.P.fn(hooksPkg + ".init")
	if ti == nil || hi == nil {
		c.unresolved("chains", "package initialisation of internal/tree and internal/tree/hooks")
		return t
	}
	isInit := func(n string) bool {
		return len(n) > 5 && n[len(n)-5:] == ".init"
	}
	// chain tables
	e := newEngine(c.P)
	e.boundary = isInit
	for _, o := range e.run(ti, nil, initState(ti)) {
		if o.panic {
			continue
		}
		for _, kind := range []string{"entity", "group"} {
			g := mkGlobalNamed(c.P, treePkg, "default"+title(kind)+"Chains")
			if g == nil {
				c.unresolved("chains", "default"+title(kind)+"Chains")
				continue
			}
			m := o.st.mem[g]
			if m == nil {
				continue
			}
			for a, v := range o.st.mem {
				if a.op != OpMapElem || a.args[0] != m {
					continue
				}
				ch, isStr := a.args[1].str()
				l, ok := e.sliceElems(o.st, v)
				if !isStr || !ok {
					t.errs = append(t.errs, "chain table entry is not a literal: "+a.String())
					continue
				}
				var steps []string
				for _, x := range l {
					s, ok := x.str()
					if !ok {
						t.errs = append(t.errs, "chain step is not a literal: "+x.String())
					}
					steps = append(steps, s)
				}
				t.chains[kind][ch] = steps
			}
		}
	}
	c.done(e, "chains", "tables")
	// hook registry
	type reg struct {
		kind, name string
		f          *ssa.Function
	}
	var regs []reg
	e = newEngine(c.P)
	e.boundary = isInit
	e.models["internal/startup.RegisterCallback"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		f, ok := args[0].fn.(*ssa.Function)
		if !ok {
			t.errs = append(t.errs, "startup callback is not a function literal")
			return one(st, nil)
		}
		nf := &Frame{fn: f, parent: fr, depth: fr.depth + 1, ctx: fr.ctx + "/cb" + e.siteShort(call), free: args[0].args, stack: fr.stack}
		return e.exec(nf, st), true
	}
	for _, kind := range []string{"entity", "group"} {
		kind := kind
		e.models[treePkg+".Register"+title(kind)+"HookConstructor"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			n, ok := args[0].str()
			f, ok2 := args[1].fn.(*ssa.Function)
			if !ok || !ok2 {
				t.errs = append(t.errs, "hook registration is not literal at "+e.P.pos(call.Pos()))
				return one(st, nil)
			}
			regs = append(regs, reg{kind, n, f})
			return one(st, nil)
		}
	}
	e.run(hi, nil, initState(hi))
	c.done(e, "chains", "registry")
	seen := map[string]bool{}
	for _, r := range regs {
		k := r.kind + "/" + r.name + "/" + r.f.String()
		if seen[k] {
			continue
		}
		seen[k] = true
		h := t.instantiate(c, r.kind, r.name, r.f)
		if h == nil {
			continue
		}
		t.all = append(t.all, h)
		for _, o := range t.all[:len(t.all)-1] {
			if o.kind == h.kind && o.reg == h.reg {
				t.dups = append(t.dups, r.kind+" constructor name "+h.reg)
			}
		}
		if t.hooks[r.kind][h.name] != nil {
			t.dups = append(t.dups, r.kind+" hook name "+h.name)
		}
		t.hooks[r.kind][h.name] = h
	}
	return t
}

// initState is the state at program start: the init guard is false.
func initState(f *ssa.Function) *State {
	st := newState()
	if g, ok := f.Pkg.Members["init$guard"].(*ssa.Global); ok {
		st.mem[globalTerm(g)] = kFalse
	}
	return st
}

func mkGlobalNamed(P *Program, pkg, name string) *Term {
	sp := P.byPkg[pkg]
	if sp == nil {
		return nil
	}
	if g, ok := sp.Members[name].(*ssa.Global); ok {
		return globalTerm(g)
	}
	return nil
}

func (P *Program) namedType(pkg, name string) types.Type {
	sp := P.byPkg[pkg]
	if sp == nil {
		return nil
	}
	if tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

func (t *chainTable) refContext() *Term {
	rt := t.P.namedType(treePkg, "RefContext")
	if rt == nil {
		return mk(Term{op: OpParam, s: "RefContext"})
	}
	s := rt.Underlying().(*types.Struct)
	var fs []*Term
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, mk(Term{op: OpParam, s: "ctx." + s.Field(i).Name(), typ: s.Field(i).Type()}))
	}
	return mk(Term{op: OpStruct, typ: rt, args: fs})
}

// construct runs a hook constructor in st and returns the hook object.
func (t *chainTable) construct(e *Engine, ctx string, f *ssa.Function, st *State) ([]Outcome, string) {
	fr := &Frame{fn: f, ctx: ctx, args: []*Term{t.refContext()}, stack: []string{fnName(f)}}
	var good []Outcome
	for _, o := range e.exec(fr, st) {
		if o.panic || o.ret == nil {
			return nil, "constructor may panic"
		}
		if !o.res(1).isNil() {
			return nil, "constructor may fail"
		}
		if o.res(0).op != OpMkIface {
			return nil, "constructor does not return a concrete hook"
		}
		good = append(good, o)
	}
	return good, ""
}

func (t *chainTable) instantiate(c *Ctx, kind, name string, f *ssa.Function) *hookInfo {
	e := newEngine(c.P)
	outs, msg := t.construct(e, "K:"+name, f, newState())
	if msg != "" || len(outs) != 1 {
		t.errs = append(t.errs, kind+" hook "+name+": "+msg)
		return nil
	}
	h := &hookInfo{kind: kind, reg: name, ctor: f}
	obj := outs[0].res(0)
	h.recv = obj.typ
	h.run = c.P.methodOf(obj.typ, "Run")
	for _, m := range []string{"Name", "Priority"} {
		mf := c.P.methodOf(obj.typ, m)
		if mf == nil {
			t.errs = append(t.errs, name+": no method "+m)
			return nil
		}
		fr := &Frame{fn: mf, ctx: "M" + m, args: []*Term{obj.args[0]}, stack: []string{fnName(mf)}}
		for _, o := range e.exec(fr, outs[0].st) {
			if o.ret == nil {
				continue
			}
			if m == "Name" {
				if s, ok := o.ret.str(); ok {
					h.name = s
				} else {
					t.errs = append(t.errs, kind+" hook "+name+": name is not constant")
				}
			} else {
				if n, ok := o.ret.intv(); ok {
					h.prio, h.hasPr = n, true
				} else {
					t.errs = append(t.errs, kind+" hook "+name+": priority is not constant")
				}
			}
		}
	}
	if h.run == nil {
		t.errs = append(t.errs, name+": no method Run")
		return nil
	}
	t.steps += e.steps
	for f := range e.fnsSeen {
		t.fns[f] = true
	}
	return h
}

func (P *Program) methodOf(typ types.Type, name string) *ssa.Function {
	ms := P.prog.MethodSets.MethodSet(typ)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// sorted lists the hooks of a chain in execution order.
func (t *chainTable) sorted(kind, chain string) ([]*hookInfo, bool) {
	var l []*hookInfo
	steps, ok := t.chains[kind][chain]
	if !ok {
		return nil, false
	}
	for _, s := range steps {
		h := t.hooks[kind][s]
		if h == nil {
			return nil, false
		}
		l = append(l, h)
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].prio < l[j].prio })
	return l, true
}

// install makes an engine expand chain runs.  trace is told about
// every step before it is executed.
func (t *chainTable) install(c *Ctx, e *Engine, onStep func(h *hookInfo, rec, req *Term, st *State)) {
	for _, kind := range []string{"entity", "group"} {
		kind := kind
		e.models["(*"+treePkg+".Manager).Run"+title(kind)+"Chain"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			ch, ok := st.fold(args[1]).str()
			if !ok {
				c.violate("chains", "chain name in "+fnName(fr.fn), call.Pos(), nil, "the chain that is run is not a constant: %v", args[1])
				return nil, false
			}
			l, ok := t.sorted(kind, ch)
			if !ok {
				c.violate("chains", kind+" chain "+ch, call.Pos(), nil, "chain %s, run by %s, is not defined or one of its steps is not registered", ch, fnName(fr.fn))
				return nil, false
			}
			ptr := call.Common().Signature().Results().At(0).Type().(*types.Pointer)
			site := fr.ctx + "/C" + e.siteShort(call)
			rec := mk(Term{op: OpAlloc, s: site + ":record", nest: fr.loopsAt(e.P, call.Block()), typ: ptr.Elem()})
			for k := range st.mem {
				if allocBase(k) == rec {
					delete(st.mem, k)
				}
			}
			delete(st.hav, rec)
			e.addEvent(fr, st, "call", "chain", nil, []*Term{kString(kind + ":" + ch)}, rec, call.Pos())
			var outs []Outcome
			states := []*State{st}
			for _, h := range l {
				var next []*State
				for _, s := range states {
					if onStep != nil {
						onStep(h, rec, args[2], s)
					}
					objs, msg := t.construct(e, site+"/K"+h.name, h.ctor, s)
					if msg != "" {
						e.fail("hook " + h.name + ": " + msg)
						return nil, false
					}
					for _, ob := range objs {
						rf := &Frame{fn: h.run, ctx: site + "/R" + h.name, args: []*Term{ob.res(0).args[0], rec, args[2]}, parent: fr, depth: fr.depth + 1,
							nest: fr.loopsAt(e.P, call.Block()), stack: append(append([]string{}, fr.stack...), "chain "+ch+", step "+h.name+": "+fnName(h.run))}
						for _, o := range e.exec(rf, ob.st) {
							if o.panic {
								outs = append(outs, o)
								continue
							}
							er := o.res(0)
							s1 := o.st
							if s1.nilness(er) != 1 {
								s2 := s1.clone()
								if s2.assume(mkEq(er, kNil), false) {
									outs = append(outs, Outcome{st: s2, ret: mk(Term{op: OpTuple, args: []*Term{kNil, er}})})
								}
								s1 = s1.clone()
								if !s1.assume(mkEq(er, kNil), true) {
									continue
								}
							}
							next = append(next, s1)
						}
					}
				}
				states = dedupStates(next)
			}
			for _, s := range states {
				outs = append(outs, Outcome{st: s, ret: mk(Term{op: OpTuple, args: []*Term{rec, kNil}})})
			}
			return outs, true
		}
	}
}

func dedupStates(l []*State) []*State {
	seen := map[string]bool{}
	var out []*State
	for _, s := range l {
		k := s.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}
