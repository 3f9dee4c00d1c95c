package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
	"sort"
	"strings"
)

// A save is a call of SaveEntity/SaveGroup together with how the record
// saved differs from the record loaded.
type save struct {
	op     string // operation of the tree manager
	kind   string
	chain  string
	ev     *Event
	st     *State
	e      *Engine
	rec    *Term // record saved
	load   *Event
	src    *Term // record loaded (nil: fresh)
	typ    types.Type
	change map[string]*Term // field path -> saved value
	orig   map[string]*Term
	notes  []string
}

func (s *save) changed() []string {
	var l []string
	for k := range s.change {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func msgFields(t types.Type) []*types.Var {
	var l []*types.Var
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Exported() && !strings.HasPrefix(f.Name(), "XXX_") {
			l = append(l, f)
		}
	}
	return l
}

// origin is the unmodified content of address a.
func origin(a *Term, typ types.Type) *Term {
	return mk(Term{op: OpDeref, n: 0, args: []*Term{a}, typ: typ})
}

// diff compares the record at rec with the one that was loaded as src
// (nil for a fresh record).
func (s *save) diff() {
	s.change = map[string]*Term{}
	s.orig = map[string]*Term{}
	var cmp func(rec, src *Term, typ types.Type, prefix string)
	cmp = func(rec, src *Term, typ types.Type, prefix string) {
		for _, f := range msgFields(typ) {
			v := s.e.load(s.st, mkField(rec, f.Name(), f.Type()), f.Type())
			var o *Term
			if src == nil {
				o = zeroOf(f.Type())
			} else {
				o = origin(mkField(src, f.Name(), f.Type()), f.Type())
			}
			s.orig[prefix+f.Name()] = o
			if pt, ok := f.Type().(*types.Pointer); ok {
				if _, msg := pt.Elem().Underlying().(*types.Struct); msg {
					switch {
					case v == o && src != nil:
						// same message: its fields may have been written
						if s.st.nilness(v) != 1 {
							cmp(v, v, pt.Elem(), prefix+f.Name()+".")
						}
					case v.isNil() && s.st.nilness(o) == 1:
					case v.op == OpAlloc && (src == nil || s.st.nilness(o) == 1):
						cmp(v, nil, pt.Elem(), prefix+f.Name()+".")
					default:
						s.change[prefix+f.Name()] = v
					}
					continue
				}
				// scalar: the cell may have been written through the pointer
				if v == o && !v.isNil() {
					if c, ok := s.st.mem[v]; ok {
						s.change[prefix+f.Name()] = c
						continue
					}
				}
			}
			if v != o && !(s.st.nilness(o) == 1 && s.st.nilness(v) == 1) {
				s.change[prefix+f.Name()] = v
			}
		}
	}
	cmp(s.rec, s.src, s.typ, "")
}

// scalar content of a changed field: the value behind the pointer.
func (s *save) content(v *Term, typ types.Type) *Term {
	if v.isNil() {
		return v
	}
	return s.e.load(s.st, v, typ)
}

type opRun struct {
	name  string
	fn    *ssa.Function
	args  []*Term
	outs  []Outcome
	saves []*save
	dels  []*save
	e     *Engine
	iters []*iteration
}

// runOps analyses the operations of the tree manager with their chains
// expanded.
func (c *Ctx) runOps(t *chainTable, rule string, ops []string, cfg func(e *Engine)) map[string]*opRun {
	res := map[string]*opRun{}
	dd := c.dedupFns("dedup")
	for _, op := range ops {
		f := c.P.method(treePkg, "Manager", op)
		if f == nil {
			c.unresolved(rule, "operation "+op+" of the tree manager")
			continue
		}
		e := newEngine(c.P)
		r := &opRun{name: op, fn: f, e: e, args: entryArgs(f)}
		t.install(c, e, nil)
		for n := range dd {
			e.models[n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
				return one(st, mkDedup(args[0]))
			}
		}
		seen := map[string]bool{}
		e.onBack = func(it *iteration) { r.iters = append(r.iters, it) }
		e.onCall = func(ev *Event, st *State) {
			if ev.kind != "call" || !strings.HasPrefix(ev.name, tdb) {
				return
			}
			m := ev.name[len(tdb):]
			var kind string
			switch m {
			case "SaveEntity", "DeleteEntity":
				kind = "entity"
			case "SaveGroup", "DeleteGroup":
				kind = "group"
			default:
				return
			}
			k := ev.key + st.key()
			if seen[k] {
				return
			}
			seen[k] = true
			s := &save{op: op, kind: kind, ev: ev, st: st.clone(), e: e, rec: ev.args[1]}
			if ce := st.lastEvent("chain"); ce != nil {
				s.chain = constStr(ce.args[0])
			}
			for _, l := range st.eventsNamed(tdb + "Load" + title(kind)) {
				if s.load == nil {
					s.load = l
				}
			}
			if strings.HasPrefix(m, "Delete") {
				r.dels = append(r.dels, s)
				return
			}
			s.typ = ev.fn.Type().(*types.Signature).Params().At(0).Type().(*types.Pointer).Elem()
			// the record loaded: the source merged into the saved one
			for _, mg := range st.eventsNamed("proto.Merge") {
				if mg.args[0] != s.rec {
					continue
				}
				for _, l := range st.eventsNamed(tdb + "Load" + title(kind)) {
					if mg.args[1] == ext(l.res, 0) {
						s.load, s.src = l, mg.args[1]
					}
				}
			}
			if s.src == nil {
				// or the loaded record itself
				for _, l := range st.eventsNamed(tdb + "Load" + title(kind)) {
					if ext(l.res, 0) == s.rec {
						s.load, s.src = l, s.rec
					}
				}
			}
			s.diff()
			r.saves = append(r.saves, s)
		}
		if cfg != nil {
			cfg(e)
		}
		r.outs = e.run(f, r.args, newState())
		c.done(e, rule, op)
		c.outs += len(r.outs)
		res[op] = r
	}
	return res
}

// mkDedup: a list with the elements of l, each once.
func mkDedup(l *Term) *Term { return mk(Term{op: OpPure, s: "dedup", args: []*Term{l}, typ: l.typ}) }
