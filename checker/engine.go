package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is a forward, path-sensitive, interprocedural dataflow
// analysis: abstract states are propagated over the SSA control flow
// graph, module-internal callees are analysed in the context of their
// call, states that agree are joined, and loops are iterated to a fixed
// point over a finite abstraction (values of earlier iterations are
// renamed to one summary value).  Nothing is executed and no solver is
// involved: a branch is only pruned when it contradicts a recorded
// comparison with a constant.

type fact struct {
	eq  *Term
	neq []*Term
}

type exLit struct {
	t   *Term
	val *Term
	eq  bool
}

type Event struct {
	kind  string // call, go, defer, mapset, mapdel, send, lock, unlock, panic
	name  string
	fn    *types.Func
	args  []*Term
	res   *Term
	pos   token.Pos
	in    *ssa.Function
	stack []string
	key   string
	fr    *Frame
	fval  *Term     // the function value called, if it is not known
	loops []nestKey // the loops around a call (see inLoops)
	known bool      // loops is set
}

type lockHeld struct {
	addr *Term
	mode byte // 'R' or 'W'
	pos  token.Pos
}

type State struct {
	mem    map[*Term]*Term
	facts  map[*Term]fact
	ex     map[exLit]bool
	events []*Event
	locks  []lockHeld
	hav    map[*Term]int
	trail  []string // branches taken by the first path that reached the state (diagnosis only)
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, facts: map[*Term]fact{}, ex: map[exLit]bool{}, hav: map[*Term]int{}}
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)+4), facts: make(map[*Term]fact, len(s.facts)+2), ex: make(map[exLit]bool, len(s.ex)), hav: make(map[*Term]int, len(s.hav))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ex {
		n.ex[k] = v
	}
	for k, v := range s.hav {
		n.hav[k] = v
	}
	n.events = append(make([]*Event, 0, len(s.events)+2), s.events...)
	n.locks = append([]lockHeld{}, s.locks...)
	n.trail = append(make([]string, 0, len(s.trail)+1), s.trail...)
	return n
}

func (s *State) key() string {
	var parts []string
	for k, v := range s.mem {
		parts = append(parts, fmt.Sprintf("m%d=%d", k.id, v.id))
	}
	for k, v := range s.facts {
		p := fmt.Sprintf("f%d:", k.id)
		if v.eq != nil {
			p += fmt.Sprintf("=%d", v.eq.id)
		}
		for _, n := range v.neq {
			p += fmt.Sprintf("!%d", n.id)
		}
		parts = append(parts, p)
	}
	for k := range s.ex {
		parts = append(parts, fmt.Sprintf("x%d,%d,%v", k.t.id, k.val.id, k.eq))
	}
	for k, v := range s.hav {
		parts = append(parts, fmt.Sprintf("h%d=%d", k.id, v))
	}
	sort.Strings(parts)
	var b strings.Builder
	for _, p := range parts {
		b.WriteString(p)
		b.WriteByte(';')
	}
	for _, e := range s.events {
		b.WriteString(e.key)
		b.WriteByte(';')
	}
	for _, l := range s.locks {
		fmt.Fprintf(&b, "L%d%c;", l.addr.id, l.mode)
	}
	return b.String()
}

type Outcome struct {
	st    *State
	ret   *Term
	panic bool
}

func (o Outcome) res(i int) *Term {
	if o.ret == nil {
		return kNil
	}
	if o.ret.op == OpTuple {
		return o.ret.args[i]
	}
	if i == 0 {
		return o.ret
	}
	return ext(o.ret, i)
}

type deferred struct {
	fn   *Term
	args []*Term
	cc   *ssa.CallCommon
	in   ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	ctx    string
	args   []*Term
	free   []*Term
	nest   []nestKey
	stack  []string
	parent *Frame
	depth  int
}

type model func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool)

type Engine struct {
	dbgHdr   func(fr *Frame, to *ssa.BasicBlock, en env, st *State)
	P        *Program
	models   map[string]model // by short callee name
	boundary func(name string) bool
	onCall   func(ev *Event, st *State)
	onStore  func(fr *Frame, in ssa.Instruction, addr, val *Term, st *State)
	onLoad   func(fr *Frame, in ssa.Instruction, addr *Term, st *State)
	onDeref  func(fr *Frame, in ssa.Instruction, ptr *Term, st *State)
	onIndex  func(fr *Frame, in ssa.Instruction, base, idx *Term, st *State)
	// onRisk is told about slicing, indexing of strings, writing to maps and
	// unchecked type assertions
	onRisk  func(fr *Frame, in ssa.Instruction, kind string, args []*Term, st *State)
	onEnter func(fr *Frame, st *State)
	onBack  func(it *iteration)
	// devirt resolves an interface method call on an unknown receiver.
	devirt func(m *types.Func, recv *Term) *ssa.Function

	// noKill: calls of the named external function do not modify what
	// their arguments refer to.
	// changes is told of every opaque call, after it, and may note what
	// it changed
	changes func(name string, args []*Term, st *State)
	// onHead sees the state a loop is entered or repeated with, and may
	// replace what the loop changes by arbitrary values: what then holds
	// for one iteration holds for all
	onHead func(fr *Frame, to *ssa.BasicBlock, back bool, en env, st *State)
	// appending to lists of this type keeps the order of what was appended
	seqAppend func(t types.Type) bool
	noKill    func(name string) bool

	keepLogs   bool
	maxDepth   int
	budget     int
	steps      int
	failed     string
	dyn        *Term
	loopsNow   []nestKey // while a call is recorded
	loopsKnown bool
	unknown    map[string]int // opaque in-module callees by reason
	fnsSeen    map[*ssa.Function]bool
	opaque     map[string]bool
}

func newEngine(P *Program) *Engine {
	budget := 400000
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget *= 10
	}
	return &Engine{P: P, models: map[string]model{}, maxDepth: 14, budget: budget, unknown: map[string]int{}, fnsSeen: map[*ssa.Function]bool{}, opaque: map[string]bool{}}
}

// ---- facts ----

func (s *State) resolve(t *Term) *Term {
	if f, ok := s.facts[t]; ok && f.eq != nil {
		return f.eq
	}
	return t
}

// fold: the value with what is known of the parts it is made of.
func (s *State) fold(t *Term) *Term {
	t = s.resolve(t)
	if t.op == OpPure && t.s == "concat" {
		var l []*Term
		for _, a := range t.args {
			l = append(l, s.fold(a))
		}
		return mkConcat(l)
	}
	return t
}

func isVolatileSome(t *Term) bool { return false }

// known evaluates a boolean term: 1 true, 0 false, -1 unknown.
func (s *State) known(t *Term) int {
	t = s.resolve(t)
	switch t.op {
	case OpConst:
		if t.c != nil && t.c.Kind() == constant.Bool {
			if constant.BoolVal(t.c) {
				return 1
			}
			return 0
		}
	case OpUn:
		if t.s == "!" {
			k := s.known(t.args[0])
			if k >= 0 {
				return 1 - k
			}
		}
	case OpBin:
		if t.s == "==" {
			return s.eqKnown(t, t.args[0], t.args[1])
		}
		a, b := s.resolve(t.args[0]), s.resolve(t.args[1])
		if a != t.args[0] || b != t.args[1] {
			if r := foldBin(t.s, a, b); r != nil && r.isConst() {
				return s.known(r)
			}
		}
	}
	return -1
}

func (s *State) eqKnown(t, a, b *Term) int {
	if a == b {
		return 1
	}
	a0, b0 := a, b
	a, b = s.resolve(a), s.resolve(b)
	if a == b {
		return 1
	}
	if a.distinct() && b.distinct() {
		return 0
	}
	if a.isNil() && b.nonNil() || b.isNil() && a.nonNil() {
		return 0
	}
	for _, p := range [][2]*Term{{a0, b}, {b0, a}} {
		if f, ok := s.facts[p[0]]; ok {
			for _, n := range f.neq {
				if n == p[1] {
					return 0
				}
			}
		}
	}
	return -1
}

// assume records that the boolean term t has value v; it returns false
// if that contradicts what is already known.
func (s *State) assume(t *Term, v bool) bool {
	for t.op == OpUn && t.s == "!" {
		t = t.args[0]
		v = !v
	}
	if k := s.known(t); k >= 0 {
		return (k == 1) == v
	}
	if t.op == OpBin && t.s == "==" {
		a, b := t.args[0], t.args[1]
		if b.distinct() && !a.distinct() {
			s.setFact(a, b, v)
			return true
		}
		if a.distinct() && !b.distinct() {
			s.setFact(b, a, v)
			return true
		}
		s.facts[t] = fact{eq: kBool(v)}
		return true
	}
	s.facts[t] = fact{eq: kBool(v)}
	return true
}

func (s *State) setFact(t, c *Term, eq bool) {
	f := s.facts[t]
	if eq {
		s.facts[t] = fact{eq: c}
		return
	}
	for _, n := range f.neq {
		if n == c {
			return
		}
	}
	nn := append(append([]*Term{}, f.neq...), c)
	sort.Slice(nn, func(i, j int) bool { return nn[i].id < nn[j].id })
	s.facts[t] = fact{eq: f.eq, neq: nn}
}

// isNilKnown: 1 nil, 0 not nil, -1 unknown
func (s *State) nilness(t *Term) int { return s.eqKnown(nil, t, kNil) }

// ---- memory ----

// epoch sums the invalidations of all regions an address lies in.
func (s *State) epoch(a *Term) int {
	n := 0
	for a != nil {
		n += s.hav[a]
		switch a.op {
		case OpField, OpElem, OpDeref, OpMapElem, OpSlice, OpFVal, OpAssert, OpMkIface, OpExt, OpConv, OpSome:
			a = a.args[0]
		default:
			a = nil
		}
	}
	return n
}

func rootOf(a *Term) *Term {
	for {
		switch a.op {
		case OpField, OpElem, OpDeref, OpMapElem, OpSlice, OpFVal, OpAssert, OpMkIface, OpConv, OpSome:
			a = a.args[0]
		default:
			return a
		}
	}
}

// allocBase: the allocation an address lies directly inside (not behind
// another pointer), or nil.
func allocBase(a *Term) *Term {
	for {
		switch a.op {
		case OpField, OpElem:
			a = a.args[0]
		case OpSlice:
			a = a.args[0]
		case OpSome:
			a = a.args[0]
		case OpAlloc, OpMake:
			return a
		default:
			return nil
		}
	}
}

func fieldName(st types.Type, i int) string {
	if s, ok := st.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func mkField(base *Term, name string, typ types.Type) *Term {
	return mk(Term{op: OpField, s: name, args: []*Term{base}, typ: typ})
}

// load reads the value of type typ at address a.
func (e *Engine) load(s *State, a *Term, typ types.Type) *Term {
	if v, ok := s.mem[a]; ok {
		return v
	}
	if a.op == OpGlobal {
		if v := e.globalValue(a); v != nil {
			return v
		}
	}
	// part of a struct that was stored as a whole
	if a.op == OpField {
		if b, ok := s.mem[a.args[0]]; ok {
			return fval(b, a.s, typ)
		}
	}
	if st, ok := typ.Underlying().(*types.Struct); ok {
		// assemble from the fields
		any := false
		for i := 0; i < st.NumFields(); i++ {
			if e.hasSub(s, mkField(a, st.Field(i).Name(), nil)) {
				any = true
			}
		}
		if any {
			fs := make([]*Term, st.NumFields())
			for i := range fs {
				fs[i] = e.load(s, mkField(a, st.Field(i).Name(), nil), st.Field(i).Type())
			}
			return mk(Term{op: OpStruct, typ: typ, args: fs})
		}
	}
	if arr, ok := typ.Underlying().(*types.Array); ok && arr.Len() <= 32 {
		// assemble from the elements
		for k := range s.mem {
			if k.op != OpElem || k.args[0] != a {
				continue
			}
			es := make([]*Term, arr.Len())
			for i := range es {
				es[i] = e.load(s, mk(Term{op: OpElem, args: []*Term{a, kInt(int64(i))}, typ: arr.Elem()}), arr.Elem())
			}
			return mk(Term{op: OpTuple, typ: typ, args: es})
		}
	}
	if a.op == OpElem {
		if b, ok := s.mem[a.args[0]]; ok && b.typ != nil {
			// element of an array that was stored as a whole
			if _, isArr := b.typ.Underlying().(*types.Array); isArr {
				if i, ok := a.args[1].intv(); ok && b.op == OpTuple && i >= 0 && int(i) < len(b.args) {
					return b.args[i]
				}
				if b.op == OpZero {
					return zeroOf(typ)
				}
			}
		}
		// an element of known content
		if v := e.loadElem(s, a, typ); v != nil {
			return v
		}
	}
	ep := s.epoch(a)
	if ep == 0 {
		if b := allocBase(a); b != nil && (b.op == OpAlloc || b.op == OpMake) {
			return zeroOf(typ)
		}
	}
	if a.isNil() {
		return zeroOf(typ)
	}
	return mk(Term{op: OpDeref, n: ep, args: []*Term{a}, typ: typ})
}

func (e *Engine) hasSub(s *State, a *Term) bool {
	if _, ok := s.mem[a]; ok {
		return true
	}
	for k := range s.mem {
		for x := k; x.op == OpField; x = x.args[0] {
			if x == a {
				return true
			}
		}
	}
	return false
}

// loadElem: element reads with an index that has no entry of its own
// join over the entries of the same base.
func (e *Engine) loadElem(s *State, a *Term, typ types.Type) *Term {
	base := a.args[0]
	if base.op == OpSlice {
		base = base.args[0]
	}
	if _, isc := a.args[1].intv(); isc && base != a.args[0] {
		// t[:] of an array: same index
		if a.args[0].args[1].isNil() {
			n := mk(Term{op: OpElem, args: []*Term{base, a.args[1]}, typ: a.typ})
			if v, ok := s.mem[n]; ok {
				return v
			}
		}
	}
	var vals []*Term
	for k, v := range s.mem {
		if k.op == OpElem && (k.args[0] == base || k.args[0] == a.args[0]) {
			vals = append(vals, v)
		}
	}
	if base.op == OpAppend {
		if i, isc := a.args[1].intv(); isc && (base.args[0].isNil()) && int(i) < len(base.args)-1 {
			v := base.args[1+int(i)]
			if len(v.some) == 0 {
				return v
			}
		}
		return nil
	}
	if len(vals) == 0 {
		return nil
	}
	if _, isc := a.args[1].intv(); isc && s.epoch(base) == 0 && base.op == OpAlloc {
		allc := true
		for k := range s.mem {
			if k.op == OpElem && k.args[0] == base {
				if _, c := k.args[1].intv(); !c {
					allc = false
				}
			}
		}
		if allc {
			return nil // distinct constant index: still zero
		}
	}
	return joinTerms(vals, typ)
}

func joinTerms(vals []*Term, typ types.Type) *Term {
	set := map[*Term]bool{}
	for _, v := range vals {
		if v.op == OpOpaque && v.s == "join" {
			for _, x := range v.args {
				set[x] = true
			}
		} else {
			set[v] = true
		}
	}
	var l []*Term
	for v := range set {
		l = append(l, v)
	}
	if len(l) == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	if len(l) > 12 {
		return mk(Term{op: OpOpaque, s: "many", typ: typ})
	}
	return mk(Term{op: OpOpaque, s: "join", args: l, typ: typ})
}

// alts lists the alternatives of a joined value.
func alts(t *Term) []*Term {
	if t.op == OpOpaque && t.s == "join" {
		return t.args
	}
	return []*Term{t}
}

func fval(b *Term, name string, typ types.Type) *Term {
	if b.op == OpStruct {
		if st, ok := b.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return b.args[i]
				}
			}
		}
	}
	if b.op == OpZero && typ != nil {
		return zeroOf(typ)
	}
	if b.op == OpDeref {
		// field of a struct loaded from memory
		return mk(Term{op: OpDeref, n: b.n, args: []*Term{mkField(b.args[0], name, nil)}, typ: typ})
	}
	return mk(Term{op: OpFVal, s: name, args: []*Term{b}, typ: typ})
}

func (e *Engine) store(s *State, a, v *Term, typ types.Type) {
	if v.depth > 24 {
		v = mk(Term{op: OpOpaque, s: fmt.Sprintf("deep%d", a.id), typ: typ})
	}
	// drop parts
	if _, ok := typ.Underlying().(*types.Struct); ok {
		for k := range s.mem {
			for x := k; x.op == OpField; {
				x = x.args[0]
				if x == a {
					delete(s.mem, k)
					break
				}
			}
		}
		if v.op == OpStruct {
			st := v.typ.Underlying().(*types.Struct)
			delete(s.mem, a)
			for i, f := range v.args {
				e.store(s, mkField(a, st.Field(i).Name(), nil), f, st.Field(i).Type())
			}
			return
		}
	}
	if arr, ok := typ.Underlying().(*types.Array); ok && v.op == OpTuple && len(v.args) == int(arr.Len()) {
		for k := range s.mem {
			if k.op == OpElem && k.args[0] == a {
				delete(s.mem, k)
			}
		}
		delete(s.mem, a)
		for i, x := range v.args {
			e.store(s, mk(Term{op: OpElem, args: []*Term{a, kInt(int64(i))}, typ: arr.Elem()}), x, arr.Elem())
		}
		return
	}
	if a.op == OpField {
		// a struct stored as a whole is split up when a part is replaced
		if b, ok := s.mem[a.args[0]]; ok {
			base := a.args[0]
			delete(s.mem, base)
			if b.typ != nil {
				if st, ok := b.typ.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						s.mem[mkField(base, st.Field(i).Name(), nil)] = fval(b, st.Field(i).Name(), st.Field(i).Type())
					}
				}
			}
		}
	}
	if a.op == OpElem {
		// an array stored as a whole is split up when an element is replaced
		if b, ok := s.mem[a.args[0]]; ok && b.typ != nil {
			if arr, ok := b.typ.Underlying().(*types.Array); ok && arr.Len() <= 32 && (b.op == OpZero || b.op == OpTuple) {
				delete(s.mem, a.args[0])
				for i := int64(0); i < arr.Len(); i++ {
					x := zeroOf(arr.Elem())
					if b.op == OpTuple {
						x = b.args[i]
					}
					s.mem[mk(Term{op: OpElem, args: []*Term{a.args[0], kInt(i)}, typ: arr.Elem()})] = x
				}
			}
		}
	}
	s.mem[a] = v
}

// kill forgets everything stored below address or reference a.
func (e *Engine) kill(s *State, a *Term) {
	if a == nil || a.isConst() || a.op == OpFn || a.op == OpGVal {
		return
	}
	seen := map[*Term]bool{}
	var k func(a *Term)
	k = func(a *Term) {
		if seen[a] {
			return
		}
		seen[a] = true
		switch a.op {
		case OpMkIface, OpConv:
			k(a.args[0])
			return
		case OpConst, OpFn, OpGVal, OpPure:
			return
		case OpAppend, OpTuple, OpStruct, OpOpaque:
			for _, x := range a.args {
				k(x)
			}
			if a.op != OpAppend {
				return
			}
		}
		s.hav[a]++
		if s.hav[a] > 3 {
			s.hav[a] = 3
		}
		var below []*Term
		for m, v := range s.mem {
			for x := m; ; {
				if x == a {
					below = append(below, v)
					delete(s.mem, m)
					break
				}
				if x.op == OpField || x.op == OpElem || x.op == OpMapElem || x.op == OpSlice {
					x = x.args[0]
				} else {
					break
				}
			}
		}
		for _, v := range below {
			switch v.op {
			case OpAlloc, OpMake, OpMkIface, OpAppend, OpSlice:
				k(v)
			}
		}
	}
	k(a)
}

func (e *Engine) globalValue(a *Term) *Term {
	g, _ := a.fn.(*ssa.Global)
	if g == nil {
		return nil
	}
	if g.Pkg != nil && !e.P.moduleGlobal(g) {
		// variables of other packages: treated as fixed values
		n := 0
		if types.Identical(g.Type().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type()) {
			n = 1
		}
		return mk(Term{op: OpGVal, s: a.s, n: n, typ: g.Type().(*types.Pointer).Elem(), fn: g})
	}
	if e.P.gescape[g] {
		return nil
	}
	for _, st := range e.P.gstores[g] {
		f := st.Parent()
		if f.Name() != "init" || f.Parent() != nil {
			return nil
		}
	}
	if len(e.P.gstores[g]) > 1 {
		return nil
	}
	n := 0
	if len(e.P.gstores[g]) == 1 {
		v := e.P.gstores[g][0].Val
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
			n = 1
		}
		if c, ok := v.(*ssa.Call); ok {
			if cal := c.Call.StaticCallee(); cal != nil {
				switch cal.String() {
				case "errors.New", "fmt.Errorf":
					n = 1
				case "google.golang.org/grpc/status.Errorf", "google.golang.org/grpc/status.Error":
					n = 1
					// codes.OK would yield nil
					if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "0" {
						n = 0
					}
				}
			}
		}
		if c, ok := v.(*ssa.Const); ok {
			if c.Value != nil {
				return e.constTerm(c)
			}
		}
	}
	return mk(Term{op: OpGVal, s: a.s, n: n, typ: g.Type().(*types.Pointer).Elem(), fn: g})
}

func (P *Program) moduleGlobal(g *ssa.Global) bool {
	return strings.HasPrefix(g.Pkg.Pkg.Path()+"/", modPath)
}

// ---- values ----

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	return kConst(c.Value, c.Type())
}

func globalTerm(g *ssa.Global) *Term {
	return mk(Term{op: OpGlobal, s: shortName(g.String()), typ: g.Type(), fn: g})
}

type env map[ssa.Value]*Term

func (e *Engine) val(fr *Frame, en env, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constTerm(v)
	case *ssa.Global:
		return globalTerm(v)
	case *ssa.Function:
		return mk(Term{op: OpFn, s: v.String(), fn: v, typ: v.Type()})
	case *ssa.Builtin:
		return mk(Term{op: OpFn, s: "builtin " + v.Name(), fn: v})
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == v {
				return fr.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == v {
				if i < len(fr.free) {
					return fr.free[i]
				}
				return mk(Term{op: OpParam, s: fr.ctx + "free:" + v.Name(), typ: v.Type()})
			}
		}
	}
	if t, ok := en[v]; ok {
		return t
	}
	return mk(Term{op: OpOpaque, s: fr.ctx + "?" + v.Name(), typ: v.Type()})
}

func ext(t *Term, i int) *Term {
	switch t.op {
	case OpTuple:
		if i < len(t.args) {
			return t.args[i]
		}
	case OpSome:
	}
	return mk(Term{op: OpExt, n: i, args: []*Term{t}})
}

func mkNot(t *Term) *Term {
	if t == kTrue {
		return kFalse
	}
	if t == kFalse {
		return kTrue
	}
	if t.op == OpUn && t.s == "!" {
		return t.args[0]
	}
	return mk(Term{op: OpUn, s: "!", args: []*Term{t}, typ: types.Typ[types.Bool]})
}

func mkEq(a, b *Term) *Term {
	if a == b && a.op != OpOpaque {
		return kTrue
	}
	for a.op == OpMkIface && b.op == OpMkIface && types.Identical(a.typ, b.typ) {
		a, b = a.args[0], b.args[0]
	}
	if a == b {
		return kTrue
	}
	if a.distinct() && b.distinct() {
		return kFalse
	}
	if a.isNil() && b.nonNil() || b.isNil() && a.nonNil() {
		return kFalse
	}
	// len(s) == 0 for strings is s == ""
	if b.op == OpPure && b.s == "len" {
		a, b = b, a
	}
	if a.op == OpPure && a.s == "len" {
		if n, ok := b.intv(); ok && n == 0 && isString(a.args[0].typ) {
			return mkEq(a.args[0], kString(""))
		}
	}
	// b == true
	if b == kTrue {
		return a
	}
	if a == kTrue {
		return b
	}
	if b == kFalse {
		return mkNot(a)
	}
	if a == kFalse {
		return mkNot(b)
	}
	if a.distinct() && !b.distinct() {
		a, b = b, a
	} else if a.distinct() == b.distinct() && a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OpBin, s: "==", args: []*Term{a, b}, typ: types.Typ[types.Bool]})
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func foldBin(op string, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && a.c != nil && b.c != nil {
		switch op {
		case "<", "<=", ">", ">=", "==", "!=":
			if a.c.Kind() == b.c.Kind() || (a.c.Kind() != constant.String && a.c.Kind() != constant.Bool && b.c.Kind() != constant.String && b.c.Kind() != constant.Bool) {
				if a.c.Kind() == constant.Bool && op != "==" && op != "!=" {
					return nil
				}
				m := map[string]token.Token{"<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ, "==": token.EQL, "!=": token.NEQ}
				return kBool(constant.Compare(a.c, m[op], b.c))
			}
		case "+", "-", "*", "|", "&", "^":
			m := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "|": token.OR, "&": token.AND, "^": token.XOR}
			if a.c.Kind() == constant.Int && b.c.Kind() == constant.Int || op == "+" && a.c.Kind() == constant.String && b.c.Kind() == constant.String {
				return kConst(constant.BinaryOp(a.c, m[op], b.c), a.typ)
			}
		}
	}
	return nil
}

func mkBin(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.GTR:
		return mkBin(token.LSS, b, a, typ)
	case token.GEQ:
		return mkNot(mkBin(token.LSS, a, b, typ))
	case token.LEQ:
		return mkNot(mkBin(token.LSS, b, a, typ))
	}
	if r := foldBin(op.String(), a, b); r != nil {
		return r
	}
	if op == token.LSS {
		if n, ok := b.intv(); ok && n <= 0 && a.op == OpPure && a.s == "len" {
			return kFalse
		}
		if n, ok := a.intv(); ok && n < 0 && b.op == OpPure && b.s == "len" {
			return kTrue
		}
		// 0 < len(s)  is  s != ""
		if n, ok := a.intv(); ok && n == 0 && b.op == OpPure && b.s == "len" {
			if isString(b.args[0].typ) {
				return mkNot(mkEq(b.args[0], kString("")))
			}
			return mkNot(mkEq(b, kInt(0)))
		}
		// len(s) < 1
		if n, ok := b.intv(); ok && n == 1 && a.op == OpPure && a.s == "len" {
			if isString(a.args[0].typ) {
				return mkEq(a.args[0], kString(""))
			}
			return mkEq(a, kInt(0))
		}
	}
	if op == token.ADD && isString(typ) {
		return mkConcat([]*Term{a, b})
	}
	if op == token.ADD || op == token.MUL || op == token.OR || op == token.AND {
		if !isString(typ) && a.id > b.id {
			a, b = b, a
		}
	}
	return mk(Term{op: OpBin, s: op.String(), args: []*Term{a, b}, typ: typ})
}

// ---- execution ----

type item struct {
	blk *ssa.BasicBlock
	en  env
	st  *State
	def []deferred
}

func (e *Engine) site(fr *Frame, in ssa.Instruction) string {
	b := in.Block()
	idx := 0
	for i, x := range b.Instrs {
		if x == in {
			idx = i
		}
	}
	return fmt.Sprintf("%s:%s:%d.%d", fr.ctx, fnName(fr.fn), b.Index, idx)
}

func (fr *Frame) loopsAt(P *Program, b *ssa.BasicBlock) []nestKey {
	l := P.loopsOf(fr.fn).inLoops[b.Index]
	out := fr.nest
	for _, h := range l {
		out = append(out[:len(out):len(out)], nestKey{fr.ctx, h})
	}
	return out
}

// run analyses fn as an entry point.
func (e *Engine) run(fn *ssa.Function, args []*Term, st *State) []Outcome {
	fr := &Frame{fn: fn, ctx: "", args: args, stack: []string{fnName(fn)}}
	return e.exec(fr, st)
}

// entryArgs makes symbolic arguments.
func entryArgs(fn *ssa.Function) []*Term {
	var out []*Term
	for _, p := range fn.Params {
		out = append(out, mk(Term{op: OpParam, s: p.Name(), typ: p.Type()}))
	}
	return out
}

func (e *Engine) exec(fr *Frame, st *State) []Outcome {
	fn := fr.fn
	e.fnsSeen[fn] = true
	if e.onEnter != nil {
		e.onEnter(fr, st)
	}
	li := e.P.loopsOf(fn)
	live := e.P.liveIn(fn)
	rpo := rpoOrder(fn)
	pending := make([][]item, len(fn.Blocks))
	seen := map[string]bool{}
	visits := map[int]int{}
	var outs []Outcome
	outSeen := map[string]bool{}
	addOut := func(o Outcome) {
		k := o.st.key()
		if o.ret != nil {
			k += fmt.Sprintf("R%d", o.ret.id)
		}
		if o.panic {
			k += "P"
		}
		if !outSeen[k] {
			outSeen[k] = true
			outs = append(outs, o)
		}
	}
	push := func(from *ssa.BasicBlock, to *ssa.BasicBlock, en env, st *State, def []deferred) {
		if li.header[to.Index] && from != nil && to.Dominates(from) {
			if e.onBack != nil {
				e.recordIteration(fr, from, to, en, st)
			}
			// back edge: values of this iteration become values of an earlier one
			if !e.singleRun(fr, to, en) {
				g := &ager{nestKey{fr.ctx, to.Index}, map[*Term]*Term{}}
				en, st, def = ageAll(g, en, st, def)
			}
		}
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		ne := env{}
		lv := live[to.Index]
		for v := range lv {
			if t, ok := en[v]; ok {
				ne[v] = t
			}
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := e.val(fr, en, ph.Edges[pi])
			if li.header[to.Index] {
				v = e.loopPhi(fr, ph, v, li, en)
			}
			ne[ph] = v
		}
		if li.header[to.Index] {
			if e.onHead != nil {
				st = st.clone()
				e.onHead(fr, to, from != nil && to.Dominates(from), ne, st)
			}
			fr.collect(ne, st, def)
		}
		var ks []string
		for v, t := range ne {
			ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), t.id))
		}
		sort.Strings(ks)
		dk := ""
		for _, d := range def {
			dk += fmt.Sprintf("D%p:", d.in)
			for _, a := range d.args {
				dk += fmt.Sprintf("%d,", a.id)
			}
		}
		k := fmt.Sprintf("%d|", to.Index) + strings.Join(ks, ",") + "|" + st.key() + dk
		if seen[k] {
			return
		}
		seen[k] = true
		visits[to.Index]++
		if li.header[to.Index] && e.dbgHdr != nil {
			e.dbgHdr(fr, to, ne, st)
		}
		if visits[to.Index] > 6000 {
			e.fail("too many states in " + fnName(fn))
			return
		}
		pending[to.Index] = append(pending[to.Index], item{to, ne, st, def})
	}
	push(nil, fn.Blocks[0], env{}, st, nil)
	for e.failed == "" {
		// earliest block in reverse postorder
		best := -1
		for _, bi := range rpo {
			if len(pending[bi]) > 0 {
				best = bi
				break
			}
		}
		if best < 0 {
			break
		}
		q := pending[best]
		it := q[0]
		pending[best] = q[1:]
		e.steps++
		if e.steps > e.budget {
			e.fail("analysis budget exceeded at " + fnName(fn))
			break
		}
		e.block(fr, it, push, addOut)
	}
	return outs
}

func (e *Engine) fail(msg string) {
	if e.failed == "" {
		e.failed = msg
	}
}

func rpoOrder(fn *ssa.Function) []int {
	seen := map[int]bool{}
	var post []int
	var w func(b *ssa.BasicBlock)
	w = func(b *ssa.BasicBlock) {
		if seen[b.Index] {
			return
		}
		seen[b.Index] = true
		for _, s := range b.Succs {
			w(s)
		}
		post = append(post, b.Index)
	}
	w(fn.Blocks[0])
	if fn.Recover != nil {
		w(fn.Recover)
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// fixedBound: the loop runs a small number of times that is known when
// it is entered (a loop over a list literal).
func (e *Engine) fixedBound(fr *Frame, hdr *ssa.BasicBlock, en env) bool {
	iff, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return false
	}
	n, ok := e.val(fr, en, bo.Y).intv()
	return ok && n <= 3
}

// loopCond gives the condition of a loop over the indices of a list a
// canonical form: idx < len(list) if every element is visited, whatever
// the direction, and a comparison of its own otherwise.
func (e *Engine) loopCond(fr *Frame, en env, sh *loopShape, bo *ssa.BinOp, t *Term) *Term {
	neg := false
	u := t
	if u.op == OpUn && u.s == "!" {
		neg, u = true, u.args[0]
	}
	if u.op != OpBin || u.s != "<" && u.s != "==" {
		return t
	}
	isIdx := func(v ssa.Value) bool { return v == sh.idx }
	var idx *Term
	if isIdx(bo.X) || isIdx(bo.Y) {
		idx = e.val(fr, en, sh.idx)
	}
	if idx == nil || idx.isConst() {
		return t
	}
	if !sh.full {
		n := *u
		n.id, n.vol, n.some, n.depth = 0, nil, nil, 0
		n.s += "p"
		r := mk(n)
		if neg {
			return mkNot(r)
		}
		return r
	}
	var list *Term
	if _, isc := sh.list.(*ssa.Const); isc {
		list = e.val(fr, en, sh.list)
	} else if v, ok := en[sh.list]; ok {
		list = v
	} else if _, ok := sh.list.(*ssa.Parameter); ok {
		list = e.val(fr, en, sh.list)
	} else if !sh.down {
		// the length as it was compared
		for _, a := range u.args {
			if a.op == OpPure && a.s == "len" {
				list = a.args[0]
			}
		}
	}
	if list == nil {
		return t
	}
	ln := mk(Term{op: OpPure, s: "len", args: []*Term{list}, typ: types.Typ[types.Int]})
	c := mk(Term{op: OpBin, s: "<", args: []*Term{idx, ln}, typ: types.Typ[types.Bool]})
	// does the comparison being true mean that the loop goes on?
	hdr := bo.Block()
	goes := fr.inLoop(e.P, hdr, hdr.Succs[0])
	if goes {
		return c
	}
	return mkNot(c)
}

// inLoop: block b belongs to the loop with header hdr.
func (fr *Frame) inLoop(P *Program, hdr, b *ssa.BasicBlock) bool {
	for _, h := range P.loopsOf(fr.fn).inLoops[b.Index] {
		if h == hdr.Index {
			return true
		}
	}
	return false
}

// singleRun: the loop body runs at most once.
func (e *Engine) singleRun(fr *Frame, hdr *ssa.BasicBlock, en env) bool {
	iff, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return false
	}
	n, ok := e.val(fr, en, bo.Y).intv()
	return ok && n <= 1 && e.fixedBound(fr, hdr, en)
}

// counts: the loop variable is computed from its former value.
func counts(ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value, arith bool) bool
	from = func(v ssa.Value, arith bool) bool {
		if v == ph && arith {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.BinOp:
			return from(v.X, true) || from(v.Y, true)
		case *ssa.Phi:
			for _, x := range v.Edges {
				if (x == ph) && arith || x != ph && from(x, arith) {
					return true
				}
			}
		case *ssa.Convert:
			return from(v.X, arith)
		}
		return false
	}
	for _, x := range ph.Edges {
		if x != ph && from(x, false) {
			return true
		}
	}
	return false
}

func (e *Engine) loopPhi(fr *Frame, ph *ssa.Phi, v *Term, li *loopInfo, en env) *Term {
	nest := fr.loopsAt(e.P, ph.Block())
	widen := mk(Term{op: OpLoop, s: fr.ctx + fnName(fr.fn) + "." + ph.Name(), nest: nest, typ: ph.Type()})
	if b, ok := ph.Type().Underlying().(*types.Basic); ok {
		if b.Info()&types.IsNumeric != 0 {
			// counters
			if counts(ph) {
				if n, isc := v.intv(); isc && n <= 3 && e.fixedBound(fr, ph.Block(), en) {
					return v
				}
				return widen
			}
		}
	}
	if v.op == OpAppend {
		// a list built in a loop: how often an element was added is not kept
		var out []*Term
		had := map[*Term]int{}
		for _, x := range v.args[1:] {
			i, ok := had[un(x)]
			if !ok {
				had[un(x)] = len(out)
				out = append(out, x)
				continue
			}
			if y := out[i]; len(y.some) == 0 {
				out[i] = mk(Term{op: OpSome, args: []*Term{un(y)}, some: []nestKey{{fr.ctx, ph.Block().Index}}, vol: y.vol, typ: y.typ})
			}
		}
		if len(out) < len(v.args)-1 {
			v = mk(Term{op: OpAppend, args: append([]*Term{v.args[0]}, out...), typ: v.typ})
		}
	}
	if v.depth > 10 && v.op != OpAppend || v.depth > 18 {
		return widen
	}
	return v
}

func ageAll(g *ager, en env, st *State, def []deferred) (env, *State, []deferred) {
	ne := env{}
	for k, v := range en {
		ne[k] = g.age(v)
	}
	n := newState()
	n.trail = st.trail
	coll := map[*Term][]*Term{}
	for k, v := range st.mem {
		nk := g.age(k)
		coll[nk] = append(coll[nk], g.age(v))
	}
	for k, vs := range coll {
		if len(vs) == 1 {
			n.mem[k] = vs[0]
		} else {
			n.mem[k] = joinTerms(vs, k.typ)
		}
	}
	for k, v := range st.hav {
		nk := g.age(k)
		if v > n.hav[nk] {
			n.hav[nk] = v
		}
	}
	addEx := func(t *Term, f fact) {
		if f.eq != nil {
			n.ex[exLit{t, g.age(f.eq), true}] = true
		}
		for _, x := range f.neq {
			n.ex[exLit{t, g.age(x), false}] = true
		}
	}
	for k, f := range st.facts {
		if hasNest(k.vol, g.k) || hasNest(k.some, g.k) {
			addEx(g.age(k), f)
			continue
		}
		n.facts[k] = f
	}
	for k := range st.ex {
		n.ex[exLit{g.age(k.t), g.age(k.val), k.eq}] = true
	}
	have := map[string]bool{}
	for _, ev := range st.events {
		ne := ev
		ch := false
		args := make([]*Term, len(ev.args))
		for i, a := range ev.args {
			args[i] = g.age(a)
			if args[i] != a {
				ch = true
			}
		}
		r := ev.res
		if r != nil {
			r = g.age(r)
			ch = ch || r != ev.res
		}
		fv := ev.fval
		if fv != nil {
			fv = g.age(fv)
			ch = ch || fv != ev.fval
		}
		if ch {
			c := *ev
			c.args, c.res, c.fval = args, r, fv
			c.key = eventKey(&c)
			ne = &c
		}
		if have[ne.key] {
			continue
		}
		have[ne.key] = true
		n.events = append(n.events, ne)
	}
	for _, l := range st.locks {
		n.locks = append(n.locks, lockHeld{g.age(l.addr), l.mode, l.pos})
	}
	var nd []deferred
	for _, d := range def {
		c := d
		c.args = nil
		for _, a := range d.args {
			c.args = append(c.args, g.age(a))
		}
		if d.fn != nil {
			c.fn = g.age(d.fn)
		}
		nd = append(nd, c)
	}
	return ne, n, nd
}

func eventKey(ev *Event) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %d(", ev.kind, ev.name, ev.pos)
	for _, a := range ev.args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	if ev.res != nil {
		fmt.Fprintf(&b, ")%d", ev.res.id)
	}
	if ev.fval != nil {
		fmt.Fprintf(&b, "=%d", ev.fval.id)
	}
	b.WriteString(strings.Join(ev.stack, ">"))
	return b.String()
}

func (e *Engine) addEvent(fr *Frame, st *State, kind, name string, f *types.Func, args []*Term, res *Term, pos token.Pos) *Event {
	ev := &Event{kind: kind, name: name, fn: f, args: args, res: res, pos: pos, in: fr.fn, stack: fr.stack, fr: fr, fval: e.dyn}
	if e.loopsKnown {
		ev.loops, ev.known = e.loopsNow, true
	}
	ev.key = eventKey(ev)
	if e.onCall != nil {
		e.onCall(ev, st)
	}
	for _, o := range st.events {
		if o.key == ev.key {
			return ev
		}
	}
	st.events = append(st.events, ev)
	return ev
}

func (e *Engine) block(fr *Frame, it item, push func(from, to *ssa.BasicBlock, en env, st *State, def []deferred), addOut func(Outcome)) {
	// a block is processed instruction by instruction; calls may split
	// the state.
	type cur struct {
		en  env
		st  *State
		def []deferred
		i   int
	}
	work := []cur{{it.en, it.st.clone(), it.def, 0}}
	b := it.blk
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		en, st := c.en, c.st
		i := c.i
	loop:
		for ; i < len(b.Instrs); i++ {
			if e.failed != "" {
				return
			}
			in := b.Instrs[i]
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				cond := e.val(fr, en, x.Cond)
				k := st.known(cond)
				if k != 0 {
					s2 := st.clone()
					if s2.assume(cond, true) {
						s2.trail = append(s2.trail, e.P.pos(condPos(x))+" "+cond.String())
						push(b, b.Succs[0], en, s2, c.def)
					}
				}
				if k != 1 {
					s2 := st.clone()
					if s2.assume(cond, false) {
						s2.trail = append(s2.trail, e.P.pos(condPos(x))+" not "+cond.String())
						push(b, b.Succs[1], en, s2, c.def)
					}
				}
				break loop
			case *ssa.Jump:
				push(b, b.Succs[0], en, st, c.def)
				break loop
			case *ssa.Return:
				var r *Term
				switch len(x.Results) {
				case 0:
				case 1:
					r = e.val(fr, en, x.Results[0])
				default:
					var a []*Term
					for _, v := range x.Results {
						a = append(a, e.val(fr, en, v))
					}
					r = mk(Term{op: OpTuple, args: a})
				}
				addOut(Outcome{st: st, ret: r})
				break loop
			case *ssa.Panic:
				e.addEvent(fr, st, "panic", "panic", nil, []*Term{e.val(fr, en, x.X)}, nil, x.Pos())
				addOut(Outcome{st: st, panic: true})
				break loop
			case *ssa.Defer:
				d := deferred{cc: &x.Call, in: x}
				d.fn, d.args = e.callParts(fr, en, &x.Call, st)
				c.def = append(c.def[:len(c.def):len(c.def)], d)
			case *ssa.RunDefers:
				outs := []Outcome{{st: st}}
				for k := len(c.def) - 1; k >= 0; k-- {
					d := c.def[k]
					var next []Outcome
					for _, o := range outs {
						for _, r := range e.call(fr, d.in.(ssa.CallInstruction), d.cc, d.fn, d.args, o.st) {
							if r.panic {
								addOut(r)
								continue
							}
							next = append(next, Outcome{st: r.st})
						}
					}
					outs = next
				}
				for k := 1; k < len(outs); k++ {
					work = append(work, cur{copyEnv(en), outs[k].st, nil, i + 1})
				}
				if len(outs) == 0 {
					break loop
				}
				st = outs[0].st
				c.def = nil
			case *ssa.Call:
				fnT, args := e.callParts(fr, en, &x.Call, st)
				outs := e.call(fr, x, &x.Call, fnT, args, st)
				var normal []Outcome
				for _, o := range outs {
					if o.panic {
						addOut(o)
					} else {
						normal = append(normal, o)
					}
				}
				if len(normal) == 0 {
					break loop
				}
				for k := 1; k < len(normal); k++ {
					ne := copyEnv(en)
					if normal[k].ret != nil {
						ne[x] = normal[k].ret
					}
					work = append(work, cur{ne, normal[k].st, c.def, i + 1})
				}
				st = normal[0].st
				en = copyEnv(en)
				if normal[0].ret != nil {
					en[x] = normal[0].ret
				}
			case *ssa.Go:
				fnT, args := e.callParts(fr, en, &x.Call, st)
				name := e.calleeName(&x.Call, fnT)
				e.addEvent(fr, st, "go", name, nil, append([]*Term{fnT}, args...), nil, x.Pos())
			case *ssa.Store:
				a := e.val(fr, en, x.Addr)
				v := e.val(fr, en, x.Val)
				e.deref(fr, in, a, st)
				if e.onStore != nil {
					e.onStore(fr, in, a, v, st)
				}
				e.store(st, a, v, x.Val.Type())
			case *ssa.MapUpdate:
				m := e.val(fr, en, x.Map)
				k := e.val(fr, en, x.Key)
				v := e.val(fr, en, x.Value)
				if e.onRisk != nil {
					e.onRisk(fr, in, "map", []*Term{m}, st)
				}
				a := mk(Term{op: OpMapElem, args: []*Term{m, k}, typ: x.Value.Type()})
				if e.onStore != nil {
					e.onStore(fr, in, a, v, st)
				}
				st.mem[a] = v
				if v.depth > 24 {
					st.mem[a] = mk(Term{op: OpOpaque, s: fmt.Sprintf("deep%d", a.id)})
				}
				if m.op != OpMake || true {
					e.addEvent(fr, st, "mapset", "mapset", nil, []*Term{m, k, v}, nil, x.Pos())
				}
			case *ssa.Send:
				e.addEvent(fr, st, "send", "send", nil, []*Term{e.val(fr, en, x.Chan), e.val(fr, en, x.X)}, nil, x.Pos())
			default:
				if v, ok := in.(ssa.Value); ok {
					t := e.eval(fr, en, st, v, in)
					en[v] = t
				}
			}
		}
	}
}

func condPos(x *ssa.If) token.Pos {
	if v, ok := x.Cond.(ssa.Instruction); ok && v.Pos().IsValid() {
		return v.Pos()
	}
	if u, ok := x.Cond.(*ssa.UnOp); ok && u.X.Pos().IsValid() {
		return u.X.Pos()
	}
	// fall back to the nearest position in the block
	for i := len(x.Block().Instrs) - 1; i >= 0; i-- {
		if p := x.Block().Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

func copyEnv(e env) env {
	n := make(env, len(e))
	for k, v := range e {
		n[k] = v
	}
	return n
}

func (e *Engine) deref(fr *Frame, in ssa.Instruction, p *Term, st *State) {
	if e.onDeref != nil {
		// the pointer actually dereferenced
		e.onDeref(fr, in, p, st)
	}
}

func (e *Engine) eval(fr *Frame, en env, st *State, v ssa.Value, in ssa.Instruction) *Term {
	nest := func() []nestKey { return fr.loopsAt(e.P, in.Block()) }
	switch x := v.(type) {
	case *ssa.Alloc:
		t := mk(Term{op: OpAlloc, s: e.site(fr, in), nest: nest(), typ: x.Type().(*types.Pointer).Elem()})
		// a fresh allocation: forget a previous incarnation
		if len(t.nest) > 0 || true {
			for k := range st.mem {
				y := k
				for y.op == OpField || y.op == OpElem {
					y = y.args[0]
				}
				if y == t {
					delete(st.mem, k)
				}
			}
			delete(st.hav, t)
		}
		return t
	case *ssa.BinOp:
		t := mkBin(x.Op, e.val(fr, en, x.X), e.val(fr, en, x.Y), x.Type())
		if sh := e.P.loopConds(fr.fn)[x]; sh != nil {
			t = e.loopCond(fr, en, sh, x, t)
		}
		return t
	case *ssa.UnOp:
		a := e.val(fr, en, x.X)
		switch x.Op {
		case token.MUL:
			e.deref(fr, in, a, st)
			if e.onLoad != nil {
				e.onLoad(fr, in, a, st)
			}
			return st.resolveConstOnly(e.load(st, a, x.Type()))
		case token.NOT:
			return mkNot(a)
		case token.ARROW:
			r := mk(Term{op: OpCall, s: "<-", n: 0, args: []*Term{a}, nest: nest(), typ: x.Type()})
			e.addEvent(fr, st, "recv", "recv", nil, []*Term{a}, r, x.Pos())
			if x.CommaOk {
				return mk(Term{op: OpTuple, args: []*Term{r, mk(Term{op: OpExt, n: 9, args: []*Term{r}})}})
			}
			return r
		}
		if a.op == OpConst && a.c != nil && x.Op == token.SUB {
			return kConst(constant.UnaryOp(token.SUB, a.c, 0), x.Type())
		}
		return mk(Term{op: OpUn, s: x.Op.String(), args: []*Term{a}, typ: x.Type()})
	case *ssa.ChangeType:
		return e.val(fr, en, x.X)
	case *ssa.ChangeInterface:
		return e.val(fr, en, x.X)
	case *ssa.Convert:
		a := e.val(fr, en, x.X)
		if a.op == OpConst && a.c != nil {
			if b, ok := x.Type().Underlying().(*types.Basic); ok {
				if b.Info()&types.IsInteger != 0 && a.c.Kind() == constant.Int {
					return kConst(a.c, x.Type())
				}
				if b.Info()&types.IsString != 0 && a.c.Kind() == constant.String {
					return a
				}
			}
		}
		// integer conversions preserve identity in the abstraction
		if bt, ok := x.Type().Underlying().(*types.Basic); ok {
			if ft, ok := x.X.Type().Underlying().(*types.Basic); ok {
				if bt.Info()&types.IsInteger != 0 && ft.Info()&types.IsInteger != 0 {
					return a
				}
				if bt.Info()&types.IsString != 0 && ft.Info()&types.IsString != 0 {
					return a
				}
			}
		}
		if a.op == OpConv && isString(x.Type()) && isString(a.args[0].typ) {
			return a.args[0] // string([]byte(s))
		}
		return mk(Term{op: OpConv, args: []*Term{a}, typ: x.Type()})
	case *ssa.MultiConvert:
		return mk(Term{op: OpConv, args: []*Term{e.val(fr, en, x.X)}, typ: x.Type()})
	case *ssa.SliceToArrayPointer:
		return mk(Term{op: OpConv, args: []*Term{e.val(fr, en, x.X)}, typ: x.Type()})
	case *ssa.MakeInterface:
		return mk(Term{op: OpMkIface, args: []*Term{e.val(fr, en, x.X)}, typ: x.X.Type()})
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, en, b))
		}
		f := x.Fn.(*ssa.Function)
		return mk(Term{op: OpClosure, s: f.String(), args: bs, fn: f, typ: x.Type()})
	case *ssa.MakeMap, *ssa.MakeChan:
		return mk(Term{op: OpMake, s: e.site(fr, in), nest: nest(), typ: v.Type()})
	case *ssa.MakeSlice:
		if n, ok := e.val(fr, en, x.Len).intv(); ok && n == 0 {
			if sl, ok := v.Type().Underlying().(*types.Slice); ok {
				return emptySlice(e.site(fr, in), nest(), sl.Elem(), v.Type())
			}
		}
		return mk(Term{op: OpMake, s: e.site(fr, in), nest: nest(), typ: v.Type(), args: []*Term{e.val(fr, en, x.Len)}})
	case *ssa.Slice:
		a := e.val(fr, en, x.X)
		lo, hi := kNil, kNil
		if x.Low != nil {
			lo = e.val(fr, en, x.Low)
		}
		if x.High != nil {
			hi = e.val(fr, en, x.High)
		}
		if lo == kInt(0) {
			lo = kNil
		}
		if isString(x.X.Type()) {
			if r := sliceConcat(a, lo, hi); r != nil {
				return r
			}
		}
		if e.onRisk != nil && (!lo.isNil() || !hi.isNil()) {
			e.onRisk(fr, in, "slice", []*Term{a, lo, hi}, st)
		}
		// make([]T, 0, constant)
		if lo.isNil() && hi == kInt(0) && a.op == OpAlloc {
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if ar, ok := pt.Elem().Underlying().(*types.Array); ok {
					return emptySlice(e.site(fr, in), nest(), ar.Elem(), x.Type())
				}
			}
		}
		if lo.isNil() && hi.isNil() {
			if _, isArr := x.X.Type().Underlying().(*types.Pointer); !isArr {
				return a
			}
		}
		return mk(Term{op: OpSlice, args: []*Term{a, lo, hi}, typ: x.Type()})
	case *ssa.FieldAddr:
		a := e.val(fr, en, x.X)
		e.deref(fr, in, a, st)
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		return mkField(a, fieldName(pt, x.Field), x.Type().(*types.Pointer).Elem())
	case *ssa.Field:
		a := e.val(fr, en, x.X)
		return fval(a, fieldName(x.X.Type(), x.Field), x.Type())
	case *ssa.IndexAddr:
		a := e.val(fr, en, x.X)
		i := e.val(fr, en, x.Index)
		if e.onIndex != nil {
			e.onIndex(fr, in, a, i, st)
		}
		// index of a full slice of an array addresses the array
		if a.op == OpSlice && a.args[1].isNil() && a.args[0].op == OpAlloc {
			a = a.args[0]
		}
		return mk(Term{op: OpElem, args: []*Term{a, i}, typ: x.Type().(*types.Pointer).Elem()})
	case *ssa.Index:
		a := e.val(fr, en, x.X)
		return mk(Term{op: OpPure, s: "index", args: []*Term{a, e.val(fr, en, x.Index)}, typ: x.Type()})
	case *ssa.Lookup:
		m := e.val(fr, en, x.X)
		k := e.val(fr, en, x.Index)
		if isString(x.X.Type()) {
			if e.onRisk != nil {
				e.onRisk(fr, in, "char", []*Term{m, k}, st)
			}
			return mk(Term{op: OpPure, s: "index", args: []*Term{m, k}, typ: x.Type()})
		}
		if v, ok := e.P.enumLookup(m, k); ok {
			if x.CommaOk {
				return v
			}
			return v.args[0]
		}
		a := mk(Term{op: OpMapElem, args: []*Term{m, k}})
		if e.onLoad != nil {
			e.onLoad(fr, in, a, st)
		}
		mt, _ := x.X.Type().Underlying().(*types.Map)
		var val, ok *Term
		if c, has := st.mem[a]; has {
			val, ok = c, kTrue
		} else {
			et := x.Type()
			if mt != nil {
				et = mt.Elem()
			}
			ep := st.epoch(a)
			val = mk(Term{op: OpDeref, n: ep, args: []*Term{a}, typ: et})
			ok = mk(Term{op: OpPure, s: "has", n: ep, args: []*Term{m, k}, typ: types.Typ[types.Bool]})
			for q := range st.mem {
				if q.op == OpMapElem && q.args[0] == m {
					// other keys were written: the entry may be one of them
					ok = mk(Term{op: OpPure, s: "has", n: ep + 1000 + countMap(st, m), args: []*Term{m, k}, typ: types.Typ[types.Bool]})
					break
				}
			}
		}
		if x.CommaOk {
			return mk(Term{op: OpTuple, args: []*Term{val, ok}})
		}
		if ok != kTrue && e.P.isSetMap(x.X) {
			return ok
		}
		return val
	case *ssa.Range:
		m := e.val(fr, en, x.X)
		if e.onLoad != nil {
			e.onLoad(fr, in, m, st)
		}
		return mk(Term{op: OpPure, s: "range", args: []*Term{m}})
	case *ssa.Next:
		r := e.val(fr, en, x.Iter)
		if e.onLoad != nil && r.op == OpPure && r.s == "range" {
			e.onLoad(fr, in, r.args[0], st)
		}
		return mk(Term{op: OpNext, args: []*Term{r}, nest: nest()})
	case *ssa.TypeAssert:
		a := e.val(fr, en, x.X)
		if e.onRisk != nil && !x.CommaOk && !types.AssignableTo(x.X.Type(), x.AssertedType) && (a.op != OpMkIface || !types.AssignableTo(a.typ, x.AssertedType)) {
			e.onRisk(fr, in, "assert", []*Term{a}, st)
		}
		if a.op == OpMkIface && !types.IsInterface(x.AssertedType) {
			same := types.Identical(a.typ, x.AssertedType)
			if same {
				if x.CommaOk {
					return mk(Term{op: OpTuple, args: []*Term{a.args[0], kTrue}})
				}
				return a.args[0]
			}
			if x.CommaOk {
				return mk(Term{op: OpTuple, args: []*Term{zeroOf(x.AssertedType), kFalse}})
			}
		}
		t := mk(Term{op: OpAssert, args: []*Term{a}, typ: x.AssertedType})
		if types.IsInterface(x.AssertedType) {
			t = a
		}
		if x.CommaOk {
			return mk(Term{op: OpTuple, args: []*Term{t, mk(Term{op: OpPure, s: "is " + typeKey(x.AssertedType), args: []*Term{a}, typ: types.Typ[types.Bool]})}})
		}
		return t
	case *ssa.Extract:
		return st.resolveConstOnly(withType(ext(e.val(fr, en, x.Tuple), x.Index), x.Type()))
	case *ssa.Select:
		r := mk(Term{op: OpCall, s: "select:" + e.site(fr, in), nest: nest()})
		e.addEvent(fr, st, "select", "select", nil, nil, r, in.Pos())
		return r
	}
	return mk(Term{op: OpOpaque, s: e.site(fr, in), nest: nest(), typ: v.Type()})
}

func countMap(st *State, m *Term) int {
	n := 0
	for q := range st.mem {
		if q.op == OpMapElem && q.args[0] == m {
			n++
		}
	}
	return n
}

func (s *State) resolveConstOnly(t *Term) *Term { return t }

func withType(t *Term, typ types.Type) *Term {
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

// collect drops memory of allocations made in this frame that nothing
// refers to any more, so that equivalent states agree.
func (fr *Frame) collect(en env, st *State, def []deferred) {
	local := func(a *Term) bool {
		r := rootOf(a)
		if r.op != OpAlloc && r.op != OpMake {
			return false
		}
		return strings.HasPrefix(r.s, fr.ctx+":") || strings.HasPrefix(r.s, fr.ctx+"/")
	}
	cand := map[*Term][]*Term{}
	for k := range st.mem {
		if local(k) {
			r := rootOf(k)
			cand[r] = append(cand[r], k)
		}
	}
	if len(cand) == 0 {
		return
	}
	live := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if ks, ok := cand[t]; ok && !live[t] {
			live[t] = true
			for _, k := range ks {
				visit(st.mem[k])
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, t := range en {
		visit(t)
	}
	for _, t := range fr.args {
		visit(t)
	}
	for _, t := range fr.free {
		visit(t)
	}
	for _, d := range def {
		visit(d.fn)
		for _, a := range d.args {
			visit(a)
		}
	}
	for k, v := range st.mem {
		if _, ok := cand[rootOf(k)]; !ok {
			visit(v)
			visit(k)
		}
	}
	for r, ks := range cand {
		if !live[r] {
			for _, k := range ks {
				delete(st.mem, k)
			}
			delete(st.hav, r)
		}
	}
}
