package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:        "C16",
		technique: "interprocedural path-sensitive lockset analysis over SSA (Eraser-style lockset inference with access depth), lock typestate and lock-order graph",
		rule:      "For every type that carries a mutex, every access of its state from every operation is collected together with the locks held on the path. State that an operation changes has one lock that is held at all of its accesses, and held exclusively where it is changed (also for the interior of maps and for values changed after they were published). On every exit of every operation the locks held are those held on entry, none is taken while it is held, none is released that is not held, none is held while calling a registered function, and the order in which locks are taken has no cycle.",
		run:       runC16,
	})
}

// lockAccess is one access of shared state.
type lockAccess struct {
	loc   string
	write bool
	held  map[string]byte
	pos   token.Pos
	fn    string
	path  []string
}

// carriers: the types of the module that have a mutex.
func (c *Ctx) carriers() []*types.Named {
	var out []*types.Named
	for _, sp := range c.P.byPkg {
		for _, m := range sp.Members {
			mt, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := mt.Type().(*types.Named)
			if !ok {
				continue
			}
			if s, ok := n.Underlying().(*types.Struct); ok && len(mutexFields(s)) > 0 {
				out = append(out, n)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isMutex(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.String() == "sync.Mutex" || t.String() == "sync.RWMutex"
}

// mutexFields: the paths of the mutexes in a struct.
func mutexFields(s *types.Struct) []string {
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isMutex(f.Type()) {
			out = append(out, f.Name())
			continue
		}
		if in, ok := f.Type().Underlying().(*types.Struct); ok {
			if n, ok := f.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
				continue
			}
			for _, x := range mutexFields(in) {
				out = append(out, f.Name()+"."+x)
			}
		}
	}
	return out
}

type lockRun struct {
	c     *Ctx
	T     *types.Named
	rule  string
	accs  map[string]*lockAccess
	order map[[2]string]token.Pos
	// recursive functions are analysed on their own
	rec     map[*ssa.Function]bool
	held    map[*ssa.Function][]map[string]byte
	acq     map[*ssa.Function]map[string]bool
	pending []lockCall
}

type lockCall struct {
	callee *ssa.Function
	held   map[string]byte
	pos    token.Pos
	fn     string
	path   []string
	st     *State
	ev     *Event
}

// owner: the field path of the state of T that an address or a value
// denotes; "" if none. Entries of maps and lists add "[]".
func (l *lockRun) owner(st *State, t *Term) (string, bool) {
	return l.own(st, t, 0)
}

func (l *lockRun) own(st *State, t *Term, depth int) (string, bool) {
	if t == nil || depth > 20 {
		return "", false
	}
	switch t.op {
	case OpField, OpFVal:
		b := t.args[0]
		if l.isT(b) {
			if rootOf(b).op == OpAlloc {
				return "", false
			}
			return t.s, true
		}
		if p, ok := l.own(st, b, depth+1); ok {
			return p + behind(b) + "." + t.s, true
		}
	case OpDeref:
		return l.own(st, t.args[0], depth+1)
	case OpMapElem, OpElem:
		if p, ok := l.own(st, t.args[0], depth+1); ok {
			return p + "[]", true
		}
	case OpSlice, OpConv, OpMkIface, OpAssert, OpSome:
		return l.own(st, t.args[0], depth+1)
	case OpExt:
		if n := t.args[0]; n.op == OpNext && t.n == 2 {
			if r := n.args[0]; r.op == OpPure && r.s == "range" {
				if p, ok := l.own(st, r.args[0], depth+1); ok {
					return p + "[]", true
				}
			}
		}
	case OpMake, OpAlloc:
		// published earlier on this path
		for _, ev := range st.events {
			if ev.kind == "mapset" && (ev.args[2] == t || unwrap(ev.args[2]) == t) {
				if p, ok := l.own(st, ev.args[0], depth+1); ok {
					return p + "[]", true
				}
			}
		}
	}
	return "", false
}

// isT: the term is a pointer to T (or T itself).
func (l *lockRun) isT(t *Term) bool {
	if t.typ == nil {
		return false
	}
	x := types.Unalias(t.typ)
	if p, ok := x.(*types.Pointer); ok {
		x = types.Unalias(p.Elem())
	}
	return types.Identical(x, l.T)
}

// lockName: the lock an address denotes.
func (l *lockRun) lockName(st *State, a *Term) string {
	if p, ok := l.owner(st, a); ok {
		return p
	}
	if a.op == OpGlobal {
		return "global " + a.String()
	}
	return ""
}

func (l *lockRun) heldNow(st *State) map[string]byte {
	h := map[string]byte{}
	for _, x := range st.locks {
		if n := l.lockName(st, x.addr); n != "" {
			if h[n] != 'W' {
				h[n] = x.mode
			}
		}
	}
	return h
}

func heldString(h map[string]byte) string {
	var ks []string
	for k, m := range h {
		ks = append(ks, k+":"+string(m))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// skip: a field whose contents are not state: loggers, functions and
// the locks themselves.
func (l *lockRun) stateful(loc string) bool {
	var t types.Type = l.T
	for _, p := range strings.Split(strings.ReplaceAll(loc, "[]", ""), ".") {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return true
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == p {
				t, found = s.Field(i).Type(), true
			}
		}
		if !found {
			return true
		}
		if isMutex(t) {
			return false
		}
	}
	switch t.Underlying().(type) {
	case *types.Interface, *types.Signature, *types.Chan:
		return false
	}
	return true
}

func (l *lockRun) access(st *State, loc string, write bool, pos token.Pos, fn string) {
	if loc == "" || !l.stateful(loc) {
		return
	}
	h := l.heldNow(st)
	k := loc + "|" + fn + "|" + l.c.P.pos(pos) + "|" + heldString(h)
	if write {
		k += "|w"
	}
	if l.accs[k] == nil {
		l.accs[k] = &lockAccess{loc: loc, write: write, held: h, pos: pos, fn: fn, path: trailOf(st)}
	}
}

// mutatesArg: library functions that change what an argument refers to.
func mutatesArg(n string) bool {
	return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse") || n == "copy" || n == "maps.Copy" || n == "maps.DeleteFunc"
}

func (l *lockRun) engine() *Engine {
	e := newEngine(l.c.P)
	pure := e.boundary
	e.boundary = func(n string) bool {
		if pure != nil && pure(n) {
			return true
		}
		fn := l.c.P.fn(n)
		if fn == nil {
			return false
		}
		return l.rec[fn] || fn.Pkg != nil && l.T.Obj().Pkg() != fn.Pkg.Pkg
	}
	e.onLoad = func(fr *Frame, in ssa.Instruction, a *Term, st *State) {
		p, ok := l.owner(st, a)
		if !ok {
			return
		}
		p += behind(a)
		l.access(st, p, false, in.Pos(), fnName(fr.fn))
	}
	e.onStore = func(fr *Frame, in ssa.Instruction, a, v *Term, st *State) {
		if p, ok := l.owner(st, a); ok {
			l.access(st, p+behind(a), true, in.Pos(), fnName(fr.fn))
		}
	}
	return e
}

// behind: a value used as an address refers to what lies behind it.
func behind(a *Term) string {
	switch a.op {
	case OpField, OpElem, OpMapElem:
		return ""
	}
	return "[]"
}

func (l *lockRun) events(name string, st *State, ev *Event) {
	c := l.c
	switch ev.kind {
	case "lock":
		n := l.lockName(st, ev.args[0])
		if n == "" {
			return
		}
		for _, x := range st.locks {
			m := l.lockName(st, x.addr)
			switch {
			case m == n:
				c.violate("deadlock", name+" "+n, ev.pos, pathOf(ev, st), "%s takes %s, which it holds already", name, n)
			case m != "":
				if _, ok := l.order[[2]string{m, n}]; !ok {
					l.order[[2]string{m, n}] = ev.pos
				}
			}
		}
	case "badunlock":
		c.violate("release", name, ev.pos, pathOf(ev, st), "%s releases %v, which it does not hold in that way", name, ev.args[0])
	case "call", "go":
		if ev.kind == "call" && ev.fval != nil && len(st.locks) > 0 {
			if fn, ok := ev.fval.fn.(*ssa.Function); !ok || fn == nil {
				c.violate("calls", name, ev.pos, pathOf(ev, st), "%s calls a function given to it while it holds %s", name, heldString(l.heldNow(st)))
			}
		}
		if fn := c.P.fn(ev.name); fn != nil && l.rec[fn] && ev.kind == "call" {
			l.pending = append(l.pending, lockCall{callee: fn, held: l.heldNow(st), pos: ev.pos, fn: name, path: pathOf(ev, st)})
		}
		for i, a := range ev.args {
			p, ok := l.owner(st, a)
			if !ok || isMutexAddr(a) {
				continue
			}
			w := mutatesArg(ev.name) && i == 0
			l.access(st, p+"[]", w, ev.pos, name)
			l.access(st, p+"[][]", false, ev.pos, name)
		}
	}
}

func isMutexAddr(a *Term) bool { return a.typ != nil && isMutex(a.typ) }

// analyse runs one function with the locks held on entry.
func (l *lockRun) analyse(f *ssa.Function, entry map[string]byte) {
	c := l.c
	name := fnName(f)
	c.ob("release", name)
	e := l.engine()
	seen := map[string]bool{}
	acq := map[string]bool{}
	e.onCall = func(ev *Event, st *State) {
		k := ev.key + heldString(l.heldNow(st)) + ev.kind
		if seen[k] {
			return
		}
		seen[k] = true
		if ev.kind == "lock" {
			if n := l.lockName(st, ev.args[0]); n != "" {
				acq[n] = true
			}
		}
		l.events(name, st, ev)
	}
	e.onBack = func(it *iteration) {
		for _, x := range it.st.locks {
			if n := l.lockName(it.st, x.addr); n != "" && l.takenIn(it, x) {
				c.violate("release", name+" "+n, x.pos, trailOf(it.st), "%s goes round a loop without releasing %s", name, n)
			}
		}
	}
	st := newState()
	args := entryArgs(f)
	for n, m := range entry {
		for i, p := range f.Params {
			if l.isT(args[i]) {
				a := args[i]
				for _, x := range strings.Split(n, ".") {
					a = mkField(a, x, nil)
				}
				st.locks = append(st.locks, lockHeld{a, m, p.Pos()})
				break
			}
		}
	}
	outs := e.run(f, args, st)
	c.done(e, l.rule, name)
	c.outs += len(outs)
	l.acq[f] = acq
	for _, o := range outs {
		if o.panic {
			continue
		}
		have := map[string]int{}
		for _, x := range o.st.locks {
			if n := l.lockName(o.st, x.addr); n != "" {
				have[n]++
			}
		}
		for n := range entry {
			have[n]--
		}
		for n, k := range have {
			switch {
			case k > 0:
				c.violate("release", name+" "+n, f.Pos(), trailOf(o.st), "%s returns without releasing %s", name, n)
			case k < 0:
				c.violate("release", name+" "+n, f.Pos(), trailOf(o.st), "%s returns having released %s for its caller", name, n)
			}
		}
	}
}

// takenIn: the lock was taken in the body of the loop.
func (l *lockRun) takenIn(it *iteration, x lockHeld) bool {
	for _, b := range it.fn.Blocks {
		in := false
		for _, h := range l.c.P.loopsOf(it.fn).inLoops[b.Index] {
			in = in || h == it.key.hdr
		}
		if !in {
			continue
		}
		for _, i := range b.Instrs {
			if k, ok := i.(ssa.CallInstruction); ok && k.Pos() == x.pos {
				return true
			}
		}
	}
	return false
}

// recursive: the functions of the package on a cycle of the call graph.
func recursive(fns []*ssa.Function) map[*ssa.Function]bool {
	calls := map[*ssa.Function][]*ssa.Function{}
	var collect func(root, f *ssa.Function)
	collect = func(root, f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok {
					if g := k.Common().StaticCallee(); g != nil {
						for g.Parent() != nil {
							g = g.Parent()
						}
						calls[root] = append(calls[root], g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			collect(root, a)
		}
	}
	for _, f := range fns {
		collect(f, f)
	}
	out := map[*ssa.Function]bool{}
	for _, f := range fns {
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function) bool
		visit = func(g *ssa.Function) bool {
			for _, h := range calls[g] {
				if h == f && !(g == f && h.Parent() != nil) {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if visit(h) {
						return true
					}
				}
			}
			return false
		}
		if visit(f) {
			out[f] = true
		}
	}
	return out
}

func (l *lockRun) mentions(f *ssa.Function) bool {
	isT := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		return types.Identical(types.Unalias(t), l.T)
	}
	for _, p := range f.Params {
		if isT(p.Type()) {
			return true
		}
	}
	for _, p := range f.FreeVars {
		t := p.Type()
		if pt, ok := t.(*types.Pointer); ok && isT(pt.Elem()) {
			return true
		}
	}
	return false
}

func (c *Ctx) locksOf(T *types.Named) {
	s := T.Underlying().(*types.Struct)
	name := strings.TrimPrefix(T.String(), modPath)
	l := &lockRun{c: c, T: T, rule: "accesses", accs: map[string]*lockAccess{}, order: map[[2]string]token.Pos{}, acq: map[*ssa.Function]map[string]bool{}}
	var fns []*ssa.Function
	called := map[*ssa.Function]bool{}
	spawned := map[*ssa.Function]bool{}
	for _, f := range c.P.fns {
		if f.Pkg == nil || f.Pkg.Pkg != T.Obj().Pkg() {
			continue
		}
		if f.Synthetic == "" && f.Parent() == nil {
			fns = append(fns, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok {
					g := k.Common().StaticCallee()
					if _, isgo := in.(*ssa.Go); isgo {
						if g != nil {
							spawned[g] = true
						}
						continue
					}
					if g != nil && g != f {
						called[g] = true
					}
				}
			}
		}
	}
	l.rec = recursive(fns)
	var entries []*ssa.Function
	for _, f := range c.P.fns {
		if f.Pkg == nil || f.Pkg.Pkg != T.Obj().Pkg() || f.Blocks == nil || f.Synthetic != "" || !l.mentions(f) || l.rec[f] {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported() && f.Parent() == nil
		if exported || spawned[f] || f.Parent() == nil && !called[f] {
			entries = append(entries, f)
		}
	}
	sort.Slice(entries, func(i, j int) bool { return fnName(entries[i]) < fnName(entries[j]) })
	for _, f := range entries {
		l.analyse(f, nil)
	}
	// recursive functions, with the locks all their callers hold
	done := map[*ssa.Function]string{}
	for round := 0; round < 6; round++ {
		want := map[*ssa.Function]map[string]byte{}
		for _, p := range l.pending {
			h, ok := want[p.callee]
			if !ok {
				want[p.callee] = p.held
				continue
			}
			n := map[string]byte{}
			for k, m := range h {
				if x, ok := p.held[k]; ok {
					if x == 'R' {
						m = 'R'
					}
					n[k] = m
				}
			}
			want[p.callee] = n
		}
		again := false
		for f := range l.rec {
			if !l.mentions(f) {
				continue
			}
			h, isCalled := want[f]
			if f.Object() != nil && f.Object().Exported() {
				h = nil
			} else if !isCalled {
				continue
			}
			if k := "x" + heldString(h); done[f] != k {
				done[f], again = k, true
				l.analyse(f, h)
			}
		}
		if !again {
			break
		}
	}
	// locks taken behind a call of a recursive function
	for changed := true; changed; {
		changed = false
		for _, p := range l.pending {
			f := c.P.fn(p.fn)
			if f == nil || !l.rec[f] {
				continue
			}
			for n := range l.acq[p.callee] {
				if !l.acq[f][n] {
					l.acq[f][n], changed = true, true
				}
			}
		}
	}
	for _, p := range l.pending {
		for n := range l.acq[p.callee] {
			if _, ok := p.held[n]; ok {
				c.violate("deadlock", p.fn+" "+n, p.pos, p.path, "%s calls %s, which takes %s, while it holds it", p.fn, fnName(p.callee), n)
			}
			for m := range p.held {
				if m != n {
					if _, ok := l.order[[2]string{m, n}]; !ok {
						l.order[[2]string{m, n}] = p.pos
					}
				}
			}
		}
	}
	// order
	for o, pos := range l.order {
		c.ob("order", name+" "+o[0]+" before "+o[1])
		if back, ok := l.order[[2]string{o[1], o[0]}]; ok {
			c.violate("order", name+" "+o[0]+" "+o[1], pos, []string{"the other order: " + c.P.pos(back)}, "%s and %s are taken in both orders", o[0], o[1])
		}
	}
	// locksets
	byLoc := map[string][]*lockAccess{}
	for _, a := range l.accs {
		byLoc[a.loc] = append(byLoc[a.loc], a)
	}
	var locs []string
	for k := range byLoc {
		locs = append(locs, k)
	}
	sort.Strings(locs)
	for _, loc := range locs {
		as := byLoc[loc]
		written := false
		for _, a := range as {
			written = written || a.write
		}
		if !written {
			continue
		}
		sort.Slice(as, func(i, j int) bool { return as[i].pos < as[j].pos })
		// the lock that guards most accesses
		best, n := "", -1
		for _, m := range mutexFields(s) {
			k := 0
			for _, a := range as {
				if x, ok := a.held[m]; ok && (!a.write || x == 'W') {
					k++
				}
			}
			if k > n {
				best, n = m, k
			}
		}
		for _, a := range as {
			c.ob("accesses", name+"."+loc+" in "+a.fn)
			m, ok := a.held[best]
			how := "read"
			if a.write {
				how = "changed"
			}
			switch {
			case !ok:
				c.violate("accesses", name+"."+loc+" in "+a.fn, a.pos, a.path, "%s is %s in %s without holding %s, with which it is guarded elsewhere", loc, how, a.fn, best)
			case a.write && m != 'W':
				c.violate("accesses", name+"."+loc+" in "+a.fn, a.pos, a.path, "%s is changed in %s while %s is only held shared", loc, a.fn, best)
			}
		}
	}
}

func runC16(c *Ctx) {
	names := map[string]bool{}
	for _, T := range c.carriers() {
		names[strings.TrimPrefix(T.String(), modPath)] = true
		c.locksOf(T)
	}
	for _, n := range []string{"internal/mresolver.MResolver", "internal/db/memory.KV", "pkg/netauth/cache/memory.inMemoryCache"} {
		if !names[n] {
			c.unresolved("accesses", "the lock of "+n)
		}
	}
	c.need("accesses", 15)
	c.need("release", 12)
}
