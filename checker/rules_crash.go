package main

import (
	"go/constant"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:        "C31",
		technique: "path-sensitive nil, bounds and type-assertion analysis of every request handler, of every operation of the entity tree it can trigger (through the chains and hooks) and of the resolver, storage, token and crypto functions below",
		rule:      "On every path, a pointer that is dereferenced is known to be set: an allocation, a part of the server that is wired at startup, the request message itself, or a result whose error was found nil or whose presence flag was found true. Parts of a request or of a stored record are never dereferenced without a check. Every index and slice bound is established by a comparison with the length, by the loop it belongs to or by the way the list was made; no unchecked type assertion, write to a map that may be absent, method of an absent error, panic or process exit can be reached. An operation that reports success returns its record.",
		run:       runC31,
	})
}

// crash decides the obligations of one engine run.
type crash struct {
	c     *Ctx
	rule  string
	e     *Engine
	entry string
	trust func(t *Term) bool // values that are always set
	seen  map[*ssa.Function]bool
	sites map[ssa.Instruction]bool
	// variables of the program are only set where they are known to be
	strict bool
	// answers: the list of the answer to a request is never empty
	answers func(request, field string) bool
}

// ob counts each construct once per entry.
func (k *crash) ob(in ssa.Instruction) {
	if k.sites == nil {
		k.sites = map[ssa.Instruction]bool{}
	}
	if !k.sites[in] {
		k.sites[in] = true
		k.c.ob(k.rule, k.entry)
	}
}

func root(t *Term) (r *Term, elem bool) {
	for {
		switch t.op {
		case OpSome, OpConv, OpDeref, OpField, OpFVal, OpAssert, OpMkIface:
			t = t.args[0]
		case OpElem, OpMapElem:
			elem = true
			t = t.args[0]
		case OpExt:
			return t, elem
		default:
			return t, elem
		}
	}
}

// set: the pointer is not nil.
func (k *crash) set(p *Term, st *State) bool {
	q := p
	for q.op == OpSome || q.op == OpConv {
		q = q.args[0]
	}
	switch q.op {
	case OpAlloc, OpGlobal, OpField, OpElem, OpMapElem, OpMake, OpSlice, OpClosure, OpFn, OpStruct:
		return true
	case OpConst:
		return !q.isNil()
	}
	switch st.nilness(p) {
	case 0:
		return true
	case 1:
		return false
	}
	if k.trust(q) {
		return true
	}
	if x, _ := root(q); x.op == OpExt && x.n == 2 && x.args[0].op == OpNext {
		// what a map of the server holds
		if m := x.args[0].args[0]; m.op == OpPure && m.s == "range" {
			r, _ := root(m.args[0])
			return k.trust(r) || r.op == OpGlobal
		}
	}
	if q.op == OpExt {
		// a result whose error is nil, or that is marked as present
		x := q.args[0]
		if x.op == OpCall || x.op == OpPure || x.op == OpSome {
			if tu, ok := x.typ.(*types.Tuple); ok && tu.Len() > q.n+1 {
				last := ext(x, tu.Len()-1)
				if isErrType(last) {
					return st.holds(last, kNil)
				}
				return st.known(last) == 1 || st.holds(last, kTrue)
			}
		}
	}
	if q.op == OpCall && !strings.Contains(q.s, "internal/") {
		i := strings.LastIndex(q.s, ".")
		return strings.HasPrefix(q.s[i+1:], "New") || strings.HasPrefix(q.s[i+1:], "Must")
	}
	if q.op == OpDeref && q.args[0].op == OpMapElem {
		// an entry that was found in a map of the server
		m := q.args[0]
		r, _ := root(m.args[0])
		if k.trust(r) || r.op == OpGlobal {
			return st.lits(func(t, v *Term, eq bool) bool {
				return eq && v == kTrue && t.op == OpPure && t.s == "has" && len(t.args) == 2 && same(t.args[0], m.args[0]) && same(t.args[1], m.args[1])
			})
		}
	}
	r, elem := root(q)
	if k.strict && q.op == OpDeref && q.args[0].op == OpGlobal {
		return false
	}
	if q.op == OpAssert && (r.op == OpExt || r.op == OpCall) {
		// the claims a token was parsed into
		x := r
		if x.op == OpExt {
			x = x.args[0]
		}
		if strings.HasSuffix(x.s, ".ParseWithClaims") {
			for _, a := range x.args {
				a = unwrap(a)
				if p, ok := q.typ.(*types.Pointer); ok && a.op == OpAlloc && types.Identical(p.Elem(), a.typ) {
					return st.holds(ext(x, 1), kNil)
				}
			}
		}
	}
	if r.op == OpGlobal || r.op == OpGVal {
		return true
	}
	if elem && r.op == OpExt {
		return true // elements of stored lists are records
	}
	return false
}

func lenOf(t *Term) *Term {
	if t.op == OpPure && t.s == "len" && len(t.args) == 1 {
		return strip(t.args[0])
	}
	return nil
}

// longer: the list has more than n elements.
func (k *crash) longer(b *Term, n int64, st *State) bool {
	b = strip(b)
	var size *Term
	switch {
	case b.op == OpSlice && b.args[0].op == OpAlloc && b.args[1].isNil() && b.args[2].isNil():
		if a, ok := b.args[0].typ.Underlying().(*types.Array); ok {
			return a.Len() > n
		}
	case b.op == OpAlloc:
		if a, ok := b.typ.Underlying().(*types.Array); ok {
			return a.Len() > n
		}
	case b.op == OpAppend:
		m := int64(0)
		for _, x := range b.args[1:] {
			if len(x.some) == 0 && !(x.op == OpPure && x.s == "spread") {
				m++
			}
		}
		if m > n || k.longer(b.args[0], n-m, st) {
			return true
		}
	case b.op == OpMake && len(b.args) > 0:
		if m, ok := b.args[0].intv(); ok {
			return m > n
		}
		size = b.args[0]
	case b.op == OpPure || b.op == OpCall:
		switch b.s {
		case "strings.Split", "strings.SplitN":
			if b.args[1].isConst() && constStr(b.args[1]) != "" {
				if m, ok := int64(-1), true; b.s == "strings.SplitN" {
					if m, ok = b.args[2].intv(); !ok || m == 0 {
						break
					}
				}
				if n == 0 {
					return true
				}
				// rules and metadata are kept as "key:value"
				if n == 1 && constStr(b.args[1]) == ":" && b.args[0].contains(func(x *Term) bool {
					return (x.op == OpField || x.op == OpFVal) && (x.s == "Expansions" || x.s == "UntypedMeta" || x.s == "Strings" && k.answers != nil)
				}) {
					return true
				}
				if n == 1 && st.lits(func(t, v *Term, eq bool) bool {
					return eq && v == kTrue && (t.op == OpPure || t.op == OpCall) && t.s == "strings.Contains" && same(t.args[0], b.args[0]) && same(t.args[1], b.args[1])
				}) {
					return true
				}
			}
		}
		if strings.Contains(b.s, "Submatch") {
			if st.nilness(b) == 0 || st.holdsNot(b, kNil) || n > 0 && k.longer(b, 0, st) {
				g := k.groups(b.args[0])
				return g < 0 || n <= g
			}
		}
	}
	if n < 0 {
		return true
	}
	if k.answers != nil && n == 0 && k.answered(b, st) {
		return true
	}
	return st.lits(func(t, v *Term, eq bool) bool {
		if b == lenOf(t) || size != nil && same(t, size) {
			m, ok := v.intv()
			return ok && (eq && m > n || !eq && m == 0 && n == 0)
		}
		if eq && v == kNil && t.op == OpCall && len(t.args) > 0 && same(t.args[len(t.args)-1], b) {
			// a validator of the cobra package accepted the list
			for _, ev := range st.events {
				if ev.res == nil || ev.fval == nil || !same(ev.res, t) {
					continue
				}
				f := strip(ev.fval)
				if (f.op == OpCall || f.op == OpPure) && len(f.args) > 0 && (strings.HasSuffix(f.s, "cobra.ExactArgs") || strings.HasSuffix(f.s, "cobra.MinimumNArgs") || strings.HasSuffix(f.s, "cobra.RangeArgs")) {
					if m, ok := f.args[0].intv(); ok && m > n {
						return true
					}
				}
			}
		}
		if t.op == OpBin && t.s == "<" && (eq && v.isConst()) {
			// c < len, or not len < c
			if c, ok := t.args[0].intv(); ok && v == kTrue && lenOf(t.args[1]) == b {
				return c >= n
			}
			if c, ok := t.args[1].intv(); ok && v == kFalse && lenOf(t.args[0]) == b {
				return c > n
			}
			// some index is below the length: the list is not empty
			if n == 0 && v == kTrue && lenOf(t.args[1]) == b {
				return true
			}
		}
		return false
	}) || b.op != OpAppend && n == 0 && isString(typOr(b)) && st.holdsNot(b, kString(""))
}

// answered: the list of an answer that is never empty.
func (k *crash) answered(b *Term, st *State) bool {
	for b.op == OpDeref {
		b = b.args[0]
	}
	if b.op != OpField && b.op != OpFVal {
		return false
	}
	x := strip(b.args[0])
	return x.op == OpExt && x.n == 0 && strings.HasPrefix(x.args[0].s, rpcClient) && st.holds(ext(x.args[0], 1), kNil) && k.answers(strings.TrimPrefix(x.args[0].s, rpcClient), b.s)
}

// groups: the number of groups of a regular expression, -1 if it is not
// known.
func (k *crash) groups(t *Term) int64 {
	for t.op == OpDeref {
		t = t.args[0]
	}
	if t.op != OpGVal && t.op != OpGlobal {
		return -1
	}
	g, ok := t.fn.(*ssa.Global)
	if !ok {
		return -1
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return -1
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			call, ok := st.Val.(*ssa.Call)
			if !ok || len(call.Call.Args) != 1 {
				return -1
			}
			x, ok := call.Call.Args[0].(*ssa.Const)
			if !ok || x.Value == nil || x.Value.Kind() != constant.String {
				return -1
			}
			re, err := syntax.Parse(constant.StringVal(x.Value), syntax.Perl)
			if err != nil {
				return -1
			}
			return int64(re.MaxCap())
		}
	}
	return -1
}

func typOr(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

// below: the index is below the length of the list.
func (k *crash) below(idx, b *Term, st *State, orEqual bool) bool {
	b = strip(b)
	if n, ok := idx.intv(); ok {
		if orEqual {
			n--
		}
		return n < 0 && orEqual || n >= 0 && k.longer(b, n, st) || n == -1 && orEqual
	}
	i := strip(idx)
	if lenOf(i) == b && orEqual {
		return true
	}
	// len(b)-n
	if i.op == OpBin && (i.s == "-" || i.s == "+") {
		for j, a := range i.args {
			if lenOf(a) == b {
				if n, ok := i.args[1-j].intv(); ok {
					if i.s == "+" {
						n = -n
					}
					return n > 0 && (k.longer(b, n-1, st)) || n == 0 && orEqual
				}
			}
		}
	}
	ln := func(t *Term) bool {
		x := lenOf(t)
		if x == nil {
			return b.op == OpMake && len(b.args) > 0 && strip(b.args[0]) == strip(t)
		}
		return x == b || b.op == OpMake && len(b.args) > 0 && lenOf(b.args[0]) == x || b.op == OpPure && b.s == "range" && strip(b.args[0]) == x
	}
	if st.lits(func(t, v *Term, eq bool) bool {
		return eq && v == kTrue && t.op == OpBin && t.s == "<" && strip(t.args[0]) == i && ln(t.args[1]) ||
			orEqual && eq && v == kFalse && t.op == OpBin && t.s == "<" && strip(t.args[1]) == i && ln(t.args[0])
	}) {
		return true
	}
	// a counter of the entries of a map
	if i.op == OpLoop && b.op == OpMake && len(b.args) > 0 {
		if m := lenOf(b.args[0]); m != nil && st.lits(func(t, v *Term, eq bool) bool {
			if !eq || v != kTrue || t.op != OpExt || t.n != 0 || t.args[0].op != OpNext {
				return false
			}
			r := t.args[0].args[0]
			return r.op == OpPure && r.s == "range" && strip(r.args[0]) == m
		}) {
			return true
		}
	}
	// what strings.Index found, plus the width of what was looked for
	base, off := i, int64(0)
	if i.op == OpBin && i.s == "+" {
		for j, a := range i.args {
			if n, ok := a.intv(); ok {
				base, off = i.args[1-j], n
			}
		}
	}
	if (base.op == OpPure || base.op == OpCall) && strings.Contains(base.s, "Index") && len(base.args) > 1 && strip(base.args[0]) == b {
		if off > 1 || off < 0 || off == 1 && !orEqual {
			return false
		}
		return off == 1 && orEqual || st.lits(func(t, v *Term, eq bool) bool {
			n, ok := v.intv()
			if strip(t) == base && !eq && ok && n == -1 {
				return true
			}
			return t.op == OpBin && t.s == "<" && strip(t.args[0]) == base && eq && v == kFalse && t.args[1] == kInt(0) ||
				t.op == OpBin && t.s == "<" && strip(t.args[1]) == base && eq && v == kTrue
		})
	}
	return false
}

func (k *crash) hook(e *Engine) {
	k.e = e
	c := k.c
	e.onDeref = func(fr *Frame, in ssa.Instruction, p *Term, st *State) {
		k.seen[fr.fn] = true
		if call, ok := in.(ssa.CallInstruction); ok {
			v := call.Common().Value
			if !isErrType(mk(Term{op: OpParam, s: "t", typ: v.Type()})) {
				return
			}
			k.ob(in)
			if !k.set(p, st) && !st.holdsNot(p, kNil) {
				c.violate(k.rule, k.entry+" "+fnName(fr.fn)+" error", in.Pos(), append(append([]string{}, fr.stack...), trailOf(st)...), "a method of an error that may be nil is called: %v", p)
			}
			return
		}
		k.ob(in)
		if !k.set(p, st) {
			c.violate(k.rule, k.entry+" "+fnName(fr.fn)+" nil", in.Pos(), append(append([]string{}, fr.stack...), trailOf(st)...), "%v may be nil", p)
		}
	}
	e.onIndex = func(fr *Frame, in ssa.Instruction, base, idx *Term, st *State) {
		k.ob(in)
		if !k.below(idx, base, st, false) {
			c.violate(k.rule, k.entry+" "+fnName(fr.fn)+" index", in.Pos(), append(append([]string{}, fr.stack...), trailOf(st)...), "nothing establishes that %v is an index of %v", idx, base)
		}
	}
	e.onRisk = func(fr *Frame, in ssa.Instruction, kind string, a []*Term, st *State) {
		k.ob(in)
		bad := func(f string, x ...any) {
			c.violate(k.rule, k.entry+" "+fnName(fr.fn)+" "+kind, in.Pos(), append(append([]string{}, fr.stack...), trailOf(st)...), f, x...)
		}
		switch kind {
		case "slice":
			for _, i := range a[1:] {
				if !i.isNil() && !k.below(i, a[0], st, true) && !k.room(a[0]) {
					bad("nothing establishes that %v lies within %v", i, a[0])
				}
			}
		case "char":
			if !k.below(a[1], a[0], st, false) {
				bad("nothing establishes that %v is an index of %v", a[1], a[0])
			}
		case "map":
			if !k.set(a[0], st) {
				bad("a map that may not exist is written to: %v", a[0])
			}
		case "assert":
			bad("%v is assumed to be of one type without a check", a[0])
		}
	}
}

// room: a fresh array of constant size (make with constant sizes).
func (k *crash) room(b *Term) bool { return b.op == OpAlloc }

// exits: the run can end the process.
func (k *crash) exits(outs []Outcome) {
	for _, o := range outs {
		for _, ev := range o.st.events {
			if ev.kind == "panic" {
				k.c.violate(k.rule, k.entry+" panic", ev.pos, pathOf(ev, o.st), "a panic can be reached from %s", k.entry)
			}
		}
	}
}

// servePkg: the packages requests are served with.
func servePkg(p string) bool {
	switch p {
	case "internal/db", "internal/mresolver", "internal/tree/util", "internal/token", "pkg/token":
		return true
	}
	return strings.HasPrefix(p, "internal/db/") || strings.HasPrefix(p, "internal/token/") || strings.HasPrefix(p, "pkg/token/") || strings.HasPrefix(p, "internal/crypto/")
}

func (k *crash) scan() {
	var fns []*ssa.Function
	for f := range k.seen {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, f := range fns {
		if !k.c.P.inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeShort(call)
				if n == "os.Exit" || n == "syscall.Exit" || n == "runtime.Goexit" || strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") || strings.HasPrefix(n, "(*log.Logger).Fatal") || strings.HasPrefix(n, "(*log.Logger).Panic") {
					k.c.violate(k.rule, "exit in "+fnName(f), in.Pos(), nil, "%s, which requests lead to, ends the process (%s)", fnName(f), n)
				}
			}
		}
	}
}

func runC31(c *Ctx) {
	seen := map[*ssa.Function]bool{}
	newCrash := func(rule, entry string, args []*Term, all bool) *crash {
		k := &crash{c: c, rule: rule, entry: entry, seen: seen}
		k.trust = func(t *Term) bool {
			r, elem := root(t)
			if r.op != OpParam {
				return false
			}
			for i, a := range args {
				if same(a, r) && (i == 0 || all) {
					return !elem || i != 0
				}
			}
			return false
		}
		return k
	}
	// the handlers
	hs := c.handlers()
	var names []string
	for n := range hs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		args := entryArgs(hs[n])
		k := newCrash("handlers", n, args, false)
		inner := k.trust
		req := args[len(args)-1]
		k.trust = func(t *Term) bool {
			if inner(t) || same(t, req) {
				return true
			}
			// the elements of a list that was received are set
			r, elem := root(t)
			return same(r, req) && elem && t.op == OpDeref && t.args[0].op == OpElem
		}
		rs := c.runHandlers("handlers", k.hook, n)
		if r := rs[n]; r != nil {
			k.exits(r.outs)
		}
	}
	// the operations
	t := c.chainsOf()
	ops := map[string]bool{}
	for o := range mutators {
		ops[o] = true
	}
	for o := range mgrReaders {
		ops[o] = true
	}
	var l []string
	for o := range ops {
		l = append(l, o)
	}
	sort.Strings(l)
	for _, o := range l {
		f := c.P.method(treePkg, "Manager", o)
		if f == nil {
			c.unresolved("operations", o)
			continue
		}
		args := entryArgs(f)
		k := newCrash("operations", o, args, false)
		r := c.runOps(t, "operations", []string{o}, k.hook)[o]
		if r == nil {
			continue
		}
		k.exits(r.outs)
		res := f.Signature.Results()
		if res.Len() == 2 && returnsError(f.Signature) {
			if _, ok := res.At(0).Type().Underlying().(*types.Pointer); ok {
				for _, out := range r.outs {
					if !out.panic && out.st.nilness(out.res(1)) != 0 && !k.set(out.res(0), out.st) && !same(out.res(1), ext(out.res(0), 1)) {
						if x := out.res(0); x.op == OpExt && same(ext(x.args[0], 1), out.res(1)) {
							continue
						}
						c.violate("operations", o+" result", f.Pos(), trailOf(out.st), "%s may report success without a record", o)
					}
				}
			}
		}
	}
	// what the operations are built on
	n := 0
	cyc := map[string]bool{}
	for f := range recursive(c.P.fns) {
		cyc[fnName(f)] = true
	}
	for _, f := range c.P.fns {
		if f.Pkg == nil || f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		switch p := strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath); {
		case servePkg(p):
		case p == "internal/plugin/tree/manager" && (strings.HasPrefix(f.Name(), "Invoke") || f.Name() == "Run"):
		default:
			continue
		}
		name := fnName(f)
		n++
		args := entryArgs(f)
		k := newCrash("functions", name, args, true)
		r := c.runStore("functions", f, func(e *Engine) {
			k.hook(e)
			e.boundary = func(x string) bool { return x != name && cyc[x] }
		})
		k.exits(r.outs)
	}
	k := &crash{c: c, rule: "exits", seen: seen}
	k.scan()
	c.need("handlers", 34)
	c.need("operations", 34)
	c.need("functions", 50)
}
