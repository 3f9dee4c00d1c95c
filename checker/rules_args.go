package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:        "C45",
		technique: "path-sensitive nil, bounds and type-assertion analysis of every command of the command line tool, started from what its argument validator has established, of the initialisation that comes before it and of the client library below",
		rule:      "a command reads an argument only where its validator or a comparison with the number of arguments established that it was given; a pointer is dereferenced only where it is known to be set: an error that was returned with it was found nil, or the initialisation that ran before the command has set it; the first element of an answer is read only if the server always gives one",
		run:       runC45,
	})
}

type cliCommand struct {
	base      ssa.Value
	fn        *ssa.Function
	run, args []ssa.Value
	pre       []ssa.Value
}

// commands lists the command literals with their functions.
func (c *Ctx) commands(rule string) []*cliCommand {
	pkg := c.P.byPkg[ctlPkg]
	if pkg == nil {
		c.unresolved(rule, ctlPkg)
		return nil
	}
	fns := []*ssa.Function{}
	if f := pkg.Func("init"); f != nil && f.Blocks != nil {
		fns = append(fns, f)
	}
	for _, f := range c.P.fns {
		if f.Pkg == pkg && f.Name() != "init" || f.Pkg == pkg && f.Synthetic == "" {
			fns = append(fns, f)
		}
	}
	var l []*cliCommand
	seen := map[*ssa.Function]bool{}
	for _, f := range fns {
		if seen[f] {
			continue
		}
		seen[f] = true
		by := map[ssa.Value]*cliCommand{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !strings.HasSuffix(pt.Elem().String(), cobraCmd) {
					continue
				}
				fld := pt.Elem().Underlying().(*types.Struct).Field(fa.Field)
				if _, ok := fld.Type().Underlying().(*types.Signature); !ok {
					continue
				}
				if k, ok := st.Val.(*ssa.Const); ok && k.IsNil() {
					continue
				}
				m := by[fa.X]
				if m == nil {
					m = &cliCommand{base: fa.X, fn: f}
					by[fa.X] = m
					l = append(l, m)
				}
				switch {
				case fld.Name() == "Args":
					m.args = append(m.args, st.Val)
				case strings.HasPrefix(fld.Name(), "PersistentPreRun"):
					m.pre = append(m.pre, st.Val)
				case strings.Contains(fld.Name(), "Run"):
					m.run = append(m.run, st.Val)
				}
			}
		}
	}
	return l
}

func fnOfValue(v ssa.Value) *ssa.Function {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Function:
			return x
		case *ssa.MakeClosure:
			if f, ok := x.Fn.(*ssa.Function); ok && len(x.Bindings) == 0 {
				return f
			}
		}
		return nil
	}
}

// argFacts adds what a validator of the cobra package establishes.
func argFacts(v ssa.Value, args *Term, st *State) bool {
	for {
		if x, ok := v.(*ssa.ChangeType); ok {
			v = x.X
			continue
		}
		break
	}
	ln := mk(Term{op: OpPure, s: "len", args: []*Term{args}, typ: types.Typ[types.Int]})
	ge := func(n *Term) {
		st.assume(mk(Term{op: OpBin, s: "<", args: []*Term{ln, n}, typ: types.Typ[types.Bool]}), false)
	}
	const p = "github.com/spf13/cobra."
	switch x := v.(type) {
	case *ssa.Function:
		switch x.String() {
		case p + "NoArgs":
			st.setFact(ln, kInt(0), true)
			return true
		case p + "ArbitraryArgs", p + "OnlyValidArgs":
			return true
		}
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil {
			return false
		}
		var ns []*Term
		for _, a := range x.Common().Args {
			if k, ok := a.(*ssa.Const); ok {
				ns = append(ns, kInt(k.Int64()))
			}
		}
		switch f.String() {
		case p + "ExactArgs", p + "ExactValidArgs":
			if len(ns) == 1 {
				st.setFact(ln, ns[0], true)
			}
			return len(ns) == 1
		case p + "MinimumNArgs":
			if len(ns) == 1 {
				ge(ns[0])
			}
			return true
		case p + "RangeArgs":
			if len(ns) == 2 {
				ge(ns[0])
			}
			return true
		case p + "MaximumNArgs":
			return true
		}
	}
	return false
}

func runC45(c *Ctx) {
	const rule = "commands"
	seen := map[*ssa.Function]bool{}
	cmds := c.commands(rule)
	pkg := c.P.byPkg[ctlPkg]
	if pkg == nil {
		return
	}
	name := func(m *cliCommand) string {
		for _, v := range m.run {
			if f := fnOfValue(v); f != nil {
				return fnName(f)
			}
		}
		return "a command of " + fnName(m.fn)
	}
	sort.SliceStable(cmds, func(i, j int) bool { return name(cmds[i]) < name(cmds[j]) })
	prints := &ctlRun{c: c, prints: map[*ssa.Function]bool{}}
	// functions that only provide a string are analysed on their own
	helpers := map[*ssa.Function]bool{}
	engine := func(entry string, k *crash) *Engine {
		e := newEngine(c.P)
		if f := c.P.fn(entry); f != nil {
			keepSettings(e, f)
		}
		e.boundary = func(n string) bool {
			f := c.P.fn(n)
			if f == nil || n == entry {
				return false
			}
			if f.Pkg == pkg && plainString(f) {
				helpers[f] = true
				return true
			}
			return f.Pkg != pkg || prints.printer(f)
		}
		k.hook(e)
		silent(e)
		// what a loop has found out about records is forgotten
		e.onHead = func(fr *Frame, to *ssa.BasicBlock, back bool, en env, st *State) {
			if !back {
				return
			}
			of := func(t *Term) bool {
				return k.rule == "printing" || t.contains(func(x *Term) bool { return x.op == OpField || x.op == OpFVal })
			}
			for t := range st.facts {
				if of(t) {
					delete(st.facts, t)
				}
			}
			for x := range st.ex {
				if of(x.t) || of(x.val) {
					delete(st.ex, x)
				}
			}
		}
		e.onCall = func(ev *Event, st *State) {
			f := c.P.fn(ev.name)
			if ev.kind == "call" && f != nil && f.Pkg == pkg {
				// what is printed exists
				for i, a := range ev.args {
					if i < len(f.Params) {
						if _, ok := f.Params[i].Type().Underlying().(*types.Pointer); ok {
							c.ob(rule, entry)
							if !k.set(a, st) {
								c.violate(rule, entry+" "+ev.name, ev.pos, pathOf(ev, st), "%s is given %v, which may be nil", ev.name, a)
							}
						}
					}
				}
			}
			if ev.kind != "call" || f == nil || f.Signature.Recv() == nil || len(ev.args) == 0 {
				return
			}
			if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); !ok {
				return
			}
			c.ob("initialisation", entry)
			if !k.set(ev.args[0], st) {
				c.violate("initialisation", entry+" "+ev.name, ev.pos, pathOf(ev, st), "%s is called on %v, which may be nil", ev.name, ev.args[0])
			}
		}
		return e
	}
	// what runs before a command
	var pre []*ssa.Function
	for _, m := range cmds {
		for _, v := range m.pre {
			f := fnOfValue(v)
			if f == nil || f.Blocks == nil {
				c.violate("initialisation", "undecided", m.fn.Pos(), nil, "what runs before the commands is not determined")
				continue
			}
			pre = append(pre, f)
		}
	}
	for _, f := range c.onInitialize() {
		k := &crash{c: c, rule: "initialisation", entry: fnName(f), seen: seen, strict: true}
		k.trust = func(t *Term) bool { return false }
		e := engine(fnName(f), k)
		e.run(f, entryArgs(f), newState())
		c.done(e, "initialisation", fnName(f))
		c.ob("initialisation", fnName(f))
	}
	for _, m := range cmds {
		if len(m.run) == 0 {
			continue
		}
		n := name(m)
		if len(m.run) > 1 || len(m.args) > 1 {
			c.violate(rule, "undecided "+n, m.fn.Pos(), nil, "the functions of the command are not determined")
			continue
		}
		f := fnOfValue(m.run[0])
		if f == nil || f.Blocks == nil {
			c.violate(rule, "undecided "+n, m.fn.Pos(), nil, "the function of the command cannot be determined")
			continue
		}
		params := entryArgs(f)
		k := &crash{c: c, rule: rule, entry: n, seen: seen, strict: true}
		k.trust = func(t *Term) bool {
			r, elem := root(t)
			if r.op == OpParam {
				// the command itself
				return same(r, params[0]) && !elem
			}
			// the elements of the list a request returned
			return elem
		}
		e := engine(n, k)
		states := []*State{newState()}
		if len(m.args) == 1 && !argFacts(m.args[0], params[1], states[0]) {
			v := fnOfValue(m.args[0])
			if v == nil || v.Blocks == nil {
				c.violate(rule, "undecided "+n, f.Pos(), nil, "the validator of the arguments of the command is not determined")
				continue
			}
			states = nil
			for _, o := range e.run(v, params, newState()) {
				if !o.panic && o.st.nilness(o.res(0)) != 0 && !o.st.holdsNot(o.res(0), kNil) {
					states = append(states, o.st)
				}
			}
			if len(states) == 0 {
				c.violate(rule, "undecided "+n, v.Pos(), nil, "no arguments are accepted")
			}
		}
		if f.Pkg == pkg {
			for _, p := range pre {
				var next []*State
				for _, st := range states {
					for _, o := range e.run(p, params, st) {
						if !o.panic {
							next = append(next, o.st)
						}
					}
				}
				states = next
			}
		}
		for _, st := range states {
			outs := e.run(f, params, st)
			c.outs += len(outs)
			c.ob("entries", n)
			for _, o := range outs {
				for _, ev := range o.st.events {
					if ev.kind == "panic" && ev.name == "panic" {
						c.violate(rule, n+" panic", ev.pos, pathOf(ev, o.st), "a panic can be reached from %s", n)
					}
				}
			}
		}
		c.done(e, rule, n)
	}
	done := map[*ssa.Function]bool{}
	for len(done) < len(helpers) {
		var l []*ssa.Function
		for f := range helpers {
			if !done[f] {
				l = append(l, f)
			}
		}
		for _, f := range l {
			done[f] = true
			n := fnName(f)
			k := &crash{c: c, rule: "helpers", entry: n, seen: seen, strict: true}
			k.trust = func(t *Term) bool { return false }
			e := engine(n, k)
			states := []*State{newState()}
			for _, p := range pre {
				var next []*State
				for _, st := range states {
					for _, o := range e.run(p, entryArgs(p), st) {
						if !o.panic {
							next = append(next, o.st)
						}
					}
				}
				states = next
			}
			for _, st := range states {
				c.outs += len(e.run(f, entryArgs(f), st))
			}
			c.done(e, "helpers", n)
		}
	}
	for f := range prints.prints {
		if f.Pkg != pkg || !prints.prints[f] {
			continue
		}
		n := fnName(f)
		k := &crash{c: c, rule: "printing", entry: n, seen: seen, strict: true}
		k.trust = func(t *Term) bool { return true }
		e := engine(n, k)
		outs := e.run(f, entryArgs(f), newState())
		c.done(e, "printing", n)
		c.outs += len(outs)
	}
	// the client library
	lib := 0
	answers := c.answers("answers")
	for _, f := range c.P.fns {
		if f.Pkg == nil || f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		switch p := strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath); p {
		case clientPkg, cachePkg:
		default:
			if !strings.HasPrefix(p, cachePkg+"/") {
				continue
			}
		}
		n := fnName(f)
		lib++
		args := entryArgs(f)
		k := &crash{c: c, rule: "client", entry: n, seen: seen}
		k.trust = func(t *Term) bool {
			r, elem := root(t)
			if r.op == OpParam {
				return true
			}
			return elem
		}
		k.answers = answers
		e := newEngine(c.P)
		silent(e)
		keepSettings(e, f)
		storeModels(e)
		k.hook(e)
		outs := e.run(f, args, newState())
		c.done(e, "client", n)
		c.outs += len(outs)
		k.exits(outs)
	}
	c.need("entries", 30)
	c.need("initialisation", 2)
	c.need("client", 20)
}

// onInitialize lists the functions given to cobra.OnInitialize.
func (c *Ctx) onInitialize() []*ssa.Function {
	var l []*ssa.Function
	for _, f := range c.P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || calleeShort(call) != "github.com/spf13/cobra.OnInitialize" {
					continue
				}
				n := len(l)
				for _, a := range variadic(call) {
					if g := fnOfValue(a); g != nil && g.Blocks != nil {
						l = append(l, g)
					}
				}
				if len(l) == n {
					c.violate("initialisation", "undecided "+fnName(f), in.Pos(), nil, "what is run on initialisation is not determined")
				}
			}
		}
	}
	return l
}

// variadic: the values of a list written out in a call.
func variadic(call ssa.CallInstruction) []ssa.Value {
	args := call.Common().Args
	if len(args) == 0 {
		return nil
	}
	sl, ok := args[len(args)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	var l []ssa.Value
	for _, r := range *sl.X.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
					l = append(l, st.Val)
				}
			}
		}
	}
	return l
}

// answers: whether a list of the answer to a request is never empty when
// the request succeeded.
func (c *Ctx) answers(rule string) func(request, field string) bool {
	memo := map[string]bool{}
	return func(request, field string) bool {
		key := request + "." + field
		if v, ok := memo[key]; ok {
			return v
		}
		r := c.runHandlers(rule, nil, request)[request]
		ok := r != nil && len(r.outs) > 0
		if r != nil {
			for _, o := range r.outs {
				if o.panic || o.st.nilness(o.res(1)) == 0 || o.st.holdsNot(o.res(1), kNil) {
					continue
				}
				l := r.e.fieldVal(o.st, o.res(0), field)
				k := &crash{c: c, trust: func(*Term) bool { return false }}
				c.ob(rule, key)
				if l == nil || !k.longer(l, 0, o.st) {
					ok = false
				}
			}
		}
		memo[key] = ok
		return ok
	}
}

// plainString: f has only strings as parameters and only a string, or a
// string and an error, as result.
func plainString(f *ssa.Function) bool {
	str := func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) }
	for _, p := range f.Params {
		if !str(p.Type()) {
			return false
		}
	}
	r := f.Signature.Results()
	return r.Len() > 0 && r.Len() <= 2 && str(r.At(0).Type()) && (r.Len() == 1 || isErrType(mk(Term{op: OpParam, s: "t", typ: r.At(1).Type()}))) && f.Blocks != nil
}
