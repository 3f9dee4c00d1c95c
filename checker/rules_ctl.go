package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ctlPkg    = "internal/ctl"
	cobraCmd  = "github.com/spf13/cobra.Command"
	cobraExec = "(*" + cobraCmd + ").Execute"
)

func init() {
	register(&Check{
		id:        "C37",
		technique: "path-sensitive dataflow of the request context and of the errors of requests through every function that a command is made of, interprocedural through the helpers of the command line; the mutating operations of the client library are those that send a request whose handler changes records",
		rule:      "the context of every mutating request was authorised with the operator's token: the cached one of the entity the command runs as, after it was verified, or one just obtained for this entity; a command ends normally only if none of its requests failed, and an error of a command ends the program with a non-zero status",
		run:       runC37,
	})
}

// commandFuncs lists the functions that are stored as a part of a command
// (Run, RunE, PersistentPreRun ...).
func (c *Ctx) commandFuncs(rule string) map[*ssa.Function]string {
	res := map[*ssa.Function]string{}
	pkg := c.P.byPkg[ctlPkg]
	if pkg == nil {
		c.unresolved(rule, ctlPkg)
		return res
	}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Blocks != nil {
			seen[f] = true
			fns = append(fns, f)
		}
	}
	for _, f := range c.P.fns {
		if f.Pkg == pkg {
			add(f)
		}
	}
	add(pkg.Func("init"))
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !strings.HasSuffix(pt.Elem().String(), cobraCmd) {
					continue
				}
				fld := pt.Elem().Underlying().(*types.Struct).Field(fa.Field)
				// Args only examines the arguments
				if _, ok := fld.Type().Underlying().(*types.Signature); !ok || !strings.Contains(fld.Name(), "Run") {
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.Function:
					res[v] = fld.Name()
				case *ssa.MakeClosure:
					res[v.Fn.(*ssa.Function)] = fld.Name()
				case *ssa.Const:
				default:
					c.violate(rule, "unresolved "+fnName(f), in.Pos(), nil, "the function of a command cannot be determined")
				}
			}
		}
	}
	return res
}

// senders lists the operations of the client library with the requests
// they send.
func (c *Ctx) senders(rule string) map[string][]string {
	res := map[string][]string{}
	for _, r := range c.clientOps(rule, keepSettings) {
		n := fnName(r.fn)
		for _, cl := range r.calls {
			if m := strings.TrimPrefix(cl.ev.name, rpcClient); m != cl.ev.name && indexOfStr(res[n], m) < 0 {
				res[n] = append(res[n], m)
			}
		}
	}
	return res
}

func indexOfStr(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// isOp: the event calls the named method of the client, which it may
// have from the token cache or the token service it contains.
func isOp(ev *Event, name string) bool {
	if !strings.HasSuffix(ev.name, ")."+name) {
		return false
	}
	for _, p := range []string{"(*" + clientPkg + ".Client)", "(" + clientPkg + ".Client)", "(" + cachePkg + ".TokenCache)", "(internal/token.Service)"} {
		if strings.HasPrefix(ev.name, p) {
			return true
		}
	}
	return false
}

func runC37(c *Ctx) {
	const rule = "authorization"
	sends := c.senders(rule)
	cmds := c.commandFuncs(rule)
	var fns []*ssa.Function
	for f := range cmds {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	authorize := clientPkg + ".Authorize"
	if c.P.fn(authorize) == nil {
		c.unresolved(rule, authorize)
		return
	}
	p := &ctlRun{c: c, sends: sends, authorize: authorize, tokens: map[string]bool{}, prints: map[*ssa.Function]bool{}}
	// functions that always provide the operator's token are analysed
	// only once
	for _, f := range c.P.fns {
		if f.Pkg == nil || f.Pkg != c.P.byPkg[ctlPkg] || cmds[f] != "" || f.Signature.Params().Len() > 0 || f.Blocks == nil || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		r := f.Signature.Results()
		if r.Len() == 0 || r.Len() > 2 || r.At(0).Type() != types.Typ[types.String] || r.Len() == 2 && r.At(1).Type() != types.Universe.Lookup("error").Type() {
			continue
		}
		if p.provides(f) {
			p.tokens[fnName(f)] = true
		}
	}
	for _, f := range fns {
		if f.Blocks == nil {
			c.unresolved(rule, fnName(f))
			continue
		}
		p.command(f)
	}
	c.need(rule, 15)
	c.need("token", 17)
	c.need("failure", 30)
	c.ctlMain()
}

type ctlRun struct {
	c         *Ctx
	sends     map[string][]string
	authorize string
	tokens    map[string]bool
	prints    map[*ssa.Function]bool
}

// printer: f has no result and does nothing that matters to the requests
// or the exit status.
func (p *ctlRun) printer(f *ssa.Function) bool {
	if f.Signature.Results().Len() > 0 {
		return false
	}
	if v, ok := p.prints[f]; ok {
		return v
	}
	ctl := p.c.P.byPkg[ctlPkg]
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] {
			return true
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					// only variables of its own
					root := in.Addr
					for {
						switch x := root.(type) {
						case *ssa.FieldAddr:
							root = x.X
							continue
						case *ssa.IndexAddr:
							root = x.X
							continue
						}
						break
					}
					if _, ok := root.(*ssa.Alloc); !ok {
						return false
					}
				case *ssa.MakeClosure, *ssa.Go, *ssa.Defer, *ssa.Panic:
					return false
				case *ssa.Call:
					g := in.Common().StaticCallee()
					if g == nil {
						if _, ok := in.Common().Value.(*ssa.Builtin); ok {
							continue
						}
						return false
					}
					if g.Pkg == ctl {
						if !visit(g) {
							return false
						}
						continue
					}
					n := g.String()
					if strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "strconv.") || g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), protoPath) || g.Pkg == nil && strings.Contains(n, protoPath) {
						continue
					}
					return false
				}
			}
		}
		return true
	}
	p.prints[f] = visit(f)
	return p.prints[f]
}

func (p *ctlRun) engine(f *ssa.Function) *Engine {
	e := newEngine(p.c.P)
	keepSettings(e, f)
	ctl := p.c.P.byPkg[ctlPkg]
	e.boundary = func(n string) bool {
		fn := p.c.P.fn(n)
		return p.tokens[n] || fn != nil && (fn.Pkg != ctl || p.printer(fn))
	}
	silent(e)
	// verifying a token again gives the same answer
	for _, n := range []string{"(*" + clientPkg + ".Client).Validate", "(internal/token.Service).Validate"} {
		n := n
		e.models[n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			r := call.Common().Signature().Results()
			t := mk(Term{op: OpPure, s: n, args: args, typ: r})
			var l []*Term
			for i := 0; i < r.Len(); i++ {
				l = append(l, withType(ext(t, i), r.At(i).Type()))
			}
			e.addEvent(fr, st, "call", n, nil, args, t, call.Pos())
			return one(st, mk(Term{op: OpTuple, args: l}))
		}
	}
	return e
}

// failed: a request of the path that may have failed.
func (p *ctlRun) failed(o Outcome, count func()) *Event {
	for _, ev := range o.st.events {
		if ev.kind != "call" || len(p.sends[ev.name]) == 0 && !isOp(ev, "DelToken") && !isOp(ev, "PutToken") && ev.name != clientPkg+".New" {
			continue
		}
		count()
		if er := errOf(ev); er != nil && !o.st.holds(er, kNil) {
			return ev
		}
	}
	return nil
}

// provides: whatever f returns is the operator's token.
func (p *ctlRun) provides(f *ssa.Function) bool {
	e := p.engine(f)
	some := false
	outs := e.run(f, entryArgs(f), newState())
	p.c.done(e, "token", fnName(f))
	p.c.outs += len(outs)
	for _, o := range outs {
		ev := p.failed(o, func() {})
		if o.panic {
			if x := o.st.lastEvent("os.Exit"); x != nil && ev != nil {
				if n, ok := x.args[0].intv(); !ok || n == 0 {
					return false
				}
			}
			continue
		}
		if f.Signature.Results().Len() == 2 && o.st.nilness(o.res(1)) == 0 {
			continue
		}
		if ev != nil || p.operatorToken(e, o.st, o.res(0)) != "" {
			return false
		}
		some = true
	}
	if some {
		p.c.ob("token", fnName(f))
	}
	return some
}

func (p *ctlRun) command(f *ssa.Function) {
	const rule = "authorization"
	c, sends := p.c, p.sends
	cmdName := fnName(f)
	e := p.engine(f)
	seen := map[string]bool{}
	e.onCall = func(ev *Event, st *State) {
		if ev.kind != "call" {
			if (ev.kind == "go" || ev.kind == "defer") && len(sends[ev.name]) > 0 {
				c.violate(rule, "undecided "+cmdName, ev.pos, pathOf(ev, st), "%s sends requests in the background", cmdName)
			}
			return
		}
		k := ev.key + st.key()
		if seen[k] {
			return
		}
		seen[k] = true
		if ev.name == p.authorize {
			c.ob("token", cmdName)
			if why := p.operatorToken(e, st, ev.args[1]); why != "" {
				c.violate("token", cmdName, ev.pos, pathOf(ev, st), "%s authorises a request with %v, %s", cmdName, ev.args[1], why)
			}
			return
		}
		var which string
		for _, m := range sends[ev.name] {
			for _, op := range handlerOps[m].ops {
				if _, ok := mutators[op]; ok {
					which = m
				}
			}
		}
		if which == "" {
			return
		}
		c.ob(rule, cmdName+" "+which)
		if (strings.HasSuffix(which, "UM") || which == "EntityKeys") && asksToRead(st, ev) {
			return
		}
		au := func(t *Term) bool { return t.op == OpCall && t.s == p.authorize }
		if !deep(ev.args[1], nil, au) {
			c.violate(rule, cmdName+" "+which, ev.pos, pathOf(ev, st), "%s sends %s without the operator's token: %v", cmdName, which, ev.args[1])
		}
	}
	outs := e.run(f, entryArgs(f), newState())
	c.done(e, rule, cmdName)
	c.outs += len(outs)
	for _, o := range outs {
		ev := p.failed(o, func() { c.ob("failure", cmdName) })
		if ev == nil {
			continue
		}
		if o.panic {
			x := o.st.lastEvent("os.Exit")
			if x == nil {
				continue // a panic ends with status 2
			}
			if n, ok := x.args[0].intv(); !ok || n == 0 {
				c.violate("failure", cmdName, x.pos, trailOf(o.st), "%s ends the program with status %v although %s may have failed", cmdName, x.args[0], ev.name)
			}
			continue
		}
		if n := f.Signature.Results().Len(); n > 0 {
			if r := o.res(n - 1); o.st.nilness(r) == 0 || same(r, errOf(ev)) {
				continue
			}
		}
		c.violate("failure", cmdName, ev.pos, trailOf(o.st), "%s ends normally although %s may have failed", cmdName, ev.name)
	}
}

// asksToRead: the mode given to the operation is known to be READ.
func asksToRead(st *State, ev *Event) bool {
	for _, a := range ev.args[2:] {
		if a.typ == nil || !types.Identical(a.typ.Underlying(), types.Typ[types.String]) {
			continue
		}
		ok := st.holds(a, kString("READ")) || st.lits(func(t, v *Term, eq bool) bool {
			if !eq || constStr(v) != "READ" {
				return false
			}
			t = strip(t)
			return same(t, a) || (t.op == OpPure || t.op == OpCall) && t.s == "strings.ToUpper" && same(t.args[0], a)
		})
		if ok || constStr(st.resolve(a)) == "READ" {
			return true
		}
	}
	return false
}

// operatorToken: t is a token of the entity the command runs as.
func (p *ctlRun) operatorToken(e *Engine, st *State, t *Term) string {
	const unknown = "which is not known to be the operator's token"
	t = strip(t)
	operator := e.setting(st, "entity")
	if t.op == OpConst && constStr(t) == "" {
		for _, ev := range st.events {
			if isOp(ev, "GetToken") && st.holdsNot(errOf(ev), kNil) {
				return "" // there is none
			}
		}
		return "which is empty although there may be a token"
	}
	if t.op == OpCall && p.tokens[t.s] {
		return ""
	}
	if t.op != OpExt || t.n != 0 || t.args[0].op != OpCall {
		return unknown
	}
	for _, ev := range st.events {
		if ev.kind != "call" || ev.res == nil || strip(ev.res) != strip(t.args[0]) {
			continue
		}
		if p.tokens[ev.name] {
			if !st.holds(ext(ev.res, 1), kNil) {
				return "which may not have been obtained"
			}
			return ""
		}
		who := -1
		if isOp(ev, "GetToken") {
			who = 1
		}
		if isOp(ev, "AuthGetToken") {
			who = 2
		}
		if who < 0 {
			return unknown
		}
		if !same(st.resolve(ev.args[who]), st.resolve(operator)) && !st.heldEqual(ev.args[who], operator) {
			return "which is not known to belong to the entity the command runs as"
		}
		if !st.holds(errOf(ev), kNil) {
			return "which may not have been obtained"
		}
		if who == 1 {
			for _, v := range st.events {
				if isOp(v, "Validate") && same(v.args[1], t) && st.holds(ext(v.res, 1), kNil) {
					return ""
				}
			}
			return "which was cached and is not known to be still valid"
		}
		return ""
	}
	return unknown
}

// ctlMain: an error of a command ends the program with a failure.
func (c *Ctx) ctlMain() {
	const rule = "exit status"
	f := c.P.fn("cmd/netauth.main")
	if f == nil {
		c.unresolved(rule, "the main function of the command line")
		return
	}
	e := newEngine(c.P)
	e.boundary = func(n string) bool {
		fn := c.P.fn(n)
		return fn != nil && fn.Pkg != f.Pkg && fn.Pkg != c.P.byPkg[ctlPkg]
	}
	outs := e.run(f, nil, newState())
	c.done(e, rule, fnName(f))
	c.outs += len(outs)
	for _, o := range outs {
		x := o.st.lastEvent("os.Exit")
		ran := false
		for _, ev := range o.st.events {
			if !strings.HasPrefix(ev.name, cobraExec) {
				continue
			}
			ran = true
			c.ob(rule, "main")
			if o.st.holds(errOf(ev), kNil) {
				continue
			}
			if o.panic && x == nil {
				continue
			}
			if x != nil {
				if n, ok := x.args[0].intv(); ok && n != 0 {
					continue
				}
			}
			c.violate(rule, "main", ev.pos, trailOf(o.st), "the program ends with success although the command may have failed")
		}
		if !ran && !o.panic {
			c.violate(rule, "main", token.NoPos, trailOf(o.st), "the program ends without executing a command")
		}
	}
	c.need(rule, 1)
}

// silent: what is printed does not matter.
func silent(e *Engine) {
	for _, n := range []string{"Print", "Printf", "Println", "Fprint", "Fprintf", "Fprintln"} {
		e.models["fmt."+n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			return one(st, mk(Term{op: OpTuple, args: []*Term{kInt(0), kNil}}))
		}
	}
}
