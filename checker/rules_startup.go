package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const mgrMethodPrefix = "(*" + treePkg + ".Manager)."

const pluginPkg = "internal/plugin/tree/manager"

func init() {
	register(&Check{
		id:        "C38",
		technique: "path-sensitive typestate of the startup sequence: at every call that accepts requests, the constructors whose success is established and the objects that reach the served implementation",
		rule:      "at every (*grpc.Server).Serve the storage, crypto, tree and token constructors returned without error, their results are the ones the served implementation uses, plugins were attached if enabled, and the stored records were announced",
		run:       runC38,
	})
}

func index(st *State, names ...string) int {
	for i, ev := range st.events {
		for _, n := range names {
			if ev.name == n {
				return i
			}
		}
	}
	return -1
}

func runC38(c *Ctx) {
	m := c.runMain("startup")
	if m == nil {
		return
	}
	const (
		dbNew    = "internal/db.New"
		crNew    = "internal/crypto.New"
		treeNew  = treePkg + ".New"
		tokNew   = "internal/token.New"
		populate = "(*internal/db.DB).EventUpdateAll"
		rpcNew   = "internal/rpc2.New"
	)
	for _, n := range []string{dbNew, crNew, treeNew, tokNew, populate, rpcNew, "internal/startup.DoCallbacks"} {
		if c.P.fn(n) == nil {
			c.unresolved("startup", n)
		}
	}
	serves := 0
	for _, cl := range m.calls {
		ev, st := cl.ev, cl.st
		if !strings.HasSuffix(ev.name, "grpc.Server).Serve") {
			continue
		}
		serves++
		bad := func(inst, f string, a ...any) {
			c.violate("startup", inst, ev.pos, pathOf(ev, st), "requests are accepted although "+f, a...)
		}
		ok := func(name, what string) *Event {
			c.ob("startup", what)
			x := st.lastEvent(name)
			if x == nil {
				bad(what, "%s was not set up (%s)", what, name)
				return nil
			}
			if er := errOf(x); !st.holds(er, kNil) {
				bad(what, "setting up %s may have failed (the error of %s is not known to be nil)", what, name)
			}
			return x
		}
		d, cr, tr, tk := ok(dbNew, "the storage backend"), ok(crNew, "the crypto engine"), ok(treeNew, "the record-processing layer"), ok(tokNew, "the token service")
		pop := ok(populate, "the membership state")
		if d == nil || cr == nil || tr == nil || tk == nil || pop == nil {
			continue
		}
		uses := func(v *Term, x *Event) bool {
			r := ext(x.res, 0)
			return v.contains(func(y *Term) bool { return same(y, r) })
		}
		c.ob("startup", "one set of components")
		if !uses(tr.args[0], d) || !uses(tr.args[1], cr) {
			bad("one set of components", "the record-processing layer was set up with another storage backend or crypto engine")
		}
		if !uses(pop.args[0], d) {
			bad("one set of components", "the membership state was populated from another storage backend")
		}
		if index(st, populate) < index(st, treeNew) {
			bad("the membership state", "the stored records were announced before the record-processing layer listened")
		}
		// factories register themselves in the startup callbacks
		c.ob("startup", "callbacks")
		cb := index(st, "internal/startup.DoCallbacks")
		if cb < 0 || cb > index(st, dbNew, crNew, treeNew, tokNew) {
			bad("callbacks", "the startup callbacks did not run before the components were set up")
		}
		// what is served
		c.ob("startup", "served implementation")
		served := false
		for _, r := range st.events {
			if !strings.HasSuffix(r.name, ".RegisterNetAuth2Server") || !same(r.args[0], ev.args[0]) {
				continue
			}
			for _, n := range st.eventsNamed(rpcNew) {
				if r.args[1].contains(func(y *Term) bool { return same(y, n.res) }) && uses(n.args[0], tr) && uses(n.args[0], tk) {
					served = true
				}
			}
		}
		if !served {
			bad("served implementation", "the implementation using the initialized components is not registered with the server that accepts them")
		}
		// plugins
		en := settingBool(kString("plugin.enabled"))
		if st.holds(en, kFalse) {
			continue
		}
		c.ob("startup", "plugins")
		t := index(st, treeNew)
		// copies of a manager share its plugins
		if n := len(st.eventsNamed(pluginPkg + ".New")); n != 1 {
			bad("plugins", "%d plugin managers were set up instead of one", n)
		}
		for _, n := range []string{"LoadPlugins", "RegisterEntityHooks", "RegisterGroupHooks", "ConfigureEntityChains", "ConfigureGroupChains"} {
			name := "(*" + pluginPkg + ".Manager)." + n
			if c.P.fn(name) == nil {
				c.unresolved("startup", name)
				continue
			}
			i := index(st, name)
			conf := strings.HasPrefix(n, "Configure")
			switch {
			case i < 0:
				bad("plugins "+n, "plugins are enabled and %s was not called", n)
				continue
			case !conf && i > t:
				bad("plugins "+n, "%s was called only after the hooks of the record-processing layer were set up", n)
			case conf && i < t:
				bad("plugins "+n, "%s was called before the record-processing layer was set up", n)
			}
			if conf {
				kind := strings.TrimSuffix(strings.TrimPrefix(n, "Configure"), "Chains")
				f := st.events[i].args[1]
				if !uses(f, tr) || !f.contains(func(y *Term) bool {
					fn, _ := y.fn.(*ssa.Function)
					return fn != nil && fn.Object() != nil && fn.Object().Name() == "Register"+kind+"HookToChain"
				}) {
					bad("plugins "+n, "%s does not extend the chains of the served record-processing layer", n)
				}
			}
		}
	}
	if serves == 0 {
		c.violate("startup", "serve unreachable", m.fn.Pos(), nil, "the server never accepts requests")
	}
	// a constructor reports success only if everything it needs did
	for _, n := range []string{dbNew, "internal/db.NewKV", crNew, tokNew, treeNew} {
		c.errorsReported("constructors", n)
	}
}

// errorsReported: whenever the function may report success, no error
// of a call it made is unaccounted for, and what it returns is not nil.
func (c *Ctx) errorsReported(rule, name string) {
	f := c.P.fn(name)
	if f == nil {
		c.unresolved(rule, name)
		return
	}
	c.ob(rule, name)
	e := newEngine(c.P)
	e.boundary = func(n string) bool { return c.P.fn(n) != nil && n != name }
	outs := e.run(f, entryArgs(f), newState())
	c.done(e, rule, name)
	c.outs += len(outs)
	n := f.Signature.Results().Len()
	for _, o := range outs {
		if o.panic {
			continue
		}
		er := o.res(n - 1)
		if o.st.nilness(er) == 0 {
			continue
		}
		for _, ev := range o.st.events {
			if ev.res == nil || ev.kind != "call" {
				continue
			}
			x := errOf(ev)
			if !isErrType(x) || same(x, er) || o.st.holds(x, kNil) {
				continue
			}
			if strings.HasPrefix(ev.name, mgrMethodPrefix+"Initialize") {
				continue // C21 decides that the chains it builds are complete
			}
			c.violate(rule, name, ev.pos, trailOf(o.st), "%s may report success although %s failed", name, ev.name)
		}
		r := o.res(0)
		if er.op == OpExt && r.op == OpExt && er.args[0] == r.args[0] {
			continue // passes on the result of the constructor it looked up
		}
		if o.st.nilness(r) != 0 {
			c.violate(rule, name, f.Pos(), trailOf(o.st), "%s may report success without a result", name)
		}
	}
}
