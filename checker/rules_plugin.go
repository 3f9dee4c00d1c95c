package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:        "C30",
		technique: "constant propagation through package initialisation, value flow along the plugin transport (hook, client, server, dispatcher) and loop obligations, all on SSA",
		rule:      "The plugin actions, the hooks made for them, their names, priorities and the chains they are put into are read from the package initialisers by dataflow and compared with the operation each is named for: the right chains only, pre-actions before the step, the others after every step but the one that saves. A hook calls every plugin with its action, the record as the plugins before left it and the request; stops at the first error and returns it; and puts the last result into the record. The server side hands exactly the record and the request to the method named like the action and returns exactly its result and error. The server of requests is only started with all plugins loaded, their hooks constructed and placed.",
		run:       runC30,
	})
}

const (
	plugCommon   = "internal/plugin/tree/common"
	plugManager  = "internal/plugin/tree/manager"
	plugConsumer = "internal/plugin/tree/consumer"
	plugProvider = "internal/plugin/tree/provider"
)

// pluginChains: the operations every action is consulted in.  Actions
// marked + may be consulted in others, too.
var pluginChains = map[string][]string{
	"EntityCreate":     {"CREATE"},
	"EntityDestroy":    {"DESTROY"},
	"EntityLock":       {"LOCK"},
	"EntityUnlock":     {"UNLOCK"},
	"EntityUpdate":     {"+", "MERGE-METADATA", "UEM-UPSERT", "UEM-CLEARFUZZY", "UEM-CLEAREXACT"},
	"PreSecretChange":  {"SET-SECRET"},
	"PostSecretChange": {"SET-SECRET"},
	"PreAuthCheck":     {"VALIDATE-IDENTITY"},
	"PostAuthCheck":    {"VALIDATE-IDENTITY"},
	"GroupCreate":      {"CREATE"},
	"GroupDestroy":     {"DESTROY"},
	"GroupUpdate":      {"+", "MERGE-METADATA", "UGM-UPSERT", "UGM-CLEARFUZZY", "UGM-CLEAREXACT"},
}

type plugAction struct {
	name string
	val  *Term
	kind string
	hook string
	prio int64
}

// subst replaces subterms and folds what becomes constant.
func subst(t *Term, f func(x *Term) *Term) *Term {
	if r := f(t); r != nil {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = subst(a, f)
		same = same && args[i] == a
	}
	if same && t.op != OpPure && t.op != OpCall {
		return t
	}
	n := *t
	n.args, n.id = args, 0
	switch t.op {
	case OpFVal, OpField:
		if args[0].op == OpStruct {
			return fval(args[0], t.s, t.typ)
		}
	case OpDeref:
		if args[0].isConst() || args[0].op == OpStruct {
			return args[0]
		}
	case OpElem:
		if l := args[0]; l.op == OpTuple {
			if i, ok := args[1].intv(); ok && int(i) < len(l.args) {
				return l.args[i]
			}
		}
	case OpExt:
		if args[0].op == OpTuple && t.n < len(args[0].args) {
			return args[0].args[t.n]
		}
	case OpPure, OpCall:
		var s []string
		for _, a := range args {
			if x, ok := a.str(); ok {
				s = append(s, x)
			}
		}
		var l []string
		switch {
		case t.s == "strings.Split" && len(s) == 2:
			l = strings.Split(s[0], s[1])
		case t.s == "strings.SplitN" && len(s) == 2 && len(args) == 3:
			if k, ok := args[2].intv(); ok {
				l = strings.SplitN(s[0], s[1], int(k))
			}
		case t.s == "strings.Cut" && len(s) == 2:
			a, b, ok := strings.Cut(s[0], s[1])
			return mk(Term{op: OpTuple, args: []*Term{kString(a), kString(b), map[bool]*Term{true: kTrue, false: kFalse}[ok]}})
		case t.s == "strings.ToLower" && len(s) == 1:
			return kString(strings.ToLower(s[0]))
		}
		if l != nil {
			var el []*Term
			for _, x := range l {
				el = append(el, kString(x))
			}
			return mk(Term{op: OpTuple, args: el})
		}
	}
	return mk(n)
}

// initOf runs the initialiser of one package.
func (c *Ctx) initOf(rule, pkg string) (*Engine, *State) {
	f := c.P.fn(pkg + ".init")
	if f == nil {
		c.unresolved(rule, pkg+".init")
		return nil, nil
	}
	e := newEngine(c.P)
	e.boundary = func(n string) bool { return strings.HasSuffix(n, ".init") }
	var st *State
	for _, o := range e.run(f, nil, initState(f)) {
		if !o.panic {
			st = o.st
		}
	}
	c.done(e, rule, pkg+".init")
	if st == nil {
		c.unresolved(rule, "the initialisation of "+pkg)
	}
	return e, st
}

// contents lists the elements of an initialised array or slice variable.
func contents(e *Engine, st *State, g *Term) []*Term {
	v := st.mem[g]
	if v != nil {
		if l, ok := e.sliceElems(st, v); ok {
			return l
		}
	}
	gl, ok := g.fn.(*ssa.Global)
	if !ok {
		return nil
	}
	arr, ok := gl.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	var l []*Term
	for i := int64(0); i < arr.Len(); i++ {
		a := mk(Term{op: OpElem, args: []*Term{g, kInt(i)}, typ: arr.Elem()})
		v := e.load(st, a, arr.Elem())
		if strip(v) == a {
			v = zeroOf(arr.Elem()) // not stored to
		}
		l = append(l, v)
	}
	return l
}

// entryOf: an entry of a table.
func entryOf(x, table *Term) bool {
	if x.op == OpDeref && x.args[0].op == OpElem {
		x = x.args[0]
	}
	if x.op != OpElem && !(x.op == OpPure && x.s == "index") {
		return false
	}
	b := x.args[0]
	if b.op == OpDeref {
		b = b.args[0]
	}
	return b == table || strip(b) == strip(table) || b.fn != nil && b.fn == table.fn
}

type plugins struct {
	c       *Ctx
	t       *chainTable
	acts    map[string]*plugAction
	byVal   map[string]*plugAction
	ie      *Engine
	init    *State
	remote  map[string]string // kind -> method called at the other end
	service string            // name the plugin is dispensed under
}

func runC30(c *Ctx) {
	p := &plugins{c: c, t: c.chainsOf(), acts: map[string]*plugAction{}, byVal: map[string]*plugAction{}, remote: map[string]string{}}
	sp := c.P.byPkg[plugCommon]
	at := c.P.namedType(plugCommon, "PluginAction")
	pt := c.P.namedType(plugCommon, "Plugin")
	if sp == nil || at == nil || pt == nil {
		c.unresolved("anchor", plugCommon)
		return
	}
	if p.ie, p.init = c.initOf("anchor", plugCommon); p.init == nil {
		return
	}
	iface := pt.Underlying().(*types.Interface)
	methods := map[string]string{}
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		s := m.Type().(*types.Signature)
		if s.Params().Len() > 0 {
			if n, ok := s.Params().At(0).Type().(*types.Named); ok {
				methods[m.Name()] = strings.ToLower(n.Obj().Name())
			}
		}
	}
	for _, n := range sp.Pkg.Scope().Names() {
		k, ok := sp.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok || !types.Identical(k.Type(), at) {
			continue
		}
		c.ob("actions", n)
		a := &plugAction{name: n, val: kConst(k.Val(), k.Type()), kind: methods[n]}
		p.acts[n] = a
		if a.kind == "" {
			c.violate("actions", n, k.Pos(), nil, "plugins have no method for the action %s", n)
			continue
		}
		if o := p.byVal[k.Val().ExactString()]; o != nil {
			c.violate("actions", n, k.Pos(), nil, "the actions %s and %s cannot be told apart", n, o.name)
		}
		p.byVal[k.Val().ExactString()] = a
	}
	for n := range methods {
		if p.acts[n] == nil {
			c.violate("actions", n, 0, nil, "no action stands for the plugin method %s", n)
		}
	}
	c.need("actions", 12)
	for _, kind := range []string{"entity", "group"} {
		p.hook(kind)
	}
	for _, a := range p.sortedActs() {
		p.dispatch(a)
	}
	c.need("dispatch", 12)
	for _, kind := range []string{"entity", "group"} {
		p.construct(kind)
		p.place(kind)
	}
	c.need("constructed", 2)
	c.need("placed", 2)
	p.order()
	p.wiring()
	p.loading()
	p.startup()
}

func (p *plugins) sortedActs() []*plugAction {
	var l []*plugAction
	for _, a := range p.acts {
		if a.kind != "" {
			l = append(l, a)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}

const rpcCallName = "(*net/rpc.Client).Call"

// hook: what one hook does with all plugins.
func (p *plugins) hook(kind string) {
	const rule = "consulted"
	c := p.c
	T := title(kind)
	ht := c.P.namedType(plugManager, T+"Hook")
	var f *ssa.Function
	if ht != nil {
		f = c.P.methodOf(ht, "Run")
	}
	if f == nil || len(f.Params) != 3 {
		c.unresolved(rule, plugManager+"."+T+"Hook.Run")
		return
	}
	inst := fnName(f)
	bad := func(what string, st *State, format string, a ...any) {
		c.violate(rule, inst+" "+what, f.Pos(), trailOf(st), format, a...)
	}
	e := newEngine(c.P)
	args := entryArgs(f)
	rec, req := args[1], args[2]
	ot := c.P.namedType(plugCommon, "PluginOpts")
	recT := f.Params[1].Type().(*types.Pointer).Elem()
	action := func(t *Term) bool {
		t = strip(t)
		b := fieldOf(t, t.lastField())
		return b != nil && same(b, args[0]) // there is one field of this type
	}
	resultOf := func(v *Term, ev *Event) bool {
		b := rootOf(ev.args[3])
		if len(b.some) > 0 && b.op == OpSome {
			b = b.args[0]
		}
		return v != nil && v.contains(func(x *Term) bool { return x == b || x.op == OpSome && x.args[0] == b })
	}
	content := func(st *State, ptr *Term) *Term { return e.load(st, ptr, recT) }
	var last *Event
	checked := map[string]bool{}
	merges := 0
	prior := func(st *State, ev *Event) *Event {
		var r *Event
		for _, x := range st.events {
			if x == ev {
				break
			}
			if x.name == rpcCallName {
				r = x
			}
		}
		return r
	}
	current := func(st *State, ptr *Term, ev *Event) string {
		pr := prior(st, ev)
		if pr == nil {
			if same(ptr, rec) {
				return ""
			}
			if v := content(st, ptr); v == origin(rec, recT) || same(v, content(newState(), rec)) {
				return ""
			}
			return "the record being processed"
		}
		if v := content(st, ptr); resultOf(v, pr) && v.contains(func(x *Term) bool { return x.s == T || x.op == OpField && x.s == T }) {
			return ""
		}
		return "what the plugin before returned"
	}
	e.onCall = func(ev *Event, st *State) {
		switch ev.name {
		case rpcCallName:
			if k := ev.key + st.key(); checked[k] {
				return
			} else {
				checked[k] = true
			}
			last = ev
			c.ob(rule, inst+" call")
			m := constStr(unwrap(ev.args[1]))
			if !strings.HasPrefix(m, "Plugin.") {
				bad("method", st, "the plugin method that is called is not a constant of the plugin service: %v", ev.args[1])
				return
			}
			p.remote[kind] = m[7:]
			o := unwrap(ev.args[2])
			if o.op == OpParam || ot == nil {
				bad("options", st, "the plugin is not told what to process")
				return
			}
			s, ok := ot.Underlying().(*types.Struct)
			if !ok {
				c.unresolved(rule, "PluginOpts")
				return
			}
			fv := func(n string) *Term {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == n {
						if o.op == OpAlloc || o.op == OpField {
							return e.load(st, mkField(o, n, s.Field(i).Type()), s.Field(i).Type())
						}
						return fval(o, n, s.Field(i).Type())
					}
				}
				c.unresolved(rule, "PluginOpts."+n)
				return kNil
			}
			if !action(fv("Action")) {
				bad("action", st, "plugins are called with another action than that of the hook: %v", fv("Action"))
			}
			if !same(fv("Data"+T), req) {
				bad("request", st, "plugins are not given the request in Data%s", T)
			}
			if msg := current(st, fv(T), ev); msg != "" {
				bad("record", st, "plugins are not given %s in %s", msg, T)
			}
		case "proto.Merge", "github.com/golang/protobuf/proto.Merge":
			if !same(ev.args[0], rec) {
				return
			}
			merges++
			c.ob(rule, inst+" result")
			cleared := false
			for _, x := range st.events {
				if x == ev {
					break
				}
				switch {
				case strings.HasSuffix(x.name, ".Reset") && len(x.args) > 0 && same(x.args[0], rec):
					cleared = true
				case x.name == ev.name && same(x.args[0], rec):
					cleared = false
				}
			}
			if !cleared {
				bad("result", st, "the result of the plugins is merged into the record without clearing it: what plugins remove reappears and lists double")
			}
			if msg := current(st, ev.args[1], ev); msg != "" {
				bad("result", st, "the record is not replaced by %s", msg)
			}
		}
	}
	loops := map[nestKey]bool{}
	var list []*Term
	n := 0
	e.onBack = func(it *iteration) {
		if it.rng == nil {
			return
		}
		n++
		loops[it.key] = true
		list = append(list, it.rng)
		c.ob(rule, inst+" loop")
		ev := it.st.lastEvent(rpcCallName)
		if ev == nil || !ev.args[0].contains(func(x *Term) bool { return x == it.rval }) {
			bad("every plugin", it.st, "a plugin can be passed over")
			return
		}
		if !it.st.holds(errOf(ev), kNil) {
			bad("errors", it.st, "processing goes on although a plugin failed")
		}
	}
	outs := e.run(f, args, newState())
	c.done(e, rule, inst)
	c.outs += len(outs)
	if n == 0 || last == nil {
		bad("loop", nil, "the loop over all plugins was not found")
		return
	}
	for _, l := range list {
		if x := l.lastField(); x != "plugins" {
			bad("list", nil, "the plugins consulted are not those of the manager: %v", l)
		}
	}
	if merges == 0 {
		bad("result", nil, "the record is never replaced by the result of the plugins")
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.ob(rule, inst)
		if o.st.nilness(o.ret) == 0 {
			continue
		}
		for _, ev := range o.st.eventsNamed(rpcCallName) {
			if er := errOf(ev); len(er.some) == 0 && !o.st.holds(er, kNil) {
				bad("errors", o.st, "the failure of a plugin is not reported")
			}
		}
		if !rangeDone(o.st, func(t *Term) bool { return same(t, list[0]) }) {
			bad("every plugin", o.st, "success is reported although not all plugins were consulted")
		}
		if m := o.st.lastEvent("proto.Merge"); m == nil || !same(m.args[0], rec) {
			bad("result", o.st, "success is reported without putting the result of the plugins into the record")
		}
	}
}

// dispatch: the other end calls the method named like the action.
func (p *plugins) dispatch(a *plugAction) {
	const rule = "dispatch"
	c := p.c
	m := p.remote[a.kind]
	if m == "" {
		return
	}
	f := c.P.method(plugCommon, "GoPluginServer", m)
	if f == nil {
		c.violate(rule, "served", 0, nil, "plugins are called by the method %s, which they do not serve", m)
		return
	}
	if s := f.Signature; !f.Object().Exported() || s.Params().Len() != 2 || s.Results().Len() != 1 {
		c.violate(rule, "served "+m, f.Pos(), nil, "%s cannot be called remotely", m)
		return
	}
	mux := p.mux(rule)
	ot := c.P.namedType(plugCommon, "PluginOpts")
	if mux == nil || ot == nil {
		return
	}
	inst := a.name
	c.ob(rule, inst)
	T := title(a.kind)
	e := newEngine(c.P)
	e.devirt = func(mf *types.Func, recv *Term) *ssa.Function {
		if r := mf.Type().(*types.Signature).Recv(); r != nil && types.IsInterface(r.Type()) && mf.Pkg() == f.Pkg.Pkg {
			if sel := c.P.prog.MethodSets.MethodSet(mux).Lookup(mf.Pkg(), mf.Name()); sel != nil && !c.pluginMethod(mf) {
				return c.P.prog.MethodValue(sel)
			}
		}
		return nil
	}
	args := entryArgs(f)
	s := ot.Underlying().(*types.Struct)
	ptrs := map[string]*Term{}
	var fs []*Term
	for i := 0; i < s.NumFields(); i++ {
		x := mk(Term{op: OpParam, s: "opts." + s.Field(i).Name(), typ: s.Field(i).Type()})
		if s.Field(i).Name() == "Action" {
			x = a.val
		}
		ptrs[s.Field(i).Name()] = x
		fs = append(fs, x)
	}
	args[1] = mk(Term{op: OpStruct, typ: ot, args: fs})
	val := func(n string) *Term {
		x := ptrs[n]
		if x == nil {
			return nil
		}
		return e.load(newState(), x, x.typ.(*types.Pointer).Elem())
	}
	good := 0
	outs := e.run(f, args, newState())
	c.done(e, rule, inst)
	c.outs += len(outs)
	for _, o := range outs {
		if o.panic {
			continue
		}
		good++
		var calls []*Event
		for _, ev := range o.st.events {
			if ev.fn != nil && c.pluginMethod(ev.fn) {
				calls = append(calls, ev)
			}
		}
		bad := func(what, format string, x ...any) {
			c.violate(rule, inst+" "+what, f.Pos(), trailOf(o.st), format, x...)
		}
		if len(calls) != 1 {
			bad("once", "the action %s calls %d plugin methods, not one", a.name, len(calls))
			continue
		}
		ev := calls[0]
		if ev.fn.Name() != a.name {
			bad("method", "the action %s calls the plugin method %s", a.name, ev.fn.Name())
			continue
		}
		if !same(ev.args[1], val(T)) {
			bad("record", "the plugin method %s is not given the record being processed", a.name)
		}
		if len(ev.args) > 2 && !same(ev.args[2], val("Data"+T)) {
			bad("request", "the plugin method %s is not given the request", a.name)
		}
		if !same(o.ret, ext(ev.res, 1)) && !(o.ret.isNil() && o.st.holds(ext(ev.res, 1), kNil)) {
			bad("error", "what is returned is not the error of the plugin method %s", a.name)
		}
		rt := val(T).typ
		if v := e.load(o.st, mkField(args[2], T, rt), rt); !same(v, ext(ev.res, 0)) {
			bad("result", "the record sent back is not the result of the plugin method %s", a.name)
		}
	}
	if good == 0 {
		c.violate(rule, inst+" outcome", f.Pos(), nil, "the action %s is never answered", a.name)
	}
}

// pluginMethod: a method of the interface that plugins implement.
func (c *Ctx) pluginMethod(f *types.Func) bool {
	pt := c.P.namedType(plugCommon, "Plugin")
	if pt == nil {
		return false
	}
	it := pt.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i) == f {
			return true
		}
	}
	return false
}

// mux: the type that answers for plugins.
func (p *plugins) mux(rule string) types.Type {
	sp := p.c.P.byPkg[plugProvider]
	rt := p.c.P.namedType(plugCommon, "GoPluginServer")
	if sp == nil || rt == nil {
		p.c.unresolved(rule, plugProvider)
		return nil
	}
	var it *types.Interface
	s := rt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if x, ok := s.Field(i).Type().Underlying().(*types.Interface); ok {
			it = x
		}
	}
	if it != nil {
		for _, m := range sp.Members {
			if mt, ok := m.(*ssa.Type); ok && !types.IsInterface(mt.Type()) {
				for _, t := range []types.Type{mt.Type(), types.NewPointer(mt.Type())} {
					if types.Implements(t, it) {
						return t
					}
				}
			}
		}
	}
	p.c.unresolved(rule, "the implementation of the plugin server")
	return nil
}

// construct: every action has a hook, found under a name of its own.
func (p *plugins) construct(kind string) {
	const rule = "constructed"
	c := p.c
	T := title(kind)
	f := c.P.method(plugManager, "Manager", "Register"+T+"Hooks")
	if f == nil {
		c.unresolved(rule, plugManager+".Manager.Register"+T+"Hooks")
		return
	}
	inst := fnName(f)
	c.ob(rule, inst)
	reg := treePkg + ".Register" + T + "HookConstructor"
	e := newEngine(c.P)
	str := "(" + plugCommon + ".PluginAction).String"
	e.boundary = func(n string) bool { return n == reg || n == str }
	e.models[str] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		return []Outcome{{st: st, ret: mk(Term{op: OpPure, s: str, args: args, typ: types.Typ[types.String]})}}, true
	}
	type site struct {
		ev *Event
		st *State
	}
	var regs []site
	seen := map[string]bool{}
	e.onCall = func(ev *Event, st *State) {
		if ev.name == reg && !seen[ev.key+st.key()] {
			seen[ev.key+st.key()] = true
			regs = append(regs, site{ev, st.clone()})
		}
	}
	var its []*iteration
	e.onBack = func(it *iteration) { its = append(its, it) }
	args := entryArgs(f)
	e.run(f, args, newState())
	c.done(e, rule, inst)
	for _, it := range its {
		if it.st.lastEvent(reg) == nil {
			c.violate(rule, inst+" each", f.Pos(), trailOf(it.st), "an action can remain without a hook")
		}
		p.fromStart(rule, inst, it)
	}
	if len(regs) == 0 || len(its) == 0 {
		c.violate(rule, inst+" loop", f.Pos(), nil, "the loop that constructs the hooks was not found")
		return
	}
	// the table of actions
	var table *Term
	for _, r := range regs {
		r.ev.args[0].contains(func(x *Term) bool {
			if x.op == OpGlobal || x.op == OpGVal {
				table = x
			}
			return false
		})
	}
	if table == nil {
		c.violate(rule, inst+" table", f.Pos(), nil, "hooks are not constructed from a table of actions")
		return
	}
	tg, _ := table.fn.(*ssa.Global)
	if tg == nil || tg.Pkg != c.P.byPkg[plugCommon] {
		c.violate(rule, inst+" table", f.Pos(), nil, "the table of actions cannot be determined")
		return
	}
	list := contents(p.ie, p.init, globalTerm(tg))
	had := map[string]bool{}
	for _, v := range list {
		var a *plugAction
		if v.isConst() && v.c != nil {
			a = p.byVal[v.c.ExactString()]
		}
		if a == nil {
			c.violate(rule, inst+" table", f.Pos(), nil, "the table of actions has an unknown entry: %v", v)
			continue
		}
		if a.kind != kind {
			c.violate(rule, a.name, f.Pos(), nil, "a hook for the %s action %s is constructed for the other kind of records", a.kind, a.name)
			continue
		}
		had[a.name] = true
	}
	hooks := map[string]string{}
	for _, a := range p.sortedActs() {
		if a.kind != kind {
			continue
		}
		c.ob("hooks", a.name)
		if !had[a.name] {
			c.violate("hooks", a.name, f.Pos(), nil, "no hook is constructed for the action %s", a.name)
			continue
		}
		for _, r := range regs {
			isElem := func(x *Term) *Term {
				if entryOf(x, table) {
					return a.val
				}
				return nil
			}
			k := subst(r.ev.args[0], isElem)
			name := p.fold(k, str)
			if name == "" {
				c.violate("hooks", a.name, r.ev.pos, pathOf(r.ev, r.st), "the name under which the hook of %s is constructed cannot be determined: %v", a.name, k)
				continue
			}
			if o := hooks["ctor "+name]; o != "" && o != a.name {
				c.violate("hooks", a.name, r.ev.pos, pathOf(r.ev, r.st), "the hooks of %s and %s are constructed under the same name %s: one of them is lost", o, a.name, name)
			}
			hooks["ctor "+name] = a.name
			for _, h := range p.t.all {
				if h.kind == kind && h.reg == name {
					c.violate("hooks", a.name, r.ev.pos, pathOf(r.ev, r.st), "the name %s under which the hook of %s is constructed is taken by %s", name, a.name, fnName(h.ctor))
				}
			}
			cl := subst(r.ev.args[1], isElem)
			ctor, ok := cl.fn.(*ssa.Function)
			if !ok {
				c.violate("hooks", a.name, r.ev.pos, pathOf(r.ev, r.st), "the constructor is not a function literal")
				continue
			}
			p.instance(a, ctor, cl, r.st, table, str, args[0])
			if a.hook == "" {
				continue
			}
			if o := hooks[a.hook]; o != "" && o != a.name {
				c.violate("hooks", a.name, ctor.Pos(), nil, "the hooks of %s and %s have the same name %s", o, a.name, a.hook)
			}
			hooks[a.hook] = a.name
			if h := p.t.hooks[kind][a.hook]; h != nil {
				c.violate("hooks", a.name, ctor.Pos(), nil, "the hook of %s has the name %s of the step %s", a.name, a.hook, h.reg)
			}
		}
	}
}

// fromStart: the loop begins with the first entry of what it goes over.
func (p *plugins) fromStart(rule, inst string, it *iteration) {
	for _, in := range it.hdr.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		b, isB := ph.Type().Underlying().(*types.Basic)
		if !isB || b.Info()&types.IsInteger == 0 {
			continue
		}
		for i, ed := range ph.Edges {
			if it.hdr.Dominates(it.hdr.Preds[i]) {
				continue
			}
			k, ok := ed.(*ssa.Const)
			if !ok || k.Value == nil {
				continue
			}
			if n, ok := constant.Int64Val(k.Value); ok && n > 0 {
				p.c.violate(rule, inst+" first", it.fn.Pos(), nil, "the first entry of a table is passed over")
			}
		}
	}
}

// fold evaluates a name that consists of constants and the names of
// actions.
func (p *plugins) fold(t *Term, str string) string {
	if s, ok := t.str(); ok {
		return s
	}
	switch {
	case t.op == OpMkIface || t.op == OpConv:
		return p.fold(t.args[0], str)
	case t.op == OpPure && t.s == str:
		f := p.c.P.fn(str)
		if f == nil || !t.args[0].isConst() {
			return ""
		}
		e := newEngine(p.c.P)
		r := ""
		for _, o := range e.run(f, []*Term{t.args[0]}, p.init.clone()) {
			if o.panic || o.ret == nil {
				continue
			}
			s := p.slice(e, o.st, o.ret)
			if s == "" || r != "" && r != s {
				return ""
			}
			r = s
		}
		return r
	case t.op == OpPure && t.s == "concat":
		s := ""
		for _, a := range t.args {
			x := p.fold(a, str)
			if x == "" {
				return ""
			}
			s += x
		}
		return s
	case (t.op == OpPure || t.op == OpCall) && t.s == "strings.ToLower":
		return strings.ToLower(p.fold(t.args[0], str))
	case (t.op == OpPure || t.op == OpCall) && t.s == "fmt.Sprintf":
		f, ok := t.args[0].str()
		if !ok || strings.Count(f, "%") != strings.Count(f, "%s")+strings.Count(f, "%v") {
			return ""
		}
		var parts []*Term
		for _, a := range t.args[1:] {
			if a.op == OpTuple {
				parts = append(parts, a.args...)
			} else {
				parts = append(parts, a)
			}
		}
		for _, a := range parts {
			x := p.fold(a, str)
			i := strings.Index(f, "%")
			if x == "" || i < 0 {
				return ""
			}
			f = f[:i] + x + f[i+2:]
		}
		return f
	}
	return ""
}

// slice evaluates part of a constant string.
func (p *plugins) slice(e *Engine, st *State, t *Term) string {
	if s, ok := t.str(); ok {
		return s
	}
	if t.op != OpSlice || len(t.args) < 3 {
		return ""
	}
	s, ok := t.args[0].str()
	if !ok {
		return ""
	}
	num := func(x *Term, def int64) int64 {
		if x.isNil() {
			return def
		}
		if n, ok := x.intv(); ok {
			return n
		}
		if x = strip(x); x.op == OpElem {
			if n, ok := e.load(p.init, x, x.typ).intv(); ok {
				return n
			}
		}
		return -1
	}
	lo, hi := num(t.args[1], 0), num(t.args[2], int64(len(s)))
	if lo < 0 || hi < lo || hi > int64(len(s)) {
		return ""
	}
	return s[lo:hi]
}

// instance: the hook constructed for an action.
func (p *plugins) instance(a *plugAction, ctor *ssa.Function, cl *Term, st *State, table *Term, str string, mgr *Term) {
	c := p.c
	e := newEngine(c.P)
	e.models[str] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		return []Outcome{{st: st, ret: mk(Term{op: OpPure, s: str, args: args, typ: types.Typ[types.String]})}}, true
	}
	// cells captured by the constructor
	st = st.clone()
	for k, v := range st.mem {
		st.mem[k] = subst(v, func(x *Term) *Term {
			if entryOf(x, table) {
				return a.val
			}
			return nil
		})
	}
	// an element bound by reference would be that of the last iteration
	fr := &Frame{fn: ctor, ctx: "K:" + a.name, args: []*Term{p.t.refContext()}, free: cl.args, stack: []string{fnName(ctor)}}
	for _, o := range e.exec(fr, st) {
		bad := func(format string, x ...any) {
			c.violate("hooks", a.name, ctor.Pos(), trailOf(o.st), format, x...)
		}
		if o.panic || o.ret == nil || !o.res(1).isNil() || o.res(0).op != OpMkIface {
			bad("the constructor of the hook for %s may fail", a.name)
			continue
		}
		obj := o.res(0)
		wantT := c.P.namedType(plugManager, title(a.kind)+"Hook")
		if wantT == nil || typeKey(obj.typ) != typeKey(wantT) {
			bad("the hook for %s is not of the type for its kind of records", a.name)
			continue
		}
		v := obj.args[0]
		isAct, isMgr := false, false
		if v.op == OpStruct {
			for _, x := range v.args {
				isAct = isAct || x == a.val || x.isConst() && x.c != nil && a.val.c != nil && x.c.ExactString() == a.val.c.ExactString() && typeKey(x.typ) == typeKey(a.val.typ)
				isMgr = isMgr || same(x, mgr)
			}
		}
		if !isAct {
			bad("the hook for %s is constructed with another action: %v", a.name, v)
			continue
		}
		if !isMgr {
			bad("the hook for %s does not use the plugins of the manager it is constructed by", a.name)
		}
		a.hook, a.prio = "", -1
		for _, m := range []string{"Name", "Priority"} {
			mf := c.P.methodOf(obj.typ, m)
			if mf == nil {
				c.unresolved("hooks", fnName(ctor)+" "+m)
				return
			}
			mfr := &Frame{fn: mf, ctx: "M" + m, args: []*Term{v}, stack: []string{fnName(mf)}}
			for _, r := range e.exec(mfr, p.init.clone()) {
				if r.ret == nil || r.panic {
					continue
				}
				if m == "Name" {
					a.hook = p.fold(r.ret, str)
				} else if n, ok := p.lookup(r.ret); ok {
					a.prio = n
				}
			}
		}
		if a.hook == "" {
			bad("the name of the hook for %s cannot be determined", a.name)
		}
		if a.prio < 0 {
			bad("the priority of the hook for %s cannot be determined", a.name)
		}
	}
	c.done(e, "hooks", a.name)
}

// lookup: a number, or the entry of an initialised map.
func (p *plugins) lookup(t *Term) (int64, bool) {
	if n, ok := t.intv(); ok {
		return n, true
	}
	t = strip(t)
	if t.op != OpMapElem || !t.args[1].isConst() {
		return 0, false
	}
	m := t.args[0]
	if g, ok := strip(m).fn.(*ssa.Global); ok {
		if m = p.init.mem[globalTerm(g)]; m == nil {
			return 0, false
		}
	}
	for k, v := range p.init.mem {
		if k.op == OpMapElem && k.args[0] == m && k.args[1].isConst() && k.args[1].c != nil && t.args[1].c != nil && k.args[1].c.ExactString() == t.args[1].c.ExactString() {
			return v.intv()
		}
	}
	return 0, true // not in the map
}

// place: the chains the hooks are put into.
func (p *plugins) place(kind string) {
	const rule = "placed"
	c := p.c
	T := title(kind)
	f := c.P.method(plugManager, "Manager", "Configure"+T+"Chains")
	if f == nil {
		c.unresolved(rule, plugManager+".Manager.Configure"+T+"Chains")
		return
	}
	inst := fnName(f)
	c.ob(rule, inst)
	ie, ist := c.initOf(rule, plugManager)
	if ist == nil {
		return
	}
	e := newEngine(c.P)
	args := entryArgs(f)
	var calls []*Event
	dyn := func(ev *Event) bool {
		return ev.fn == nil && ev.kind == "call" && len(ev.args) == 2 && strings.HasPrefix(ev.name, "dynamic")
	}
	var its []*iteration
	e.onBack = func(it *iteration) {
		its = append(its, it)
		var ev *Event
		for _, x := range it.st.events {
			if dyn(x) {
				ev = x
			}
		}
		if ev == nil {
			c.violate(rule, inst+" each", f.Pos(), trailOf(it.st), "a configured hook can be left out")
			return
		}
		calls = append(calls, ev)
	}
	had := map[string]map[string]bool{}
	outs := e.run(f, args, newState())
	c.done(e, rule, inst)
	// hooks that are placed one by one
	single := map[[2]string]int{}
	ends := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		ends++
		now := map[[2]string]bool{}
		for _, ev := range o.st.events {
			if !dyn(ev) || len(ev.loops) > 0 {
				continue
			}
			s := [2]string{p.fold(subst(ev.args[0], keepTerm), ""), p.fold(subst(ev.args[1], keepTerm), "")}
			if s[0] == "" || s[1] == "" {
				c.violate(rule, inst+" entry", ev.pos, nil, "the hook and chain of the entry %v cannot be determined", ev.args)
				continue
			}
			if now[s] {
				c.violate(rule, s[0]+" in "+s[1], ev.pos, nil, "the hook %s is placed twice in %s", s[0], s[1])
			}
			now[s] = true
		}
		for s := range now {
			single[s]++
		}
	}
	for s, n := range single {
		if n != ends {
			c.violate(rule, inst+" each", f.Pos(), nil, "a configured hook can be left out: %s in %s", s[0], s[1])
		}
		if had[s[0]] == nil {
			had[s[0]] = map[string]bool{}
		}
		had[s[0]][s[1]] = true
	}
	if len(calls) == 0 && len(single) == 0 {
		c.violate(rule, inst+" loop", f.Pos(), nil, "the loop that places the hooks was not found")
		return
	}
	for _, it := range its {
		p.fromStart(rule, inst, it)
	}
	p.fromTable(rule, inst, f, ie, ist, calls, had)
	p.inChains(rule, kind, f, had)
}

func keepTerm(*Term) *Term { return nil }

// fromTable: the hooks a loop over a table of the package places.
func (p *plugins) fromTable(rule, inst string, f *ssa.Function, ie *Engine, ist *State, calls []*Event, had map[string]map[string]bool) {
	c := p.c
	if len(calls) == 0 {
		return
	}
	var table *Term
	for _, a := range calls[0].args {
		a.contains(func(x *Term) bool {
			if (x.op == OpGlobal || x.op == OpGVal) && x.fn != nil {
				if g, ok := x.fn.(*ssa.Global); ok && g.Pkg == f.Pkg {
					table = x
				}
			}
			return false
		})
	}
	if table == nil {
		c.violate(rule, inst+" table", f.Pos(), nil, "the hooks that are placed cannot be determined")
		return
	}
	g, _ := table.fn.(*ssa.Global)
	l := contents(ie, ist, globalTerm(g))
	if len(l) == 0 {
		c.violate(rule, inst+" table", f.Pos(), nil, "the table of hooks to place cannot be determined")
	}
	for _, v := range l {
		for _, ev := range calls {
			var s [2]string
			for i, a := range ev.args[:2] {
				r := subst(a, func(x *Term) *Term {
					if entryOf(x, table) {
						return v
					}
					return nil
				})
				s[i] = p.fold(r, "")
			}
			if s[0] == "" || s[1] == "" {
				c.violate(rule, inst+" entry", f.Pos(), nil, "the hook and chain of the entry %v cannot be determined", v)
				continue
			}
			if had[s[0]] == nil {
				had[s[0]] = map[string]bool{}
			}
			if had[s[0]][s[1]] && len(calls) == 1 {
				c.violate(rule, s[0]+" in "+s[1], f.Pos(), nil, "the hook %s is placed twice in %s", s[0], s[1])
			}
			had[s[0]][s[1]] = true
		}
	}
}

// inChains: each hook is in the chains of the operations it is for.
func (p *plugins) inChains(rule, kind string, f *ssa.Function, had map[string]map[string]bool) {
	c := p.c
	known := map[string]bool{}
	for _, a := range p.sortedActs() {
		if a.kind != kind || a.hook == "" {
			continue
		}
		known[a.hook] = true
		c.ob(rule, a.name)
		want, ok := pluginChains[a.name]
		if !ok {
			c.violate(rule, a.name, f.Pos(), nil, "it is not known which operation the action %s belongs to", a.name)
			continue
		}
		open := false
		w := map[string]bool{}
		for _, x := range want {
			if x == "+" {
				open = true
				continue
			}
			w[x] = true
			if !had[a.hook][x] {
				c.violate(rule, a.name+" in "+x, f.Pos(), nil, "plugins are not consulted for %s in the %s chain %s (no entry for the hook %s)", a.name, kind, x, a.hook)
			}
		}
		for x := range had[a.hook] {
			if _, ok := p.t.chains[kind][x]; !ok {
				c.violate(rule, a.name+" in "+x, f.Pos(), nil, "the hook of %s is placed in the %s chain %s, which no operation runs", a.name, kind, x)
			} else if !w[x] && !open {
				c.violate(rule, a.name+" in "+x, f.Pos(), nil, "the hook of %s is placed in the %s chain %s of another operation", a.name, kind, x)
			}
		}
	}
	for h := range had {
		if !known[h] {
			c.violate(rule, h, f.Pos(), nil, "a hook %s is placed in the %s chains, which is not constructed for any action", h, kind)
		}
	}
}

// order: where the hooks run among the steps of their chains.
func (p *plugins) order() {
	const rule = "order"
	c := p.c
	eff := c.effects(rule, p.t)
	for _, a := range p.sortedActs() {
		if a.hook == "" {
			continue
		}
		for _, ch := range pluginChains[a.name] {
			if ch == "+" {
				continue
			}
			l, ok := p.t.sorted(a.kind, ch)
			if !ok {
				c.violate(rule, a.name+" in "+ch, 0, nil, "the chain %s cannot be determined", ch)
				continue
			}
			c.ob(rule, a.name+" in "+ch)
			pre := strings.HasPrefix(a.name, "Pre")
			acts := 0
			for i, h := range l {
				ef := eff[h]
				bad := func(when string) {
					c.violate(rule, a.name+" in "+ch, h.run.Pos(), nil, "in the %s chain %s, plugins are consulted for %s with priority %d, which is not %s the step %s with priority %d", a.kind, ch, a.name, a.prio, when, h.name, h.prio)
				}
				switch {
				case ef == nil:
				case ef.saves || ef.deletes:
					if a.prio >= h.prio {
						bad("before")
					}
				case pre:
					if i == 0 {
						if a.prio <= h.prio {
							bad("after")
						}
					} else if c.usesSecret(h.run) {
						acts++
						if a.prio >= h.prio {
							bad("before")
						}
					}
				default:
					if a.prio <= h.prio {
						bad("after")
					}
				}
			}
			if pre && acts == 0 {
				c.violate(rule, a.name+" in "+ch, 0, nil, "the step that %s precedes was not found", a.name)
			}
		}
	}
	c.need(rule, 12)
}

// usesSecret: the step secures or verifies a secret.
func (c *Ctx) usesSecret(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if cc.IsInvoke() {
					if n := cc.Method.Name(); n == "SecureSecret" || n == "VerifySecret" {
						return true
					}
					continue
				}
				if g := cc.StaticCallee(); g != nil && c.P.fn(fnName(g)) != nil && walk(g) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// wiring: both ends of the connection fit together.
func (p *plugins) wiring() {
	const rule = "wiring"
	c := p.c
	// the plugin side
	f := c.P.fn(plugProvider + ".Main")
	sv := c.P.method(plugCommon, "GoPluginRPC", "Server")
	cv := c.P.method(plugCommon, "GoPluginRPC", "Client")
	in := c.P.method(plugConsumer, "Ref", "Init")
	for n, x := range map[string]*ssa.Function{"provider.Main": f, "GoPluginRPC.Server": sv, "GoPluginRPC.Client": cv, "Ref.Init": in} {
		if x == nil {
			c.unresolved(rule, n)
			return
		}
	}
	mux := p.mux(rule)
	if mux == nil {
		return
	}
	names := map[string]bool{}
	e := newEngine(c.P)
	args := entryArgs(f)
	served := 0
	e.onCall = func(ev *Event, st *State) {
		if !strings.HasSuffix(ev.name, "go-plugin.Serve") {
			return
		}
		served++
		c.ob(rule, "provider")
		for _, s := range st.events {
			if s.kind != "mapset" {
				continue
			}
			n, ok := s.args[1].str()
			v := unwrap(s.args[2])
			if !ok || v.op != OpAlloc {
				continue
			}
			m := e.load(st, mkField(v, "Mux", nil), nil)
			if m.op == OpMkIface && typeKey(m.typ) == typeKey(mux) && m.contains(func(x *Term) bool { return x == args[0] }) || e.holdsParam(st, m, args[0]) {
				names[n] = true
			}
		}
	}
	e.run(f, args, newState())
	c.done(e, rule, "provider")
	if served == 0 || len(names) == 0 {
		c.violate(rule, "provider", f.Pos(), nil, "%s does not serve the plugin it is given", fnName(f))
	}
	// what is exchanged
	for i, g := range []*ssa.Function{sv, cv} {
		e := newEngine(c.P)
		a := entryArgs(g)
		c.ob(rule, fnName(g))
		for _, o := range e.run(g, a, newState()) {
			if o.panic {
				continue
			}
			v := unwrap(o.res(0))
			want, field := a[0], "Mux"
			if i == 1 {
				want, field = a[len(a)-1], "client"
			}
			if !o.res(1).isNil() || v.op != OpAlloc {
				c.violate(rule, fnName(g), g.Pos(), trailOf(o.st), "%s does not return an end of the connection", fnName(g))
				continue
			}
			x := e.load(o.st, mkField(v, field, nil), nil)
			if !x.contains(func(y *Term) bool { return y == want }) {
				c.violate(rule, fnName(g), g.Pos(), trailOf(o.st), "%s returns an end that is not connected", fnName(g))
			}
		}
		c.done(e, rule, fnName(g))
	}
	// the server side
	e = newEngine(c.P)
	e.boundary = func(n string) bool { return n == healthPkg+".RegisterCheck" }
	a := entryArgs(in)
	ok := 0
	for _, o := range e.run(in, a, newState()) {
		if o.panic || o.st.nilness(o.ret) == 0 {
			continue
		}
		ok++
		c.ob(rule, "consumer")
		bad := func(format string, x ...any) { c.violate(rule, "consumer", in.Pos(), trailOf(o.st), format, x...) }
		var disp *Event
		for _, ev := range o.st.events {
			if ev.kind == "call" && isErrType(errOf2(ev)) && !o.st.holds(errOf(ev), kNil) {
				bad("the failure of %s while starting a plugin is not reported", ev.name)
			}
			if strings.HasSuffix(ev.name, ".Dispense") {
				disp = ev
			}
		}
		if disp == nil {
			bad("a plugin is started without asking for its service")
			continue
		}
		n := constStr(disp.args[len(disp.args)-1])
		if !names[n] {
			bad("the service %q that is asked for is not what plugins serve", n)
		}
		v := e.load(o.st, mkField(a[0], "GoPluginClient", nil), nil)
		if !v.contains(func(x *Term) bool { return x == disp.res }) {
			bad("the connection to the plugin is not kept")
		}
		if !disp.args[0].contains(func(x *Term) bool { return x.op == OpCall && strings.HasSuffix(x.s, "plugin.NewClient") }) {
			bad("the service is not that of the process that was started")
		}
		for _, ev := range o.st.events {
			if strings.HasSuffix(ev.name, "exec.Command") {
				if b := fieldOf(strip(ev.args[0]), strip(ev.args[0]).lastField()); b == nil || !same(b, a[0]) {
					bad("the process started is not the plugin")
				}
			}
		}
	}
	c.done(e, rule, "consumer")
	if ok == 0 {
		c.violate(rule, "consumer", in.Pos(), nil, "a plugin can never be started")
	}
	// the handshake
	var hs [2]map[string]string
	for i, pkg := range []string{plugConsumer, plugProvider} {
		ie, ist := c.initOf(rule, pkg)
		if ist == nil {
			return
		}
		hs[i] = map[string]string{}
		c.ob(rule, pkg+" handshake")
		for _, m := range c.P.byPkg[pkg].Members {
			g, ok := m.(*ssa.Global)
			if !ok || !strings.HasSuffix(typeKey(g.Type().(*types.Pointer).Elem()), "plugin.HandshakeConfig") {
				continue
			}
			if s, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				for j := 0; j < s.NumFields(); j++ {
					v := ie.load(ist, mkField(globalTerm(g), s.Field(j).Name(), s.Field(j).Type()), s.Field(j).Type())
					if strip(v).op == OpField {
						v = kNil // not stored to
					}
					hs[i][s.Field(j).Name()] = v.String()
				}
			}
		}
	}
	for k, v := range hs[0] {
		if hs[1][k] != v {
			c.violate(rule, "handshake", in.Pos(), nil, "server and plugins disagree about the %s of the handshake", k)
		}
	}
	if len(hs[0]) == 0 {
		c.violate(rule, "handshake", in.Pos(), nil, "the handshake cannot be determined")
	}
}

// errOf2: like errOf for events that may have no result.
func errOf2(ev *Event) *Term {
	if ev.res == nil {
		return nil
	}
	return errOf(ev)
}

// holdsParam: a struct behind a pointer holds the value.
func (e *Engine) holdsParam(st *State, m, v *Term) bool {
	m = unwrap(m)
	if m.op != OpAlloc {
		return false
	}
	for k, x := range st.mem {
		if allocBase(k) == m && x == v {
			return true
		}
	}
	return false
}

// loading: every plugin that could be started is known to the manager.
func (p *plugins) loading() {
	const rule = "loaded"
	c := p.c
	f := c.P.method(plugManager, "Manager", "LoadPlugins")
	if f == nil {
		c.unresolved(rule, plugManager+".Manager.LoadPlugins")
		return
	}
	inst := fnName(f)
	c.ob(rule, inst)
	e := newEngine(c.P)
	initN := "(*" + plugConsumer + ".Ref).Init"
	newN := plugConsumer + ".New"
	e.boundary = func(n string) bool { return n == initN || n == newN }
	args := entryArgs(f)
	n := 0
	lists := map[*Term]bool{}
	e.onBack = func(it *iteration) {
		if it.base == nil {
			return
		}
		n++
		lists[it.base] = true
		var nw, ini, set *Event
		for _, ev := range it.st.events {
			if ev.name != newN && ev.name != initN && ev.kind != "mapset" || ev.args[0].op == OpSome || len(ev.args[0].some) > 0 {
				continue
			}
			switch {
			case ev.name == newN:
				nw = ev
			case ev.name == initN:
				ini = ev
			default:
				set = ev
			}
		}
		bad := func(format string, x ...any) { c.violate(rule, inst, f.Pos(), trailOf(it.st), format, x...) }
		if nw == nil || nw.args[0] != it.elem {
			bad("a plugin that is listed can be passed over")
			return
		}
		if it.st.holdsNot(errOf(nw), kNil) {
			return
		}
		if ini == nil {
			bad("a plugin that is listed can remain without being started")
			return
		}
		if it.st.holdsNot(errOf(ini), kNil) {
			return
		}
		if set == nil || set.args[0].lastField() != "plugins" || !same(set.args[1], it.elem) {
			bad("a plugin that was started is not kept under its name")
			return
		}
		ref := c.P.namedType(plugConsumer, "Ref")
		if ref == nil || indexOf(it.st.events, set) < indexOf(it.st.events, ini) || set.args[2] != e.load(it.st, ini.args[0], ref) {
			bad("what is kept of a plugin is not what it was started as")
		}
	}
	for _, o := range e.run(f, args, newState()) {
		if o.panic {
			continue
		}
		c.ob(rule, inst)
		if !exhausted(o.st, func(t *Term) bool { return lists[t] }) {
			c.violate(rule, inst, f.Pos(), trailOf(o.st), "loading plugins can end before all of them were tried")
		}
	}
	c.done(e, rule, inst)
	if n == 0 {
		c.violate(rule, inst, f.Pos(), nil, "the loop over the plugins was not found")
	}
}

// startup: plugins take part before requests are accepted.
func (p *plugins) startup() {
	const rule = "startup"
	c := p.c
	m := c.runMain(rule)
	if m == nil {
		return
	}
	pm := "(*" + plugManager + ".Manager)."
	steps := []string{pm + "LoadPlugins", pm + "RegisterEntityHooks", pm + "RegisterGroupHooks", treePkg + ".New", pm + "ConfigureEntityChains", pm + "ConfigureGroupChains"}
	serves := 0
	for _, cl := range m.calls {
		if !strings.HasSuffix(cl.ev.name, "grpc.Server).Serve") {
			continue
		}
		serves++
		enabled := cl.st.truth(func(t *Term) bool {
			return strings.HasSuffix(t.s, "viper.GetBool") && len(t.args) > 0 && constStr(t.args[0]) == "plugin.enabled"
		})
		if enabled == 0 {
			continue
		}
		c.ob(rule, "serve")
		pos := map[string]int{}
		for i, ev := range cl.st.events {
			for _, s := range steps {
				if ev.name == s && pos[s] == 0 {
					pos[s] = i + 1
				}
			}
		}
		for _, s := range steps {
			if pos[s] == 0 {
				c.violate(rule, s, cl.ev.pos, pathOf(cl.ev, cl.st), "with plugins enabled, requests are accepted without %s", s)
			}
		}
		tn := pos[treePkg+".New"]
		for i, s := range steps {
			switch {
			case pos[s] == 0 || tn == 0 || i == 3:
			case (i == 1 || i == 2) && pos[s] > tn:
				c.violate(rule, s, cl.ev.pos, pathOf(cl.ev, cl.st), "hooks are constructed only after the tree was set up")
			case i > 3:
				ev := cl.st.events[pos[s]-1]
				tree := cl.st.events[tn-1]
				h := unwrap(ev.args[1])
				kind := "Entity"
				if i == 5 {
					kind = "Group"
				}
				fn, _ := h.fn.(*ssa.Function)
				if fn == nil || !strings.Contains(fn.Name(), "Register"+kind+"HookToChain") || !h.contains(func(x *Term) bool { return x == ext(tree.res, 0) || x == tree.res }) {
					c.violate(rule, s, ev.pos, pathOf(ev, cl.st), "the hooks are not placed in the %s chains of the tree that is served", strings.ToLower(kind))
				}
			}
		}
	}
	if serves == 0 {
		c.violate(rule, "serve", m.fn.Pos(), nil, "the server never accepts requests")
	}
	c.need(rule, 1)
}
