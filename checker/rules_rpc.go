package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- request handlers ----

type rpcCall struct {
	ev *Event
	st *State
}

type rpcRes struct {
	name  string
	fn    *ssa.Function
	ctx   *Term // context parameter
	r     *Term // request parameter
	s     *Term // server
	calls []rpcCall
	outs  []Outcome
	e     *Engine
	its   []*iteration
}

const rpcPkg = "internal/rpc2"
const mgr = "(internal/rpc2.Manager)."
const tsv = "(internal/token.Service)."

// handlers lists the methods of the gRPC service as implemented by the
// server type.
func (c *Ctx) handlers() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	sp := c.P.byPkg[rpcPkg]
	if sp == nil {
		c.unresolved("handlers", "package internal/rpc2")
		return out
	}
	for _, im := range sp.Pkg.Imports() {
		if im.Path() != protoPath+"/v2" {
			continue
		}
		tn, ok := im.Scope().Lookup("NetAuth2Server").(*types.TypeName)
		if !ok {
			continue
		}
		it := tn.Type().Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if f := c.P.method(rpcPkg, "Server", m.Name()); f != nil && f.Blocks != nil {
				out[m.Name()] = f
			} else {
				c.unresolved("handlers", "handler of "+m.Name())
			}
		}
	}
	return out
}

func (c *Ctx) runHandlers(rule string, cfg func(e *Engine), only ...string) map[string]*rpcRes {
	res := map[string]*rpcRes{}
	hs := c.handlers()
	var names []string
	for n := range hs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if len(only) > 0 {
			ok := false
			for _, o := range only {
				if o == n {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		f := hs[n]
		e := newEngine(c.P)
		r := &rpcRes{name: n, fn: f, e: e}
		e.onBack = func(it *iteration) { r.its = append(r.its, it) }
		args := entryArgs(f)
		if len(args) == 3 {
			r.s, r.ctx, r.r = args[0], args[1], args[2]
		}
		seen := map[string]bool{}
		e.onCall = func(ev *Event, st *State) {
			if ev.kind != "call" {
				return
			}
			k := ev.key + st.key()
			if seen[k] {
				return
			}
			seen[k] = true
			r.calls = append(r.calls, rpcCall{ev, st.clone()})
		}
		if cfg != nil {
			cfg(e)
		}
		r.outs = e.run(f, args, newState())
		c.done(e, rule, n)
		c.outs += len(r.outs)
		res[n] = r
	}
	return res
}

// mutators: state-changing operations of the entity tree, the
// capability a request for them needs, and the argument naming the
// group for operations that may be delegated.
type mutator struct {
	cap      string
	group    int  // 1-based argument naming the group, if delegable
	self     bool // self service exists
	mode     int  // argument that selects a read-only variant
	readMode string
}

var mutators = map[string]mutator{
	"CreateEntity":            {cap: "CREATE_ENTITY"},
	"SetSecret":               {cap: "CHANGE_ENTITY_SECRET", self: true},
	"LockEntity":              {cap: "LOCK_ENTITY"},
	"UnlockEntity":            {cap: "UNLOCK_ENTITY"},
	"UpdateEntityMeta":        {cap: "MODIFY_ENTITY_META"},
	"EntityKVAdd":             {cap: "MODIFY_ENTITY_META"},
	"EntityKVDel":             {cap: "MODIFY_ENTITY_META"},
	"EntityKVReplace":         {cap: "MODIFY_ENTITY_META"},
	"UpdateEntityKeys":        {cap: "MODIFY_ENTITY_KEYS", self: true, mode: 2, readMode: "READ"},
	"ManageUntypedEntityMeta": {cap: "MODIFY_ENTITY_META", mode: 2, readMode: "READ"},
	"DestroyEntity":           {cap: "DESTROY_ENTITY"},
	"CreateGroup":             {cap: "CREATE_GROUP"},
	"UpdateGroupMeta":         {cap: "MODIFY_GROUP_META", group: 1},
	"ManageUntypedGroupMeta":  {cap: "MODIFY_GROUP_META", group: 1, mode: 2, readMode: "READ"},
	"GroupKVAdd":              {cap: "MODIFY_GROUP_META"},
	"GroupKVDel":              {cap: "MODIFY_GROUP_META"},
	"GroupKVReplace":          {cap: "MODIFY_GROUP_META"},
	"DestroyGroup":            {cap: "DESTROY_GROUP"},
	"AddEntityToGroup":        {cap: "MODIFY_GROUP_MEMBERS", group: 2},
	"RemoveEntityFromGroup":   {cap: "MODIFY_GROUP_MEMBERS", group: 2},
	"ModifyGroupRule":         {cap: "MODIFY_GROUP_META", group: 1},
	"SetEntityCapability2":    {cap: "GLOBAL_ROOT"},
	"DropEntityCapability2":   {cap: "GLOBAL_ROOT"},
	"SetGroupCapability2":     {cap: "GLOBAL_ROOT"},
	"DropGroupCapability2":    {cap: "GLOBAL_ROOT"},
}

// operations of the manager interface that change nothing a request
// needs authority for (authentication records nothing that the
// requestor chooses).
var mgrReaders = map[string]bool{
	"FetchEntity": true, "SearchEntities": true, "ValidateSecret": true, "EntityKVGet": true, "FetchGroup": true,
	"SearchGroups": true, "GroupKVGet": true, "ListMembers": true, "GetMemberships": true,
}

// never to be called by a request handler
var mgrSetup = map[string]bool{
	"RegisterEntityHookToChain": true, "RegisterGroupHookToChain": true, "Bootstrap": true, "DisableBootstrap": true,
}

func mgrMethod(ev *Event) string {
	if strings.HasPrefix(ev.name, mgr) {
		return ev.name[len(mgr):]
	}
	return ""
}

// isMutation decides whether a manager call can change state.
func (c *Ctx) isMutation(ev *Event, st *State) (mutator, bool) {
	m := mgrMethod(ev)
	if m == "" {
		return mutator{}, false
	}
	mu, ok := mutators[m]
	if !ok {
		return mutator{}, false
	}
	if mu.mode > 0 && mu.mode < len(ev.args) {
		a := st.resolve(ev.args[mu.mode])
		if constStr(a) == mu.readMode {
			return mu, false
		}
		if a.op == OpPure && strings.HasSuffix(a.s, ".Action).String") || a.op == OpCall && strings.HasSuffix(a.s, ".Action).String") {
			if st.resolve(a.args[0]) == c.P.constOf(protoPath+"/v2", "Action_READ") {
				return mu, false
			}
		}
	}
	return mu, true
}

// auth describes the evidence available at a point of a handler.
type auth struct {
	val    *Event // successful token validation
	tok    string // why the token is not the request's own, or ""
	claims *Term
}

func (c *Ctx) authAt(r *rpcRes, st *State) auth {
	var a auth
	for _, ev := range st.events {
		if ev.name != tsv+"Validate" {
			continue
		}
		if !st.holds(ext(ev.res, 1), kNil) {
			continue
		}
		a.val = ev
		a.claims = ext(ev.res, 0)
		a.tok = tokenOrigin(r, ev.args[1], st)
		if a.tok == "" {
			return a
		}
	}
	return a
}

// tokenOrigin checks that t is the single value of the authorization
// metadata of the request.
func tokenOrigin(r *rpcRes, t *Term, st *State) string {
	for _, t := range alts(t) {
		t = strip(t)
		if t.isConst() {
			continue
		}
		if !t.contains(func(x *Term) bool { return x == r.ctx }) || t.contains(func(x *Term) bool { return x == r.r }) {
			return "the validated token does not come from the metadata of the request"
		}
		if !t.contains(func(x *Term) bool {
			return x.op == OpPure && strings.HasPrefix(x.s, "google.golang.org/grpc/metadata.FromIncomingContext") || x.op == OpPure && strings.HasPrefix(x.s, "google.golang.org/grpc/metadata.ValueFromIncomingContext")
		}) {
			return "the validated token does not come from the incoming request metadata"
		}
		if !t.contains(func(x *Term) bool { return constStr(x) == "authorization" }) {
			return "the validated token does not come from the authorization metadata"
		}
		b := elemBase(t)
		if b == nil || !st.holds(mk(Term{op: OpPure, s: "len", args: []*Term{b}}), kInt(1)) {
			return "the request is not known to carry exactly one authorization value"
		}
	}
	return ""
}

// hasCap: the claims were found to contain the capability (or global
// root).
func (c *Ctx) hasCap(a auth, st *State, cap string) bool {
	if a.val == nil {
		return false
	}
	want := map[*Term]bool{c.P.capability(cap): true, c.P.capability("GLOBAL_ROOT"): true}
	cl := strip(a.claims)
	return st.anyElemEqual(func(b *Term) bool { return fieldOf(b, "Capabilities") == cl }, func(v *Term) bool { return want[v] })
}

func (c *Ctx) isSelf(a auth, st *State, id *Term) bool {
	if a.val == nil {
		return false
	}
	cl := strip(a.claims)
	id = strip(id)
	return st.lits(func(t, v *Term, eq bool) bool {
		if !eq || v != kTrue || t.op != OpBin || t.s != "==" {
			return false
		}
		x, y := strip(t.args[0]), strip(t.args[1])
		return fieldOf(x, "EntityID") == cl && y == id || fieldOf(y, "EntityID") == cl && x == id
	})
}

// delegated: the requestor was found to be a member of the group that
// manages group g.  It returns what is missing, or "".
func (c *Ctx) delegated(a auth, st *State, g *Term) string {
	if a.val == nil {
		return "no validated token"
	}
	cl := strip(a.claims)
	g = strip(g)
	why := "the managing group of the target is not looked up"
	for _, fg := range st.eventsNamed(mgr + "FetchGroup") {
		if strip(fg.args[1]) != g {
			if why == "the managing group of the target is not looked up" {
				why = "the group whose management is checked is not the group that is modified"
			}
			continue
		}
		if !st.holds(ext(fg.res, 1), kNil) {
			why = "the target group is not known to have been loaded"
			continue
		}
		grp := strip(ext(fg.res, 0))
		isManagedBy := func(t *Term) bool { return protoField(t, "ManagedBy") == grp }
		nonEmpty := st.lits(func(t, v *Term, eq bool) bool { return isManagedBy(t) && !eq && v == kString("") })
		if !nonEmpty {
			why = "a group without a managing group is not excluded"
			continue
		}
		for _, fe := range st.eventsNamed(mgr + "FetchEntity") {
			if fieldOf(fe.args[1], "EntityID") != cl {
				why = "the membership checked is not that of the identity in the token"
				continue
			}
			if !st.holds(ext(fe.res, 1), kNil) {
				why = "the requestor is not known to have been loaded"
				continue
			}
			for _, gm := range st.eventsNamed(mgr + "GetMemberships") {
				if !same(gm.args[1], ext(fe.res, 0)) {
					why = "the memberships are not those of the requestor"
					continue
				}
				base := strip(gm.res)
				if st.anyElemEqual(func(b *Term) bool { return b == base }, isManagedBy) {
					return ""
				}
				why = "no membership is known to equal the managing group"
			}
		}
	}
	return why
}

func errName(t *Term) string {
	if t == nil {
		return ""
	}
	if t.isNil() {
		return "nil"
	}
	if t.op == OpGVal {
		return t.s
	}
	return "?"
}

func init() {
	register(&Check{id: "C01", technique: "path-sensitive interprocedural dataflow (typestate of authorization) over SSA",
		rule: "At every call of a state-changing operation of the entity tree reachable from a request handler, on every path: the token from the request's own authorization metadata was validated without error, and the validated claims were found to contain the capability designated for that operation or global root; exempt are secret/key changes where the identity in the claims was compared equal to the target, and group operations with complete delegation evidence (decided in C03, C04).",
		run:  runC01})
	register(&Check{id: "C02", technique: "path-sensitive interprocedural dataflow over SSA",
		rule: "At every call of a state-changing operation of the entity tree reachable from a request handler the read-only flag of the server was found false on the path; every path returning the read-only error found it true and belongs to a request that changes state; the flag is set from configuration only.",
		run:  runC02})
	register(&Check{id: "C03", technique: "path-sensitive interprocedural dataflow over SSA (identity provenance)",
		rule: "At every secret change: the entity changed is the one named in the request, the new secret is the request's, and on paths without the capability the validated identity was compared equal to that entity and the old secret from the request's entity was verified for it. At every key change without the capability the validated identity was compared equal to the target of the change. Self-service paths exist.",
		run:  runC03})
	register(&Check{id: "C04", technique: "path-sensitive interprocedural dataflow over SSA (delegation evidence)",
		rule: "At every group modification on a path without the capability: the token was validated, the very group modified was loaded, its managing group was found non-empty, the entity named in the claims was loaded, and one of its effective memberships was found equal to that managing group. Every refusal for a missing capability in a delegable request happens after the delegation of the target was examined, and each delegable operation is reachable by delegation.",
		run:  runC04})
}

func (c *Ctx) classifyManagerMethods(rule string) {
	sp := c.P.byPkg[rpcPkg]
	if sp == nil {
		return
	}
	tn, ok := sp.Pkg.Scope().Lookup("Manager").(*types.TypeName)
	if !ok {
		c.unresolved(rule, "interface Manager of internal/rpc2")
		return
	}
	it := tn.Type().Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		n := it.Method(i).Name()
		if _, ok := mutators[n]; ok || mgrReaders[n] || mgrSetup[n] {
			continue
		}
		// an operation added later: it must not be able to store anything
		if c.reachesStorageWrite(n) {
			c.violate(rule, "unclassified "+n, token.NoPos, nil, "the operation %s changes stored records but no capability is designated for it", n)
		}
	}
}

// reachesStorageWrite: the tree operation can reach a record write.
func (c *Ctx) reachesStorageWrite(method string) bool {
	f := c.P.method("internal/tree", "Manager", method)
	if f == nil {
		return true
	}
	seen := map[*ssa.Function]bool{}
	var w func(f *ssa.Function) bool
	w = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() {
					n := cc.Method.Name()
					if strings.HasPrefix(n, "Save") || strings.HasPrefix(n, "Delete") || n == "Run" {
						return true
					}
					continue
				}
				if w(cc.StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return w(f)
}

func runC01(c *Ctx) {
	c.classifyManagerMethods("capability")
	res := c.runHandlers("capability", nil)
	for n, r := range res {
		for _, k := range r.calls {
			m := mgrMethod(k.ev)
			if mgrSetup[m] {
				c.violate("capability", n+" calls "+m, k.ev.pos, pathOf(k.ev, k.st), "a request handler calls the setup operation %s", m)
				continue
			}
			mu, is := c.isMutation(k.ev, k.st)
			if !is {
				continue
			}
			inst := n + " -> " + m
			c.ob("capability", inst)
			a := c.authAt(r, k.st)
			if a.val == nil {
				c.violate("token", inst, k.ev.pos, pathOf(k.ev, k.st), "%s is reached without a successfully validated token", m)
				continue
			}
			if a.tok != "" {
				c.violate("token", inst, k.ev.pos, pathOf(k.ev, k.st), "%s is reached although %s", m, a.tok)
				continue
			}
			if c.hasCap(a, k.st, mu.cap) {
				continue
			}
			if mu.self && c.isSelf(a, k.st, k.ev.args[1]) {
				continue
			}
			if mu.group > 0 && mu.group < len(k.ev.args) && c.delegated(a, k.st, k.ev.args[mu.group]) == "" {
				continue
			}
			c.violate("capability", inst, k.ev.pos, pathOf(k.ev, k.st), "%s is reached although the claims are not known to hold %s or GLOBAL_ROOT", m, mu.cap)
		}
	}
	c.need("capability", 25)
}

func runC02(c *Ctx) {
	res := c.runHandlers("readonly", nil)
	mutating := map[string]bool{}
	for n, r := range res {
		for _, k := range r.calls {
			m := mgrMethod(k.ev)
			_, is := c.isMutation(k.ev, k.st)
			if !is {
				continue
			}
			mutating[n] = true
			inst := n + " -> " + m
			c.ob("readonly", inst)
			if !k.st.lits(func(t, v *Term, eq bool) bool { return eq && v == kFalse && fieldOf(t, "readonly") == r.s }) {
				c.violate("readonly", inst, k.ev.pos, pathOf(k.ev, k.st), "%s is reached without the server being known not to be read-only", m)
			}
		}
	}
	for n, r := range res {
		for _, o := range r.outs {
			if o.panic || errName(o.res(1)) != "internal/rpc2.ErrReadOnly" {
				continue
			}
			c.ob("refusal", n)
			if !o.st.lits(func(t, v *Term, eq bool) bool { return eq && v == kTrue && fieldOf(t, "readonly") == r.s }) {
				c.violate("refusal", n, r.fn.Pos(), trailOf(o.st), "the read-only refusal is returned by a server not known to be read-only")
			}
			if !mutating[n] {
				c.violate("refusal", n, r.fn.Pos(), trailOf(o.st), "a request that changes nothing is refused in read-only mode")
			}
			rd := c.P.constOf(protoPath+"/v2", "Action_READ")
			if o.st.lits(func(t, v *Term, eq bool) bool { return eq && v == rd && protoField(t, "Action") == r.r }) {
				c.violate("refusal", n+" READ", r.fn.Pos(), trailOf(o.st), "a reading action is refused in read-only mode")
			}
		}
		if mutating[n] {
			// a read-only refusal must be what the client sees
			found := false
			for _, o := range r.outs {
				if errName(o.res(1)) == "internal/rpc2.ErrReadOnly" {
					found = true
				}
			}
			if !found {
				c.violate("refusal", n+" none", r.fn.Pos(), nil, "the request is never refused with the read-only error")
			}
		}
	}
	// who writes the flag
	for _, f := range c.P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) != "readonly" || !strings.HasSuffix(typeKey(fa.X.Type()), "/internal/rpc2.Server") {
					continue
				}
				c.ob("flag-source", fnName(f))
				if call, ok := st.Val.(*ssa.Call); ok {
					if cal := call.Call.StaticCallee(); cal != nil && cal.String() == "github.com/spf13/viper.GetBool" {
						if k, ok := call.Call.Args[0].(*ssa.Const); ok && strings.Trim(k.Value.ExactString(), `"`) == "server.readonly" {
							continue
						}
					}
				}
				c.violate("flag-source", fnName(f), st.Pos(), nil, "the read-only flag is set to something other than the configured value")
			}
		}
	}
	c.mutableMarker()
	c.need("readonly", 25)
	c.need("refusal", 22)
	c.need("flag-source", 1)
	c.need("marker", 1)
}

// mutableMarker: a backend that examines its storage to decide whether
// it may be changed says so only when the examination succeeded, and
// the database passes on what the backend said.
func (c *Ctx) mutableMarker() {
	const rule = "marker"
	mutable, ok := c.eventConst("KVMutable")
	if !ok {
		c.unresolved(rule, "KVMutable")
		return
	}
	for _, b := range c.backends(rule) {
		f := b.m["Capabilities"]
		if f == nil {
			c.unresolved(rule, b.name+".Capabilities")
			continue
		}
		r := c.runStore(rule, f, nil)
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			st := o.st.lastEvent("os.Stat")
			if st == nil {
				continue
			}
			c.ob(rule, fnName(f))
			has, opaque := sliceHas(r.e, o.st, o.res(0), mutable)
			known := o.st.nilness(errOf(st))
			switch {
			case opaque:
				c.violate(rule, fnName(f), f.Pos(), trailOf(o.st), "the capabilities advertised are not decided (%v)", o.res(0))
			case has && known != 1:
				c.violate(rule, fnName(f), f.Pos(), trailOf(o.st), "storage is advertised as mutable although the marker was not found")
			case !has && known == 1:
				c.violate(rule, fnName(f), f.Pos(), trailOf(o.st), "storage carrying the marker is not advertised as mutable")
			}
		}
	}
}

// sliceHas: whether a freshly built list contains v.
func sliceHas(e *Engine, st *State, t *Term, v int64) (has, opaque bool) {
	elems := []*Term{}
	for t.op == OpAppend {
		elems = append(elems, t.args[1:]...)
		t = t.args[0]
	}
	if l, ok := e.sliceElems(st, t); ok {
		elems = append(elems, l...)
	} else if t != kNil && t.op != OpMake {
		opaque = true
	}
	for _, a := range elems {
		n, ok := a.intv()
		has = has || ok && n == v
		opaque = opaque || !ok
	}
	return
}

func runC03(c *Ctx) {
	res := c.runHandlers("self", nil)
	selfPath := map[string]bool{}
	capPath := map[string]bool{}
	for n, r := range res {
		for _, k := range r.calls {
			m := mgrMethod(k.ev)
			mu, is := c.isMutation(k.ev, k.st)
			if !is || !mu.self {
				continue
			}
			inst := n + " -> " + m
			c.ob("self", inst)
			a := c.authAt(r, k.st)
			id := k.ev.args[1]
			target := "Target"
			if m == "SetSecret" {
				target = "Entity.ID"
				if !isPath(k.ev.args[2], r.r, "Secret") {
					c.violate("new-secret", inst, k.ev.pos, pathOf(k.ev, k.st), "the new secret stored is not the one supplied in the request (%v)", k.ev.args[2])
				}
			}
			if !isPath(id, r.r, target) {
				c.violate("target", inst, k.ev.pos, pathOf(k.ev, k.st), "the entity changed is not the one named in the request (%v)", id)
			}
			cap := c.hasCap(a, k.st, mu.cap)
			self := c.isSelf(a, k.st, id)
			if cap {
				capPath[n] = true
			}
			if !cap && !self {
				c.violate("self", inst, k.ev.pos, pathOf(k.ev, k.st), "%s is reached without the capability although the identity in the token is not known to be the entity changed", m)
				continue
			}
			if !cap {
				selfPath[n] = true
				if m == "SetSecret" {
					ok := false
					for _, v := range k.st.eventsNamed(mgr + "ValidateSecret") {
						if same(v.args[1], id) && isPath(v.args[2], r.r, "Entity.Secret") && k.st.holds(v.res, kNil) {
							ok = true
						}
					}
					if !ok {
						c.violate("old-secret", inst, k.ev.pos, pathOf(k.ev, k.st), "a secret is changed without the capability although the old secret supplied was not verified for that entity")
					}
				}
			}
		}
	}
	for _, n := range []string{"AuthChangeSecret", "EntityKeys"} {
		c.ob("available", n)
		if !selfPath[n] {
			c.violate("available", n+" self", token.NoPos, nil, "an entity can no longer use %s on itself without the capability", n)
		}
		if !capPath[n] {
			c.violate("available", n+" capability", token.NoPos, nil, "%s is not available to a holder of the capability", n)
		}
	}
	c.need("self", 2)
}

var delegable = []string{"GroupUpdate", "GroupUM", "GroupUpdateRules", "GroupAddMember", "GroupDelMember"}

func runC04(c *Ctx) {
	res := c.runHandlers("delegation", nil)
	reach := map[string]bool{}
	for n, r := range res {
		var groups []*Term
		for _, k := range r.calls {
			m := mgrMethod(k.ev)
			mu, is := c.isMutation(k.ev, k.st)
			if !is || mu.group == 0 {
				continue
			}
			inst := n + " -> " + m
			c.ob("delegation", inst)
			g := k.ev.args[mu.group]
			groups = append(groups, strip(g))
			a := c.authAt(r, k.st)
			if c.hasCap(a, k.st, mu.cap) {
				continue
			}
			if why := c.delegated(a, k.st, g); why != "" {
				c.violate("delegation", inst, k.ev.pos, pathOf(k.ev, k.st), "%s is reached without the capability, and %s", m, why)
				continue
			}
			if a.tok != "" {
				c.violate("delegation", inst, k.ev.pos, pathOf(k.ev, k.st), "%s is reached by delegation although %s", m, a.tok)
			}
			if !k.st.lits(func(t, v *Term, eq bool) bool { return eq && v == kFalse && fieldOf(t, "readonly") == r.s }) {
				c.violate("delegation", inst+" readonly", k.ev.pos, pathOf(k.ev, k.st), "%s is reached by delegation on a server that may be read-only", m)
			}
			reach[n] = true
		}
		isDel := false
		for _, d := range delegable {
			if d == n {
				isDel = true
			}
		}
		if !isDel {
			continue
		}
		c.ob("reachable", n)
		if !reach[n] {
			c.violate("reachable", n, r.fn.Pos(), nil, "no path carries out %s for a requestor authorized by delegation", n)
		}
		for _, o := range r.outs {
			if o.panic || errName(o.res(1)) != "internal/rpc2.ErrRequestorUnqualified" {
				continue
			}
			c.ob("refusal", n)
			a := c.authAt(r, o.st)
			looked := false
			granted := false
			for _, fg := range o.st.eventsNamed(mgr + "FetchGroup") {
				for _, g := range groups {
					if strip(fg.args[1]) == g {
						looked = true
						// the last group examined is the one refused
						if len(fg.vols()) == 0 && c.delegated(a, o.st, g) == "" {
							granted = true
						}
					}
				}
			}
			if !looked {
				c.violate("refusal", n, r.fn.Pos(), trailOf(o.st), "a requestor without the capability is refused before the delegation of the target group was examined")
			} else if granted {
				c.violate("refusal", n+" granted", r.fn.Pos(), trailOf(o.st), "a requestor is refused although the delegation check succeeded")
			}
		}
	}
	c.need("delegation", 5)
	c.need("reachable", 5)
	c.need("refusal", 5)
}

// vols lists the loops an event was recorded in an earlier iteration of.
func (ev *Event) vols() []nestKey {
	var l []nestKey
	for _, a := range ev.args {
		l = unionNest(l, a.some)
		l = unionNest(l, a.vol)
	}
	if !ev.known {
		return l
	}
	// what an argument was computed in a loop of before does not matter
	var in []nestKey
	for _, k := range l {
		if hasNest(ev.loops, k) {
			in = append(in, k)
		}
	}
	return in
}
