package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const clientPkg = "pkg/netauth"

func init() {
	register(&Check{
		id:        "C27",
		technique: "dataflow of the transport options into every gRPC server and connection that is created, on every path of the server's start and of every operation of the client library; census of the writers of the insecure setting",
		rule:      "transport options always contain TLS credentials loaded without error from the configured certificate (and key), unless the insecure setting is known to be on; they contain no others; the insecure setting is off by default and never set by the program",
		run:       runC27,
	})
}

// A clientRun is the analysis of one operation of the client library;
// calls holds the state before each call.
type clientRun struct {
	opRun
	calls []rpcCall
}

// clientOps runs the exported functions of the client library; calls
// into other packages are kept as events.
func (c *Ctx) clientOps(rule string, cfg func(e *Engine, f *ssa.Function)) []*clientRun {
	pkg := c.P.byPkg[clientPkg]
	if pkg == nil {
		c.unresolved(rule, clientPkg)
		return nil
	}
	var entries []*ssa.Function
	for _, f := range c.P.fns {
		if f.Pkg != pkg || f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" || f.Blocks == nil {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); !ok || !n.Obj().Exported() {
				continue
			}
		}
		entries = append(entries, f)
	}
	sort.Slice(entries, func(i, j int) bool { return fnName(entries[i]) < fnName(entries[j]) })
	var res []*clientRun
	for _, f := range entries {
		e := newEngine(c.P)
		e.boundary = func(n string) bool {
			fn := c.P.fn(n)
			return fn != nil && fn.Pkg != nil && fn.Pkg != pkg
		}
		pureGetBool(e)
		if cfg != nil {
			cfg(e, f)
		}
		r := &clientRun{opRun: opRun{name: f.Name(), fn: f, e: e}}
		seen := map[string]bool{}
		e.onCall = func(ev *Event, st *State) {
			k := ev.key + st.key()
			if ev.kind != "call" || seen[k] {
				return
			}
			seen[k] = true
			r.calls = append(r.calls, rpcCall{ev, st.clone()})
		}
		e.onBack = func(it *iteration) { r.iters = append(r.iters, it) }
		if f.Signature.Recv() == nil {
			r.name = "func " + f.Name()
		}
		r.args = entryArgs(f)
		r.outs = e.run(f, r.args, newState())
		c.done(e, rule, r.name)
		c.outs += len(r.outs)
		res = append(res, r)
	}
	return res
}

// pureGetBool: a boolean setting has the same value whenever it is read.
func pureGetBool(e *Engine) {
	e.models["github.com/spf13/viper.GetBool"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		return one(st, settingBool(args[0]))
	}
}

func settingBool(name *Term) *Term {
	if s, ok := name.str(); ok {
		name = kString(strings.ToLower(s)) // settings are case-insensitive
	}
	return mk(Term{op: OpPure, s: "github.com/spf13/viper.GetBool", args: []*Term{name}, typ: types.Typ[types.Bool]})
}

// callsTo: the call instructions in the module whose static callee is
// one of the given functions.
func (P *Program) callsTo(is func(name string) bool, f func(in *ssa.Function, call ssa.CallInstruction, name string)) {
	for _, fn := range P.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if s := call.Common().StaticCallee(); s != nil && is(s.String()) {
					f(fn, call, s.String())
				}
			}
		}
	}
}

func calleeIn(names ...string) func(string) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(n string) bool { return m[n] }
}

const (
	grpcP  = "google.golang.org/grpc."
	credsP = "google.golang.org/grpc/credentials."
)

func isDial(n string) bool {
	switch n {
	case grpcP + "Dial", grpcP + "DialContext", grpcP + "NewClient":
		return true
	}
	return false
}

// tlsOptions: the options make a connection or server use TLS.
func tlsOptions(e *Engine, st *State, opts *Term, wrap, load string, okArgs func(args []*Term) string) string {
	items, whole := e.listItems(st, opts)
	if len(whole) > 0 {
		return "the transport options cannot be determined"
	}
	found := false
	for _, it := range items {
		it = strip(it)
		switch {
		case it.op != OpCall:
			return "a transport option cannot be determined"
		case it.s == grpcP+"WithInsecure":
			return "transport security is turned off"
		case it.s == grpcP+"WithCredentialsBundle", it.s == grpcP+"WithDialer", it.s == grpcP+"WithContextDialer":
			return "the transport is replaced"
		case it.s == wrap:
			cr := it.args[0]
			for cr.op == OpMkIface {
				cr = cr.args[0]
			}
			if cr.op != OpExt || cr.args[0].s != load {
				return "the credentials do not come from the configured certificate"
			}
			if !st.holds(ext(cr.args[0], 1), kNil) {
				return "the credentials may have failed to load"
			}
			if why := okArgs(cr.args[0].args); why != "" {
				return why
			}
			found = true
		}
	}
	if !found {
		return "no TLS credentials are given"
	}
	return ""
}

func mentionsSetting(t *Term, name string) bool {
	return t.contains(func(x *Term) bool {
		if (x.op == OpCall || x.op == OpPure) && strings.HasPrefix(x.s, "github.com/spf13/viper.Get") && len(x.args) == 1 {
			s, _ := x.args[0].str()
			return strings.EqualFold(s, name)
		}
		return false
	})
}

// offSetting decides that a boolean setting is off unless the user turns
// it on; it returns the flag variables of the setting.
func (c *Ctx) offSetting(setting, what string) map[*ssa.Global]bool {
	isSetting := func(k ssa.Value) bool {
		s, ok := k.(*ssa.Const)
		return ok && s.Value != nil && strings.EqualFold(strings.Trim(s.Value.ExactString(), `"`), setting)
	}
	// the flag variables of the setting
	flags := map[*ssa.Global]bool{}
	isFalse := func(v ssa.Value) bool {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		k, ok := v.(*ssa.Const)
		return ok && k.Value != nil && k.Value.ExactString() == "false"
	}
	c.P.callsTo(func(n string) bool {
		return strings.Contains(n, "spf13/pflag.") || strings.Contains(n, "spf13/pflag.FlagSet).") || strings.HasPrefix(n, "flag.") || strings.Contains(n, "spf13/viper.")
	}, func(in *ssa.Function, call ssa.CallInstruction, name string) {
		args := call.Common().Args
		for i, a := range args {
			if !isSetting(a) {
				continue
			}
			short := name[strings.LastIndex(name, ".")+1:]
			inst := "setting " + short + " in " + fnName(in)
			c.ob("setting", inst)
			switch {
			case strings.HasPrefix(short, "Get"), strings.HasPrefix(short, "Bind"), short == "IsSet", short == "Lookup", short == "Changed", short == "InConfig":
			case short == "Bool" || short == "BoolP" || short == "BoolVar" || short == "BoolVarP":
				off := false
				for _, d := range args[i+1:] {
					off = off || isFalse(d)
				}
				if !off {
					c.violate("setting", inst, call.Pos(), nil, "%s by default", what)
				}
				if v := call.Value(); v != nil && v.Referrers() != nil {
					for _, r := range *v.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Val == v {
							if g, ok := st.Addr.(*ssa.Global); ok {
								flags[g] = true
							}
						}
					}
				}
				if strings.Contains(short, "Var") {
					if g, ok := args[i-1].(*ssa.Global); ok {
						flags[g] = true
					}
				}
			case (short == "Set" || short == "SetDefault") && i+1 < len(args) && isFalse(args[i+1]):
			default:
				c.violate("setting", inst, call.Pos(), nil, "the program itself changes the setting %s (%s)", setting, short)
			}
		}
	})
	// other writes to the flag's storage
	for _, f := range c.P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				if ld, ok := a.(*ssa.UnOp); ok && ld.Op == token.MUL {
					a = ld.X
				}
				g, ok := a.(*ssa.Global)
				if !ok || !flags[g] {
					continue
				}
				if call, ok := st.Val.(*ssa.Call); ok && len(call.Call.Args) > 0 && (isSetting(call.Call.Args[0]) || len(call.Call.Args) > 1 && isSetting(call.Call.Args[1])) {
					continue
				}
				if !isFalse(st.Val) {
					c.violate("setting", "store in "+fnName(f), st.Pos(), nil, "%s changes the setting %s", fnName(f), setting)
				}
			}
		}
	}
	return flags
}

func runC27(c *Ctx) {
	const setting = "tls.pwn_me"
	flags := c.offSetting(setting, "transport security is turned off")
	insecure := func(st *State) bool {
		if st.holds(settingBool(kString(setting)), kTrue) {
			return true
		}
		return st.lits(func(t, v *Term, eq bool) bool {
			if !(eq && v == kTrue || !eq && v == kFalse) {
				return false
			}
			t = strip(t)
			for t.op == OpDeref {
				t = t.args[0]
			}
			g, ok := t.fn.(*ssa.Global)
			return ok && flags[g]
		})
	}

	// the server
	m := c.runMain("server")
	serves := 0
	if m != nil {
		for _, cl := range m.calls {
			ev, st := cl.ev, cl.st
			switch {
			case strings.HasSuffix(ev.name, "grpc.Server).Serve"):
				serves++
				c.ob("server", "serve")
				if s := strip(ev.args[0]); s.op != OpCall || s.s != grpcP+"NewServer" {
					c.violate("server", "serve", ev.pos, pathOf(ev, st), "the server that accepts requests was not created by grpc.NewServer: %v", s)
				}
			case ev.name == grpcP+"NewServer":
				c.ob("server", "options")
				if insecure(st) {
					continue
				}
				why := tlsOptions(m.e, st, ev.args[0], grpcP+"Creds", credsP+"NewServerTLSFromFile", func(a []*Term) string {
					if !mentionsSetting(a[0], "tls.certificate") {
						return "the certificate is not the configured one"
					}
					if !mentionsSetting(a[1], "tls.key") {
						return "the key is not the configured one"
					}
					return ""
				})
				if why != "" {
					c.violate("server", "options", ev.pos, pathOf(ev, st), "the server may run without TLS although the insecure setting is not on: %s", why)
				}
			}
		}
		if serves == 0 {
			c.violate("server", "serve unreachable", m.fn.Pos(), nil, "the server never accepts requests")
		}
		c.P.callsTo(calleeIn(grpcP+"NewServer", "(*"+strings.TrimSuffix(grpcP, ".")+".Server).Serve"), func(in *ssa.Function, call ssa.CallInstruction, name string) {
			c.ob("census", fnName(in))
			if in.Pkg != m.fn.Pkg && !strings.Contains(fnName(in), "plugin/tree/") {
				c.violate("census", fnName(in), call.Pos(), nil, "%s sets up another gRPC server", fnName(in))
			}
		})
	}

	// the client
	dials := 0
	for _, r := range c.clientOps("client", nil) {
		for _, o := range r.outs {
			for _, ev := range o.st.events {
				if !isDial(ev.name) {
					continue
				}
				dials++
				c.ob("client", r.name)
				if insecure(o.st) {
					continue
				}
				why := tlsOptions(r.e, o.st, ev.args[len(ev.args)-1], grpcP+"WithTransportCredentials", credsP+"NewClientTLSFromFile", func(a []*Term) string {
					if !mentionsSetting(a[0], "tls.certificate") {
						return "the certificate is not the configured one"
					}
					if s, ok := a[1].str(); !ok || s != "" {
						return "the name of the server is overridden"
					}
					return ""
				})
				if why != "" {
					c.violate("client", r.name, ev.pos, pathOf(ev, o.st), "%s may connect without verified TLS although the insecure setting is not on: %s", r.name, why)
				}
			}
		}
	}
	c.need("client", 10)
	c.P.callsTo(isDial, func(in *ssa.Function, call ssa.CallInstruction, name string) {
		c.ob("census", fnName(in))
		if in.Pkg != c.P.byPkg[clientPkg] {
			c.violate("census", fnName(in), call.Pos(), nil, "%s connects to a server by itself", fnName(in))
		}
	})
	// verification is never turned off
	for _, f := range c.P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) == "InsecureSkipVerify" {
					c.violate("census", "verification in "+fnName(f), fa.Pos(), nil, "%s changes whether certificates are verified", fnName(f))
				}
			}
		}
	}
}

// settingAddr stands for the place where a textual setting is kept.
func settingAddr(name *Term) *Term {
	if s, ok := name.str(); ok {
		name = kString(strings.ToLower(s))
	}
	return mk(Term{op: OpField, s: "value", args: []*Term{mk(Term{op: OpParam, s: "setting " + name.String(), typ: types.NewPointer(types.Typ[types.String])})}, typ: types.Typ[types.String]})
}

func (e *Engine) setting(st *State, name string) *Term {
	return e.load(st, settingAddr(kString(name)), types.Typ[types.String])
}

// keepSettings models textual settings: reading returns what was
// written last.
func keepSettings(e *Engine, f *ssa.Function) {
	const v = "github.com/spf13/viper."
	e.models[v+"GetString"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		return one(st, e.load(st, settingAddr(args[0]), types.Typ[types.String]))
	}
	e.models[v+"Set"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		x := args[1]
		for x.op == OpMkIface {
			x = x.args[0]
		}
		if x.typ == nil || !types.Identical(x.typ.Underlying(), types.Typ[types.String]) {
			return one(st, nil)
		}
		e.store(st, settingAddr(args[0]), x, types.Typ[types.String])
		return one(st, nil)
	}
}

const (
	rpcClient = "(protocol/v2.NetAuth2Client)."
	newClient = "protocol/v2.NewNetAuth2Client"
)

// actionSent is the action a key/value request asks for.
func (r *clientRun) actionSent(ev *Event, st *State) *Term {
	pt := types.NewPointer(types.Typ[types.Int32])
	return r.e.load(st, r.e.load(st, mkField(ev.args[2], "Action", pt), pt), types.Typ[types.Int32])
}

// isRead: the request asks to read only.
func (c *Ctx) isRead(r *clientRun, ev *Event, st *State) bool {
	a := r.actionSent(ev, st)
	if a == nil {
		return false
	}
	read := c.P.constOf(protoPath+"/v2", "Action_READ")
	if read == nil {
		c.unresolved("reads", "the READ action")
		return false
	}
	if n, ok := read.intv(); ok {
		if st.holds(a, read) || st.lits(func(t, v *Term, eq bool) bool {
			x, ok := v.intv()
			return eq && ok && x == n && same(t, a)
		}) {
			return true
		}
	}
	a = strip(a)
	// the value registered for a name that is known
	return a.contains(func(x *Term) bool { return x.op == OpGVal && strings.HasSuffix(x.s, ".Action_value") }) &&
		a.contains(func(x *Term) bool { return st.holds(x, kString("READ")) })
}

func init() {
	register(&Check{
		id:        "C28",
		technique: "path-sensitive typestate of the client's connection: for every request sent on every path of every client operation, the server its connection was made to; interprocedural through the helpers of the library",
		rule:      "a mutating request is sent only on a connection to the writable server: one made to it without error on this path, or the current one if it is marked writable or both servers are the same; a connection is marked writable only if it is one; reading does not connect",
		run:       runC28,
	})
}

func runC28(c *Ctx) {
	const server, master = "core.server", "core.master"
	kinds := 0
	for _, r := range c.clientOps("requests", keepSettings) {
		e := r.e
		// where each connection made on this path leads
		target := map[*Term][2]bool{}
		for _, cl := range r.calls {
			if !isDial(cl.ev.name) {
				continue
			}
			c.ob("connections", r.name)
			addr := cl.ev.args[0]
			if len(cl.ev.args) > 2 {
				addr = cl.ev.args[1]
			}
			leads := func(name string) bool {
				v := e.setting(cl.st, name)
				return addr.contains(func(x *Term) bool { return same(x, v) || cl.st.heldEqual(x, v) && x.op == OpDeref })
			}
			t := [2]bool{leads(server), leads(master)}
			if !t[0] && !t[1] {
				c.violate("connections", r.name, cl.ev.pos, pathOf(cl.ev, cl.st), "%s connects to something other than the configured servers: %v", r.name, addr)
			}
			k := strip(cl.ev.res)
			if old, ok := target[k]; ok {
				t = [2]bool{t[0] && old[0], t[1] && old[1]}
			}
			target[k] = t
		}
		// the client interface v uses a connection to the writable server
		writable := func(st *State, v *Term) (ok bool, why string) {
			for v.op == OpMkIface {
				v = v.args[0]
			}
			v = strip(v)
			if v.op != OpCall || v.s != newClient {
				return false, "which is not known to be a connection to the writable server"
			}
			cn := v.args[0]
			for cn.op == OpMkIface {
				cn = cn.args[0]
			}
			if cn.op != OpExt || !isDial(cn.args[0].s) {
				return false, "whose connection was not made by this library"
			}
			if !st.holds(ext(cn.args[0], 1), kNil) {
				return false, "whose connection may have failed"
			}
			if !target[cn.args[0]][1] {
				return false, "which leads to the other server"
			}
			return true, ""
		}
		var self *Term
		if r.fn.Signature.Recv() != nil {
			self = r.args[0]
		}
		bt := types.Typ[types.Bool]
		initRPC := func(v *Term) bool {
			return self != nil && fieldOf(v, "rpc") == self
		}
		for _, cl := range r.calls {
			ev, st := cl.ev, cl.st
			if !strings.HasPrefix(ev.name, rpcClient) {
				continue
			}
			m := strings.TrimPrefix(ev.name, rpcClient)
			h, ok := handlerOps[m]
			if !ok {
				c.violate("requests", r.name+" "+m, ev.pos, pathOf(ev, st), "%s sends a request of an unknown kind (%s)", r.name, m)
				continue
			}
			mutating := false
			for _, op := range h.ops {
				_, x := mutators[op]
				mutating = mutating || x
			}
			if mutating && (strings.HasSuffix(m, "UM") || m == "EntityKeys") && c.isRead(r, ev, st) {
				mutating = false
			}
			if !mutating {
				c.ob("reads", r.name+" "+m)
				for _, d := range st.events {
					if isDial(d.name) {
						c.violate("reads", r.name+" "+m, d.pos, pathOf(d, st), "%s connects to another server although it only reads", r.name)
					}
				}
				continue
			}
			c.ob("requests", r.name+" "+m)
			kinds++
			recv := ev.args[0]
			if initRPC(recv) {
				w := origin(mkField(self, "writeable", bt), bt)
				if st.holds(w, kTrue) || st.heldEqual(e.setting(st, server), e.setting(st, master)) {
					continue
				}
				c.violate("requests", r.name+" "+m, ev.pos, pathOf(ev, st), "%s sends %s on its current connection, which need not be to the writable server", r.name, m)
				continue
			}
			if ok, why := writable(st, recv); !ok {
				c.violate("requests", r.name+" "+m, ev.pos, pathOf(ev, st), "%s sends %s through %v, %s", r.name, m, recv, why)
			}
		}
		// what the client object says about its connection is true
		clientType := c.P.namedType(clientPkg, "Client")
		if clientType == nil {
			c.unresolved("marking", "the client type")
			return
		}
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			objs := []*Term{}
			if self != nil {
				objs = append(objs, self)
			} else if p, ok := r.fn.Signature.Results().At(0).Type().(*types.Pointer); ok && r.fn.Signature.Results().Len() == 2 && types.Identical(p.Elem(), clientType) && o.st.nilness(o.res(1)) != 0 {
				objs = append(objs, o.res(0))
			}
			for _, p := range objs {
				if p.isNil() {
					continue
				}
				c.ob("marking", r.name)
				var rpcT types.Type
				for _, f := range msgFieldsAll(clientType) {
					if f.Name() == "rpc" {
						rpcT = f.Type()
					}
				}
				if rpcT == nil {
					c.unresolved("marking", "the connection of the client")
					return
				}
				rv := e.load(o.st, mkField(p, "rpc", rpcT), rpcT)
				wv := e.load(o.st, mkField(p, "writeable", bt), bt)
				if initRPC(rv) && (wv == origin(mkField(self, "writeable", bt), bt) || o.st.holds(wv, kFalse)) {
					continue // unchanged
				}
				if ok, why := writable(o.st, rv); !ok && !o.st.holds(wv, kFalse) && !(initRPC(rv) && o.st.holds(origin(mkField(self, "writeable", bt), bt), kTrue)) {
					c.violate("marking", r.name, r.fn.Pos(), trailOf(o.st), "%s leaves the client marked writable with %v, %s", r.name, rv, why)
				}
			}
			// failing to connect fails the operation
			for _, ev := range o.st.events {
				if isDial(ev.name) && !o.st.holds(ext(ev.res, 1), kNil) && r.fn.Signature.Results().Len() > 0 {
					c.ob("failure", r.name)
					if er := o.res(r.fn.Signature.Results().Len() - 1); !same(er, ext(ev.res, 1)) && o.st.nilness(er) != 0 {
						c.violate("failure", r.name, ev.pos, trailOf(o.st), "%s may report success although connecting failed", r.name)
					}
				}
			}
		}
	}
	c.need("requests", 22)
	if kinds == 0 {
		c.violate("requests", "none", token.NoPos, nil, "the client library sends no mutating requests")
	}
}

func msgFieldsAll(t types.Type) []*types.Var {
	var l []*types.Var
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			l = append(l, s.Field(i))
		}
	}
	return l
}

// A sent describes one field of a request: the parameter of the client
// operation it carries (1 = first after the context), and the argument
// of the server's operation that receives it (0: examined by the
// server, but not passed on as it is).
type sent struct {
	path  string
	param int
	op    string
	arg   int
	kind  string // "": a scalar, "msg": a message, "enum": a named value, "one": a list of one, "values": a list of indexed values
}

type clientSpec struct {
	rpc    string
	fields []sent
	res    string // the part of the response that is returned first
}

func kvSpec(kind, op string, values bool) clientSpec {
	s := clientSpec{rpc: kind + op, fields: []sent{{"Target", 1, kind + op, 1, ""}, {"Data.Key", 2, kind + op, 2, ""}}}
	if values {
		s.fields = append(s.fields, sent{"Data.Values", 3, kind + op, 2, "values"})
	}
	return s
}

func named(rpc, path, op string) clientSpec {
	return clientSpec{rpc: rpc, fields: []sent{{path, 1, op, 1, ""}}}
}

func (s clientSpec) returns(path string) clientSpec { s.res = path; return s }

var clientSpecs = map[string]clientSpec{
	"AuthEntity":         {rpc: "AuthEntity", fields: []sent{{"Entity.ID", 1, "ValidateSecret", 1, ""}, {"Secret", 2, "ValidateSecret", 2, ""}}},
	"AuthGetToken":       {rpc: "AuthGetToken", fields: []sent{{"Entity.ID", 1, "ValidateSecret", 1, ""}, {"Secret", 2, "ValidateSecret", 2, ""}}, res: "Token"},
	"AuthValidateToken":  named("AuthValidateToken", "Token", tsv+"Validate"),
	"AuthChangeSecret":   {rpc: "AuthChangeSecret", fields: []sent{{"Entity.ID", 1, "SetSecret", 1, ""}, {"Secret", 2, "SetSecret", 2, ""}, {"Entity.Secret", 3, "ValidateSecret", 2, ""}}},
	"EntityCreate":       {rpc: "EntityCreate", fields: []sent{{"Entity.ID", 1, "CreateEntity", 1, ""}, {"Entity.Secret", 2, "CreateEntity", 3, ""}, {"Entity.Number", 3, "CreateEntity", 2, ""}}},
	"EntityUpdate":       {rpc: "EntityUpdate", fields: []sent{{"Data.ID", 1, "UpdateEntityMeta", 1, ""}, {"Data.Meta", 2, "UpdateEntityMeta", 2, "msg"}}},
	"EntityInfo":         named("EntityInfo", "Entity.ID", "FetchEntity").returns("Entities[]"),
	"EntitySearch":       named("EntitySearch", "Expression", "SearchEntities").returns("Entities"),
	"EntityUM":           {rpc: "EntityUM", fields: []sent{{"Target", 1, "ManageUntypedEntityMeta", 1, ""}, {"Action", 2, "", 0, "enum"}, {"Key", 3, "ManageUntypedEntityMeta", 3, ""}, {"Value", 4, "ManageUntypedEntityMeta", 4, ""}}},
	"EntityKVGet":        kvSpec("Entity", "KVGet", false),
	"EntityKVAdd":        kvSpec("Entity", "KVAdd", true),
	"EntityKVDel":        kvSpec("Entity", "KVDel", false),
	"EntityKVReplace":    kvSpec("Entity", "KVReplace", true),
	"EntityKeys":         {rpc: "EntityKeys", fields: []sent{{"Target", 1, "UpdateEntityKeys", 1, ""}, {"Action", 2, "", 0, "enum"}, {"Key", 3, "UpdateEntityKeys", 3, ""}, {"Value", 4, "UpdateEntityKeys", 4, ""}}},
	"EntityDestroy":      named("EntityDestroy", "Entity.ID", "DestroyEntity"),
	"EntityLock":         named("EntityLock", "Entity.ID", "LockEntity"),
	"EntityUnlock":       named("EntityUnlock", "Entity.ID", "UnlockEntity"),
	"EntityGroups":       named("EntityGroups", "Entity.ID", "FetchEntity").returns("Groups"),
	"GroupCreate":        {rpc: "GroupCreate", fields: []sent{{"Group.Name", 1, "CreateGroup", 1, ""}, {"Group.DisplayName", 2, "CreateGroup", 2, ""}, {"Group.ManagedBy", 3, "CreateGroup", 3, ""}, {"Group.Number", 4, "CreateGroup", 4, ""}}},
	"GroupUpdate":        {rpc: "GroupUpdate", fields: []sent{{"Group", 1, "UpdateGroupMeta", 2, "msg"}}},
	"GroupInfo":          named("GroupInfo", "Group.Name", "FetchGroup").returns("Groups[]"),
	"GroupUM":            {rpc: "GroupUM", fields: []sent{{"Target", 1, "ManageUntypedGroupMeta", 1, ""}, {"Action", 2, "", 0, "enum"}, {"Key", 3, "ManageUntypedGroupMeta", 3, ""}, {"Value", 4, "ManageUntypedGroupMeta", 4, ""}}},
	"GroupKVGet":         kvSpec("Group", "KVGet", false),
	"GroupKVAdd":         kvSpec("Group", "KVAdd", true),
	"GroupKVDel":         kvSpec("Group", "KVDel", false),
	"GroupKVReplace":     kvSpec("Group", "KVReplace", true),
	"GroupUpdateRules":   {rpc: "GroupUpdateRules", fields: []sent{{"Group.Name", 1, "ModifyGroupRule", 1, ""}, {"RuleAction", 2, "ModifyGroupRule", 3, "enum"}, {"Target.Name", 3, "ModifyGroupRule", 2, ""}}},
	"GroupAddMember":     {rpc: "GroupAddMember", fields: []sent{{"Entity.Meta.Groups", 1, "AddEntityToGroup", 2, "one"}, {"Entity.ID", 2, "AddEntityToGroup", 1, ""}}},
	"GroupDelMember":     {rpc: "GroupDelMember", fields: []sent{{"Entity.Meta.Groups", 1, "RemoveEntityFromGroup", 2, "one"}, {"Entity.ID", 2, "RemoveEntityFromGroup", 1, ""}}},
	"GroupDestroy":       named("GroupDestroy", "Group.Name", "DestroyGroup"),
	"GroupMembers":       named("GroupMembers", "Group.Name", "ListMembers").returns("Entities"),
	"GroupSearch":        named("GroupSearch", "Expression", "SearchGroups").returns("Groups"),
	"SystemCapabilities": {rpc: "SystemCapabilities", fields: []sent{{"Target", 1, "SetEntityCapability2", 1, ""}, {"Action", 2, "", 0, "enum"}, {"Capability", 3, "SetEntityCapability2", 2, "enum"}, {"Direct", 4, "", 0, ""}}},
	"SystemPing":         {rpc: "SystemPing"},
	"SystemStatus":       {rpc: "SystemStatus", res: "."},
}

// aliases of names for what a request can ask for
var enumAliases = map[string]string{"DROP": "REMOVE_RULE"}

func init() {
	register(&Check{
		id:        "C29",
		technique: "interprocedural dataflow from the parameters of every client operation into the fields of the request it sends, joined with the flow from the same fields into the arguments of the server's operation; error propagation",
		rule:      "every parameter arrives unchanged in the field the server passes to the matching argument of its operation; the request carries the client's identification; success is returned only if the server reported it, and its answer is what is returned",
		run:       runC29,
	})
}

func runC29(c *Ctx) {
	runs := c.clientOps("requests", keepSettings)
	byName := map[string]*clientRun{}
	for _, r := range runs {
		byName[r.name] = r
		// every operation that sends something is specified
		if _, ok := clientSpecs[r.name]; !ok {
			for _, cl := range r.calls {
				if strings.HasPrefix(cl.ev.name, rpcClient) {
					c.violate("requests", r.name, cl.ev.pos, pathOf(cl.ev, cl.st), "%s sends a request but is not one of the confirmed operations", r.name)
				}
			}
		}
	}
	var names []string
	for n := range clientSpecs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r := byName[n]
		if r == nil {
			c.unresolved("requests", "client operation "+n)
			continue
		}
		c.clientRequest(r, clientSpecs[n])
		c.clientResult(r, clientSpecs[n])
	}
	// the token is attached where the server looks for it
	if a := byName["func Authorize"]; a == nil {
		c.unresolved("token", "Authorize")
	} else {
		for _, o := range a.outs {
			c.ob("token", "Authorize")
			v := o.res(0)
			if !appended(v, a.args[0], "authorization", func(x *Term) bool { return same(x, a.args[1]) }) {
				c.violate("token", "Authorize", a.fn.Pos(), trailOf(o.st), "Authorize does not attach the token to the request: %v", v)
			}
		}
	}
	// the server's side of the same fields
	var hn []string
	for _, n := range names {
		hn = append(hn, clientSpecs[n].rpc)
	}
	hs := c.runHandlers("server", nil, hn...)
	for _, n := range names {
		sp := clientSpecs[n]
		h := hs[sp.rpc]
		if h == nil {
			c.unresolved("server", "request "+sp.rpc)
			continue
		}
		for _, f := range sp.fields {
			if f.arg == 0 {
				continue
			}
			full := f.op
			if !strings.HasPrefix(full, "(") {
				full = mgr + full
			}
			c.ob("server", sp.rpc+" "+f.path)
			calls, got := 0, false
			for _, cl := range h.calls {
				if cl.ev.name != full || len(cl.ev.args) <= f.arg {
					continue
				}
				calls++
				arg := cl.ev.args[f.arg]
				var look func(t *Term, d int) bool
				look = func(t *Term, d int) bool {
					if root, p := accessPath(t); root == h.r && p != "" {
						return strings.TrimSuffix(p, "[]") == f.path || strings.HasPrefix(f.path, p+".")
					}
					if t.op == OpSome {
						return look(t.args[0], d)
					}
					if t.op == OpAlloc && d < 4 {
						for k, v := range cl.st.mem {
							if allocBase(k) == t && v != t && look(v, d+1) {
								return true
							}
						}
					}
					for _, a := range t.args {
						if look(a, d) {
							return true
						}
					}
					return false
				}
				got = got || look(arg, 0)
			}
			if calls == 0 {
				c.unresolved("server", sp.rpc+" calling "+f.op)
			} else if !got {
				c.violate("server", sp.rpc+" "+f.path, h.fn.Pos(), nil, "the server does not pass %s of the request on to %s (argument %d), where the client's operation needs it", f.path, f.op, f.arg)
			}
		}
	}
	c.need("requests", 35)
	c.need("server", 60)
}

// appended: v is the context with the key attached.
func appended(v, ctx *Term, key string, is func(*Term) bool) bool {
	ok := false
	for v = strip(v); (v.op == OpCall || v.op == OpPure) && v.s == "google.golang.org/grpc/metadata.AppendToOutgoingContext"; v = v.args[0] {
		var l []*Term
		for _, a := range v.args[1:] {
			if a.op == OpTuple {
				l = append(l, a.args...)
			}
		}
		for i := 0; i+1 < len(l); i += 2 {
			if s, _ := l[i].str(); s == key && is(l[i+1]) {
				ok = true
			}
		}
	}
	return ok && v.contains(func(x *Term) bool { return x == ctx })
}

func (c *Ctx) clientRequest(r *clientRun, sp clientSpec) {
	e := r.e
	self, ctx := r.args[0], r.args[1]
	c.ob("requests", r.name)
	n := 0
	for _, cl := range r.calls {
		ev, st := cl.ev, cl.st
		if !strings.HasPrefix(ev.name, rpcClient) {
			continue
		}
		bad := func(inst, f string, a ...any) {
			c.violate("requests", r.name+" "+inst, ev.pos, pathOf(ev, st), r.name+" "+f, a...)
		}
		for _, k := range []string{"client-name", "service-name"} {
			f := map[string]string{"client-name": "clientName", "service-name": "serviceName"}[k]
			c.ob("identification", r.name+" "+k)
			if !appended(ev.args[1], ctx, k, func(x *Term) bool { return fieldOf(x, f) == self }) {
				bad("identification", "does not attach %s to its request", k)
			}
		}
		if m := strings.TrimPrefix(ev.name, rpcClient); m != sp.rpc {
			for _, op := range handlerOps[m].ops {
				if _, mut := mutators[op]; mut {
					bad("kind", "sends a request of another kind (%s)", m)
				}
			}
			continue
		}
		n++
		if len(sp.fields) == 0 {
			continue
		}
		pt, ok := ev.fn.Type().(*types.Signature).Params().At(1).Type().(*types.Pointer)
		if !ok {
			bad("request", "sends something that is not understood")
			continue
		}
		for _, f := range sp.fields {
			c.ob("fields", r.name+" "+f.path)
			p := r.args[1+f.param]
			v, typ := ev.args[2], types.Type(pt)
			miss := ""
			for _, name := range strings.Split(f.path, ".") {
				ptr, ok := typ.(*types.Pointer)
				var ft types.Type
				if ok {
					for _, x := range msgFields(ptr.Elem()) {
						if x.Name() == name {
							ft = x.Type()
						}
					}
				}
				if ft == nil || v.isNil() || st.nilness(v) == 1 {
					miss = name
					break
				}
				v, typ = e.load(st, mkField(v, name, ft), ft), ft
			}
			if miss != "" {
				bad(f.path, "sends no %s", f.path)
				continue
			}
			if why := c.carries(r, st, f, v, typ, p); why != "" {
				bad(f.path, "does not send its parameter %s as %s: %s", p, f.path, why)
			}
		}
	}
	if n == 0 {
		c.violate("requests", r.name, r.fn.Pos(), nil, "%s never sends the request %s", r.name, sp.rpc)
	}
}

// carries: the content v of the field is the parameter p.
func (c *Ctx) carries(r *clientRun, st *State, f sent, v *Term, typ types.Type, p *Term) string {
	e := r.e
	content := func(v *Term, typ types.Type) *Term {
		if pt, ok := typ.(*types.Pointer); ok {
			if v.isNil() {
				return v
			}
			return e.load(st, v, pt.Elem())
		}
		return v
	}
	switch f.kind {
	case "msg":
		if !same(v, p) {
			return "it sends " + v.String()
		}
	case "":
		if x := content(v, typ); !same(x, p) {
			return "it sends " + x.String()
		}
	case "enum":
		x := strip(content(v, typ))
		pt, _ := typ.(*types.Pointer)
		named, ok := pt.Elem().(*types.Named)
		if !ok {
			return "it is not an enumeration"
		}
		table := named.Obj().Name() + "_value"
		isName := func(t *Term) bool {
			t = strip(t)
			if t.op == OpPure && t.s == "strings.ToUpper" {
				t = t.args[0]
			}
			return same(t, p)
		}
		// the name asked for is known to be s
		asked := func(s string) bool {
			return st.lits(func(t, v *Term, eq bool) bool {
				k, ok := v.str()
				return eq && ok && isName(t) && (k == s || enumAliases[k] == s && table == "RuleAction_value")
			})
		}
		if n, ok := x.intv(); ok {
			for _, k := range c.enumNames(named) {
				if k.val == n && asked(k.name) {
					return ""
				}
			}
			return "it sends a fixed value"
		}
		var key *Term
		x.contains(func(y *Term) bool {
			if len(y.args) == 2 && y.args[0].op == OpGVal && strings.HasSuffix(y.args[0].s, "."+table) {
				key = y.args[1]
			}
			return key != nil
		})
		if key == nil {
			return "it sends " + x.String()
		}
		if s, ok := key.str(); ok && asked(s) {
			return ""
		}
		if !isName(key) {
			return "it looks up " + key.String()
		}
		if !st.lits(func(t, v *Term, eq bool) bool {
			return eq && v == kTrue && t.op == OpPure && t.s == "has" && len(t.args) == 2 && same(t.args[1], key)
		}) {
			return "an unknown name is sent as a default"
		}
	case "one":
		el, whole := e.listItems(st, v)
		if len(whole) > 0 || len(el) != 1 || !same(el[0], p) {
			return "the list sent is " + v.String()
		}
	case "values":
		return c.carriesValues(r, st, v, p)
	}
	return ""
}

type enumName struct {
	name string
	val  int64
}

func (c *Ctx) enumNames(t *types.Named) []enumName {
	var l []enumName
	sc := t.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), t) {
			if v, ok := kConst(k.Val(), k.Type()).intv(); ok {
				l = append(l, enumName{strings.TrimPrefix(n, t.Obj().Name()+"_"), v})
			}
		}
	}
	return l
}

// carriesValues: the list holds every value of the parameter with its
// position, and nothing else.
func (c *Ctx) carriesValues(r *clientRun, st *State, list, p *Term) string {
	e := r.e
	st32, i32 := types.Typ[types.String], types.Typ[types.Int32]
	// the message holds the element at idx of p and that index
	item := func(st *State, m *Term) (idx *Term, ok bool) {
		v := e.load(st, mkField(m, "Value", types.NewPointer(st32)), types.NewPointer(st32))
		ip := e.load(st, mkField(m, "Index", types.NewPointer(i32)), types.NewPointer(i32))
		if v.isNil() || ip.isNil() {
			return nil, false
		}
		s, i := strip(e.load(st, v, st32)), strip(e.load(st, ip, i32))
		if elemBase(s) != p {
			return nil, false
		}
		return s.args[0].args[1], same(s.args[0].args[1], i)
	}
	el, whole := e.listItems(st, list)
	if len(whole) > 0 {
		return "the list sent is " + list.String()
	}
	for _, m := range el {
		if m.isNil() {
			continue
		}
		if _, ok := item(st, m); !ok {
			return "the list sent contains something else, or a value without its position"
		}
	}
	loops := map[nestKey]bool{}
	n := 0
	for _, it := range r.iters {
		if it.base == nil || strip(it.base) != p {
			continue
		}
		n++
		loops[it.key] = true
		kept := false
		put := func(m *Term) {
			if m.op == OpAlloc || m.op == OpSome && m.args[0].op == OpAlloc {
				if i, ok := item(it.st, m); ok && i != nil && it.elem != nil {
					x := strip(it.elem)
					kept = kept || x.op == OpDeref && x.args[0].op == OpElem && same(x.args[0].args[1], i)
				}
			}
		}
		for k, v := range it.st.mem {
			if k.op == OpElem {
				put(v)
			}
			if v.op == OpAppend {
				for _, a := range v.args[1:] {
					put(a)
				}
			}
		}
		for _, v := range it.vals {
			if v.op == OpAppend {
				for _, a := range v.args[1:] {
					put(a)
				}
			}
		}
		if !kept {
			return "a value can be left out"
		}
	}
	if n == 0 {
		return "the values are not examined"
	}
	if !st.exhaustedBy(p, loops) {
		return "the request is sent before all values are in it"
	}
	return ""
}

func (c *Ctx) clientResult(r *clientRun, sp clientSpec) {
	n := r.fn.Signature.Results().Len()
	c.ob("results", r.name)
	for _, o := range r.outs {
		if o.panic {
			continue
		}
		bad := func(inst, f string, a ...any) {
			c.violate("results", r.name+" "+inst, r.fn.Pos(), trailOf(o.st), r.name+" "+f, a...)
		}
		er := o.res(n - 1)
		own := o.st.eventsNamed(rpcClient + sp.rpc)
		if len(own) > 1 {
			bad("repeated", "sends its request more than once")
		}
		if len(own) == 0 {
			if o.st.nilness(er) != 0 {
				bad("unsent", "may report success without sending its request")
			}
			continue
		}
		ev := own[len(own)-1]
		x := errOf(ev)
		if same(er, x) {
			// passed on
		} else if o.st.holds(x, kNil) {
			// an answer that lacks what was asked for is an error
			if o.st.nilness(er) != 1 && !strings.HasSuffix(sp.res, "[]") {
				bad("spurious", "may report an error although its request succeeded")
			}
		} else if o.st.nilness(er) != 0 {
			bad("swallowed", "may report success although its request failed")
		}
		if sp.res == "" || o.st.nilness(er) == 0 || !o.st.holds(x, kNil) && !same(er, x) {
			continue
		}
		v := strip(o.res(0))
		resp := strip(ext(ev.res, 0))
		switch {
		case sp.res == ".":
			if v != resp {
				bad("answer", "does not return the answer of the server")
			}
		case o.st.holds(resp, kNil) || o.st.nilness(resp) == 1:
		default:
			root, p := accessPath(v)
			if root != resp || p != sp.res {
				if v.isConst() && o.st.lits(func(t, k *Term, eq bool) bool {
					rt, pt := accessPath(t)
					return eq && k == kNil && rt == resp && strings.HasPrefix(sp.res, pt)
				}) {
					continue // there is none
				}
				bad("answer", "does not return %s of the answer but %v", sp.res, v)
			}
		}
	}
}
