package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tokenPkg = "internal/token"
	jwtPkg   = "internal/token/jwt"
	jwtLib   = "github.com/dgrijalva/jwt-go"
)

func init() {
	register(&Check{
		id:        "C09",
		technique: "path-sensitive dataflow over the validation of a token, its key callback and the key loading; census of the switches that weaken the JWT library",
		rule:      "validation succeeds only on paths where the library parsed the presented token without error, with a key callback that yields nothing but the service's RSA public key and claims checked by the library's standard time check; the result is the claims of that token and any failure yields empty claims",
		run:       runC09,
	})
	register(&Check{
		id:        "C10",
		technique: "path-sensitive dataflow from the configuration to the issued token: signing key, time claims and lifetime on every path",
		rule:      "a token is issued only if the private key is known to be there and signing succeeded; it is valid from the configured start and expires the configured lifetime later; the server passes its configured lifetime on before it serves",
		run:       runC10,
	})
	register(&Check{
		id:        "C32",
		technique: "path-sensitive effect analysis of the key handling: every file written, with its mode, the data it is given and what is known about the file before",
		rule:      "keys are generated only if enabled and missing; every key file written is new, private keys are owner-only; success means that every step was checked and the keys in use are the parsed or generated ones",
		run:       runC32,
	})
}

// pureCrypto: key and encoding functions of the standard library do not
// modify their arguments; encoding a block shows what is in it.
func pureCrypto(e *Engine) {
	pure := func(n string) {
		e.models[n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			e.addEvent(fr, st, "call", n, nil, args, nil, call.Pos())
			r := call.Common().Signature().Results()
			if r.Len() == 1 {
				return one(st, mk(Term{op: OpPure, s: n, args: args, typ: r.At(0).Type()}))
			}
			t := mk(Term{op: OpPure, s: n, args: args, typ: r})
			var l []*Term
			for i := 0; i < r.Len(); i++ {
				l = append(l, withType(ext(t, i), r.At(i).Type()))
			}
			return one(st, mk(Term{op: OpTuple, args: l}))
		}
	}
	for _, n := range []string{"MarshalPKCS1PrivateKey", "MarshalPKCS8PrivateKey", "MarshalPKCS1PublicKey", "MarshalPKIXPublicKey", "ParsePKCS1PrivateKey", "ParsePKCS8PrivateKey", "ParsePKCS1PublicKey", "ParsePKIXPublicKey"} {
		pure("crypto/x509." + n)
	}
	pure("encoding/pem.Decode")
	pure("os.IsNotExist")
	pure(jwtLib + ".NewWithClaims")
	pure("(*" + jwtLib + ".Token).SignedString")
	e.models["encoding/pem.EncodeToMemory"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		var l []*Term
		if pt, ok := args[0].typ.(*types.Pointer); ok || args[0].op == OpAlloc {
			t := args[0].typ
			if ok {
				t = pt.Elem()
			}
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					l = append(l, e.load(st, mkField(args[0], s.Field(i).Name(), nil), s.Field(i).Type()))
				}
			}
		}
		if l == nil {
			l = args
		}
		return one(st, mk(Term{op: OpPure, s: "encoding/pem.EncodeToMemory", args: l, typ: call.Common().Signature().Results().At(0).Type()}))
	}
	pureGetBool(e)
}

// jwtService runs a method of the token service, or its constructor.
type svcRun struct {
	fn    *ssa.Function
	args  []*Term
	e     *Engine
	outs  []Outcome
	calls []rpcCall
	in    map[*ssa.Function]bool
}

func (c *Ctx) runToken(rule string, f *ssa.Function, cfg func(e *Engine)) *svcRun {
	return c.runTokenArgs(rule, f, entryArgs(f), cfg)
}

func (c *Ctx) runTokenArgs(rule string, f *ssa.Function, args []*Term, cfg func(e *Engine)) *svcRun {
	e := newEngine(c.P)
	pureCrypto(e)
	e.boundary = func(n string) bool {
		fn := c.P.fn(n)
		return fn != nil && fn.Pkg != nil && fn.Pkg != f.Pkg
	}
	r := &svcRun{fn: f, args: args, e: e, in: map[*ssa.Function]bool{}}
	seen := map[string]bool{}
	e.onCall = func(ev *Event, st *State) {
		k := ev.key + st.key()
		if ev.kind != "call" || seen[k] {
			return
		}
		seen[k] = true
		r.calls = append(r.calls, rpcCall{ev, st.clone()})
	}
	e.onEnter = func(fr *Frame, st *State) { r.in[fr.fn] = true }
	if cfg != nil {
		cfg(e)
	}
	r.outs = e.run(f, r.args, newState())
	c.done(e, rule, fnName(f))
	c.outs += len(r.outs)
	return r
}

// deep: t or a value it was computed from is accepted by f; stop ends the
// search at a value.
func deep(t *Term, stop, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var visit func(t *Term) bool
	visit = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if stop != nil && stop(t) {
			return false
		}
		if f(t) {
			return true
		}
		for _, a := range t.args {
			if visit(a) {
				return true
			}
		}
		return false
	}
	return visit(t)
}

// callOf: t is result i of a call of the named function (i<0: any).
func callOf(t *Term, i int, names ...string) *Term {
	t = strip(t)
	for t.op == OpAssert {
		t = strip(t.args[0])
	}
	if t.op == OpExt {
		if i >= 0 && t.n != i {
			return nil
		}
		t = t.args[0]
	}
	if t.op != OpCall && t.op != OpPure {
		return nil
	}
	for _, n := range names {
		if t.s == n {
			return t
		}
	}
	return nil
}

const serviceType = "RSATokenService"

// serviceImpls: the server has one token service.
func (c *Ctx) serviceImpls(rule string) {
	main := c.P.byPkg["cmd/netauthd"]
	reach := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if reach[p] {
			return
		}
		reach[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	if main != nil {
		visit(main.Pkg)
	}
	n := 0
	c.P.callsTo(calleeIn(modPath+tokenPkg+".Register", c.fullName(tokenPkg, "Register")), func(in *ssa.Function, call ssa.CallInstruction, name string) {
		if !reach[in.Pkg.Pkg] {
			return
		}
		n++
		c.ob(rule, "registered in "+fnName(in))
		f, ok := call.Common().Args[1].(*ssa.Function)
		if mt, isc := call.Common().Args[1].(*ssa.ChangeType); isc {
			f, ok = mt.X.(*ssa.Function)
		}
		if !ok || fnName(f) != jwtPkg+".NewRSA" {
			c.violate(rule, "registered in "+fnName(in), call.Pos(), nil, "%s registers a token service the analysis does not know", fnName(in))
		}
	})
	if n == 0 {
		c.unresolved(rule, "the registration of the token service")
	}
}

func (c *Ctx) fullName(pkg, name string) string {
	if p := c.P.byPkg[pkg]; p != nil {
		if f := p.Func(name); f != nil {
			return f.String()
		}
	}
	return name
}

// keyStores: the keys of the service are set nowhere but in the
// analysed functions.
func (c *Ctx) keyStores(rule, field string, in map[*ssa.Function]bool) {
	T := c.P.namedType(jwtPkg, serviceType)
	if T == nil {
		c.unresolved(rule, serviceType)
		return
	}
	n := 0
	for _, f := range c.P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), T) || fieldName(T, fa.Field) != field {
					continue
				}
				for _, r := range *fa.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					n++
					c.ob(rule, field+" in "+fnName(f))
					if !in[f] {
						c.violate(rule, field+" in "+fnName(f), r.Pos(), nil, "%s changes the %s of the service outside the loading of keys", fnName(f), field)
					}
				}
			}
		}
	}
	if n == 0 {
		c.unresolved(rule, "the place that sets "+field)
	}
}

// goodKey: the key was parsed from a file or generated, successfully.
func goodKey(st *State, k *Term, private bool) string {
	k = strip(k)
	ok := func(call *Term, i int) string {
		if !st.holds(ext(call, i), kNil) {
			return "the key comes from " + call.s + ", which may have failed"
		}
		return ""
	}
	if private {
		if g := callOf(k, 0, "crypto/rsa.GenerateKey"); g != nil {
			return ok(g, 1)
		}
		if g := callOf(k, 0, "crypto/x509.ParsePKCS1PrivateKey", "crypto/x509.ParsePKCS8PrivateKey"); g != nil {
			return ok(g, 1)
		}
		return "the private key is neither loaded nor generated: " + k.String()
	}
	if g := callOf(k, 0, "crypto/x509.ParsePKIXPublicKey", "crypto/x509.ParsePKCS1PublicKey"); g != nil {
		if k.op == OpAssert && !st.holds(mk(Term{op: OpPure, s: "is " + typeKey(k.typ), args: k.args, typ: types.Typ[types.Bool]}), kTrue) {
			return "the file may hold another kind of key"
		}
		return ok(g, 1)
	}
	if k.op == OpField && k.s == "PublicKey" {
		if why := goodKey(st, k.args[0], true); why == "" {
			return ""
		}
	}
	return "the public key is neither loaded nor generated: " + k.String()
}

// keySetup analyses the construction of the service and the keys it ends
// up with.
func (c *Ctx) keySetup(rule string, private, public bool) *svcRun {
	f := c.P.fn(jwtPkg + ".NewRSA")
	if f == nil {
		c.unresolved(rule, "NewRSA")
		return nil
	}
	r := c.runToken(rule, f, nil)
	T := c.P.namedType(jwtPkg, serviceType)
	if T == nil {
		c.unresolved(rule, serviceType)
		return nil
	}
	fieldT := func(n string) types.Type {
		s := T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return s.Field(i).Type()
			}
		}
		return nil
	}
	tp, tq := fieldT("publicKey"), fieldT("privateKey")
	if tp == nil || tq == nil {
		c.unresolved(rule, "the key fields of "+serviceType)
		return nil
	}
	n := 0
	for _, o := range r.outs {
		if o.panic || o.st.nilness(o.res(1)) == 0 {
			continue
		}
		n++
		s := o.res(0)
		if s.op == OpMkIface {
			s = s.args[0]
		}
		pub := o.st.resolve(r.e.load(o.st, mkField(s, "publicKey", nil), tp))
		pri := o.st.resolve(r.e.load(o.st, mkField(s, "privateKey", nil), tq))
		c.ob(rule, "keys of the service")
		if public {
			if why := goodKey(o.st, pub, false); why != "" {
				c.violate(rule, "public key", f.Pos(), trailOf(o.st), "the service may be set up with a bad public key: %s", why)
			}
		}
		if private && o.st.nilness(pri) != 1 {
			if why := goodKey(o.st, pri, true); why != "" {
				c.violate(rule, "private key", f.Pos(), trailOf(o.st), "the service may be set up with a bad private key: %s", why)
			}
		}
	}
	if n == 0 {
		c.violate(rule, "unreachable", f.Pos(), nil, "the token service can never be set up")
	}
	return r
}

func runC09(c *Ctx) {
	c.serviceImpls("implementations")
	if r := c.keySetup("keys", false, true); r != nil {
		c.keyStores("keys", "publicKey", r.in)
	}
	f := c.P.method(jwtPkg, serviceType, "Validate")
	if f == nil {
		c.unresolved("validate", "Validate")
		return
	}
	r := c.runToken("validate", f, nil)
	if len(r.args) < 2 {
		c.unresolved("validate", "the parameters of Validate")
		return
	}
	isParse := func(n string) bool {
		return n == jwtLib+".ParseWithClaims" || n == "(*"+jwtLib+".Parser).ParseWithClaims"
	}
	parses := 0
	for _, cl := range r.calls {
		ev, st := cl.ev, cl.st
		if !isParse(ev.name) {
			continue
		}
		parses++
		a := ev.args
		if strings.HasPrefix(ev.name, "(*") {
			c.ob("parse", "parser")
			p := a[0]
			v := r.e.load(st, mkField(p, "SkipClaimsValidation", nil), types.Typ[types.Bool])
			if !st.holds(v, kFalse) && v != kFalse {
				c.violate("parse", "parser", ev.pos, pathOf(ev, st), "the time claims may not be checked")
			}
			a = a[1:]
		}
		c.ob("parse", "claims type")
		if why := c.claimsType(a[1]); why != "" {
			c.violate("parse", "claims type", ev.pos, pathOf(ev, st), "%s", why)
		}
		c.ob("parse", "key callback")
		if why := c.keyCallback(r, st, a[2]); why != "" {
			c.violate("parse", "key callback", ev.pos, pathOf(ev, st), "%s", why)
		}
	}
	if parses == 0 {
		c.violate("parse", "never parsed", f.Pos(), nil, "no token is ever parsed with verification")
	}
	for _, o := range r.outs {
		if o.panic {
			continue
		}
		c.ob("validate", "outcome")
		er := o.res(1)
		if o.st.nilness(er) == 0 {
			if v := strip(o.res(0)); !zeroClaims(o.st, v) {
				c.violate("validate", "claims of a failure", f.Pos(), trailOf(o.st), "validation fails and still yields claims: %v", v)
			}
			continue
		}
		var p *Event
		for _, ev := range o.st.events {
			if !isParse(ev.name) {
				continue
			}
			tk := ev.args[0]
			if strings.HasPrefix(ev.name, "(*") {
				tk = ev.args[1]
			}
			if same(tk, r.args[1]) && (o.st.holds(errOf(ev), kNil) || same(errOf(ev), er)) {
				p = ev
			}
		}
		if p == nil {
			c.violate("validate", "unverified", f.Pos(), trailOf(o.st), "validation may succeed although the presented token was not parsed without error")
			continue
		}
		if why := verifiedClaims(o.st, p, o.res(0)); why != "" {
			c.violate("validate", "claims", f.Pos(), trailOf(o.st), "%s", why)
		}
	}
	// the library's switches
	c.ob("library", "switches")
	for _, fn := range c.P.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || g.Pkg.Pkg.Path() != jwtLib {
						continue
					}
					switch g.Name() {
					case "TimeFunc":
						if u, ok := in.(*ssa.UnOp); !ok || u.Op != token.MUL {
							c.violate("library", "clock in "+fnName(fn), in.Pos(), nil, "%s changes the clock tokens are checked with", fnName(fn))
						}
					case "UnsafeAllowNoneSignatureType":
						c.violate("library", "unsigned in "+fnName(fn), in.Pos(), nil, "%s accepts unsigned tokens", fnName(fn))
					}
				}
				if k, ok := in.(ssa.CallInstruction); ok {
					if s := k.Common().StaticCallee(); s != nil && s.Pkg != nil && s.Pkg.Pkg.Path() == jwtLib {
						switch s.Name() {
						case "ParseUnverified":
							c.violate("library", "unverified in "+fnName(fn), in.Pos(), nil, "%s reads a token without verifying it", fnName(fn))
						case "RegisterSigningMethod":
							c.violate("library", "method in "+fnName(fn), in.Pos(), nil, "%s changes the signing methods", fnName(fn))
						}
					}
					for _, a := range k.Common().Args {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							a = mi.X
						}
						if kc, ok := a.(*ssa.Const); ok && strings.HasSuffix(kc.Type().String(), "unsafeNoneMagicConstant") {
							c.violate("library", "unsigned in "+fnName(fn), in.Pos(), nil, "%s accepts unsigned tokens", fnName(fn))
						}
					}
				}
			}
		}
	}
}

func zeroClaims(st *State, v *Term) bool {
	if v.op == OpZero {
		return true
	}
	if v.op == OpStruct {
		for _, a := range v.args {
			a = strip(a)
			s, isS := a.str()
			if !(a.isNil() || a.op == OpZero || isS && s == "") && st.nilness(a) != 1 {
				return false
			}
		}
		return true
	}
	return false
}

// verifiedClaims: the result is the part of the parsed token's claims.
func verifiedClaims(st *State, p *Event, v *Term) string {
	v = strip(v)
	tok := ext(p.res, 0)
	ci := 1
	if strings.HasPrefix(p.name, "(*") {
		ci = 2
	}
	arg := strip(p.args[ci])
	if arg.op == OpMkIface {
		arg = arg.args[0]
	}
	var isToken func(t *Term) bool
	isToken = func(t *Term) bool {
		t = strip(t)
		switch {
		case same(t, arg):
			return true
		case t.op == OpAssert || t.op == OpMkIface:
			return isToken(t.args[0])
		case t.lastField() == "Claims":
			root, path := accessPath(t)
			return path == "Claims" && same(root, tok)
		}
		return false
	}
	var isClaims func(t *Term) bool
	isClaims = func(t *Term) bool {
		t = strip(t)
		for t.op == OpDeref {
			t = strip(t.args[0])
		}
		return (t.op == OpField || t.op == OpFVal) && t.s == "Claims" && isToken(t.args[0])
	}
	if isClaims(v) {
		return ""
	}
	if v.op == OpStruct {
		s, ok := v.typ.Underlying().(*types.Struct)
		if ok {
			for i, a := range v.args {
				a = strip(a)
				for a.op == OpDeref {
					a = strip(a.args[0])
				}
				if (a.op != OpField && a.op != OpFVal) || a.s != s.Field(i).Name() || !isClaims(a.args[0]) {
					return "the claims returned are not those of the verified token: " + s.Field(i).Name() + " is " + a.String()
				}
			}
			return ""
		}
	}
	return "the claims returned are not those of the verified token: " + v.String()
}

// claimsType: the library's check of the time claims applies to the type
// the token is parsed into, and the claims are read from the token as
// they are.
func (c *Ctx) claimsType(t *Term) string {
	if t.op != OpMkIface {
		return "the type of the claims cannot be determined"
	}
	ms := c.P.prog.MethodSets.MethodSet(t.typ)
	pt := t.typ
	if p, ok := pt.(*types.Pointer); ok {
		pt = p.Elem()
	}
	n, ok := pt.(*types.Named)
	if !ok {
		return "the type of the claims cannot be determined"
	}
	std := func(f *types.Func) bool {
		sig := f.Type().(*types.Signature)
		return f.Pkg() != nil && f.Pkg().Path() == jwtLib && strings.HasSuffix(sig.Recv().Type().String(), ".StandardClaims")
	}
	sel := ms.Lookup(n.Obj().Pkg(), "Valid")
	if sel == nil {
		return "the claims have no time check"
	}
	vf, _ := sel.Obj().(*types.Func)
	if !std(vf) {
		f := c.P.prog.FuncValue(vf)
		if f == nil || f.Blocks == nil {
			return "the time check of the claims is unknown"
		}
		e := newEngine(c.P)
		outs := e.run(f, entryArgs(f), newState())
		c.done(e, "parse", fnName(f))
		for _, o := range outs {
			if o.panic || o.st.nilness(o.res(0)) == 0 {
				continue
			}
			okc := false
			for _, ev := range o.st.events {
				if ev.fn != nil && ev.fn.Name() == "Valid" && std(ev.fn) && (same(ev.res, o.res(0)) || o.st.holds(ev.res, kNil)) {
					okc = true
				}
			}
			if !okc {
				return fnName(f) + " may accept a token whose time claims were not checked"
			}
		}
	}
	for _, m := range []string{"UnmarshalJSON", "UnmarshalText"} {
		if ms.Lookup(n.Obj().Pkg(), m) != nil {
			return "the claims have their own decoding (" + m + "), which the analysis does not follow"
		}
	}
	// the time claims are decoded under their names
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return "the type of the claims cannot be determined"
	}
	names := map[string]int{}
	var add func(s *types.Struct, stdc bool, depth int) string
	add = func(s *types.Struct, stdc bool, depth int) string {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")[0]
			if f.Anonymous() && tag == "" {
				t := f.Type()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem()
				}
				if u, ok := t.Underlying().(*types.Struct); ok {
					nm, _ := t.(*types.Named)
					if why := add(u, nm != nil && nm.Obj().Name() == "StandardClaims" && nm.Obj().Pkg().Path() == jwtLib, depth+1); why != "" {
						return why
					}
					continue
				}
			}
			if tag == "-" && (f.Anonymous() || stdc) {
				return "the field " + f.Name() + " is not part of the token"
			}
			if tag == "-" || !f.Exported() {
				continue
			}
			if tag == "" {
				tag = f.Name()
			}
			tag = strings.ToLower(tag)
			if names[tag] > 0 {
				return "two fields of the claims share the name " + tag + ", so that neither is decoded reliably"
			}
			names[tag]++
		}
		return ""
	}
	if why := add(s, false, 0); why != "" {
		return why
	}
	for _, x := range []string{"exp", "nbf", "iat"} {
		if names[x] == 0 {
			return "the claim " + x + " is not part of the token"
		}
	}
	return ""
}

// keyCallback: without an error the callback yields nothing but the
// public key of the service.
func (c *Ctx) keyCallback(r *svcRun, st *State, cb *Term) string {
	cb = strip(cb)
	f, ok := cb.fn.(*ssa.Function)
	if !ok || cb.op != OpClosure && cb.op != OpFn {
		return "the key callback cannot be determined"
	}
	var free, recv []*Term
	if cb.op == OpClosure {
		free = cb.args
	}
	if f.Synthetic != "" && len(free) > 0 && f.Blocks == nil {
		return "the key callback cannot be determined"
	}
	args := entryArgs(f)
	fr := &Frame{fn: f, ctx: "key", args: append(recv, args...), free: free, stack: []string{fnName(r.fn), fnName(f)}}
	outs := r.e.exec(fr, st.clone())
	if len(outs) == 0 {
		return "the key callback never returns"
	}
	for _, o := range outs {
		if o.panic || o.st.nilness(o.res(1)) == 0 {
			continue
		}
		k := o.res(0)
		if k.isNil() {
			continue // refused by every signing method
		}
		if k.op != OpMkIface || !strings.HasSuffix(k.typ.String(), "*crypto/rsa.PublicKey") {
			return "a token is checked with a key that is not known to be an RSA public key: " + k.String()
		}
		v := strip(k.args[0])
		if root, path := accessPath(v); path != "publicKey" || !same(root, r.args[0]) {
			return "a token is checked with another key than the public key of the service: " + v.String()
		}
		if o.st.nilness(k.args[0]) != 0 {
			return "a token is checked although the public key may not be there"
		}
	}
	return ""
}

func runC10(c *Ctx) {
	c.serviceImpls("implementations")
	if r := c.keySetup("keys", true, false); r != nil {
		c.keyStores("keys", "privateKey", r.in)
	}
	f := c.P.method(jwtPkg, serviceType, "Generate")
	if f == nil || len(f.Params) != 3 {
		c.unresolved("issue", "Generate")
		return
	}
	r := c.runToken("issue", f, nil)
	s, claims, config := r.args[0], r.args[1], r.args[2]
	bad := func(o Outcome, inst, f string, a ...any) {
		c.violate("issue", inst, r.fn.Pos(), trailOf(o.st), f, a...)
	}
	issued := 0
	for _, o := range r.outs {
		if o.panic {
			continue
		}
		if o.st.nilness(o.res(1)) == 0 {
			c.ob("issue", "refused")
			if v, ok := o.res(0).str(); !ok || v != "" {
				bad(o, "refused", "an error is reported together with a token")
			}
			continue
		}
		issued++
		c.ob("issue", "issued")
		tk := strip(o.res(0))
		sign := callOf(tk, 0, "(*"+jwtLib+".Token).SignedString")
		if sign == nil {
			bad(o, "signed", "what is issued is not a signed token: %v", tk)
			continue
		}
		if er := ext(sign, 1); !o.st.holds(er, kNil) && !same(er, o.res(1)) {
			bad(o, "signing error", "a token is issued although signing may have failed")
		}
		key := strip(sign.args[1])
		if key.op == OpMkIface {
			key = strip(key.args[0])
		}
		if root, path := accessPath(key); path != "privateKey" || !same(root, s) {
			bad(o, "signing key", "the token is signed with another key than the private key of the service: %v", key)
		} else if o.st.nilness(key) != 0 {
			bad(o, "signing key", "the token is signed although the private key may not be there")
		}
		nw := callOf(sign.args[0], -1, jwtLib+".NewWithClaims")
		if nw == nil {
			bad(o, "claims", "the claims of the token cannot be determined")
			continue
		}
		m := strip(nw.args[0])
		if m.op == OpMkIface {
			m = strip(m.args[0])
		}
		g, _ := m.fn.(*ssa.Global)
		if g == nil && m.op == OpDeref {
			g, _ = m.args[0].fn.(*ssa.Global)
		}
		if g == nil || !strings.HasPrefix(g.Name(), "SigningMethodRS") && !strings.HasPrefix(g.Name(), "SigningMethodPS") {
			bad(o, "signing method", "the token is not signed with an RSA method: %v", m)
		}
		cl := nw.args[1]
		if cl.op != OpMkIface {
			bad(o, "claims", "the claims of the token cannot be determined: %v", cl)
			continue
		}
		c.ob("issue", "claims type")
		if why := c.claimsType(cl); why != "" {
			bad(o, "claims type", "%s", why)
		}
		body := strip(cl.args[0])
		typ := cl.typ
		if p, ok := typ.(*types.Pointer); ok {
			typ = p.Elem()
			body = r.e.load(o.st, body, typ)
		}
		fieldV := func(b *Term, t types.Type, name string) (*Term, types.Type) {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return kNil, t
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return strip(o.st.resolve(fval(b, name, st.Field(i).Type()))), st.Field(i).Type()
				}
			}
			return kNil, t
		}
		std, stdT := fieldV(body, typ, "StandardClaims")
		own, _ := fieldV(body, typ, "Claims")
		if !same(own, claims) {
			bad(o, "claims", "the claims of the token are not the ones given: %v", own)
		}
		cfgF := func(name string) func(t *Term) bool {
			return func(t *Term) bool { root, path := accessPath(strip(t)); return path == name && same(root, config) }
		}
		unix := func(t *Term, of func(*Term) bool) bool {
			u := callOf(t, -1, "(time.Time).Unix")
			return u != nil && of(strip(u.args[0]))
		}
		start := func(t *Term) bool { return cfgF("NotBefore")(t) }
		nbf, _ := fieldV(std, stdT, "NotBefore")
		if !unix(nbf, start) {
			bad(o, "NotBefore", "the token is not valid from the configured start: %v", nbf)
		}
		iat, _ := fieldV(std, stdT, "IssuedAt")
		if !unix(iat, cfgF("IssuedAt")) && !unix(iat, start) {
			bad(o, "IssuedAt", "the token does not carry the time of issue: %v", iat)
		}
		exp, _ := fieldV(std, stdT, "ExpiresAt")
		if !unix(exp, func(t *Term) bool {
			a := callOf(t, -1, "(time.Time).Add")
			return a != nil && (start(a.args[0]) || cfgF("IssuedAt")(a.args[0])) && cfgF("Lifetime")(a.args[1])
		}) {
			bad(o, "ExpiresAt", "the token does not expire the configured lifetime after its start: %v", exp)
		}
	}
	if issued == 0 {
		c.violate("issue", "unreachable", f.Pos(), nil, "no token is ever issued")
	}
	c.lifetime()
}

// lifetime: the lifetime of the configuration reaches every token.
func (c *Ctx) lifetime() {
	const rule = "lifetime"
	f := c.P.fn(tokenPkg + ".GetConfig")
	if f == nil {
		c.unresolved(rule, "GetConfig")
		return
	}
	pkg := c.P.byPkg[tokenPkg]
	var lt *ssa.Global
	r := c.runToken(rule, f, nil)
	for _, o := range r.outs {
		if o.panic {
			continue
		}
		c.ob(rule, "GetConfig")
		v := strip(o.res(0))
		st, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Struct)
		if !ok {
			c.unresolved(rule, "token.Config")
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			x := strip(o.st.resolve(fval(v, n, st.Field(i).Type())))
			switch n {
			case "Lifetime":
				if k, isc := x.intv(); isc {
					zero := o.st.lits(func(t, v *Term, eq bool) bool {
						if z, isz := v.intv(); !eq || !isz || z != 0 {
							return false
						}
						t = strip(t)
						return t.op == OpDeref && t.args[0].op == OpGlobal
					})
					if k <= 0 || !zero {
						c.violate(rule, "default", f.Pos(), trailOf(o.st), "tokens get the fixed lifetime %v although one may be configured", x)
					}
					continue
				}
				g, _ := x.fn.(*ssa.Global)
				if x.op == OpDeref {
					g, _ = x.args[0].fn.(*ssa.Global)
				}
				if g == nil || g.Pkg != pkg || lt != nil && lt != g {
					c.violate(rule, "Lifetime", f.Pos(), trailOf(o.st), "tokens do not get the configured lifetime: %v", x)
					continue
				}
				lt = g
			case "IssuedAt", "NotBefore":
				if callOf(x, -1, "time.Now") == nil {
					c.violate(rule, n, f.Pos(), trailOf(o.st), "tokens are not valid from the time of issue: %s is %v", n, x)
				}
			}
		}
	}
	set := c.P.fn(tokenPkg + ".SetLifetime")
	if set == nil || lt == nil {
		c.unresolved(rule, "the place the lifetime is kept")
		return
	}
	sr := c.runToken(rule, set, nil)
	for _, o := range sr.outs {
		c.ob(rule, "SetLifetime")
		if v := sr.e.load(o.st, globalTerm(lt), lt.Type().(*types.Pointer).Elem()); !o.panic && !same(v, sr.args[0]) {
			c.violate(rule, "SetLifetime", set.Pos(), trailOf(o.st), "the lifetime set is not the one given: %v", v)
		}
	}
	for _, fn := range c.P.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(lt) {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					c.ob(rule, "written in "+fnName(fn))
					if !r.in[fn] && !sr.in[fn] {
						c.violate(rule, "written in "+fnName(fn), in.Pos(), nil, "%s changes the lifetime of tokens", fnName(fn))
					}
				}
			}
		}
	}
	// startup
	if m := c.runMain(rule); m != nil {
		n := 0
		for _, cl := range m.calls {
			if !strings.HasSuffix(cl.ev.name, "grpc.Server).Serve") {
				continue
			}
			n++
			c.ob(rule, "configured at startup")
			ev := cl.st.lastEvent(tokenPkg + ".SetLifetime")
			if ev == nil || callOf(ev.args[0], -1, "github.com/spf13/viper.GetDuration") == nil || !mentionsSetting(ev.args[0], "token.lifetime") {
				c.violate(rule, "configured at startup", cl.ev.pos, pathOf(cl.ev, cl.st), "requests are accepted without setting the configured token lifetime")
			}
		}
		if n == 0 {
			c.violate(rule, "serve unreachable", m.fn.Pos(), nil, "the server never accepts requests")
		}
	}
	c.P.callsTo(calleeIn(c.fullName(tokenPkg, "SetLifetime")), func(in *ssa.Function, call ssa.CallInstruction, name string) {
		c.ob(rule, "set in "+fnName(in))
		if in.Pkg != c.P.byPkg["cmd/netauthd"] {
			c.violate(rule, "set in "+fnName(in), call.Pos(), nil, "%s changes the lifetime of tokens", fnName(in))
		}
	})
	// use
	gen := "(" + tokenPkg + ".Service).Generate"
	used := map[*ssa.Function]bool{}
	n := 0
	for name, h := range c.runHandlers(rule, func(e *Engine) {
		e.boundary = func(n string) bool { return n == tokenPkg+".GetConfig" || strings.HasPrefix(n, mgrMethodPrefix) }
	}, c.callersOf(gen)...) {
		for _, cl := range h.calls {
			if cl.ev.name != gen {
				continue
			}
			n++
			used[cl.ev.in] = true
			c.ob(rule, "issued by "+name)
			if callOf(cl.ev.args[2], -1, tokenPkg+".GetConfig") == nil {
				c.violate(rule, "issued by "+name, cl.ev.pos, pathOf(cl.ev, cl.st), "a token is issued with another configuration than the server's: %v", cl.ev.args[2])
			}
		}
	}
	if n == 0 {
		c.violate(rule, "never issued", token.NoPos, nil, "no request issues tokens")
	}
	for _, fn := range c.P.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok && fn.Synthetic == "" && c.invokes(k, tokenPkg, "Service", "Generate") && !used[fn] {
					c.violate(rule, "issued in "+fnName(fn), in.Pos(), nil, "%s issues tokens outside the analysed requests", fnName(fn))
				}
			}
		}
	}
}

// invokes: the call is of the interface method.
func (c *Ctx) invokes(k ssa.CallInstruction, pkg, iface, name string) bool {
	cc := k.Common()
	if !cc.IsInvoke() || cc.Method.Name() != name {
		return false
	}
	n, ok := cc.Value.Type().(*types.Named)
	T := c.P.namedType(pkg, iface)
	return ok && T != nil && types.Identical(n, T)
}

// callersOf: the handlers from which the interface method can be called.
func (c *Ctx) callersOf(gen string) []string {
	var out []string
	for n, h := range c.handlers() {
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function) bool
		visit = func(f *ssa.Function) bool {
			if f == nil || seen[f] || f.Pkg != h.Pkg {
				return false
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					k, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if c.invokes(k, tokenPkg, "Service", "Generate") || visit(k.Common().StaticCallee()) {
						return true
					}
				}
			}
			for _, a := range f.AnonFuncs {
				if visit(a) {
					return true
				}
			}
			return false
		}
		if visit(h) {
			out = append(out, n)
		}
	}
	if out == nil {
		out = []string{"-"}
	}
	return out
}

func runC32(c *Ctx) {
	c.offSetting("token.jwt.generate", "key generation is enabled")
	r := c.keySetup("keys", true, true)
	if r == nil {
		return
	}
	c.keyStores("keys", "publicKey", r.in)
	c.keyStores("keys", "privateKey", r.in)
	const rule = "key files"
	enabled := func(st *State) bool {
		return st.holds(settingBool(kString("token.jwt.generate")), kTrue)
	}
	// what is known about a file: reading or examining it reported that it does not exist
	missing := func(st *State, path *Term) bool {
		return st.lits(func(t, v *Term, eq bool) bool {
			var er *Term
			if t.op == OpPure && t.s == "os.IsNotExist" && (eq && v == kTrue || !eq && v == kFalse) {
				er = t.args[0]
			} else if eq && (errName(v) == "ErrNotExist") {
				er = t
			}
			if er == nil {
				return false
			}
			er = strip(er)
			if er.op == OpExt {
				er = er.args[0]
			}
			if er.op != OpCall {
				return false
			}
			switch er.s {
			case "io/ioutil.ReadFile", "os.ReadFile", "os.Stat", "os.Lstat", "os.Open":
				return path == nil || same(er.args[0], path)
			}
			return false
		})
	}
	secret := func(t *Term) bool {
		return deep(t, func(x *Term) bool {
			if x.op == OpPure && (x.s == "crypto/x509.MarshalPKIXPublicKey" || x.s == "crypto/x509.MarshalPKCS1PublicKey") {
				return true
			}
			return (x.op == OpField || x.op == OpFVal) && x.s == "PublicKey" || x.op == OpExt && x.n == 1
		}, func(x *Term) bool {
			return x.s == "crypto/rsa.GenerateKey" || x.s == "crypto/x509.ParsePKCS1PrivateKey" || x.s == "crypto/x509.ParsePKCS8PrivateKey" || x.s == "crypto/x509.MarshalPKCS1PrivateKey" || x.s == "crypto/x509.MarshalPKCS8PrivateKey" || (x.op == OpField || x.op == OpFVal) && x.s == "privateKey"
		})
	}
	const (
		oWrite  = 1 | 2
		oExcl   = 0x80
		oAppend = 0x400
	)
	narrow := func(m *Term) bool {
		k, ok := m.intv()
		return ok && k&0077 == 0
	}
	// the file behind an opened handle
	opened := func(st *State, h *Term) *Event {
		for _, ev := range st.events {
			if (ev.name == "os.OpenFile" || ev.name == "os.Create" || strings.HasSuffix(ev.name, "TempFile") || ev.name == "os.CreateTemp") && ev.res != nil && same(h, ext(ev.res, 0)) {
				return ev
			}
		}
		return nil
	}
	var privPath, pubPath []*Term
	for _, cl := range r.calls {
		ev, st := cl.ev, cl.st
		bad := func(inst, f string, a ...any) {
			c.violate(rule, inst, ev.pos, pathOf(ev, st), f, a...)
		}
		where := "in " + fnName(ev.in)
		created := func(path *Term, excl bool) {
			c.ob(rule, "created "+where)
			if !enabled(st) {
				bad("created "+where, "a key file is written although generating keys is not known to be enabled")
			}
			if !excl && !missing(st, path) {
				bad("overwritten "+where, "an existing key file may be overwritten")
			}
		}
		switch ev.name {
		case "crypto/rsa.GenerateKey":
			c.ob(rule, "generated "+where)
			if !enabled(st) {
				bad("generated "+where, "keys are generated although this is not known to be enabled")
			}
			if !missing(st, nil) {
				bad("generated "+where, "keys are generated although they are not known to be missing")
			}
		case "io/ioutil.WriteFile", "os.WriteFile":
			created(ev.args[0], false)
			if secret(ev.args[1]) {
				c.ob(rule, "private key written "+where)
				privPath = append(privPath, ev.args[0])
				if !narrow(ev.args[2]) {
					bad("mode "+where, "a private key is written with permissions beyond its owner: %v", ev.args[2])
				}
			} else {
				pubPath = append(pubPath, ev.args[0])
			}
		case "os.Create":
			created(ev.args[0], false)
		case "os.OpenFile":
			fl, ok := ev.args[1].intv()
			if !ok {
				bad("flags "+where, "how a key file is opened cannot be determined")
			} else if fl&oWrite != 0 {
				created(ev.args[0], fl&oExcl != 0)
			}
		case "os.Rename", "os.Link", "os.Symlink":
			created(ev.args[1], ev.name != "os.Rename")
			for _, p := range privPath {
				if same(p, ev.args[0]) {
					privPath = append(privPath, ev.args[1])
				}
			}
		case "os.Remove", "os.RemoveAll", "os.Truncate":
			if !enabled(st) {
				bad("removed "+where, "a key file may be removed")
			}
		case "os.Chmod", "(*os.File).Chmod":
			c.ob(rule, "mode changed "+where)
			if !narrow(ev.args[1]) {
				p := ev.args[0]
				if o := opened(st, p); o != nil {
					p = o.args[0]
				}
				if !mentionsText(p, "token.pem") {
					bad("mode changed "+where, "permissions are widened beyond the owner: %v", ev.args[1])
				}
			}
		default:
			// something is done with an open file
			for i, a := range ev.args {
				if a.op == OpMkIface {
					a = a.args[0]
				}
				o := opened(st, a)
				if o == nil {
					continue
				}
				sec := false
				for j, d := range ev.args {
					sec = sec || j != i && secret(d)
				}
				if !sec && strings.Contains(ev.name, "Write") {
					pubPath = append(pubPath, o.args[0])
				}
				if !sec {
					continue
				}
				c.ob(rule, "private key written "+where)
				privPath = append(privPath, o.args[0])
				if o.name == "os.Create" || o.name == "os.OpenFile" && !narrow(o.args[2]) {
					bad("mode "+where, "a private key is written with permissions beyond its owner")
				}
			}
		}
	}
	if len(privPath) == 0 {
		c.violate(rule, "private key never written", r.fn.Pos(), nil, "no path writes a generated private key")
	}
	// the files loaded are the files written
	for _, p := range privPath {
		for _, q := range pubPath {
			if same(p, q) && !deep(p, nil, func(t *Term) bool { return t.op == OpCall && strings.Contains(t.s, "Temp") }) {
				c.violate(rule, "shared file", r.fn.Pos(), nil, "the private key is kept in the same file as public data: %v", p)
			}
		}
	}
	// success means that every step was
	checked := map[string]bool{
		"os.MkdirAll": true, "os.Mkdir": true, "crypto/rsa.GenerateKey": true, "io/ioutil.WriteFile": true, "os.WriteFile": true,
		"os.OpenFile": true, "os.Create": true, "(*os.File).Write": true, "(*os.File).WriteString": true, "(*os.File).Close": true, "(*os.File).Sync": true,
		"encoding/pem.Encode": true, "os.Rename": true, "os.Chmod": true, "(*os.File).Chmod": true, "os.CreateTemp": true, "io/ioutil.TempFile": true, "os.Link": true,
	}
	for _, o := range r.outs {
		if o.panic || o.st.nilness(o.res(1)) == 0 {
			continue
		}
		c.ob("steps", "success")
		gen := o.st.lastEvent("crypto/rsa.GenerateKey") != nil
		wpriv, wpub := false, false
		for _, ev := range o.st.events {
			if ev.kind != "call" || ev.res == nil || !checked[ev.name] {
				continue
			}
			if !gen && strings.HasPrefix(ev.name, "(*os.File)") {
				continue
			}
			if er := errOf(ev); isErrType(er) && !o.st.holds(er, kNil) {
				c.violate("steps", ev.name+" in "+fnName(ev.in), ev.pos, trailOf(o.st), "the token service is set up although %s may have failed", ev.name)
			}
			for _, a := range ev.args {
				if secret(a) {
					wpriv = true
				} else if deep(a, nil, func(t *Term) bool {
					return t.s == "crypto/x509.MarshalPKIXPublicKey" || t.s == "crypto/x509.MarshalPKCS1PublicKey"
				}) {
					wpub = true
				}
			}
		}
		if gen && !(wpriv && wpub) {
			c.violate("steps", "generated keys", r.fn.Pos(), trailOf(o.st), "generated keys are used without having been stored")
		}
	}
	// nobody else handles private keys
	c.P.callsTo(func(n string) bool {
		return n == "crypto/rsa.GenerateKey" || strings.HasPrefix(n, "crypto/x509.Marshal") && strings.HasSuffix(n, "PrivateKey")
	}, func(in *ssa.Function, call ssa.CallInstruction, name string) {
		c.ob("census", fnName(in))
		if !r.in[in] {
			c.violate("census", fnName(in), call.Pos(), nil, "%s handles private keys outside the analysed key handling", fnName(in))
		}
	})
}

// mentionsText: the text occurs in the value.
func mentionsText(t *Term, s string) bool {
	return deep(t, nil, func(x *Term) bool { v, ok := x.str(); return ok && v == s })
}
