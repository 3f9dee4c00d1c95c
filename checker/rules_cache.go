package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:        "C33",
		technique: "path-sensitive value-flow and typestate analysis over SSA of every token cache implementation and of what puts tokens into one",
		rule:      "A token is stored at a place computed from its owner by a function that never maps two owners to the same place, the same for storing, returning and removing; on disk it goes into a newly created file that only its owner can read; success is reported only if it was stored. What is returned as a token is what was read there without error, and a missing token is reported as such. Removal is reported only if the token is gone. A token is cached only under the name of the entity it was issued to.",
		run:       runC33,
	})
}

const cachePkg = "pkg/netauth/cache"

// injective: encodings that map different strings to different strings
// without path separators.
var injective = []string{
	"net/url.PathEscape", "net/url.QueryEscape", "encoding/hex.EncodeToString",
}

// placeOf: what t is computed from in an injective way, besides constants
// and parts of the receiver; nil if the place is not determined by it alone.
func placeFor(t, owner, recv *Term) string {
	t = strip(t)
	if same(t, owner) {
		return ""
	}
	n := 0
	var visit func(t *Term) string
	visit = func(t *Term) string {
		t = strip(t)
		if same(t, owner) {
			return "the name of the owner is used as a path as it is"
		}
		if root, _ := accessPath(t); root != nil && same(root, recv) || t.isConst() {
			return ""
		}
		for _, f := range injective {
			if k := callOf(t, -1, f); k != nil && same(k.args[len(k.args)-1], owner) {
				n++
				return ""
			}
		}
		switch {
		case t.op == OpPure && (t.s == "concat" || t.s == "tuple"), callOf(t, -1, "path/filepath.Join", "path.Join") != nil, t.op == OpTuple:
			for _, a := range t.args {
				if w := visit(a); w != "" {
					return w
				}
			}
			return ""
		}
		if t.op == OpGlobal || t.op == OpDeref && t.args[0].op == OpGlobal {
			return ""
		}
		return "it depends on " + t.String()
	}
	if w := visit(t); w != "" {
		return w
	}
	if n == 0 {
		return "it does not depend on the owner"
	}
	return ""
}

func runC33(c *Ctx) {
	bs := c.implementers("cache", cachePkg, "TokenCache")
	n := 0
	for _, b := range bs {
		put := b.m["PutToken"]
		if put == nil || put.Blocks == nil || !strings.HasPrefix(b.name, cachePkg) {
			continue // the client and mocks only embed a cache
		}
		n++
		c.cacheBackend(b)
	}
	c.tokenOwners()
	c.need("cache", 6)
	c.need("owner", 1)
}

func (c *Ctx) cacheBackend(b *backend) {
	const rule = "cache"
	base := entryArgs(b.m["PutToken"])
	recv, owner, token := base[0], base[1], base[2]
	places := map[string]*Term{}
	for _, op := range []string{"PutToken", "GetToken", "DelToken"} {
		f := b.m[op]
		if f == nil {
			c.unresolved(rule, b.name+"."+op)
			return
		}
		name := fnName(f)
		c.ob(rule, name)
		args := []*Term{recv, owner}
		if op == "PutToken" {
			args = append(args, token)
		}
		r := c.runStoreArgs(rule, f, args, func(e *Engine) {
			for _, n := range injective {
				n := n
				e.models[n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
					return one(st, mk(Term{op: OpPure, s: n, args: args, typ: types.Typ[types.String]}))
				}
			}
		})
		if r.e.failed != "" {
			continue
		}
		place := func(st *State, ev *Event, loc *Term) bool {
			if w := placeFor(loc, owner, recv); w != "" {
				c.violate(rule, name, ev.pos, pathOf(ev, st), "two owners may share the place a token is kept at, %v: %s", loc, w)
				return false
			}
			places[op] = loc
			return true
		}
		goods := 0
		for _, o := range r.outs {
			st := o.st
			if o.panic {
				c.violate(rule, name, f.Pos(), trailOf(st), "it may panic")
				return
			}
			var wrote, removed, readEv *Event
			gone := false
			for _, ev := range st.events {
				bad := func(format string, a ...any) {
					c.violate(rule, name, ev.pos, pathOf(ev, st), format, a...)
				}
				kind, loc, data := storeOp(ev)
				switch {
				case ev.kind == "call" && ev.name == "os.OpenFile":
					fl, ok1 := ev.args[1].intv()
					pm, ok2 := ev.args[2].intv()
					if !place(st, ev, ev.args[0]) {
						return
					}
					if op == "GetToken" && ok1 && fl&int64(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) == 0 {
						continue
					}
					if !ok1 || fl&int64(os.O_EXCL) == 0 || fl&int64(os.O_CREATE) == 0 {
						bad("the token goes into a file that may exist and be readable by others")
						return
					}
					if !ok2 || pm&0077 != 0 {
						bad("the file the token goes into can be read by others")
						return
					}
				case ev.kind == "call" && (ev.name == "(*os.File).Write" || ev.name == "(*os.File).WriteString"):
					k := callOf(ev.args[0], 0, "os.OpenFile")
					if k == nil || op != "PutToken" || !same(plain(ev.args[1]), token) {
						bad("something other than the token is written: %v", ev.args[1])
						return
					}
					wrote = ev
				case kind == "write":
					if op != "PutToken" {
						bad("%s changes a token", op)
						return
					}
					if !place(st, ev, loc) {
						return
					}
					if !same(plain(data), token) {
						bad("something other than the token is stored: %v", data)
						return
					}
					if ev.kind == "call" {
						if m, ok := ev.args[2].intv(); !ok || m&0077 != 0 {
							bad("the file the token goes into can be read by others")
							return
						}
					}
					wrote = ev
				case kind == "read":
					if !place(st, ev, loc) {
						return
					}
					readEv = ev
				case kind == "remove":
					if op == "GetToken" {
						bad("GetToken removes a token")
						return
					}
					if !place(st, ev, loc) {
						return
					}
					removed = ev
					if ev.kind == "mapdel" || st.holds(errOf(ev), kNil) || c.saysMissing(st, errOf(ev)) {
						gone = true
					}
				case ev.kind == "call" && ev.fn != nil && filePrim(ev.name):
					bad("%s is not known to keep a token private", ev.name)
					return
				}
			}
			err := o.res(len(o.ret.args) - 1)
			if op != "GetToken" {
				err = o.res(0)
			}
			fails := st.nilness(err) == 0 || isErrGlobal(err)
			switch op {
			case "PutToken":
				if fails {
					continue
				}
				goods++
				if wrote == nil || wrote.kind == "call" && st.nilness(errOf(wrote)) == 0 || wrote.kind == "call" && st.nilness(errOf(wrote)) < 0 && !same(errOf(wrote), err) {
					c.violate(rule, name, f.Pos(), trailOf(st), "storing a token is reported as done though it may not be")
					return
				}
				if removed != nil && indexOf(st.events, removed) > indexOf(st.events, wrote) {
					c.violate(rule, name, removed.pos, pathOf(removed, st), "the token stored is removed again")
					return
				}
			case "DelToken":
				if fails {
					continue
				}
				goods++
				if !gone && !(removed != nil && same(errOf(removed), err)) {
					c.violate(rule, name, f.Pos(), trailOf(st), "removing a token is reported as done though it may still be there")
					return
				}
			case "GetToken":
				val := o.res(0)
				missing := readEv != nil && c.saysMissing(st, errOf(readEv))
				has := -1
				var m *Term
				st.lits(func(t, v *Term, eq bool) bool {
					if t.op == OpPure && t.s == "has" && same(t.args[1], owner) && (v == kTrue || v == kFalse) {
						m, has = t.args[0], 0
						if eq == (v == kTrue) {
							has = 1
						}
						return true
					}
					return false
				})
				missing = missing || has == 0
				if missing {
					if !strings.Contains(err.String(), "ErrNoCachedToken") {
						c.violate(rule, name, f.Pos(), trailOf(st), "a missing token is reported as %v", err)
						return
					}
				}
				if fails {
					if s, ok := val.str(); !ok || s != "" {
						c.violate(rule, name, f.Pos(), trailOf(st), "a token is returned along with an error")
						return
					}
					continue
				}
				goods++
				fromFile := readEv != nil && st.holds(errOf(readEv), kNil) && readEv.res != nil && same(plain(val), ext(readEv.res, 0))
				v := strip(val)
				fromMap := has == 1 && v.op == OpDeref && v.args[0].op == OpMapElem && same(v.args[0].args[0], m) && same(v.args[0].args[1], owner)
				if fromMap {
					places[op] = owner
				}
				if !fromFile && !fromMap {
					c.violate(rule, name, f.Pos(), trailOf(st), "what is returned as the token, %v, is not what was found for its owner", val)
					return
				}
			}
		}
		if goods == 0 {
			c.violate(rule, name, f.Pos(), nil, "it never succeeds")
		}
	}
	for _, op := range []string{"GetToken", "DelToken"} {
		if places["PutToken"] == nil || places[op] == nil || !same(places[op], places["PutToken"]) {
			c.violate(rule, fnName(b.m[op]), b.m[op].Pos(), nil, "%s uses %v, tokens are kept at %v", op, places[op], places["PutToken"])
		}
	}
}

func indexOf(evs []*Event, ev *Event) int {
	for i, x := range evs {
		if x == ev {
			return i
		}
	}
	return -1
}

// saysMissing: the error is known to say that a file does not exist.
func (c *Ctx) saysMissing(st *State, err *Term) bool {
	return st.truth(func(t *Term) bool {
		return t.op == OpPure && t.s == "os.IsNotExist" && same(t.args[0], err) || t.op == OpPure && t.s == "errors.Is" && same(t.args[0], err) && strings.Contains(t.args[1].String(), "ErrNotExist")
	}) == 1
}

// plain: a value without conversions.
func plain(t *Term) *Term {
	for t.op == OpConv || t.op == OpMkIface || t.op == OpSome {
		t = t.args[0]
	}
	return t
}

// sameSetting: the same value, or the same setting read twice.
func sameSetting(a, b *Term) bool {
	if same(a, b) {
		return true
	}
	const get = "github.com/spf13/viper.GetString"
	x, y := callOf(a, -1, get), callOf(b, -1, get)
	return x != nil && y != nil && constStr(x.args[0]) != "" && constStr(x.args[0]) == constStr(y.args[0])
}

// isErrGlobal: one of the named errors of the program.
func isErrGlobal(t *Term) bool {
	return t.op == OpGVal || t.op == OpDeref && t.args[0].op == OpGlobal
}

// tokenOwners: tokens are cached under the name they were requested for.
func (c *Ctx) tokenOwners() {
	const rule = "owner"
	get := "(*pkg/netauth.Client).AuthGetToken"
	it := c.P.namedType(cachePkg, "TokenCache")
	if it == nil {
		return
	}
	var roots []*ssa.Function
	for _, f := range c.P.fns {
		if f.Pkg == nil || !c.prod()[f.Pkg.Pkg] || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				k, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				m := k.Common().Method
				if g := k.Common().StaticCallee(); m == nil && g != nil {
					m, _ = g.Object().(*types.Func)
				}
				if m != nil && m.Name() == "PutToken" && m.Type().(*types.Signature).Params().Len() == 2 {
					roots = append(roots, f)
				}
			}
		}
	}
	for _, f := range roots {
		name := fnName(f)
		c.ob(rule, name)
		r := c.runStore(rule, f, func(e *Engine) {
			e.boundary = func(n string) bool { return n == get }
		})
		for _, o := range r.outs {
			for _, ev := range o.st.events {
				if !strings.HasSuffix(ev.name, ".PutToken") {
					continue
				}
				k := callOf(ev.args[len(ev.args)-1], 0, get)
				if k == nil || !sameSetting(k.args[2], ev.args[len(ev.args)-2]) {
					c.violate(rule, name, ev.pos, pathOf(ev, o.st), "the token cached for %v was not issued to it", ev.args[len(ev.args)-2])
					return
				}
				if o.st.nilness(ext(k, 1)) != 1 {
					c.violate(rule, name, ev.pos, pathOf(ev, o.st), "a token is cached though none may have been issued")
					return
				}
			}
		}
	}
}
