package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sentinels maps the errors that tell the caller about the state of
// the records to the class a request reports them as.
var sentinels = map[string]string{
	"internal/db.ErrUnknownEntity":        "internal/rpc2.ErrDoesNotExist",
	"internal/db.ErrUnknownGroup":         "internal/rpc2.ErrDoesNotExist",
	"internal/tree.ErrNoSuchKey":          "internal/rpc2.ErrDoesNotExist",
	"internal/tree.ErrKeyExists":          "internal/rpc2.ErrExists",
	"internal/tree.ErrDuplicateEntityID":  "internal/rpc2.ErrExists",
	"internal/tree.ErrDuplicateGroupName": "internal/rpc2.ErrExists",
	"internal/tree.ErrDuplicateNumber":    "internal/rpc2.ErrExists",
}

// opErrors lists the errors an operation of the tree manager can
// return, with a path for each.
func (c *Ctx) opErrors(t *chainTable, rule string) map[string]map[string]*Term {
	res := map[string]map[string]*Term{}
	for n, r := range c.runOps(t, rule, c.managerOps(rule), nil) {
		m := map[string]*Term{}
		res[n] = m
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			er := o.res(r.fn.Signature.Results().Len() - 1)
			if !isErrType(er) {
				continue
			}
			switch {
			case er.isNil() || o.st.nilness(er) == 1:
			case er.op == OpGVal:
				m[er.s] = er
			default:
				x := strip(er)
				// the name came with the request
				if x.op == OpExt && strings.HasPrefix(x.args[0].s, tdb+"Load") && c.fromRequest(r, o.st, x.args[0].args[1]) {
					m["internal/db.ErrUnknown"+x.args[0].s[len(tdb+"Load"):]] = nil
				}
				m["?"] = nil
			}
		}
	}
	return res
}

// fromRequest: the value is part of the arguments of the operation.
func (c *Ctx) fromRequest(r *opRun, st *State, v *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		for i := range r.args {
			if i > 0 && t == strip(r.args[i]) {
				return true
			}
		}
		if x, ok := st.mem[t]; ok && w(strip(x)) {
			return true
		}
		if t.op == OpCall {
			return false // obtained from elsewhere
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(strip(v))
}

func isErrType(t *Term) bool {
	return t != nil && t.typ != nil && types.Identical(t.typ, types.Universe.Lookup("error").Type())
}

// handlerOps: the operations a request stands for.  A request succeeds
// if all of them do (any: exactly one of them is carried out).
type handlerOp struct {
	ops    []string
	any    bool
	list   string // carried out for every element of this part of the request
	coarse string // reports every failure in the same way, as this error
	aux    string // its failure, too, is a failure of the request
}

var handlerOps = map[string]handlerOp{
	"AuthEntity":         {ops: []string{"ValidateSecret"}, coarse: "ErrUnauthenticated"},
	"AuthGetToken":       {ops: []string{"ValidateSecret", tsv + "Generate"}, coarse: "*"},
	"AuthValidateToken":  {ops: []string{tsv + "Validate"}, coarse: "ErrUnauthenticated"},
	"AuthChangeSecret":   {ops: []string{"SetSecret"}, coarse: "ErrInternal"},
	"EntityCreate":       {ops: []string{"CreateEntity"}},
	"EntityUpdate":       {ops: []string{"UpdateEntityMeta"}},
	"EntityInfo":         {ops: []string{"FetchEntity"}},
	"EntitySearch":       {ops: []string{"SearchEntities"}},
	"EntityUM":           {ops: []string{"ManageUntypedEntityMeta"}},
	"EntityKVGet":        {ops: []string{"EntityKVGet"}},
	"EntityKVAdd":        {ops: []string{"EntityKVAdd"}},
	"EntityKVDel":        {ops: []string{"EntityKVDel"}},
	"EntityKVReplace":    {ops: []string{"EntityKVReplace"}},
	"EntityKeys":         {ops: []string{"UpdateEntityKeys"}},
	"EntityDestroy":      {ops: []string{"DestroyEntity"}},
	"EntityLock":         {ops: []string{"LockEntity"}},
	"EntityUnlock":       {ops: []string{"UnlockEntity"}},
	"EntityGroups":       {ops: []string{"FetchEntity"}},
	"GroupCreate":        {ops: []string{"CreateGroup"}},
	"GroupUpdate":        {ops: []string{"UpdateGroupMeta"}},
	"GroupInfo":          {ops: []string{"FetchGroup"}},
	"GroupUM":            {ops: []string{"ManageUntypedGroupMeta"}},
	"GroupKVGet":         {ops: []string{"GroupKVGet"}},
	"GroupKVAdd":         {ops: []string{"GroupKVAdd"}},
	"GroupKVDel":         {ops: []string{"GroupKVDel"}},
	"GroupKVReplace":     {ops: []string{"GroupKVReplace"}},
	"GroupUpdateRules":   {ops: []string{"ModifyGroupRule"}},
	"GroupAddMember":     {ops: []string{"AddEntityToGroup"}, list: "Entity.Meta.Groups", coarse: "ErrInternal"},
	"GroupDelMember":     {ops: []string{"RemoveEntityFromGroup"}, list: "Entity.Meta.Groups", coarse: "ErrInternal"},
	"GroupDestroy":       {ops: []string{"DestroyGroup"}},
	"GroupMembers":       {ops: []string{"ListMembers"}, aux: "FetchGroup"},
	"GroupSearch":        {ops: []string{"SearchGroups"}},
	"SystemCapabilities": {ops: []string{"SetEntityCapability2", "DropEntityCapability2", "SetGroupCapability2", "DropGroupCapability2"}, any: true, coarse: "ErrInternal"},
	"SystemPing":         {},
	"SystemStatus":       {},
}

func errOf(ev *Event) *Term {
	if tu, ok := ev.res.typ.(*types.Tuple); ok {
		return ext(ev.res, tu.Len()-1)
	}
	return ev.res
}

// mayBe: the error may be the named sentinel on this path.
func mayBe(st *State, er *Term, name string) bool {
	f := st.facts[er]
	if f.eq != nil {
		return errName(f.eq) == name
	}
	for _, x := range f.neq {
		if errName(x) == name {
			return false
		}
	}
	return true
}

func runC23(c *Ctx) {
	t := c.chainsOf()
	errs := c.opErrors(t, "errors")
	res := c.runHandlers("status", nil)
	for n, r := range res {
		h, ok := handlerOps[n]
		if !ok {
			// a request added later
			for _, k := range r.calls {
				if m := mgrMethod(k.ev); m != "" && !mgrReaders[m] {
					c.violate("success", n+" unclassified", r.fn.Pos(), nil, "no operation is designated for the request %s", n)
					break
				}
			}
			continue
		}
		full := func(op string) string {
			if strings.HasPrefix(op, "(") {
				return op
			}
			return mgr + op
		}
		// calls of op on the path; current excludes earlier iterations
		callsOf := func(st *State, op string) (cur, old []*Event) {
			for _, ev := range st.eventsNamed(full(op)) {
				if len(ev.vols()) > 0 {
					old = append(old, ev)
				} else {
					cur = append(cur, ev)
				}
			}
			return
		}
		bad := func(rule, what string, st *State, f string, a ...any) {
			c.violate(rule, n+" "+what, r.fn.Pos(), trailOf(st), f, a...)
		}
		succeeds := false
		reported := map[string]bool{}
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			er := o.res(1)
			if er == nil || errName(er) == "?" {
				c.ob("class", n)
				bad("class", "error", o.st, "%s returns an error that is not one of those defined for requests (%v)", n, er)
				continue
			}
			if er.isNil() {
				succeeds = true
				c.ob("success", n)
				did := 0
				for _, op := range h.ops {
					cur, old := callsOf(o.st, op)
					if len(cur)+len(old) > 0 {
						did++
					}
					if h.list != "" {
						continue
					}
					if len(old) > 0 {
						bad("success", op+" repeated", o.st, "%s is carried out repeatedly and only its last result is examined", op)
					}
					for _, ev := range cur {
						if o.st.nilness(errOf(ev)) != 1 {
							bad("success", op, o.st, "%s reports success although %s is not known to have succeeded", n, op)
						}
						if tu, ok := ev.res.typ.(*types.Tuple); ok && tu.Len() == 2 && !strings.HasSuffix(op, "Validate") && n != "EntityGroups" {
							c.ob("data", n)
							found := false
							for _, x := range r.e.reach(o.st, o.res(0)) {
								found = found || same(x, ext(ev.res, 0))
							}
							if !found {
								bad("data", op, o.st, "the response of %s does not contain what %s returned", n, op)
							}
						}
					}
				}
				if h.aux != "" {
					cur, _ := callsOf(o.st, h.aux)
					for _, ev := range cur {
						if o.st.nilness(errOf(ev)) != 1 {
							bad("success", h.aux, o.st, "%s reports success although %s is not known to have succeeded", n, h.aux)
						}
					}
				}
				switch {
				case h.list != "":
					done := false
					for k := range o.st.listsOf(r.r, h.list) {
						done = done || o.st.exhausted(k)
					}
					if !done {
						bad("success", "incomplete", o.st, "%s reports success before every element of %s was processed", n, h.list)
					}
				case h.any && did != 1:
					bad("success", "no operation", o.st, "%s reports success after %d of its operations, not exactly one", n, did)
				case !h.any && did != len(h.ops):
					bad("success", "no operation", o.st, "%s reports success without carrying out %s", n, strings.Join(h.ops, ", "))
				}
				continue
			}
			// an error is reported
			c.ob("failure", n)
			ok, ran := true, 0
			var failed []*Event
			for _, op := range append(append([]string{}, h.ops...), h.aux) {
				if op == "" {
					continue
				}
				cur, _ := callsOf(o.st, op)
				for _, ev := range cur {
					ran++
					if o.st.nilness(errOf(ev)) != 1 {
						ok = false
						failed = append(failed, ev)
					}
				}
			}
			want := len(h.ops)
			if h.any {
				want = 1
			}
			if h.aux != "" {
				if cur, _ := callsOf(o.st, h.aux); len(cur) > 0 {
					want++
				}
			}
			if ok && want > 0 && ran >= want && h.list == "" {
				bad("failure", errName(er), o.st, "%s reports %s although its operation succeeded", n, errName(er))
			}
			// the class of the error
			cls := errName(er)
			if cls == "internal/rpc2.ErrDoesNotExist" || cls == "internal/rpc2.ErrExists" {
				c.ob("class", n)
				found := false
				for _, ev := range failed {
					f := o.st.facts[errOf(ev)]
					found = found || f.eq != nil && sentinels[errName(f.eq)] == cls
				}
				if !found {
					bad("class", cls, o.st, "%s reports %s although the operation is not known to have failed for that reason", n, cls)
				}
			}
			for _, ev := range failed {
				op := mgrMethod(ev)
				for s, want := range sentinels {
					if _, can := errs[op][s]; !can || !mayBe(o.st, errOf(ev), s) {
						continue
					}
					if strings.HasSuffix(op, "KVReplace") && strings.HasSuffix(s, ".ErrKeyExists") {
						continue // the key was just removed (C24)
					}
					if strings.HasPrefix(op, "Create") && strings.HasPrefix(s, "internal/db.") {
						continue // that the name is unknown is the premise of a creation (C12)
					}
					if h.coarse != "" && (h.coarse == "*" || "internal/rpc2."+h.coarse == cls) {
						continue
					}
					c.ob("class", n+" "+s)
					reported[s] = true
					if cls != want {
						bad("class", s, o.st, "%s reports %s when %s fails with %s (expected %s)", n, cls, op, s, want)
					}
				}
			}
		}
		if len(h.ops) > 0 && !succeeds {
			bad("success", "never", nil, "%s never succeeds", n)
		}
		if h.list != "" {
			// every iteration that continues carried out the operation
			seen := 0
			for _, it := range r.its {
				if it.base == nil || !isPath(it.base, r.r, h.list) {
					continue
				}
				seen++
				c.ob("iteration", n)
				okIt := false
				for _, op := range h.ops {
					for _, ev := range it.st.eventsNamed(full(op)) {
						uses := false
						for _, a := range ev.args {
							uses = uses || a == it.elem
						}
						if uses && it.st.nilness(errOf(ev)) == 1 {
							okIt = true
						}
					}
				}
				if !okIt {
					bad("iteration", h.list, it.st, "%s goes on to the next element of %s although the operation is not known to have succeeded for the current one", n, h.list)
				}
			}
			if seen == 0 {
				c.violate("iteration", n, r.fn.Pos(), nil, "%s does not process the elements of %s", n, h.list)
			}
		}
	}
	c.need("success", 35)
	c.need("failure", 30)
	c.need("class", 40)
	c.need("data", 10)
	c.need("iteration", 2)
	c.errorCodes()
}

// errorCodes: the errors defined for requests carry the status codes of
// their meaning.
func (c *Ctx) errorCodes() {
	want := map[string]string{"ErrRequestorUnqualified": "PermissionDenied", "ErrMalformedRequest": "InvalidArgument", "ErrInternal": "Internal", "ErrUnauthenticated": "Unauthenticated", "ErrReadOnly": "Unimplemented", "ErrExists": "AlreadyExists", "ErrDoesNotExist": "NotFound"}
	sp := c.P.byPkg[rpcPkg]
	if sp == nil {
		c.unresolved("codes", "package internal/rpc2")
		return
	}
	got := map[string]bool{}
	for _, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || want[g.Name()] == "" {
					continue
				}
				got[g.Name()] = true
				c.ob("codes", g.Name())
				v := st.Val
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				call, ok := v.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !strings.HasPrefix(call.Call.StaticCallee().String(), "google.golang.org/grpc/status.") {
					c.violate("codes", g.Name(), g.Pos(), nil, "%s is not a status error", g.Name())
					continue
				}
				k, ok := call.Call.Args[0].(*ssa.Const)
				w := c.P.constOf("google.golang.org/grpc/codes", want[g.Name()])
				if !ok || w == nil || kConst(k.Value, k.Type()) != w {
					c.violate("codes", g.Name(), g.Pos(), nil, "%s does not carry the status code %s", g.Name(), want[g.Name()])
				}
			}
		}
	}
	for n := range want {
		if !got[n] {
			c.unresolved("codes", n)
		}
	}
	c.need("codes", 7)
}

// listsOf: the lists at the path of the request that were examined.
func (s *State) listsOf(root *Term, path string) map[*Term]bool {
	m := map[*Term]bool{}
	s.lits(func(t, _ *Term, _ bool) bool {
		if t.op == OpBin && t.s == "<" && t.args[1].op == OpPure && t.args[1].s == "len" && isPath(t.args[1].args[0], root, path) {
			m[t.args[1].args[0]] = true
		}
		if t.op == OpPure && t.s == "len" && isPath(t.args[0], root, path) {
			m[t.args[0]] = true
		}
		return false
	})
	return m
}

func init() {
	register(&Check{
		id:        "C23",
		technique: "path-sensitive interprocedural dataflow over SSA: error provenance of responses",
		rule:      "For every request the operations it stands for are designated. On every path of its handler: success is returned only if these operations were carried out and their errors found nil (for lists, in every iteration, and all elements were visited), and the response contains what they returned; an error is not returned after they succeeded. The errors an operation can return are computed from its processing chain; for every path on which the error may be the one for an unknown record or key, or a duplicate, the handler returns the not-existing or already-existing status, and it returns these only when the error was found to be such a one. Request errors carry the status codes of their names.",
		run:       runC23,
	})
}
