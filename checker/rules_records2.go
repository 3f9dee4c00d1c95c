package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mentions: a is a subterm of t (up to loop iterations).
func mentions(t, a *Term) bool {
	t, a = strip(t), strip(a)
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == a {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, x := range t.args {
			if f(x) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// modeIs: the (upper-cased) mode parameter was found equal to name.
func modeIs(st *State, p *Term, name string) bool {
	return st.pairs(false, func(a, b *Term, eq bool) bool {
		if !eq || constStr(b) != name {
			return false
		}
		a = strip(a)
		return a == strip(p) || a.op == OpPure && a.s == "strings.ToUpper" && a.args[0] == strip(p)
	})
}

func splitElem(t *Term) *Term {
	t = strip(t)
	switch {
	case t.op == OpDeref && t.args[0].op == OpElem:
		if i, ok := t.args[0].args[1].intv(); !ok || i != 0 {
			return nil
		}
		b := t.args[0].args[0]
		if b.op == OpPure && strings.HasPrefix(b.s, "strings.Split") && constStr(b.args[1]) == ":" {
			return b.args[0]
		}
	case t.op == OpExt && t.n == 0 && (t.args[0].op == OpPure || t.args[0].op == OpCall) && t.args[0].s == "strings.Cut" && constStr(t.args[0].args[1]) == ":":
		return t.args[0].args[0]
	case t.op == OpSlice && t.args[1].isNil() && colonIndex(t.args[2], t.args[0]):
		return strip(t.args[0])
	}
	return nil
}

// colonIndex: i is where the first colon of s is.
func colonIndex(i, s *Term) bool {
	i = strip(i)
	if i.op != OpPure && i.op != OpCall || len(i.args) != 2 || strip(i.args[0]) != strip(s) {
		return false
	}
	switch i.s {
	case "strings.Index", "strings.IndexAny":
		return constStr(i.args[1]) == ":"
	case "strings.IndexByte", "strings.IndexRune":
		n, ok := strip(i.args[1]).intv()
		return ok && n == ':'
	}
	return false
}

// noColon: s was found to contain no colon.
func (st *State) noColon(s *Term) bool {
	return st.lits(func(t, v *Term, eq bool) bool {
		switch {
		case t.op == OpBin && t.s == "<" && colonIndex(t.args[0], s) && t.args[1] == kInt(0):
			return eq == (v == kTrue)
		case t.op == OpBin && t.s == "<" && colonIndex(t.args[1], s):
			n, ok := t.args[0].intv()
			return ok && n == -1 && eq == (v == kFalse)
		case colonIndex(t, s):
			n, ok := v.intv()
			return ok && n == -1 && eq
		case (t.op == OpPure || t.op == OpCall) && t.s == "strings.Contains" && strip(t.args[0]) == strip(s) && constStr(t.args[1]) == ":":
			return eq == (v == kFalse)
		}
		return false
	})
}

func replaceAll(t *Term) *Term {
	t = strip(t)
	if t.op == OpPure && strings.HasSuffix(t.s, ".ReplaceAllString") && constStr(t.args[len(t.args)-1]) == "" && t.args[len(t.args)-1].op == OpConst && isIndexPattern(t.args[0]) {
		return t.args[1]
	}
	return nil
}

// isIndexPattern: a regular expression compiled once from a constant that
// matches exactly a braced number.
func isIndexPattern(t *Term) bool {
	pat := ""
	switch {
	case t.op == OpPure && strings.HasPrefix(t.s, "regexp.MustCompile") && len(t.args) == 1:
		pat = constStr(t.args[0])
	case t.op == OpGVal:
		g, ok := t.fn.(*ssa.Global)
		if !ok {
			return false
		}
		n := 0
		for _, m := range g.Pkg.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || st.Addr != g {
						continue
					}
					n++
					if call, ok := st.Val.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().String() == "regexp.MustCompile" {
						if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
							pat = constant.StringVal(k.Value)
						}
					}
				}
			}
		}
		if n != 1 {
			return false
		}
	}
	canon := func(p string) string {
		r, err := syntax.Parse(p, syntax.Perl)
		if err != nil {
			return "?" + p
		}
		return r.Simplify().String()
	}
	for _, p := range []string{`\{\d+\}`, `\{\d+\}$`} {
		if pat != "" && canon(pat) == canon(p) {
			return true
		}
	}
	return false
}

func umEdits(op, kind string) []edit {
	f := "Meta.UntypedMeta"
	if kind == "group" {
		f = "UntypedMeta"
	}
	key := []func(t *Term, r *opRun) bool{func(t *Term, r *opRun) bool { return t == strip(r.p(3)) }}
	fuzzy := []func(t *Term, r *opRun) bool{func(t *Term, r *opRun) bool { return replaceAll(t) == strip(r.p(3)) && replaceAll(t) != nil }}
	put := func(t *Term, r *opRun) bool { return concatOf(t, r.p(3), kString(":"), r.p(4)) }
	when := func(m string) func(s *save, r *opRun) bool {
		return func(s *save, r *opRun) bool { return modeIs(s.st, r.p(2), m) }
	}
	return []edit{
		{op: op, kind: kind, inst: "UPSERT", field: f, match: key, keyElem: splitElem, sep: true, add: put, mode: "put", when: when("UPSERT")},
		{op: op, kind: kind, inst: "CLEAREXACT", field: f, match: key, keyElem: splitElem, sep: true, mode: "remove", when: when("CLEAREXACT")},
		{op: op, kind: kind, inst: "CLEARFUZZY", sep: true, field: f, match: fuzzy, keyElem: func(t *Term) *Term {
			if x := replaceAll(t); x != nil {
				return splitElem(x)
			}
			return nil
		}, mode: "remove", when: when("CLEARFUZZY")},
	}
}

func memberEdit(op, mode string) edit {
	is := func(t *Term, r *opRun) bool { return t == strip(r.p(2)) }
	e := edit{op: op, kind: "entity", field: "Meta.Groups", match: []func(t *Term, r *opRun) bool{is}, keyElem: plainElem, mode: mode}
	if mode == "add" {
		e.add = is
	}
	return e
}

func (c *Ctx) ruleAction(name string) *Term {
	return c.P.constOf(protoPath+"/v2", "RuleAction_"+name)
}

func init() {
	register(&Check{
		id:        "C41",
		technique: "interprocedural dataflow over SSA: record diff at saves and list-element transfer through loops",
		rule:      "At every save reached from an untyped-metadata operation (entity and group; chains expanded): only the untyped metadata differs from the record loaded under the requested name; the mode is one of the three modes that change data; every element of the saved list is an element of the stored list, or, for writes, the requested key and value, which is then always present; an element is dropped only where its key (for fuzzy clears, both keys with the index suffix removed) was found equal to the requested key, and kept only where it was found different. No other mode saves anything, and reads return stored elements only. The requests are wired to the operation of their own name with their own arguments.",
		run: func(c *Ctx) {
			const rule = "um-edit"
			t := c.chainsOf()
			c.runEdits(t, rule, append(umEdits("ManageUntypedEntityMeta", "entity"), umEdits("ManageUntypedGroupMeta", "group")...))
			for n, r := range c.runOps(t, rule, []string{"ManageUntypedEntityMeta", "ManageUntypedGroupMeta"}, nil) {
				for _, s := range r.saves {
					c.ob("um-mode", n)
					ok := false
					for _, m := range []string{"UPSERT", "CLEAREXACT", "CLEARFUZZY"} {
						ok = ok || modeIs(s.st, r.p(2), m)
					}
					if !ok {
						c.violate("um-mode", n, s.ev.pos, pathOf(s.ev, s.st), "a record is saved in a mode that is not one of those that change data")
					}
				}
				c.reads("um-read", r, "UntypedMeta", []string{"UPSERT", "CLEAREXACT", "CLEARFUZZY"})
			}
			c.need(rule, 6)
			c.need("um-mode", 2)
			c.need("um-read", 2)
			c.wired("um-wired", "EntityUM", "GroupUM")
		},
	})
	register(&Check{
		id:        "C42",
		technique: "interprocedural dataflow over SSA: record diff at saves and list-element transfer through loops",
		rule:      "At every save reached from a membership, key or rule operation: only the list concerned differs from the record loaded under the requested name; every element of the saved list is an element of the stored list or the requested item; additions drop only elements equal to the requested item and leave it in the list; removals drop an element only where it was found equal to the requested item (for keys: to contain it) and keep it only where it was found different; success is reported only after the save. The requests are wired to the operation of their own name with their own arguments.",
		run: func(c *Ctx) {
			const rule = "list-edit"
			t := c.chainsOf()
			eds := []edit{memberEdit("AddEntityToGroup", "add"), memberEdit("RemoveEntityFromGroup", "remove")}
			key := func(t *Term, r *opRun) bool {
				return concatOf(t, mk(Term{op: OpPure, s: "strings.ToUpper", args: []*Term{r.p(3)}, typ: types.Typ[types.String]}), kString(":"), r.p(4))
			}
			eds = append(eds, edit{op: "UpdateEntityKeys", inst: "ADD", kind: "entity", field: "Meta.Keys", match: []func(t *Term, r *opRun) bool{key}, keyElem: plainElem, add: key, mode: "add",
				when: func(s *save, r *opRun) bool { return modeIs(s.st, r.p(2), "ADD") }})
			for _, m := range []string{"DEL", "DROP"} {
				m := m
				eds = append(eds, edit{op: "UpdateEntityKeys", inst: m, kind: "entity", field: "Meta.Keys",
					match: []func(t *Term, r *opRun) bool{func(t *Term, r *opRun) bool { return t == kTrue || key(t, r) }},
					keyElem: func(t *Term) *Term {
						t = strip(t)
						if t.op == OpPure && t.s == "strings.Contains" {
							return t.args[0]
						}
						return t
					}, mode: "subset", when: func(s *save, r *opRun) bool { return modeIs(s.st, r.p(2), m) }})
			}
			for _, a := range []string{"INCLUDE", "EXCLUDE", "REMOVE_RULE"} {
				a := a
				k := c.ruleAction(a)
				if k == nil {
					c.unresolved(rule, "RuleAction_"+a)
					continue
				}
				when := func(s *save, r *opRun) bool { return s.st.holds(r.p(3), k) }
				item := func(m string) func(t *Term, r *opRun) bool {
					return func(t *Term, r *opRun) bool { return concatOf(t, kString(m+":"), r.p(2)) }
				}
				e := edit{op: "ModifyGroupRule", inst: a, kind: "group", field: "Expansions", keyElem: plainElem, when: when, mode: "add"}
				if a == "REMOVE_RULE" {
					e.mode = "remove"
					e.match = []func(t *Term, r *opRun) bool{item("INCLUDE"), item("EXCLUDE")}
				} else {
					e.match = []func(t *Term, r *opRun) bool{item(a)}
					e.add = item(a)
				}
				eds = append(eds, e)
			}
			c.runEdits(t, rule, eds)
			for n, r := range c.runOps(t, rule, []string{"AddEntityToGroup", "RemoveEntityFromGroup", "ModifyGroupRule"}, nil) {
				c.saved("list-saved", n, r, false)
			}
			for _, r := range c.runOps(t, rule, []string{"UpdateEntityKeys"}, nil) {
				c.reads("list-read", r, "Keys", []string{"ADD", "DEL", "DROP"})
				for _, s := range r.saves {
					if !modeIs(s.st, r.p(2), "ADD") && !modeIs(s.st, r.p(2), "DEL") && !modeIs(s.st, r.p(2), "DROP") {
						c.violate("list-read", r.name+" saves", s.ev.pos, pathOf(s.ev, s.st), "listing keys saves a record")
					}
				}
			}
			c.need(rule, 8)
			c.need("list-saved", 3)
			c.wired("list-wired", "GroupAddMember", "GroupDelMember", "GroupUpdateRules", "EntityKeys")
		},
	})
	register(&Check{
		id:        "C25",
		technique: "interprocedural dataflow over SSA: record diff at saves, list-element transfer through loops, and path-sensitive request wiring",
		rule:      "At every save reached from a capability operation: only the capability list differs from the record loaded under the requested name; granting keeps every stored capability and leaves the requested one in the list; revoking drops exactly the capabilities found equal to the requested one. In the capability request, a grant operation is called only where the action was found to be add, a revocation only where it was found to be drop, the entity operations only for direct targets and the group operations only for others, each with the request's target and capability; success is reported only after such a call returned no error; named capabilities are looked up in the generated table and refused if absent.",
		run: func(c *Ctx) {
			const rule = "cap-edit"
			t := c.chainsOf()
			var eds []edit
			deref := func(t *Term, r *opRun) bool {
				t = strip(t)
				if t.op == OpDeref && t.args[0] == strip(r.p(2)) {
					return true
				}
				return t.op == OpDeref && mentions(t, r.p(2)) && strings.Contains(t.String(), "Capability_value") || t.op == OpExt && t.n == 0 && mentions(t, r.p(2)) && strings.Contains(t.String(), "Capability_value")
			}
			for _, k := range []string{"Entity", "Group"} {
				f := "Capabilities"
				kind := "group"
				if k == "Entity" {
					f, kind = "Meta.Capabilities", "entity"
				}
				for _, v := range []string{"", "2"} {
					eds = append(eds,
						edit{op: "Set" + k + "Capability" + v, kind: kind, field: f, match: []func(t *Term, r *opRun) bool{deref}, keyElem: plainElem, add: deref, mode: "add"},
						edit{op: "Drop" + k + "Capability" + v, kind: kind, field: f, match: []func(t *Term, r *opRun) bool{deref}, keyElem: plainElem, mode: "remove"})
				}
			}
			c.runEdits(t, rule, eds)
			var ops []string
			for _, e := range eds {
				ops = append(ops, e.op)
			}
			for n, r := range c.runOps(t, rule, ops, nil) {
				c.saved("cap-saved", n, r, false)
			}
			c.need(rule, 8)
			c.need("cap-saved", 8)
			c.wired("cap-wired", "SystemCapabilities")
			add, drop := c.P.constOf(protoPath+"/v2", "Action_ADD"), c.P.constOf(protoPath+"/v2", "Action_DROP")
			if add == nil || drop == nil {
				c.unresolved("cap-request", "Action_ADD and Action_DROP")
				return
			}
			for n, r := range c.runHandlers("cap-request", nil, "SystemCapabilities") {
				for _, cl := range r.calls {
					m := mgrMethod(cl.ev)
					if !strings.HasSuffix(m, "Capability2") {
						continue
					}
					c.ob("cap-request", n+" "+m)
					act := drop
					if strings.HasPrefix(m, "Set") {
						act = add
					}
					path := func(p string, v *Term, want bool) bool {
						return cl.st.lits(func(x, k *Term, eq bool) bool {
							if !isPath(x, r.r, p) {
								return false
							}
							if eq {
								return k == v == want && (want || v == kTrue || v == kFalse)
							}
							return k == v && !want || (v == kTrue || v == kFalse) && want && k != v
						})
					}
					if !path("Action", act, true) {
						c.violate("cap-request", n+" "+m+" action", cl.ev.pos, pathOf(cl.ev, cl.st), "%s is called without the action having been found to be the matching one", m)
					}
					if !path("Direct", kTrue, strings.Contains(m, "Entity")) {
						c.violate("cap-request", n+" "+m+" direct", cl.ev.pos, pathOf(cl.ev, cl.st), "%s is called for the wrong kind of target", m)
					}
				}
			}
			c.need("cap-request", 4)
		},
	})
	metaProtected := map[string]bool{"Meta.Groups": true, "Meta.Capabilities": true, "Meta.Keys": true, "Meta.Locked": true, "Meta.UntypedMeta": true, "Meta.KV": true}
	register(&Check{
		id:        "C11",
		technique: "interprocedural dataflow over SSA: record diff at saves",
		rule:      "At every save reached from a metadata update the record saved is the one loaded under the requested name, and of its fields only unprotected metadata (for groups: display name and managing group) differs from what was stored, each such field being the merge of the stored with the requested value; every unprotected metadata field is merged on some path; success is reported only after the save.",
		run: func(c *Ctx) {
			t := c.chainsOf()
			for n, r := range c.runOps(t, "meta-frame", []string{"UpdateEntityMeta", "UpdateGroupMeta"}, nil) {
				allow := map[string]bool{"DisplayName": true, "ManagedBy": true}
				if len(r.saves) == 0 {
					c.violate("meta-frame", n+" none", r.fn.Pos(), nil, "%s never saves", n)
					continue
				}
				if n == "UpdateEntityMeta" {
					allow = map[string]bool{}
					for _, f := range msgFields(r.saves[0].typ) {
						if f.Name() == "Meta" {
							for _, g := range msgFields(f.Type().(*types.Pointer).Elem()) {
								if k := "Meta." + g.Name(); !metaProtected[k] {
									allow[k] = true
								}
							}
						}
					}
				}
				got := map[string]bool{}
				for _, s := range r.saves {
					c.ob("meta-frame", n)
					c.frame("meta-frame", n, s, r, allow)
					for f := range allow {
						v, ch := s.change[f]
						if !ch {
							continue
						}
						leaf := f[strings.LastIndex(f, ".")+1:]
						req := v
						if v.op == OpMerge {
							if !same(v.args[0], s.orig[f]) {
								c.violate("meta-merge", n+" "+f, s.ev.pos, pathOf(s.ev, s.st), "%s is merged with %v, not with what was stored", f, v.args[0])
							}
							req = v.args[1]
						}
						root, p := accessPath(req)
						if root != r.p(2) || p != leaf {
							c.violate("meta-merge", n+" "+f, s.ev.pos, pathOf(s.ev, s.st), "%s becomes %v, not the requested value", f, req)
						}
						c.ob("meta-merge", n+" "+f)
						got[f] = true
					}
				}
				for f := range allow {
					if !got[f] {
						c.violate("meta-merge", n+" "+f+" lost", r.fn.Pos(), nil, "a requested %s is never saved", f)
					}
				}
				c.saved("meta-saved", n, r, false)
			}
			c.need("meta-frame", 2)
			c.need("meta-merge", 10)
			c.wired("meta-wired", "EntityUpdate", "GroupUpdate")
		},
	})
	register(&Check{
		id:        "C12",
		technique: "interprocedural dataflow over SSA: must-precede analysis and record diff at saves",
		rule:      "Every save reached from the creation of an entity or group is preceded, on every path, by a load of the requested name whose error was found equal to the unknown-record error of its kind; the record saved is fresh, carries the requested name (and for groups display name and managing group), for an entity the output of the crypto engine for the requested secret, which was found to have succeeded, and a number, and nothing else; success is reported only after the save succeeded.",
		run: func(c *Ctx) {
			const rule = "create"
			t := c.chainsOf()
			for n, r := range c.runOps(t, rule, []string{"CreateEntity", "CreateGroup"}, nil) {
				kind := "Entity"
				if n == "CreateGroup" {
					kind = "Group"
				}
				for _, s := range r.saves {
					c.ob(rule, n)
					bad := func(what, f string, a ...any) { c.violate(rule, n+" "+what, s.ev.pos, pathOf(s.ev, s.st), f, a...) }
					if s.src != nil {
						bad("reuse", "creation saves a record that was loaded")
						continue
					}
					if !c.unknownName(s.st, kind, r.p(1)) {
						bad("unchecked", "a record is created without storage having reported that none of that name exists")
					}
					for _, f := range s.changed() {
						v := s.change[f]
						switch {
						case f == "ID" || f == "Name":
							if !same(s.content(v, types.Typ[types.String]), r.p(1)) {
								bad(f, "the record is saved under the name %v", s.content(v, types.Typ[types.String]))
							}
						case f == "Secret" && kind == "Entity":
							if !c.secured(s, v, r.p(3)) {
								bad(f, "the secret saved is %v, not the secured form of the requested one", s.content(v, types.Typ[types.String]))
							}
						case f == "Number":
						case f == "DisplayName" && kind == "Group":
							if !same(s.content(v, types.Typ[types.String]), r.p(2)) {
								bad(f, "the display name is %v", s.content(v, types.Typ[types.String]))
							}
						case f == "ManagedBy" && kind == "Group":
							if x := s.content(v, types.Typ[types.String]); !same(x, r.p(3)) && constStr(x) == "" {
								bad(f, "the managing group is %v", x)
							}
						default:
							bad("extra "+f, "creation sets %s to %v", f, v)
						}
					}
					for _, f := range map[string][]string{"Entity": {"ID", "Secret", "Number"}, "Group": {"Name", "DisplayName", "Number"}}[kind] {
						if s.change[f] == nil {
							bad("no "+f, "the record is created without %s", f)
						}
					}
				}
				c.saved("create-saved", n, r, false)
			}
			c.need(rule, 2)
			c.need("create-saved", 2)
			c.wired("create-wired", "EntityCreate", "GroupCreate")
		},
	})
	register(&Check{
		id:        "C13",
		technique: "interprocedural dataflow over SSA: record diff at saves and loop-carried maximum",
		rule:      "At every save reached from the creation of an entity or group the number is the requested one where that was found to differ from the server-chooses marker, and elsewhere the result of the next-number computation of its own kind, which was found to have succeeded; no other operation changes the number of a stored record. The next-number computation visits every discovered record of its kind, fails if discovery or a load fails, in every iteration keeps a maximum that is at least the number visited and the previous maximum, and returns it plus one.",
		run: func(c *Ctx) {
			const rule = "number"
			t := c.chainsOf()
			marker := kInt(-1)
			for n, r := range c.runOps(t, rule, []string{"CreateEntity", "CreateGroup"}, nil) {
				kind, num := "Entity", r.p(2)
				if n == "CreateGroup" {
					kind, num = "Group", r.p(4)
				}
				auto, expl := 0, 0
				for _, s := range r.saves {
					c.ob(rule, n)
					v := s.change["Number"]
					if v == nil {
						c.violate(rule, n+" none", s.ev.pos, pathOf(s.ev, s.st), "the record is created without a number")
						continue
					}
					x := s.content(v, types.Typ[types.Int32])
					next := s.st.lastEvent(tdb + "Next" + kind + "Number")
					switch {
					case same(x, num):
						expl++
						if !(s.st.eqKnown(nil, num, marker) == 0) {
							c.violate(rule, n+" marker", s.ev.pos, pathOf(s.ev, s.st), "the requested number is stored without having been found to differ from the marker")
						}
					case next != nil && same(x, ext(next.res, 0)):
						auto++
						if s.st.eqKnown(nil, ext(next.res, 1), kNil) != 1 {
							c.violate(rule, n+" unchecked", s.ev.pos, pathOf(s.ev, s.st), "the computed number is used although its computation may have failed")
						}
						if s.st.eqKnown(nil, num, marker) != 1 {
							c.violate(rule, n+" replaced", s.ev.pos, pathOf(s.ev, s.st), "an explicitly requested number is replaced")
						}
					default:
						c.violate(rule, n+" foreign", s.ev.pos, pathOf(s.ev, s.st), "the number saved is %v", x)
					}
				}
				if auto == 0 || expl == 0 {
					c.violate(rule, n+" unreachable", r.fn.Pos(), nil, "%s does not support both explicit and automatic numbers", n)
				}
			}
			c.need(rule, 2)
			for n, r := range c.runOps(t, "number-kept", allOps(), nil) {
				for _, s := range r.saves {
					c.ob("number-kept", n)
					if s.src == nil {
						continue
					}
					if v, ch := s.change["Number"]; ch {
						c.violate("number-kept", n, s.ev.pos, pathOf(s.ev, s.st), "%s changes the number of a stored record to %v", n, v)
					}
				}
			}
			c.need("number-kept", 20)
			c.nextNumber("Entity", "DiscoverEntityIDs")
			c.nextNumber("Group", "DiscoverGroupNames")
			c.need("next-number", 2)
		},
	})
	register(&Check{
		id:        "C06",
		technique: "interprocedural dataflow over SSA: provenance of the secret at every save",
		rule:      "At every save of an entity reached from any operation of the tree manager (chains expanded) the secret is either unchanged from the record loaded or the output of the configured crypto engine for the plaintext argument of that operation, whose error was found nil on the path. The default engine returns the string form of the bcrypt hash of exactly the given secret at the configured cost and no hash with a nil error otherwise, and accepts a secret exactly where bcrypt's comparison of it with the stored hash returned nil; the default for the crypto engine setting is bcrypt.",
		run: func(c *Ctx) {
			const rule = "secret-provenance"
			t := c.chainsOf()
			plain := map[string]int{"CreateEntity": 3, "SetSecret": 2, "Bootstrap": 2}
			changes := map[string]bool{}
			for n, r := range c.runOps(t, rule, allOps(), nil) {
				for _, s := range r.saves {
					if s.kind != "entity" {
						continue
					}
					c.ob(rule, n)
					v, ch := s.change["Secret"]
					if !ch {
						continue
					}
					changes[n] = true
					i := plain[n]
					if i == 0 || !c.secured(s, v, r.p(i)) {
						c.violate(rule, n, s.ev.pos, pathOf(s.ev, s.st), "the secret saved is %v, which is not the secured form of the secret given", s.content(v, types.Typ[types.String]))
					}
				}
				if n == "SetSecret" {
					for _, s := range r.saves {
						c.frame("secret-frame", n, s, r, map[string]bool{"Secret": true})
						c.ob("secret-frame", n)
						if _, ch := s.change["Secret"]; !ch {
							c.violate("secret-frame", n+" unchanged", s.ev.pos, pathOf(s.ev, s.st), "SetSecret saves the entity with its old secret")
						}
					}
					c.saved("secret-saved", n, r, false)
				}
			}
			for n := range plain {
				if !changes[n] {
					c.violate(rule, n+" unreachable", 0, nil, "%s never stores a secret", n)
				}
			}
			c.need(rule, 12)
			c.bcryptRules()
		},
	})
	register(&Check{
		id:        "C14",
		technique: "interprocedural dataflow over SSA: must-precede analysis and per-iteration obligations, with the recursive search verified as a summary",
		rule:      "At every save that adds an including or excluding rule: the target was loaded without error, found different from the name of the group itself, every stored rule of the group was examined and found to have another target, and every rule of the target was examined: its target was found different from the group, loaded without error, and the recursive search from there reported that the group is not reached. The recursive search reports so only after examining every rule of its group in the same way.",
		run:       runC14,
	})
}

// allOps: the exported operations of the tree manager that can save.
func allOps() []string {
	var l []string
	for m := range mutators {
		l = append(l, m)
	}
	return append(l, "Bootstrap", "SetEntityCapability", "DropEntityCapability", "SetGroupCapability", "DropGroupCapability", "ModifyGroupExpansions", "ValidateSecret", "FetchEntity", "FetchGroup", "EntityKVGet", "GroupKVGet")
}

// unknownName: storage reported that no record of that name exists.
func (c *Ctx) unknownName(st *State, kind string, name *Term) bool {
	for _, ev := range st.eventsNamed(tdb + "Load" + kind) {
		if !same(ev.args[1], name) {
			continue
		}
		if st.lits(func(t, v *Term, eq bool) bool {
			return eq && same(t, ext(ev.res, 1)) && strings.HasSuffix(errName(v), ".ErrUnknown"+kind)
		}) {
			return true
		}
	}
	return false
}

// secured: v holds the output of the crypto engine for plain.
func (c *Ctx) secured(s *save, v, plain *Term) bool {
	x := s.content(v, types.Typ[types.String])
	for _, ev := range s.st.eventsNamed(emc + "SecureSecret") {
		if same(x, ext(ev.res, 0)) && same(ev.args[1], plain) && s.st.eqKnown(nil, ext(ev.res, 1), kNil) == 1 {
			return true
		}
	}
	return false
}

// reads: in other than the writing modes the operation returns stored
// elements.
func (c *Ctx) reads(rule string, r *opRun, field string, writing []string) {
	some := 0
	for _, o := range r.outs {
		if o.panic || o.st.eqKnown(nil, o.res(1), kNil) == 0 {
			continue
		}
		w := false
		for _, m := range writing {
			w = w || modeIs(o.st, r.p(2), m)
		}
		if w {
			continue
		}
		c.ob(rule, r.name)
		bad := func(t *Term) {
			c.violate(rule, r.name+" foreign", r.fn.Pos(), trailOf(o.st), "the result of reading may contain %v, which is not stored", t)
		}
		stored := func(t *Term) bool {
			b := fieldOf(t, field)
			return b != nil && strings.Contains(b.String(), tdb+"Load")
		}
		var walk func(t *Term)
		walk = func(t *Term) {
			t = strip(t)
			switch {
			case t.isNil():
			case stored(t):
				some++
			case t.op == OpPure && t.s == "dedup":
				walk(t.args[0])
			case t.op == OpAppend:
				walk(t.args[0])
				for _, x := range t.args[1:] {
					if b := elemBase(x); b == nil || !stored(b) {
						bad(x)
					} else {
						some++
					}
				}
			case t.op == OpSlice && t.args[0].op == OpAlloc:
			default:
				bad(t)
			}
		}
		walk(o.res(0))
	}
	if some == 0 {
		c.violate(rule, r.name+" empty", r.fn.Pos(), nil, "reading never returns stored elements")
	}
}

// nextNumber decides the next-number computation of a kind.
func (c *Ctx) nextNumber(kind, discover string) {
	const rule = "next-number"
	f := c.P.method("internal/db", "DB", "Next"+kind+"Number")
	if f == nil {
		c.unresolved(rule, "Next"+kind+"Number")
		return
	}
	inst := "Next" + kind + "Number"
	e := newEngine(c.P)
	e.boundary = func(n string) bool {
		return strings.HasSuffix(n, ")."+discover) || strings.HasSuffix(n, ").Load"+kind)
	}
	var its []*iteration
	e.onBack = func(it *iteration) { its = append(its, it) }
	outs := e.run(f, entryArgs(f), newState())
	c.done(e, rule, inst)
	okRet := 0
	ev := func(st *State, suffix string) []*Event {
		var l []*Event
		for _, x := range st.events {
			if strings.HasSuffix(x.name, suffix) {
				l = append(l, x)
			}
		}
		return l
	}
	var maxName string
	for _, o := range outs {
		if o.panic || o.st.eqKnown(nil, o.res(1), kNil) == 0 {
			continue
		}
		okRet++
		c.ob(rule, inst)
		d := ev(o.st, ")."+discover)
		if len(d) == 0 || o.st.eqKnown(nil, ext(d[0].res, 1), kNil) != 1 {
			c.violate(rule, inst+" discovery", f.Pos(), trailOf(o.st), "a number is returned although discovering the records may have failed")
			continue
		}
		if !o.st.exhausted(ext(d[0].res, 0)) {
			c.violate(rule, inst+" partial", f.Pos(), trailOf(o.st), "a number is returned before every record was visited")
		}
		v := strip(o.res(0))
		if v.op != OpBin || v.s != "+" {
			if n, ok := v.intv(); ok && n >= 1 {
				continue
			}
			c.violate(rule, inst+" successor", f.Pos(), trailOf(o.st), "the number returned is %v, not one more than the maximum", v)
			continue
		}
		one, m := v.args[0], v.args[1]
		if n, ok := m.intv(); ok && n == 1 {
			one, m = m, one
		}
		if n, ok := one.intv(); !ok || n != 1 {
			c.violate(rule, inst+" successor", f.Pos(), trailOf(o.st), "the number returned is %v, not one more than the maximum", v)
		}
		maxName = m.String()
	}
	_ = maxName
	n := 0
	for _, it := range its {
		if it.elem == nil {
			continue
		}
		n++
		c.ob(rule, inst+" step")
		var num *Term
		loads := ev(it.st, ").Load"+kind)
		var ld *Event
		for _, l := range loads {
			if mentions(l.args[1], it.elem) && l.res.vol != nil {
				ld = l
			}
		}
		if ld == nil {
			c.violate(rule, inst+" unloaded", it.fn.Pos(), trailOf(it.st), "a discovered record is skipped")
			continue
		}
		if it.st.eqKnown(nil, ext(ld.res, 1), kNil) != 1 {
			c.violate(rule, inst+" load failure", it.fn.Pos(), trailOf(it.st), "the computation goes on although loading a record may have failed")
			continue
		}
		// the maximum at the end of the iteration dominates
		ok := false
		isNum := func(t *Term) bool {
			b := protoField(t, "Number")
			return b != nil && b == strip(ext(ld.res, 0))
		}
		it.st.lits(func(t, v *Term, eq bool) bool {
			if isNum(t) {
				num = t
			}
			for _, a := range t.args {
				if isNum(a) {
					num = a
				}
			}
			return false
		})
		for _, mv := range it.vals {
			if num == nil {
				break
			}
			if same(mv, num) && it.dominates(num, nil) {
				ok = true // the new maximum, found larger than the old
			}
			if !same(mv, num) && it.dominates(mv, num) {
				ok = true // the old maximum, found at least as large
			}
		}
		if !ok {
			c.violate(rule, inst+" maximum", it.fn.Pos(), trailOf(it.st), "after visiting a record the maximum may be smaller than its number or than the previous maximum")
		}
	}
	if n == 0 || okRet == 0 {
		c.violate(rule, inst+" none", f.Pos(), nil, "the computation does not visit the discovered records")
	}
}

// dominates: a >= b was established in this iteration; with b == nil:
// a >= some value that is not a itself (the previous maximum).
func (it *iteration) dominates(a, b *Term) bool {
	for t, f := range it.st.facts {
		if t.op != OpBin || f.eq == nil {
			continue
		}
		x, y := t.args[0], t.args[1]
		var ge [2]*Term
		switch {
		case t.s == "<" && f.eq == kTrue, t.s == "<=" && f.eq == kTrue:
			ge = [2]*Term{y, x}
		case t.s == "<" && f.eq == kFalse, t.s == "<=" && f.eq == kFalse:
			ge = [2]*Term{x, y}
		case t.s == ">" && f.eq == kTrue, t.s == ">=" && f.eq == kTrue:
			ge = [2]*Term{x, y}
		case t.s == ">" && f.eq == kFalse, t.s == ">=" && f.eq == kFalse:
			ge = [2]*Term{y, x}
		default:
			continue
		}
		if same(ge[0], a) && (b == nil && !same(ge[1], a) || b != nil && same(ge[1], b)) {
			return true
		}
	}
	return false
}

func (c *Ctx) bcryptRules() {
	const rule = "bcrypt"
	sec := c.P.method("internal/crypto/bcrypt", "Engine", "SecureSecret")
	ver := c.P.method("internal/crypto/bcrypt", "Engine", "VerifySecret")
	nw := c.P.fn("internal/crypto/bcrypt.New")
	if sec == nil || ver == nil || nw == nil {
		c.unresolved(rule, "the bcrypt engine")
		return
	}
	e := newEngine(c.P)
	args := entryArgs(sec)
	good := 0
	bytesOf := func(t, s *Term) bool {
		t = strip(t)
		for t.op == OpConv || t.op == OpSlice {
			t = t.args[0]
		}
		return t == strip(s)
	}
	const gen, cmp = "golang.org/x/crypto/bcrypt.GenerateFromPassword", "golang.org/x/crypto/bcrypt.CompareHashAndPassword"
	for _, o := range e.run(sec, args, newState()) {
		if o.panic {
			continue
		}
		c.ob(rule, "SecureSecret")
		g := o.st.lastEvent(gen)
		ok := g != nil && o.st.eqKnown(nil, ext(g.res, 1), kNil) == 1 && bytesOf(g.args[0], args[1]) && bytesOf(o.res(0), ext(g.res, 0))
		if ok {
			if r, p := accessPath(g.args[1]); r != args[0] || p != "cost" {
				c.violate(rule, "SecureSecret cost", g.pos, trailOf(o.st), "the cost used is %v, not the configured one", g.args[1])
			}
		}
		if o.st.eqKnown(nil, o.res(1), kNil) != 0 {
			if !ok {
				c.violate(rule, "SecureSecret", sec.Pos(), trailOf(o.st), "success is reported with %v, which is not the bcrypt hash of the secret", o.res(0))
			}
			good++
		}
	}
	c.done(e, rule, "SecureSecret")
	if good == 0 {
		c.violate(rule, "SecureSecret never", sec.Pos(), nil, "SecureSecret never succeeds")
	}
	e = newEngine(c.P)
	args = entryArgs(ver)
	good = 0
	for _, o := range e.run(ver, args, newState()) {
		if o.panic {
			continue
		}
		c.ob(rule, "VerifySecret")
		g := o.st.lastEvent(cmp)
		ok := g != nil && o.st.eqKnown(nil, g.res, kNil) == 1 && bytesOf(g.args[0], args[2]) && bytesOf(g.args[1], args[1])
		if g != nil && same(o.res(0), g.res) && bytesOf(g.args[0], args[2]) && bytesOf(g.args[1], args[1]) {
			ok = true
			good++
		}
		if o.st.eqKnown(nil, o.res(0), kNil) != 0 {
			if !ok {
				c.violate(rule, "VerifySecret", ver.Pos(), trailOf(o.st), "a secret is accepted although bcrypt did not accept it for the stored hash")
			}
			good++
		}
	}
	c.done(e, rule, "VerifySecret")
	if good == 0 {
		c.violate(rule, "VerifySecret never", ver.Pos(), nil, "VerifySecret never succeeds")
	}
	// the cost is the configured one
	e = newEngine(c.P)
	for _, o := range e.run(nw, entryArgs(nw), newState()) {
		if o.panic || o.st.eqKnown(nil, o.res(1), kNil) == 0 {
			continue
		}
		c.ob(rule, "New")
		p := o.res(0)
		for p.op == OpMkIface {
			p = p.args[0]
		}
		found := false
		for a, v := range o.st.mem {
			if a.op == OpField && a.s == "cost" && a.args[0] == p {
				for _, ev := range o.st.events {
					if strings.HasSuffix(ev.name, "viper.GetInt") && same(ev.res, v) && constStr(ev.args[0]) == "crypto.bcrypt.cost" {
						found = true
					}
				}
				if v.op == OpPure && strings.HasSuffix(v.s, "viper.GetInt") && constStr(v.args[0]) == "crypto.bcrypt.cost" {
					found = true
				}
			}
		}
		if !found {
			c.violate(rule, "New cost", nw.Pos(), trailOf(o.st), "the engine's cost is not read from the setting crypto.bcrypt.cost")
		}
	}
	c.done(e, rule, "New")
	c.need(rule, 3)
}

// --- rule cycles

type reach struct {
	c    *Ctx
	e    *Engine
	rule string
	recs map[*ssa.Function]bool
}

// examined decides one iteration over the rules of a group during the
// search for name: the rule's target differs from name, was loaded and
// searched recursively.
func (q *reach) examined(it *iteration, isName func(*Term) bool) string {
	var tgt *Term
	it.st.pairs(true, func(a, b *Term, eq bool) bool {
		if !eq && mentions(a, it.elem) && isName(strip(b)) {
			tgt = a
			return true
		}
		return false
	})
	if tgt == nil {
		return "the search continues past a rule whose target was not found to differ from the group"
	}
	for _, ev := range it.st.eventsNamed(tdb + "LoadGroup") {
		if ev.args[1] != tgt || it.st.eqKnown(nil, ext(ev.res, 1), kNil) != 1 {
			continue
		}
		for _, cl := range it.st.events {
			if cl.fn == nil || cl.res == nil {
				continue
			}
			g, n := false, false
			for _, a := range cl.args {
				g = g || a == ext(ev.res, 0)
				n = n || isName(strip(a))
			}
			if g && n && it.st.eqKnown(nil, cl.res, kFalse) == 1 {
				if f := q.e.P.prog.FuncValue(cl.fn); f != nil {
					q.recs[f] = true
					return ""
				}
			}
		}
		return "the search continues although the groups reached by a rule's target were not searched, or the group was found there"
	}
	return "the search continues past a rule whose target was not loaded"
}

func runC14(c *Ctx) {
	const rule = "rule-cycle"
	t := c.chainsOf()
	inc, exc := c.ruleAction("INCLUDE"), c.ruleAction("EXCLUDE")
	if inc == nil || exc == nil {
		c.unresolved(rule, "RuleAction constants")
		return
	}
	q := &reach{c: c, rule: rule, recs: map[*ssa.Function]bool{}}
	r := c.runOps(t, rule, []string{"ModifyGroupRule"}, nil)["ModifyGroupRule"]
	if r == nil {
		return
	}
	q.e = r.e
	target := strip(r.p(2))
	searches := map[nestKey]bool{}
	weak := map[nestKey]*iteration{} // loops that pass over other elements
	for _, it := range r.iters {
		if it.base == nil || it.elem == nil || it.st.eqKnown(nil, r.p(3), inc) != 1 && it.st.eqKnown(nil, r.p(3), exc) != 1 {
			continue
		}
		s0 := &save{st: it.st, e: r.e}
		isName := q.nameOf(r, s0)
		for _, s := range r.saves {
			L := s.orig["Expansions"]
			if L == nil {
				continue
			}
			if elemOrigin(s0, it.elem, L) {
				if it.keeps(it.elem) || len(it.vals) == 0 {
					break
				}
				// is this the loop that looks for an existing rule?
				if builds(r.iters, it) {
					break
				}
				searches[it.key] = true
				c.ob(rule, "existing rules")
				if !it.st.pairs(true, func(a, b *Term, eq bool) bool {
					return !eq && mentions(a, it.elem) && splitElem(a) == nil && strip(b) == target
				}) {
					weak[it.key] = it
				}
				break
			}
		}
		if b := fieldOf(it.base, "Expansions"); b != nil {
			for _, ev := range it.st.eventsNamed(tdb + "LoadGroup") {
				if strip(ev.args[1]) == target && strip(ext(ev.res, 0)) == strip(b) {
					c.ob(rule, "rules of the target")
					if why := q.examined(it, isName); why != "" {
						c.violate(rule, "rules of the target", it.fn.Pos(), trailOf(it.st), "%s", why)
					}
				}
			}
		}
	}
	for k := range weak {
		delete(searches, k)
	}
	adds := map[string]int{}
	for _, s := range r.saves {
		L := s.orig["Expansions"]
		V := s.change["Expansions"]
		if L == nil || V == nil || s.src == nil {
			continue
		}
		kept := map[*Term]bool{}
		s.listOrigins(V, L, nil, kept, 0)
		kind := ""
		for x := range kept {
			for _, k := range []string{"INCLUDE", "EXCLUDE"} {
				if x != nil && concatOf(x, kString(k+":"), target) {
					kind = k
				}
			}
			if x != nil && kind == "" {
				c.violate(rule, "foreign rule", s.ev.pos, pathOf(s.ev, s.st), "a rule %v is added", x)
			}
		}
		act := inc
		if kind == "EXCLUDE" {
			act = exc
		}
		if kind == "" {
			// nothing was added; a request to add may not get here
			if s.st.eqKnown(nil, r.p(3), inc) != 1 && s.st.eqKnown(nil, r.p(3), exc) != 1 {
				continue
			}
			if s.st.eqKnown(nil, r.p(3), exc) == 1 {
				act, kind = exc, "EXCLUDE"
			} else {
				kind = "INCLUDE"
			}
		}
		if s.st.eqKnown(nil, r.p(3), act) != 1 {
			c.violate(rule, kind+" action", s.ev.pos, pathOf(s.ev, s.st), "a rule of the other kind than requested is added")
		}
		adds[kind]++
		c.ob(rule, kind)
		bad := func(what, f string, a ...any) {
			c.violate(rule, kind+" "+what, s.ev.pos, pathOf(s.ev, s.st), f, a...)
		}
		isName := q.nameOf(r, s)
		if !s.st.pairs(false, func(a, b *Term, eq bool) bool { return !eq && strip(a) == target && isName(strip(b)) }) {
			bad("self", "a rule is saved although its target was not found to differ from the group itself")
		}
		var child *Term
		for _, ev := range s.st.eventsNamed(tdb + "LoadGroup") {
			if strip(ev.args[1]) == target && s.st.eqKnown(nil, ext(ev.res, 1), kNil) == 1 {
				child = ext(ev.res, 0)
				ex := s.e.load(s.st, mkField(child, "Expansions", L.typ), L.typ)
				if s.st.exhausted(ex) {
					bad := false
					_ = bad
					child = ex
					break
				}
				child = nil
			}
		}
		if child == nil {
			bad("target", "a rule is saved although its target was not loaded without error and its rules searched to the end")
		}
		if !s.st.exhaustedBy(L, searches) {
			bad("existing", "a rule is saved although the rules stored for the group were not all compared with its target")
			for _, it := range weak {
				c.violate(rule, "existing rules", it.fn.Pos(), trailOf(it.st), "the search for an existing rule continues past a rule not found to have another target")
			}
		}
	}
	for _, k := range []string{"INCLUDE", "EXCLUDE"} {
		if adds[k] == 0 {
			c.violate(rule, k+" unreachable", r.fn.Pos(), nil, "no rule of kind %s is ever saved", k)
		}
	}
	if len(c.insts[rule]) > 0 && !c.insts[rule]["rules of the target"] {
		c.violate(rule, "rules of the target", r.fn.Pos(), nil, "the rules of the target are never searched")
	}
	if !c.insts[rule]["existing rules"] {
		c.violate(rule, "existing rules", r.fn.Pos(), nil, "the existing rules are never searched")
	}
	// the recursive search
	done := map[*ssa.Function]bool{}
	for len(done) < len(q.recs) {
		for f := range q.recs {
			if !done[f] {
				done[f] = true
				q.search(f)
			}
		}
	}
	c.need(rule, 4)
}

// builds: the loop of this iteration builds a list from its elements.
func builds(all []*iteration, it *iteration) bool {
	for _, o := range all {
		if o.key == it.key && o.fn == it.fn && o.elem != nil && o.keeps(o.elem) {
			return true
		}
	}
	return false
}

// nameOf recognizes the name of the group being modified.
func (q *reach) nameOf(r *opRun, s *save) func(*Term) bool {
	names := map[*Term]bool{strip(r.p(1)): true}
	return func(t *Term) bool {
		if names[t] {
			return true
		}
		b := protoField(t, "Name")
		if b == nil {
			return false
		}
		for _, ev := range s.st.eventsNamed(tdb + "LoadGroup") {
			if same(ev.args[1], r.p(1)) && strip(ext(ev.res, 0)) == b {
				return true
			}
		}
		return false
	}
}

// search verifies the recursive search function.
func (q *reach) search(f *ssa.Function) {
	c := q.c
	inst := "search " + fnName(f)
	e := newEngine(c.P)
	args := entryArgs(f)
	var its []*iteration
	e.onBack = func(it *iteration) { its = append(its, it) }
	outs := e.run(f, args, newState())
	c.done(e, q.rule, inst)
	var cand *Term
	for _, a := range args {
		if isString(a.typ) {
			cand = a
		}
	}
	isExp := func(b *Term) bool {
		g := fieldOf(b, "Expansions")
		return g != nil && g.op == OpParam
	}
	var lists []*Term
	for _, it := range its {
		if it.base != nil && isExp(it.base) {
			lists = append(lists, it.base)
			c.ob(q.rule, inst)
			if why := q.examined(it, func(t *Term) bool { return t == cand }); why != "" {
				c.violate(q.rule, inst, it.fn.Pos(), trailOf(it.st), "%s", why)
			}
		}
	}
	if len(lists) == 0 {
		c.violate(q.rule, inst+" loop", f.Pos(), nil, "the search does not visit the rules of its group")
		return
	}
	neg := 0
	for _, o := range outs {
		if o.panic || o.st.eqKnown(nil, o.res(0), kTrue) == 1 {
			continue
		}
		neg++
		if o.st.resolve(o.res(0)) != kFalse {
			// the result of a deeper search is passed on
			if o.st.eqKnown(nil, o.res(0), kFalse) != 1 {
				c.violate(q.rule, fmt.Sprintf("%s result", inst), f.Pos(), trailOf(o.st), "the result of the search is %v", o.res(0))
				continue
			}
		}
		if !o.st.exhausted(lists[0]) {
			c.violate(q.rule, inst+" partial", f.Pos(), trailOf(o.st), "the search reports that the group is not reached before every rule was examined")
		}
	}
	if neg == 0 {
		c.violate(q.rule, inst+" never", f.Pos(), nil, "the search never reports that the group is not reached")
	}
}
