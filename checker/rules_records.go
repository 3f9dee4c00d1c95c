package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Properties about the records saved by the operations of the tree
// manager, decided on the operations with their chains expanded.

func concatOf(t *Term, parts ...*Term) bool { return strip(t) == strip(mkConcat(parts)) }

func (r *opRun) p(i int) *Term { return r.args[i] }

// kvKey: t is the key of a key/value item; returns the item.
func kvKey(t *Term) *Term {
	if b := protoField(t, "Key"); b != nil {
		return strip(b)
	}
	return nil
}

// firstOf: t is element 0 of the slice parameter p.
func firstOf(t, p *Term) bool {
	t = strip(t)
	if t.op != OpDeref || t.args[0].op != OpElem || t.args[0].args[0] != strip(p) {
		return false
	}
	i, ok := t.args[0].args[1].intv()
	return ok && i == 0
}

func kvEdits(kind, prefix string) []edit {
	f := "Meta.KV"
	if kind == "group" {
		f = "KV"
	}
	match := []func(t *Term, r *opRun) bool{func(t *Term, r *opRun) bool {
		b := kvKey(t)
		return b != nil && firstOf(b, r.p(2))
	}}
	add := func(t *Term, r *opRun) bool { return firstOf(t, r.p(2)) }
	return []edit{
		{op: prefix + "KVAdd", kind: kind, field: f, match: match, keyElem: kvKey, add: add, mode: "addnew"},
		{op: prefix + "KVDel", kind: kind, field: f, match: match, keyElem: kvKey, mode: "removeold"},
		{op: prefix + "KVReplace", kind: kind, field: f, match: match, keyElem: kvKey, add: add, mode: "replace"},
	}
}

func init() {
	register(&Check{
		id:        "C24",
		technique: "interprocedural dataflow over SSA: record diff at saves and list-element transfer through loops",
		rule:      "At every save reached from a key/value operation (entity and group; chains expanded into their steps): only the key/value list differs from the record loaded under the requested name; every element of the saved list is an element of the stored list or the request's single item; an element is dropped only where its key was found equal to the requested key, and in deletions and replacements every kept one was found different; additions happen only after a complete search found no equal key; a deletion is saved only where something was dropped. A read returns stored items whose key was found equal to a requested key, the whole list only for the wildcard, and fails if none was found.",
		run: func(c *Ctx) {
			t := c.chainsOf()
			c.runEdits(t, "kv-edit", append(kvEdits("entity", "Entity"), kvEdits("group", "Group")...))
			ops := []string{"EntityKVAdd", "EntityKVDel", "EntityKVReplace", "GroupKVAdd", "GroupKVDel", "GroupKVReplace"}
			for _, r := range c.runOps(t, "kv-edit", ops, nil) {
				c.saved("kv-saved", r.name, r, false)
				for _, s := range r.saves {
					c.ob("kv-single", r.name)
					if !s.st.lits(func(x, v *Term, eq bool) bool {
						n, ok := v.intv()
						return ok && n == 1 && eq && x.op == OpPure && x.s == "len" && same(x.args[0], r.p(2))
					}) {
						c.violate("kv-single", r.name, s.ev.pos, pathOf(s.ev, s.st), "a request that does not have exactly one item is acted upon")
					}
				}
			}
			c.kvReads(t)
			c.wired("kv-wired", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKVGet", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupKVGet")
			c.need("kv-edit", 6)
			c.need("kv-single", 6)
			c.need("kv-saved", 6)
			c.need("kv-read", 2)
		},
	})
	register(&Check{
		id:        "C43",
		technique: "interprocedural dataflow over SSA: record diff at saves",
		rule:      "At every save reached from the lock and unlock operations of the tree manager the only field that differs from the record loaded under the requested name is the lock state, which is the constant true (lock) or false (unlock); success is reported only after such a save; and the lock and unlock requests perform the operation of their own name on the entity they name.",
		run: func(c *Ctx) {
			t := c.chainsOf()
			want := map[string]*Term{"LockEntity": kTrue, "UnlockEntity": kFalse}
			for op, r := range c.runOps(t, "lock-frame", []string{"LockEntity", "UnlockEntity"}, nil) {
				for _, s := range r.saves {
					c.ob("lock-frame", op)
					c.frame("lock-frame", op, s, r, map[string]bool{"Meta.Locked": true})
					v := s.change["Meta.Locked"]
					if v == nil {
						v = s.orig["Meta.Locked"]
					}
					got := s.content(v, types.Typ[types.Bool])
					if got != want[op] && s.st.resolve(got) != want[op] {
						c.violate("lock-frame", op+" value", s.ev.pos, pathOf(s.ev, s.st), "%s saves the lock state %v", op, got)
					}
				}
				c.saved("lock-saved", op, r, false)
			}
			c.need("lock-frame", 2)
			c.need("lock-saved", 2)
			c.wired("lock-wired", "EntityLock", "EntityUnlock")
		},
	})
}

// wirings: the operations a request performs and the parts of the
// request passed to them.
type wire struct {
	op   string
	args []string
}

var wirings = map[string][]wire{
	"EntityCreate":     {{"CreateEntity", []string{"Entity.ID", "Entity.Number", "Entity.Secret"}}},
	"EntityUpdate":     {{"UpdateEntityMeta", []string{"Data.ID", "Data.Meta"}}},
	"EntityUM":         {{"ManageUntypedEntityMeta", []string{"Target", "=Action", "Key", "Value"}}},
	"EntityKeys":       {{"UpdateEntityKeys", []string{"Target", "=Action", "Key", "Value"}}},
	"EntityKVAdd":      {{"EntityKVAdd", []string{"Target", "[Data]"}}},
	"EntityKVDel":      {{"EntityKVDel", []string{"Target", "[Data]"}}},
	"EntityKVReplace":  {{"EntityKVReplace", []string{"Target", "[Data]"}}},
	"EntityKVGet":      {{"EntityKVGet", []string{"Target", "[Data]"}}},
	"EntityLock":       {{"LockEntity", []string{"Entity.ID"}}},
	"EntityUnlock":     {{"UnlockEntity", []string{"Entity.ID"}}},
	"EntityDestroy":    {{"DestroyEntity", []string{"Entity.ID"}}},
	"GroupCreate":      {{"CreateGroup", []string{"Group.Name", "Group.DisplayName", "Group.ManagedBy", "Group.Number"}}},
	"GroupUpdate":      {{"UpdateGroupMeta", []string{"Group.Name", "Group"}}},
	"GroupUM":          {{"ManageUntypedGroupMeta", []string{"Target", "=Action", "Key", "Value"}}},
	"GroupKVAdd":       {{"GroupKVAdd", []string{"Target", "[Data]"}}},
	"GroupKVDel":       {{"GroupKVDel", []string{"Target", "[Data]"}}},
	"GroupKVReplace":   {{"GroupKVReplace", []string{"Target", "[Data]"}}},
	"GroupKVGet":       {{"GroupKVGet", []string{"Target", "[Data]"}}},
	"GroupUpdateRules": {{"ModifyGroupRule", []string{"Group.Name", "Target.Name", "RuleAction"}}},
	"GroupAddMember":   {{"AddEntityToGroup", []string{"Entity.ID", "Entity.Meta.Groups[]"}}},
	"GroupDelMember":   {{"RemoveEntityFromGroup", []string{"Entity.ID", "Entity.Meta.Groups[]"}}},
	"GroupDestroy":     {{"DestroyGroup", []string{"Group.Name"}}},
	"GroupMembers":     {{"ListMembers", []string{"Group.Name"}}},
	"AuthChangeSecret": {{"SetSecret", []string{"Entity.ID", "Secret"}}},
	"SystemCapabilities": {
		{"SetEntityCapability2", []string{"Target", "Capability"}},
		{"DropEntityCapability2", []string{"Target", "Capability"}},
		{"SetGroupCapability2", []string{"Target", "Capability"}},
		{"DropGroupCapability2", []string{"Target", "Capability"}},
	},
}

func wireArg(t, req *Term, spec string) bool {
	switch {
	case strings.HasPrefix(spec, "="):
		t = strip(t)
		return (t.op == OpPure || t.op == OpCall) && strings.HasSuffix(t.s, ").String") && len(t.args) > 0 && isPath(t.args[0], req, spec[1:])
	case strings.HasPrefix(spec, "["):
		t = strip(t)
		return (t.op == OpTuple || t.op == OpAppend && t.args[0].isNil()) && isPath(t.args[len(t.args)-1], req, strings.Trim(spec, "[]")) &&
			(t.op == OpTuple && len(t.args) == 1 || t.op == OpAppend && len(t.args) == 2)
	}
	return isPath(t, req, spec)
}

// wired: each of the named request handlers performs the operations of
// its row, on the parts of the request given there, and no other
// state-changing operation; it reports success only after one of them
// was called.
func (c *Ctx) wired(rule string, names ...string) {
	for n, r := range c.runHandlers(rule, nil, names...) {
		rows := wirings[n]
		found := map[string]bool{}
		for _, cl := range r.calls {
			m := mgrMethod(cl.ev)
			var row *wire
			for i := range rows {
				if rows[i].op == m {
					row = &rows[i]
				}
			}
			if row == nil {
				if _, mut := mutators[m]; mut {
					c.violate(rule, n+" calls "+m, cl.ev.pos, pathOf(cl.ev, cl.st), "the %s request performs %s", n, m)
				}
				continue
			}
			found[m] = true
			c.ob(rule, n+" "+m)
			for i, a := range row.args {
				if i+1 >= len(cl.ev.args) || !wireArg(cl.ev.args[i+1], r.r, a) {
					c.violate(rule, fmt.Sprintf("%s %s argument %d", n, m, i+1), cl.ev.pos, pathOf(cl.ev, cl.st), "argument %d of %s is %v, not %s of the request", i+1, m, cl.ev.args[min(i+1, len(cl.ev.args)-1)], a)
				}
			}
		}
		for _, w := range rows {
			if !found[w.op] {
				c.violate(rule, n+" "+w.op+" unreachable", r.fn.Pos(), nil, "the %s request never performs %s", n, w.op)
			}
		}
		for _, o := range r.outs {
			if o.panic || o.ret == nil || o.st.eqKnown(nil, o.res(1), kNil) == 0 {
				continue
			}
			c.ob(rule, n+" success")
			done := false
			for _, ev := range o.st.events {
				for _, w := range rows {
					if mgrMethod(ev) == w.op {
						done = true
					}
				}
			}
			// an empty list of groups to process
			if !done && strings.HasSuffix(rows[0].args[len(rows[0].args)-1], "[]") && o.st.emptyLoop(r.r) {
				done = true
			}
			if !done {
				c.violate(rule, n+" success", r.fn.Pos(), trailOf(o.st), "the %s request may report success without having performed %s", n, rows[0].op)
			}
		}
	}
	for _, n := range names {
		c.need2(rule, n)
	}
}

func (c *Ctx) need2(rule, handler string) {
	for i := range c.insts[rule] {
		if strings.HasPrefix(i, handler+" ") {
			return
		}
	}
	c.unresolved(rule, "request handler "+handler)
}

// emptyLoop: a loop over a list of the request found it empty.
func (s *State) emptyLoop(req *Term) bool {
	return s.lits(func(t, v *Term, eq bool) bool {
		if t.op != OpBin || t.s != "<" || !(eq && v == kFalse) {
			return false
		}
		ln := t.args[1]
		if ln.op != OpPure || ln.s != "len" {
			return false
		}
		root, _ := accessPath(ln.args[0])
		i, isc := t.args[0].intv()
		return root == req && (isc && i == 0 || !isc)
	})
}

// kvReads decides the read operations for key/value data.
func (c *Ctx) kvReads(t *chainTable) {
	const rule = "kv-read"
	for n, r := range c.runOps(t, rule, []string{"EntityKVGet", "GroupKVGet"}, nil) {
		if len(r.saves)+len(r.dels) > 0 {
			for _, s := range r.saves {
				c.violate(rule, n+" saves", s.ev.pos, pathOf(s.ev, s.st), "reading key/value data saves a record")
			}
		}
		keys := strip(r.p(2))
		stored := func(t *Term) bool { // the stored list
			t = strip(t)
			b := fieldOf(t, "KV")
			if b == nil {
				return false
			}
			return strings.Contains(b.String(), tdb+"Load")
		}
		isKey := func(t *Term) bool {
			b := kvKey(t)
			return b != nil && elemBase(b) == keys
		}
		found := func(st *State, x *Term) bool {
			return st.pairs(false, func(a, b *Term, eq bool) bool {
				return eq && kvKey(a) == strip(x) && isKey(b)
			})
		}
		for _, it := range r.iters {
			for _, v := range it.vals {
				if v.op != OpAppend {
					continue
				}
				for _, x := range v.args[1:] {
					if len(x.some) == 0 && !found(it.st, x) {
						c.violate(rule, n+" unmatched", it.fn.Pos(), trailOf(it.st), "an item is returned although its key was not found equal to a requested one")
					}
					c.ob(rule, n+" item")
				}
			}
		}
		whole, some := 0, 0
		for _, o := range r.outs {
			if o.panic || o.st.eqKnown(nil, o.res(1), kNil) == 0 {
				continue
			}
			c.ob(rule, n)
			v := o.res(0)
			if stored(v) || v.isNil() && len(o.st.eventsNamed("chain")) > 0 {
				whole++
				if !o.st.pairs(false, func(a, b *Term, eq bool) bool {
					return eq && isKey(a) && constStr(b) == "*"
				}) {
					c.violate(rule, n+" whole", r.fn.Pos(), trailOf(o.st), "the whole list is returned although the key requested is not the wildcard")
				}
				continue
			}
			if v.op != OpAppend {
				c.violate(rule, n+" empty", r.fn.Pos(), trailOf(o.st), "success is reported although no item with a requested key was found")
				continue
			}
			some++
			for _, x := range v.args[1:] {
				if b := elemBase(x); b == nil || !stored(b) {
					c.violate(rule, n+" foreign", r.fn.Pos(), trailOf(o.st), "the result may contain an item that is not stored: %v", x)
				}
			}
		}
		if whole == 0 || some == 0 {
			c.violate(rule, n+" unreachable", r.fn.Pos(), nil, "%s never returns items", n)
		}
	}
}
