package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:        "C19",
		technique: "path-sensitive typestate of the written file over SSA, and a census of the calls that modify files or open the embedded store",
		rule:      "Every modification of files by a backend is classified: a record is replaced only by the atomic-replacement primitive with the bytes given, a file is removed only by the delete operation, directories are only added; storing succeeds only on paths on which exactly that one write returned no error. The embedded store is opened with synchronous writes at every call site.",
		run:       runC19,
	})
	register(&Check{
		id:        "C17",
		technique: "path-sensitive event-order analysis over SSA of the storage backends, the event distribution and every consumer of events",
		rule:      "On every successful path of storing and removing, exactly one announcement is made, after the access succeeded, of the kind and action of the key's namespace and with the key's own name; none is made on failing paths. The distribution calls every registered listener with the event; listeners are registered under distinct names, and set up before requests are served. Each listener handles updates and removals of its kinds by reloading the record named or dropping it.",
		run:       runC17,
	})
	register(&Check{
		id:        "C36",
		technique: "value-flow analysis over SSA of the construction, feeding and querying of the search indexes",
		rule:      "The entity index is constructed from a mapping whose default document mapping disables the field the secret is encoded as; the indexes are fed only with a record of their kind under that record's own name; searching uses the index of the kind and loads what is returned by the names found; nothing else reaches the indexes.",
		run:       runC36,
	})
}

func isEffect(n string) bool {
	switch n {
	case "os.Create", "os.OpenFile", "os.Rename", "os.Remove", "os.RemoveAll", "os.Truncate", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.WriteFile", "os.Symlink", "os.Link", "os.CreateTemp", "os.Chmod", "os.Chown", "os.Chtimes",
		"io/ioutil.WriteFile", "io/ioutil.TempFile", "io/ioutil.TempDir",
		"(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt", "(*os.File).Truncate", "(*os.File).Sync", "(*os.File).ReadFrom":
		return true
	}
	return strings.HasPrefix(n, "github.com/google/renameio.") || strings.HasPrefix(n, "(*github.com/google/renameio.")
}

func runC19(c *Ctx) {
	const rule = "writes"
	const rn = "github.com/google/renameio."
	for _, b := range c.backends(rule) {
		within := map[*ssa.Function]bool{}
		var ms []string
		for m := range b.m {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			f := b.m[m]
			if f == nil {
				c.unresolved(rule, b.name+"."+m)
				continue
			}
			name := fnName(f)
			c.ob(rule, name)
			r := c.runStore(rule, f, nil)
			for g := range r.in {
				within[g] = true
			}
			for _, cl := range r.calls {
				ev := cl.ev
				if !isEffect(ev.name) {
					continue
				}
				inst := name + " " + ev.name
				c.ob(rule, inst)
				bad := func(f string, a ...any) { c.violate(rule, inst, ev.pos, pathOf(ev, cl.st), f, a...) }
				switch {
				case ev.name == "os.MkdirAll" || ev.name == "os.Mkdir":
				case ev.name == "os.Remove" && m == "Del":
				case m != "Put":
					bad("%s modifies files (%s)", name, ev.name)
				case ev.name == rn+"WriteFile", ev.name == rn+"TempFile", strings.HasPrefix(ev.name, "(*"+rn+"PendingFile)."):
				case strings.HasPrefix(ev.name, "(*os.File).Write") && deep(ev.args[0], nil, func(t *Term) bool { return t.op == OpCall && t.s == rn+"TempFile" }):
				default:
					bad("%s writes files with %s, which does not replace the record atomically", name, ev.name)
				}
			}
			if m != "Put" {
				continue
			}
			for _, o := range r.outs {
				if o.panic || o.st.nilness(o.res(0)) == 0 {
					continue
				}
				n := 0
				for _, ev := range o.st.events {
					op, _, data := storeOp(ev)
					if pl, pd, why := pendingWrite(o.st, ev); pl != nil || why != "" {
						if why != "" {
							c.violate(rule, name, ev.pos, trailOf(o.st), "%s: %s", name, why)
							continue
						}
						op, data = "write", pd
					}
					if op != "write" {
						continue
					}
					n++
					c.ob(rule, name+" acknowledged")
					if !worked(o.st, ev) && !same(errOf(ev), o.res(0)) {
						c.violate(rule, name+" acknowledged", ev.pos, trailOf(o.st), "%s may acknowledge a write that failed", name)
					}
					if !same(data, r.args[2]) {
						c.violate(rule, name+" acknowledged", ev.pos, trailOf(o.st), "%s writes %v instead of the bytes given", name, data)
					}
				}
				if n != 1 {
					c.violate(rule, name+" acknowledged", f.Pos(), trailOf(o.st), "%s may acknowledge a write after %d writes", name, n)
				}
			}
		}
		// constructors and other functions of the package
		for _, f := range c.P.fns {
			if f.Pkg != b.pkg || f.Synthetic != "" || within[f] {
				continue
			}
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					k, ok := in.(ssa.CallInstruction)
					if !ok || !isEffect(calleeShort(k)) {
						continue
					}
					n := calleeShort(k)
					c.ob(rule, fnName(f)+" "+n)
					if n != "os.MkdirAll" && n != "os.Mkdir" {
						c.violate(rule, fnName(f)+" "+n, in.Pos(), nil, "%s modifies files outside the analysed operations (%s)", fnName(f), n)
					}
				}
			}
		}
	}
	c.need(rule, 15)
	// the embedded store
	const bc = "github.com/prologic/bitcask."
	reach := c.prod()
	opened := 0
	c.P.callsTo(calleeIn(bc+"Open"), func(in *ssa.Function, call ssa.CallInstruction, name string) {
		if !reach[in.Pkg.Pkg] {
			return
		}
		opened++
		inst := fnName(in)
		c.ob("sync", inst)
		root := in
		for root.Parent() != nil {
			root = root.Parent()
		}
		r := c.runStore("sync", root, nil)
		seen := false
		for _, cl := range r.calls {
			if cl.ev.name != bc+"Open" {
				continue
			}
			seen = true
			on, off, opaque := false, false, false
			opts := cl.ev.args[1]
			if opts.op != OpTuple {
				opaque = true
			}
			opts.contains(func(t *Term) bool {
				if t.op == OpCall && t.s == bc+"WithSync" {
					if t.args[0] == kTrue || cl.st.holds(t.args[0], kTrue) {
						on = true
					} else {
						off = true
					}
				}
				if t.op == OpCall && t.s == bc+"WithConfig" {
					off = true
				}
				return false
			})
			if !on || off || opaque && !on {
				c.violate("sync", inst, cl.ev.pos, pathOf(cl.ev, cl.st), "%s opens the embedded store without synchronous writes: %v", inst, opts)
			}
		}
		if !seen {
			c.violate("sync", inst, call.Pos(), nil, "%s: the options the embedded store is opened with are not known", inst)
		}
	})
	if opened == 0 {
		c.unresolved("sync", "the place the embedded store is opened")
	}
}

// eventConst: the value of one of the event types.
func (c *Ctx) eventConst(name string) (int64, bool) {
	p := c.P.byPkg[dbPkg]
	if p == nil {
		return 0, false
	}
	k, ok := p.Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	return k.Value.Int64(), true
}

func runC17(c *Ctx) {
	ids := map[string]int64{}
	for _, n := range []string{"EventEntityCreate", "EventEntityUpdate", "EventEntityDestroy", "EventGroupCreate", "EventGroupUpdate", "EventGroupDestroy"} {
		v, ok := c.eventConst(n)
		if !ok {
			c.unresolved("events", dbPkg+"."+n)
			return
		}
		for o, x := range ids {
			if x == v {
				c.violate("events", n, 0, nil, "the events %s and %s are the same", n, o)
			}
		}
		ids[n] = v
	}
	for _, b := range c.backends("announced") {
		c.announces(b, ids)
	}
	c.need("announced", 4)
	c.distribution(ids)
	c.consumers(ids)
}

// announces: storing and removing announce exactly what they did.
func (c *Ctx) announces(b *backend, ids map[string]int64) {
	const rule = "announced"
	set := b.m["SetEventFunc"]
	if set == nil {
		c.unresolved(rule, b.name+".SetEventFunc")
		return
	}
	// where the function to announce with is kept
	field := ""
	sr := c.runStore(rule, set, nil)
	for _, o := range sr.outs {
		for a, v := range o.st.mem {
			if same(v, sr.args[1]) && a.op == OpField && same(a.args[0], sr.args[0]) {
				field = a.s
			}
		}
		if field == "" {
			c.violate(rule, fnName(set), set.Pos(), trailOf(o.st), "%s does not keep the function given", fnName(set))
			return
		}
	}
	for _, m := range []string{"Put", "Del"} {
		f := b.m[m]
		if f == nil {
			c.unresolved(rule, b.name+"."+m)
			continue
		}
		name := fnName(f)
		r := c.runStore(rule, f, nil)
		ann := func(ev *Event) bool {
			return ev.kind == "call" && ev.fval != nil && fieldOf(ev.fval, field) != nil && same(fieldOf(ev.fval, field), r.args[0])
		}
		known := func(st *State, p string) int { // key has the prefix
			return st.lookupBool(func(t *Term) bool {
				return t.op == OpPure && t.s == "strings.HasPrefix" && same(t.args[0], r.args[1]) && (constStr(t.args[1]) == p || constStr(t.args[1]) == strings.TrimSuffix(p, "/"))
			})
		}
		for _, cl := range r.calls {
			ev, st := cl.ev, cl.st
			if !ann(ev) {
				continue
			}
			c.ob(rule, name)
			bad := func(f string, a ...any) { c.violate(rule, name, ev.pos, pathOf(ev, st), f, a...) }
			done := false
			for _, x := range st.events {
				op, _, _ := storeOp(x)
				if pl, _, _ := pendingWrite(st, x); pl != nil {
					op = "write"
				}
				if (op == "write" && m == "Put" || op == "remove" && m == "Del") && worked(st, x) {
					done = true
				}
			}
			if !done {
				bad("%s announces a change before it is known to have happened", name)
			}
			typ, pk := fval(ev.args[0], "Type", nil), fval(ev.args[0], "PK", nil)
			kind := ""
			switch {
			case known(st, "/entities/") == 1:
				kind = "Entity"
			case known(st, "/groups/") == 1:
				kind = "Group"
			default:
				bad("%s announces a change of a record of unknown kind", name)
				continue
			}
			act := []string{"Update", "Create"}
			if m == "Del" {
				act = []string{"Destroy"}
			}
			n, ok := strip(st.resolve(typ)).intv()
			good := false
			for _, a := range act {
				good = good || ok && n == ids["Event"+kind+a]
			}
			if !good {
				bad("%s announces event %v for a record of kind %s", name, typ, kind)
			}
			if k := callOf(pk, -1, "path.Base", "path/filepath.Base"); k != nil && same(k.args[0], r.args[1]) {
			} else if k := callOf(pk, -1, "strings.TrimPrefix"); k != nil && same(k.args[0], r.args[1]) && strings.HasSuffix(constStr(k.args[1]), "/") {
			} else {
				bad("%s announces %v instead of the name in the key", name, pk)
			}
		}
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			c.ob(rule, name+" outcome")
			n := 0
			for _, ev := range o.st.events {
				if ann(ev) {
					n++
				}
			}
			failed := o.st.nilness(o.res(0)) == 0
			switch {
			case failed && n > 0:
				c.violate(rule, name, f.Pos(), trailOf(o.st), "%s announces a change and reports failure", name)
			case !failed && n == 0 && !(known(o.st, "/entities/") == 0 && known(o.st, "/groups/") == 0):
				c.violate(rule, name, f.Pos(), trailOf(o.st), "%s may succeed without announcing the change", name)
			case !failed && n > 1:
				c.violate(rule, name, f.Pos(), trailOf(o.st), "%s announces a change %d times", name, n)
			}
		}
	}
	// the function is set nowhere else
	c.ob(rule, b.name+" "+field)
	for _, f := range c.P.fns {
		if f.Pkg != b.pkg || sr.in[f] {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if p, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(types.NewPointer(p.Elem()), b.typ) {
						if st := p.Elem().Underlying().(*types.Struct); st.Field(fa.Field).Name() == field {
							c.violate(rule, b.name+" "+field, in.Pos(), nil, "%s changes where changes are announced", fnName(f))
						}
					}
				}
			}
		}
	}
}

// lookupBool: the known truth (1/0) of a term accepted by f, or -1.
func (s *State) lookupBool(f func(t *Term) bool) int {
	r := -1
	s.lits(func(t, v *Term, eq bool) bool {
		t = strip(t)
		if !f(t) {
			return false
		}
		if eq == (v == kTrue) {
			r = 1
		} else {
			r = 0
		}
		return true
	})
	return r
}

// boundTo: f is the method value recv.name.
func boundTo(f *Term, name string, recv func(t *Term) bool) bool {
	f = unwrap(f)
	for f.op == OpConv {
		f = f.args[0]
	}
	fn, _ := f.fn.(*ssa.Function)
	if fn == nil || fn.Object() == nil || fn.Object().Name() != name && !strings.HasSuffix(fn.Name(), name+"$bound") {
		return false
	}
	return len(f.args) == 1 && recv(f.args[0])
}

// isEntry: t is what a map holds for the key.
func isEntry(t *Term, isMap func(t *Term) bool, key *Term) bool {
	t = strip(t)
	return t.op == OpDeref && t.args[0].op == OpMapElem && isMap(t.args[0].args[0]) && same(t.args[0].args[1], key)
}

func (c *Ctx) distribution(ids map[string]int64) {
	const rule = "distribution"
	fire, reg, all, mk := c.P.method(dbPkg, "DB", "FireEvent"), c.P.method(dbPkg, "DB", "RegisterCallback"), c.P.method(dbPkg, "DB", "EventUpdateAll"), c.P.fn(dbPkg+".New")
	if fire == nil || reg == nil || all == nil || mk == nil {
		c.unresolved(rule, "FireEvent, RegisterCallback, EventUpdateAll or New")
		return
	}
	// the listeners are kept in a map
	rr := c.runStore(rule, reg, nil)
	field := ""
	for _, o := range rr.outs {
		if o.panic {
			continue
		}
		c.ob(rule, "RegisterCallback")
		kept := false
		for _, ev := range o.st.events {
			if ev.kind == "mapdel" {
				c.violate(rule, "RegisterCallback", ev.pos, pathOf(ev, o.st), "registering a listener removes %v", ev.args[1])
			}
			if ev.kind != "mapset" {
				continue
			}
			if fn := strip(ev.args[0]).lastField(); fn != "" && same(ev.args[1], rr.args[1]) && same(ev.args[2], rr.args[2]) {
				kept, field = true, fn
			}
		}
		if kept {
			continue
		}
		// not kept only if the name is taken
		if o.st.lookupBool(func(t *Term) bool {
			return t.op == OpPure && t.s == "has" && same(t.args[1], rr.args[1])
		}) != 1 {
			c.violate(rule, "RegisterCallback", reg.Pos(), trailOf(o.st), "a listener is not kept although its name is not taken")
		}
	}
	if field == "" {
		c.violate(rule, "RegisterCallback", reg.Pos(), nil, "listeners are not kept under their name")
		return
	}
	// all listeners are called
	var its []*iteration
	fr := c.runStore(rule, fire, func(e *Engine) { e.onBack = func(it *iteration) { its = append(its, it) } })
	isMap := func(t *Term) bool { b := fieldOf(t, field); return b != nil && same(b, fr.args[0]) }
	loops := 0
	for _, it := range its {
		if it.rng == nil || !isMap(it.rng) {
			continue
		}
		loops++
		c.ob(rule, "FireEvent iteration")
		n := 0
		for _, ev := range it.st.events {
			if ev.kind == "call" && ev.fval != nil && ev.res.op != OpSome && (ev.fval == it.rval || it.rkey != nil && isEntry(ev.fval, isMap, it.rkey)) {
				n++
				if !same(ev.args[0], fr.args[1]) {
					c.violate(rule, "FireEvent iteration", ev.pos, pathOf(ev, it.st), "a listener is called with %v instead of the event", ev.args[0])
				}
			}
			if ev.kind == "mapdel" || ev.kind == "mapset" {
				c.violate(rule, "FireEvent iteration", ev.pos, pathOf(ev, it.st), "distributing an event changes the listeners")
			}
		}
		if n != 1 {
			c.violate(rule, "FireEvent iteration", fire.Pos(), trailOf(it.st), "a listener is called %d times for an event", n)
		}
	}
	if loops == 0 {
		c.violate(rule, "FireEvent", fire.Pos(), nil, "events are not distributed to all listeners kept")
	}
	for _, o := range fr.outs {
		c.ob(rule, "FireEvent")
		end := false
		for t, f := range o.st.facts {
			if f.eq == kFalse && t.op == OpExt && t.n == 0 && t.args[0].op == OpNext {
				if x := t.args[0].args[0]; x.op == OpPure && x.s == "range" && isMap(x.args[0]) {
					end = true
				}
			}
		}
		if !end && !o.panic {
			c.violate(rule, "FireEvent", fire.Pos(), trailOf(o.st), "distributing an event ends before all listeners were called")
		}
	}
	// the loop over what is stored
	its = nil
	fireName := fnName(fire)
	ar := c.runStore(rule, all, func(e *Engine) {
		e.boundary = func(n string) bool { return n == fireName || strings.Contains(n, ".Discover") }
		e.onBack = func(it *iteration) { its = append(its, it) }
	})
	kinds := map[string]bool{}
	for _, it := range its {
		if it.base == nil {
			continue
		}
		src := callOf(it.base, 0, "(*"+dbPkg+".DB).DiscoverEntityIDs", "(*"+dbPkg+".DB).DiscoverGroupNames")
		if src == nil {
			continue
		}
		kind := "Entity"
		if strings.HasSuffix(src.s, "GroupNames") {
			kind = "Group"
		}
		kinds[kind] = true
		c.ob(rule, "EventUpdateAll "+kind)
		n := 0
		for _, ev := range it.st.events {
			if ev.name != fireName || !hasNest(ev.res.nestOf(), it.key) && !hasNest(ev.args[1].vol, it.key) {
				continue
			}
			if ev.res != nil && ev.res.op == OpSome {
				continue
			}
			typ, ok := fval(ev.args[1], "Type", nil).intv()
			pk := fval(ev.args[1], "PK", nil)
			b := callOf(pk, -1, "path.Base", "path/filepath.Base")
			if b == nil || !same(b.args[0], it.elem) {
				continue
			}
			if !ok || typ != ids["Event"+kind+"Update"] && typ != ids["Event"+kind+"Create"] {
				c.violate(rule, "EventUpdateAll "+kind, ev.pos, pathOf(ev, it.st), "a stored record of kind %s is announced as %v", kind, ev.args[1])
			}
			n++
		}
		if n != 1 {
			c.violate(rule, "EventUpdateAll "+kind, all.Pos(), trailOf(it.st), "a stored record of kind %s is announced %d times", kind, n)
		}
	}
	for _, k := range []string{"Entity", "Group"} {
		if !kinds[k] {
			c.violate(rule, "EventUpdateAll "+k, all.Pos(), nil, "the stored records of kind %s are not announced at startup", k)
		}
	}
	for _, o := range ar.outs {
		if o.panic || o.st.nilness(o.res(0)) == 0 {
			continue
		}
		c.ob(rule, "EventUpdateAll")
		for _, k := range []string{"EntityIDs", "GroupNames"} {
			end := false
			for t, f := range o.st.facts {
				if f.eq == kFalse && t.op == OpBin && t.s == "<" && t.args[1].op == OpPure && t.args[1].s == "len" && callOf(t.args[1].args[0], 0, "(*"+dbPkg+".DB).Discover"+k) != nil {
					end = true
				}
			}
			if !end {
				c.violate(rule, "EventUpdateAll", all.Pos(), trailOf(o.st), "the announcement at startup may end before all of %s were announced", k)
			}
		}
	}
	// the database connects its store to the distribution, and the index
	nr := c.runStore(rule, mk, func(e *Engine) {
		e.boundary = func(n string) bool { return n == fnName(reg) || n == dbPkg+".NewKV" }
	})
	for _, o := range nr.outs {
		if o.panic || o.st.nilness(o.res(1)) == 0 {
			continue
		}
		c.ob(rule, "New")
		v := unwrap(o.res(0))
		isDB := func(t *Term) bool { return same(t, v) }
		bad := func(f string, a ...any) { c.violate(rule, "New", mk.Pos(), trailOf(o.st), f, a...) }
		s := o.st.lastEvent(kvIface + "SetEventFunc")
		if s == nil || !boundTo(s.args[1], "FireEvent", isDB) {
			bad("a store is used whose changes are not distributed to the listeners")
		} else if kv := nr.e.load(o.st, mkField(v, "kv", nil), nil); kv != nil && c.kvField() == "kv" && !same(kv, s.args[0]) {
			bad("the changes distributed are those of another store")
		}
		idx := false
		for _, ev := range o.st.eventsNamed(fnName(reg)) {
			if same(ev.args[0], v) && boundTo(ev.args[2], "IndexCallback", func(t *Term) bool { return true }) {
				idx = true
			}
		}
		if !idx {
			bad("the search index does not listen to changes")
		}
	}
	c.need(rule, 7)
	// listeners have distinct names
	seen := map[string]string{}
	for _, f := range c.P.fns {
		if f.Synthetic != "" || f.Pkg == nil {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				k, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeShort(k)
				if n != fnName(reg) && n != dbIface+"RegisterCallback" {
					continue
				}
				a := k.Common().Args
				x, ok := a[len(a)-2].(*ssa.Const)
				c.ob("listeners", fnName(f))
				if !ok {
					c.violate("listeners", fnName(f), in.Pos(), nil, "%s registers a listener under a name that is not constant", fnName(f))
					continue
				}
				if o, dup := seen[x.Value.String()]; dup {
					c.violate("listeners", fnName(f), in.Pos(), nil, "%s and %s register listeners under the same name %s", o, fnName(f), x.Value)
				}
				seen[x.Value.String()] = fnName(f)
			}
		}
	}
	c.need("listeners", 2)
}

func (t *Term) nestOf() []nestKey {
	if t == nil {
		return nil
	}
	return t.vol
}

// kvField: the field of the database that holds its store.
func (c *Ctx) kvField() string {
	T, kv := c.P.namedType(dbPkg, "DB"), c.P.namedType(dbPkg, "KVStore")
	if T == nil || kv == nil {
		return ""
	}
	st := T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), kv) {
			return st.Field(i).Name()
		}
	}
	return ""
}

const resolverPkg = "internal/mresolver"

func (c *Ctx) consumers(ids map[string]int64) {
	const rule = "consumers"
	const mr = "(*" + resolverPkg + ".MResolver)."
	for _, n := range []string{"SyncDirectGroups", "RemoveEntity", "SyncGroup", "RemoveGroup"} {
		if c.P.fn(mr+n) == nil {
			c.unresolved(rule, mr+n)
			return
		}
	}
	// the listeners of the membership resolver
	mk := c.P.fn(treePkg + ".New")
	if mk == nil {
		c.unresolved(rule, treePkg+".New")
		return
	}
	listeners := map[*ssa.Function]int{}
	nout := 0
	r := c.runStore(rule, mk, func(e *Engine) {
		e.boundary = func(n string) bool {
			return strings.Contains(n, ").Initialize") || strings.Contains(n, ").CheckRequired") || strings.HasPrefix(n, resolverPkg) || strings.HasPrefix(n, mr)
		}
	})
	for _, o := range r.outs {
		if o.panic || o.st.nilness(o.res(1)) == 0 {
			continue
		}
		nout++
		v := unwrap(o.res(0))
		for _, ev := range o.st.eventsNamed(dbIface + "RegisterCallback") {
			f := unwrap(ev.args[2])
			for f.op == OpConv {
				f = f.args[0]
			}
			fn, _ := f.fn.(*ssa.Function)
			if fn == nil || !same(ev.args[0], r.args[0]) || len(f.args) != 1 || !same(f.args[0], v) {
				continue
			}
			m, _ := fn.Object().(*types.Func)
			if t := c.P.prog.FuncValue(m); t != nil {
				listeners[t]++
			}
		}
	}
	handled := map[string]bool{}
	why := map[string]string{}
	for f, n := range listeners {
		if n != nout {
			continue // not on every path
		}
		for ev, typ := range ids {
			if w := c.handles(rule, f, ev, typ); w == "" {
				handled[ev] = true
			} else if why[ev] == "" || w != "nothing is done" {
				why[ev] = w + " in " + fnName(f)
			}
		}
	}
	for ev := range ids {
		if strings.HasSuffix(ev, "Create") {
			continue // not announced by any store
		}
		c.ob(rule, "resolver "+ev)
		if !handled[ev] {
			c.violate(rule, "resolver "+ev, mk.Pos(), nil, "the membership resolver does not follow %s: %s", ev, why[ev])
		}
	}
	// the search index
	idx := c.P.method(dbPkg, "Index", "IndexCallback")
	if idx == nil {
		c.unresolved(rule, "IndexCallback")
		return
	}
	for ev, typ := range ids {
		if strings.HasSuffix(ev, "Create") {
			continue
		}
		c.ob(rule, "index "+ev)
		c.indexes(rule, idx, ev, typ)
	}
	c.need(rule, 8)
}

// eventArgs: the arguments of a listener for an event of a given type.
func eventArgs(f *ssa.Function, typ int64) (args []*Term, pk *Term) {
	args = entryArgs(f)
	T := f.Params[1].Type()
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return args, nil
	}
	var l []*Term
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Type" {
			l = append(l, withType(kInt(typ), st.Field(i).Type()))
			continue
		}
		x := mk(Term{op: OpParam, s: "e." + st.Field(i).Name(), typ: st.Field(i).Type()})
		if st.Field(i).Name() == "PK" {
			pk = x
		}
		l = append(l, x)
	}
	args[1] = mk(Term{op: OpStruct, args: l, typ: T})
	return args, pk
}

// handles: the listener keeps the resolver in step with an event.
func (c *Ctx) handles(rule string, f *ssa.Function, event string, typ int64) string {
	const mr = "(*" + resolverPkg + ".MResolver)."
	args, pk := eventArgs(f, typ)
	if pk == nil {
		return "the event has no name"
	}
	kind := "Entity"
	if strings.HasPrefix(event, "EventGroup") {
		kind = "Group"
	}
	var its []*iteration
	r := c.runStoreArgs(rule, f, args, func(e *Engine) {
		e.boundary = func(n string) bool { return strings.HasPrefix(n, mr) }
		e.onBack = func(it *iteration) { its = append(its, it) }
	})
	for _, o := range r.outs {
		if o.panic {
			return "it may panic"
		}
		st := o.st
		if strings.HasSuffix(event, "Destroy") {
			ev := st.lastEvent(mr + "Remove" + kind)
			if ev == nil {
				return "nothing is done"
			}
			if !same(ev.args[1], pk) {
				return "another record is dropped"
			}
			continue
		}
		ld := st.lastEvent(dbIface + "Load" + kind)
		if ld == nil {
			return "nothing is done"
		}
		if !same(ld.args[1], pk) {
			return "another record is loaded"
		}
		if st.nilness(errOf(ld)) == 0 {
			continue
		}
		rec := ext(ld.res, 0)
		is := func(t *Term, path ...string) bool {
			for i := len(path) - 1; i >= 0; i-- {
				t = protoField(t, path[i])
				if t == nil {
					return false
				}
			}
			return same(t, rec)
		}
		if kind == "Entity" {
			ev := st.lastEvent(mr + "SyncDirectGroups")
			if ev == nil {
				return "the memberships are not updated"
			}
			if !is(ev.args[1], "ID") && !same(ev.args[1], pk) && constStr(ev.args[1]) != "" {
				return "the memberships of another entity are updated"
			}
			if !is(ev.args[2], "Meta", "Groups") && !ev.args[2].isNil() {
				return "the memberships are updated with something other than the direct groups of the entity"
			}
			if ev.args[2].isNil() {
				if m := r.e.load(st, mkField(rec, "Meta", nil), nil); m == nil || st.nilness(m) != 1 {
					return "the memberships are cleared"
				}
			}
			continue
		}
		ev := st.lastEvent(mr + "SyncGroup")
		if ev == nil {
			return "the rules of the group are not updated"
		}
		if !is(ev.args[1], "Name") && !same(ev.args[1], pk) && ev.args[1] != kString("") {
			return "the rules of another group are updated"
		}
		if w := c.rulesSplit(r, its, st, rec, ev.args[2], "INCLUDE"); w != "" {
			return w
		}
		if w := c.rulesSplit(r, its, st, rec, ev.args[3], "EXCLUDE"); w != "" {
			return w
		}
	}
	return ""
}

// ruleParts: t is the part of rule x before (0) or after (1) the colon.
func ruleParts(t, x *Term) int {
	t = strip(t)
	if t.op != OpDeref || t.args[0].op != OpElem {
		return -1
	}
	s := callOf(t.args[0].args[0], -1, "strings.SplitN")
	if s == nil || !same(s.args[0], x) || constStr(s.args[1]) != ":" {
		return -1
	}
	if n, ok := s.args[2].intv(); !ok || n != 2 {
		return -1
	}
	if n, ok := t.args[0].args[1].intv(); ok && (n == 0 || n == 1) {
		return int(n)
	}
	return -1
}

// rulesSplit: the list holds the targets of the rules of one mode.
func (c *Ctx) rulesSplit(r *svcRun, its []*iteration, st *State, rec, list *Term, mode string) string {
	// the list kept for the mode in a map
	byMode := false
	if l := strip(list); l.op == OpDeref && l.args[0].op == OpMapElem {
		byMode = true
		if constStr(l.args[0].args[1]) != mode {
			return "the list of " + mode + " rules is that of " + l.args[0].args[1].String()
		}
	}
	n := 0
	for _, it := range its {
		if it.base == nil || protoField(it.base, "Expansions") == nil || !same(protoField(it.base, "Expansions"), rec) {
			continue
		}
		n++
		kept := false
		for a, v := range it.st.mem {
			if a.op != OpMapElem || v.op != OpAppend || ruleParts(a.args[1], it.elem) != 0 {
				continue
			}
			for _, x := range v.args[1:] {
				if ruleParts(x, it.elem) == 1 && hasNest(x.vol, it.key) {
					if p := strip(v.args[0]); p.op != OpDeref || !same(p.args[0], strip(a)) {
						return "a rule replaces the rules before it"
					}
					kept = true
				}
			}
		}
		if byMode {
			if !kept {
				return "a rule is left out"
			}
			continue
		}
		keeps := func(v *Term) bool {
			if v.op != OpAppend {
				return false
			}
			for _, x := range v.args[1:] {
				if hasNest(x.vol, it.key) && (ruleParts(x, it.elem) == 1 || callOf(x, -1, "strings.TrimPrefix") != nil && same(callOf(x, -1, "strings.TrimPrefix").args[0], it.elem)) {
					return true
				}
			}
			return false
		}
		for _, v := range it.vals {
			kept = kept || keeps(v)
		}
		for _, v := range it.st.mem {
			kept = kept || keeps(v)
		}
		if kept {
			continue
		}
		other := it.st.lits(func(t, v *Term, eq bool) bool {
			if ruleParts(t, it.elem) == 0 && !eq == (constStr(v) == mode) {
				return true
			}
			p := callOf(t, -1, "strings.HasPrefix")
			no := eq && v == kFalse || !eq && v == kTrue
			return p != nil && no && same(p.args[0], it.elem) && constStr(p.args[1]) == mode+":"
		})
		if !other {
			return "a rule may be left out"
		}
	}
	if n == 0 && !list.isNil() {
		return "no loop over the rules of the group was found"
	}
	return ""
}

// indexes: the search index follows an event.
func (c *Ctx) indexes(rule string, f *ssa.Function, event string, typ int64) {
	args, pk := eventArgs(f, typ)
	if pk == nil {
		c.unresolved(rule, "the name in an event")
		return
	}
	kind, idf := "Entity", "ID"
	if strings.HasPrefix(event, "EventGroup") {
		kind, idf = "Group", "Name"
	}
	ix := c.indexFields(rule)
	if ix == nil {
		return
	}
	r := c.runStoreArgs(rule, f, args, nil)
	is := func(t *Term, field string) bool {
		b := fieldOf(t, field)
		return field != "" && b != nil && same(b, args[0])
	}
	for _, o := range r.outs {
		if o.panic {
			continue
		}
		st := o.st
		// not set up: excluded by the constructor of the database
		unset := st.lits(func(t, v *Term, eq bool) bool {
			return eq && v.isNil() && (is(t, ix.loader["Entity"]) || is(t, ix.loader["Group"]))
		})
		if unset {
			continue
		}
		bad := func(f string, a ...any) {
			c.violate(rule, "index "+event, r.fn.Pos(), trailOf(st), f, a...)
		}
		if strings.HasSuffix(event, "Destroy") {
			d := st.lastEvent("(github.com/blevesearch/bleve.Index).Delete")
			if d == nil || !is(d.args[0], ix.index[kind]) || !same(d.args[1], pk) {
				bad("a removed record of kind %s stays in the search index", kind)
			}
			continue
		}
		var ld *Event
		for _, ev := range st.events {
			if ev.fval != nil && is(ev.fval, ix.loader[kind]) {
				ld = ev
			}
		}
		if ld == nil || !same(ld.args[0], pk) {
			bad("a changed record of kind %s is not loaded for the search index", kind)
			continue
		}
		if !st.holds(errOf(ld), kNil) {
			continue
		}
		x := st.lastEvent("(github.com/blevesearch/bleve.Index).Index")
		if x == nil {
			bad("a changed record of kind %s is not indexed", kind)
			continue
		}
		rec := ext(ld.res, 0)
		id := protoField(x.args[1], idf)
		if !is(x.args[0], ix.index[kind]) || !same(unwrap(x.args[2]), rec) || !same(x.args[1], pk) && (id == nil || !same(id, rec)) && constStr(x.args[1]) != "" {
			bad("a changed record of kind %s is indexed as %v in %v", kind, x.args[1], x.args[0])
		}
	}
}

type indexInfo struct{ index, loader map[string]string }

// indexFields: which index and which loader is for which kind, from the
// constructor of the database.
func (c *Ctx) indexFields(rule string) *indexInfo {
	mk := c.P.fn(dbPkg + ".New")
	T := c.P.namedType(dbPkg, "Index")
	if mk == nil || T == nil {
		c.unresolved(rule, dbPkg+".New or Index")
		return nil
	}
	out := &indexInfo{map[string]string{}, map[string]string{}}
	st := T.Underlying().(*types.Struct)
	// the index a search for the kind uses
	for _, k := range []string{"Entity", "Group"} {
		pl := map[string]string{"Entity": "SearchEntities", "Group": "SearchGroups"}[k]
		f := c.P.method(dbPkg, "Index", pl)
		if f == nil {
			c.unresolved(rule, pl)
			return nil
		}
		r := c.runStore(rule, f, nil)
		for _, cl := range r.calls {
			if !strings.HasSuffix(cl.ev.name, "bleve.Index).Search") && !strings.HasSuffix(cl.ev.name, "bleve.Index).SearchInContext") {
				continue
			}
			b := fieldOf(cl.ev.args[0], strip(cl.ev.args[0]).lastField())
			if b == nil || !same(b, r.args[0]) {
				c.violate(rule, pl, cl.ev.pos, pathOf(cl.ev, cl.st), "%s searches %v", pl, cl.ev.args[0])
				continue
			}
			n := strip(cl.ev.args[0]).lastField()
			if o := out.index[k]; o != "" && o != n {
				c.violate(rule, pl, cl.ev.pos, pathOf(cl.ev, cl.st), "%s searches several indexes", pl)
			}
			out.index[k] = n
		}
	}
	if out.index["Entity"] == "" || out.index["Group"] == "" || out.index["Entity"] == out.index["Group"] {
		c.violate(rule, "indexes", mk.Pos(), nil, "entities and groups are not searched in an index of their own: %v", out.index)
		return nil
	}
	nr := c.runStore(rule, mk, func(e *Engine) {
		e.boundary = func(n string) bool { return n == dbPkg+".NewKV" || n == "(*"+dbPkg+".DB).RegisterCallback" }
	})
	for _, o := range nr.outs {
		if o.panic || o.st.nilness(o.res(1)) == 0 {
			continue
		}
		v := unwrap(o.res(0))
		idx := nr.e.load(o.st, mkField(v, "Index", nil), types.NewPointer(T))
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Signature); !ok {
				continue
			}
			l := nr.e.load(o.st, mkField(idx, st.Field(i).Name(), nil), st.Field(i).Type())
			for _, k := range []string{"Entity", "Group"} {
				if boundTo(l, "Load"+k, func(t *Term) bool { return same(t, v) }) {
					out.loader[k] = st.Field(i).Name()
				}
			}
		}
		for _, k := range []string{"Entity", "Group"} {
			if out.loader[k] == "" {
				c.violate(rule, "indexes", mk.Pos(), trailOf(o.st), "the search index cannot load records of kind %s from the database", k)
				return nil
			}
		}
	}
	return out
}

// jsonName: the name a field is encoded under.
func jsonName(T types.Type, field string) string {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			n := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
			if n == "" {
				return field
			}
			return n
		}
	}
	return ""
}

func runC36(c *Ctx) {
	const rule = "mapping"
	const bl = "github.com/blevesearch/bleve"
	ix := c.indexFields("indexes")
	if ix == nil {
		return
	}
	mk := c.P.fn(dbPkg + ".New")
	load := c.P.method(dbPkg, "DB", "LoadEntity")
	if load == nil {
		c.unresolved(rule, "LoadEntity")
		return
	}
	ent := load.Signature.Results().At(0).Type().(*types.Pointer).Elem()
	secret := jsonName(ent, "Secret")
	if secret == "" {
		c.unresolved(rule, "the encoding of the secret")
		return
	}
	T := c.P.namedType(dbPkg, "Index")
	r := c.runStore(rule, mk, func(e *Engine) {
		e.boundary = func(n string) bool { return n == dbPkg+".NewKV" || n == "(*"+dbPkg+".DB).RegisterCallback" }
		e.noKill = func(n string) bool { return isPrimitive(n) || strings.Contains(n, bl) }
	})
	for _, o := range r.outs {
		if o.panic || o.st.nilness(o.res(1)) == 0 {
			continue
		}
		c.ob(rule, "entity index")
		st := o.st
		bad := func(f string, a ...any) { c.violate(rule, "entity index", mk.Pos(), trailOf(st), f, a...) }
		idx := r.e.load(st, mkField(unwrap(o.res(0)), "Index", nil), types.NewPointer(T))
		v := r.e.load(st, mkField(idx, ix.index["Entity"], nil), nil)
		if v == nil {
			bad("the index of entities is not set up")
			continue
		}
		if g := r.e.load(st, mkField(idx, ix.index["Group"], nil), nil); g == nil || same(g, v) {
			bad("entities and groups share an index, or the index of groups is not set up (%v)", g)
		}
		var m *Term
		if n := callOf(v, 0, bl+".NewMemOnly"); n != nil {
			m = unwrap(n.args[0])
		} else if n := callOf(v, 0, bl+".New", bl+".NewUsing"); n != nil {
			m = unwrap(n.args[1])
		}
		if m == nil {
			bad("the index of entities is %v, whose mapping is not known", v)
			continue
		}
		var doc *Term
		for _, ev := range st.events {
			if strings.HasSuffix(ev.name, "IndexMappingImpl).AddDocumentMapping") && same(ev.args[0], m) && constStr(ev.args[1]) == "_default" {
				doc = ev.args[2]
			}
		}
		if doc == nil {
			if d := r.e.load(st, mkField(m, "DefaultMapping", nil), nil); d != nil && (d.op == OpCall || d.op == OpAlloc) {
				doc = d
			}
		}
		if doc == nil {
			bad("no mapping is set for the documents of the entity index")
			continue
		}
		var sub *Event
		for _, ev := range st.events {
			if (strings.HasSuffix(ev.name, "DocumentMapping).AddSubDocumentMapping") || strings.HasSuffix(ev.name, "DocumentMapping).AddFieldMappingsAt")) && same(ev.args[0], doc) && constStr(ev.args[1]) == secret {
				sub = ev
			}
		}
		if sub == nil || !strings.HasSuffix(sub.name, "AddSubDocumentMapping") || callOf(sub.args[2], -1, bl+".NewDocumentDisabledMapping") == nil {
			bad("the secret of an entity (%q) is not excluded from the search index", secret)
			continue
		}
		// the disabled mapping is not changed afterwards
		for _, ev := range st.events {
			if len(ev.args) > 0 && ev != sub && same(ev.args[0], sub.args[2]) && strings.Contains(ev.name, "DocumentMapping).Add") {
				bad("the mapping of the secret is changed (%s)", ev.name)
			}
		}
		for a, v := range st.mem {
			if same(rootOf(a), sub.args[2]) && v != kFalse {
				bad("the mapping of the secret is changed (%v)", a)
			}
		}
	}
	c.need(rule, 1)
	// feeding
	fed := 0
	reach := c.prod()
	for _, f := range c.P.fns {
		if f.Pkg == nil || !reach[f.Pkg.Pkg] || f.Synthetic != "" {
			continue
		}
		var sites int
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				k, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeShort(k)
				switch {
				case n == "("+bl+".Index).Index":
					sites++
				case n == "("+bl+".Index).Batch" || n == "("+bl+".Index).Advanced" || n == "("+bl+".Index).NewBatch" || n == "("+bl+".Index).SetInternal" || strings.HasPrefix(n, "(*"+bl+".Batch)."):
					c.violate("feeding", fnName(f), in.Pos(), nil, "%s feeds an index with %s", fnName(f), n)
				}
			}
		}
		if sites == 0 {
			continue
		}
		r := c.runStore("feeding", f, nil)
		for _, cl := range r.calls {
			if cl.ev.name != "("+bl+".Index).Index" {
				continue
			}
			fed++
			c.ob("feeding", fnName(f))
			kind, idf := "", ""
			data := unwrap(cl.ev.args[2])
			if p, ok := data.typ.(*types.Pointer); ok {
				switch {
				case strings.HasSuffix(p.Elem().String(), "protocol.Entity"):
					kind, idf = "Entity", "ID"
				case strings.HasSuffix(p.Elem().String(), "protocol.Group"):
					kind, idf = "Group", "Name"
				}
			}
			if kind == "" {
				c.violate("feeding", fnName(f), cl.ev.pos, pathOf(cl.ev, cl.st), "%s indexes %v", fnName(f), data)
				continue
			}
			if strip(cl.ev.args[0]).lastField() != ix.index[kind] {
				c.violate("feeding", fnName(f), cl.ev.pos, pathOf(cl.ev, cl.st), "%s indexes a record of kind %s in %v", fnName(f), kind, cl.ev.args[0])
			}
			id := protoField(cl.ev.args[1], idf)
			if v, isc := cl.ev.args[1].str(); (id == nil || !same(id, data)) && !(isc && v == "") {
				c.violate("feeding", fnName(f), cl.ev.pos, pathOf(cl.ev, cl.st), "%s indexes a record under the name %v", fnName(f), cl.ev.args[1])
			}
		}
	}
	if fed == 0 {
		c.violate("feeding", "none", 0, nil, "nothing is ever indexed")
	}
	// searching
	for _, k := range []string{"Entity", "Group"} {
		pl := map[string]string{"Entity": "SearchEntities", "Group": "SearchGroups"}[k]
		f := c.P.method(dbPkg, "Index", pl)
		g := c.P.method(dbPkg, "DB", pl)
		if f == nil || g == nil {
			c.unresolved("searching", pl)
			continue
		}
		r := c.runStore("searching", f, nil)
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			c.ob("searching", fnName(f))
			v := o.res(0)
			for v.op == OpAppend {
				for _, x := range v.args[1:] {
					if strip(x).lastField() != "ID" || len(x.vol)+len(x.some) == 0 || !deep(x, nil, func(t *Term) bool { return strings.HasSuffix(t.s, "bleve.Index).Search") }) {
						c.violate("searching", fnName(f), f.Pos(), trailOf(o.st), "%s returns %v, which is not the name of a match", fnName(f), x)
					}
				}
				v = v.args[0]
			}
			if e := o.res(1); o.st.nilness(e) != 0 && o.st.lastEventPrefix("("+bl+".Index).Search") == nil {
				c.violate("searching", fnName(f), f.Pos(), trailOf(o.st), "%s may succeed without searching", fnName(f))
			}
		}
		var its []*iteration
		in, ld := fnName(f), "(*"+dbPkg+".DB).Load"+k
		r = c.runStore("searching", g, func(e *Engine) {
			e.boundary = func(n string) bool { return n == in || n == ld }
			e.onBack = func(it *iteration) { its = append(its, it) }
		})
		n := 0
		for _, it := range its {
			if it.base == nil || callOf(it.base, 0, in) == nil {
				continue
			}
			n++
			c.ob("searching", fnName(g))
			ok := false
			for _, ev := range it.st.events {
				if ev.name == ld && ev.res.op != OpSome && same(ev.args[1], it.elem) && it.st.nilness(errOf(ev)) == 1 && it.puts(ext(ev.res, 0)) {
					ok = true
				}
			}
			if !ok {
				c.violate("searching", fnName(g), g.Pos(), trailOf(it.st), "%s leaves out a match, or returns something other than the stored record", fnName(g))
			}
		}
		if n == 0 {
			c.violate("searching", fnName(g), g.Pos(), nil, "%s does not load the matches", fnName(g))
		}
		for _, cl := range r.calls {
			if cl.ev.name == in && !same(cl.ev.args[1], r.args[1]) {
				c.violate("searching", fnName(g), cl.ev.pos, pathOf(cl.ev, cl.st), "%s searches for something other than asked for", fnName(g))
			}
		}
	}
	c.need("searching", 4)
}
