package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	dbPkg   = "internal/db"
	kvIface = "(internal/db.KVStore)."
	dbIface = "(" + treePkg + ".DB)."
)

func init() {
	register(&Check{
		id:        "C18",
		technique: "error-flow analysis over SSA: compositional path-sensitive dataflow from every fallible storage call to the results of the functions that make it",
		rule:      "The functions that can fail because of storage are computed as a fixpoint over the call graph from the storage primitives (file, bitcask, encoding, KVStore and DB operations). In each, on every path that may report success and at the end of every loop iteration that continues, the error of every such call is known nil or known to be the sentinel for a missing record (or is carried on); a result of a failed call is never stored, passed on or returned as valid; a missing record is reported only where the underlying call reported one.",
		run:       runC18,
	})
}

// prod: the packages linked into one of the commands.
func (c *Ctx) prod() map[*types.Package]bool {
	reach := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if reach[p] {
			return
		}
		reach[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	for n, sp := range c.P.byPkg {
		if strings.HasPrefix(n, "cmd/") {
			visit(sp.Pkg)
		}
	}
	return reach
}

type backend struct {
	name string // of the type, for reports
	pkg  *ssa.Package
	typ  types.Type
	m    map[string]*ssa.Function

	field string // of the map records are kept in
}

// backends: the implementations of KVStore that are linked into a command
// or that are part of the storage packages.
func (c *Ctx) backends(rule string) []*backend {
	return c.implementers(rule, dbPkg, "KVStore")
}

// implementers: the types of production code that implement an interface.
func (c *Ctx) implementers(rule, pkg, name string) []*backend {
	T := c.P.namedType(pkg, name)
	if T == nil {
		c.unresolved(rule, pkg+"."+name)
		return nil
	}
	it := T.Underlying().(*types.Interface)
	reach := c.prod()
	var out []*backend
	for n, sp := range c.P.byPkg {
		if !reach[sp.Pkg] && !strings.HasPrefix(n, pkg+"/") {
			continue
		}
		for _, m := range sp.Members {
			mt, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			if _, isi := mt.Type().Underlying().(*types.Interface); isi {
				continue
			}
			for _, t := range []types.Type{mt.Type(), types.NewPointer(mt.Type())} {
				if !types.Implements(t, it) {
					continue
				}
				b := &backend{name: n + "." + mt.Name(), pkg: sp, typ: t, m: map[string]*ssa.Function{}}
				ms := c.P.prog.MethodSets.MethodSet(t)
				for i := 0; i < it.NumMethods(); i++ {
					if s := ms.Lookup(it.Method(i).Pkg(), it.Method(i).Name()); s != nil {
						b.m[it.Method(i).Name()] = c.P.prog.MethodValue(s)
					}
				}
				out = append(out, b)
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// isPrimitive: the external functions storage is accessed with.
func isPrimitive(name string) bool {
	for _, p := range []string{"os.", "(*os.", "io/ioutil.", "github.com/google/renameio.", "(*github.com/google/renameio.", "github.com/prologic/bitcask.", "(*github.com/prologic/bitcask.",
		"github.com/golang/protobuf/proto.Marshal", "github.com/golang/protobuf/proto.Unmarshal", "google.golang.org/protobuf/proto.Marshal", "google.golang.org/protobuf/proto.Unmarshal",
		"path/filepath.Glob", "path/filepath.Walk", kvIface, dbIface, "(" + treePkg + ".EntityHook).", "(" + treePkg + ".GroupHook)."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// storeModels: the storage primitives do not change what their arguments
// refer to, other than the message decoded into; predicates on errors are
// functions of the error.
func storeModels(e *Engine) {
	e.noKill = func(n string) bool {
		return isPrimitive(n) && !strings.Contains(n, "Unmarshal") && !strings.HasPrefix(n, "(*os.File).Read") || n == "sort.Strings"
	}
	for _, n := range []string{"os.IsNotExist", "os.IsExist", "errors.Is"} {
		n := n
		e.models[n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			return one(st, mk(Term{op: OpPure, s: n, args: args, typ: types.Typ[types.Bool]}))
		}
	}
}

func (c *Ctx) runStore(rule string, f *ssa.Function, cfg func(e *Engine)) *svcRun {
	return c.runToken(rule, f, func(e *Engine) {
		storeModels(e)
		if cfg != nil {
			cfg(e)
		}
	})
}

func (c *Ctx) runStoreArgs(rule string, f *ssa.Function, args []*Term, cfg func(e *Engine)) *svcRun {
	return c.runTokenArgs(rule, f, args, func(e *Engine) {
		storeModels(e)
		if cfg != nil {
			cfg(e)
		}
	})
}

func returnsError(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && types.Identical(sig.Results().At(n-1).Type(), types.Universe.Lookup("error").Type())
}

// fallible: the functions of the module that return an error and can fail
// because storage does.
func (c *Ctx) fallible() map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	touches := map[*ssa.Function]bool{} // calls storage, whatever it returns
	for changed := true; changed; {
		changed = false
		for _, f := range c.P.fns {
			if touches[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					k, ok := in.(ssa.CallInstruction)
					if !ok || !returnsError(k.Common().Signature()) && k.Common().StaticCallee() == nil {
						continue
					}
					g := k.Common().StaticCallee()
					if g != nil && c.P.inModule(g) {
						if !touches[g] {
							continue
						}
					} else if !returnsError(k.Common().Signature()) || !isPrimitive(calleeShort(k)) {
						continue
					}
					if !touches[f] {
						touches[f] = true
						changed = true
					}
				}
			}
		}
	}
	for f := range touches {
		if returnsError(f.Signature) {
			set[f] = true
		}
	}
	return set
}

// missing: the error is known to say that there is no such record.
func missing(st *State, x *Term) bool {
	if st.holds(mk(Term{op: OpPure, s: "os.IsNotExist", args: []*Term{x}, typ: types.Typ[types.Bool]}), kTrue) {
		return true
	}
	return st.lits(func(t, v *Term, eq bool) bool {
		if !eq {
			return false
		}
		if same(t, x) {
			return isMissing(v)
		}
		if t.op == OpPure && (t.s == "os.IsNotExist" || t.s == "errors.Is" && isMissing(t.args[1])) && same(t.args[0], x) {
			return v == kTrue
		}
		return false
	})
}

// badID: the error is known to say that no record can have that name.
func badID(st *State, x *Term) bool {
	return st.lits(func(t, v *Term, eq bool) bool {
		g, _ := strip(v).fn.(*ssa.Global)
		return eq && g != nil && g.Name() == "ErrBadID" && same(t, x)
	})
}

func isMissing(v *Term) bool {
	g, _ := strip(v).fn.(*ssa.Global)
	if g == nil {
		return false
	}
	switch g.Name() {
	case "ErrUnknownEntity", "ErrUnknownGroup", "ErrNoValue", "ErrKeyNotFound", "ErrNotExist":
		return true
	}
	return false
}

func runC18(c *Ctx) {
	const rule = "errors"
	fall := c.fallible()
	byName := map[string]bool{}
	for f := range fall {
		byName[fnName(f)] = true
	}
	in := func(p *ssa.Package) bool {
		if p == nil {
			return false
		}
		n := strings.TrimPrefix(p.Pkg.Path(), modPath)
		return n == dbPkg || strings.HasPrefix(n, dbPkg+"/") || n == treePkg || n == hooksPkg
	}
	reach := c.prod()
	storage := func(ev *Event) bool {
		return ev.kind == "call" && ev.res != nil && isErrType(errOf(ev)) && (isPrimitive(ev.name) || byName[ev.name])
	}
	for _, f := range c.P.fns {
		if !in(f.Pkg) || !reach[f.Pkg.Pkg] || f.Synthetic != "" || f.Parent() != nil || !fall[f] {
			continue
		}
		name := fnName(f)
		c.ob(rule, name)
		calls := map[string]bool{}
		r := c.runStore(rule, f, func(e *Engine) {
			e.boundary = func(n string) bool { return byName[n] && n != name }
			e.onBack = func(it *iteration) {
				for _, ev := range it.st.events {
					if !storage(ev) || !hasNest(ev.res.vol, it.key) || ev.res.op == OpSome && hasNest(ev.res.some, it.key) {
						continue
					}
					x := errOf(ev)
					if it.st.nilness(x) == 1 || missing(it.st, x) || it.st.holds(x, kNil) && c.innerLoop(it, ev) || immaterial(it.st, ev) {
						continue
					}
					kept := false
					for _, v := range it.vals {
						kept = kept || v.contains(func(y *Term) bool { return same(y, x) })
					}
					for _, v := range it.st.mem {
						kept = kept || v.contains(func(y *Term) bool { return same(y, x) })
					}
					if !kept {
						c.violate(rule, name+" "+ev.name, ev.pos, pathOf(ev, it.st), "%s goes on although %s may have failed", name, ev.name)
					}
				}
			}
		})
		// failed: v was computed from the result of a call that may have failed
		failed := func(st *State, v *Term) *Event {
			for _, ev := range st.events {
				if !storage(ev) || ev.res.typ == nil {
					continue
				}
				tu, ok := ev.res.typ.(*types.Tuple)
				if !ok || tu.Len() < 2 {
					continue
				}
				x := errOf(ev)
				if st.holds(x, kNil) {
					continue
				}
				for i := 0; i < tu.Len()-1; i++ {
					y := ext(ev.res, i)
					if deep(v, nil, func(t *Term) bool { return same(t, y) }) {
						return ev
					}
				}
			}
			return nil
		}
		for _, cl := range r.calls {
			if storage(cl.ev) {
				calls[cl.ev.name] = true
				c.ob(rule, name+" "+cl.ev.name)
			}
			for _, a := range cl.ev.args {
				if ev := failed(cl.st, a); ev != nil {
					c.violate("used", name+" "+ev.name, cl.ev.pos, pathOf(cl.ev, cl.st), "%s is passed a result of %s, which may have failed", cl.ev.name, ev.name)
				}
			}
		}
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			er := o.res(f.Signature.Results().Len() - 1)
			// a missing record is reported only if it is missing
			if isMissing(o.st.resolve(er)) {
				var last *Event
				for _, ev := range o.st.events {
					if storage(ev) {
						last = ev
					}
				}
				if last != nil && !o.st.holds(errOf(last), kNil) && !missing(o.st, errOf(last)) && !badID(o.st, errOf(last)) {
					c.violate("unknown", name, last.pos, trailOf(o.st), "%s reports a missing record although %s failed for another reason", name, last.name)
				}
			}
			if o.st.nilness(er) == 0 {
				continue
			}
			for _, ev := range o.st.events {
				if !storage(ev) {
					continue
				}
				x := errOf(ev)
				if op, _, _ := storeOp(ev); (op == "read" || op == "remove" || ev.name == kvIface+"Get" || ev.name == kvIface+"Del") && f.Pkg.Pkg.Name() != "hooks" && !same(x, er) && missing(o.st, x) {
					c.violate("unknown", name, ev.pos, trailOf(o.st), "%s may report success although %s found no record", name, ev.name)
				}
				if same(x, er) || o.st.holds(x, kNil) || missing(o.st, x) || immaterial(o.st, ev) {
					continue
				}
				c.violate(rule, name+" "+ev.name, ev.pos, trailOf(o.st), "%s may report success although %s failed", name, ev.name)
			}
			for i := 0; i < f.Signature.Results().Len()-1; i++ {
				v := o.res(i)
				if er.op == OpExt && deep(v, nil, func(t *Term) bool { return t.op == OpExt && t.args[0] == er.args[0] }) {
					continue // handed on together with the error
				}
				if ev := failed(o.st, v); ev != nil {
					c.violate("used", name+" "+ev.name, ev.pos, trailOf(o.st), "%s may return a result of %s, which may have failed, as valid", name, ev.name)
				}
			}
		}
	}
	c.need(rule, 40)
}

// calleeShort names the function or interface method called.
func calleeShort(k ssa.CallInstruction) string {
	cc := k.Common()
	if cc.IsInvoke() {
		return shortName(cc.Method.FullName())
	}
	if s := cc.StaticCallee(); s != nil {
		return fnName(s)
	}
	return ""
}

// innerLoop: the call was made in a loop inside the one iterated, whose
// own iterations are examined separately.
func (c *Ctx) innerLoop(it *iteration, ev *Event) bool {
	if ev.res.op == OpSome {
		return true
	}
	for _, k := range ev.res.vol {
		if k == it.key {
			continue
		}
		if k.ctx != it.key.ctx {
			if strings.HasPrefix(k.ctx, it.key.ctx) {
				return true
			}
			continue
		}
		for _, h := range c.P.loopsOf(it.fn).inLoops[k.hdr] {
			if h == it.key.hdr {
				return true
			}
		}
	}
	return false
}

// immaterial: the failure cannot have lost anything: examining something
// that was then accessed successfully, or closing a file that was only read.
func immaterial(st *State, ev *Event) bool {
	switch ev.name {
	case "os.Stat", "os.Lstat":
		for _, x := range st.events {
			switch x.name {
			case "os.Remove", "io/ioutil.ReadFile", "os.ReadFile", "os.Open":
				if same(x.args[0], ev.args[0]) && st.holds(errOf(x), kNil) {
					return true
				}
			}
		}
	case "(*os.File).Close":
		if callOf(ev.args[0], 0, "os.Open") == nil {
			return false
		}
		for _, x := range st.events {
			if strings.HasPrefix(x.name, "(*os.File).Write") {
				return false
			}
		}
		return true
	}
	return false
}

func init() {
	register(&Check{
		id:        "C20",
		technique: "path-sensitive dataflow over SSA (string-shape facts at every storage access), and a call-site census of the storage interface and of file-system calls",
		rule:      "At every access to the key/value store from the database the key is the namespace of the kind of record joined with the name asked for (or the record's own), and the facts established on the path exclude every name that is not a single path element; every path the file backend touches is below the base directory by the facts established on the path; keys and files are accessed nowhere else.",
		run:       runC20,
	})
	register(&Check{
		id:        "C44",
		technique: "value-flow analysis over SSA of the storage layer: which bytes go under which key and which come back",
		rule:      "Saving stores exactly the encoding of the record given, once; loading decodes exactly what the store returned into a fresh record and returns it unmodified; every backend uses the same location, a function of the key alone, for storing, fetching and removing, stores the bytes given and returns the bytes found; listing returns exactly the matching keys of what is stored.",
		run:       runC44,
	})
}

// joined: t is ns joined with one name.
func joined(t *Term) (ns string, id *Term) {
	t = strip(t)
	if t.op == OpPure && (t.s == "path.Join" || t.s == "path/filepath.Join") && len(t.args) == 1 && t.args[0].op == OpTuple {
		l := t.args[0].args
		for i, a := range l {
			s, ok := a.str()
			if !ok {
				if i == len(l)-1 && ns != "" {
					return ns, a
				}
				return "", nil
			}
			ns = strings.TrimSuffix(ns, "/") + "/" + strings.Trim(s, "/")
		}
		return "", nil
	}
	if t.op == OpPure && (t.s == "path.Clean" || t.s == "path/filepath.Clean") {
		return joined(t.args[0])
	}
	if t.op == OpBin && t.s == "+" {
		if s, ok := t.args[0].str(); ok && strings.HasSuffix(s, "/") {
			return strings.TrimSuffix(s, "/"), t.args[1]
		}
	}
	return "", nil
}

// singleElement: the facts exclude every value of id that is not the name
// of a single path element; k is the key it was joined to.
func singleElement(st *State, ns string, k, id *Term) string {
	bad := map[string]bool{"a name containing a slash": true, `"/"`: true, `""`: true, `"."`: true, `".."`: true}
	drop := func(l ...string) {
		for _, x := range l {
			delete(bad, x)
		}
	}
	all := []string{"a name containing a slash", `"/"`, `""`, `"."`, `".."`}
	isKey := func(t *Term) bool {
		n, i := joined(t)
		return n == ns && i != nil && same(i, id) && strip(t).op != OpBin
	}
	isFn := func(t *Term, n string) bool {
		return t.op == OpPure && (t.s == "path."+n || t.s == "path/filepath."+n)
	}
	st.lits(func(t, v *Term, eq bool) bool {
		t = strip(t)
		yes := eq && v == kTrue || !eq && v == kFalse
		no := eq && v == kFalse || !eq && v == kTrue
		switch {
		case same(t, id):
			if s, ok := v.str(); ok && !eq {
				drop(`"` + s + `"`)
			}
		case t.op == OpBin && t.s == "==" && yes:
			for _, p := range [][2]*Term{{t.args[0], t.args[1]}, {t.args[1], t.args[0]}} {
				if !same(p[0], id) {
					continue
				}
				b := strip(p[1])
				switch {
				case isFn(b, "Base") && same(b.args[0], id):
					drop(all[0], `""`)
				case isFn(b, "Base") && isKey(b.args[0]):
					drop(all...)
				}
			}
			for _, p := range [][2]*Term{{t.args[0], t.args[1]}, {t.args[1], t.args[0]}} {
				// joining changed nothing
				if isKey(p[0]) && strip(p[1]).op == OpBin {
					if n, i := joined(p[1]); n == ns && i != nil && same(i, id) {
						drop(`"/"`, `""`, `"."`, `".."`)
					}
				}
			}
		case isFn(t, "Dir") && isKey(t.args[0]) && eq:
			if s, ok := v.str(); ok && s == ns {
				drop(`"/"`, `""`, `"."`, `".."`)
			}
		case t.op == OpPure && no && (t.s == "strings.Contains" || t.s == "strings.ContainsAny" || t.s == "strings.ContainsRune") && same(t.args[0], id):
			s, ok := t.args[1].str()
			n, isn := t.args[1].intv()
			if ok && s == "/" || ok && t.s == "strings.ContainsAny" && strings.Contains(s, "/") || isn && n == '/' {
				drop(all[0], `"/"`)
			}
		case t.op == OpPure && strings.HasPrefix(t.s, "strings.Index") && same(t.args[0], id) && eq:
			if n, ok := v.intv(); ok && n == -1 {
				if s, ok := t.args[1].str(); ok && strings.Contains(s, "/") && (s == "/" || t.s == "strings.IndexAny") {
					drop(all[0], `"/"`)
				}
				if n, ok := t.args[1].intv(); ok && n == '/' {
					drop(all[0], `"/"`)
				}
			}
		case t.op == OpPure && t.s == "len" && same(t.args[0], id):
			if n, ok := v.intv(); ok && !eq && n == 0 {
				drop(`""`)
			}
		}
		return false
	})
	for _, x := range all {
		if bad[x] {
			return x
		}
	}
	return ""
}

// dbMethods: the methods of the database, and what kind of record each
// is about.
func (c *Ctx) dbMethods(rule string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.fns {
		if f.Pkg == c.P.byPkg[dbPkg] && f.Synthetic == "" && strings.HasPrefix(fnName(f), "(*"+dbPkg+".DB).") {
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		c.unresolved(rule, dbPkg+".DB")
	}
	return out
}

func kindOf(name string) (kind, ns, id string) {
	switch {
	case strings.Contains(name, "Entit"):
		return "entity", "/entities", "ID"
	case strings.Contains(name, "Group"):
		return "group", "/groups", "Name"
	}
	return "", "", ""
}

func runC20(c *Ctx) {
	const rule = "keys"
	within := map[*ssa.Function]bool{}
	T := c.P.namedType(dbPkg, "DB")
	if T == nil {
		c.unresolved(rule, dbPkg+".DB")
		return
	}
	n := 0
	for _, f := range c.dbMethods(rule) {
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		name := fnName(f)
		r := c.runStore(rule, f, nil)
		for g := range r.in {
			within[g] = true
		}
		for _, cl := range r.calls {
			ev, st := cl.ev, cl.st
			if !strings.HasPrefix(ev.name, kvIface) {
				continue
			}
			op := strings.TrimPrefix(ev.name, kvIface)
			inst := name + " " + op
			bad := func(f string, a ...any) { c.violate(rule, inst, ev.pos, pathOf(ev, st), f, a...) }
			switch op {
			case "Get", "Put", "Del", "Keys":
			default:
				continue
			}
			// the innermost method of the database names the kind
			at := name
			for fr := ev.fr; fr != nil; fr = fr.parent {
				if k, _, _ := kindOf(fr.fn.Name()); k != "" {
					at = fr.fn.Name()
					break
				}
			}
			kind, ns, idf := kindOf(at)
			if kind == "" {
				bad("%s accesses storage and the analysis cannot tell for which kind of record", name)
				continue
			}
			n++
			c.ob(rule, inst)
			if op == "Keys" {
				if s, ok := ev.args[1].str(); !ok || s != ns+"/*" {
					bad("the records of kind %s are listed with the pattern %v", kind, ev.args[1])
				}
				continue
			}
			got, id := joined(ev.args[1])
			if id == nil || got != ns {
				bad("a record of kind %s is accessed under the key %v, which is not a name joined to %q", kind, ev.args[1], ns)
				continue
			}
			if why := singleElement(st, ns, ev.args[1], id); why != "" {
				bad("a record of kind %s is accessed under the key %v although the name may be %s", kind, ev.args[1], why)
			}
			// whose name
			switch id := strip(id); {
			case id.op == OpParam && isString(id.typ):
			case protoField(id, idf) != nil && strip(protoField(id, idf)).op == OpParam:
			case callOf(id, -1, "path.Base") != nil || id.contains(func(t *Term) bool { return callOf(t, 0, kvIface+"Keys") != nil }): // a listed key
			case id.contains(func(t *Term) bool { return strings.Contains(t.s, "bleve") }): // a search result
			default:
				bad("the name used for the key, %v, is not the one asked for or the record's own", id)
			}
		}
	}
	if n < 10 {
		c.need(rule, 10)
	}
	c.need(rule, 10)
	// no other accesses
	for _, b := range c.backends(rule) {
		for _, f := range c.P.fns {
			if f.Pkg == b.pkg {
				within[f] = true
			}
		}
	}
	kv := c.P.namedType(dbPkg, "KVStore")
	reach := c.prod()
	for _, f := range c.P.fns {
		if f.Pkg == nil || !reach[f.Pkg.Pkg] || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				k, ok := in.(ssa.CallInstruction)
				if !ok || !k.Common().IsInvoke() || kv == nil || !types.Identical(k.Common().Value.Type(), kv) {
					continue
				}
				op := k.Common().Method.Name()
				if op != "Get" && op != "Put" && op != "Del" {
					continue
				}
				c.ob("census", fnName(f)+" "+op)
				if !within[f] && !c.copiesKeys(f) {
					c.violate("census", fnName(f)+" "+op, in.Pos(), nil, "%s accesses the key/value store outside the analysed operations", fnName(f))
				}
			}
		}
	}
	c.need("census", 4)
	c.fileBackend()
}

// copiesKeys: every key the function uses was listed by a store; if it is a
// helper, in every function it is called from.
func (c *Ctx) copiesKeys(f *ssa.Function) bool {
	return c.listedKeys(f, f, map[*ssa.Function]bool{})
}

// listedKeys: the same of accesses made in helper on behalf of f.
func (c *Ctx) listedKeys(f, helper *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	r := c.runStore("census", f, nil)
	ok, listed := false, true
	for _, cl := range r.calls {
		switch cl.ev.name {
		case kvIface + "Get", kvIface + "Put", kvIface + "Del":
			ok = ok || cl.ev.in == helper
			listed = listed && deep(cl.ev.args[1], nil, func(t *Term) bool { return callOf(t, 0, kvIface+"Keys") != nil })
		}
	}
	if ok && listed {
		return true
	}
	if !ok {
		return false
	}
	callers, known := c.P.usersOf(f)
	if !known {
		return false
	}
	for _, g := range callers {
		if !c.listedKeys(g, helper, seen) {
			return false
		}
	}
	return len(callers) > 0
}

// usersOf: the functions that call f directly or make a closure of it; not
// known if it is used in another way.
func (P *Program) usersOf(f *ssa.Function) (out []*ssa.Function, known bool) {
	known = true
	if f.Signature.Recv() != nil {
		return nil, false
	}
	for _, g := range P.fns {
		used := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != ssa.Value(f) {
						continue
					}
					k, call := in.(ssa.CallInstruction)
					_, closure := in.(*ssa.MakeClosure)
					if !closure && (!call || k.Common().Value != ssa.Value(f)) {
						known = false
					}
					used = true
				}
			}
		}
		if used {
			out = append(out, g)
		}
	}
	return out, known
}

// rootFields: the fields of the backend that hold its location: set where
// it is constructed and nowhere else.
func (c *Ctx) rootFields(b *backend) map[string]bool {
	out := map[string]bool{}
	pt, ok := b.typ.(*types.Pointer)
	t := b.typ
	if ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		if isString(st.Field(i).Type()) {
			out[st.Field(i).Name()] = true
		}
	}
	for _, f := range c.P.fns {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				p, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(p.Elem(), t) {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				for _, r := range *fa.Referrers() {
					if u, ok := r.(*ssa.UnOp); !ok || u.X != ssa.Value(fa) {
						if _, dbg := r.(*ssa.DebugRef); !dbg {
							delete(out, st.Field(fa.Field).Name())
						}
					}
				}
			}
		}
	}
	return out
}

// below: path p cannot lead out of the base directory.
func below(st *State, p *Term, base func(t *Term) bool) string {
	p = strip(p)
	if base(p) {
		return ""
	}
	if p.op == OpPure && p.s == "path/filepath.Join" && len(p.args) == 1 && p.args[0].op == OpTuple {
		l := p.args[0].args
		if len(l) == 0 || below(st, l[0], base) != "" {
			return "it does not start in the base directory"
		}
		for _, x := range l[1:] {
			if why := relSafe(st, strip(x)); why != "" {
				return why
			}
		}
		return ""
	}
	if p.op == OpBin && p.s == "+" {
		if s, ok := p.args[1].str(); ok && !strings.Contains(s, "..") && below(st, p.args[0], base) == "" {
			return ""
		}
	}
	return "it is not the base directory joined with anything"
}

// relSafe: joining x to a directory stays in it.
func relSafe(st *State, x *Term) string {
	if s, ok := x.str(); ok {
		for _, e := range strings.Split(s, "/") {
			if e == ".." {
				return "it contains .."
			}
		}
		return ""
	}
	if callOf(x, 0, "(*os.File).Readdirnames") != nil || elemBase(x) != nil && deep(x, nil, func(t *Term) bool { return callOf(t, 0, "(*os.File).Readdirnames") != nil }) {
		return "" // a name found in a directory
	}
	if callOf(x, -1, "(os.FileInfo).Name", "(io/fs.FileInfo).Name", "(os.DirEntry).Name", "(io/fs.DirEntry).Name") != nil {
		return ""
	}
	if x.op == OpPure && (x.s == "path/filepath.Clean" || x.s == "path.Clean") {
		y := strip(x.args[0])
		if y.op == OpBin && y.s == "+" {
			if s, ok := y.args[0].str(); ok && strings.HasPrefix(s, "/") {
				return "" // rooted
			}
		}
		if y.op == OpPure && (y.s == "path/filepath.Join" || y.s == "path.Join") && y.args[0].op == OpTuple && len(y.args[0].args) > 0 {
			if s, ok := y.args[0].args[0].str(); ok && strings.HasPrefix(s, "/") {
				return ""
			}
		}
		ok := st.lits(func(t, v *Term, eq bool) bool {
			t = strip(t)
			if t.op != OpPure || !same(t.args[0], x) {
				return false
			}
			no := eq && v == kFalse || !eq && v == kTrue
			yes := eq && v == kTrue || !eq && v == kFalse
			s, _ := "", 0
			if len(t.args) > 1 {
				s, _ = t.args[1].str()
			}
			switch t.s {
			case "strings.HasPrefix":
				return no && (s == ".." || s == ".") || yes && s == "/"
			case "strings.Contains":
				return no && s == ".."
			case "path/filepath.IsAbs", "path.IsAbs":
				return yes
			}
			return false
		})
		if !ok {
			return "the key may lead out of the base directory"
		}
		return ""
	}
	if x.op == OpPure && (x.s == "path/filepath.Join" || x.s == "path.Join") && x.args[0].op == OpTuple && len(x.args[0].args) > 0 {
		if s, ok := x.args[0].args[0].str(); ok && strings.HasPrefix(s, "/") {
			return ""
		}
	}
	return "the key is not cleaned"
}

func (c *Ctx) fileBackend() {
	const rule = "files"
	for _, b := range c.backends(rule) {
		roots := c.rootFields(b)
		within := map[*ssa.Function]bool{}
		files := false
		var ms []string
		for m := range b.m {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			f := b.m[m]
			if f == nil || f.Pkg != b.pkg {
				c.unresolved(rule, b.name+"."+m)
				continue
			}
			r := c.runStore(rule, f, nil)
			for g := range r.in {
				within[g] = true
			}
			isBase := func(t *Term) bool {
				for n := range roots {
					if x := fieldOf(t, n); x != nil && same(x, r.args[0]) {
						return true
					}
				}
				return false
			}
			for _, cl := range r.calls {
				ev, st := cl.ev, cl.st
				if !filePrim(ev.name) {
					continue
				}
				for i, a := range ev.args {
					if a.typ == nil || !isString(a.typ) {
						if _, isc := a.str(); !isc {
							continue
						}
					}
					files = true
					inst := fnName(f) + " " + ev.name
					c.ob(rule, inst)
					p := strip(a)
					if d := callOf(p, -1, "path/filepath.Dir"); d != nil && strings.HasPrefix(ev.name, "os.Mkdir") {
						p = strip(d.args[0])
					}
					if s, ok := p.str(); ok && s == "" && strings.HasPrefix(ev.name, "github.com/google/renameio.") && i == 0 {
						continue // the temporary directory is chosen by the library
					}
					if why := below(st, p, isBase); why != "" {
						c.violate(rule, inst, ev.pos, pathOf(ev, st), "%s is called with the path %v: %s", ev.name, a, why)
					}
				}
			}
		}
		// no other file access in the package of a file backend
		if !files {
			continue
		}
		for _, f := range c.P.fns {
			if f.Pkg != b.pkg || f.Synthetic != "" {
				continue
			}
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					if k, ok := in.(ssa.CallInstruction); ok && filePrim(calleeShort(k)) && !within[f] {
						c.violate(rule, fnName(f), in.Pos(), nil, "%s accesses files outside the analysed operations", fnName(f))
					}
				}
			}
		}
	}
	c.need(rule, 6)
}

// filePrim: the function accesses files by name.
func filePrim(n string) bool {
	switch n {
	case "os.Getenv", "os.LookupEnv", "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.Exit":
		return false
	}
	return strings.HasPrefix(n, "os.") || strings.HasPrefix(n, "io/ioutil.") || strings.HasPrefix(n, "github.com/google/renameio.") || n == "path/filepath.Glob" || n == "path/filepath.Walk" || n == "path/filepath.WalkDir"
}

// samplePaths: the location each backend operation uses, and what it moves.
type moved struct {
	ev   *Event
	st   *State
	loc  *Term
	data *Term // written
}

// storeOp: the event accesses the named record of a backend.
func storeOp(ev *Event) (op string, loc, data *Term) {
	switch ev.kind {
	case "mapset":
		return "write", ev.args[1], ev.args[2]
	case "mapdel":
		return "remove", ev.args[1], nil
	}
	switch ev.name {
	case "github.com/google/renameio.WriteFile":
		return "write", ev.args[0], ev.args[1]
	case "(*github.com/prologic/bitcask.Bitcask).Put":
		return "write", ev.args[1], ev.args[2]
	case "io/ioutil.ReadFile", "os.ReadFile":
		return "read", ev.args[0], nil
	case "(*github.com/prologic/bitcask.Bitcask).Get":
		return "read", ev.args[1], nil
	case "os.Remove":
		return "remove", ev.args[0], nil
	case "(*github.com/prologic/bitcask.Bitcask).Delete":
		return "remove", ev.args[1], nil
	}
	return "", nil, nil
}

// worked: the access is known to have succeeded.
func worked(st *State, ev *Event) bool {
	return ev.kind != "call" || st.holds(errOf(ev), kNil)
}

// pending: the atomically replaced file of the other interface of the
// library: opened for the location, written, and put in place.
func pendingWrite(st *State, ev *Event) (loc, data *Term, why string) {
	if ev.name != "(*github.com/google/renameio.PendingFile).CloseAtomicallyReplace" {
		return nil, nil, ""
	}
	t := callOf(ev.args[0], 0, "github.com/google/renameio.TempFile")
	if t == nil {
		return nil, nil, "the file put in place was not created for it"
	}
	for _, x := range st.events {
		if !strings.HasSuffix(x.name, "File).Write") && x.name != "(*os.File).WriteString" {
			continue
		}
		b := strip(x.args[0])
		for b.op == OpDeref || b.op == OpField {
			b = b.args[0]
		}
		if !same(b, ev.args[0]) {
			continue
		}
		if data != nil {
			return nil, nil, "it is written more than once"
		}
		if !st.holds(errOf(x), kNil) {
			return nil, nil, "writing it may have failed"
		}
		data = x.args[1]
	}
	if data == nil {
		return nil, nil, "nothing was written to it"
	}
	return t.args[1], data, ""
}

func runC44(c *Ctx) {
	c.records()
	for _, b := range c.backends("backends") {
		c.backendData(b)
	}
	c.need("backends", 8)
}

// records: what the database stores is the encoding of the record, and
// what it returns is the decoding of what is stored.
func (c *Ctx) records() {
	const rule = "records"
	for _, kind := range []string{"Entity", "Group"} {
		for _, op := range []string{"Save", "Load", "Delete"} {
			f := c.P.method(dbPkg, "DB", op+kind)
			if f == nil {
				c.unresolved(rule, op+kind)
				continue
			}
			name := fnName(f)
			changed := false
			r := c.runStore(rule, f, func(e *Engine) {
				e.onStore = func(fr *Frame, in ssa.Instruction, addr, val *Term, st *State) {
					if op == "Save" && len(f.Params) > 1 && rootOf(addr).op == OpParam && rootOf(addr).s == f.Params[1].Name() {
						changed = true
						c.violate(rule, name, in.Pos(), nil, "%s changes the record it stores", name)
					}
				}
			})
			_ = changed
			c.ob(rule, name)
			for _, o := range r.outs {
				if o.panic {
					continue
				}
				st := o.st
				er := o.res(f.Signature.Results().Len() - 1)
				if st.nilness(er) == 0 {
					continue
				}
				bad := func(f string, a ...any) { c.violate(rule, name, r.fn.Pos(), trailOf(st), f, a...) }
				switch op {
				case "Save":
					p := st.eventsNamed(kvIface + "Put")
					if len(p) != 1 {
						bad("%s may report success after storing %d times", name, len(p))
						continue
					}
					m := callOf(p[0].args[2], 0, "github.com/golang/protobuf/proto.Marshal", "google.golang.org/protobuf/proto.Marshal")
					if m == nil || !same(unwrap(m.args[0]), r.args[1]) {
						bad("%s stores %v, which is not the encoding of the record given", name, p[0].args[2])
					}
				case "Load":
					v := unwrap(o.res(0))
					if v.op != OpAlloc {
						bad("%s returns %v, which is not a record it decoded itself", name, v)
						continue
					}
					var dec *Event
					for _, ev := range st.events {
						if strings.HasSuffix(ev.name, "proto.Unmarshal") && same(unwrap(ev.args[1]), v) {
							if dec != nil {
								bad("%s decodes twice into the record", name)
							}
							dec = ev
						}
					}
					if dec == nil {
						bad("%s returns a record that was not decoded", name)
						continue
					}
					g := callOf(dec.args[0], 0, kvIface+"Get")
					if g == nil {
						bad("%s decodes %v, which is not what is stored", name, dec.args[0])
						continue
					}
					if _, id := joined(g.args[1]); id == nil || !same(id, r.args[1]) {
						bad("%s decodes what is stored under %v", name, g.args[1])
					}
					for a := range st.mem {
						if rootOf(a) == v {
							bad("%s changes the record it decoded (%v)", name, a)
						}
					}
				case "Delete":
					p := st.eventsNamed(kvIface + "Del")
					if len(p) != 1 {
						bad("%s may report success after removing %d records", name, len(p))
						continue
					}
					if _, id := joined(p[0].args[1]); id == nil || !same(id, r.args[1]) {
						bad("%s removes the record stored under %v", name, p[0].args[1])
					}
				}
			}
		}
	}
	c.need(rule, 6)
}

func unwrap(t *Term) *Term {
	for t.op == OpMkIface {
		t = t.args[0]
	}
	return t
}

// isField: the contents of a field of recv.
func isField(t, recv *Term) bool {
	b := fieldOf(strip(t), strip(t).lastField())
	return b != nil && same(b, recv)
}

// found: t is what a map is known to hold for a key.
func (s *State) found(t *Term) (m, key *Term) {
	t = strip(t)
	if t.op != OpDeref || t.args[0].op != OpMapElem {
		return nil, nil
	}
	m, key = t.args[0].args[0], t.args[0].args[1]
	if s.lookupBool(func(t *Term) bool { return t.op == OpPure && t.s == "has" && t.args[0] == m && t.args[1] == key }) != 1 {
		return nil, nil
	}
	return
}

// mapped: the map the records are kept in is the same for all operations,
// and nothing else changes it.
func (c *Ctx) mapped(rule string, b *backend, field string) {
	if b.field == "" {
		b.field = field
		c.ob(rule, b.name+"."+field)
		own := map[*ssa.Function]bool{}
		for _, f := range b.m {
			own[f] = true
			for g := range c.runStore(rule, f, nil).in {
				own[g] = true
			}
		}
		for _, f := range c.P.fns {
			if f.Pkg != b.pkg || own[f] {
				continue
			}
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					var x ssa.Value
					switch k := in.(type) {
					case *ssa.MapUpdate:
						x = k.Map
					case *ssa.Call:
						if bi, ok := k.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
							x = k.Call.Args[0]
						}
					}
					if u, ok := x.(*ssa.UnOp); ok {
						x = u.X
					}
					if fa, ok := x.(*ssa.FieldAddr); ok && fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) == field {
						c.violate(rule, b.name+"."+field, in.Pos(), nil, "%s changes the records kept", fnName(f))
					}
				}
			}
		}
	}
	if b.field != field {
		c.violate(rule, b.name+"."+field, 0, nil, "records are kept in %s and in %s", b.field, field)
	}
}

func (c *Ctx) backendData(b *backend) {
	const rule = "backends"
	put, get, del, keys := b.m["Put"], b.m["Get"], b.m["Del"], b.m["Keys"]
	if put == nil || get == nil || del == nil || keys == nil {
		c.unresolved(rule, b.name)
		return
	}
	args := entryArgs(put)
	// one value of the receiver and the key for all three
	var loc *Term
	where := func(name string, st *State, ev *Event, l *Term) {
		if ev == nil {
			ev = &Event{}
		}
		if loc == nil {
			loc = l
		} else if !same(loc, l) {
			c.violate(rule, name, ev.pos, pathOf(ev, st), "%s uses the location %v, other operations %v", name, l, loc)
		}
		if !l.contains(func(t *Term) bool { return t == args[1] }) {
			c.violate(rule, name, ev.pos, pathOf(ev, st), "%s uses the location %v, which is the same for all keys", name, l)
		}
		if x := l.contains(func(t *Term) bool { return t.op == OpCall }); x {
			c.violate(rule, name, ev.pos, pathOf(ev, st), "%s uses the location %v, which is not a function of the key", name, l)
		}
	}
	for _, f := range []*ssa.Function{put, get, del} {
		name := fnName(f)
		c.ob(rule, name)
		r := c.runStoreArgs(rule, f, args[:f.Signature.Params().Len()+1], nil)
		n := 0
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			st := o.st
			er := o.res(f.Signature.Results().Len() - 1)
			if st.nilness(er) == 0 {
				continue
			}
			n++
			var ops []*Event
			for _, ev := range st.events {
				op, l, data := storeOp(ev)
				if pl, pd, why := pendingWrite(st, ev); pl != nil || why != "" {
					if why != "" {
						c.violate(rule, name, ev.pos, pathOf(ev, st), "%s: %s", name, why)
						continue
					}
					op, l, data = "write", pl, pd
				}
				want := map[*ssa.Function]string{put: "write", get: "read", del: "remove"}[f]
				if op == "" || op == "read" && f != get {
					continue
				}
				if op != want {
					c.violate(rule, name, ev.pos, pathOf(ev, st), "%s calls %s", name, ev.name)
					continue
				}
				ops = append(ops, ev)
				where(name, st, ev, l)
				if f == put && !same(data, args[2]) {
					c.violate(rule, name, ev.pos, pathOf(ev, st), "%s stores %v instead of the bytes given", name, data)
				}
			}
			if f == get && len(ops) == 0 {
				// found in a map of the receiver's
				if m, k := st.found(o.res(0)); m != nil && isField(m, args[0]) {
					c.mapped(rule, b, m.lastField())
					where(name, st, nil, k)
					continue
				}
			}
			if len(ops) != 1 {
				c.violate(rule, name, f.Pos(), trailOf(st), "%s may report success after %d accesses", name, len(ops))
				continue
			}
			if ev := ops[0]; ev.kind != "call" {
				if !isField(ev.args[0], args[0]) {
					c.violate(rule, name, ev.pos, pathOf(ev, st), "%s changes %v", name, ev.args[0])
				}
				c.mapped(rule, b, strip(ev.args[0]).lastField())
			}
			if f == get {
				if v := o.res(0); !same(v, ext(ops[0].res, 0)) {
					c.violate(rule, name, ops[0].pos, trailOf(st), "%s returns %v instead of the bytes found", name, v)
				}
			}
		}
		if n == 0 {
			c.violate(rule, name, f.Pos(), nil, "%s never succeeds", name)
		}
	}
	c.listing(rule, b, keys)
}

// listing: every stored name whose key matches is listed.
func (c *Ctx) listing(rule string, b *backend, keys *ssa.Function) {
	name := fnName(keys)
	c.ob(rule, name)
	var its []*iteration
	r := c.runStore(rule, keys, func(e *Engine) { e.onBack = func(it *iteration) { its = append(its, it) } })
	isMatch := func(t *Term) *Term { // the key matched against the pattern asked for
		m := callOf(t, 0, "path.Match", "path/filepath.Match")
		if m == nil || !same(m.args[0], r.args[1]) {
			return nil
		}
		return m.args[1]
	}
	// the innermost unit visited: a file name or a key received
	stored := func(t *Term) bool {
		return deep(t, nil, func(x *Term) bool {
			if x.op == OpCall && (x.s == "(*os.File).Readdirnames" || x.s == "(*os.File).Readdir" || x.s == "(*os.File).ReadDir" || x.s == "os.ReadDir" || x.s == "io/ioutil.ReadDir" || x.s == "path/filepath.Glob") {
				return true
			}
			return strings.HasPrefix(x.s, "(*github.com/prologic/bitcask.Bitcask).Keys")
		})
	}
	n := 0
	for _, it := range its {
		st := it.st
		// does this iteration visit single names?
		var unit *Term
		if it.elem != nil && stored(it.elem) {
			unit = it.elem
		}
		for t, f := range st.facts {
			if unit == nil && f.eq == kTrue && hasNest(t.vol, it.key) && t.op == OpExt && strings.HasPrefix(t.String(), "<-") && stored(t) {
				unit = t.args[0]
			}
		}
		if unit == nil && it.rng != nil && b.field != "" && strip(it.rng).lastField() == b.field && isField(it.rng, r.args[0]) {
			unit = it.rkey
		}
		if unit == nil {
			continue
		}
		uses := func(t *Term) bool {
			return t.contains(func(x *Term) bool {
				return same(x, unit) || x.op == OpExt && same(x.args[0], unit) || unit.op == OpExt && same(x, unit.args[0])
			})
		}
		// a directory is opened for every unit of an outer loop
		outer := false
		for _, ev := range st.events {
			if ev.name == "os.Open" || ev.name == "os.ReadDir" || ev.name == "io/ioutil.ReadDir" || ev.name == "os.Stat" {
				outer = outer || hasNest(ev.res.vol, it.key) && uses(ev.args[0])
			}
		}
		if outer {
			continue
		}
		n++
		// matched or not
		res := 0
		var key *Term
		st.lits(func(t, v *Term, eq bool) bool {
			k := isMatch(t)
			if k == nil || !uses(k) || !hasNest(t.vol, it.key) {
				return false
			}
			yes := eq && v == kTrue || !eq && v == kFalse
			res, key = -1, k
			if yes {
				res = 1
			}
			return true
		})
		listed := false
		see := func(v *Term) {
			if v.op != OpAppend {
				return
			}
			for _, x := range v.args[1:] {
				if hasNest(x.vol, it.key) && uses(x) {
					listed = true
					if key != nil && !same(x, key) {
						c.violate(rule, name, keys.Pos(), trailOf(st), "%s lists %v although %v was matched", name, x, key)
					}
				}
			}
		}
		for _, v := range it.vals {
			see(v)
		}
		for _, v := range st.mem {
			see(v)
		}
		for a, v := range st.mem { // stored into a list by index
			if a.op == OpElem && hasNest(v.vol, it.key) && uses(v) {
				listed = true
			}
		}
		switch {
		case res == 0:
			c.violate(rule, name, keys.Pos(), trailOf(st), "%s passes over %v without matching it", name, unit)
		case res == 1 && !listed:
			c.violate(rule, name, keys.Pos(), trailOf(st), "%s does not list %v although it matches", name, key)
		case res == -1 && listed:
			c.violate(rule, name, keys.Pos(), trailOf(st), "%s lists %v although it does not match", name, key)
		}
	}
	if n == 0 {
		c.violate(rule, name, keys.Pos(), nil, "%s: no loop over what is stored was found", name)
	}
}
