package main

import (
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:        "C35",
		technique: "path-sensitive typestate and value-flow analysis over SSA of the database copy command",
		rule:      "The copy command changes nothing unless the dry run was explicitly disabled and both databases were opened and listed without error; it never changes the source; it deletes only listed keys of the target, only when truncation was asked for and before anything is copied; what it writes is exactly what was read, without error, under the same key of the source; and every listed key is copied or its failure reported.",
		run:       runC35,
	})
}

const copyPkg = "cmd/nsutil"

// flagDefault: the default of the command line flag kept in a global, and
// whether anything else sets it.
func (c *Ctx) flagDefault(g *ssa.Global) (def *ssa.Const, others []ssa.Instruction) {
	for _, f := range c.P.fns {
		if f.Pkg != g.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if in.Addr == g {
						others = append(others, in)
					}
				case ssa.CallInstruction:
					args := in.Common().Args
					for i, a := range args {
						if a != g {
							continue
						}
						cal := in.Common().StaticCallee()
						if cal != nil && cal.Pkg != nil && strings.HasSuffix(cal.Pkg.Pkg.Path(), "spf13/pflag") && i+2 < len(args) {
							for j := i + 1; j < len(args); j++ {
								if k, ok := args[j].(*ssa.Const); ok && types.Identical(k.Type(), types.Typ[types.Bool]) {
									def = k
								}
							}
							continue
						}
						others = append(others, in)
					}
				}
			}
		}
	}
	return
}

// boolFlag: a boolean global of a package whose flag has a given name.
func (c *Ctx) boolFlag(pkg, flag string) *ssa.Global {
	for _, f := range c.P.fns {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				k, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var g *ssa.Global
				named := false
				for _, a := range k.Common().Args {
					if x, ok := a.(*ssa.Global); ok {
						g = x
					}
					if x, ok := a.(*ssa.Const); ok && x.Value != nil && x.Value.ExactString() == `"`+flag+`"` {
						named = true
					}
				}
				if g != nil && named {
					return g
				}
			}
		}
	}
	return nil
}

func runC35(c *Ctx) {
	newKV := "internal/db.NewKV"
	if c.P.fn(newKV) == nil {
		c.unresolved("anchor", newKV)
		return
	}
	flags := map[string]*ssa.Global{}
	for _, n := range []string{"no-dry-run", "truncate"} {
		g := c.boolFlag(copyPkg, n)
		if g == nil {
			c.unresolved("flag", n)
			return
		}
		flags[n] = g
		c.ob("flag", n)
		def, others := c.flagDefault(g)
		if def == nil || def.Value == nil || def.Value.ExactString() != "false" {
			c.violate("flag", n, g.Pos(), nil, "the flag is not off by default")
		}
		for _, x := range others {
			c.violate("flag", n, x.Pos(), nil, "the flag may be changed other than by the command line")
		}
	}
	// the command: takes a command and its arguments, opens databases and writes
	var cmds []*ssa.Function
	for _, f := range c.P.fns {
		sg := f.Signature
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), copyPkg) || sg.Params().Len() != 2 || !strings.HasSuffix(sg.Params().At(0).Type().String(), "cobra.Command") {
			continue
		}
		if reaches(f, c.P.fn(newKV), map[*ssa.Function]bool{}) {
			cmds = append(cmds, f)
		}
	}
	for _, f := range cmds {
		c.copyCommand(f, newKV, flags)
	}
	c.need("flag", 2)
	c.need("copy", 1)
	c.need("loop", 1)
}

func (c *Ctx) copyCommand(f *ssa.Function, newKV string, flags map[string]*ssa.Global) {
	const rule = "copy"
	name := fnName(f)
	c.ob(rule, name)
	var its []*iteration
	r := c.runStore(rule, f, func(e *Engine) {
		e.boundary = func(n string) bool { return n == newKV || n == "internal/startup.DoCallbacks" }
		e.onBack = func(it *iteration) { its = append(its, it) }
	})
	if r.e.failed != "" {
		return
	}
	isDB := func(t *Term, i int) bool { // the database named by the i-th argument
		k := callOf(t, 0, newKV)
		if k == nil {
			return false
		}
		a := strip(k.args[0])
		if a.op == OpDeref {
			a = a.args[0]
		}
		if a.op != OpElem || !same(a.args[0], r.args[1]) {
			return false
		}
		n, ok := a.args[1].intv()
		return ok && n == int64(i)
	}
	kv := func(ev *Event, m string) bool {
		return ev.kind == "call" && strings.HasSuffix(ev.name, "/db.KVStore)."+m) || ev.kind == "call" && ev.name == "(internal/db.KVStore)."+m
	}
	keysOf := func(t *Term, i int) bool { // all keys of that database
		k := callOf(t, 0, "(internal/db.KVStore).Keys")
		if k == nil || !isDB(k.args[0], i) {
			return false
		}
		// whatever the names, the keys of both kinds of records
		g := constStr(k.args[1])
		for _, n := range []string{"/entities/x", "/groups/x", "/entities/.x y*", "/groups/é[0]"} {
			if m, err := path.Match(g, n); err != nil || !m {
				return false
			}
		}
		return true
	}
	isFlag := func(st *State, n string) bool {
		return st.truth(func(t *Term) bool {
			t = strip(t)
			return t.op == OpDeref && t.args[0].op == OpGlobal && t.args[0].s == shortName(flags[n].String())
		}) == 1
	}
	check := func(st *State) bool {
		put := false
		for _, ev := range st.events {
			bad := func(format string, a ...any) bool {
				c.violate(rule, name, ev.pos, pathOf(ev, st), format, a...)
				return false
			}
			isPut, isDel := kv(ev, "Put"), kv(ev, "Del")
			if !isPut && !isDel {
				continue
			}
			if !isFlag(st, "no-dry-run") {
				return bad("the database is changed in a dry run")
			}
			if !isDB(ev.args[0], 1) {
				return bad("a database other than the target is changed")
			}
			for i, n := range []string{"source", "target"} {
				listed := false
				for _, x := range st.events {
					if kv(x, "Keys") && isDB(x.args[0], i) && st.nilness(errOf(x)) == 1 {
						listed = true
					}
				}
				if !listed {
					return bad("the target is changed though the keys of the %s may not be known", n)
				}
			}
			k := strip(ev.args[1])
			if k.op == OpDeref {
				k = k.args[0]
			}
			if k.op != OpElem {
				return bad("what is changed, %v, is not a listed key", ev.args[1])
			}
			if isDel {
				switch {
				case !keysOf(k.args[0], 1):
					return bad("what is deleted, %v, is not a key of the target", ev.args[1])
				case !isFlag(st, "truncate"):
					return bad("the target is truncated though that was not asked for")
				case put:
					return bad("a record may be deleted after it was copied")
				}
				continue
			}
			put = true
			g := callOf(ev.args[2], 0, "(internal/db.KVStore).Get")
			switch {
			case !keysOf(k.args[0], 0):
				return bad("what is written, %v, is not a key of the source", ev.args[1])
			case g == nil || !isDB(g.args[0], 0) || !same(g.args[1], ev.args[1]):
				return bad("the record written, %v, is not the one read from the source under the same key", ev.args[2])
			}
			ok := false
			for _, x := range st.events {
				ok = ok || kv(x, "Get") && x.res != nil && same(x.res, g) && (st.nilness(errOf(x)) == 1 || len(x.res.some) > 0) // elements visited before were decided in their turn
			}
			if !ok {
				return bad("a record that could not be read may be written")
			}
		}
		return true
	}
	done := 0
	for _, o := range r.outs {
		if !check(o.st) {
			return
		}
		if o.panic {
			if o.st.lastEvent("os.Exit") == nil {
				c.violate(rule, name, f.Pos(), trailOf(o.st), "it may crash")
				return
			}
			continue
		}
		done++
		if !isFlag(o.st, "no-dry-run") {
			continue
		}
		failed := false
		for _, ev := range o.st.events {
			if n := errOf(ev); n != nil && ev.kind == "call" && (kv(ev, "Keys") || ev.name == newKV) && o.st.nilness(n) != 1 {
				failed = true
			}
		}
		if !failed && !exhausted(o.st, func(t *Term) bool { return keysOf(t, 0) }) {
			c.violate(rule, name, f.Pos(), trailOf(o.st), "not every key of the source may be copied")
			return
		}
	}
	if done == 0 {
		c.violate(rule, name, f.Pos(), nil, "it never completes")
	}
	for _, it := range its {
		if !check(it.st) {
			return
		}
		if it.base == nil || !keysOf(it.base, 0) {
			continue
		}
		c.ob("loop", fnName(it.fn))
		if !it.steps() {
			c.violate("loop", fnName(it.fn), f.Pos(), trailOf(it.st), "a key of the source is skipped")
			return
		}
		put, unread := false, false
		for _, ev := range it.st.events {
			if ev.res == nil || len(ev.res.some) > 0 {
				continue // of an earlier iteration
			}
			put = put || kv(ev, "Put") && same(ev.args[1], it.elem)
			unread = unread || kv(ev, "Get") && same(ev.args[1], it.elem) && it.st.nilness(errOf(ev)) == 0
		}
		if !put && !unread {
			c.violate("loop", fnName(it.fn), f.Pos(), trailOf(it.st), "a readable record is not copied")
			return
		}
		// failures are told
		for _, ev := range it.st.events {
			if !(kv(ev, "Put") || kv(ev, "Get")) || ev.res == nil || len(ev.res.some) > 0 || !same(ev.args[1], it.elem) || it.st.nilness(errOf(ev)) == 1 {
				continue
			}
			told := false
			for _, x := range it.st.events {
				told = told || x.kind == "call" && (strings.HasPrefix(x.name, "fmt.") || strings.Contains(x.name, "hclog")) && mentionsTerm(x.args, errOf(ev))
			}
			if it.st.nilness(errOf(ev)) == 0 && !told || it.st.nilness(errOf(ev)) < 0 {
				c.violate("loop", fnName(it.fn), ev.pos, pathOf(ev, it.st), "a failure to copy a record is not reported")
				return
			}
		}
	}
}

func mentionsTerm(args []*Term, t *Term) bool {
	for _, a := range args {
		if deep(a, func(x *Term) bool { return false }, func(x *Term) bool { return x == t }) {
			return true
		}
	}
	return false
}

// reaches: f calls g, directly or through functions of the module.
func reaches(f, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if k, ok := in.(ssa.CallInstruction); ok {
				if h := k.Common().StaticCallee(); h != nil && (h == g || h.Pkg == f.Pkg && reaches(h, g, seen)) {
					return true
				}
			}
		}
	}
	return false
}
