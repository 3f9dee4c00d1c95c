package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stdModels describes library functions whose effect on the abstract
// state matters.
var stdModels = map[string]model{}

func one(st *State, r *Term) ([]Outcome, bool) { return []Outcome{{st: st, ret: r}}, true }

func init() {
	newPtr := func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		sig := call.Common().Signature()
		pt, ok := sig.Results().At(0).Type().(*types.Pointer)
		if !ok {
			return nil, false
		}
		a := mk(Term{op: OpAlloc, s: e.site(fr, call.(ssa.Instruction)), nest: fr.loopsAt(e.P, call.Block()), typ: pt.Elem()})
		st.mem[a] = args[0]
		delete(st.hav, a)
		return one(st, a)
	}
	for _, p := range []string{"github.com/golang/protobuf/proto", "google.golang.org/protobuf/proto"} {
		for _, n := range []string{"String", "Int32", "Int64", "Bool", "Uint32", "Uint64"} {
			stdModels[p+"."+n] = newPtr
		}
		stdModels[p+".Merge"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			dst, src := args[0], args[1]
			if dst.op == OpMkIface {
				dst = dst.args[0]
			}
			if src.op == OpMkIface {
				src = src.args[0]
			}
			var typ types.Type
			if args[1].op == OpMkIface {
				typ = args[1].typ
			}
			ptr, ok := typ.(*types.Pointer)
			if !ok {
				e.kill(st, dst)
				return one(st, nil)
			}
			e.deref(fr, call, dst, st)
			e.addEvent(fr, st, "call", "proto.Merge", nil, []*Term{dst, src}, nil, call.Pos())
			e.mergeMsg(fr, st, dst, src, ptr.Elem())
			return one(st, nil)
		}
		stdModels[p+".Clone"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			src := args[0]
			if src.op != OpMkIface {
				return nil, false
			}
			ptr, ok := src.typ.(*types.Pointer)
			if !ok {
				return nil, false
			}
			a := mk(Term{op: OpAlloc, s: e.site(fr, call.(ssa.Instruction)), nest: fr.loopsAt(e.P, call.Block()), typ: ptr.Elem()})
			for k := range st.mem {
				if allocBase(k) == a {
					delete(st.mem, k)
				}
			}
			delete(st.hav, a)
			e.mergeMsg(fr, st, a, src.args[0], ptr.Elem())
			return one(st, mk(Term{op: OpMkIface, args: []*Term{a}, typ: src.typ}))
		}
	}
	for _, n := range []string{"protocol/v2.Action", "protocol/v2.RuleAction", "protocol.Capability", "protocol.ExpansionMode"} {
		stdModels["("+n+").Enum"] = newPtr
	}
	stdModels["context.WithValue"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		return one(st, mk(Term{op: OpPure, s: "context.WithValue", args: args}))
	}
	stdModels["(context.Context).Value"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		c := args[0]
		for c.op == OpPure && c.s == "context.WithValue" {
			if c.args[1] == args[1] {
				return one(st, c.args[2])
			}
			c = c.args[0]
		}
		return one(st, mk(Term{op: OpPure, s: "(context.Context).Value", args: []*Term{c, args[1]}}))
	}
	stdModels["errors.Is"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		return one(st, mkEq(args[0], args[1]))
	}
	stdModels["fmt.Errorf"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		return one(st, mk(Term{op: OpPure, s: "fmt.Errorf", args: e.flatArgs(st, args)}))
	}
	stdModels["errors.New"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		return one(st, mk(Term{op: OpPure, s: "errors.New", args: args}))
	}
	for _, n := range []string{"Errorf", "Error"} {
		stdModels["google.golang.org/grpc/status."+n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			if c, ok := args[0].intv(); ok && c != 0 {
				return one(st, mk(Term{op: OpPure, s: "status.Errorf", args: e.flatArgs(st, args)}))
			}
			return nil, false
		}
	}
	for _, m := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
		for _, t := range []string{"Mutex", "RWMutex"} {
			m := m
			stdModels["(*sync."+t+")."+m] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
				e.lockOp(fr, call, m, args[0], st)
				return one(st, nil)
			}
		}
	}
	stdModels["sort.Strings"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		return one(st, nil)
	}
	stdModels["os.Exit"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		e.addEvent(fr, st, "call", "os.Exit", nil, args, nil, call.Pos())
		return []Outcome{{st: st, panic: true}}, true
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		n := n
		stdModels["log."+n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			e.addEvent(fr, st, "call", "log."+n, nil, e.flatArgs(st, args), nil, call.Pos())
			return []Outcome{{st: st, panic: true}}, true
		}
	}
	stdModels["strings.SplitN"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		typ := call.Common().Signature().Results().At(0).Type()
		if sep, ok := args[1].str(); ok && args[2] == kInt(2) && sep != "" {
			if l := splitConcat(args[0], sep); l != nil {
				return one(st, mkAppend(kNil, l, typ))
			}
		}
		return one(st, mk(Term{op: OpPure, s: "strings.SplitN", args: args, typ: typ}))
	}
	stdModels["strings.Cut"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		if sep, ok := args[1].str(); ok && sep != "" {
			if l := splitConcat(args[0], sep); len(l) == 2 {
				return one(st, mk(Term{op: OpTuple, args: []*Term{l[0], l[1], kTrue}, typ: call.Common().Signature().Results()}))
			}
		}
		return nil, false
	}
	// where the separator is in a string put together from known parts
	for _, n := range []string{"Index", "IndexByte", "IndexRune", "IndexAny"} {
		stdModels["strings."+n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			sep, ok := args[1].str()
			if !ok {
				if i, isInt := args[1].intv(); isInt {
					sep, ok = string(rune(i)), true
				}
			}
			if ok && len(sep) == 1 {
				if l := splitConcat(args[0], sep); len(l) == 2 {
					if s, isConst := l[0].str(); isConst {
						return one(st, kInt(int64(len(s))))
					}
					return one(st, mk(Term{op: OpPure, s: "len", args: []*Term{l[0]}, typ: types.Typ[types.Int]}))
				}
			}
			return nil, false
		}
	}
	stdModels["fmt.Sprintf"] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
		f, ok := args[0].str()
		if !ok || len(args) != 2 {
			return nil, false
		}
		l, ok := e.sliceElems(st, args[1])
		if !ok {
			return nil, false
		}
		t := e.P.sprintf(f, l)
		if t == nil {
			return nil, false
		}
		return one(st, t)
	}
	for n, f := range map[string]func(string) string{"ToUpper": strings.ToUpper, "ToLower": strings.ToLower, "TrimSpace": strings.TrimSpace} {
		n, f := n, f
		stdModels["strings."+n] = func(e *Engine, fr *Frame, call ssa.CallInstruction, args []*Term, st *State) ([]Outcome, bool) {
			if s, ok := args[0].str(); ok {
				return one(st, kString(f(s)))
			}
			return nil, false
		}
	}
}

func (e *Engine) lockOp(fr *Frame, call ssa.CallInstruction, op string, a *Term, st *State) {
	switch op {
	case "Lock", "RLock":
		m := byte('W')
		if op == "RLock" {
			m = 'R'
		}
		e.addEvent(fr, st, "lock", op, nil, []*Term{a}, nil, call.Pos())
		st.locks = append(st.locks, lockHeld{a, m, call.Pos()})
	default:
		m := byte('W')
		if op == "RUnlock" {
			m = 'R'
		}
		e.addEvent(fr, st, "unlock", op, nil, []*Term{a}, nil, call.Pos())
		for i := len(st.locks) - 1; i >= 0; i-- {
			if st.locks[i].addr == a && st.locks[i].mode == m {
				st.locks = append(append([]lockHeld{}, st.locks[:i]...), st.locks[i+1:]...)
				return
			}
		}
		e.addEvent(fr, st, "badunlock", op, nil, []*Term{a}, nil, call.Pos())
	}
}

// mergeMsg models proto.Merge(dst, src): scalars that are set in src
// replace, lists are appended, messages are merged.
func (e *Engine) mergeMsg(fr *Frame, st *State, dst, src *Term, typ types.Type) {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		e.kill(st, dst)
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() || strings.HasPrefix(f.Name(), "XXX_") {
			continue
		}
		da, sa := mkField(dst, f.Name(), f.Type()), mkField(src, f.Name(), f.Type())
		old, nw := e.load(st, da, f.Type()), e.load(st, sa, f.Type())
		if st.nilness(nw) == 1 {
			continue
		}
		z := zeroOf(f.Type())
		if old == z || old.isNil() {
			// an unset field takes the (deep copied) value; the copy
			// is identified with its source
			e.store(st, da, nw, f.Type())
			continue
		}
		if pt, ok := f.Type().(*types.Pointer); ok && st.nilness(old) == 0 {
			if _, msg := pt.Elem().Underlying().(*types.Struct); msg {
				e.mergeMsg(fr, st, old, nw, pt.Elem())
				continue
			}
		}
		e.store(st, da, mk(Term{op: OpMerge, args: []*Term{old, nw}, typ: f.Type()}), f.Type())
	}
}

// mkConcat is the canonical form of a string concatenation.
func mkConcat(parts []*Term) *Term {
	var l []*Term
	for _, p := range parts {
		q := []*Term{p}
		if p.op == OpPure && p.s == "concat" {
			q = p.args
		}
		for _, x := range q {
			if s, ok := x.str(); ok {
				if s == "" {
					continue
				}
				if len(l) > 0 {
					if t, ok := l[len(l)-1].str(); ok {
						l[len(l)-1] = kString(t + s)
						continue
					}
				}
			}
			l = append(l, x)
		}
	}
	switch len(l) {
	case 0:
		return kString("")
	case 1:
		return l[0]
	}
	return mk(Term{op: OpPure, s: "concat", args: l, typ: types.Typ[types.String]})
}

// splitConcat splits a concatenation at the first separator.  A
// variable part before it is taken not to contain the separator.
func splitConcat(t *Term, sep string) []*Term {
	parts := []*Term{t}
	if t.op == OpPure && t.s == "concat" {
		parts = t.args
	} else if !t.isConst() {
		return nil
	}
	for i, p := range parts {
		s, ok := p.str()
		if !ok {
			continue
		}
		if k := strings.Index(s, sep); k >= 0 {
			return []*Term{
				mkConcat(append(append([]*Term{}, parts[:i]...), kString(s[:k]))),
				mkConcat(append([]*Term{kString(s[k+len(sep):])}, parts[i+1:]...)),
			}
		}
	}
	if len(parts) == 1 {
		return parts
	}
	return nil
}

// sliceConcat: the part of a string put together from known parts that
// lies between two bounds falling between the parts.
func sliceConcat(t, lo, hi *Term) *Term {
	parts := []*Term{t}
	if t.op == OpPure && t.s == "concat" {
		parts = t.args
	} else if !t.isConst() {
		return nil
	}
	// at divides the parts at an offset
	at := func(off *Term) ([]*Term, []*Term) {
		var want *Term
		n := int64(0)
		switch {
		case off.op == OpBin && off.s == "+":
			for i := range off.args {
				if k, ok := off.args[i].intv(); ok {
					n, want = k, off.args[1-i]
				}
			}
			if want == nil {
				return nil, nil
			}
		default:
			want = off
			if k, ok := off.intv(); ok {
				n, want = k, nil
			}
		}
		i := 0
		if want != nil {
			if want.op != OpPure || want.s != "len" || want.args[0] != parts[0] {
				return nil, nil
			}
			i = 1
		}
		if n == 0 {
			return parts[:i], parts[i:]
		}
		if i >= len(parts) {
			return nil, nil
		}
		s, ok := parts[i].str()
		if !ok || n < 0 || int(n) > len(s) {
			return nil, nil
		}
		return append(append([]*Term{}, parts[:i]...), kString(s[:n])), append([]*Term{kString(s[n:])}, parts[i+1:]...)
	}
	switch {
	case lo.isNil() && !hi.isNil():
		if l, r := at(hi); l != nil || r != nil {
			return mkConcat(l)
		}
	case !lo.isNil() && hi.isNil():
		if l, r := at(lo); l != nil || r != nil {
			return mkConcat(r)
		}
	}
	return nil
}

// sprintf models formats that only use %s with strings and enumeration
// constants.
func (P *Program) sprintf(f string, l []*Term) *Term {
	var parts []*Term
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			parts = append(parts, kString(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(f) || f[i] != 's' && f[i] != 'v' || k >= len(l) {
			return nil
		}
		a := l[k]
		k++
		if a.op != OpMkIface {
			return nil
		}
		switch {
		case isString(a.typ):
			parts = append(parts, a.args[0])
		default:
			if n := P.enumName(a.typ, a.args[0]); n != "" {
				parts = append(parts, kString(n))
			} else {
				parts = append(parts, mk(Term{op: OpPure, s: "str", args: []*Term{a.args[0]}, typ: types.Typ[types.String]}))
			}
		}
	}
	if k != len(l) {
		return nil
	}
	return mkConcat(parts)
}

// enumName is the name of a constant of a protobuf enumeration.
func (P *Program) enumName(typ types.Type, v *Term) string {
	n, ok := typ.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), protoPath) {
		return ""
	}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), typ) && kConst(c.Val(), typ) == v {
			return strings.TrimPrefix(name, n.Obj().Name()+"_")
		}
	}
	return ""
}

// enumLookup resolves X_value["NAME"] of a protobuf enumeration.
func (P *Program) enumLookup(m, k *Term) (*Term, bool) {
	name, ok := k.str()
	if !ok || m.op != OpGVal || !strings.HasSuffix(m.s, "_value") {
		return nil, false
	}
	g, ok := m.fn.(*ssa.Global)
	if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), protoPath) {
		return nil, false
	}
	c, ok := g.Pkg.Pkg.Scope().Lookup(strings.TrimSuffix(g.Name(), "_value") + "_" + name).(*types.Const)
	if !ok {
		return mk(Term{op: OpTuple, args: []*Term{kInt(0), kFalse}}), true
	}
	return mk(Term{op: OpTuple, args: []*Term{kConst(c.Val(), c.Type()), kTrue}}), true
}
