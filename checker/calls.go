package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callParts evaluates callee and arguments at the call (or defer) site.
// For interface method calls the receiver is the first argument.
func (e *Engine) callParts(fr *Frame, en env, cc *ssa.CallCommon, st *State) (*Term, []*Term) {
	var args []*Term
	var f *Term
	if cc.IsInvoke() {
		args = append(args, e.val(fr, en, cc.Value))
	} else {
		f = e.val(fr, en, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, e.val(fr, en, a))
	}
	return f, args
}

func (e *Engine) calleeName(cc *ssa.CallCommon, f *Term) string {
	if cc.IsInvoke() {
		return shortName(cc.Method.FullName())
	}
	if f != nil {
		switch f.op {
		case OpFn, OpClosure:
			return shortName(f.s)
		}
	}
	if sc := cc.StaticCallee(); sc != nil {
		return fnName(sc)
	}
	return "dynamic"
}

func isProtoMsg(t types.Type) (*types.Named, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, false
	}
	return n, strings.HasPrefix(n.Obj().Pkg().Path(), protoPath)
}

// getter models the generated accessor of a protobuf field.
func (e *Engine) getter(st *State, recv *Term, named *types.Named, method string) (*Term, bool) {
	if !strings.HasPrefix(method, "Get") {
		return nil, false
	}
	s, ok := named.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	fname := method[3:]
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != fname {
			continue
		}
		pt, isPtr := f.Type().(*types.Pointer)
		scalar := isPtr
		if isPtr {
			if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
				scalar = false
			}
		}
		if st.nilness(recv) == 1 {
			if scalar {
				return zeroOf(pt.Elem()), true
			}
			return zeroOf(f.Type()), true
		}
		v := e.load(st, mkField(recv, fname, f.Type()), f.Type())
		if scalar {
			if st.nilness(v) == 1 {
				return zeroOf(pt.Elem()), true
			}
			return e.load(st, v, pt.Elem()), true
		}
		return v, true
	}
	return nil, false
}

func (e *Engine) call(fr *Frame, call ssa.CallInstruction, cc *ssa.CallCommon, f *Term, args []*Term, st *State) []Outcome {
	name := e.calleeName(cc, f)
	pos := call.Pos()
	if !pos.IsValid() {
		pos = cc.Pos()
	}
	one := func(s *State, r *Term) []Outcome { return []Outcome{{st: s, ret: r}} }

	// builtins
	if f != nil && f.op == OpFn && strings.HasPrefix(f.s, "builtin ") {
		return e.builtin(fr, call, cc, f.s[8:], args, st)
	}

	var callee *ssa.Function
	var free []*Term
	var mfn *types.Func
	if cc.IsInvoke() {
		mfn = cc.Method
		recv := args[0]
		e.deref(fr, call, recv, st)
		if recv.op == OpMkIface {
			if sel := e.P.prog.MethodSets.MethodSet(recv.typ).Lookup(mfn.Pkg(), mfn.Name()); sel != nil {
				callee = e.P.prog.MethodValue(sel)
				args = append([]*Term{recv.args[0]}, args[1:]...)
				if callee != nil {
					name = fnName(callee)
					mfn, _ = callee.Object().(*types.Func)
				}
			}
		} else if e.devirt != nil {
			if c := e.devirt(mfn, recv); c != nil {
				callee = c
				name = fnName(c)
				mfn, _ = callee.Object().(*types.Func)
			}
		}
	} else {
		switch {
		case f.op == OpFn:
			callee, _ = f.fn.(*ssa.Function)
		case f.op == OpClosure:
			callee, _ = f.fn.(*ssa.Function)
			free = f.args
		case f.op == OpSome && f.args[0].op == OpClosure:
			callee, _ = f.args[0].fn.(*ssa.Function)
		default:
			callee = cc.StaticCallee()
		}
		if callee != nil {
			mfn, _ = callee.Object().(*types.Func)
		}
	}

	// protobuf accessors
	if callee != nil && mfn != nil {
		if sig, ok := mfn.Type().(*types.Signature); ok && sig.Recv() != nil && len(args) > 0 {
			if named, ok := isProtoMsg(sig.Recv().Type()); ok {
				if v, ok := e.getter(st, args[0], named, mfn.Name()); ok {
					return one(st, v)
				}
			}
		}
	}

	if m, ok := e.models[name]; ok {
		if o, ok := m(e, fr, call, args, st); ok {
			return o
		}
	}
	if m, ok := stdModels[name]; ok {
		if o, ok := m(e, fr, call, args, st); ok {
			return o
		}
	}

	if isLogCall(cc) && !e.keepLogs {
		return one(st, mk(Term{op: OpPure, s: name, typ: cc.Signature()}))
	}
	if cv, ok := call.(*ssa.Call); ok && callee != nil && !e.keepLogs && e.P.inModule(callee) && e.P.logOnly(cv) && e.P.effectFree(callee) {
		return one(st, mk(Term{op: OpPure, s: name, args: args, typ: cv.Type()}))
	}
	// (a method value stands for the method)
	wrapper := callee != nil && (strings.HasPrefix(callee.Synthetic, "bound method") || strings.HasPrefix(callee.Synthetic, "thunk"))
	isBoundary := e.boundary != nil && !wrapper && e.boundary(name)
	if callee != nil && callee.Blocks != nil && !isBoundary {
		if e.P.inModule(callee) || callee.Synthetic != "" {
			rec := false
			for p := fr; p != nil; p = p.parent {
				if p.fn == callee {
					rec = true
				}
			}
			if !rec && fr.depth < e.maxDepth {
				nf := &Frame{fn: callee, args: args, free: free, parent: fr, depth: fr.depth + 1,
					nest: fr.loopsAt(e.P, call.Block())}
				nf.ctx = fr.ctx + "/" + e.siteShort(call)
				nf.stack = append(append([]string{}, fr.stack...), fnName(callee)+"@"+e.P.pos(pos))
				outs := e.exec(nf, st)
				return outs
			}
			e.unknown[name]++
		}
	}

	// opaque call
	var rt types.Type
	if sig := cc.Signature(); sig != nil {
		switch sig.Results().Len() {
		case 0:
		case 1:
			rt = sig.Results().At(0).Type()
		default:
			rt = sig.Results()
		}
	}
	e.opaque[name] = true
	cls := classify(name, mfn, cc)
	if cls == clsKill && (name == "github.com/golang/protobuf/proto.Marshal" || name == "google.golang.org/protobuf/proto.Marshal" || e.noKill != nil && e.noKill(name)) {
		cls = clsEvent
	}
	if e.changes != nil {
		defer e.changes(name, args, st)
	}
	switch cls {
	case clsIgnore:
		if rt == nil {
			return one(st, nil)
		}
		return one(st, mk(Term{op: OpPure, s: name, args: e.flatArgs(st, args), typ: rt}))
	case clsPure:
		if rt == nil {
			return one(st, nil)
		}
		return one(st, mk(Term{op: OpPure, s: name, args: e.flatArgs(st, args), typ: rt}))
	}
	fa := e.flatArgs(st, args)
	res := mk(Term{op: OpCall, s: name, args: fa, nest: fr.loopsAt(e.P, call.Block()), c: nil, n: e.siteNum(fr, call), typ: rt})
	e.dyn = nil
	if name == "dynamic" {
		e.dyn = f
	}
	e.loopsNow, e.loopsKnown = fr.loopsAt(e.P, call.Block()), true
	e.addEvent(fr, st, "call", name, mfn, fa, res, pos)
	e.loopsNow, e.loopsKnown = nil, false
	e.dyn = nil
	if cls == clsKill {
		for _, a := range args {
			e.kill(st, a)
		}
	}
	if rt == nil {
		return one(st, nil)
	}
	if tup, ok := rt.(*types.Tuple); ok {
		var c []*Term
		for i := 0; i < tup.Len(); i++ {
			c = append(c, withType(ext(res, i), tup.At(i).Type()))
		}
		return one(st, mk(Term{op: OpTuple, args: c}))
	}
	return one(st, res)
}

var siteNums = map[string]int{}

func (e *Engine) siteShort(call ssa.CallInstruction) string {
	b := call.Block()
	for i, x := range b.Instrs {
		if x == call.(ssa.Instruction) {
			k := fmt.Sprintf("%s:%d.%d", call.Parent().String(), b.Index, i)
			if n, ok := siteNums[k]; ok {
				return fmt.Sprint(n)
			}
			siteNums[k] = len(siteNums) + 1
			return fmt.Sprint(siteNums[k])
		}
	}
	return "?"
}

func (e *Engine) siteNum(fr *Frame, call ssa.CallInstruction) int {
	k := fr.ctx + "@" + e.siteShort(call)
	if n, ok := siteNums[k]; ok {
		return n
	}
	siteNums[k] = len(siteNums) + 1
	return siteNums[k]
}

// flatArgs replaces a variadic slice by its elements where they are
// known.
func (e *Engine) flatArgs(st *State, args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		if l, ok := e.sliceElems(st, a); ok {
			out = append(out, mk(Term{op: OpTuple, args: l}))
			continue
		}
		out = append(out, a)
	}
	return out
}

// sliceElems lists the elements of a slice over a local array with
// constant indexes.
func (e *Engine) sliceElems(st *State, a *Term) ([]*Term, bool) {
	if a.op != OpSlice || a.args[0].op != OpAlloc || !a.args[1].isNil() || !a.args[2].isNil() {
		return nil, false
	}
	arr, ok := a.args[0].typ.Underlying().(*types.Array)
	if !ok || st.epoch(a.args[0]) > 0 {
		return nil, false
	}
	var l []*Term
	for i := int64(0); i < arr.Len(); i++ {
		el := mk(Term{op: OpElem, args: []*Term{a.args[0], kInt(i)}, typ: arr.Elem()})
		l = append(l, e.load(st, el, arr.Elem()))
	}
	return l, true
}

func (e *Engine) builtin(fr *Frame, call ssa.CallInstruction, cc *ssa.CallCommon, name string, args []*Term, st *State) []Outcome {
	one := func(r *Term) []Outcome { return []Outcome{{st: st, ret: r}} }
	switch name {
	case "len", "cap":
		a := args[0]
		if s, ok := a.str(); ok {
			return one(kInt(int64(len(s))))
		}
		if a.isNil() {
			return one(kInt(0))
		}
		if a.op == OpSlice && a.args[1].isNil() && a.args[2].isNil() && a.args[0].op == OpAlloc {
			if arr, ok := a.args[0].typ.Underlying().(*types.Array); ok {
				return one(kInt(arr.Len()))
			}
		}
		if a.op == OpMake && len(a.args) == 1 {
			return one(a.args[0])
		}
		if a.op == OpAppend && a.args[0].isNil() {
			star := false
			for _, x := range a.args[1:] {
				if len(x.some) > 0 || x.op == OpPure && x.s == "spread" {
					star = true
				}
			}
			if !star {
				return one(kInt(int64(len(a.args) - 1)))
			}
		}
		// the length of a map that was written to is another value
		n := 0
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			n = countMap(st, a) + 100*st.epoch(a)
		}
		return one(mk(Term{op: OpPure, s: name, n: n, args: []*Term{a}, typ: types.Typ[types.Int]}))
	case "append":
		base := args[0]
		typ := cc.Args[0].Type()
		if len(args) == 1 {
			return one(base)
		}
		if e.seqAppend != nil && e.seqAppend(typ) {
			l, ok := e.sliceElems(st, args[1])
			if !ok {
				if args[1].isNil() {
					return one(base)
				}
				l = []*Term{mk(Term{op: OpPure, s: "spread", args: []*Term{args[1]}})}
			}
			return one(mk(Term{op: OpPure, s: "seq", args: append([]*Term{base}, l...), typ: typ}))
		}
		if l, ok := e.sliceElems(st, args[1]); ok {
			return one(mkAppend(base, l, typ))
		}
		if args[1].isNil() {
			return one(base)
		}
		if args[1].op == OpAppend && args[1].args[0].isNil() {
			return one(mkAppend(base, args[1].args[1:], typ))
		}
		// a list known to have one element
		if sl, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
			ln := mk(Term{op: OpPure, s: "len", args: []*Term{args[1]}, typ: types.Typ[types.Int]})
			if st.eqKnown(nil, ln, kInt(1)) == 1 {
				el := mk(Term{op: OpElem, args: []*Term{args[1], kInt(0)}, typ: sl.Elem()})
				return one(mkAppend(base, []*Term{e.load(st, el, sl.Elem())}, typ))
			}
		}
		return one(mkAppend(base, []*Term{mk(Term{op: OpPure, s: "spread", args: []*Term{args[1]}})}, typ))
	case "delete":
		a := mk(Term{op: OpMapElem, args: []*Term{args[0], args[1]}})
		if e.onStore != nil {
			e.onStore(fr, call, a, kNil, st)
		}
		delete(st.mem, a)
		st.hav[a]++
		if st.hav[a] > 3 {
			st.hav[a] = 3
		}
		e.addEvent(fr, st, "mapdel", "delete", nil, args, nil, call.Pos())
		return one(nil)
	case "copy":
		e.addEvent(fr, st, "call", "copy", nil, args, nil, call.Pos())
		e.kill(st, args[0])
		return one(mk(Term{op: OpPure, s: "copyn", args: args, typ: types.Typ[types.Int]}))
	case "print", "println":
		return one(nil)
	case "recover":
		return one(mk(Term{op: OpPure, s: "recover", args: nil}))
	case "close", "panic":
		e.addEvent(fr, st, "call", name, nil, args, nil, call.Pos())
		return one(nil)
	case "min", "max":
		return one(mk(Term{op: OpPure, s: name, args: args, typ: cc.Args[0].Type()}))
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	return one(mk(Term{op: OpPure, s: "builtin " + name, args: args}))
}

type callClass int

const (
	clsEvent callClass = iota
	clsKill
	clsPure
	clsIgnore
)

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "fmt": true, "errors": true, "path": true, "path/filepath": true,
	"unicode": true, "unicode/utf8": true, "bytes": true, "math": true, "encoding/base64": true, "encoding/hex": true,
	"context": true, "google.golang.org/grpc/metadata": true, "google.golang.org/grpc/codes": true, "google.golang.org/grpc/status": true,
	"reflect": true, "regexp": true,
}
var pureFns = map[string]bool{
	"google.golang.org/grpc.Method": true,
}
var impureFns = map[string]bool{
	"fmt.Print": true, "fmt.Println": true, "fmt.Printf": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true,
	"fmt.Sscanf": true, "fmt.Sscan": true, "fmt.Scan": true, "fmt.Scanln": true, "fmt.Sscanln": true, "fmt.Fscan": true, "fmt.Scanf": true,
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true,
	"google.golang.org/grpc/metadata.NewIncomingContext": false,
}

func pkgOf(mfn *types.Func, name string) string {
	if mfn != nil && mfn.Pkg() != nil {
		return mfn.Pkg().Path()
	}
	return ""
}

func isLogPkg(p string) bool {
	return p == "github.com/hashicorp/go-hclog" || p == "log"
}

func classify(name string, mfn *types.Func, cc *ssa.CallCommon) callClass {
	p := pkgOf(mfn, name)
	if isLogPkg(p) {
		n := mfn.Name()
		if strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic") {
			return clsEvent
		}
		switch n {
		case "Trace", "Debug", "Info", "Warn", "Error", "Log", "Print", "Println", "Printf":
			return clsEvent // recorded only on demand, see addEvent
		}
		return clsIgnore
	}
	if impureFns[name] {
		return clsKill
	}
	if pureFns[name] || purePkgs[p] {
		return clsPure
	}
	// interface methods declared in the module do not modify their arguments
	if cc.IsInvoke() && strings.HasPrefix(p+"/", modPath) {
		if mfn.Name() == "Run" || mfn.Name() == "ProcessEntity" || mfn.Name() == "ProcessGroup" {
			return clsKill
		}
		return clsEvent
	}
	if strings.HasPrefix(p+"/", modPath) {
		return clsEvent
	}
	if p == "google.golang.org/grpc" || strings.HasPrefix(p, "github.com/spf13") || p == "os" || p == "time" || p == "io/ioutil" {
		return clsEvent
	}
	return clsKill
}
