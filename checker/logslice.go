package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values that flow only into log statements need no path-sensitive
// treatment.

func isLogCall(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		return cc.Method.Pkg() != nil && isLogPkg(cc.Method.Pkg().Path()) && !strings.HasPrefix(cc.Method.Name(), "Fatal")
	}
	if f := cc.StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok && o.Pkg() != nil && isLogPkg(o.Pkg().Path()) {
			n := o.Name()
			return !strings.HasPrefix(n, "Fatal") && !strings.HasPrefix(n, "Panic")
		}
	}
	return false
}

func (P *Program) logOnly(v ssa.Value) bool {
	if r, ok := P.logMemo[v]; ok {
		return r
	}
	P.logMemo[v] = false
	r := P.logOnly1(v, map[ssa.Value]bool{})
	P.logMemo[v] = r
	return r
}

func (P *Program) logOnly1(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil || len(*refs) == 0 {
		return false
	}
	n := 0
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.MakeInterface:
			if !P.logOnly1(x, seen) {
				return false
			}
		case *ssa.Slice:
			if !P.logOnly1(x, seen) {
				return false
			}
		case *ssa.IndexAddr:
			// element of the argument array
			for _, r2 := range *x.Referrers() {
				if s, ok := r2.(*ssa.Store); !ok || s.Addr != x {
					return false
				}
			}
		case *ssa.Store:
			if x.Addr == v {
				continue
			}
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			al, ok := ia.X.(*ssa.Alloc)
			if !ok || !P.logOnly1(al, seen) {
				return false
			}
		case *ssa.Call:
			if !isLogCall(&x.Call) {
				return false
			}
		default:
			return false
		}
		n++
	}
	return n > 0
}

// effectFree: the function and its callees neither write memory they
// did not allocate nor call anything that might.
func (P *Program) effectFree(f *ssa.Function) bool {
	if r, ok := P.effMemo[f]; ok {
		return r
	}
	P.effMemo[f] = false
	if f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				a := x.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					break
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.Select:
				return false
			case *ssa.Call:
				if isLogCall(&x.Call) {
					continue
				}
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "append":
						continue
					}
					return false
				}
				if x.Call.IsInvoke() {
					if classify(shortName(x.Call.Method.FullName()), x.Call.Method, &x.Call) == clsPure {
						continue
					}
					return false
				}
				c := x.Call.StaticCallee()
				if c == nil {
					return false
				}
				o, _ := c.Object().(*types.Func)
				if o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), protoPath) && (strings.HasPrefix(o.Name(), "Get") || o.Name() == "String") {
					continue
				}
				if P.inModule(c) {
					if !P.effectFree(c) {
						return false
					}
					continue
				}
				if classify(fnName(c), o, &x.Call) != clsPure {
					return false
				}
			}
		}
	}
	P.effMemo[f] = true
	return true
}
