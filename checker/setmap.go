package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// isSetMap: v is a map made in the function at hand (or around it) that is
// used as a set: every value ever stored in it is true, and it is used for
// nothing but storing, reading and ranging.  Reading an element then tells
// whether its key is there.
func (P *Program) isSetMap(v ssa.Value) bool {
	mt, ok := v.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	if b, ok := mt.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	if r, ok := P.setMaps[v]; ok {
		return r
	}
	r := P.isSetMap1(v)
	P.setMaps[v] = r
	return r
}

func (P *Program) isSetMap1(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeMap:
		return setUses(v, nil)
	case *ssa.UnOp:
		cell := v.X
		for i := 0; i < 8; i++ {
			fv, ok := cell.(*ssa.FreeVar)
			if !ok {
				break
			}
			b := binding(fv)
			if b == nil {
				return false
			}
			cell = b
		}
		a, ok := cell.(*ssa.Alloc)
		if !ok {
			return false
		}
		made := 0
		return setCell(a, a, &made) && made == 1
	}
	return false
}

// binding: what a free variable stands for, if its function is made in one
// place.
func binding(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	if f.Parent() == nil {
		return nil
	}
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	var out ssa.Value
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				if out != nil {
					return nil
				}
				out = mc.Bindings[idx]
			}
		}
	}
	return out
}

// setCell: every use of the variable p (the cell, or a free variable that
// stands for it) reads a map used as a set, or is its only initialisation.
func setCell(p ssa.Value, cell *ssa.Alloc, made *int) bool {
	for _, r := range *p.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			m, ok := r.Val.(*ssa.MakeMap)
			if !ok || r.Addr != p || !setUses(m, cell) {
				return false
			}
			*made++
		case *ssa.UnOp:
			if !setUses(r, cell) {
				return false
			}
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == p && !setCell(f.FreeVars[i], cell, made) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func setUses(v ssa.Value, cell *ssa.Alloc) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.Lookup, *ssa.Range:
		case *ssa.MapUpdate:
			k, ok := r.Value.(*ssa.Const)
			if !ok || r.Map != v || k.Value == nil || k.Value.Kind() != constant.Bool || !constant.BoolVal(k.Value) {
				return false
			}
		case *ssa.Store:
			if cell == nil || r.Addr != ssa.Value(cell) {
				return false
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "delete" {
				return false
			}
		default:
			return false
		}
	}
	return true
}
