package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded and resolved source of the module under
// analysis.
type Program struct {
	root  string
	fset  *token.FileSet
	pkgs  []*packages.Package
	prog  *ssa.Program
	byPkg map[string]*ssa.Package // short path -> package
	fns   []*ssa.Function         // every function of the module with a body (incl. anonymous)
	nfile int

	gstores map[*ssa.Global][]*ssa.Store
	gescape map[*ssa.Global]bool
	loops   map[*ssa.Function]*loopInfo
	shapes  map[*ssa.Function]map[*ssa.BinOp]*loopShape
	live    map[*ssa.Function]map[int]map[ssa.Value]bool
	setMaps map[ssa.Value]bool
	logMemo map[ssa.Value]bool
	effMemo map[*ssa.Function]bool
}

type loadError struct{ msg string }

func (e loadError) Error() string { return e.msg }

func loadProgram(root string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "naverif")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range [][2]string{{"go.mod", "netauth.mod"}, {"go.sum", "netauth.sum"}} {
		b, err := os.ReadFile(filepath.Join(root, f[0]))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f[1]), b, 0o644); err != nil {
			return nil, err
		}
	}
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "netauth.mod"))
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedDeps | packages.NeedModule,
		Dir:       root,
		Env:       env,
		Fset:      fset,
		ParseFile: parseUnrolled,
	}
	// Dependencies are needed as types only: drop their syntax.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, loadError{"the source does not type-check: " + strings.Join(errs, "; ")}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{root: root, fset: fset, pkgs: pkgs, prog: prog, byPkg: map[string]*ssa.Package{},
		gstores: map[*ssa.Global][]*ssa.Store{}, gescape: map[*ssa.Global]bool{},
		loops: map[*ssa.Function]*loopInfo{}, live: map[*ssa.Function]map[int]map[ssa.Value]bool{}, shapes: map[*ssa.Function]map[*ssa.BinOp]*loopShape{},
		logMemo: map[ssa.Value]bool{}, setMaps: map[ssa.Value]bool{}, effMemo: map[*ssa.Function]bool{}}
	for i, p := range pkgs {
		if spkgs[i] == nil {
			return nil, loadError{"no SSA form for " + p.PkgPath}
		}
		P.byPkg[strings.TrimPrefix(p.PkgPath, modPath)] = spkgs[i]
		P.nfile += len(p.CompiledGoFiles)
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks != nil && P.inModule(f) {
			P.fns = append(P.fns, f)
		}
	}
	// functions only reachable as members
	seen := map[*ssa.Function]bool{}
	for _, f := range P.fns {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil {
			return
		}
		if !seen[f] {
			seen[f] = true
			P.fns = append(P.fns, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range P.byPkg {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(T)
					for i := 0; i < ms.Len(); i++ {
						if fo, ok := ms.At(i).Obj().(*types.Func); ok && fo.Pkg() == sp.Pkg {
							add(prog.FuncValue(fo))
						}
					}
				}
			}
		}
	}
	sort.Slice(P.fns, func(i, j int) bool { return P.fns[i].String() < P.fns[j].String() })
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Addr == g {
							P.gstores[g] = append(P.gstores[g], x)
						} else {
							P.gescape[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
					case *ssa.DebugRef:
					default:
						P.gescape[g] = true
					}
				}
			}
		}
	}
	return P, nil
}

func (P *Program) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path()+"/", modPath)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path()+"/", modPath)
	}
	return strings.Contains(f.String(), modPath)
}

// fnName is the stable short name of a function.
func fnName(f *ssa.Function) string { return shortName(f.String()) }

// fn finds a function or method by its short name, e.g.
// "internal/tree.New" or "(*internal/tree.Manager).SetSecret".
func (P *Program) fn(name string) *ssa.Function {
	for _, f := range P.fns {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}

// method finds the method of a named type, with pointer or value
// receiver.
func (P *Program) method(pkg, typ, name string) *ssa.Function {
	sp := P.byPkg[pkg]
	if sp == nil {
		return nil
	}
	m, ok := sp.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, T := range []types.Type{types.NewPointer(m.Type()), m.Type()} {
		if sel := P.prog.MethodSets.MethodSet(T).Lookup(sp.Pkg, name); sel != nil {
			return P.prog.MethodValue(sel)
		}
	}
	return nil
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.fset.Position(p)
	rel, err := filepath.Rel(P.root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (P *Program) syntaxOf(pkg string) []*ast.File {
	for _, p := range P.pkgs {
		if strings.TrimPrefix(p.PkgPath, modPath) == pkg {
			return p.Syntax
		}
	}
	return nil
}

// loops

type loopInfo struct {
	inLoops map[int][]int // block -> headers of enclosing loops, outermost first
	header  map[int]bool
}

func (P *Program) loopsOf(f *ssa.Function) *loopInfo {
	if l, ok := P.loops[f]; ok {
		return l
	}
	l := &loopInfo{inLoops: map[int][]int{}, header: map[int]bool{}}
	body := map[int]map[int]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l.header[s.Index] = true
				m := body[s.Index]
				if m == nil {
					m = map[int]bool{s.Index: true}
					body[s.Index] = m
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if m[x.Index] {
						continue
					}
					m[x.Index] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	var hs []int
	for h := range body {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool {
		return len(body[hs[i]]) > len(body[hs[j]]) || len(body[hs[i]]) == len(body[hs[j]]) && hs[i] < hs[j]
	})
	for _, b := range f.Blocks {
		for _, h := range hs {
			if body[h][b.Index] {
				l.inLoops[b.Index] = append(l.inLoops[b.Index], h)
			}
		}
	}
	P.loops[f] = l
	return l
}

// liveIn computes the values live at the entry of each block (phis of
// the block itself excluded from the values defined elsewhere).
func (P *Program) liveIn(f *ssa.Function) map[int]map[ssa.Value]bool {
	if l, ok := P.live[f]; ok {
		return l
	}
	in := map[int]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		in[b.Index] = map[ssa.Value]bool{}
	}
	isLocal := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar:
			return false
		}
		return v != nil
	}
	changed := true
	for changed {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s.Index] {
					live[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
						for _, in := range s.Instrs {
							if ph, ok := in.(*ssa.Phi); ok {
								if isLocal(ph.Edges[pi]) {
									live[ph.Edges[pi]] = true
								}
							}
						}
					}
				}
			}
			// phis of successors are defined there, not live here
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if _, isPhi := ins.(*ssa.Phi); isPhi {
					continue
				}
				for _, o := range ins.Operands(nil) {
					if isLocal(*o) {
						live[*o] = true
					}
				}
			}
			for _, ins := range b.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok {
					delete(live, ph)
				}
			}
			if len(live) != len(in[b.Index]) {
				in[b.Index] = live
				changed = true
			}
		}
	}
	// note: a phi used in its own block after definition is live after
	// the phis; states are keyed after the phis were assigned.
	P.live[f] = in
	return in
}

// loopShape describes a loop that is controlled by an index into a
// list: whether it visits every element, and in which direction.
type loopShape struct {
	idx  ssa.Value // the index used in the body
	list ssa.Value // the list
	full bool
	down bool
}

// loopConds finds the conditions of the loops of f that are controlled
// by an index.
func (P *Program) loopConds(f *ssa.Function) map[*ssa.BinOp]*loopShape {
	if m, ok := P.shapes[f]; ok {
		return m
	}
	m := map[*ssa.BinOp]*loopShape{}
	li := P.loopsOf(f)
	for h := range li.header {
		hdr := f.Blocks[h]
		iff, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Block() != hdr {
			continue
		}
		if s := shapeOf(li, hdr, bo); s != nil {
			m[bo] = s
		}
	}
	P.shapes[f] = m
	return m
}

func lenArg(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

func intConst(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return c.Int64(), true
	}
	return 0, false
}

func shapeOf(li *loopInfo, hdr *ssa.BasicBlock, bo *ssa.BinOp) *loopShape {
	// the header phi behind a value, and the offset to it
	phiOf := func(v ssa.Value) (*ssa.Phi, int64) {
		off := int64(0)
		if b, ok := v.(*ssa.BinOp); ok && b.Block() == hdr {
			n, ok := intConst(b.Y)
			switch {
			case ok && b.Op == token.ADD:
				off, v = n, b.X
			case ok && b.Op == token.SUB:
				off, v = -n, b.X
			default:
				if n, ok := intConst(b.X); ok && b.Op == token.ADD {
					off, v = n, b.Y
				}
			}
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == hdr {
			return p, off
		}
		return nil, 0
	}
	for k := 0; k < 2; k++ {
		x, y, op := bo.X, bo.Y, bo.Op
		if k == 1 {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		ph, off := phiOf(x)
		if ph == nil {
			continue
		}
		s := &loopShape{idx: x}
		// initial value and step
		init, step := []ssa.Value{}, []int64{}
		for i, p := range hdr.Preds {
			ed := ph.Edges[i]
			if !hdr.Dominates(p) {
				init = append(init, ed)
				continue
			}
			d := int64(0)
			for n := 0; n < 4 && ed != ph; n++ {
				b, ok := ed.(*ssa.BinOp)
				if !ok {
					break
				}
				c, isc := intConst(b.Y)
				nx := b.X
				if !isc && b.Op == token.ADD {
					c, isc = intConst(b.X)
					nx = b.Y
				}
				if !isc || b.Op != token.ADD && b.Op != token.SUB {
					break
				}
				if b.Op == token.SUB {
					c = -c
				}
				d += c
				ed = nx
			}
			if ed != ph {
				d = 1 << 40
			}
			step = append(step, d)
		}
		all := func(d int64) bool {
			for _, x := range step {
				if x != d {
					return false
				}
			}
			return len(step) > 0
		}
		if l := lenArg(y); l != nil && (op == token.LSS || op == token.NEQ || op == token.GEQ || op == token.EQL) {
			s.list = l
			s.full = all(1)
			for _, v := range init {
				n, ok := intConst(v)
				s.full = s.full && ok && n+off == 0
			}
			return s
		}
		if b, ok := y.(*ssa.BinOp); ok && b.Op == token.SUB {
			if n, isc := intConst(b.Y); isc && n == 1 && lenArg(b.X) != nil && (op == token.LEQ || op == token.GTR) {
				s.list = lenArg(b.X)
				s.full = all(1)
				for _, v := range init {
					n, ok := intConst(v)
					s.full = s.full && ok && n+off == 0
				}
				return s
			}
		}
		if n, isc := intConst(y); isc && off == 0 && (n == 0 && (op == token.GEQ || op == token.LSS) || n == -1 && (op == token.GTR || op == token.NEQ || op == token.LEQ || op == token.EQL)) {
			s.down = true
			s.full = all(-1) && len(init) == 1
			for _, v := range init {
				b, ok := v.(*ssa.BinOp)
				if !ok || b.Op != token.SUB {
					s.full = false
					break
				}
				n, isc := intConst(b.Y)
				l := lenArg(b.X)
				if !isc || n != 1 || l == nil {
					s.full = false
					break
				}
				s.list = l
			}
			if s.full {
				return s
			}
		}
	}
	return nil
}
