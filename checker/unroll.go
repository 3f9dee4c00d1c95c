package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
)

// A loop over a short list that is written out in the source stands for its
// body once per element.  Such loops are rewritten in the syntax tree before
// it is type-checked, so that every analysis sees the statements with their
// own operands, whichever of the two forms the source uses:
//
//	for i, v := range []T{a, b} { body }
//
// becomes
//
//	var t1 T = a; var t2 T = b
//	{ i, v := 0, t1; body }
//	{ i, v := 1, t2; body }
//
// The list may also be a variable that is defined by such a list and used for
// nothing else.

const maxUnroll = 6

type unroller struct {
	n      int
	locals map[string]*ast.CompositeLit // of the function at hand
	global map[string]*ast.CompositeLit // of the package
}

var (
	pkgLists   = map[string]map[string]*ast.CompositeLit{}
	pkgListsMu sync.Mutex
)

func parseUnrolled(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
	f, err := parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments|parser.SkipObjectResolution)
	if f == nil || err != nil {
		return f, err
	}
	u := &unroller{global: packageLists(filepath.Dir(name))}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			u.locals = localLists(fd.Body, u.global)
			u.node(fd.Body)
		}
	}
	return f, nil
}

// constList: a list that is written out.
func constList(x ast.Expr) *ast.CompositeLit {
	l, ok := x.(*ast.CompositeLit)
	if !ok || len(l.Elts) == 0 || len(l.Elts) > maxUnroll {
		return nil
	}
	if _, ok := l.Type.(*ast.ArrayType); !ok {
		return nil
	}
	for _, e := range l.Elts {
		if _, ok := e.(*ast.KeyValueExpr); ok {
			return nil
		}
	}
	return l
}

// uses counts the identifiers of a name in n, and of those the ones ranged
// over.
func uses(n ast.Node, name string) (all, ranged int) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.Ident:
			if x.Name == name {
				all++
			}
		case *ast.RangeStmt:
			if id, ok := x.X.(*ast.Ident); ok && id.Name == name {
				ranged++
			}
		}
		return true
	})
	return
}

// localLists: the variables of a function that are defined by a list that is
// written out and only ranged over, once.
func localLists(body *ast.BlockStmt, global map[string]*ast.CompositeLit) map[string]*ast.CompositeLit {
	out := map[string]*ast.CompositeLit{}
	add := func(id *ast.Ident, x ast.Expr) {
		l := constList(x)
		if l == nil || id.Name == "_" {
			return
		}
		if all, ranged := uses(body, id.Name); all == 2 && ranged == 1 {
			out[id.Name] = l
		}
	}
	ast.Inspect(body, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
				if id, ok := x.Lhs[0].(*ast.Ident); ok {
					add(id, x.Rhs[0])
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 1 && len(x.Values) == 1 && x.Type == nil {
				add(x.Names[0], x.Values[0])
			}
		}
		return true
	})
	return out
}

// packageLists: the same for the variables of a package, whose elements must
// not depend on when they are evaluated.
func packageLists(dir string) map[string]*ast.CompositeLit {
	pkgListsMu.Lock()
	defer pkgListsMu.Unlock()
	if m, ok := pkgLists[dir]; ok {
		return m
	}
	m := map[string]*ast.CompositeLit{}
	pkgLists[dir] = m
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			continue
		}
		if f, err := parser.ParseFile(token.NewFileSet(), n, src, parser.SkipObjectResolution); err == nil {
			files = append(files, f)
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				if len(v.Names) != 1 || len(v.Values) != 1 || v.Type != nil || ast.IsExported(v.Names[0].Name) || v.Names[0].Name == "_" {
					continue
				}
				l := constList(v.Values[0])
				if l == nil || !fixedExpr(l) {
					continue
				}
				all, ranged := 0, 0
				for _, f := range files {
					a, r := uses(f, v.Names[0].Name)
					all += a
					ranged += r
				}
				if all == ranged+1 {
					m[v.Names[0].Name] = l
				}
			}
		}
	}
	return m
}

func fixedExpr(x ast.Expr) bool {
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch n.(type) {
		case nil, *ast.CompositeLit, *ast.BasicLit, *ast.ArrayType, *ast.StructType, *ast.FieldList, *ast.Field, *ast.Ident, *ast.KeyValueExpr:
		default:
			ok = false
		}
		return ok
	})
	return ok
}

func (u *unroller) node(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			if x != nil {
				u.list(x.List)
			}
		case *ast.CaseClause:
			u.list(x.Body)
		case *ast.CommClause:
			u.list(x.Body)
		}
		return true
	})
}

func (u *unroller) list(l []ast.Stmt) {
	for i, s := range l {
		if r, ok := s.(*ast.RangeStmt); ok {
			if b := u.unroll(r); b != nil {
				l[i] = b
			}
		}
	}
}

func (u *unroller) unroll(r *ast.RangeStmt) ast.Stmt {
	lit := constList(r.X)
	local := ""
	if id, ok := r.X.(*ast.Ident); ok {
		if lit = u.locals[id.Name]; lit != nil {
			local = id.Name
		} else {
			lit = u.global[id.Name]
		}
	}
	if lit == nil || r.Tok == token.ASSIGN {
		return nil
	}
	hasGoto := false
	ast.Inspect(r.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.LabeledStmt:
			hasGoto = true
		case *ast.BranchStmt:
			if n.Label != nil {
				hasGoto = true
			}
		}
		return true
	})
	if hasGoto {
		return nil
	}
	u.n++
	pos := r.For
	elem := lit.Type.(*ast.ArrayType).Elt
	id := func(s string) *ast.Ident { return &ast.Ident{NamePos: pos, Name: s} }
	name := func(o any) string {
		if i, ok := o.(*ast.Ident); ok && i != nil && i.Name != "_" {
			return i.Name
		}
		return ""
	}
	key, val := name(r.Key), name(r.Value)
	var out []ast.Stmt
	if id2, ok := r.X.(*ast.Ident); ok {
		out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, TokPos: pos, Tok: token.ASSIGN, Rhs: []ast.Expr{id(id2.Name)}})
	}
	if val != "" {
		for k, e := range lit.Elts {
			var x ast.Expr
			if local != "" {
				x = &ast.IndexExpr{X: id(local), Lbrack: pos, Rbrack: pos, Index: &ast.BasicLit{ValuePos: pos, Kind: token.INT, Value: fmt.Sprint(k)}}
			} else {
				x = clone(e).(ast.Expr)
				if cl, ok := x.(*ast.CompositeLit); ok && cl.Type == nil {
					if p, ok := elem.(*ast.StarExpr); ok {
						cl.Type = clone(p.X).(ast.Expr)
						x = &ast.UnaryExpr{OpPos: cl.Lbrace, Op: token.AND, X: cl}
					} else {
						cl.Type = clone(elem).(ast.Expr)
					}
				}
			}
			out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{TokPos: x.Pos(), Tok: token.VAR, Specs: []ast.Spec{
				&ast.ValueSpec{Names: []*ast.Ident{id(u.tmp(k))}, Type: clone(elem).(ast.Expr), Values: []ast.Expr{x}}}}})
		}
	}
	end := fmt.Sprintf("navEnd%d", u.n)
	ended := false
	for k := range lit.Elts {
		var b []ast.Stmt
		if key != "" {
			b = append(b, &ast.AssignStmt{Lhs: []ast.Expr{id(key)}, TokPos: pos, Tok: token.DEFINE,
				Rhs: []ast.Expr{&ast.BasicLit{ValuePos: pos, Kind: token.INT, Value: fmt.Sprint(k)}}})
		}
		if val != "" {
			b = append(b, &ast.AssignStmt{Lhs: []ast.Expr{id(val)}, TokPos: pos, Tok: token.DEFINE, Rhs: []ast.Expr{id(u.tmp(k))}})
		}
		body := clone(r.Body).(*ast.BlockStmt)
		next := fmt.Sprintf("navNext%d_%d", u.n, k)
		br, cont := retarget(body, end, next, true, true)
		ended = ended || br
		// the body is a block of its own: it may declare the names again
		b = append(b, body)
		if cont {
			out = append(out, labeled(next, pos, b))
		} else {
			out = append(out, &ast.BlockStmt{Lbrace: pos, List: b, Rbrace: r.Body.Rbrace})
		}
	}
	var s ast.Stmt = &ast.BlockStmt{Lbrace: pos, List: out, Rbrace: r.Body.Rbrace}
	if ended {
		s = labeled(end, pos, out)
	}
	return s
}

func (u *unroller) tmp(k int) string { return fmt.Sprintf("navElem%d_%d", u.n, k) }

// labeled: statements that a labeled break can leave.
func labeled(name string, pos token.Pos, l []ast.Stmt) ast.Stmt {
	return &ast.LabeledStmt{Label: &ast.Ident{NamePos: pos, Name: name}, Colon: pos, Stmt: &ast.SwitchStmt{Switch: pos,
		Body: &ast.BlockStmt{Lbrace: pos, Rbrace: pos, List: []ast.Stmt{&ast.CaseClause{Case: pos, Colon: pos, Body: l}}}}}
}

// retarget makes the breaks and continues that belong to the loop whose body
// n is leave the statements of the given labels.
func retarget(n ast.Node, end, next string, brk, cont bool) (b, c bool) {
	ast.Inspect(n, func(x ast.Node) bool {
		if x == n {
			return true
		}
		switch x := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ForStmt:
			return false
		case *ast.RangeStmt:
			return false
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			if brk {
				b2, c2 := retarget(x, end, next, false, cont)
				b, c = b || b2, c || c2
				return false
			}
		case *ast.BranchStmt:
			if x.Label != nil {
				return true
			}
			switch {
			case x.Tok == token.BREAK && brk:
				x.Label, b = &ast.Ident{NamePos: x.TokPos, Name: end}, true
			case x.Tok == token.CONTINUE && cont:
				x.Tok, x.Label, c = token.BREAK, &ast.Ident{NamePos: x.TokPos, Name: next}, true
			}
		}
		return true
	})
	return
}

// clone copies a syntax tree.
func clone(n ast.Node) ast.Node {
	return cloneValue(reflect.ValueOf(n)).Interface().(ast.Node)
}

func cloneValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup:
			return reflect.Zero(v.Type())
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(cloneValue(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type()).Elem()
		p.Set(cloneValue(v.Elem()))
		return p
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(cloneValue(v.Index(i)))
		}
		return s
	case reflect.Struct:
		s := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if s.Field(i).CanSet() {
				s.Field(i).Set(cloneValue(v.Field(i)))
			}
		}
		return s
	}
	return v
}
