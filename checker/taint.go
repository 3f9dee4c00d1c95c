package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A taint analysis of the values that carry secrets: flow-insensitive
// within a function, context-sensitive between functions through
// summaries (what results, memory and log statements receive from which
// parameter), field-based in memory.

// An atom says why a value is of interest.
type atomKind uint8

const (
	isSecret atomKind = iota // definitely
	ofParam                  // if parameter n is
	isKey                    // the name of the metadata with the token
	ofKey                    // the name given as parameter n
	ifKey                    // a secret if parameter n is the name of the token
)

type atom struct {
	k atomKind
	n int
}

func (a atom) secretish() bool { return a.k == isSecret || a.k == ofParam || a.k == ifKey }

// facts: the atoms of a value with the origin of the secret.
type facts map[atom]string

// A cell is a place in memory that is shared between functions.
type cell struct {
	name string
	keys bool // the keys of the map in it
}

type node struct {
	v    ssa.Value
	c    cell
	keys bool
}

// An effect is what happens to a value handed to a function.
type effect struct {
	to cell // memory it is stored in, or
	// the log statement it is given to
	log string
	// used: it is used as a secret
	used bool
}

type summary struct {
	res     []facts
	out     []facts // what parameters refer to afterwards
	effects map[effect]facts
}

type taint struct {
	P     *Program
	sums  map[*ssa.Function]*summary
	cells map[cell]facts
	fns   []*ssa.Function
	known map[*ssa.Function]bool
	impls map[string][]*ssa.Function
	taken map[string][]*ssa.Function
	types map[types.Type]string
	// declared secrets
	cellSrc func(name string) bool
	param   func(f *ssa.Function, i int) bool
	result  func(f *ssa.Function, i int) bool
	sink    func(f *ssa.Function, cc *ssa.CallCommon) bool
	changed bool
	logs    map[string]*logCall
	hits    map[string]*logHit
	quiet   func(f *ssa.Function) bool
	// source: the origin of a value that an external function returns
	source func(f *ssa.Function, call ssa.CallInstruction, name string) string
}

type logCall struct {
	in   *ssa.Function
	call ssa.CallInstruction
	name string
}

type logHit struct {
	log, origin string
	via         []string
}

// recvOf: the named type a method is declared on, and its name.
func (t *taint) cellOf(T types.Type, i int) cell {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	s, ok := T.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return cell{name: T.String() + "?"}
	}
	return cell{name: typeName(T) + "." + s.Field(i).Name()}
}

func typeName(T types.Type) string {
	return types.TypeString(T, func(p *types.Package) string {
		return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "github.com/netauth/")
	})
}

// canCarry: a value of this type can hold a text.
func canCarry(T types.Type) bool {
	if T == nil {
		return false
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	case *types.Signature:
		return false
	case *types.Interface:
		return !isContext(T)
	case *types.Tuple:
		return true
	}
	return true
}

func isContext(T types.Type) bool { return T.String() == "context.Context" }

func isRef(T types.Type) bool {
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	}
	return false
}

func isMap(T types.Type) bool { _, ok := T.Underlying().(*types.Map); return ok }

// carries: values of the type contain a secret.
func (t *taint) carries(T types.Type) string {
	if r, ok := t.types[T]; ok {
		return r
	}
	t.types[T] = ""
	r := ""
	switch u := T.(type) {
	case *types.Named:
		n := typeName(u)
		if n == "crypto/rsa.PrivateKey" || n == "crypto/ecdsa.PrivateKey" || n == "crypto/ed25519.PrivateKey" {
			r = "a private key"
			break
		}
		s, ok := u.Underlying().(*types.Struct)
		if !ok {
			r = t.carries(u.Underlying())
			break
		}
		for i := 0; i < s.NumFields() && r == ""; i++ {
			if c := t.cellOf(u, i); t.secretCell(c) != "" {
				r = c.name
			} else {
				r = t.carries(s.Field(i).Type())
			}
		}
	case *types.Alias:
		r = t.carries(types.Unalias(u))
	case *types.Pointer:
		r = t.carries(u.Elem())
	case *types.Slice:
		r = t.carries(u.Elem())
	case *types.Array:
		r = t.carries(u.Elem())
	case *types.Map:
		if r = t.carries(u.Elem()); r == "" {
			r = t.carries(u.Key())
		}
	case *types.Struct:
		for i := 0; i < u.NumFields() && r == ""; i++ {
			r = t.carries(u.Field(i).Type())
		}
	}
	t.types[T] = r
	return r
}

func (t *taint) secretCell(c cell) string {
	if t.cellSrc(c.name) {
		return c.name
	}
	return t.cells[c][atom{k: isSecret}]
}

func (t *taint) addCell(c cell, a atom, why string) {
	if a.k != isSecret && a.k != isKey {
		return
	}
	m := t.cells[c]
	if m == nil {
		m = facts{}
		t.cells[c] = m
	}
	if _, ok := m[a]; !ok {
		m[a] = why
		t.changed = true
		t.types = map[types.Type]string{}
	}
}

// ---- one function ----

type taintFn struct {
	t     *taint
	f     *ssa.Function
	vals  map[node]facts
	dirty bool
	par   map[ssa.Value]int
	sum   *summary
}

// canon: the place a value refers to.
func (x *taintFn) canon(v ssa.Value, keys bool) node {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			c := x.t.cellOf(a.X.Type(), a.Field)
			c.keys = keys
			return node{c: c}
		case *ssa.Global:
			return node{c: cell{name: "variable " + a.String(), keys: keys}}
		case *ssa.FreeVar:
			return node{c: cell{name: "captured " + fnName(a.Parent()) + "." + a.Name(), keys: keys}}
		case *ssa.IndexAddr:
			v = a.X
			continue
		}
		return node{v: v, keys: keys}
	}
}

func (x *taintFn) get(n node) facts {
	if n.v == nil {
		m := x.t.cells[n.c]
		if x.t.cellSrc(n.c.name) && !n.c.keys {
			r := facts{{k: isSecret}: n.c.name}
			for a, w := range m {
				if a.k != isSecret {
					r[a] = w
				}
			}
			return r
		}
		return m
	}
	if k, ok := n.v.(*ssa.Const); ok {
		if k.Value != nil && k.Value.String() == `"authorization"` {
			return facts{{k: isKey}: "authorization"}
		}
		return nil
	}
	return x.vals[n]
}

func (x *taintFn) add(n node, a atom, why string) {
	if n.v == nil {
		switch a.k {
		case isSecret, isKey:
			x.t.addCell(n.c, a, why)
		case ofParam, ifKey:
			x.effect(effect{to: n.c}, a, why)
		}
		return
	}
	if _, ok := n.v.(*ssa.Const); ok {
		return
	}
	if a.secretish() && !canCarry(n.v.Type()) {
		return
	}
	m := x.vals[n]
	if m == nil {
		m = facts{}
		x.vals[n] = m
	}
	if _, ok := m[a]; !ok {
		m[a] = why
		x.dirty = true
	}
}

func (x *taintFn) flow(from, to node) {
	for a, w := range x.get(from) {
		x.add(to, a, w)
	}
}

// alias: both refer to the same memory.
func (x *taintFn) alias(a, b ssa.Value) {
	x.flow(x.canon(a, false), x.canon(b, false))
	T := b.Type()
	if isRef(T) {
		x.flow(x.canon(b, false), x.canon(a, false))
	}
	if isMap(T) {
		x.flow(x.canon(a, true), x.canon(b, true))
		x.flow(x.canon(b, true), x.canon(a, true))
	}
}

func (x *taintFn) effect(ef effect, a atom, why string) {
	if a.k == isSecret && ef.to.name != "" {
		x.t.addCell(ef.to, a, why)
		return
	}
	if a.k == isSecret && ef.log != "" {
		if x.t.hits[ef.log] == nil {
			x.t.hits[ef.log] = &logHit{log: ef.log, origin: why, via: []string{"in " + fnName(x.f)}}
			x.t.changed = true
		}
		return
	}
	if a.k != ofParam && a.k != ifKey {
		return
	}
	m := x.sum.effects[ef]
	if m == nil {
		m = facts{}
		x.sum.effects[ef] = m
	}
	if _, ok := m[a]; !ok {
		m[a] = why
		x.t.changed = true
	}
}

// translate: what an atom of a callee means for the caller.
func (x *taintFn) translate(a atom, why string, args []ssa.Value, f func(a atom, why string)) {
	switch a.k {
	case isSecret, isKey:
		f(a, why)
	case ofParam:
		if a.n < len(args) {
			for b, w := range x.get(x.canon(args[a.n], false)) {
				if b.secretish() {
					f(b, w)
				}
			}
			if w := x.whole(args[a.n]); w != "" {
				f(atom{k: isSecret}, w)
			}
		}
	case ofKey, ifKey:
		if a.n < len(args) {
			for b, w := range x.get(x.canon(args[a.n], false)) {
				switch {
				case b.k == isKey && a.k == ofKey:
					f(b, w)
				case b.k == isKey:
					f(atom{k: isSecret}, "the token of the request")
				case b.k == ofKey && a.k == ofKey:
					f(b, w)
				case b.k == ofKey:
					f(atom{ifKey, b.n}, why)
				}
			}
		}
	}
}

// whole: the value contains a secret because of its type.
func (x *taintFn) whole(v ssa.Value) string {
	if w := x.t.carries(v.Type()); w != "" {
		return fmt.Sprintf("%s as a part of %s", w, typeName(v.Type()))
	}
	return ""
}

// used: the value is used as a secret, so it is one.
func (x *taintFn) used(v ssa.Value, why string, depth int) {
	if depth > 20 {
		return
	}
	switch o := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.FreeVar, *ssa.FieldAddr:
		return
	case *ssa.Parameter:
		x.effect(effect{used: true}, atom{ofParam, x.par[o]}, why)
	case *ssa.Phi:
		for _, e := range o.Edges {
			if e != v {
				x.used(e, why, depth+1)
			}
		}
	case *ssa.Convert:
		x.used(o.X, why, depth+1)
	case *ssa.ChangeType:
		x.used(o.X, why, depth+1)
	case *ssa.MakeInterface:
		x.used(o.X, why, depth+1)
	case *ssa.Slice:
		x.used(o.X, why, depth+1)
	case *ssa.UnOp:
		if al, ok := o.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					x.used(s.Val, why, depth+1)
				}
			}
		}
	case *ssa.Alloc:
		for _, r := range *o.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == o {
				x.used(s.Val, why, depth+1)
			}
		}
	case *ssa.Call:
		if f := o.Call.StaticCallee(); f != nil && strings.HasSuffix(f.String(), "protobuf/proto.String") {
			x.used(o.Call.Args[0], why, depth+1)
		}
	}
	n := node{v: v}
	if _, ok := x.vals[n][atom{k: isSecret}]; !ok {
		x.add(n, atom{k: isSecret}, why)
	}
}

func (x *taintFn) run() {
	f := x.f
	for i, p := range f.Params {
		x.par[p] = i
		x.vals[node{v: p}] = facts{}
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				x.vals[node{v: p}][atom{ofKey, i}] = ""
			}
		}
		if canCarry(p.Type()) {
			x.vals[node{v: p}][atom{ofParam, i}] = ""
		}
		if x.t.param(f, i) {
			x.vals[node{v: p}][atom{k: isSecret}] = fmt.Sprintf("%s of %s", p.Name(), fnName(f))
		}
	}
	x.dirty = true
	for x.dirty {
		x.dirty = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x.instr(in)
			}
		}
	}
	// what parameters refer to
	for i, p := range f.Params {
		if !isRef(p.Type()) {
			continue
		}
		for a, w := range x.vals[node{v: p}] {
			if a == (atom{ofParam, i}) || !a.secretish() {
				continue
			}
			if x.t.param(f, i) {
				continue
			}
			if x.sum.out[i] == nil {
				x.sum.out[i] = facts{}
			}
			if _, ok := x.sum.out[i][a]; !ok {
				x.sum.out[i][a] = w
				x.t.changed = true
			}
		}
	}
}

func (x *taintFn) instr(in ssa.Instruction) {
	val := func(v ssa.Value) node { return x.canon(v, false) }
	switch i := in.(type) {
	case *ssa.Store:
		c := x.canon(i.Addr, false)
		x.flow(val(i.Val), c)
		if c.v == nil && x.t.cellSrc(c.c.name) {
			x.used(i.Val, c.c.name, 0)
		}
		if isRef(i.Val.Type()) {
			x.flow(c, val(i.Val))
		}
		if isMap(i.Val.Type()) {
			x.flow(x.canon(i.Val, true), x.canon(i.Addr, true))
			x.flow(x.canon(i.Addr, true), x.canon(i.Val, true))
		}
	case *ssa.UnOp:
		switch i.Op.String() {
		case "*":
			c := x.canon(i.X, false)
			x.flow(c, val(i))
			if isRef(i.Type()) {
				x.flow(val(i), c)
			}
			if isMap(i.Type()) {
				x.flow(x.canon(i.X, true), x.canon(i, true))
				x.flow(x.canon(i, true), x.canon(i.X, true))
			}
		case "<-":
			x.flow(val(i.X), val(i))
		}
	case *ssa.Send:
		x.flow(val(i.X), val(i.Chan))
	case *ssa.Phi:
		for _, e := range i.Edges {
			x.alias(e, i)
		}
	case *ssa.ChangeType:
		x.alias(i.X, i)
	case *ssa.Slice:
		x.alias(i.X, i)
	case *ssa.SliceToArrayPointer:
		x.alias(i.X, i)
	case *ssa.Convert:
		x.flow(val(i.X), val(i))
	case *ssa.ChangeInterface:
		x.flow(val(i.X), val(i))
	case *ssa.MakeInterface:
		x.flow(val(i.X), val(i))
		if w := x.whole(i.X); w != "" {
			x.add(val(i), atom{k: isSecret}, w)
		}
	case *ssa.TypeAssert:
		x.flow(val(i.X), val(i))
	case *ssa.Field:
		x.flow(node{c: x.t.cellOf(i.X.Type(), i.Field)}, val(i))
	case *ssa.Index:
		x.flow(val(i.X), val(i))
	case *ssa.Extract:
		switch t := i.Tuple.(type) {
		case *ssa.Next:
			if t.IsString {
				return
			}
			r := t.Iter.(*ssa.Range)
			x.flow(x.canon(r.X, i.Index == 1), val(i))
			return
		case *ssa.Call:
			x.callResult(t, i.Index, i)
			return
		}
		if i.Index == 0 {
			x.flow(val(i.Tuple), val(i))
		}
	case *ssa.Lookup:
		if c := x.canon(i.X, false); isMetadata(i.X.Type()) || c.v != nil && isMetadata(c.v.Type()) {
			x.metadata(i.Index, i)
		} else {
			x.flow(val(i.X), val(i))
		}
	case *ssa.MapUpdate:
		x.flow(val(i.Value), val(i.Map))
		x.flow(val(i.Key), x.canon(i.Map, true))
	case *ssa.BinOp:
		if canCarry(i.Type()) && i.Type().Underlying().String() == "string" {
			x.flow(val(i.X), val(i))
			x.flow(val(i.Y), val(i))
		}
	case *ssa.MakeClosure:
		g := i.Fn.(*ssa.Function)
		for k, b := range i.Bindings {
			for _, keys := range []bool{false, true} {
				c := node{c: cell{name: "captured " + fnName(g) + "." + g.FreeVars[k].Name(), keys: keys}}
				x.flow(x.canon(b, keys), c)
				x.flow(c, x.canon(b, keys))
			}
		}
	case *ssa.Return:
		for k, r := range i.Results {
			if x.t.result(x.f, k) {
				x.used(r, fmt.Sprintf("the result of %s", fnName(x.f)), 0)
			}
			if x.sum.res[k] == nil {
				x.sum.res[k] = facts{}
			}
			for a, w := range x.get(val(r)) {
				if _, ok := x.sum.res[k][a]; !ok {
					x.sum.res[k][a] = w
					x.t.changed = true
				}
			}
		}
	case *ssa.Call:
		x.call(i)
	case *ssa.Go:
		x.call(i)
	case *ssa.Defer:
		x.call(i)
	}
}

func isMetadata(T types.Type) bool { return strings.HasSuffix(T.String(), "grpc/metadata.MD") }

// metadata: v is read from the metadata of a request under a name.
func (x *taintFn) metadata(key ssa.Value, v ssa.Value) {
	for a, w := range x.get(x.canon(key, false)) {
		switch a.k {
		case isKey:
			x.add(node{v: v}, atom{k: isSecret}, "the token of the request")
		case ofKey:
			x.add(node{v: v}, atom{ifKey, a.n}, w)
		}
	}
}

// callees: the functions of the program that a call may reach.
func (t *taint) callees(cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		key := cc.Value.Type().String() + "." + cc.Method.Name()
		if l, ok := t.impls[key]; ok {
			return l
		}
		var l []*ssa.Function
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, sp := range t.P.byPkg {
			for _, m := range sp.Members {
				ty, ok := m.(*ssa.Type)
				if !ok || it == nil {
					continue
				}
				for _, T := range []types.Type{ty.Type(), types.NewPointer(ty.Type())} {
					if _, isI := T.Underlying().(*types.Interface); isI || !types.Implements(T, it) {
						continue
					}
					if sel := t.P.prog.MethodSets.MethodSet(T).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
						if g := t.P.prog.MethodValue(sel); g != nil && g.Blocks != nil {
							l = append(l, g)
						}
					}
				}
			}
		}
		t.impls[key] = l
		for _, g := range l {
			t.learn(g)
		}
		return l
	}
	if g := cc.StaticCallee(); g != nil {
		if g.Blocks != nil {
			t.learn(g)
			return []*ssa.Function{g}
		}
		return nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	return t.taken[cc.Signature().String()]
}

func (t *taint) learn(g *ssa.Function) {
	if !t.known[g] {
		t.known[g] = true
		t.fns = append(t.fns, g)
		t.changed = true
	}
}

func (t *taint) summary(f *ssa.Function) *summary {
	s := t.sums[f]
	if s == nil {
		s = &summary{res: make([]facts, f.Signature.Results().Len()), out: make([]facts, len(f.Params)), effects: map[effect]facts{}}
		t.sums[f] = s
	}
	return s
}

func callArgs(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func (x *taintFn) call(ci ssa.CallInstruction) {
	cc := ci.Common()
	args := callArgs(cc)
	if cc.IsInvoke() && isLogPkg(pkgPathOf(cc.Method)) || isLogCall(cc) || x.t.sink(x.f, cc) {
		x.log(ci, args)
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if v := valueOf(ci); v != nil {
				x.alias(args[0], v)
				if len(args) > 1 {
					x.flow(x.canon(args[1], false), node{v: v})
				}
			}
		case "copy":
			x.flow(x.canon(args[1], false), x.canon(args[0], false))
		}
		return
	}
	v := valueOf(ci)
	gs := x.t.callees(cc)
	for _, g := range gs {
		s := x.t.summary(g)
		for ef, m := range s.effects {
			for a, w := range m {
				if ef.used {
					if a.k == ofParam && a.n < len(args) {
						x.used(args[a.n], w, 0)
					}
					continue
				}
				ef := ef
				x.translate(a, w, args, func(b atom, w string) {
					if b.k == isSecret && ef.log != "" && x.t.hits[ef.log] == nil {
						x.t.hits[ef.log] = &logHit{log: ef.log, origin: w, via: []string{"passed from " + fnName(x.f) + " to " + fnName(g)}}
						x.t.changed = true
						return
					}
					x.effect(ef, b, w)
				})
			}
		}
		for i := range g.Params {
			if i >= len(args) {
				break
			}
			if x.t.param(g, i) {
				x.used(args[i], fmt.Sprintf("%s of %s", g.Params[i].Name(), fnName(g)), 0)
			}
			for a, w := range s.out[i] {
				x.translate(a, w, args, func(b atom, w string) { x.add(x.canon(args[i], false), b, w) })
			}
		}
		if v != nil && g.Signature.Results().Len() == 1 {
			x.results(v, g, 0, s, args)
		}
	}
	// a method declared secret by its interface
	if len(gs) > 0 && !cc.IsInvoke() {
		return
	}
	if len(gs) > 0 {
		return
	}
	x.external(ci, args, v)
}

// valueOf: the result of a call, nil for go and defer.
func valueOf(ci ssa.CallInstruction) ssa.Value {
	if c, ok := ci.(*ssa.Call); ok {
		return c
	}
	return nil
}

func pkgPathOf(f *types.Func) string {
	if f == nil || f.Pkg() == nil {
		return ""
	}
	return f.Pkg().Path()
}

func (x *taintFn) results(v ssa.Value, g *ssa.Function, i int, s *summary, args []ssa.Value) {
	if x.t.result(g, i) {
		x.add(node{v: v}, atom{k: isSecret}, "the result of "+fnName(g))
	}
	for a, w := range s.res[i] {
		x.translate(a, w, args, func(b atom, w string) { x.add(node{v: v}, b, w) })
	}
}

// callResult: v is result i of a call.
func (x *taintFn) callResult(call *ssa.Call, i int, v ssa.Value) {
	cc := call.Common()
	args := callArgs(cc)
	gs := x.t.callees(cc)
	for _, g := range gs {
		x.results(v, g, i, x.t.summary(g), args)
	}
	if len(gs) == 0 && canCarry(v.Type()) {
		if v.Type().String() == "error" && !formats(cc) {
			return
		}
		x.flow(node{v: call}, node{v: v})
	}
}

// formats: the call turns its arguments into the text of an error.
func formats(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil || f.Object() == nil {
		return false
	}
	p := pkgPathOf(f.Object().(*types.Func))
	return p == "fmt" || strings.HasSuffix(p, "errors") || strings.HasSuffix(p, "grpc/status")
}

func (x *taintFn) external(ci ssa.CallInstruction, args []ssa.Value, v ssa.Value) {
	cc := ci.Common()
	name := ""
	f := cc.StaticCallee()
	if f != nil {
		name = f.String()
	} else if cc.IsInvoke() {
		name = cc.Method.FullName()
	}
	if v == nil {
		return
	}
	if w := x.t.source(x.f, ci, name); w != "" {
		x.add(node{v: v}, atom{k: isSecret}, w)
	}
	if !canCarry(v.Type()) {
		return
	}
	// accessors of messages
	if f != nil && f.Signature.Recv() != nil && len(args) == 1 && strings.HasPrefix(f.Name(), "Get") {
		T := args[0].Type()
		if p, ok := T.Underlying().(*types.Pointer); ok {
			T = p.Elem()
		}
		if s, ok := T.Underlying().(*types.Struct); ok && strings.HasPrefix(typeName(T), "protocol") {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == f.Name()[3:] {
					c := x.t.cellOf(T, i)
					x.flow(node{c: c}, node{v: v})
					if isMap(v.Type()) {
						c.keys = true
						x.flow(node{c: c}, node{v: v, keys: true})
					}
					return
				}
			}
		}
	}
	if strings.HasSuffix(name, "grpc/metadata.FromIncomingContext") || strings.HasSuffix(name, "grpc/metadata.FromOutgoingContext") {
		x.add(node{v: v}, atom{k: isSecret}, "the metadata of the request")
		return
	}
	if strings.HasSuffix(name, "grpc/metadata.MD).Get") || strings.HasSuffix(name, "grpc/metadata.ValueFromIncomingContext") {
		x.metadata(args[len(args)-1], v)
		return
	}
	if r := cc.Signature().Results(); r.Len() == 1 && r.At(0).Type().String() == "error" && !formats(cc) {
		return
	}
	for i, a := range args {
		if isContext(a.Type()) {
			continue
		}
		if f != nil && f.Signature.Recv() != nil && i == 0 && t2(a.Type()) {
			// writers keep what they are given
			for _, b := range args[1:] {
				x.flow(x.canon(b, false), x.canon(a, false))
			}
		}
		for at, w := range x.get(x.canon(a, false)) {
			if at.secretish() {
				x.add(node{v: v}, at, w)
			}
			if at.k == isKey || at.k == ofKey {
				// a prefix or a copy of the name
				if strings.HasPrefix(name, "strings.") {
					x.add(node{v: v}, at, w)
				}
			}
		}
		if w := x.whole(a); w != "" {
			x.add(node{v: v}, atom{k: isSecret}, w)
		}
	}
}

func t2(T types.Type) bool {
	switch T.String() {
	case "*strings.Builder", "*bytes.Buffer":
		return true
	}
	return false
}

// log: a log statement.
func (x *taintFn) log(ci ssa.CallInstruction, args []ssa.Value) {
	if x.t.quiet(x.f) {
		return
	}
	cc := ci.Common()
	start := 0
	if cc.IsInvoke() || cc.Signature().Recv() != nil {
		start = 1
	}
	msg := ""
	for i, a := range args {
		if i < start {
			continue
		}
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && msg == "" {
			msg = k.Value.String()
		}
	}
	base := fmt.Sprintf("%s %s", fnName(x.f), msg)
	note := func(key string, v ssa.Value) {
		id := base
		if key != "" {
			id += " " + key
		}
		if x.t.logs[id] == nil {
			x.t.logs[id] = &logCall{in: x.f, call: ci, name: id}
		}
		for a, w := range x.get(x.canon(v, false)) {
			if a.secretish() {
				x.effect(effect{log: id}, a, w)
			}
		}
		if w := x.whole(v); w != "" {
			x.effect(effect{log: id}, atom{k: isSecret}, w)
		}
	}
	for i, a := range args {
		if i < start || isContext(a.Type()) {
			continue
		}
		s, ok := a.(*ssa.Slice)
		al, ok2 := ssa.Value(nil), false
		if ok {
			al, ok2 = s.X.(*ssa.Alloc)
		}
		if !ok2 {
			note("", a)
			continue
		}
		// the arguments one by one
		type el struct {
			i int64
			v ssa.Value
		}
		var els []el
		for _, r := range *al.(*ssa.Alloc).Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				continue
			}
			for _, r := range *ia.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ia {
					els = append(els, el{k.Int64(), st.Val})
				}
			}
		}
		sort.Slice(els, func(i, j int) bool { return els[i].i < els[j].i })
		key := ""
		for _, e := range els {
			v := e.v
			if m, ok := v.(*ssa.MakeInterface); ok {
				if k, ok := m.X.(*ssa.Const); ok && k.Value != nil {
					key = k.Value.String()
					continue
				}
			}
			if key == "" {
				key = fmt.Sprintf("argument %d", e.i+1)
			}
			note(key, v)
			key = ""
		}
	}
}

// solve analyses all functions until nothing changes.
func (t *taint) solve() {
	t.sums = map[*ssa.Function]*summary{}
	t.cells = map[cell]facts{}
	t.known = map[*ssa.Function]bool{}
	t.impls = map[string][]*ssa.Function{}
	t.taken = map[string][]*ssa.Function{}
	t.types = map[types.Type]string{}
	t.logs = map[string]*logCall{}
	t.hits = map[string]*logHit{}
	for _, f := range t.P.fns {
		t.known[f] = true
		t.fns = append(t.fns, f)
	}
	for _, sp := range t.P.byPkg {
		if f := sp.Func("init"); f != nil {
			t.learn(f)
		}
	}
	// functions used as values
	seen := map[*ssa.Function]bool{}
	for _, f := range t.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var skip *ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					skip = &ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op == skip {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil && !seen[g] {
						seen[g] = true
						t.taken[g.Signature.String()] = append(t.taken[g.Signature.String()], g)
					}
				}
			}
		}
	}
	for round := 0; round < 40; round++ {
		t.changed = false
		for i := 0; i < len(t.fns); i++ {
			f := t.fns[i]
			x := &taintFn{t: t, f: f, vals: map[node]facts{}, par: map[ssa.Value]int{}, sum: t.summary(f)}
			x.run()
		}
		if !t.changed {
			break
		}
	}
}
