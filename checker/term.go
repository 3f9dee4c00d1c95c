package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// Abstract values are hash-consed terms.  Two values are equal in the
// abstract domain exactly if they are the same *Term.

type Op uint8

const (
	OpConst   Op = iota
	OpZero       // zero value of a composite type
	OpGlobal     // address of a global
	OpGVal       // value of a global that is only written by package initialisation
	OpParam      // parameter of the analysed entry point
	OpAlloc      // address of an allocation
	OpField      // address of a field:  args[0] base address
	OpFVal       // value of a field of a struct value
	OpElem       // address of an element: args[0] slice value or array address, args[1] index
	OpDeref      // unknown content of an address; n = epoch
	OpCall       // result of an opaque call instance
	OpPure       // result of a deterministic function
	OpExt        // component of a tuple
	OpBin        // binary operation
	OpUn         // unary operation
	OpConv       // conversion
	OpMkIface    // interface holding a concrete value
	OpAssert     // type assertion
	OpClosure    // function value with bindings
	OpFn         // function value
	OpTuple      // tuple
	OpStruct     // struct value
	OpSlice      // subslice
	OpAppend     // args[0] base, args[1:] appended elements
	OpMapElem    // address of a map entry
	OpMake       // made map/slice/chan
	OpNext       // result of one step of a range over map/string
	OpLoop       // loop-carried value
	OpSome       // value of the argument in some earlier iteration
	OpMerge      // protobuf merge of a field value: args[0] old, args[1] new
	OpOpaque     // anything
)

type nestKey struct {
	ctx string
	hdr int
}

type Term struct {
	id    int
	op    Op
	s     string
	n     int
	c     constant.Value
	typ   types.Type
	args  []*Term
	nest  []nestKey // loops the term was created in (atoms)
	vol   []nestKey // union over the whole term (volatile)
	some  []nestKey // loops of which it is a previous iteration's value
	depth int
	fn    any // *ssa.Function for OpFn/OpClosure
}

type termTable struct {
	m    map[string]*Term
	next int
}

var tt = &termTable{m: map[string]*Term{}}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func unionNest(a, b []nestKey) []nestKey {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	out := append([]nestKey{}, a...)
	for _, k := range b {
		f := false
		for _, x := range out {
			if x == k {
				f = true
				break
			}
		}
		if !f {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].ctx != out[j].ctx {
			return out[i].ctx < out[j].ctx
		}
		return out[i].hdr < out[j].hdr
	})
	return out
}

func mk(t Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%d|", t.op, t.s, t.n)
	if t.c != nil {
		b.WriteString(t.c.ExactString())
	}
	b.WriteByte('|')
	switch t.op {
	case OpConst, OpParam, OpZero, OpConv, OpMkIface, OpAssert, OpStruct, OpMake:
		b.WriteString(typeKey(t.typ))
	}
	b.WriteByte('|')
	for _, a := range t.args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	b.WriteByte('|')
	for _, k := range t.nest {
		fmt.Fprintf(&b, "%s#%d,", k.ctx, k.hdr)
	}
	if t.op == OpSome {
		b.WriteByte('|')
		for _, k := range t.some {
			fmt.Fprintf(&b, "%s#%d,", k.ctx, k.hdr)
		}
	}
	key := b.String()
	if x, ok := tt.m[key]; ok {
		return x
	}
	tt.next++
	n := t
	n.id = tt.next
	n.vol = unionNest(nil, t.nest)
	if t.op == OpSome {
		n.vol = t.vol
	}
	for _, a := range t.args {
		if t.op != OpSome {
			n.vol = unionNest(n.vol, a.vol)
			n.some = unionNest(n.some, a.some)
		}
		if a.depth+1 > n.depth {
			n.depth = a.depth + 1
		}
	}
	tt.m[key] = &n
	return &n
}

func kConst(c constant.Value, typ types.Type) *Term {
	return mk(Term{op: OpConst, c: c, typ: basicOf(typ)})
}

// constants are identified irrespective of their named type except for
// named (enumeration) types.
func basicOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if b, ok := t.(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 {
			return types.Typ[types.Int]
		}
		if b.Info()&types.IsString != 0 {
			return types.Typ[types.String]
		}
		if b.Info()&types.IsBoolean != 0 {
			return types.Typ[types.Bool]
		}
	}
	return t.Underlying()
}

var kNil = mk(Term{op: OpConst, s: "nil"})
var kTrue = kConst(constant.MakeBool(true), types.Typ[types.Bool])
var kFalse = kConst(constant.MakeBool(false), types.Typ[types.Bool])

func kBool(b bool) *Term {
	if b {
		return kTrue
	}
	return kFalse
}
func kInt(i int64) *Term     { return kConst(constant.MakeInt64(i), types.Typ[types.Int]) }
func kString(s string) *Term { return kConst(constant.MakeString(s), types.Typ[types.String]) }

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return kFalse
		case u.Info()&types.IsInteger != 0:
			return kInt(0)
		case u.Info()&types.IsString != 0:
			return kString("")
		case u.Info()&types.IsFloat != 0:
			return kConst(constant.MakeFloat64(0), t)
		}
		return kNil
	case *types.Struct, *types.Array:
		return mk(Term{op: OpZero, typ: t})
	}
	return kNil
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isNil() bool   { return t == kNil }
func (t *Term) str() (string, bool) {
	if t.op == OpConst && t.c != nil && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}
func (t *Term) intv() (int64, bool) {
	if t.op == OpConst && t.c != nil && t.c.Kind() == constant.Int {
		return constant.Int64Val(t.c)
	}
	return 0, false
}

// nonNil reports whether the term is certainly not nil.
func (t *Term) nonNil() bool {
	switch t.op {
	case OpAlloc, OpField, OpElem, OpMkIface, OpClosure, OpFn, OpGlobal, OpMake, OpStruct:
		return true
	case OpGVal:
		return t.n == 1 // initialised by a constructor that never returns nil
	case OpPure:
		switch t.s {
		case "errors.New", "fmt.Errorf", "status.Errorf", "status.Error", "context.WithValue", "context.Background":
			return true
		}
	case OpConst:
		return t.c != nil
	case OpConv:
		return t.args[0].nonNil()
	case OpAppend:
		return len(t.args) > 1
	case OpSome:
		return t.args[0].nonNil()
	case OpBin:
		return true
	}
	return false
}

// distinctConst reports whether t denotes a fixed value that differs
// from every other such value.
func (t *Term) distinct() bool {
	switch t.op {
	case OpConst, OpFn, OpGlobal:
		return true
	case OpGVal:
		return t.n == 1
	case OpMkIface:
		return t.args[0].distinct()
	}
	return false
}

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if d > 6 {
		return "…"
	}
	a := func(i int) string {
		if i >= len(t.args) {
			return "?"
		}
		return t.args[i].show(d + 1)
	}
	switch t.op {
	case OpConst:
		if t.c == nil {
			return "nil"
		}
		return t.c.String()
	case OpZero:
		return "zero(" + shortType(t.typ) + ")"
	case OpGlobal:
		return "&" + t.s
	case OpGVal:
		return t.s
	case OpParam:
		return t.s
	case OpAlloc:
		return "new(" + shortType(t.typ) + ")#" + fmt.Sprint(t.id)
	case OpField:
		return a(0) + "." + t.s
	case OpFVal:
		return a(0) + "." + t.s
	case OpElem:
		return a(0) + "[" + a(1) + "]"
	case OpDeref:
		if t.n > 0 {
			return fmt.Sprintf("(%s)'%d", a(0), t.n)
		}
		if t.args[0].op == OpField || t.args[0].op == OpElem {
			return a(0)
		}
		return "*" + a(0)
	case OpCall, OpPure:
		x := make([]string, len(t.args))
		for i := range t.args {
			x[i] = a(i)
		}
		return shortName(t.s) + "(" + strings.Join(x, ", ") + ")"
	case OpExt:
		return fmt.Sprintf("%s·%d", a(0), t.n)
	case OpBin:
		return "(" + a(0) + " " + t.s + " " + a(1) + ")"
	case OpUn:
		return t.s + a(0)
	case OpConv, OpMkIface:
		return a(0)
	case OpAssert:
		return a(0) + ".(" + shortType(t.typ) + ")"
	case OpClosure, OpFn:
		return "func " + shortName(t.s)
	case OpSome:
		return "some:" + a(0)
	case OpLoop:
		return "loop:" + t.s
	case OpMapElem:
		return a(0) + "[" + a(1) + "]"
	}
	x := make([]string, len(t.args))
	for i := range t.args {
		x[i] = a(i)
	}
	names := map[Op]string{OpTuple: "tuple", OpStruct: "struct", OpSlice: "slice", OpAppend: "append", OpMake: "make", OpNext: "next", OpMerge: "merge", OpOpaque: "opaque"}
	return names[t.op] + "(" + strings.Join(x, ", ") + ")"
}

const modPath = "github.com/netauth/netauth/"
const protoPath = "github.com/netauth/protocol"

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath, "")
	s = strings.ReplaceAll(s, "github.com/netauth/", "")
	return s
}
func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return shortName(types.TypeString(t, nil))
}

// contains reports whether x occurs in t.
func (t *Term) contains(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func hasNest(l []nestKey, k nestKey) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

// ager renames values of the current iteration of a loop to values of
// some earlier iteration.
type ager struct {
	k    nestKey
	memo map[*Term]*Term
}

func (g *ager) age(t *Term) *Term {
	if !hasNest(t.vol, g.k) {
		return t
	}
	if r, ok := g.memo[t]; ok {
		return r
	}
	var r *Term
	if hasNest(t.nest, g.k) {
		// an atom of this iteration
		var outer []nestKey
		for _, v := range t.vol {
			if v != g.k {
				outer = append(outer, v)
			}
		}
		if t.op == OpSome {
			r = mk(Term{op: OpSome, args: t.args, some: unionNest(t.some, []nestKey{g.k}), vol: outer, nest: nil, typ: t.typ})
		} else {
			r = mk(Term{op: OpSome, args: []*Term{t}, some: []nestKey{g.k}, vol: outer, typ: t.typ})
		}
		// the nest of the Some term: remaining loops
		r = someWithNest(r, outer)
	} else if t.op == OpSome {
		var outer []nestKey
		for _, v := range t.vol {
			if v != g.k {
				outer = append(outer, v)
			}
		}
		r = mk(Term{op: OpSome, args: t.args, some: unionNest(t.some, []nestKey{g.k}), vol: outer, typ: t.typ})
	} else {
		n := *t
		n.id, n.vol, n.some, n.depth = 0, nil, nil, 0
		n.args = make([]*Term, len(t.args))
		for i, a := range t.args {
			n.args[i] = g.age(a)
		}
		r = renorm(n)
	}
	g.memo[t] = r
	return r
}

func someWithNest(t *Term, outer []nestKey) *Term { return t }

// renorm rebuilds a term after substitution.
func renorm(n Term) *Term {
	switch n.op {
	case OpAppend:
		return mkAppend(n.args[0], n.args[1:], n.typ)
	}
	return mk(n)
}

// emptySlice is an empty slice made at a site.
func emptySlice(site string, nest []nestKey, elem, typ types.Type) *Term {
	a := mk(Term{op: OpAlloc, s: site, nest: nest, typ: types.NewArray(elem, 0)})
	return mk(Term{op: OpSlice, args: []*Term{a, kNil, kNil}, typ: typ})
}

func mkAppend(base *Term, elems []*Term, typ types.Type) *Term {
	if base.op == OpAppend {
		all := append(append([]*Term{}, base.args[1:]...), elems...)
		base, elems = base.args[0], all
	}
	var out []*Term
	for _, e := range elems {
		dup := false
		if len(e.some) > 0 {
			for _, o := range out {
				if o == e {
					dup = true
				}
			}
		}
		if !dup {
			out = append(out, e)
		}
	}
	if len(out) == 0 && base.op != OpConst {
		return base
	}
	return mk(Term{op: OpAppend, args: append([]*Term{base}, out...), typ: typ})
}

// un strips Some and Conv wrappers that do not change identity.
func un(t *Term) *Term {
	for t.op == OpSome {
		t = t.args[0]
	}
	return t
}
