package main

import (
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Transfer of list elements through loops: for every path through the
// body of a loop over a list, which element is visited and what it is
// put into.
type iteration struct {
	fn   *ssa.Function
	hdr  *ssa.BasicBlock
	key  nestKey
	base *Term // the list (nil if the loop is not over a list)
	elem *Term // the element visited
	idx  *Term // its index
	st   *State
	vals []*Term // values of the loop variables at the end of the iteration
	rng  *Term   // the map ranged over, if any
	rkey *Term
	rval *Term
}

func (e *Engine) recordIteration(fr *Frame, from, to *ssa.BasicBlock, en env, st *State) {
	it := &iteration{fn: fr.fn, hdr: to, key: nestKey{fr.ctx, to.Index}, st: st.clone()}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		it.vals = append(it.vals, e.val(fr, en, ph.Edges[pi]))
	}
	for t, f := range st.facts {
		if t.op == OpExt && t.n == 0 && t.args[0].op == OpNext && f.eq == kTrue && hasNest(t.vol, it.key) {
			if r := t.args[0].args[0]; r.op == OpPure && r.s == "range" && !hasNest(r.vol, it.key) {
				it.rng, it.rkey, it.rval = r.args[0], ext(t.args[0], 1), ext(t.args[0], 2)
			}
		}
		// idx < len(list) was taken
		if t.op == OpBin && t.s == "<" && f.eq == kTrue && t.args[1].op == OpPure && t.args[1].s == "len" && hasNest(t.args[0].vol, it.key) && !hasNest(t.args[1].vol, it.key) {
			it.base = t.args[1].args[0]
			var et types.Type
			if it.base.typ != nil {
				if s, ok := it.base.typ.Underlying().(*types.Slice); ok {
					et = s.Elem()
				}
			}
			if et == nil {
				it.base = nil
				continue
			}
			it.idx = t.args[0]
			it.elem = e.load(st, mk(Term{op: OpElem, args: []*Term{it.base, it.idx}, typ: et}), et)
		}
	}
	e.onBack(it)
}

// puts reports whether v was appended to a list, or stored in a list made
// with the length of the one visited, at the index of the element visited.
func (it *iteration) puts(v *Term) bool {
	if it.keeps(v) {
		return true
	}
	if it.base == nil || it.idx == nil {
		return false
	}
	for a, t := range it.st.mem {
		if t == v && a.op == OpElem && a.args[1] == it.idx {
			m := strip(a.args[0])
			if m.op == OpMake && len(m.args) > 0 {
				if l := strip(m.args[0]); l.op == OpPure && l.s == "len" && same(l.args[0], it.base) {
					return true
				}
			}
		}
	}
	return false
}

// kept lists the terms into which v was put in this iteration.
func (it *iteration) keeps(v *Term) bool {
	has := func(t *Term) bool {
		if t.op != OpAppend {
			return false
		}
		for _, a := range t.args[1:] {
			if a == v {
				return true
			}
		}
		return false
	}
	for _, t := range it.vals {
		if has(t) {
			return true
		}
	}
	for _, t := range it.st.mem {
		if has(t) {
			return true
		}
	}
	return false
}

// set reports whether v was used as a key of a map in this iteration.
func (it *iteration) mapKey(v *Term) *Term {
	for _, ev := range it.st.events {
		if ev.kind == "mapset" && ev.args[1] == v {
			return ev.args[0]
		}
	}
	return nil
}

// dedupFns finds the functions that return the elements of their list
// argument, each once and without empty strings, and decides for each
// that it neither loses nor invents an element.
func (c *Ctx) dedupFns(rule string) map[string]bool {
	out := map[string]bool{}
	for _, f := range c.P.fns {
		sig := f.Signature
		if f.Parent() != nil || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || f.Pkg == nil {
			continue
		}
		pt, ok := sig.Params().At(0).Type().(*types.Slice)
		if !ok || !types.Identical(pt, sig.Results().At(0).Type()) {
			continue
		}
		if why := c.isDedup(f); why == "" {
			out[fnName(f)] = true
			c.ob(rule, fnName(f))
		} else if debugDedup {
			println(fnName(f), why)
		}
	}
	return out
}

var debugDedup = os.Getenv("NAV_DEBUG") == "dedup"

func (c *Ctx) isDedup(f *ssa.Function) string {
	e := newEngine(c.P)
	var its []*iteration
	e.onBack = func(it *iteration) { its = append(its, it) }
	args := entryArgs(f)
	list := args[0]
	outs := e.run(f, args, newState())
	if e.failed != "" {
		return e.failed
	}
	isElem := func(t *Term) bool { return elemBase(t) == list }
	var tmp *Term
	n := 0
	for _, it := range its {
		if it.base == list {
			n++
			s := it.elem
			if m := it.mapKey(s); m != nil {
				tmp = m
				if it.keeps(s) {
					continue
				}
				continue
			}
			if it.keeps(s) || it.st.eqKnown(nil, s, kString("")) == 1 {
				continue
			}
			if it.st.lits(func(t, v *Term, eq bool) bool {
				return eq && v == kTrue && t.op == OpPure && t.s == "has" && len(t.args) == 2 && t.args[1] == s
			}) {
				continue
			}
			return "an element may be lost"
		}
	}
	if n == 0 {
		return "no loop over the argument"
	}
	for _, it := range its {
		if it.rng == nil || it.rng != tmp {
			continue
		}
		ok := it.keeps(it.rkey)
		for a, v := range it.st.mem {
			if a.op == OpElem && v == it.rkey {
				for _, x := range it.vals {
					if x == mkBin(token.ADD, a.args[1], kInt(1), a.args[1].typ) {
						ok = true
					}
				}
			}
		}
		if !ok {
			return "a collected element may be lost"
		}
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		for _, ev := range o.st.events {
			if ev.kind == "mapset" && !isElem(ev.args[1]) {
				return "a foreign element is collected"
			}
		}
		isKey := func(t *Term) bool {
			t = strip(t)
			if isElem(t) {
				return true
			}
			return t.op == OpExt && t.n == 1 && t.args[0].op == OpNext && tmp != nil && strip(t.args[0].args[0]) == strip(mk(Term{op: OpPure, s: "range", args: []*Term{tmp}}))
		}
		switch r := o.res(0); r.op {
		case OpAppend:
			for _, x := range r.args[1:] {
				if !isKey(x) {
					return "a foreign element is returned"
				}
			}
		case OpMake:
			if tmp == nil || len(r.args) != 1 || r.args[0].op != OpPure || r.args[0].s != "len" || r.args[0].args[0] != tmp {
				return "the result does not have the size of the collection"
			}
			for a, v := range o.st.mem {
				if a.op == OpElem && a.args[0] == r {
					for _, x := range alts(v) {
						if !isKey(x) {
							return "a foreign element is returned"
						}
					}
				}
			}
		case OpConst:
		default:
			el, whole := e.listItems(o.st, r)
			if len(whole) > 0 {
				return "the result is not understood"
			}
			for _, x := range el {
				if !isKey(x) {
					return "a foreign element is returned"
				}
			}
		}
	}
	return ""
}
