package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	verif, repo := "/verif", "/repo"
	if v := os.Getenv("NAV_VERIF"); v != "" {
		verif = v
	}
	if v := os.Getenv("NAV_REPO"); v != "" {
		repo = v
	}
	if len(os.Args) > 1 && os.Args[1] == "explore" {
		t := time.Now()
		P, err := loadProgram(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fmt.Println("loaded", len(P.fns), time.Since(t))
		for _, n := range os.Args[2:] {
			f := P.fn(n)
			if f == nil {
				fmt.Println("no", n)
				continue
			}
			e := newEngine(P)
			t := time.Now()
			if b := os.Getenv("NAV_BOUND"); b != "" {
				e.boundary = func(n string) bool { return strings.Contains(","+b+",", ","+n+",") }
			}
			if x := os.Getenv("NAV_SEQ"); x != "" {
				e.seqAppend = func(t types.Type) bool { return strings.Contains(t.String(), x) }
			}
			if os.Getenv("NAV_BACK") != "" {
				e.onBack = func(it *iteration) {
					fmt.Println("BACK", fnName(it.fn), it.key.hdr, "rng", it.rng, "elem", it.elem, "rval", it.rval)
					for _, ev := range it.st.events {
						fmt.Println("   ev", ev.kind, ev.name, ev.args, "->", ev.res)
					}
					for v, t := range it.vals {
						fmt.Println("   val", v, t)
					}
					if os.Getenv("NAV_BACK") == "mem" {
						for k, v := range it.st.mem {
							fmt.Println("   mem", k, "=", v)
						}
						it.st.lits(func(t, v *Term, eq bool) bool {
							fmt.Println("   lit", t, v, eq)
							return false
						})
						for k := range it.st.ex {
							fmt.Println("   ex", k.t, k.val, k.eq)
						}
					}
				}
			}
			if os.Getenv("NAV_DEBUG") == "hdr" {
				e.dbgHdr = func(fr *Frame, to *ssa.BasicBlock, en env, st *State) {
					fmt.Println("HDR", fnName(fr.fn), to.Index)
					for v, t := range en {
						fmt.Println("   en", v.Name(), t)
					}
					for k, v := range st.mem {
						fmt.Println("   mem", k, "=", v)
					}
					for k, v := range st.facts {
						fmt.Println("   fact", k, v)
					}
					for k := range st.ex {
						fmt.Println("   ex", k.t, k.val, k.eq)
					}
					for _, ev := range st.events {
						fmt.Println("   ev", ev.kind, ev.name, ev.args)
					}
				}
			}
			outs := e.run(f, entryArgs(f), newState())
			fmt.Println(n, len(outs), "outcomes", e.steps, "steps", time.Since(t), e.failed)
			for i, o := range outs {
				if i > 3 {
					break
				}
				fmt.Printf("  ret=%v panic=%v\n", o.ret, o.panic)
				for _, ev := range o.st.events {
					fmt.Printf("    %s %s %v @%s\n", ev.kind, shortName(ev.name), ev.args, P.pos(ev.pos))
				}
				for k, v := range o.st.facts {
					fmt.Printf("    fact %v = %v != %v\n", k, v.eq, v.neq)
				}
				for k := range o.st.ex {
					fmt.Printf("    ex %v = %v %v\n", k.t, k.val, k.eq)
				}
			}
		}
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "ops" {
		P, err := loadProgram(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugOps(P, os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "rpc" {
		P, _ := loadProgram(repo)
		debugRPC(P, os.Args[2:])
		return
	}
	sort.Slice(checks, func(i, j int) bool { return checks[i].id < checks[j].id })
	if len(os.Args) > 1 && os.Args[1] == "list" {
		for _, c := range checks {
			fmt.Printf("%s\t%s\t%s\n", c.id, c.technique, c.rule)
		}
		return
	}
	rc := 0
	for _, id := range os.Args[1:] {
		ck := findCheck(id)
		if ck == nil {
			fmt.Println("no such check:", id)
			os.Exit(2)
		}
		if r := runCheck(ck, verif, repo); r > rc {
			rc = r
		}
	}
	os.Exit(rc)
}

// debugOps prints what the operations of the tree manager save.
func debugOps(P *Program, ops []string) {
	c := &Ctx{P: P, vseen: map[string]bool{}, obs: map[string]int{}, insts: map[string]map[string]bool{}, fns: map[string]bool{}, opaque: map[string]bool{}}
	t := c.chainsOf()
	fmt.Println("hooks", len(t.all), "chains", len(t.chains["entity"]), len(t.chains["group"]), t.errs, t.dups)
	for n, r := range c.runOps(t, "x", ops, nil) {
		fmt.Println("==", n, "outs", len(r.outs), "saves", len(r.saves), "iters", len(r.iters), "steps", r.e.steps)
		for i, s := range r.saves {
			if i > 60 {
				break
			}
			fmt.Println("  save", s.chain, "src", s.src)
			for _, f := range s.changed() {
				fmt.Printf("     %s: %v => %v\n", f, s.orig[f], s.change[f])
			}
		}
		if os.Getenv("NAV_DEBUG") == "iters" {
			for i, it := range r.iters {
				if os.Getenv("NAV_FN") == "" && i > 7 || !strings.Contains(fnName(it.fn), os.Getenv("NAV_FN")) {
					continue
				}
				fmt.Println("  ITER", fnName(it.fn), it.base)
				for k, v := range it.st.mem {
					fmt.Printf("      mem %v = %v\n", k, v)
				}
				for k, v := range it.st.facts {
					fmt.Printf("      fact %v = %v != %v\n", k, v.eq, v.neq)
				}
				for k := range it.st.ex {
					fmt.Printf("      ex %v = %v %v\n", k.t, k.val, k.eq)
				}
				for k := range it.st.hav {
					fmt.Printf("      hav %v %d\n", k, it.st.hav[k])
				}
				for _, ev := range it.st.events {
					fmt.Printf("      ev %s %v\n", ev.name, ev.args)
				}
				for _, ev := range it.vals {
					fmt.Printf("      val %v\n", ev)
				}
			}
		}
		for i, it := range r.iters {
			if i > 60 {
				break
			}
			if it.base != nil {
				fmt.Println("  iter", fnName(it.fn), it.base, it.keeps(it.elem))
			}
		}
	}
	for _, v := range c.viols {
		fmt.Println("V", v.Rule, v.Instance, v.Msg)
	}
}

func debugRPC(P *Program, only []string) {
	c := &Ctx{P: P, vseen: map[string]bool{}, obs: map[string]int{}, insts: map[string]map[string]bool{}, fns: map[string]bool{}, opaque: map[string]bool{}}
	var its []*iteration
	for n, r := range c.runHandlers("x", func(e *Engine) { e.onBack = func(it *iteration) { its = append(its, it) } }, only...) {
		if os.Getenv("NAV_DEBUG") == "iters" {
			for _, it := range its {
				fmt.Println("  ITER", fnName(it.fn), it.hdr.Index, "base", it.base, "elem", it.elem, "rng", it.rng, "rkey", it.rkey)
				for _, ev := range it.st.events {
					if ev.kind != "call" {
						fmt.Printf("      ev %s %v\n", ev.name, ev.args)
					}
				}
				for _, v := range it.vals {
					fmt.Printf("      val %v\n", v)
				}
				for k, v := range it.st.mem {
					fmt.Printf("      mem %v = %v\n", k, v)
				}
			}
			for _, cl := range r.calls {
				if strings.HasSuffix(cl.ev.name, "Generate") {
					fmt.Println("CALL", cl.ev.args)
					for k, v := range cl.st.mem {
						fmt.Printf("      mem %v = %v\n", k, v)
					}
					for k := range cl.st.ex {
						fmt.Printf("      ex %v = %v %v\n", k.t, k.val, k.eq)
					}
				}
			}
		}
		had := map[string]bool{}
		for _, cl := range r.calls {
			if mgrMethod(cl.ev) == "" {
				continue
			}
			l := fmt.Sprint(n, " ", shortName(cl.ev.name), " ", cl.ev.args[1:])
			if !had[l] {
				had[l] = true
				fmt.Println(l)
			}
		}
	}
}
