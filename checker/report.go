package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A Check decides one property.
type Check struct {
	id        string
	rule      string // the rule applied, one paragraph, for the evidence
	technique string
	run       func(c *Ctx)
}

type Violation struct {
	Rule     string   `json:"rule"`
	Instance string   `json:"instance"`
	Pos      string   `json:"pos"`
	Msg      string   `json:"msg"`
	Path     []string `json:"path,omitempty"`
}

func (v Violation) key() string { return v.Rule + "|" + v.Instance }

type Ctx struct {
	P     *Program
	tier  string
	seed  int
	check *Check

	viols  []Violation
	vseen  map[string]bool
	obs    map[string]int // rule -> obligations checked
	insts  map[string]map[string]bool
	states int
	outs   int
	fns    map[string]bool
	notes  []string
	assume []string
	opaque map[string]bool
	selfOK int
}

func (c *Ctx) ob(rule, instance string) {
	c.obs[rule]++
	if c.insts[rule] == nil {
		c.insts[rule] = map[string]bool{}
	}
	c.insts[rule][instance] = true
}

func (c *Ctx) violate(rule, instance string, pos token.Pos, path []string, format string, a ...any) {
	v := Violation{Rule: rule, Instance: instance, Pos: c.P.pos(pos), Msg: fmt.Sprintf(format, a...), Path: path}
	if c.vseen[v.key()] {
		return
	}
	c.vseen[v.key()] = true
	c.viols = append(c.viols, v)
}

// need fails the check when fewer distinct instances of a rule were
// found than were confirmed by reading the code.
func (c *Ctx) need(rule string, min int) {
	if n := len(c.insts[rule]); n < min {
		c.violate(rule, "instance-count", token.NoPos, nil, "only %d instances of rule %q were found, %d were confirmed by reading: the rule no longer sees the code it is about", n, rule, min)
	}
}

func (c *Ctx) unresolved(rule, what string) {
	c.violate(rule, "unresolved "+what, token.NoPos, nil, "the construct the rule is anchored at was not found: %s", what)
}

// done records what an engine run covered and turns an incomplete
// analysis into a violation.
func (c *Ctx) done(e *Engine, rule, instance string) {
	c.states += e.steps
	for f := range e.fnsSeen {
		c.fns[fnName(f)] = true
	}
	for o := range e.opaque {
		c.opaque[o] = true
	}
	if e.failed != "" {
		c.violate(rule, "undecided "+instance, token.NoPos, nil, "analysis incomplete: %s", e.failed)
	}
}

func pathOf(ev *Event, st *State) []string {
	var p []string
	if ev != nil {
		for _, s := range ev.stack {
			p = append(p, "in "+s)
		}
	}
	return append(p, trailOf(st)...)
}

func trailOf(st *State) []string {
	if st == nil {
		return nil
	}
	t := st.trail
	if len(t) > 14 {
		t = append([]string{"…"}, t[len(t)-14:]...)
	}
	var p []string
	for _, x := range t {
		if len(x) > 220 {
			x = strings.ToValidUTF8(x[:220], "") + "…"
		}
		p = append(p, "branch "+x)
	}
	return p
}

type knownFinding struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Instance string `json:"instance"`
	What     string `json:"what"`
}

func loadKnown(dir string) ([]knownFinding, error) {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var x struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return nil, err
	}
	return x.Findings, nil
}

func runCheck(ck *Check, verif, repo string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	// an analysis that does not end decides nothing
	dog := time.AfterFunc(800*time.Second, func() {
		rp := filepath.Join("evidence", ck.id+".violation.json")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verif, rp), []byte("[{\"rule\":\"undecided\",\"instance\":\"time\",\"msg\":\"the analysis did not end in 800 s\"}]\n"), 0o644)
		fmt.Printf("-: [undecided] time: the analysis did not end in 800 s\nVIOLATION property=%s replay=%s\n", ck.id, rp)
		os.Exit(1)
	})
	defer dog.Stop()
	c := &Ctx{tier: tier, seed: seed, check: ck, vseen: map[string]bool{}, obs: map[string]int{}, insts: map[string]map[string]bool{}, fns: map[string]bool{}, opaque: map[string]bool{}}
	P, err := loadOnce(repo)
	if err != nil {
		c.P = &Program{root: repo, fset: token.NewFileSet()}
		c.violate("load", "program", token.NoPos, nil, "the program could not be analysed: %v", err)
	} else {
		c.P = P
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("NAV_DEBUG") != "" {
						panic(r)
					}
					c.violate("engine", "panic", token.NoPos, nil, "the analysis could not digest the program: %v", r)
				}
			}()
			ck.run(c)
		}()
	}
	known, err := loadKnown(verif)
	if err != nil {
		fmt.Println("cannot read known findings:", err)
		return 2
	}
	var open []Violation
	var kf []string
	for _, v := range c.viols {
		listed := false
		for _, k := range known {
			if k.Property == ck.id && k.Rule == v.Rule && k.Instance == v.Instance {
				listed = true
				kf = append(kf, fmt.Sprintf("KNOWN-FINDING: property=%s %s", ck.id, k.What))
			}
		}
		if !listed {
			open = append(open, v)
		}
	}
	total, inst := 0, 0
	perRule := map[string]any{}
	var samples []string
	var rules []string
	for r := range c.obs {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	for _, r := range rules {
		total += c.obs[r]
		inst += len(c.insts[r])
		var l []string
		for i := range c.insts[r] {
			l = append(l, i)
		}
		sort.Strings(l)
		perRule[r] = map[string]any{"evaluations": c.obs[r], "instances": len(l), "list": trunc(l, 60)}
		if len(l) > 0 {
			samples = append(samples, r+": "+l[0])
		}
	}
	if total == 0 && len(open) == 0 {
		v := Violation{Rule: "coverage", Instance: "none", Msg: "no instance of any rule was analysed"}
		open = append(open, v)
	}
	cov := map[string]any{
		"explanation":         "Static analysis of the SSA form of /repo's current source. " + ck.rule,
		"rule":                ck.rule,
		"obligations":         total,
		"rule_instances":      inst,
		"per_rule":            perRule,
		"functions_analysed":  len(c.fns),
		"abstract_states":     c.states,
		"packages_loaded":     len(c.P.byPkg),
		"functions_in_module": len(c.P.fns),
		"source_files":        c.P.nfile,
		"samples":             trunc(samples, 20),
		"external_callees":    len(c.opaque),
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	if len(kf) > 0 {
		cov["known_findings"] = kf
	}
	assume := append([]string{
		"distinct access paths denote distinct memory unless they are syntactically related",
		"library calls listed as pure in the checker have no effect on the program's memory; generated protobuf accessors behave as generated",
		"callees reached only through interfaces with unknown implementation are treated as arbitrary",
	}, c.assume...)
	ev := map[string]any{"property": ck.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": assume,
		"wall_s": float64(int(time.Since(start).Seconds()*1000)) / 1000, "violations": len(open)}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", ck.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations over %d rule instances in %d functions, %d abstract states, %.1fs\n", ck.id, total, inst, len(c.fns), c.states, time.Since(start).Seconds())
	sort.Strings(kf)
	for i, k := range kf {
		if i == 0 || kf[i-1] != k {
			fmt.Println(k)
		}
	}
	rp := filepath.Join("evidence", ck.id+".violation.json")
	os.Remove(filepath.Join(verif, rp))
	if len(open) == 0 {
		return 0
	}
	vb, _ := json.MarshalIndent(open, "", " ")
	os.WriteFile(filepath.Join(verif, rp), append(vb, '\n'), 0o644)
	for _, v := range open {
		fmt.Printf("%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Instance, v.Msg)
		for _, p := range v.Path {
			fmt.Println("    " + p)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", ck.id, rp)
	return 1
}

func trunc(l []string, n int) []string {
	if len(l) > n {
		return append(append([]string{}, l[:n]...), fmt.Sprintf("… %d more", len(l)-n))
	}
	if l == nil {
		return []string{}
	}
	return l
}

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

func findCheck(id string) *Check {
	for _, c := range checks {
		if strings.EqualFold(c.id, id) {
			return c
		}
	}
	return nil
}

var loadedP *Program
var loadedErr error

func loadOnce(repo string) (*Program, error) {
	if loadedP == nil && loadedErr == nil {
		loadedP, loadedErr = loadProgram(repo)
	}
	return loadedP, loadedErr
}
