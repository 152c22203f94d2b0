package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation, keyed by rule and construct (never by line).
type Finding struct {
	Key   string   `json:"key"`
	What  string   `json:"what"`
	Where string   `json:"where"`
	Path  []string `json:"path,omitempty"`
}

// Ctx collects what one property's rules decided.
type Ctx struct {
	P    *Program
	Prop string
	Tier string

	Obligations int
	Discharged  int
	Findings    []Finding
	Counts      map[string]int
	Samples     []string
	Funcs       map[string]bool
	seen        map[string]bool
}

type property struct {
	id    string
	rule  string // one sentence: the rule applied
	check func(c *Ctx)
}

var properties []property

func register(id, rule string, check func(c *Ctx)) {
	properties = append(properties, property{id, rule, check})
}

func (c *Ctx) count(k string, n int) {
	if c.Counts == nil {
		c.Counts = map[string]int{}
	}

	c.Counts[k] += n
}

// oblige records one decided obligation.
func (c *Ctx) oblige(ok bool, key, what, where string, path []string) {
	c.Obligations++

	if ok {
		c.Discharged++
		return
	}

	c.fail(key, what, where, path)
}

func (c *Ctx) fail(key, what, where string, path []string) {
	if c.seen == nil {
		c.seen = map[string]bool{}
	}

	if c.seen[key+what] {
		return
	}

	c.seen[key+what] = true
	c.Findings = append(c.Findings, Finding{Key: key, What: what, Where: where, Path: path})
}

func (c *Ctx) sample(f string, a ...any) {
	if len(c.Samples) < 40 {
		c.Samples = append(c.Samples, fmt.Sprintf(f, a...))
	}
}

// GateReq is one condition that must be established on every acceptance path of a gate.
type GateReq struct {
	ID   string
	Why  string
	Any  []Lit
	Each bool
	Over Pat
	// Outer: a loop over this contains the loop over Over.
	Outer Pat
	Fn    func(e *Exec, s *State) bool
	// Exit decides on the exit itself (results), evaluated at the entry's own exits.
	Exit func(e *Exec, x Exit) bool
}

// Gate is a must-pass rule: on every path of Entry that reports acceptance, all Reqs hold.
type Gate struct {
	Name    string
	Entry   string
	Opaque  []string
	Inline  []string // never opaque
	NoHavoc []string
	// OpaqueFn decides instead of Opaque and Inline where it is set.
	OpaqueFn func(*ssa.Function) bool
	Reqs     []GateReq
	Accept   func(e *Exec, x Exit) bool
	Min      int // minimal number of acceptance paths (default 1)
	Intr     func(e *Exec, fr *Frame, s *State, name string, args []*Term, call ssa.CallInstruction) ([]callOut, bool)
	OnCall   func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term)
	OnInstr  func(e *Exec, fr *Frame, s *State, in ssa.Instruction)
	Max      int
	// Goroutines: see Config.
	Goroutines bool
	// Anchors: module functions that cannot reach any of these calls and are not small are not entered.
	Anchors []string
	// Split keeps paths apart that differ in these conditions (they are not obligations).
	Split []Lit
	// Track are conditions OnInstr and OnCall may ask for (e.tracked); they are not obligations.
	Track []GateReq
}

// tracked: the condition with this name was established on the way here.
func (e *Exec) tracked(s *State, id string) bool {
	for j, r := range e.cfg.Reqs {
		if r.ID == id {
			e.checkReq(s, j)
			return s.sat&(1<<j) != 0
		}
	}

	return false
}

func (c *Ctx) gate(g Gate) []Exit {
	fn := c.P.Fn(g.Entry)
	if fn == nil || fn.Blocks == nil {
		c.Obligations++
		c.fail(g.Name+"|entry", "the function this rule is anchored at does not exist any more: "+g.Entry, g.Entry, nil)

		return nil
	}

	_, xs := c.gateFn(g, fn)

	return xs
}

func (c *Ctx) gateFn(g Gate, fn *ssa.Function) (*Exec, []Exit) {
	var reqs []*Req

	type ref struct {
		r   GateReq
		bit int
	}

	var refs []ref

	for _, r := range g.Reqs {
		bit := -1

		if r.Exit == nil {
			bit = len(reqs)
			reqs = append(reqs, &Req{ID: r.ID, Any: r.Any, Each: r.Each, Over: r.Over, Outer: r.Outer, Fn: r.Fn})
		}

		refs = append(refs, ref{r, bit})
	}

	for i, l := range g.Split {
		reqs = append(reqs, &Req{ID: fmt.Sprintf("split%d", i), Any: []Lit{l}})
	}

	for _, r := range g.Track {
		reqs = append(reqs, &Req{ID: r.ID, Any: r.Any, Each: r.Each, Over: r.Over, Outer: r.Outer, Fn: r.Fn})
	}

	prune := func(*ssa.Function) bool { return false }
	if len(g.Anchors) > 0 {
		prune = c.P.prune(g.Anchors, 60)
	}

	e := NewExec(c.P, &Config{
		Reqs: reqs,
		Opaque: func(f *ssa.Function) bool {
			if g.OpaqueFn != nil {
				return g.OpaqueFn(f)
			}

			n := funcName(f)
			for _, o := range g.Inline {
				if nameMatch(n, o) {
					return false
				}
			}

			for _, o := range g.Opaque {
				if nameMatch(n, o) {
					return true
				}
			}

			return prune(f)
		},
		NoHavoc: func(n string) bool {
			for _, o := range g.NoHavoc {
				if nameMatch(n, o) {
					return true
				}
			}

			return false
		},
		Intrinsic: g.Intr, OnCall: g.OnCall, OnInstr: g.OnInstr, MaxState: g.Max, Goroutines: g.Goroutines,
	})

	exits := e.Run(fn)

	if c.Funcs == nil {
		c.Funcs = map[string]bool{}
	}

	for f := range e.Stats.Funcs {
		c.Funcs[f] = true
	}

	c.count("call sites resolved", e.Stats.Calls)
	c.count("paths", e.Stats.Paths)

	if e.Err != nil {
		c.Obligations++
		c.fail(g.Name+"|budget", e.Err.Error(), g.Entry, nil)

		return e, nil
	}

	var acc []Exit

	for _, x := range exits {
		ok := false
		if g.Accept != nil {
			ok = g.Accept(e, x)
		} else {
			ok = e.succeeded(fn, x)
		}

		if !ok {
			continue
		}

		acc = append(acc, x)

		for j := range reqs {
			e.checkReq(x.st, j)
		}

		for _, r := range refs {
			var met bool
			if r.r.Exit != nil {
				met = r.r.Exit(e, x)
			} else {
				met = x.st.sat&(1<<r.bit) != 0
			}

			c.oblige(met, g.Name+"|"+r.r.ID, shortName(fn)+" can report acceptance although this was not established: "+r.r.Why,
				shortName(fn)+" (exit at "+c.P.pos(x.pos)+")", e.traceString(x.st, 60))
		}
	}

	min := g.Min
	if min == 0 {
		min = 1
	}

	if len(acc) < min {
		c.Obligations++
		c.fail(g.Name+"|vacuous", fmt.Sprintf("%s has %d acceptance paths, at least %d expected: the rule would be vacuous", g.Entry, len(acc), min), g.Entry, nil)
	}

	c.count("acceptance paths", len(acc))
	c.sample("%s: %s: %d exits, %d acceptance paths, %d conditions each", g.Name, shortName(fn), len(exits), len(acc), len(g.Reqs))

	return e, acc
}

// ---- running and reporting ----

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadKnown(path string) ([]knownFinding, error) {
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}

		return nil, err
	}
	defer f.Close()

	var out []knownFinding

	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)

	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}

		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return nil, fmt.Errorf("known findings: %w", err)
		}

		out = append(out, k)
	}

	return out, sc.Err()
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}

	return "/verif"
}

func runProperty(P *Program, loadErr error, pr property, tier string) int {
	t0 := time.Now()
	c := &Ctx{P: P, Prop: pr.id, Tier: tier}

	if loadErr != nil {
		c.Obligations++
		c.fail("load", loadErr.Error(), "repository", nil)
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("VERIF_PANIC") != "" {
						panic(r)
					}

					c.Obligations++
					c.fail("internal", fmt.Sprintf("the analysis failed, so nothing was decided: %v", r), "checker", nil)
				}
			}()
			pr.check(c)
		}()
	}

	known, err := loadKnown(filepath.Join(verifDir(), "known-findings.jsonl"))
	if err != nil {
		c.fail("known", err.Error(), "known-findings.jsonl", nil)
	}

	sort.SliceStable(c.Findings, func(i, j int) bool { return c.Findings[i].Key < c.Findings[j].Key })

	var viol, kn []Finding

	for _, f := range c.Findings {
		matched := false

		for _, k := range known {
			if k.Status == "known" && k.Property == pr.id && k.Key == f.Key {
				matched = true
				break
			}
		}

		if matched {
			kn = append(kn, f)
		} else {
			viol = append(viol, f)
		}
	}

	for _, f := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", pr.id, f.Key, f.What, f.Where)
	}

	evDir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(evDir, 0o755)

	for i, f := range viol {
		path := filepath.Join(evDir, fmt.Sprintf("%s-violation-%d.txt", pr.id, i+1))
		body := fmt.Sprintf("property %s\nrule key %s\nviolation: %s\nconstruct: %s\npath:\n  %s\n", pr.id, f.Key, f.What, f.Where, strings.Join(f.Path, "\n  "))
		_ = os.WriteFile(path, []byte(body), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n  at %s\n", pr.id, path, f.Key, f.What, f.Where)
	}

	var funcs []string
	for f := range c.Funcs {
		funcs = append(funcs, f)
	}

	sort.Strings(funcs)

	cov := map[string]any{
		"explanation": pr.rule,
		"obligations": c.Obligations, "discharged": c.Discharged,
		"counts":             c.Counts,
		"functions_analysed": len(funcs), "functions": funcs,
		"samples":        c.Samples,
		"known_findings": kn,
	}
	ev := map[string]any{
		"property": pr.id, "tier": tier, "seed": seedEnv(), "level": "other", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(viol),
		"assumptions": assumptions,
	}

	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(evDir, pr.id+".json"), append(b, '\n'), 0o644)

	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations, %d functions (%.1fs)\n",
		pr.id, c.Obligations, c.Discharged, len(kn), len(viol), len(funcs), time.Since(t0).Seconds())

	if len(viol) > 0 {
		return 1
	}

	return 0
}

func seedEnv() int {
	n := 0
	_, _ = fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)

	return n
}

var assumptions = []string{
	"the analysed program is what go/packages type-checks from the working tree with the module's pinned dependencies; generated or build-tagged code outside the default build is not included",
	"library functions outside the module behave as documented; calls through interfaces are uninterpreted unless the receiver's type is known",
	"distinct symbolic pointers of the same type are assumed not to alias except through a store to the same field",
}
