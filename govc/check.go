package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// The driver of one check: prove the goals of the property on the current
// source, replay against the real code, write the evidence.

type batteryOut struct {
	Evaluations int           `json:"evaluations"`
	Distinct    int           `json:"distinct"`
	Rule        string        `json:"rule"`
	Failures    []batteryFail `json:"failures"`
	Samples     []string      `json:"samples"`
}

type batteryFail struct {
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

func tail(s string) string {
	if len(s) > 1000 {
		s = s[len(s)-1000:]
	}
	return s
}

type checkCtx struct {
	verif, repo, prop, tier string
	seed                    int64
	start                   time.Time
	bat                     string // path of the built replay program
	batErr                  string
}

func (c *checkCtx) buildBattery() {
	out := filepath.Join(os.TempDir(), fmt.Sprintf("verif-battery-%d", os.Getpid()))
	cmd := exec.Command("go", "build", "-o", out, ".")
	cmd.Dir = filepath.Join(c.verif, "battery")
	b, err := cmd.CombinedOutput()
	if err != nil {
		c.batErr = string(b)
		return
	}
	c.bat = out
}

func (c *checkCtx) replay(seed int64, tier string, budget time.Duration) (*batteryOut, string) {
	if c.bat == "" {
		return nil, "replay program does not build against this tree:\n" + clip(c.batErr)
	}
	ctx, cancel := context.WithTimeout(context.Background(), budget+60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.bat, "-prop", c.prop, "-seed", fmt.Sprint(seed), "-tier", tier, "-budget", budget.String())
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	var o batteryOut
	if jerr := json.Unmarshal(so.Bytes(), &o); jerr != nil {
		// The Go runtime stops the process, without a panic that can be recovered, when the code under test
		// recurses without end, deadlocks or races on a map: the case that was running is the failing input.
		es := se.String()
		for _, f := range []string{"goroutine stack exceeds", "fatal error: all goroutines are asleep", "fatal error: concurrent map"} {
			if k := strings.Index(es, f); k >= 0 {
				name := "setting up"
				if l := strings.LastIndex(es[:k], "\ncase "); l >= 0 {
					name = strings.SplitN(es[l+6:], "\n", 2)[0]
				}
				o.Evaluations = 1
				o.Failures = append(o.Failures, batteryFail{name, "the process was stopped: " + strings.SplitN(es[k:], "\n", 2)[0]})
				return &o, ""
			}
		}
		return nil, fmt.Sprintf("replay program gave no result (%v): %s", err, clip(tail(es)))
	}
	return &o, ""
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func check(prop, repo, verif string, par int) int {
	c := &checkCtx{verif: verif, repo: repo, prop: prop, tier: "quick", seed: 1, start: time.Now()}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		c.tier = t
	}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &c.seed)
	done := make(chan bool)
	go func() { c.buildBattery(); close(done) }()
	defer func() {
		if c.bat != "" {
			os.Remove(c.bat)
		}
	}()
	p, err := loadProgram(repo, prop == "C15")
	if err != nil {
		fmt.Println("cannot load", repo+":", err)
		<-done
		return 2
	}
	var gs []*Goal
	for _, g := range allGoals {
		if contains(g.Props, prop) {
			gs = append(gs, g)
		}
	}
	limit := 240 * time.Second
	if c.tier == "thorough" {
		limit = 1500 * time.Second
	}
	rs := runGoals(p, gs, limit, par, false)
	var failed, beyond []*Result
	nob, nok, nq, nloops := 0, 0, 0, 0
	var solver time.Duration
	exe, app, tru := map[string]bool{}, map[string]bool{}, map[string]bool{}
	under := map[string]bool{}
	var bounded []string
	var goalRep []map[string]interface{}
	for _, r := range rs {
		f := r.failed()
		status := "discharged"
		if len(f) > 0 {
			failed = append(failed, r)
			status = "failed"
		} else if r.Err != "" {
			beyond = append(beyond, r)
			status = "beyond reach: " + r.Err
		}
		if r.Goal.Bounded != "" {
			bounded = append(bounded, r.Goal.Name+": "+r.Goal.Bounded)
		} else {
			nob += len(r.Obls)
			nok += len(r.Obls) - len(f)
			if r.Err != "" {
				nob++
			}
			if status == "discharged" {
				under[r.Goal.Fn] = true
			}
		}
		nq += r.Queries
		solver += r.SolverTime
		nloops += r.Loops
		for k := range r.Executed {
			exe[k] = true
		}
		for k := range r.Applied {
			app[k] = true
		}
		for k := range r.Trusted {
			tru[k] = true
		}
		goalRep = append(goalRep, map[string]interface{}{
			"goal": r.Goal.Name, "function": r.Goal.Fn, "obligations": len(r.Obls), "failed": len(f), "queries": r.Queries,
			"solver_ms": r.SolverTime.Milliseconds(), "status": status,
		})
		fmt.Printf("%-34s %4d obligations, %d failed; %s\n", r.Goal.Name, len(r.Obls), len(f), clip1(status))
	}
	<-done
	// the lemmas over the contracts
	var lemRep []map[string]interface{}
	var lemBad []string
	for _, f := range propLemmas[prop] {
		t0 := time.Now()
		n, err := lemma(filepath.Join(verif, "lemmas", f))
		nob += n
		st := "discharged"
		if err != "" {
			st = "not checked: " + err
			lemBad = append(lemBad, f+": "+err)
		} else {
			nok += n
		}
		lemRep = append(lemRep, map[string]interface{}{"file": "lemmas/" + f, "theorems": n, "back_end": "Lean 4 + Mathlib", "status": st, "ms": time.Since(t0).Milliseconds()})
		fmt.Printf("lemmas/%-27s %4d theorems; %s\n", f, n, clip1(st))
	}
	// replay against the real code
	budget := 100 * time.Second
	tier := "quick"
	if c.tier == "thorough" {
		budget, tier = 900*time.Second, "thorough"
	}
	bo, berr := c.replay(c.seed, tier, budget)
	evals, dist := 0, 0
	rule := ""
	var samples []string
	add := func(o *batteryOut) {
		if o != nil {
			evals += o.Evaluations
			dist += o.Distinct
			rule = o.Rule
			samples = append(samples, o.Samples...)
		}
	}
	add(bo)
	bad := bo != nil && len(bo.Failures) > 0
	if !bad && (len(failed) > 0 || len(beyond) > 0) && c.bat != "" && berr == "" {
		// look harder for a failing input
		more := 150 * time.Second
		if len(failed) > 0 {
			more = 240 * time.Second
		}
		o2, _ := c.replay(c.seed+1000, "thorough", more)
		add(o2)
		if o2 != nil && len(o2.Failures) > 0 {
			bo, bad = o2, true
		}
	}
	viol := 0
	line := ""
	if bad || len(failed) > 0 {
		viol = 1
		rp := filepath.Join(verif, "replays", prop+".txt")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\n", prop)
		for _, r := range failed {
			for _, o := range r.failed() {
				fmt.Fprintf(&sb, "FAILED OBLIGATION goal=%s function=%s: %s %s\n  %s\n\n", r.Goal.Name, r.Goal.Fn, o.What, o.Where, o.Detail)
			}
		}
		for _, r := range beyond {
			fmt.Fprintf(&sb, "NOT DECIDED goal=%s function=%s: %s\n\n", r.Goal.Name, r.Goal.Fn, r.Err)
		}
		if bad {
			fmt.Fprintf(&sb, "FAILING INPUTS on the real code (cd %s/battery && go run . -prop %s):\n", verif, prop)
			for _, f := range bo.Failures {
				fmt.Fprintf(&sb, "  case %s\n    %s\n", f.Case, f.Detail)
			}
		} else {
			fmt.Fprintf(&sb, "No failing input found by the replay (%d executions). %s\n", evals, berr)
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp)
		if !bad {
			line += " no-failing-input-found"
		}
	}
	for _, r := range beyond {
		fmt.Printf("NOTICE goal %s is beyond the verifier's reach on this tree (%s); bounded replay stands in for it\n", r.Goal.Name, clip1(r.Err))
	}
	for _, l := range lemBad {
		fmt.Println("NOTICE lemma not checked:", clip1(l))
	}
	var tb []string
	tb = append(tb, baseTrust...)
	if len(lemRep) > 0 {
		tb = append(tb, "Lean 4 kernel and Mathlib (lemmas)")
	}
	for _, t := range keys(tru) {
		tb = append(tb, "assumed contract: "+t)
	}
	cov := map[string]interface{}{
		"obligations": nob, "discharged": nok,
		"checker_cmd":              "cd /verif && bash check.sh " + prop + " " + c.tier,
		"trusted_base":             tb,
		"functions_under_contract": keys(under),
		"functions_executed":       keys(exe),
		"contracts_applied":        keys(app),
		"loops_summarised":         nloops,
		"back_end":                 "govc (VC generation by symbolic execution of go/ssa) + " + z3Version(),
		"solver_queries":           nq, "solver_ms": solver.Milliseconds(),
		"goals":   goalRep,
		"lemmas":  lemRep,
		"bounded": bounded,
		"replay":  map[string]interface{}{"evaluations": evals, "distinct_nontrivial": dist, "rule": rule, "samples": head(samples, 5), "note": "bounded validation of the contracts against the real code; not part of the proof", "error": berr},
	}
	ev := map[string]interface{}{
		"property": prop, "tier": c.tier, "seed": c.seed, "level": "proof",
		"coverage": cov, "assumptions": assumptions(prop), "wall_s": time.Since(c.start).Seconds(), "violations": viol,
	}
	if len(gs) == 0 {
		ev["level"] = "exploration"
		cov["evaluations"], cov["distinct_nontrivial"], cov["rule"], cov["samples"] = evals, dist, rule, head(samples, 5)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d goals, %d obligations, %d discharged; replay %d executions (%d distinct) %s\n", prop, len(gs), nob, nok, evals, dist, clip1(berr))
	if viol > 0 {
		fmt.Println(line)
		return 1
	}
	if len(gs) == 0 && bo == nil {
		return 2
	}
	return 0
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	if s == nil {
		return []string{}
	}
	return s
}

func clip1(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 200 {
		s = s[:200] + "…"
	}
	return s
}

func z3Version() string {
	b, _ := exec.Command("z3", "--version").Output()
	return strings.TrimSpace(string(b))
}

var baseTrust = []string{
	"govc, the verification-condition generator in /verif/govc (symbolic execution of SSA, loop summarisation, ring normalisation)",
	"z3 (answers unsat)",
	"golang.org/x/tools/go/ssa as the semantics of the source",
}

func assumptions(prop string) []string {
	out := []string{
		"representation: slices, maps and pointers of distinct pre-state objects do not overlap unless the goal says so",
		"machine integers used as sizes, levels and indices are treated as mathematical; words of polynomials are treated as residues of their modulus (lattigo's lazy NTTs do not overflow; sums without reduction are outside of the contracts), float64 scales as reals",
		"the NTT-friendly moduli are pairwise coprime and Montgomery-invertible",
	}
	return append(out, propAssumptions[prop]...)
}

// propLemmas: theorems that lead from the contracts to the property
var propLemmas = map[string][]string{
	"C06": {"Slots.lean"},
	"C07": {"Slots.lean"},
	"C12": {"Crt.lean"},
	"C15": {"Rows.lean"},
}

// lemma checks a file of theorems
func lemma(file string) (n int, failure string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return 0, err.Error()
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "theorem ") {
			n++
		}
	}
	if strings.Contains(string(b), "sorry") || strings.Contains(string(b), "axiom") {
		return n, "incomplete proof"
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	lean := os.Getenv("VERIF_LEAN")
	if lean == "" {
		lean = "lean"
	}
	out, err := exec.CommandContext(ctx, lean, file).CombinedOutput()
	if err != nil {
		return n, err.Error() + " " + clip(string(out))
	}
	return n, ""
}

var propAssumptions = map[string][]string{
	"C01": {"lattigo's encoder and decoder are inverse to each other up to rounding; Gaussian and ternary samples are small"},
	"C02": {"lattigo's decoder"},
	"C06": {"slot j of a polynomial is its value at zeta^(5^j) (lattigo's encoder)"},
	"C07": {"slot j of a polynomial is its value at zeta^(5^j) (lattigo's encoder)"},
	"C12": {
		"the moduli are distinct primes between 3 and 2^61, so that x^(q-2) is the inverse; at most 32 source moduli of a conversion and per digit (the size of the code's arrays)",
		"rows are reduced on entry; the ring degree is a multiple of 16",
		"lattigo's MRed, MForm, InvMForm, BRed, CRed, ModExp and NTT compute what their names say",
		"the float64 quotient is treated as the real quotient: its rounding can change the quotient by one next to an integer, which adds a multiple of the source product to the extended value (lemma recon_congr holds for every quotient) and keeps it within the table (each summand is at most 1, so the rounded sum is at most their number)",
	},
	"C15": {"numRow and numCol are powers of two whose product is the number of slots (the case the property speaks of)", "the slot vector of a sum, rotation or plaintext product is that of the contracts of AddNew, RotateNew and MulPtxtNew, proved as goals of C03, C06 and C09"},
}
