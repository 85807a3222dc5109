package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Proof is the outcome of proving one property.
type Proof struct {
	prop    string
	ok      bool
	targets []string               // units with clauses of the property
	units   map[string]*UnitResult // targets and the contracts they rely on
	lemmas  map[string]*UnitResult
	failed  []*Obligation
	reasons []string
	dropped map[string]string
	rounds  int
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

func (v *Verifier) targetUnits(p string) (out []string) {
	for _, n := range v.specs.order {
		c := v.specs.contracts[n]
		if c.extern {
			continue
		}
		for _, cl := range c.ensures {
			if hasProp(cl.props, p) {
				out = append(out, n)
				break
			}
		}
	}
	return
}

// relevant: the obligations of a target unit that count for the property.
func relevant(o *Obligation, p string) bool { return len(o.props) == 0 || hasProp(o.props, p) }

func (v *Verifier) proveProperty(p string) *Proof {
	pr := &Proof{prop: p, targets: v.targetUnits(p), lemmas: map[string]*UnitResult{}}
	v.why = map[string]string{}
	done := map[string]*UnitResult{}
	called := v.called()
	isTarget := map[string]bool{}
	for _, t := range pr.targets {
		isTarget[t] = true
	}
	for {
		pr.rounds++
		asCallee := map[string]bool{}
		seen := map[string]bool{}
		// verify the targets and the contracts they rely on, each in a
		// process of its own
		ready := make(chan *UnitResult)
		running := 0
		var visit func(n string)
		follow := func(r *UnitResult) {
			for _, u := range keysOf(r.used) {
				c := v.specs.contracts[u]
				if c == nil || c.extern {
					continue
				}
				asCallee[u] = true
				visit(u)
			}
		}
		start := func(n, prop string) {
			running++
			go func() { ready <- v.remote(n, prop) }()
		}
		visit = func(n string) {
			if seen[n] {
				return
			}
			seen[n] = true
			if r := done[n]; r != nil {
				follow(r)
				return
			}
			prop := ""
			if isTarget[n] && !called[n] {
				prop = p
			}
			start(n, prop)
		}
		for _, t := range pr.targets {
			visit(t)
		}
		for running > 0 {
			r := <-ready
			running--
			done[r.name] = r
			follow(r)
			if isTarget[r.name] && v.leaf(r) && !(r.gone && internal(r.name)) && firstBad(r, func(o *Obligation) bool { return relevant(o, p) }) != "" && r.gaveUp == 0 {
				v.halt() // no other contract can change that
			}
		}
		for n := range seen {
			if asCallee[n] && !done[n].all {
				start(n, "")
			}
		}
		for running > 0 {
			r := <-ready
			running--
			done[r.name] = r
		}
		dropped := false
		drop := func(n, why string) {
			if !v.dropped[n] {
				v.dropped[n] = true
				v.why[n] = why
				dropped = true
			}
		}
		for n := range seen {
			r := done[n]
			if r.bad != "" {
				drop(r.bad, "does not fit its use in "+n)
			}
		}
		// a contract that fails is not used
		var names []string
		for n := range seen {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if !asCallee[n] {
				continue
			}
			if bad := firstBad(done[n], func(*Obligation) bool { return true }); bad != "" {
				drop(n, bad)
			}
		}
		if dropped && pr.rounds < 7 && !v.stopped() {
			// redo the units that used the contract
			for n, r := range done {
				redo := r.bad != ""
				for u := range r.used {
					if v.dropped[u] {
						redo = true
					}
				}
				if redo {
					delete(done, n)
				}
			}
			continue
		}
		pr.units = map[string]*UnitResult{}
		for _, n := range names {
			pr.units[n] = done[n]
		}
		break
	}
	want := func(o *Obligation) bool { return relevant(o, p) }
	pr.ok = len(pr.targets) > 0
	for _, n := range pr.targets {
		r := pr.units[n]
		if r.gone && internal(n) && len(pr.targets) > 1 {
			// a helper that the code no longer has: the contracts of the
			// functions of the interface decide
			continue
		}
		if r.fail != "" {
			pr.ok = false
			pr.reasons = append(pr.reasons, n+": "+r.fail)
		}
		for _, o := range r.obls {
			if want(o) && !o.res.ok {
				pr.ok = false
				pr.failed = append(pr.failed, o)
			}
		}
	}
	if v.initErr != "" && !pr.ok {
		pr.reasons = append(pr.reasons, "package initialisation: "+strings.TrimSpace(v.initErr))
	}
	// lemmas: those that state part of the property, and those that served as
	// axioms
	need := map[int]bool{}
	for i, a := range v.specs.axioms {
		if a.lemma && (hasProp(a.props, p) || v.lemmaUsed(a)) {
			need[i] = true
		}
	}
	ready := make(chan *UnitResult)
	running := 0
	started := map[int]bool{}
	for {
		for i := range need {
			if !started[i] {
				started[i] = true
				running++
				go func(n string) { ready <- v.remote("lemma:"+n, "") }(v.specs.axioms[i].name)
			}
		}
		if running == 0 {
			break
		}
		r := <-ready
		running--
		name := strings.TrimPrefix(r.name, "lemma ")
		pr.lemmas[name] = r
		if bad := firstBad(r, func(*Obligation) bool { return true }); bad != "" {
			pr.ok = false
			pr.reasons = append(pr.reasons, "lemma "+name+": "+bad)
		}
		for _, i := range r.axioms {
			if v.specs.axioms[i].lemma {
				need[i] = true
			} else {
				v.theory.axioms[i].used++
			}
		}
	}
	sort.Strings(pr.reasons)
	pr.dropped = v.why
	return pr
}

func (v *Verifier) lemmaUsed(a *SpecAxiom) bool {
	for i, x := range v.specs.axioms {
		if x == a && i < len(v.theory.axioms) {
			return v.theory.axioms[i].used > 0
		}
	}
	return true
}

// leaf: the unit relies on no contract that is itself to be proved.
func (v *Verifier) leaf(r *UnitResult) bool {
	for u := range r.used {
		if c := v.specs.contracts[u]; c != nil && !c.extern {
			return false
		}
	}
	return true
}

// internal: a function that users of the package cannot call.
func internal(n string) bool {
	n = n[strings.LastIndexByte(n, '.')+1:]
	return n != "main" && n[0] >= 'a' && n[0] <= 'z'
}

func firstBad(r *UnitResult, want func(o *Obligation) bool) string {
	if r.fail != "" {
		return r.fail
	}
	for _, o := range r.obls {
		if want(o) && !o.res.ok {
			return o.kind + " " + o.label + " " + o.pos + ": " + o.res.status
		}
	}
	return ""
}

func env(k, d string) string {
	if s := os.Getenv(k); s != "" {
		return s
	}
	return d
}

// runProve: gvc prove PROPERTY... prints the obligations only.
func runProve(dir string, specs *Specs, args []string) int {
	rc := 0
	for _, p := range args {
		v, err := newVerifier(dir, specs)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		t0 := time.Now()
		pr := v.proveProperty(p)
		fmt.Printf("%s ok=%v %v rounds=%d\n", p, pr.ok, time.Since(t0).Round(time.Millisecond), pr.rounds)
		fmt.Print(pr.text())
		if !pr.ok {
			rc = 1
		}
	}
	return rc
}

func (pr *Proof) text() string {
	var b strings.Builder
	for _, r := range pr.reasons {
		fmt.Fprintf(&b, "not verified: %s\n", r)
	}
	seen := map[string]int{}
	for _, o := range pr.failed {
		k := fmt.Sprintf("%s: %s %q %s", o.unit, o.kind, o.label, o.pos)
		seen[k]++
		if seen[k] > 1 {
			continue
		}
		fmt.Fprintf(&b, "failed obligation: %s %s [%s]\n", k, o.path, o.res.status)
	}
	for n, w := range pr.dropped {
		fmt.Fprintf(&b, "contract not established, body used instead: %s (%s)\n", n, w)
	}
	return b.String()
}

// gaveUp: what failed may have failed for want of time.
func (pr *Proof) gaveUp() bool {
	for _, r := range pr.units {
		if r.gaveUp > 0 && firstBad(r, func(*Obligation) bool { return true }) != "" {
			return true
		}
		for _, o := range r.obls {
			if !o.res.ok && o.res.dur > 40*time.Second {
				return true
			}
		}
	}
	return false
}

func (pr *Proof) detail() string {
	var b strings.Builder
	b.WriteString(pr.text())
	for i, o := range pr.failed {
		if i == 3 {
			break
		}
		fmt.Fprintf(&b, "\n%s: %s %s\n  on the path where\n", o.unit, o.kind, o.label)
		fmt.Fprintf(&b, "%s  solvers: %s\n", o.detail, o.res.status)
	}
	return b.String()
}

// runCheck: gvc check PROPERTY TIER decides one property.
func runCheck(dir string, specs *Specs, prop, tier, verif string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	v, err := newVerifier(dir, specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "the repository does not load:", err)
		return 2
	}
	thorough := tier == "thorough"
	if thorough {
		v.slowT, v.quickT, v.candT, v.unitT = 120*time.Second, 6*time.Second, 40*time.Second, 900*time.Second
	} else {
		v.deadline = t0.Add(450 * time.Second)
	}
	// As soon as an obligation fails, a search for an input that breaks the
	// property starts; what it finds decides, and the rest is not attempted.
	var mu sync.Mutex
	var bads []string
	var early refuted
	searching := make(chan bool)
	var once sync.Once
	v.stop = make(chan bool)
	search := func() {
		once.Do(func() {
			go func() {
				defer close(searching)
				early = runRefuter(dir, verif, prop, seed, 45)
				if early.found != "" {
					v.halt()
				}
			}()
		})
	}
	v.onBad = func(s string) {
		if v.stopped() {
			return
		}
		mu.Lock()
		bads = append(bads, s)
		mu.Unlock()
		search()
	}
	pr := v.proveProperty(prop)
	proofTime := time.Since(t0)
	once.Do(func() { close(searching) })
	<-searching
	if early.found != "" {
		pr.ok = false
		pr.reasons, pr.failed = nil, nil
		for _, b := range bads {
			pr.reasons = append(pr.reasons, "failed obligation: "+b)
		}
	}
	fmt.Printf("%s: proof %v in %v\n", prop, map[bool]string{true: "complete", false: "NOT obtained"}[pr.ok], proofTime.Round(time.Millisecond))
	fmt.Print(pr.text())
	budget := 8
	if tier == "thorough" {
		budget = 240
	}
	if !pr.ok {
		budget = 100
		if tier == "thorough" {
			budget = 400
		}
	}
	rf := early
	if early.found == "" {
		rf = runRefuter(dir, verif, prop, seed+1, budget)
		rf.trials += early.trials
	}
	if !pr.ok && rf.found == "" && pr.gaveUp() && !thorough {
		// more time for the solvers and for the loop invariants
		if w, err := newVerifier(dir, specs); err == nil {
			t1 := time.Now()
			w.slowT, w.candT, w.deadline = 90*time.Second, 20*time.Second, t0.Add(600*time.Second)
			again := w.proveProperty(prop)
			proofTime += time.Since(t1)
			fmt.Printf("%s: proof %v with more time, in %v\n", prop, map[bool]string{true: "complete", false: "NOT obtained"}[again.ok], time.Since(t1).Round(time.Millisecond))
			if again.ok {
				v, pr = w, again
			}
		}
	}
	rc := 0
	replay := filepath.Join(verif, "replays", prop+".txt")
	switch {
	case rf.found != "":
		os.MkdirAll(filepath.Dir(replay), 0755)
		os.WriteFile(replay, []byte(fmt.Sprintf("property %s is violated by the code in %s\n\nfailing input (replayed against the real code):\n%s\nreplay with: %s\n\n%s", prop, dir, rf.found, rf.cmd, pr.detail())), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		rc = 1
	case !pr.ok:
		os.MkdirAll(filepath.Dir(replay), 0755)
		os.WriteFile(replay, []byte(fmt.Sprintf("property %s could not be proved for the code in %s\nno failing input was found in %d trials\n\n%s", prop, dir, rf.trials, pr.detail())), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		rc = 1
	}
	writeEvidence(v, pr, rf, prop, tier, seed, rc, verif, proofTime, time.Since(t0))
	return rc
}

type refuted struct {
	found  string
	cmd    string
	trials int
	note   string
}

// runRefuter looks for a concrete input that breaks the property by running
// the real code against an executable oracle.
func runRefuter(dir, verif, prop string, seed, secs int) (r refuted) {
	run := filepath.Join(verif, "refute", "run.sh")
	if _, err := os.Stat(run); err != nil {
		r.note = "no refuter"
		return
	}
	r.cmd = fmt.Sprintf("%s %s %d %d", run, prop, seed, secs)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+90)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "bash", run, prop, fmt.Sprint(seed), fmt.Sprint(secs))
	c.Env = append(os.Environ(), "GVC_REPO="+dir)
	c.WaitDelay = 5 * time.Second
	out, err := c.CombinedOutput()
	s := string(out)
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "TRIALS ") {
			r.trials, _ = strconv.Atoi(strings.Fields(l)[1])
		}
	}
	if i := strings.Index(s, "COUNTEREXAMPLE "); i >= 0 {
		r.found = s[i:]
		return
	}
	if err != nil {
		r.note = "refuter: " + err.Error() + ": " + tail(s, 600)
		fmt.Println(r.note)
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func writeEvidence(v *Verifier, pr *Proof, rf refuted, prop, tier string, seed, rc int, verif string, proofTime, wall time.Duration) {
	obl, dis := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	var solver time.Duration
	var samples []string
	count := func(r *UnitResult, all bool) {
		for _, o := range r.obls {
			if !all && !relevant(o, prop) {
				continue
			}
			obl++
			kinds[o.kind]++
			solver += o.res.dur
			if o.res.ok {
				dis++
				s := o.res.solver
				if s == "" {
					s = "simplifier"
				}
				by[s]++
			}
			if hasProp(o.props, prop) && len(samples) < 8 {
				samples = append(samples, o.unit+": "+o.label+" "+o.path)
			}
		}
	}
	isT := map[string]bool{}
	for _, t := range pr.targets {
		isT[t] = true
	}
	var helpers, inlined []string
	used, mods, inl := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for n, r := range pr.units {
		count(r, !isT[n])
		if !isT[n] && !v.dropped[n] {
			helpers = append(helpers, n)
		}
		for k := range r.used {
			used[k] = true
		}
		for k := range r.mods {
			mods[k] = true
		}
		for k := range r.inl {
			inl[k] = true
		}
	}
	var lemmas []string
	for n, r := range pr.lemmas {
		count(r, true)
		lemmas = append(lemmas, n)
	}
	sort.Strings(lemmas)
	sort.Strings(helpers)
	for k := range inl {
		if fn := v.fns[k]; fn != nil && v.repoPkg(fn.Pkg.Pkg) || strings.Contains(k, "signify") || strings.Contains(k, "crypto.") || strings.Contains(k, "base64.") || strings.Contains(k, "psignify") {
			inlined = append(inlined, k)
		}
	}
	sort.Strings(inlined)
	var trusted []string
	for k := range used {
		if c := v.specs.contracts[k]; c != nil && c.extern {
			trusted = append(trusted, "assumed contract of "+k)
		}
	}
	for k := range mods {
		trusted = append(trusted, "built-in model of "+k)
	}
	for i, a := range v.specs.axioms {
		if !a.lemma && i < len(v.theory.axioms) && v.theory.axioms[i].used > 0 {
			trusted = append(trusted, "axiom "+a.name+" ("+a.why+")")
		}
	}
	sort.Strings(trusted)
	trusted = append(trusted, "gvc's translation of Go SSA (golang.org/x/tools/go/ssa) to verification conditions, and its term simplifier", "Z3 5.3.2, cvc5 1.1.2, Z3 4.8.12 (any one of them accepting an obligation)")
	drop := []string{}
	for n, w := range pr.dropped {
		drop = append(drop, n+": "+w)
	}
	if samples == nil {
		samples = []string{}
	}
	level := "proof"
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]interface{}{
			"obligations": obl, "discharged": dis, "checker_cmd": "bash /verif/check.sh " + prop + " " + tier,
			"trusted_base": trusted, "functions_under_contract": pr.targets, "helper_functions_under_contract": helpers,
			"bodies_verified_inside_their_callers": inlined, "lemmas": lemmas, "discharged_by": by, "obligation_kinds": kinds,
			"solver_s": solver.Seconds(), "proof_s": proofTime.Seconds(), "samples": samples, "contracts_replaced_by_bodies": drop,
			"proof_complete":             pr.ok,
			"replay_trials_on_real_code": rf.trials,
			"bounded_note":               "replay trials are concrete executions of the real code against an executable oracle; they look for failing inputs and test the assumed library contracts, and count for nothing in the proof",
		},
		"assumptions": assumptions,
		"wall_s":      wall.Seconds(),
		"violations":  rc,
	}
	if !pr.ok {
		ev["coverage"].(map[string]interface{})["failed"] = strings.Split(strings.TrimSpace(pr.text()), "\n")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
}

var assumptions = []string{
	"partial correctness: termination is not proved",
	"exported functions get non-nil pointer arguments unless their contract has a nil case; no two arguments overlap",
	"lengths stay below 2^62; memory never runs out",
	"files are changed by nobody else during a call, and whether a path can be read does not change during a call",
	"the library contracts and models named in trusted_base, including the correctness and security properties of the cryptographic primitives",
	"machine integers are modelled exactly (wrap-around included); floating point does not occur",
	"no data races: the code starts no goroutines, which the verifier checks",
}
