package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"sync"
	"time"
)

var debugOn = os.Getenv("GVC_DEBUG") != ""

func main() {
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gvc prove PROPERTY|UNIT... | gvc list")
		os.Exit(2)
	}
	dir := os.Getenv("GVC_REPO")
	if dir == "" {
		dir = "/repo"
	}
	var err error
	tmpDir, err = os.MkdirTemp("", "gvc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmpDir)
	specs, err := loadSpecs(findContracts())
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(2)
	}
	switch args[0] {
	case "fns":
		v, err := newVerifier(dir, specs)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for k := range v.fns {
			fmt.Println(k)
		}
		fmt.Fprint(os.Stderr, v.initErr)
	case "unit":
		v, err := newVerifier(dir, specs)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		fmt.Fprint(os.Stderr, v.initErr)
		bad := false
		for _, n := range args[1:] {
			if strings.HasPrefix(n, "lemma:") {
				for _, a := range specs.axioms {
					if a.lemma && (n == "lemma:*" || a.name == n[6:]) {
						v.maskLemma(a, func() {
							os_, e := v.lemmaObls(a)
							if e != nil {
								fmt.Println(a.name, e)
								bad = true
							}
							v.discharge(os_, func(*Obligation) bool { return true })
							bad = report(&UnitResult{name: n + " " + a.name, obls: os_}) || bad
						})
					}
				}
				continue
			}
			c := specs.contracts[n]
			if c == nil {
				fmt.Println("no contract", n)
				continue
			}
			r := v.verifyUnit(c)
			v.discharge(r.obls, func(*Obligation) bool { return true })
			bad = report(r) || bad
		}
		printStats()
		if bad {
			os.RemoveAll(tmpDir)
			os.Exit(1)
		}
	case "check":
		rc := runCheck(dir, specs, args[1], args[2], env("GVC_VERIF", "/verif"))
		os.RemoveAll(tmpDir)
		os.Exit(rc)
	case "unitjson":
		rc := childUnit(dir, specs)
		os.RemoveAll(tmpDir)
		os.Exit(rc)
	case "prove":
		rc := runProve(dir, specs, args[1:])
		os.RemoveAll(tmpDir)
		os.Exit(rc)
	}
}

// maskLemma hides a lemma, and those declared after it, while it is proved.
func (v *Verifier) maskLemma(a *SpecAxiom, f func()) {
	save := v.theory.axioms
	var keep []*Axiom
	hide := false
	for i, x := range v.specs.axioms {
		if x == a {
			hide = true
		}
		if hide && x.lemma || x.inner && len(a.using) > 0 && !setOf(a.using)[x.name] {
			continue
		}
		keep = append(keep, save[i])
	}
	v.theory.axioms = keep
	for _, n := range a.open {
		if r := v.theory.hidden[n]; r != nil {
			v.theory.rec[n] = r
		}
	}
	v.theory.lemma = true
	f()
	v.theory.lemma = false
	v.theory.axioms = save
	for n := range v.theory.hidden {
		delete(v.theory.rec, n)
	}
}

func report(r *UnitResult) bool {
	n, ok := 0, 0
	bad := r.fail != ""
	for _, o := range r.obls {
		n++
		if o.res.ok {
			ok++
			continue
		}
		bad = true
		fmt.Printf("  FAIL %s %s %s %s [%s] %s\n", o.kind, o.label, o.pos, o.path, o.res.status, strings.Join(o.props, ","))
		if debugOn {
			for _, p := range o.pc {
				fmt.Println("      |", show(p))
			}
			fmt.Println("      =>", showD(o.goal, 12))
		}
	}
	if os.Getenv("GVC_TIMES") != "" && maxFail > 0 {
		tot := map[string]time.Duration{}
		cnt := map[string]int{}
		for _, o := range r.obls {
			k := o.kind + " " + o.label + " " + o.pos + " " + o.res.solver
			tot[k] += o.res.dur
			cnt[k]++
		}
		for k, d := range tot {
			if d > 300*time.Millisecond {
				fmt.Printf("  %8v %4d %s\n", d.Round(time.Millisecond), cnt[k], k)
			}
		}
	}
	fmt.Printf("%s: %d/%d obligations, %d paths, %v %s\n", r.name, ok, n, r.paths, r.dur.Round(time.Millisecond), r.fail)
	return bad
}

var _ sync.Mutex

func init() {
	if f := os.Getenv("GVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(60 * time.Second); pprof.StopCPUProfile(); w.Close() }()
	}
}

func init() {
	if os.Getenv("GVC_ALL") != "" {
		maxFail = 1 << 30
	}
}
