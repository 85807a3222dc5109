package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Every unit and every lemma is verified in a process of its own; the solver
// processes share a fixed number of tokens.

type unitReq struct {
	Name                     string
	Prop                     string // discharge only what counts for it (all of it if empty)
	Dropped                  []string
	Slow, Quick, Cand, UnitT time.Duration
	Deadline                 int64
}

type oblRes struct {
	Unit, Kind, Label, Pos, Path string
	Props                        []string `json:",omitempty"`
	Pre                          bool     `json:",omitempty"`
	OK                           bool
	Status, Solver               string
	Dur                          time.Duration
	Detail                       string `json:",omitempty"`
}

type unitRes struct {
	Fail, Bad       string
	Used, Inl, Mods []string
	Paths           int
	Dur             time.Duration
	Obls            []oblRes
	Gone            bool
	GaveUp          int32
	Axioms          []int
	InitErr         string
}

func keysOf(m map[string]bool) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// childUnit answers a request on standard input.
func childUnit(dir string, specs *Specs) int {
	var q unitReq
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v, err := newVerifier(dir, specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v.child = true
	v.slowT, v.quickT, v.candT, v.unitT = q.Slow, q.Quick, q.Cand, q.UnitT
	if q.Deadline != 0 {
		v.deadline = time.Unix(0, q.Deadline)
	}
	for _, n := range q.Dropped {
		v.dropped[n] = true
	}
	var r *UnitResult
	if strings.HasPrefix(q.Name, "lemma:") {
		r = &UnitResult{name: "lemma " + q.Name[6:], used: map[string]bool{}, fail: "no such lemma"}
		for _, a := range specs.axioms {
			if a.lemma && a.name == q.Name[6:] {
				v.maskLemma(a, func() {
					r.fail = ""
					os_, e := v.lemmaObls(a)
					if e != nil {
						r.fail = e.Error()
					}
					r.obls = os_
					v.discharge(os_, func(*Obligation) bool { return true })
				})
			}
		}
	} else {
		r = v.verifyUnit(specs.contracts[q.Name])
		if r.fail == "" {
			v.discharge(r.obls, func(o *Obligation) bool { return q.Prop == "" || relevant(o, q.Prop) })
		}
	}
	res := unitRes{Gone: r.gone, Fail: r.fail, Bad: r.bad, Used: keysOf(r.used), Inl: keysOf(r.inl), Mods: keysOf(r.mods), Paths: r.paths, Dur: r.dur, GaveUp: v.gaveUp, InitErr: v.initErr}
	nd := 0
	for _, o := range r.obls {
		d := ""
		if !o.res.ok && o.res.status != "" && nd < 3 {
			nd++
			d = o.text()
		}
		res.Obls = append(res.Obls, oblRes{o.unit, o.kind, o.label, o.pos, o.path, o.props, o.pre, o.res.ok, o.res.status, o.res.solver, o.res.dur, d})
	}
	for i, a := range v.theory.axioms {
		if a.used > 0 || containsInt(v.applied, i) {
			res.Axioms = append(res.Axioms, i)
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
	return 0
}

func (o *Obligation) text() string {
	var b strings.Builder
	for _, p := range o.pc {
		fmt.Fprintf(&b, "    %s\n", show(p))
	}
	fmt.Fprintf(&b, "  it could not be shown that\n    %s\n", show(o.goal))
	return b.String()
}

func containsInt(s []int, x int) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

const badMark = "GVC-BAD "

// bad is told what a child process could not establish, as soon as it is
// known.
func (v *Verifier) bad(s string) {
	if v.onBad != nil {
		v.onBad(s)
	}
}

// halt ends the work in progress: the answer is known.
func (v *Verifier) halt() {
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.stop != nil && !v.stopped() {
		close(v.stop)
	}
}

func (v *Verifier) stopped() bool {
	select {
	case <-v.stop:
		return true
	default:
		return false
	}
}

var procSem = make(chan struct{}, 6)

// remote verifies a unit or lemma in a child process.
func (v *Verifier) remote(name, prop string) (r0 *UnitResult) {
	procSem <- struct{}{}
	defer func() { <-procSem }()
	if v.stopped() {
		return &UnitResult{name: strings.Replace(name, "lemma:", "lemma ", 1), fail: "not tried", used: map[string]bool{}, inl: map[string]bool{}, mods: map[string]bool{}}
	}
	if os.Getenv("GVC_STAT") != "" {
		t0 := time.Now()
		defer func() {
			fmt.Fprintf(os.Stderr, "%-40s %v (analysis %v) %s\n", name, time.Since(t0).Round(time.Millisecond), r0.dur, r0.fail)
		}()
	}
	r := &UnitResult{name: strings.Replace(name, "lemma:", "lemma ", 1), used: map[string]bool{}, inl: map[string]bool{}, mods: map[string]bool{}, all: prop == ""}
	q := unitReq{Name: name, Prop: prop, Dropped: keysOf(v.dropped), Slow: v.slowT, Quick: v.quickT, Cand: v.candT, UnitT: v.unitT}
	if !v.deadline.IsZero() {
		q.Deadline = v.deadline.UnixNano()
	}
	in, _ := json.Marshal(q)
	self, err := os.Executable()
	if err != nil {
		r.fail = err.Error()
		return r
	}
	cmd := exec.Command(self, "unitjson")
	cmd.Env = append(os.Environ(), "GVC_REPO="+v.dir, "GVC_TOKENS="+tokenDir())
	cmd.Stdin = bytes.NewReader(in)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	pipe, _ := cmd.StderrPipe()
	var buf bytes.Buffer
	cmd.Stdout = &buf
	err = cmd.Start()
	if err == nil {
		over := make(chan bool)
		go func() {
			select {
			case <-v.stop: // nil unless a search runs
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			case <-over:
			}
		}()
		sc := bufio.NewScanner(pipe)
		sc.Buffer(nil, 1<<22)
		for sc.Scan() {
			l := sc.Text()
			if strings.HasPrefix(l, badMark) {
				v.bad(l[len(badMark):])
			} else {
				fmt.Fprintln(os.Stderr, l)
			}
		}
		err = cmd.Wait()
		close(over)
	}
	out := buf.Bytes()
	var u unitRes
	if e := json.Unmarshal(out, &u); err != nil || e != nil {
		r.fail = fmt.Sprintf("the verifier process failed: %v %v", err, e)
		if v.stopped() {
			r.fail = "not tried after other failures"
		}
		return r
	}
	r.gone, r.gaveUp = u.Gone, u.GaveUp
	r.fail, r.bad, r.paths, r.dur = u.Fail, u.Bad, u.Paths, u.Dur
	r.used, r.inl, r.mods = setOf(u.Used), setOf(u.Inl), setOf(u.Mods)
	for _, o := range u.Obls {
		r.obls = append(r.obls, &Obligation{unit: o.Unit, kind: o.Kind, label: o.Label, pos: o.Pos, path: o.Path, props: o.Props, pre: o.Pre, detail: o.Detail,
			res: Result{ok: o.OK, status: o.Status, solver: o.Solver, dur: o.Dur}})
	}
	v.mu.Lock()
	v.gaveUp += u.GaveUp
	for _, i := range u.Axioms {
		if i < len(v.theory.axioms) && !strings.HasPrefix(name, "lemma:") {
			v.theory.axioms[i].used++
		}
	}
	r.axioms = u.Axioms
	v.mu.Unlock()
	if r.fail != "" {
		v.bad(name + ": " + r.fail)
	}
	return r
}

var tokOnce sync.Once
var tokDir string

func tokenDir() string {
	tokOnce.Do(func() {
		tokDir = os.Getenv("GVC_TOKENS")
		if tokDir == "" {
			tokDir = filepath.Join(tmpDir, "tokens")
			os.MkdirAll(tokDir, 0755)
		}
	})
	return tokDir
}

type slot struct {
	mu sync.Mutex
	f  *os.File
}

const nTokens = 8

var tokens [nTokens]slot
var tokFiles sync.Once

// acquire waits for one of the tokens; the result gives it back.
func acquire() func() {
	tokFiles.Do(func() {
		if os.Getenv("GVC_TOKENS") == "" {
			return
		}
		for i := range tokens {
			tokens[i].f, _ = os.OpenFile(filepath.Join(tokenDir(), fmt.Sprint(i)), os.O_CREATE|os.O_RDWR, 0644)
		}
	})
	for {
		for i := range tokens {
			t := &tokens[i]
			if !t.mu.TryLock() {
				continue
			}
			if t.f == nil || syscall.Flock(int(t.f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
				return func() {
					if t.f != nil {
						syscall.Flock(int(t.f.Fd()), syscall.LOCK_UN)
					}
					t.mu.Unlock()
				}
			}
			t.mu.Unlock()
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// called: the contracted functions that other code of the repository
// (commands apart) calls.
func (v *Verifier) called() map[string]bool {
	out := map[string]bool{}
	for n, fn := range v.fns {
		if strings.HasSuffix(n, ".Read") || strings.HasSuffix(n, ".Write") {
			out[n] = true // through io.Reader, io.Writer
		}
		if strings.HasPrefix(n, "cmd/") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if f := c.Common().StaticCallee(); f != nil {
					out[short(f.String())] = true
				}
			}
		}
	}
	return out
}
