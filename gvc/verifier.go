package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	prog     *ssa.Program
	pkgs     []*ssa.Package
	dir      string
	theory   *Theory
	specs    *Specs
	quickT   time.Duration
	slowT    time.Duration
	candT    time.Duration
	unitT    time.Duration
	deadline time.Time // nothing is attempted after it
	applied  []int     // lemmas instantiated by name
	child    bool      // failures are announced as they are met
	onBad    func(s string)
	stop     chan bool // closed when the answer is known otherwise
	gaveUp   int32     // loop templates dropped without an answer
	dropped  map[string]bool
	why      map[string]string
	fns      map[string]*ssa.Function
	mu       sync.Mutex
	globals  map[*ssa.Global]*Obj
	gnames   map[*Obj]*ssa.Global
	cutHeads map[*ssa.BasicBlock]bool // loops not to unroll
	mutable  map[*Obj]bool            // package variables changed after initialisation
	ginit    *State                   // values of the package variables
	initErr  string
	nglob    int
}

func newVerifier(dir string, specs *Specs) (*Verifier, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.LoadSyntax | packages.NeedModule}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	v := &Verifier{dir: dir, specs: specs, quickT: 3 * time.Second, slowT: 45 * time.Second, candT: 4 * time.Second, unitT: 300 * time.Second, dropped: map[string]bool{}, cutHeads: map[*ssa.BasicBlock]bool{}, why: map[string]string{}, fns: map[string]*ssa.Function{}, globals: map[*ssa.Global]*Obj{}, gnames: map[*Obj]*ssa.Global{}}
	v.prog, v.pkgs = ssautil.Packages(ps, ssa.NaiveForm|ssa.InstantiateGenerics)
	v.prog.Build()
	for f := range ssautil.AllFunctions(v.prog) {
		if f.Blocks != nil && f.Origin() == nil {
			v.fns[short(f.String())] = f
		}
	}
	v.buildTheory()
	v.runInits()
	return v, nil
}

func (v *Verifier) repoPkg(p *types.Package) bool {
	return p != nil && (strings.HasPrefix(p.Path(), modPath) || p.Path() == strings.TrimSuffix(modPath, "/"))
}

func (v *Verifier) globalObj(g *ssa.Global) *Obj {
	v.mu.Lock()
	defer v.mu.Unlock()
	o := v.globals[g]
	if o == nil {
		v.nglob++
		o = &Obj{id: -v.nglob, name: short(g.Pkg.Pkg.Path()) + "." + g.Name(), typ: g.Type().(*types.Pointer).Elem(), glob: true}
		v.globals[g] = o
		v.gnames[o] = g
	}
	return o
}

func (v *Verifier) libObj(name, kind string, g VGhost) (*Obj, VGhost) {
	v.nglob++
	return &Obj{id: -v.nglob, name: name, ghost: kind, glob: true}, g
}

// rootGlobal: the package variable an address is part of.
func rootGlobal(a ssa.Value) *ssa.Global {
	for {
		switch x := a.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.UnOp:
			a = x.X
		default:
			return nil
		}
	}
}

// anyGlobal: an arbitrary value of a package variable.
func (v *Verifier) anyGlobal(ex *Exec, st *State, o *Obj) (r Val) {
	defer func() {
		if recover() != nil {
			r = VOpaque{typ: o.typ}
		}
	}()
	switch o.typ.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return VOpaque{typ: o.typ}
	}
	return ex.freshVal(st, o.typ, "global_"+o.name)
}

// globalFn: a package variable holding a function that users may replace.
func (v *Verifier) globalFn(l Loc) Val {
	g := v.gnames[l.obj]
	if g == nil || l.path != "" || !v.repoPkg(g.Pkg.Pkg) || g.Object() == nil || !g.Object().Exported() {
		return nil
	}
	if _, ok := l.obj.typ.Underlying().(*types.Signature); ok {
		return VFunc{name: l.obj.name}
	}
	return nil
}

var libGlobals = map[string]func(v *Verifier, st *State, o *Obj) Val{
	"io.EOF":              func(v *Verifier, st *State, o *Obj) Val { return VIface{id: I(1)} },
	"io.ErrUnexpectedEOF": func(v *Verifier, st *State, o *Obj) Val { return VIface{id: I(2)} },
	"io.ErrShortWrite":    func(v *Verifier, st *State, o *Obj) Val { return VIface{id: I(3)} },
	"crypto/rand.Reader": func(v *Verifier, st *State, o *Obj) Val {
		x, g := v.libObj("rand.Reader", "rand", VGhost{"rand", nil})
		st.heap[x] = g
		return VIface{id: I(1), abs: x}
	},
	"os.Stdout": stdFile("stdout"),
	"os.Stderr": stdFile("stderr"),
	"os.Stdin":  stdFile("stdin"),
	"os.Args": func(v *Verifier, st *State, o *Obj) Val {
		x, _ := v.libObj("os.Args", "", VGhost{})
		st.heap[x] = VArr{[]Val{Var("program_name", SSeq)}}
		n := Var("nargs", SInt)
		setRange(n, ivl{bi(1), maxLen})
		return VSlice{loc: Loc{x, ""}, off: I(0), len: n, cap: n, null: False, elem: types.Typ[types.String]}
	},
}

func stdFile(name string) func(v *Verifier, st *State, o *Obj) Val {
	return func(v *Verifier, st *State, o *Obj) Val {
		x, g := v.libObj(name, "std", VGhost{"std", map[string]Val{}})
		x.name = name
		st.heap[x] = g
		return VPtr{loc: Loc{x, ""}, typ: o.typ.(*types.Pointer).Elem()}
	}
}

// runInits executes the package initialisers of the repository, which gives
// the package variables their values.
func (v *Verifier) runInits() {
	ex := &Exec{v: v, unit: &Unit{name: "init"}, start: time.Now(), used: map[string]bool{}, inl: map[string]bool{}, mods: map[string]bool{}, nobj: 1 << 20}
	ex.quiet = 1
	st := newState()
	zeroGhosts(st)
	done := map[*types.Package]bool{}
	for _, f := range v.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						v.initGlobal(ex, st, g)
					}
				}
			}
		}
	}
	order := append([]*ssa.Package(nil), v.pkgs...)
	sort.Slice(order, func(i, j int) bool { return order[i].Pkg.Path() < order[j].Pkg.Path() })
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if p == nil || done[p.Pkg] {
			return
		}
		done[p.Pkg] = true
		for _, i := range p.Pkg.Imports() {
			if v.repoPkg(i) {
				visit(v.prog.Package(i))
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						v.initErr += p.Pkg.Path() + ": " + u.msg + "\n"
						return
					}
					panic(r)
				}
			}()
			f := p.Func("init")
			if f == nil || f.Blocks == nil {
				return
			}
			outs := ex.inline(st.clone(), f, nil, nil)
			if len(outs) == 1 && outs[0].kind == oRet {
				st = outs[0].st
			}
		}()
	}
	for _, p := range order {
		visit(p)
	}
	// a package variable changed outside its initialiser has no fixed value
	v.mutable = map[*Obj]bool{}
	for _, f := range v.allFns() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(s.Addr); g != nil && v.repoPkg(g.Pkg.Pkg) {
						v.mutable[v.globalObj(g)] = true
					}
				}
			}
		}
	}
	for o := range v.mutable {
		st.heap[o] = v.anyGlobal(ex, st, o)
	}
	st.fresh = map[*Obj]bool{}
	v.ginit = st
}

func (v *Verifier) allFns() []*ssa.Function {
	var ks []string
	for k := range v.fns {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*ssa.Function
	for _, k := range ks {
		out = append(out, v.fns[k])
	}
	return out
}

func (v *Verifier) initGlobal(ex *Exec, st *State, g *ssa.Global) {
	o := v.globalObj(g)
	if _, ok := st.heap[o]; ok {
		return
	}
	if f := libGlobals[g.Pkg.Pkg.Path()+"."+g.Name()]; f != nil {
		st.heap[o] = f(v, st, o)
		return
	}
	if !v.repoPkg(g.Pkg.Pkg) {
		switch u := o.typ.Underlying().(type) {
		case *types.Pointer:
			x, gh := v.libObj(o.name, "lib", VGhost{"lib", map[string]Val{}})
			st.heap[x] = gh
			st.heap[o] = VPtr{loc: Loc{x, ""}, typ: u.Elem()}
			return
		case *types.Interface:
			if isErr(o.typ) {
				st.heap[o] = VIface{id: I(v.errID())}
				return
			}
		case *types.Signature:
			st.heap[o] = VFunc{name: o.name}
			return
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				st.heap[o] = VOpaque{typ: o.typ}
			}
		}()
		st.heap[o] = ex.zeroVal(o.typ)
	}()
}

func (v *Verifier) contract(name string) *Contract { return v.specs.contracts[name] }

// resolve finds the function a contract is about.
func (v *Verifier) resolve(name string) *ssa.Function {
	if f := v.fns[name]; f != nil {
		return f
	}
	// a package variable initialised with a function
	for o, g := range v.gnames {
		if o.name == name && v.repoPkg(g.Pkg.Pkg) {
			if f, ok := v.ginit.heap[o].(VFunc); ok {
				if fn, ok := f.fn.(*ssa.Function); ok {
					return fn
				}
			}
		}
	}
	return nil
}

// ---------- theory ----------

func (v *Verifier) buildTheory() {
	th := newTheory()
	v.theory = th
	ex := &Exec{v: v, unit: &Unit{name: "theory"}, start: time.Now(), used: map[string]bool{}, inl: map[string]bool{}, mods: map[string]bool{}}
	st := newState()
	mkEnv := func(ps []param, where string) (*senv, []*Term) {
		env := &senv{ex: ex, st: st, vars: map[string]sval{}, where: where}
		var vs []*Term
		for _, p := range ps {
			t := mk(&Term{op: opVar, sort: sortByName(p.sort), name: "?" + p.name + "!" + where, clen: p.n})
			vs = append(vs, t)
			env.vars[p.name] = sval{v: t}
		}
		return env, vs
	}
	for _, n := range sortedKeys(v.specs.defs) {
		d := v.specs.defs[n]
		if !d.rec {
			continue
		}
		env, vs := mkEnv(d.params, d.name)
		r := &RecFn{name: d.name, params: vs, sort: sortByName(d.ret.sort), body: env.term(d.body)}
		if d.hidden {
			th.hidden[d.name] = r
		} else {
			th.rec[d.name] = r
		}
	}
	for _, a := range v.specs.axioms {
		th.axioms = append(th.axioms, v.mkAxiom(ex, st, a))
	}
}

func (v *Verifier) mkAxiom(ex *Exec, st *State, a *SpecAxiom) *Axiom {
	env := &senv{ex: ex, st: st, vars: map[string]sval{}, where: a.name}
	ax := &Axiom{name: a.name, assumed: !a.lemma, inner: a.inner}
	var fixed []*Term
	for _, p := range a.vars {
		t := mk(&Term{op: opVar, sort: sortByName(p.sort), name: "?" + p.name, clen: p.n})
		if p.sort == "Seq" && p.n >= 0 {
			fixed = append(fixed, t)
			t = mk(&Term{op: opVar, sort: SSeq, name: "?" + p.name, clen: -1})
			fixed[len(fixed)-1] = Eq(SeqLen(t), I(int64(p.n)))
		}
		ax.vars = append(ax.vars, t)
		env.vars[p.name] = sval{v: t}
	}
	for _, t := range a.trigs {
		ax.trigs = append(ax.trigs, env.term(t))
	}
	ax.body = env.asBool(a.body)
	if len(fixed) > 0 {
		ax.body = Implies(And(fixed...), ax.body)
	}
	src := ax.trigs
	if len(src) == 0 {
		src = []*Term{ax.body}
	}
	ax.syms = sortedStr(symsOf(src...))
	return ax
}

// ---------- proving ----------

// solveEqs eliminates symbols that the path condition defines.
func solveEqs(pc []*Term, goal *Term) ([]*Term, *Term) {
	for round := 0; round < 12; round++ {
		m := map[*Term]*Term{}
		used := map[*Term]bool{}
		for _, p := range pc {
			var v, d *Term
			if p.op == opEq {
				for k := 0; k < 2; k++ {
					a, b := p.args[k], p.args[1-k]
					if a.op == opVar && !strings.HasPrefix(a.name, "?") && !occurs(a, b) {
						if a.sort == SSeq && a.clen >= 0 {
							if n, ok := constLen(b); !ok || n != a.clen {
								continue
							}
						}
						v, d = a, b
						break
					}
				}
				if v == nil && p.args[0].sort == SInt {
					x, y := p.args[0], p.args[1]
					if x.isConst() {
						x, y = y, x
					}
					if x.op == opLen && x.args[0].op == opVar && x.args[0].clen < 0 && y.isConst() && y.ival.IsInt64() && y.ival.Int64() <= 70000 {
						v = x.args[0]
						d = mk(&Term{op: opVar, sort: SSeq, name: v.name + fmt.Sprintf("#%d", y.ival.Int64()), clen: int(y.ival.Int64())})
					}
				}
			}
			if v == nil {
				continue
			}
			if _, ok := preRange(v); ok {
				if r, ok2 := preRange(d); !ok2 || r.lo == nil || r.hi == nil {
					// keep the range of the eliminated symbol
					q, _ := preRange(v)
					if !d.isConst() {
						if q.lo != nil {
							pc = append(pc, Le(IB(q.lo), d))
						}
						if q.hi != nil {
							pc = append(pc, Le(d, IB(q.hi)))
						}
					}
				}
			}
			clash := used[v]
			for w := range m {
				if occurs(w, d) || occurs(v, m[w]) {
					clash = true
				}
			}
			if clash {
				continue
			}
			m[v] = d
			used[v] = true
			if len(m) >= 8 {
				break
			}
		}
		if len(m) == 0 {
			break
		}
		var out []*Term
		seen := map[*Term]bool{}
		for _, p := range pc {
			q := subst(p, m)
			for _, c := range conjuncts(q) {
				if c == True || seen[c] {
					continue
				}
				seen[c] = true
				out = append(out, c)
			}
		}
		pc = out
		goal = subst(goal, m)
	}
	if m := knownBytes(pc, goal); len(m) > 0 {
		goal = subst(goal, m)
	}
	if q, ok := dropCases(pc); ok {
		return solveEqs(q, goal)
	}
	return pc, goal
}

// dropCases removes the cases of disjunctions that other facts rule out.
func dropCases(pc []*Term) ([]*Term, bool) {
	known := map[*Term]bool{}
	var not [][]*Term
	for _, p := range pc {
		known[p] = true
		if p.op == opNot {
			not = append(not, conjuncts(p.args[0]))
		}
	}
	changed := false
	var out []*Term
	for _, p := range pc {
		if p.op != opOr {
			out = append(out, p)
			continue
		}
		var keep []*Term
		for _, d := range p.args {
			has := map[*Term]bool{}
			dead := false
			for _, c := range conjuncts(d) {
				has[c] = true
				if known[Not(c)] {
					dead = true
				}
			}
			for _, n := range not {
				all := true
				for _, c := range n {
					all = all && (has[c] || known[c])
				}
				dead = dead || all
			}
			if !dead {
				keep = append(keep, d)
			}
		}
		if len(keep) == len(p.args) {
			out = append(out, p)
			continue
		}
		changed = true
		out = append(out, conjuncts(Or(keep...))...)
	}
	return out, changed
}

// knownBytes: parts of byte sequences in the goal whose bytes the path
// condition fixes.
func knownBytes(pc []*Term, goal *Term) map[*Term]*Term {
	at := map[*Term]map[int64]*Term{}
	for _, p := range pc {
		if p.op != opEq || p.args[0].sort != SInt {
			continue
		}
		for k := 0; k < 2; k++ {
			x, c := p.args[k], p.args[1-k]
			if x.op != opAt || !c.isConst() {
				continue
			}
			if i, ok := x.args[1].constInt(); ok {
				if at[x.args[0]] == nil {
					at[x.args[0]] = map[int64]*Term{}
				}
				at[x.args[0]][i] = c
			}
		}
	}
	if len(at) == 0 {
		return nil
	}
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == opSub && at[t.args[0]] != nil {
			lo, ok1 := t.args[1].constInt()
			hi, ok2 := t.args[2].constInt()
			if ok1 && ok2 && hi-lo <= 64 {
				var bs []*Term
				for i := lo; i < hi; i++ {
					if c := at[t.args[0]][i]; c != nil {
						bs = append(bs, c)
					}
				}
				if int64(len(bs)) == hi-lo {
					m[t] = Lit(bs...)
				}
			}
		}
		for _, c := range children(t) {
			rec(c)
		}
	}
	rec(goal)
	return m
}

// ranges adds the machine ranges of the symbols in a query.
func ranges(pc []*Term, goal *Term) []*Term {
	vs := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !containsBound(t) {
			if _, ok := preRange(t); ok {
				vs[t] = true
			} else if t.op == opApp && t.sort == SInt {
				if _, ok := varRange[t.name]; ok {
					vs[t] = true
				}
			}
		}
		for _, c := range children(t) {
			walk(c)
		}
	}
	for _, p := range pc {
		walk(p)
	}
	walk(goal)
	var ks []*Term
	for t := range vs {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	out := append(append([]*Term(nil), pc...), sameParts(pc, goal)...)
	for _, t := range ks {
		r, ok := preRange(t)
		if !ok {
			r = varRange[t.name]
		}
		if r.lo != nil {
			out = append(out, Le(IB(r.lo), t))
		}
		if r.hi != nil {
			out = append(out, Le(t, IB(r.hi)))
		}
	}
	return out
}

// sameParts adds, where s[0:k] == x is known, that s[a:b] == x[a:b] for the other
// parts of s the goal speaks of (if 0 <= a <= b <= k).
func sameParts(pc []*Term, goal *Term) (out []*Term) {
	subs := map[*Term][]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == opSub && !t.args[1].isInt(0) && !containsBound(t) {
			subs[t.args[0]] = append(subs[t.args[0]], t)
		}
		for _, c := range children(t) {
			walk(c)
		}
	}
	walk(goal)
	if len(subs) == 0 {
		return nil
	}
	for _, p := range pc {
		if p.op != opEq || p.args[0].sort != SSeq {
			continue
		}
		for i, s := range p.args {
			if s.op != opSub || !s.args[1].isInt(0) || len(subs[s.args[0]]) == 0 {
				continue
			}
			for _, t := range subs[s.args[0]] {
				a, b := t.args[1], t.args[2]
				out = append(out, Implies(And(Le(I(0), a), Le(a, b), Le(b, s.args[2])), Eq(t, SeqSub(p.args[1-i], a, b))))
			}
		}
	}
	return out
}

func (v *Verifier) late() bool { return !v.deadline.IsZero() && time.Now().After(v.deadline) }

func (v *Verifier) prove(pc []*Term, goal *Term, T time.Duration) Result {
	if v.late() {
		return Result{status: "out of time"}
	}
	if sp := modSplit(pc, goal); sp != nil {
		all := Result{ok: true}
		for _, m := range sp {
			var pc2 []*Term
			for _, p := range pc {
				pc2 = append(pc2, subst(p, m.m))
			}
			r := v.prove(append(pc2, m.facts...), subst(goal, m.m), T)
			all.dur += r.dur
			if all.solver == "" || all.solver == "simplifier" {
				all.solver, all.status = r.solver, r.status
			}
			if !r.ok {
				if os.Getenv("GVC_SPLIT") != "" {
					a, b := solveEqs(append(pc2, m.facts...), subst(goal, m.m))
					fmt.Fprintln(os.Stderr, "SPLIT FAILS", show(b))
					for _, p := range a {
						fmt.Fprintln(os.Stderr, "    ", show(p))
					}
				}
				r.dur = all.dur
				return r
			}
		}
		return all
	}
	return v.prove1(pc, goal, T)
}

type splitCase struct {
	m     map[*Term]*Term
	facts []*Term
}

// modSplit finds x mod c with a small c in the goal and makes one case per
// remainder, in which x is c*q+r.
func modSplit(pc []*Term, goal *Term) (out []splitCase) {
	seen := map[*Term]bool{}
	var best *Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || best != nil {
			return
		}
		seen[t] = true
		if t.op == opForall {
			return
		}
		if t.op == opMod && t.ival.Cmp(bi(2)) > 0 && t.ival.Cmp(bi(4)) <= 0 && t.args[0].sort == SInt && !containsBound(t) {
			if v, _ := soleVar(t.args[0]); v != nil {
				best = t
				return
			}
		}
		for _, c := range children(t) {
			walk(c)
		}
	}
	walk(goal)
	if best == nil {
		return nil
	}
	v, co := soleVar(best.args[0])
	rest := Sub(best.args[0], MulC(v, co))
	c := int(best.ival.Int64())
	for r := 0; r < c; r++ {
		q := Fresh("quot", SInt)
		nv := MulC(Sub(Add(MulC(q, best.ival), I(int64(r))), rest), co)
		m := splitCase{m: map[*Term]*Term{v: nv}}
		if rg, ok := preRange(v); ok {
			if rg.lo != nil {
				m.facts = append(m.facts, Le(IB(rg.lo), nv))
			}
			if rg.hi != nil {
				m.facts = append(m.facts, Le(nv, IB(rg.hi)))
			}
		}
		out = append(out, m)
	}
	return out
}

// soleVar: a variable with coefficient 1 or -1 that occurs nowhere else in x.
func soleVar(x *Term) (*Term, *big.Int) {
	for _, m := range toMons(x) {
		if len(m.atoms) != 1 || m.atoms[0].op != opVar || m.c.CmpAbs(one) != 0 {
			continue
		}
		v := m.atoms[0]
		if !occurs(v, Sub(x, MulC(v, m.c))) {
			return v, m.c
		}
	}
	return nil, nil
}

func (v *Verifier) prove1(pc []*Term, goal *Term, T time.Duration) Result {
	if goal == True {
		return Result{ok: true, status: "unsat", solver: "simplifier"}
	}
	pc, goal = solveEqs(pc, goal)
	if goal == True {
		return Result{ok: true, status: "unsat", solver: "simplifier"}
	}
	for _, p := range pc {
		if p == False || p == goal {
			return Result{ok: true, status: "unsat", solver: "simplifier"}
		}
	}
	// prove conjunctions piecewise
	if goal.op == opAnd {
		var all Result
		all.ok = true
		for _, g := range conjuncts(goal) {
			r := v.theory.Prove(ranges(pc, g), g, T)
			all.dur += r.dur
			if all.solver == "" || all.solver == "simplifier" {
				all.solver = r.solver
			}
			if !r.ok {
				r.dur = all.dur
				return r
			}
		}
		return all
	}
	return v.theory.Prove(ranges(pc, goal), goal, T)
}

func (v *Verifier) infeasible(pc []*Term) bool {
	pc, _ = solveEqs(pc, False)
	for _, p := range pc {
		if p == False {
			return true
		}
	}
	return v.theory.Infeasible(ranges(pc, False))
}

// ---------- loop invariant templates ----------

type visible struct {
	name string
	v    Val
	t    types.Type
}

func matchSort(s string, t types.Type) bool {
	switch s {
	case "int":
		_, _, ok := intType(t)
		return ok
	case "string":
		return isString(t)
	case "bytes":
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return isByte(u.Elem())
		case *types.Array:
			return isByte(u.Elem())
		}
		return false
	case "err":
		return isErr(t)
	case "bool":
		return isBool(t)
	case "reader", "writer":
		_, ok := t.Underlying().(*types.Interface)
		return ok && !isErr(t)
	case "scanner":
		p, ok := t.Underlying().(*types.Pointer)
		return ok && typeName(p.Elem()) == "bufio.Scanner"
	case "fe":
		n := typeName(t)
		return strings.HasSuffix(n, "edwards25519.FieldElement")
	}
	if strings.HasPrefix(s, "arr") {
		a, ok := t.Underlying().(*types.Array)
		return ok && isByte(a.Elem()) && fmt.Sprintf("arr%d", a.Len()) == s
	}
	if strings.HasPrefix(s, "ptr") {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		if a, ok := p.Elem().Underlying().(*types.Array); ok && isByte(a.Elem()) && fmt.Sprintf("ptr%d", a.Len()) == s {
			return true
		}
		n := typeName(p.Elem())
		return n != "" && n[strings.LastIndex(n, ".")+1:] == s[3:]
	}
	return false
}

func (ex *Exec) visibles(it *item) []visible {
	var out []visible
	var vals []ssa.Value
	for v := range it.env {
		switch v.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			vals = append(vals, v)
		}
	}
	sort.Slice(vals, func(i, j int) bool {
		return vals[i].Pos() < vals[j].Pos() || vals[i].Pos() == vals[j].Pos() && vals[i].Name() < vals[j].Name()
	})
	for _, v := range vals {
		p, ok := it.env[v].(VPtr)
		if !ok || p.nul || p.idx != nil {
			continue
		}
		out = append(out, visible{v.Name(), p, p.typ})
	}
	return out
}

// sameBytes reports whether the bytes p leads to are the same in both states.
func (ex *Exec) sameBytes(s, t *State, p VPtr) bool {
	for n := 0; n < 5; n++ {
		a, b := s.load(p.loc), t.load(p.loc)
		if !sameVal(a, b) {
			return false
		}
		switch x := a.(type) {
		case VPtr:
			if x.nul || x.idx != nil {
				return true
			}
			p = x
		case VSlice:
			if x.null == True {
				return true
			}
			p = VPtr{loc: x.loc}
		default:
			return true
		}
	}
	return true
}

// grown reports whether p leads to a slice whose length differs between states.
func (ex *Exec) grown(s, t *State, p VPtr) bool {
	a, ok := s.load(p.loc).(VSlice)
	b, ok2 := t.load(p.loc).(VSlice)
	if !ok || !ok2 {
		return false
	}
	v, known := s.decide(Eq(a.len, b.len))
	return !(known && v)
}

func (ex *Exec) instTemplate(fr *frame, it *item, entry *State, h *havocState, li *LoopInv) []*Term {
	vis := ex.visibles(it)
	var out []*Term
	var rec func(i int, env *senv, used map[int]bool)
	count := 0
	rec = func(i int, env *senv, used map[int]bool) {
		if count > 400 {
			return
		}
		if i == len(li.vars) {
			count++
			func() {
				defer func() {
					if r := recover(); r != nil {
						switch r.(type) {
						case specErr, unsupported, contractErr:
							return
						}
						panic(r)
					}
				}()
				st := h.st.clone()
				e2 := *env
				e2.st = st
				e2.entry = entry.clone()
				t := e2.asBool(li.e)
				out = append(out, conjuncts(t)...)
			}()
			return
		}
		for j, x := range vis {
			so := li.vars[i].sort
			if so == "input" || so == "output" {
				// bytes the loop leaves alone, or changes
				if !matchSort("bytes", x.t) || ex.sameBytes(h.st, entry, x.v.(VPtr)) != (so == "input") {
					continue
				}
				so = "bytes"
			}
			if strings.HasPrefix(so, "out_") || strings.HasPrefix(so, "in_") {
				// the same of a variable of a given kind
				k := so[strings.Index(so, "_")+1:]
				if !matchSort(k, x.t) || ex.sameBytes(h.st, entry, x.v.(VPtr)) != (so[:3] == "in_") {
					continue
				}
				so = k
			}
			if so == "grown" {
				// bytes of a number that the loop changes
				if !matchSort("bytes", x.t) || !ex.grown(h.st, entry, x.v.(VPtr)) {
					continue
				}
				so = "bytes"
			}
			if so == "buffer" {
				// bytes that the loop changes, of a number not known in advance
				if p, ok := x.v.(VPtr); ok {
					if s, ok := entry.load(p.loc).(VSlice); !ok || s.len.isConst() {
						continue
					}
				}
				if !matchSort("bytes", x.t) || ex.sameBytes(h.st, entry, x.v.(VPtr)) {
					continue
				}
				so = "bytes"
			}
			if so == "counter" {
				// an integer that the loop changes
				if !matchSort("int", x.t) || sameVal(h.st.load(x.v.(VPtr).loc), entry.load(x.v.(VPtr).loc)) {
					continue
				}
				so = "int"
			}
			if used[j] || !matchSort(so, x.t) {
				continue
			}
			used[j] = true
			// the variable is read in whichever state it is evaluated in
			rec(i+1, env.with(li.vars[i].name, sval{v: VCell{x.v.(VPtr)}, t: x.t}), used)
			used[j] = false
		}
	}
	env := &senv{ex: ex, st: h.st, vars: map[string]sval{}, pre: ex.preState, k: h.k, where: "loopinv"}
	for k, v := range ex.unitVars {
		env.vars[k] = v
	}
	rec(0, env, map[int]bool{})
	return out
}

// VCell stands for the current value of a variable.
type VCell struct{ p VPtr }

// ---------- misc ----------

func findContracts() string {
	if d := os.Getenv("GVC_CONTRACTS"); d != "" {
		return d
	}
	exe, _ := os.Executable()
	for _, d := range []string{"/verif/contracts", filepath.Join(filepath.Dir(exe), "../contracts")} {
		if _, err := os.Stat(d); err == nil {
			return d
		}
	}
	return "/verif/contracts"
}

func zeroGhosts(st *State) {
	st.ghost["fs"] = Var("fs0", SMap)
	st.ghost["perm"] = Var("perm0", SMap)
	st.ghost["failed"] = False
	st.ghost["prompts"] = I(0)
	st.ghost["pw"] = emptySeq
	st.ghost["stdout"] = emptySeq
	st.ghost["stderr"] = emptySeq
	st.ghost["confirmed"] = False
	st.ghost["promptbad"] = False
	st.ghost["tty"] = emptySeq
	st.ghost["ttypos"] = I(0)
	st.ghost["randbad"] = False
}
