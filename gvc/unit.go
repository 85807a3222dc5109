package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Unit is the verification of one function against its contract.
type Unit struct {
	name string
	c    *Contract
}

func (u *Unit) opaqueCalls() []string {
	if u == nil || u.c == nil {
		return nil
	}
	return u.c.opaque
}

type UnitResult struct {
	name   string
	obls   []*Obligation
	fail   string // the unit could not be analysed
	used   map[string]bool
	inl    map[string]bool
	mods   map[string]bool
	paths  int
	dur    time.Duration
	bad    string // unresolved contract of a callee
	all    bool   // every obligation was tried
	axioms []int
	gone   bool  // the code has no such function, or one of another signature
	gaveUp int32 // loop templates dropped without an answer
}

func (v *Verifier) verifyUnit(c *Contract) *UnitResult {
	t0 := time.Now()
	res := &UnitResult{name: c.name, used: map[string]bool{}, inl: map[string]bool{}, mods: map[string]bool{}}
	fn := v.resolve(c.name)
	if fn == nil {
		res.fail, res.gone = "the function does not exist", true
		return res
	}
	v.theory.closed = setOf(c.closed)
	defer func() { v.theory.closed = nil }()
	cases := c.cases
	if len(cases) == 0 {
		cases = []*Ex{nil}
	} else if len(c.params) == len(fn.Params) {
		v.caseCover(c, fn, res)
	}
	for i, cs := range cases {
		for round := 0; ; round++ {
			n, np := len(res.obls), res.paths
			var h *ssa.BasicBlock
			for _, al := range aliasings(c, fn) {
				if h = v.runCase(c, fn, cs, i, al, res); h != nil || res.fail != "" {
					break
				}
			}
			if h == nil || round > 20 {
				break
			}
			v.cutHeads[h] = true
			res.obls, res.paths, res.fail = res.obls[:n], np, ""
		}
		if res.fail != "" {
			break
		}
	}
	res.dur = time.Since(t0)
	return res
}

// aliasings lists the ways in which pointer arguments may be the same: for each
// argument the index of the first one equal to it.
func aliasings(c *Contract, fn *ssa.Function) [][]int {
	base := make([]int, len(fn.Params))
	for i := range base {
		base[i] = i
	}
	if !c.alias {
		return [][]int{base}
	}
	var out [][]int
	var rec func(i int, a []int)
	rec = func(i int, a []int) {
		if i == len(fn.Params) {
			out = append(out, append([]int(nil), a...))
			return
		}
		a[i] = i
		rec(i+1, a)
		if _, ok := fn.Params[i].Type().Underlying().(*types.Pointer); !ok {
			return
		}
		for j := 0; j < i; j++ {
			if a[j] == j && types.Identical(fn.Params[j].Type(), fn.Params[i].Type()) {
				a[i] = j
				rec(i+1, a)
			}
		}
		a[i] = i
	}
	rec(0, base)
	return out
}

// nullCase: does the case say that this parameter is nil?
func nullCase(e *Ex, p string) bool {
	switch {
	case e == nil:
		return false
	case e.op == "bin" && e.s == "&&":
		return nullCase(e.a[0], p) || nullCase(e.a[1], p)
	}
	return e.op == "call" && e.s == "null" && e.a[0].s == p
}

// caseCover: the cases of a contract leave nothing out.
func (v *Verifier) caseCover(c *Contract, fn *ssa.Function, res *UnitResult) {
	var nulls []int
	for i := range fn.Params {
		for _, cs := range c.cases {
			if nullCase(cs, c.params[i]) {
				nulls = append(nulls, i)
				break
			}
		}
	}
	for m := 0; m < 1<<len(nulls); m++ {
		ex := &Exec{v: v, unit: &Unit{c.name, c}, start: time.Now(), used: res.used, inl: res.inl, mods: res.mods}
		st := v.ginit.clone()
		zeroGhosts(st)
		env := &senv{ex: ex, st: st, vars: map[string]sval{}, where: c.name, open: setOf(c.open)}
		for i, p := range fn.Params {
			a := ex.paramVal(st, p.Type(), c.params[i])
			for k, j := range nulls {
				if q, ok := a.(VPtr); ok && j == i && m>>k&1 == 1 {
					a = VPtr{nul: true, typ: q.typ}
				}
			}
			env.vars[c.params[i]] = sval{v: a, t: p.Type()}
		}
		var alts []*Term
		for _, cs := range c.cases {
			alts = append(alts, env.asBool(cs))
		}
		ex.oblige(st, "cases", "every input is covered", nil, Or(alts...), "")
		res.obls = append(res.obls, ex.obls...)
	}
}

func (v *Verifier) runCase(c *Contract, fn *ssa.Function, cs *Ex, idx int, al []int, res *UnitResult) (again *ssa.BasicBlock) {
	ex := &Exec{v: v, unit: &Unit{c.name, c}, start: time.Now(), used: res.used, inl: res.inl, mods: res.mods}
	defer func() {
		res.obls = append(res.obls, ex.obls...)
		res.paths += ex.paths
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				res.fail = x.msg
				if len(ex.stack) > 0 {
					res.fail += " (in " + short(ex.stack[len(ex.stack)-1]) + ")"
				}
			case unrollErr:
				res.fail = "a loop that does not end"
				again = x.head
			case specErr:
				res.fail, res.gone = "specification: "+x.msg, true
			case contractErr:
				res.bad = x.name
				res.fail = fmt.Sprintf("contract of %s does not fit: %s", x.name, x.msg)
			default:
				res.fail = fmt.Sprintf("internal error: %v", r)
				if debugOn {
					debug.PrintStack()
				}
			}
		}
	}()
	st := v.ginit.clone()
	zeroGhosts(st)
	env := &senv{ex: ex, st: st, vars: map[string]sval{}, where: c.name, open: setOf(c.open)}
	sig := fn.Signature
	if len(c.params) != len(fn.Params) {
		res.gone = true
		res.fail = fmt.Sprintf("%d parameters in the contract, %d in the code", len(c.params), len(fn.Params))
		return nil
	}
	var args []Val
	for i, p := range fn.Params {
		a := ex.paramVal(st, p.Type(), c.params[i])
		if nullCase(cs, c.params[i]) {
			if q, ok := a.(VPtr); ok {
				a = VPtr{nul: true, typ: q.typ}
			}
		}
		if al[i] != i {
			a = args[al[i]]
		}
		args = append(args, a)
		env.vars[c.params[i]] = sval{v: a, t: p.Type()}
	}
	for i := range c.params {
		// attributes exist at entry with arbitrary values
		ex.entryAttrs(st, args[i], c.params[i])
	}
	for _, r := range c.requires {
		st.assume(env.asBool(r.e))
	}
	if cs != nil {
		st.assume(env.asBool(cs))
	}
	if st.dead || !ex.feasible(st) {
		ex.obls = append(ex.obls, &Obligation{unit: c.name, kind: "vacuity", label: "the precondition can be met", goal: False, pc: nil})
		return nil
	}
	st.fresh = map[*Obj]bool{}
	st.fixLengths()
	pre := st.clone()
	ex.preState = pre
	ex.unitVars = map[string]sval{}
	for k, x := range env.vars {
		ex.unitVars[k] = x
	}
	outs := ex.inline(st, fn, args, nil)
	nres := sig.Results().Len()
	if len(c.results) != nres {
		res.gone = true
		res.fail = fmt.Sprintf("%d results in the contract, %d in the code", len(c.results), nres)
		return nil
	}
	live := 0
	success := nres == 0 || !isErr(sig.Results().At(nres-1).Type())
	for _, o := range outs {
		if o.st.dead || !ex.feasible(o.st) {
			continue
		}
		live++
		ev := &senv{ex: ex, st: o.st, pre: pre, vars: map[string]sval{}, where: c.name, open: setOf(c.open)}
		for k, x := range env.vars {
			ev.vars[k] = x
		}
		if o.kind == oExit {
			ev.exit = o.code
			success = true
		} else {
			for i, r := range o.ret {
				ev.vars[c.results[i]] = sval{v: r, t: sig.Results().At(i).Type()}
			}
			if e, ok := lastErr(o.ret); ok && !success {
				if v, k := o.st.decide(Eq(e, I(0))); v || !k {
					success = true
				}
			}
		}
		if len(c.draws) > 0 {
			ev = ex.pickDraws(c, ev)
		}
		ex.ghostAssign(c, ev, env, o.st)
		shown := map[string]*Term{}
		for _, cl := range c.ensures {
			cl := cl
			func() {
				defer func() {
					if r := recover(); r != nil {
						if s, ok := r.(specErr); ok {
							ob := &Obligation{unit: c.name, kind: "ensures", label: cl.label + " (" + s.msg + ")", props: cl.props, goal: False, pc: append([]*Term(nil), o.st.pc...)}
							ex.obls = append(ex.obls, ob)
							return
						}
						panic(r)
					}
				}()
				s2 := *ev
				s2.st = o.st.clone()
				g := s2.asBool(cl.e)
				for _, a := range cl.after {
					if shown[a] != nil {
						s2.st.assume(shown[a])
					}
				}
				shown[cl.label] = g
				before := len(ex.obls)
				ex.oblige(s2.st, "ensures", cl.label, cl.props, g, "")
				for _, ob := range ex.obls[before:] {
					ob.path = fmt.Sprintf("case %d path %d", idx, live)
				}
			}()
		}
		ex.frame(c, env, pre, o.st)
		if o.kind == oRet {
			ex.freshResults(sig, pre, o)
		}
	}
	if live == 0 || !success {
		ex.obls = append(ex.obls, &Obligation{unit: c.name, kind: "vacuity", label: "some execution succeeds", goal: False})
	}
	return nil
}

// fixLengths replaces symbolic sequences of known length by ones that carry it.
func (s *State) fixLengths() {
	m := map[*Term]*Term{}
	for _, p := range s.pc {
		if p.op != opEq {
			continue
		}
		for i := 0; i < 2; i++ {
			l, k := p.args[i], p.args[1-i]
			n, ok := k.constInt()
			if ok && l.op == opLen && l.args[0].op == opVar && l.args[0].clen < 0 && n >= 0 && n <= 4096 {
				m[l.args[0]] = FreshSeqN(l.args[0].name, int(n))
			}
		}
	}
	if len(m) == 0 {
		return
	}
	for o, v := range s.heap {
		s.heap[o] = substVal(v, m)
	}
	for g, v := range s.ghost {
		s.ghost[g] = substVal(v, m)
	}
	s.resubst(m)
}

// ghostAssign performs the ghost assignments of a contract.
func (ex *Exec) ghostAssign(c *Contract, ev, env *senv, st *State) {
	for _, g := range c.ghosts {
		val := ev.term(g.e)
		pe := *env
		pe.st = st
		for _, t := range pe.targets(g.ghost) {
			t.set(st, val)
		}
	}
}

// pickDraws chooses which random values the contract is about.
func (ex *Exec) pickDraws(c *Contract, ev *senv) *senv {
	cs := ev.drawChoices(c.draws)
	for _, m := range cs {
		if len(cs) == 1 {
			break
		}
		good := true
		for _, cl := range c.ensures {
			good = good && func() (ok bool) {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(specErr); is {
							ok = true // judged later
							return
						}
						panic(r)
					}
				}()
				s2 := *m
				s2.st = ev.st.clone()
				return ex.prove(s2.st, s2.asBool(cl.e))
			}()
			if !good {
				break
			}
		}
		if good {
			return m
		}
	}
	if len(cs) > 0 {
		return cs[0]
	}
	for _, p := range c.draws {
		ev = ev.with(p.name, sval{v: FreshSeqN("nodraw_"+p.name, p.n)})
	}
	return ev
}

// freshResults: callers take pointers and slices returned without an error to
// be new objects, and pointers not to be nil.
func (ex *Exec) freshResults(sig *types.Signature, pre *State, o outcome) {
	ok := True
	if e, isErr := lastErr(o.ret); isErr {
		ok = Eq(e, I(0))
	}
	for i, r := range o.ret {
		var loc Loc
		good := true
		switch x := r.(type) {
		case VPtr:
			good, loc = !x.nul && x.loc.path == "", x.loc
		case VSlice:
			if x.null == True {
				continue
			}
			loc = x.loc
		default:
			continue
		}
		if good && loc.obj != nil {
			if _, old := pre.heap[loc.obj]; old {
				good = false
			}
		}
		if !good {
			ex.oblige(o.st, "fresh", fmt.Sprintf("result %d is a new object", i), nil, Not(ok), "")
		}
	}
}

func lastErr(rs []Val) (*Term, bool) {
	if len(rs) == 0 {
		return nil, false
	}
	i, ok := rs[len(rs)-1].(VIface)
	if !ok || i.typ != nil || i.abs != nil {
		return nil, false
	}
	return i.id, true
}

func (ex *Exec) paramVal(st *State, t types.Type, name string) Val {
	// lib types behind pointers keep their ghost form
	v := ex.freshVal(st, t, name)
	if s, ok := v.(VSlice); ok {
		// a nil slice is empty
		st.assume(Implies(s.null, Eq(s.len, I(0))))
	}
	ex.nested(st, v)
	return v
}

// nested: nil slices inside structures are empty too.
func (ex *Exec) nested(st *State, v Val) {
	switch x := v.(type) {
	case VPtr:
		if !x.nul {
			ex.nested(st, st.heap[x.loc.obj])
		}
	case VStruct:
		for _, f := range x.f {
			if s, ok := f.(VSlice); ok {
				st.assume(Implies(s.null, Eq(s.len, I(0))))
			} else if _, ok := f.(VStruct); ok {
				ex.nested(st, f)
			}
		}
	}
}

func (ex *Exec) entryAttrs(st *State, v Val, name string) {
	if i, ok := v.(VIface); ok && i.typ != nil {
		v = i.v
	}
	p, ok := v.(VPtr)
	if !ok || p.nul {
		return
	}
	c := ex.v.specs.objInv[short(typeName(p.typ))]
	if c == nil {
		return
	}
	for _, g := range c.ghosts {
		env := &senv{ex: ex, st: st, vars: map[string]sval{c.params[0]: {v: p, t: types.NewPointer(p.typ)}}, where: "ghostinit " + c.name}
		d := env.term(g.e)
		st.ghost[attrKey(p.loc.obj, g.ghost.s)] = Fresh(name+"_"+g.ghost.s, d.sort)
	}
}

// frame: everything that existed before and is not declared as modified is
// unchanged.
func (ex *Exec) frame(c *Contract, env *senv, pre, post *State) {
	penv := *env
	penv.st = pre.clone()
	var tgs []target
	for _, m := range c.modifies {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specErr); ok {
						return // inapplicable here (a nil argument, say)
					}
					panic(r)
				}
			}()
			tgs = append(tgs, penv.targets(m)...)
		}()
	}
	for o, pv := range pre.heap {
		qv, ok := post.heap[o]
		if !ok {
			continue
		}
		if o.ghost == "std" || o.ghost == "lib" || o.glob && !ex.v.repoGlobal(o) || ex.v.mutable[o] {
			continue
		}
		leaves(pv, "", func(path string, x Val) {
			y, ok := getLeaf(qv, path)
			if ok && sameVal(x, y) {
				return
			}
			var regions []target
			for _, t := range tgs {
				if t.obj != o {
					continue
				}
				if t.n == nil && strings.HasPrefix(path, t.path) {
					return
				}
				if t.n != nil && t.path == path {
					regions = append(regions, t)
				}
			}
			label := "only declared locations change: " + o.name + fieldName(o.typ, path)
			a, ok1 := x.(*Term)
			b, ok2 := y.(*Term)
			if !ok1 || !ok2 {
				ex.obls = append(ex.obls, &Obligation{unit: ex.unit.name, kind: "frame", label: label, goal: False, pc: append([]*Term(nil), post.pc...)})
				return
			}
			switch len(regions) {
			case 0:
				ex.oblige(post, "frame", label, nil, Eq(a, b), "")
			case 1:
				r := regions[0]
				hi := Add(r.lo, r.n)
				ex.oblige(post, "frame", label, nil, And(Eq(SeqLen(a), SeqLen(b)), Eq(SeqSub(a, I(0), r.lo), SeqSub(b, I(0), r.lo)), Eq(SeqSub(a, hi, SeqLen(a)), SeqSub(b, hi, SeqLen(a)))), "")
			default:
				unsup("frame with several regions")
			}
		})
	}
	for g, pv := range pre.ghost {
		qv := post.ghost[g]
		if sameVal(pv, qv) || g == "stdout" && strings.HasPrefix(c.name, "cmd/") {
			continue
		}
		covered := false
		for _, t := range tgs {
			if t.key.obj == nil && t.key.path == g {
				covered = true
			}
			if g == "fs" && t.key.path == "fs" {
				covered = true
			}
		}
		if covered {
			continue
		}
		switch g {
		case "stderr", "tty":
			continue
		}
		a, ok1 := pv.(*Term)
		b, ok2 := qv.(*Term)
		if !ok1 || !ok2 {
			continue
		}
		ex.oblige(post, "frame", "only declared state changes: "+g, nil, Eq(a, b), "")
	}
}

func (v *Verifier) repoGlobal(o *Obj) bool {
	g := v.gnames[o]
	return g != nil && v.repoPkg(g.Pkg.Pkg)
}

func fieldName(t types.Type, path string) string {
	s := ""
	for _, i := range pathIdx(strings.ReplaceAll(path, "#", "0")) {
		if t == nil {
			break
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if i < u.NumFields() {
				s += "." + u.Field(i).Name()
				t = u.Field(i).Type()
				continue
			}
		case *types.Array:
			s += fmt.Sprintf("[%d]", i)
			t = u.Elem()
			continue
		}
		break
	}
	return s
}

// discharge proves the obligations of a unit.
var maxFail int32 = 3

func (v *Verifier) discharge(obls []*Obligation, want func(o *Obligation) bool) {
	defer stat("discharge", time.Now())
	var wg sync.WaitGroup
	sem := make(chan struct{}, 10)
	var failures int32
	if len(obls) > 0 {
		if c := v.specs.contracts[obls[0].unit]; c != nil {
			v.theory.closed = setOf(c.closed)
			defer func() { v.theory.closed = nil }()
		}
	}
	for _, o := range obls {
		if o.pre || o.res.ok || !want(o) {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obligation) {
			defer func() { <-sem; wg.Done() }()
			defer func() {
				if r := recover(); r != nil {
					o.res = Result{status: fmt.Sprint("error: ", r)}
				}
			}()
			t0 := time.Now()
			if atomic.LoadInt32(&failures) >= maxFail {
				o.res = Result{status: "not tried after other failures"}
				return
			}
			defer func() {
				if !o.res.ok {
					if atomic.AddInt32(&failures, 1) <= 3 && v.child {
						fmt.Fprintf(os.Stderr, "%s%s: %s %q %s %s\n", badMark, o.unit, o.kind, o.label, o.pos, o.path)
					}
				}
			}()
			o.res = v.prove(o.pc, o.goal, v.slowT)
			for _, a := range o.alts {
				if o.res.ok {
					break
				}
				o.res = v.prove(o.pc, a, v.slowT)
			}
			if o.res.dur == 0 {
				o.res.dur = time.Since(t0)
			}
		}(o)
	}
	wg.Wait()
}

// ---------- lemmas ----------

func (v *Verifier) lemmaObls(a *SpecAxiom) (obls []*Obligation, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			panic(r)
		}
	}()
	ex := &Exec{v: v, unit: &Unit{name: "lemma " + a.name}, start: time.Now(), used: map[string]bool{}, inl: map[string]bool{}, mods: map[string]bool{}}
	st := newState()
	zeroGhosts(st)
	env := &senv{ex: ex, st: st, vars: map[string]sval{}, where: a.name, open: setOf(a.open)}
	var iv *Term
	for _, p := range a.vars {
		var t *Term
		if p.sort == "Seq" && p.n >= 0 {
			t = FreshSeqN(p.name, p.n)
		} else {
			t = Fresh(p.name, sortByName(p.sort))
		}
		if p.name == a.induct {
			iv = t
		}
		env.vars[p.name] = sval{v: t}
	}
	body := env.asBool(a.body)
	var pc []*Term
	for _, h := range a.hints { // a hint introduces terms: h == h via a definition
		x := env.eval(h)
		t, ok := x.v.(*Term)
		if !ok {
			continue
		}
		if t.sort == SBool {
			f := Fresh("hint", t.sort)
			pc = append(pc, Or(And(f, t), And(Not(f), Not(t))))
		} else {
			f := Fresh("hint", t.sort)
			pc = append(pc, Eq(f, t))
		}
	}
	for ai, h := range a.apply {
		found := false
		for i, x := range v.specs.axioms {
			if x == a {
				break // only what is declared before
			}
			if h.op != "call" || x.name != h.s || len(x.vars) != len(h.a) {
				continue
			}
			found = true
			v.applied = append(v.applied, i)
			in := &senv{ex: ex, st: st, vars: map[string]sval{}, where: x.name}
			fixed := True
			for k, p := range x.vars {
				t := env.term(h.a[k])
				if p.sort == "Seq" && p.n >= 0 {
					fixed = And(fixed, Eq(SeqLen(t), I(int64(p.n))))
				}
				in.vars[p.name] = sval{v: t}
			}
			inst := Implies(fixed, in.asBool(x.body))
			pc = append(pc, inst)
			if a.rewrite[ai] {
				m := map[*Term]*Term{}
				for _, c := range conjuncts(inst) {
					if c.op == opEq && c.args[0].op == opApp {
						m[c.args[0]] = c.args[1]
					} else if c.op == opEq && c.args[1].op == opApp {
						m[c.args[1]] = c.args[0]
					}
				}
				body = subst(body, m)
			}
		}
		if !found {
			return nil, fmt.Errorf("lemma %s: no earlier lemma for %s", a.name, h.s)
		}
	}
	mk := func(label string, pc []*Term, goal *Term) {
		obls = append(obls, &Obligation{unit: ex.unit.name, kind: "lemma", label: label, props: a.props, pc: pc, goal: goal})
	}
	if a.induct == "" {
		mk(a.name, pc, body)
		return
	}
	if iv == nil {
		return nil, fmt.Errorf("lemma %s: unknown induction variable", a.name)
	}
	// strong induction: the statement holds for every smaller value
	// (length for sequences, value for non-negative integers), for all other
	// variables.
	var qs, trs []*Term
	env2 := &senv{ex: ex, st: st, vars: map[string]sval{}, where: a.name, open: setOf(a.open)}
	var smaller *Term
	for _, p := range a.vars {
		q := Var("?ih_"+p.name, sortByName(p.sort))
		qs = append(qs, q)
		env2.vars[p.name] = sval{v: q}
		if p.name == a.induct {
			if q.sort == SSeq {
				smaller = Lt(SeqLen(q), SeqLen(iv))
			} else {
				smaller = And(Le(I(0), q), Lt(q, iv))
			}
		}
	}
	for _, p := range a.vars {
		if p.sort == "Seq" && p.n >= 0 {
			smaller = And(smaller, Eq(SeqLen(env2.vars[p.name].v.(*Term)), I(int64(p.n))))
		}
	}
	for _, t := range a.trigs {
		trs = append(trs, env2.term(t))
	}
	ih := Forall(qs, trs, Implies(smaller, env2.asBool(a.body)))
	mk(a.name+" (induction on "+a.induct+")", append(pc, ih), body)
	return
}

func setOf(names []string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}
