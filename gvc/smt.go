package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Axiom: a universally quantified law with triggers, emitted when the trigger
// symbols occur in a query. Lemma axioms are proved separately.
type Axiom struct {
	name    string
	vars    []*Term
	trigs   []*Term
	body    *Term
	assumed bool // false: proved lemma
	syms    []string
	used    int64
	inner   bool // used in proofs of lemmas only
}

type RecFn struct {
	name   string
	params []*Term
	sort   Sort
	body   *Term
}

type Theory struct {
	axioms []*Axiom
	lemma  bool // a lemma is being proved
	rec    map[string]*RecFn
	closed map[string]bool   // not unfolded at present
	hidden map[string]*RecFn // unfolded only in lemmas that say so
	sigs   map[string]string // uf name -> declare-fun text
	clen   map[string]int
	nargs  map[string][]Sort
	rsort  map[string]Sort
}

func newTheory() *Theory {
	return &Theory{rec: map[string]*RecFn{}, hidden: map[string]*RecFn{}, sigs: map[string]string{}, clen: map[string]int{}, nargs: map[string][]Sort{}, rsort: map[string]Sort{}}
}

func symsOf(ts ...*Term) map[string]bool {
	out := map[string]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case opApp:
			out[t.name] = true
		case opSub:
			out["$sub"] = true
		case opCat:
			out["$cat"] = true
		case opAt:
			out["$at"] = true
		case opLen:
			out["$len"] = true
		case opRep:
			out["$rep"] = true
		}
		for _, c := range children(t) {
			rec(c)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

const prelude = `(set-option :print-success false)
(set-logic ALL)
(declare-sort Byt 0)
(declare-sort Fe 0)
(declare-fun len (Byt) Int)
(declare-fun at (Byt Int) Int)
(declare-fun cat (Byt Byt) Byt)
(declare-fun sub (Byt Int Int) Byt)
(declare-fun rep (Int Int) Byt)
(declare-fun bxor (Int Int) Int)
(declare-fun fenat (Fe) Int)
(declare-fun feof (Int) Fe)
(declare-fun fepow (Fe Int) Fe)
(declare-fun limb (Int Fe Int) Int)
(declare-const empty Byt)
(assert (= (len empty) 0))
(assert (forall ((s Byt)) (! (>= (len s) 0) :pattern ((len s)))))
(assert (forall ((s Byt)) (! (=> (= (len s) 0) (= s empty)) :pattern ((len s)))))
(assert (forall ((s Byt) (i Int)) (! (and (<= 0 (at s i)) (<= (at s i) 255)) :pattern ((at s i)))))
(assert (forall ((a Byt) (b Byt)) (! (= (len (cat a b)) (+ (len a) (len b))) :pattern ((cat a b)))))
(assert (forall ((a Byt) (b Byt) (i Int)) (! (=> (and (<= 0 i) (< i (+ (len a) (len b)))) (= (at (cat a b) i) (ite (< i (len a)) (at a i) (at b (- i (len a)))))) :pattern ((at (cat a b) i)))))
(assert (forall ((a Byt) (b Byt) (c Byt)) (! (= (cat (cat a b) c) (cat a (cat b c))) :pattern ((cat (cat a b) c)))))
(assert (forall ((a Byt)) (! (= (cat a empty) a) :pattern ((cat a empty)))))
(assert (forall ((a Byt)) (! (= (cat empty a) a) :pattern ((cat empty a)))))
(assert (forall ((s Byt) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len s))) (= (len (sub s l h)) (- h l))) :pattern ((sub s l h)))))
(assert (forall ((s Byt) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len s)) (<= 0 i) (< i (- h l))) (= (at (sub s l h) i) (at s (+ l i)))) :pattern ((at (sub s l h) i)))))
(assert (forall ((s Byt) (l Int) (h Int)) (! (=> (and (= l 0) (= h (len s))) (= (sub s l h) s)) :pattern ((sub s l h)))))
(assert (forall ((s Byt) (l Int)) (! (=> (and (<= 0 l) (<= l (len s))) (= (sub s l l) empty)) :pattern ((sub s l l)))))
(assert (forall ((s Byt) (a Int) (b Int) (c Int) (d Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (len s)) (<= 0 c) (<= c d) (<= d (- b a))) (= (sub (sub s a b) c d) (sub s (+ a c) (+ a d)))) :pattern ((sub (sub s a b) c d)))))
(assert (forall ((a Byt) (b Byt) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len a))) (= (sub (cat a b) l h) (sub a l h))) :pattern ((sub (cat a b) l h)))))
(assert (forall ((a Byt) (b Byt) (l Int) (h Int)) (! (=> (and (<= (len a) l) (<= l h) (<= h (+ (len a) (len b)))) (= (sub (cat a b) l h) (sub b (- l (len a)) (- h (len a))))) :pattern ((sub (cat a b) l h)))))
(assert (forall ((a Byt) (b Byt) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l (len a)) (<= (len a) h) (<= h (+ (len a) (len b)))) (= (sub (cat a b) l h) (cat (sub a l (len a)) (sub b 0 (- h (len a)))))) :pattern ((sub (cat a b) l h)))))
(assert (forall ((s Byt) (a Int) (b Int) (c Int)) (! (=> (and (<= 0 a) (<= a b) (<= b c) (<= c (len s))) (= (cat (sub s a b) (sub s b c)) (sub s a c))) :pattern ((cat (sub s a b) (sub s b c))))))
(assert (forall ((s Byt) (a Int) (b Int) (c Int) (r Byt)) (! (=> (and (<= 0 a) (<= a b) (<= b c) (<= c (len s))) (= (cat (sub s a b) (cat (sub s b c) r)) (cat (sub s a c) r))) :pattern ((cat (sub s a b) (cat (sub s b c) r))))))
(assert (forall ((b Int) (n Int)) (! (=> (<= 0 n) (= (len (rep b n)) n)) :pattern ((rep b n)))))
(assert (forall ((b Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (at (rep b n) i) b)) :pattern ((at (rep b n) i)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a 255) (<= 0 b 255)) (<= 0 (bxor a b) 255)) :pattern ((bxor a b)))))
(assert (forall ((f Fe)) (! (and (<= 0 (fenat f)) (< (fenat f) 57896044618658097711785492504343953926634992332820282019728792003956564819949)) :pattern ((fenat f)))))
(assert (forall ((f Fe)) (! (= (feof (fenat f)) f) :pattern ((fenat f)))))
(declare-fun seqdiff (Byt Byt) Int)
(declare-fun exteq (Byt Byt) Bool)
(assert (forall ((a Byt) (b Byt)) (! (=> (exteq a b) (= a b)) :pattern ((exteq a b)))))
(assert (forall ((a Byt) (b Byt)) (! (=> (not (exteq a b)) (or (not (= (len a) (len b))) (and (<= 0 (seqdiff a b)) (< (seqdiff a b) (len a)) (not (= (at a (seqdiff a b)) (at b (seqdiff a b))))))) :pattern ((exteq a b)))))
`

type emitter struct {
	th       *Theory
	b        bytes.Buffer // definitions
	decl     bytes.Buffer
	names    map[*Term]string
	declared map[string]bool
	uses     map[*Term]int
	litN     map[int]bool
	litQ     map[int]bool
	ivf      func(*Term) (lo, hi *big.Int)
	post     []string
}

func smtName(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_') {
			return "|" + s + "|"
		}
	}
	return s
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func hasBound(t *Term, memo map[*Term]bool) bool {
	if t.op == opVar && strings.HasPrefix(t.name, "?") {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	for _, c := range children(t) {
		if hasBound(c, memo) {
			memo[t] = true
			return true
		}
	}
	return false
}

var hbMemo = map[*Term]bool{}
var hbMu sync.Mutex

func containsBound(t *Term) bool {
	hbMu.Lock()
	defer hbMu.Unlock()
	return hasBound(t, hbMemo)
}

func (e *emitter) declFun(name string, args []Sort, res Sort) {
	if e.declared[name] {
		return
	}
	e.declared[name] = true
	var as []string
	for _, a := range args {
		as = append(as, a.smt())
	}
	fmt.Fprintf(&e.decl, "(declare-fun %s (%s) %s)\n", smtName(name), strings.Join(as, " "), res.smt())
}

// ref returns SMT text for t, defining shared ground subterms.
func (e *emitter) ref(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	s := e.raw(t)
	if t.op == opConst || t.op == opVar || containsBound(t) || len(s) < 24 {
		e.names[t] = s
		return s
	}
	n := fmt.Sprintf("t%d", t.id)
	so := t.sort.smt()
	if t.sort == SMap {
		so = "(Array Byt Byt)"
	}
	fmt.Fprintf(&e.b, "(define-fun %s () %s %s)\n", n, so, s)
	e.names[t] = n
	return n
}

func (e *emitter) opaque(t *Term, pre string) string {
	n := fmt.Sprintf("%s%d", pre, t.id)
	if !e.declared[n] {
		e.declared[n] = true
		fmt.Fprintf(&e.decl, "(declare-const %s %s)\n", n, t.sort.smt())
	}
	return n
}

func (e *emitter) raw(t *Term) string {
	jo := func(op string, ts []*Term) string {
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range ts {
			sb.WriteString(" " + e.ref(a))
		}
		sb.WriteString(")")
		return sb.String()
	}
	switch t.op {
	case opConst:
		switch t.sort {
		case SBool:
			if t.ival.Sign() != 0 {
				return "true"
			}
			return "false"
		case SFe:
			return e.opaque(t, "fec")
		}
		return smtInt(t.ival)
	case opVar:
		if strings.HasPrefix(t.name, "?") {
			return smtName(t.name)
		}
		if !e.declared[t.name] {
			e.declared[t.name] = true
			so := t.sort.smt()
			if t.sort == SMap {
				so = "(Array Byt Byt)"
			}
			fmt.Fprintf(&e.decl, "(declare-const %s %s)\n", smtName(t.name), so)
			if t.sort == SSeq && t.clen >= 0 {
				fmt.Fprintf(&e.decl, "(assert (= (len %s) %d))\n", smtName(t.name), t.clen)
			}
		}
		return smtName(t.name)
	case opPoly:
		var ss []string
		for _, m := range t.mons {
			var s string
			switch len(m.atoms) {
			case 0:
				ss = append(ss, smtInt(m.c))
				continue
			case 1:
				s = e.ref(m.atoms[0])
			default:
				mt := mk(&Term{op: opPoly, sort: SInt, mons: []mon{{c: one, atoms: m.atoms}}})
				if containsBound(mt) {
					s = jo("*", m.atoms)
				} else {
					s = e.opaque(mt, "nl")
				}
			}
			if m.c.Cmp(one) != 0 {
				s = "(* " + smtInt(m.c) + " " + s + ")"
			}
			ss = append(ss, s)
		}
		if len(ss) == 1 {
			return ss[0]
		}
		return "(+ " + strings.Join(ss, " ") + ")"
	case opFe:
		return e.opaque(t, "fe")
	case opDiv:
		return "(div " + e.ref(t.args[0]) + " " + t.ival.String() + ")"
	case opMod:
		return "(mod " + e.ref(t.args[0]) + " " + t.ival.String() + ")"
	case opIte:
		return jo("ite", t.args)
	case opEq:
		return jo("=", t.args)
	case opLe:
		return jo("<=", t.args)
	case opNot:
		return jo("not", t.args)
	case opAnd:
		return jo("and", t.args)
	case opOr:
		return jo("or", t.args)
	case opXor:
		s := e.ref(t.args[0])
		for _, a := range t.args[1:] {
			s = "(bxor " + s + " " + e.ref(a) + ")"
		}
		return s
	case opLit:
		n := len(t.args)
		if n == 0 {
			return "empty"
		}
		if !e.litN[n] {
			e.litN[n] = true
			fmt.Fprintf(&e.decl, "(declare-fun lit%d (%s) Byt)\n", n, strings.Repeat("Int ", n))
		}
		s := jo(fmt.Sprintf("lit%d", n), t.args)
		if containsBound(t) {
			if !e.litQ[n] && n <= 4 {
				if e.litQ == nil {
					e.litQ = map[int]bool{}
				}
				e.litQ[n] = true
				vs, xs, in, at := "", "", "", ""
				for i := 0; i < n; i++ {
					vs += fmt.Sprintf("(x%d Int)", i)
					xs += fmt.Sprintf(" x%d", i)
					in += fmt.Sprintf(" (<= 0 x%d 255)", i)
					at += fmt.Sprintf(" (= (at (lit%d%s) %d) x%d)", n, "%[1]s", i, i)
				}
				at = fmt.Sprintf(at, xs)
				fmt.Fprintf(&e.b, "(assert (forall (%s) (! (=> (and true%s) (and (= (len (lit%d%s)) %d)%s)) :pattern ((lit%d%s)))))\n", vs, in, n, xs, n, at, n, xs)
			}
			return s
		}
		nm := fmt.Sprintf("l%d", t.id)
		fmt.Fprintf(&e.b, "(define-fun %s () Byt %s)\n(assert (= (len %s) %d))\n", nm, s, nm, n)
		for i, a := range t.args {
			fmt.Fprintf(&e.b, "(assert (= (at %s %d) %s))\n", nm, i, e.ref(a))
		}
		return nm
	case opCat:
		s := e.ref(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(cat " + e.ref(t.args[i]) + " " + s + ")"
		}
		return s
	case opSub:
		return jo("sub", t.args)
	case opAt:
		return jo("at", t.args)
	case opLen:
		return jo("len", t.args)
	case opRep:
		return jo("rep", t.args)
	case opSel:
		return jo("select", t.args)
	case opStore:
		return jo("store", t.args)
	case opForall:
		var vs []string
		for _, v := range t.bound {
			vs = append(vs, fmt.Sprintf("(%s %s)", smtName(v.name), v.sort.smt()))
		}
		body := e.ref(t.args[0])
		if len(t.trigs) > 0 {
			var ts []string
			for _, g := range t.trigs {
				ts = append(ts, e.ref(g))
			}
			body = "(! " + body + " :pattern (" + strings.Join(ts, " ") + "))"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + body + ")"
	case opApp:
		switch t.name {
		case "feof", "fenat", "fepow", "limb":
		default:
			var as []Sort
			for _, a := range t.args {
				as = append(as, a.sort)
			}
			first := !e.declared[t.name]
			e.declFun(t.name, as, t.sort)
			if first && t.sort == SSeq && t.clen >= 0 && len(t.args) > 0 && !strings.HasPrefix(t.name, "b64enc") {
				var vs, ns []string
				for i, a := range as {
					vs = append(vs, fmt.Sprintf("(x%d %s)", i, a.smt()))
					ns = append(ns, fmt.Sprintf("x%d", i))
				}
				ap := "(" + smtName(t.name) + " " + strings.Join(ns, " ") + ")"
				fmt.Fprintf(&e.decl, "(assert (forall (%s) (! (= (len %s) %d) :pattern (%s))))\n", strings.Join(vs, " "), ap, t.clen, ap)
			}
		}
		if len(t.args) == 0 {
			if t.sort == SSeq && t.clen >= 0 && !e.declared["$len"+t.name] {
				e.declared["$len"+t.name] = true
				fmt.Fprintf(&e.decl, "(assert (= (len %s) %d))\n", smtName(t.name), t.clen)
			}
			return smtName(t.name)
		}
		return jo(smtName(t.name), t.args)
	}
	panic("raw: " + show(t))
}

// collectRec finds ground applications of recursive spec functions.
func (th *Theory) collectRec(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == opApp && th.rec[t.name] != nil && !th.closed[t.name] && !containsBound(t) {
			out = append(out, t)
		}
		for _, c := range children(t) {
			rec(c)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

func (th *Theory) unfold(t *Term) *Term {
	r := th.rec[t.name]
	m := map[*Term]*Term{}
	for i, p := range r.params {
		m[p] = t.args[i]
	}
	x := subst(r.body, m)
	if groundArgs(t) {
		// a function of known values is computed
		for i := 0; i < 500; i++ {
			m := map[*Term]*Term{}
			for _, u := range th.collectRec([]*Term{x}) {
				if !groundArgs(u) {
					continue
				}
				r := th.rec[u.name]
				n := map[*Term]*Term{}
				for i, p := range r.params {
					n[p] = u.args[i]
				}
				m[u] = subst(r.body, n)
			}
			if len(m) == 0 {
				break
			}
			x = subst(x, m)
		}
	}
	return Eq(t, x)
}

func groundArgs(t *Term) bool {
	for _, a := range t.args {
		ok := a.op == opConst || a == True || a == False || a == emptySeq
		if a.op == opLit {
			ok = true
			for _, b := range a.args {
				ok = ok && b.op == opConst
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

var fuel = 1

// script renders "pc and not goal".
func (th *Theory) script(pc []*Term, goal *Term, fuelN int) string {
	e := &emitter{th: th, names: map[*Term]string{}, declared: map[string]bool{}, litN: map[int]bool{}}
	all := append([]*Term{}, pc...)
	ng := Not(goal)
	all = append(all, ng)
	// unfold recursive functions
	done := map[*Term]bool{}
	cur := all
	for k := 0; k < fuelN; k++ {
		var add []*Term
		for _, t := range th.collectRec(cur) {
			if !done[t] {
				done[t] = true
				add = append(add, th.unfold(t))
			}
		}
		all = append(all, add...)
		cur = add
	}
	// axioms whose trigger symbols occur
	syms := symsOf(all...)
	var axs []*Axiom
	taken := map[*Axiom]bool{}
	for changed := true; changed; {
		changed = false
		for _, a := range th.axioms {
			if taken[a] || a.inner && !th.lemma {
				continue
			}
			ok := true
			for _, s := range a.syms {
				if !syms[s] && !strings.HasPrefix(s, "$") {
					ok = false
				}
			}
			if len(a.vars) == 0 { // a ground fact about one of the functions
				for _, s := range a.syms {
					ok = ok || syms[s]
				}
			}
			if ok {
				taken[a] = true
				axs = append(axs, a)
				atomic.AddInt64(&a.used, 1)
				for s := range symsOf(a.body) {
					syms[s] = true
				}
				changed = true
			}
		}
	}
	var asserts bytes.Buffer
	for _, a := range axs {
		q := Forall(a.vars, a.trigs, a.body)
		if len(a.vars) == 0 {
			q = a.body
		}
		s := e.ref(q)
		fmt.Fprintf(&asserts, "(assert %s) ; axiom %s\n", s, a.name)
	}
	// extensionality hints for sequence equalities in the goal
	for _, g := range seqGoals(goal) {
		fmt.Fprintf(&asserts, "(assert (or (exteq %s %s) (not (exteq %s %s))))\n", e.ref(g.args[0]), e.ref(g.args[1]), e.ref(g.args[0]), e.ref(g.args[1]))
	}
	// and for the arguments of one function applied twice in the goal
	gs := []*Term{goal}
	for _, t := range th.collectRec(gs) {
		gs = append(gs, th.unfold(t))
	}
	apps := map[string][]*Term{}
	var names []string
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == opForall {
			return
		}
		if t.op == opApp && !containsBound(t) {
			if apps[t.name] == nil {
				names = append(names, t.name)
			}
			apps[t.name] = append(apps[t.name], t)
		}
		for _, c := range children(t) {
			walk(c)
		}
	}
	for _, g := range gs {
		walk(g)
	}
	// the value of an element in memory, from its limbs
	for _, f := range apps["fenat"] {
		done := map[*Term]bool{}
		for _, l := range apps["limb"] {
			if l.args[1] != f.args[0] || done[l.args[2]] {
				continue
			}
			done[l.args[2]] = true
			a := VArr{}
			for i := 0; i < 10; i++ {
				a.e = append(a.e, limb(i, l.args[1], l.args[2]))
			}
			fmt.Fprintf(&asserts, "(assert (= %s (mod %s %s)))\n", e.ref(f), e.ref(packed(a)), feP)
		}
	}
	hints := 0
	hinted := map[[2]*Term]bool{}
	for _, n := range names {
		for i, a := range apps[n] {
			for _, b := range apps[n][:i] {
				for k := range a.args {
					x, y := a.args[k], b.args[k]
					if x.sort != SSeq || x == y || hints >= 24 || hinted[[2]*Term{x, y}] || Eq(x, y) == False {
						continue
					}
					hinted[[2]*Term{x, y}] = true
					hints++
					n, ok := constLen(x)
					if !ok {
						n, ok = constLen(y)
					}
					if ok && n > 0 && n <= 8 {
						cs := fmt.Sprintf("(= (len %s) (len %s))", e.ref(x), e.ref(y))
						for i := 0; i < n; i++ {
							cs += fmt.Sprintf(" (= (at %s %d) (at %s %d))", e.ref(x), i, e.ref(y), i)
						}
						fmt.Fprintf(&asserts, "(assert (or (not (and %s)) (= %s %s)))\n", cs, e.ref(x), e.ref(y))
						continue
					}
					fmt.Fprintf(&asserts, "(assert (or (exteq %s %s) (not (exteq %s %s))))\n", e.ref(x), e.ref(y), e.ref(x), e.ref(y))
				}
			}
		}
	}
	for _, t := range all {
		s := e.ref(t)
		fmt.Fprintf(&asserts, "(assert %s)\n", s)
	}
	var out bytes.Buffer
	out.WriteString(prelude)
	out.Write(e.decl.Bytes())
	// definitions and their asserts are interleaved in order
	out.Write(e.b.Bytes())
	out.Write(asserts.Bytes())
	out.WriteString("(check-sat)\n")
	return out.String()
}

func seqGoals(g *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == opEq && t.args[0].sort == SSeq && !containsBound(t) {
			out = append(out, t)
			return
		}
		if t.op == opAnd || t.op == opOr || t.op == opNot {
			for _, c := range t.args {
				rec(c)
			}
		}
	}
	rec(g)
	return out
}

type Result struct {
	ok     bool
	status string
	solver string
	dur    time.Duration
	model  string
}

var (
	solverTime  int64 // nanoseconds
	solverCalls int64
	tmpDir      string
)

func runSolver(parent context.Context, bin string, args []string, script string, timeout time.Duration) (string, time.Duration) {
	defer acquire()()
	f, err := os.CreateTemp(tmpDir, "q*.smt2")
	if err != nil {
		return "error " + err.Error(), 0
	}
	f.WriteString(script)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(parent, timeout+2*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, bin, append(args, f.Name())...)
	out, _ := cmd.Output()
	d := time.Since(t0)
	atomic.AddInt64(&solverTime, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	return string(out), d
}

func firstWord(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return l
		}
	}
	return "unknown"
}

var proveCache sync.Map

// flatten splits conjunctions of a goal.
func conjuncts(t *Term) []*Term {
	if t.op == opAnd {
		var out []*Term
		for _, a := range t.args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	return []*Term{t}
}

// decT is for questions whose answer only saves work.
const decT = 700 * time.Millisecond

// fastT asks for one short run of one solver.
const fastT = 1499 * time.Millisecond

var dumpDir = os.Getenv("GVC_DUMP")

// liteT limits the attempt with the facts that narrow keeps.
const liteT = 1200 * time.Millisecond

// narrow keeps the facts that speak of no function but those of the goal.
func narrow(pc []*Term, goal *Term) []*Term {
	fns := map[string]bool{}
	appsOf(goal, map[*Term]bool{}, func(n string) { fns[n] = true })
	var out []*Term
	for _, p := range pc {
		ok := true
		appsOf(p, map[*Term]bool{}, func(n string) { ok = ok && fns[n] })
		if ok {
			out = append(out, p)
		}
	}
	return out
}

func appsOf(t *Term, seen map[*Term]bool, f func(string)) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == opApp {
		f(t.name)
	}
	for _, c := range children(t) {
		appsOf(c, seen, f)
	}
}

// Prove tries to show pc => goal.
func (th *Theory) Prove(pc []*Term, goal *Term, timeout time.Duration) Result {
	if goal == True {
		return Result{ok: true, status: "unsat", solver: "simplifier"}
	}
	for _, p := range pc {
		if p == goal || p == False {
			return Result{ok: true, status: "unsat", solver: "simplifier"}
		}
	}
	var keyb strings.Builder
	keyb.WriteString(strings.Join(sortedKeys(th.closed), " "))
	for _, p := range pc {
		fmt.Fprintf(&keyb, "%d,", p.id)
	}
	fmt.Fprintf(&keyb, ":%d:%d", goal.id, timeout)
	if r, ok := proveCache.Load(keyb.String()); ok {
		return r.(Result)
	}
	if few := narrow(pc, goal); len(few) < len(pc) {
		if r := race([]string{th.script(few, goal, 1)}, liteT, 1); r.ok {
			proveCache.Store(keyb.String(), r)
			return r
		}
	}
	scripts := []string{th.script(pc, goal, 1)}
	if len(th.collectRec(append(append([]*Term{}, pc...), goal))) > 0 {
		scripts = append(scripts, th.script(pc, goal, 2))
	}
	if timeout <= fastT {
		r := race(scripts[:1], timeout, 1)
		proveCache.Store(keyb.String(), r)
		return r
	}
	short := timeout / 2
	if short > 1500*time.Millisecond {
		short = 1500 * time.Millisecond
	}
	r := race(scripts[:1], short, 1)
	if !r.ok && r.status != "sat" {
		d := r.dur
		r = race(scripts, timeout, 3)
		r.dur += d
	}
	if dumpDir != "" && (!r.ok || r.dur > time.Second) {
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("%v-%v-%v-%d.smt2", r.ok, timeout, r.dur.Round(100*time.Millisecond), goal.id)), []byte(th.script(pc, goal, 2)), 0644)
	}
	proveCache.Store(keyb.String(), r)
	return r
}

// hard makes the process end even when the other limit does not take effect
// and nobody is left to stop it.
func hard(ms string) string {
	n, _ := strconv.Atoi(ms)
	return fmt.Sprintf("-T:%d", n/1000+5)
}

type solverCfg struct {
	name string
	bin  string
	args func(ms string) []string
}

var solvers = []solverCfg{
	{"z3-5.3.2", "z3-new", func(ms string) []string {
		return []string{"-t:" + ms, hard(ms), "smt.mbqi=false", "smt.auto_config=false"}
	}},
	{"cvc5-1.1.2", "cvc5", func(ms string) []string { return []string{"--tlimit=" + ms, "--no-mbqi"} }},
	{"z3-4.8.12", "z3", func(ms string) []string {
		return []string{"-t:" + ms, hard(ms), "smt.mbqi=false", "smt.auto_config=false"}
	}},
}

// race runs the first n solvers on every script at the same time; one "unsat"
// decides.
func race(scripts []string, timeout time.Duration, n int) Result {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ms := fmt.Sprintf("%d", timeout.Milliseconds())
	type ans struct {
		name, word string
		dur        time.Duration
	}
	ch := make(chan ans, len(scripts)*n)
	k := 0
	for _, sc := range scripts {
		for _, s := range solvers[:n] {
			k++
			go func(s solverCfg, sc string) {
				out, d := runSolver(ctx, s.bin, s.args(ms), sc, timeout)
				ch <- ans{s.name, firstWord(out), d}
			}(s, sc)
		}
	}
	t0 := time.Now()
	last := ""
	for i := 0; i < k; i++ {
		a := <-ch
		if a.word == "unsat" {
			return Result{ok: true, status: a.word, solver: a.name, dur: time.Since(t0)}
		}
		if a.word == "sat" && k == 1 {
			return Result{status: "sat", dur: a.dur}
		}
		last += a.name + ": " + a.word + "; "
	}
	return Result{status: last, dur: time.Since(t0)}
}

// Infeasible reports whether pc is contradictory (short timeout, z3 only: a path that is not seen to be impossible is only more work).
func (th *Theory) Infeasible(pc []*Term) bool {
	for _, p := range pc {
		if p == False {
			return true
		}
	}
	var keyb strings.Builder
	keyb.WriteString(strings.Join(sortedKeys(th.closed), " "))
	for _, p := range pc {
		fmt.Fprintf(&keyb, "%d,", p.id)
	}
	keyb.WriteString("F")
	if r, ok := proveCache.Load(keyb.String()); ok {
		return r.(bool)
	}
	tst := time.Now()
	sc := th.script(pc, False, 1)
	out, _ := runSolver(context.Background(), "z3-new", []string{"-t:400", "smt.mbqi=false", "smt.auto_config=false"}, sc, 400*time.Millisecond)
	r := firstWord(out) == "unsat"
	stat("infeasible "+firstWord(out), tst)
	if w := firstWord(out); strings.HasPrefix(w, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", w)
		if dumpDir != "" {
			os.WriteFile(filepath.Join(dumpDir, "error.smt2"), []byte(sc), 0644)
		}
	}
	proveCache.Store(keyb.String(), r)
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
