package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type sval struct {
	v Val
	t types.Type
}

type specErr struct{ msg string }

type senv struct {
	ex     *Exec
	vars   map[string]sval
	st     *State
	pre    *State
	entry  *State
	k      *Term
	assume bool // draws() introduces fresh draws instead of looking for witnesses
	where  string
	exit   *Term
	open   map[string]bool // hidden definitions to look into
}

func (n *senv) fail(e *Ex, f string, a ...interface{}) {
	l := 0
	if e != nil {
		l = e.line
	}
	panic(specErr{fmt.Sprintf("%s line %d: %s", n.where, l, fmt.Sprintf(f, a...))})
}

func (n *senv) with(name string, v sval) *senv {
	m := *n
	m.vars = make(map[string]sval, len(n.vars)+1)
	for k, x := range n.vars {
		m.vars[k] = x
	}
	m.vars[name] = v
	return &m
}

type nilVal struct{}

func (n *senv) term(e *Ex) *Term { return n.toTerm(e, n.eval(e)) }

func (n *senv) toTerm(e *Ex, s sval) *Term {
	switch x := s.v.(type) {
	case *Term:
		return x
	case VSlice:
		if !isByte(x.elem) {
			n.fail(e, "not a byte slice")
		}
		return n.st.bytesOf(x)
	case VIface:
		if x.typ == nil && x.abs == nil {
			return x.id
		}
	case VPtr:
		if x.nul {
			n.fail(e, "nil pointer in specification")
		}
		if d, ok := n.st.load(x.loc).(VSlice); ok && isByte(d.elem) {
			return n.st.bytesOf(d)
		}
		if t, ok := n.st.load(x.loc).(*Term); ok {
			if x.idx != nil {
				return At(t, x.idx)
			}
			return t
		}
	case VGhost:
		if t := x.t("buf"); t != nil {
			return t
		}
	}
	n.fail(e, "%s is not a value term (%T)", e, s.v)
	return nil
}

func (n *senv) asBool(e *Ex) *Term {
	t := n.term(e)
	if t.sort != SBool {
		n.fail(e, "%s is not a condition", e)
	}
	return t
}

func (n *senv) asSort(e *Ex, s Sort) *Term {
	t := n.term(e)
	if t.sort != s {
		n.fail(e, "%s has sort %s, want %s", e, t.sort.smt(), s.smt())
	}
	return t
}

var ghostSorts = map[string]Sort{"fs": SMap, "perm": SMap, "failed": SBool, "prompts": SInt, "pw": SSeq, "stdout": SSeq, "stderr": SSeq, "confirmed": SBool, "promptbad": SBool, "tty": SSeq, "ttypos": SInt, "randbad": SBool}

func (n *senv) eval(e *Ex) sval {
	switch e.op {
	case "int":
		return sval{v: IB(e.n)}
	case "str":
		return sval{v: StrLit(e.s)}
	case "lit":
		var bs []*Term
		for _, a := range e.a {
			bs = append(bs, n.asSort(a, SInt))
		}
		return sval{v: Lit(bs...)}
	case "id":
		switch e.s {
		case "true":
			return sval{v: True}
		case "false":
			return sval{v: False}
		case "nil":
			return sval{v: nilVal{}}
		case "EOF":
			return sval{v: I(1)}
		case "UnexpectedEOF":
			return sval{v: I(2)}
		case "iter":
			if n.k != nil {
				return sval{v: n.k}
			}
		}
		if v, ok := n.vars[e.s]; ok {
			if c, ok := v.v.(VCell); ok {
				return sval{v: n.st.load(c.p.loc), t: v.t}
			}
			return v
		}
		if _, ok := ghostSorts[e.s]; ok {
			return sval{v: n.st.ghost[e.s]}
		}
		n.fail(e, "unknown name %s", e.s)
	case "field":
		return n.field(e, n.eval(e.a[0]))
	case "index":
		b := n.eval(e.a[0])
		if a, ok := b.v.(VArr); ok {
			i := n.asSort(e.a[1], SInt)
			k, isC := i.constInt()
			if !isC || k < 0 || int(k) >= len(a.e) {
				n.fail(e, "array index")
			}
			return sval{v: a.e[k]}
		}
		if p, ok := b.v.(VPtr); ok && !p.nul {
			if a, ok := n.st.load(p.loc).(VArr); ok {
				k, isC := n.asSort(e.a[1], SInt).constInt()
				if !isC || k < 0 || int(k) >= len(a.e) {
					n.fail(e, "array index")
				}
				return sval{v: a.e[k]}
			}
		}
		t := n.toTerm(e.a[0], b)
		if t.sort == SMap {
			return sval{v: Sel(t, n.asSort(e.a[1], SSeq))}
		}
		return sval{v: At(t, n.asSort(e.a[1], SInt))}
	case "slice":
		t := n.toTerm(e.a[0], n.eval(e.a[0]))
		lo, hi := I(0), SeqLen(t)
		if e.a[1] != nil {
			lo = n.asSort(e.a[1], SInt)
		}
		if e.a[2] != nil {
			hi = n.asSort(e.a[2], SInt)
		}
		return sval{v: SeqSub(t, lo, hi)}
	case "un":
		if e.s == "!" {
			return sval{v: Not(n.asBool(e.a[0]))}
		}
		return sval{v: Neg(n.asSort(e.a[0], SInt))}
	case "bin":
		return sval{v: n.binary(e)}
	case "ite":
		c := n.asBool(e.a[0])
		if v, k := n.st.decide(c); k {
			if v {
				return n.eval(e.a[1])
			}
			return n.eval(e.a[2])
		}
		return sval{v: Ite(c, n.term(e.a[1]), n.term(e.a[2]))}
	case "let":
		return n.with(e.s, n.eval(e.a[0])).eval(e.a[1])
	case "forall":
		m := n
		var vs, trs []*Term
		for _, p := range e.vars {
			v := Var("?"+p.name, sortByName(p.sort))
			vs = append(vs, v)
			m = m.with(p.name, sval{v: v})
		}
		for _, t := range e.a[1:] {
			trs = append(trs, m.term(t))
		}
		return sval{v: Forall(vs, trs, m.asBool(e.a[0]))}
	case "draws":
		return sval{v: n.draws(e)}
	case "call":
		return n.call(e)
	}
	n.fail(e, "cannot evaluate %s", e)
	return sval{}
}

func (n *senv) deref(e *Ex, s sval) sval {
	if i, ok := s.v.(VIface); ok && i.typ != nil {
		s = sval{v: i.v, t: i.typ}
	}
	if p, ok := s.v.(VPtr); ok {
		if p.nul {
			n.fail(e, "nil pointer in %s", e)
		}
		return sval{v: n.st.load(p.loc), t: p.typ}
	}
	return s
}

func (n *senv) field(e *Ex, b sval) sval {
	b = n.deref(e, b)
	switch x := b.v.(type) {
	case VStruct:
		st := x.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.s {
				return sval{v: x.f[i], t: st.Field(i).Type()}
			}
		}
	case VGhost:
		if v, ok := x.f[e.s]; ok {
			return sval{v: v}
		}
	}
	n.fail(e, "no field %s in %T", e.s, b.v)
	return sval{}
}

func (n *senv) eq(e *Ex, a, b sval) *Term {
	if _, ok := a.v.(nilVal); ok {
		a, b = b, a
	}
	if _, ok := b.v.(nilVal); ok {
		switch x := a.v.(type) {
		case VIface:
			if x.typ != nil || x.abs != nil {
				return False
			}
			return Eq(x.id, I(0))
		case VSlice:
			return x.null
		case VPtr:
			return B(x.nul)
		case *Term:
			if x.sort == SInt {
				return Eq(x, I(0))
			}
		case VFunc:
			return B(x.nul)
		}
		n.fail(e, "comparison of %T with nil", a.v)
	}
	_, at := a.v.(*Term)
	_, bt := b.v.(*Term)
	if !at && !bt {
		if x, ok := a.v.(VPtr); ok {
			if y, ok := b.v.(VPtr); ok {
				return n.ex.eqVal(n.st, x, y)
			}
		}
		if x, ok := a.v.(VIface); ok {
			if y, ok := b.v.(VIface); ok {
				return n.ex.eqIface(n.st, x, y)
			}
		}
		if _, ok := a.v.(VStruct); ok {
			return n.ex.eqVal(n.st, a.v, n.deref(e, b).v)
		}
		if _, ok := a.v.(VArr); ok {
			return n.ex.eqVal(n.st, a.v, n.deref(e, b).v)
		}
	}
	x, y := n.toTerm(e, a), n.toTerm(e, b)
	if x.sort != y.sort {
		n.fail(e, "comparison of %s and %s", x.sort.smt(), y.sort.smt())
	}
	if n.assume && x.sort == SInt { // be(v) == t defines the bytes of v
		for i := 0; i < 2; i++ {
			if v, k := n.beOf(x); v != nil {
				lim := new(big.Int).Lsh(one, uint(8*k))
				return And(Le(I(0), y), Lt(y, IB(lim)), mk(&Term{op: opEq, sort: SBool, args: []*Term{v, beSeq(y, k)}}))
			}
			x, y = y, x
		}
	}
	if n.assume && x.sort == SSeq && (x.op == opVar) != (y.op == opVar) {
		if a, ok := constLen(x); ok {
			if b, ok := constLen(y); !ok || a != b {
				return Eq(x, y)
			}
		}
		return mk(&Term{op: opEq, sort: SBool, args: []*Term{x, y}}) // usable as a definition
	}
	return Eq(x, y)
}

// beOf recognises the big-endian value of a whole symbolic byte sequence.
func (n *senv) beOf(t *Term) (*Term, int) {
	ms := toMons(t)
	var v *Term
	for _, m := range ms {
		if len(m.atoms) != 1 || m.atoms[0].op != opAt {
			return nil, 0
		}
		s := m.atoms[0].args[0]
		if s.op != opVar || v != nil && s != v {
			return nil, 0
		}
		v = s
	}
	if v == nil || v.clen <= 1 || len(ms) != v.clen {
		return nil, 0
	}
	x, _ := expand(v, 64)
	if beVal(x) != t {
		return nil, 0
	}
	return v, v.clen
}

func (n *senv) binary(e *Ex) *Term {
	switch e.s {
	case "==":
		if r := e.a[1]; r.op == "call" && r.s == "le32bytes" && !n.assume {
			// 32 bytes are those of a number if they have its value
			s := n.deref(e, n.eval(e.a[0]))
			if t, ok := s.v.(*Term); ok && t.sort == SSeq {
				if x, ok := expand(t, 32); ok && len(x) == 32 {
					m := n.asSort(r.a[0], SInt)
					if i := n.st.interval(m); i.lo != nil && i.lo.Sign() >= 0 && i.hi != nil && i.hi.BitLen() <= 256 {
						return Eq(leVal(x), m)
					}
				}
			}
		}
		return n.eq(e, n.eval(e.a[0]), n.eval(e.a[1]))
	case "!=":
		return Not(n.eq(e, n.eval(e.a[0]), n.eval(e.a[1])))
	case "==>":
		l := n.asBool(e.a[0])
		if v, k := n.st.decide(l); k && !v {
			return True
		}
		return n.implies(l, e.a[1])
	case "<=>":
		return Eq(n.asBool(e.a[0]), n.asBool(e.a[1]))
	case "&&":
		l := n.asBool(e.a[0])
		if v, k := n.st.decide(l); k && !v {
			return False
		}
		return And(l, n.asBool(e.a[1]))
	case "||":
		l := n.asBool(e.a[0])
		if v, k := n.st.decide(l); k && v {
			return True
		}
		return Or(l, n.asBool(e.a[1]))
	case "++":
		return Cat(n.asSort(e.a[0], SSeq), n.asSort(e.a[1], SSeq))
	}
	a, b := n.term(e.a[0]), n.term(e.a[1])
	if a.sort == SFe && b.sort == SFe {
		switch e.s {
		case "+":
			return FeAdd(a, b)
		case "-":
			return FeSub(a, b)
		case "*":
			return FeMulT(a, b)
		}
	}
	if a.sort != SInt || b.sort != SInt {
		n.fail(e, "operator %s on %s and %s", e.s, a.sort.smt(), b.sort.smt())
	}
	switch e.s {
	case "<":
		return Lt(a, b)
	case "<=":
		return Le(a, b)
	case ">":
		return Lt(b, a)
	case ">=":
		return Le(b, a)
	case "+":
		return Add(a, b)
	case "-":
		return Sub(a, b)
	case "*":
		return Mul(a, b)
	case "^":
		return Xor(a, b)
	case "/", "%":
		if !b.isConst() || b.ival.Sign() <= 0 {
			n.fail(e, "division by a non-constant")
		}
		if e.s == "/" {
			return Div(a, b.ival)
		}
		return Mod(a, b.ival)
	}
	n.fail(e, "operator %s", e.s)
	return nil
}

// draws(a 32, b 16) :: body — some distinct draws from the random source made
// by this execution satisfy body.
func (n *senv) draws(e *Ex) *Term {
	if n.assume {
		m := n
		for _, p := range e.vars {
			v := FreshSeqN("draw_"+p.name, p.n)
			n.st.draws = append(n.st.draws, v)
			m = m.with(p.name, sval{v: v})
		}
		return m.asBool(e.a[0])
	}
	var alts []*Term
	for _, m := range n.drawChoices(e.vars) {
		alts = append(alts, m.asBool(e.a[0]))
	}
	return Or(alts...)
}

// drawChoices binds the names to disjoint parts of the values drawn from the
// random source, in every way.
func (n *senv) drawChoices(vars []param) []*senv {
	cand := n.st.draws
	if n.pre != nil {
		cand = cand[len(n.pre.draws):]
	}
	sums := map[int]bool{0: true}
	for _, p := range vars {
		next := map[int]bool{}
		for s := range sums {
			next[s], next[s+p.n] = true, true
		}
		sums = next
	}
	var offs []int
	for s := range sums {
		offs = append(offs, s)
	}
	sort.Ints(offs)
	type part struct{ d, lo, hi int }
	var used []part
	var out []*senv
	var rec func(m *senv, i int)
	rec = func(m *senv, i int) {
		if i == len(vars) {
			out = append(out, m)
			return
		}
		for j, d := range cand {
		next:
			for _, o := range offs {
				q := part{j, o, o + vars[i].n}
				if d.clen < q.hi {
					break
				}
				for _, u := range used {
					if u.d == j && u.lo < q.hi && q.lo < u.hi {
						continue next
					}
				}
				used = append(used, q)
				rec(m.with(vars[i].name, sval{v: SeqSub(d, I(int64(q.lo)), I(int64(q.hi)))}), i+1)
				used = used[:len(used)-1]
			}
		}
	}
	rec(n, 0)
	return out
}

// implies evaluates a consequent; where it has no meaning (a nil result, say)
// the antecedent has to be false.
func (n *senv) implies(l *Term, r *Ex) (res *Term) {
	if !n.assume {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(specErr); ok && l != True {
					res = Not(l)
					return
				}
				panic(x)
			}
		}()
	}
	return Implies(l, n.asBool(r))
}

func (n *senv) args(e *Ex, ps []param) []*Term {
	if len(e.a) != len(ps) {
		n.fail(e, "%s wants %d arguments", e.s, len(ps))
	}
	var out []*Term
	for i, a := range e.a {
		out = append(out, n.asSort(a, sortByName(ps[i].sort)))
	}
	return out
}

func (n *senv) call(e *Ex) sval {
	sp := n.ex.v.specs
	if d := sp.ufs[e.s]; d != nil {
		return sval{v: App(e.s, sortByName(d.ret.sort), d.ret.n, n.args(e, d.params)...)}
	}
	if d := sp.defs[e.s]; d != nil {
		if d.rec || d.hidden && !n.open[d.name] {
			return sval{v: App(e.s, sortByName(d.ret.sort), d.ret.n, n.args(e, d.params)...)}
		}
		if len(e.a) != len(d.params) {
			n.fail(e, "%s wants %d arguments", e.s, len(d.params))
		}
		m := *n
		m.vars = map[string]sval{}
		for i, p := range d.params {
			v := n.eval(e.a[i])
			if p.sort != "" {
				t := n.toTerm(e.a[i], v)
				if t.sort != sortByName(p.sort) {
					n.fail(e, "argument %s of %s", p.name, e.s)
				}
				v = sval{v: t}
			}
			m.vars[p.name] = v
		}
		m.where = n.where + " in " + e.s
		return m.eval(d.body)
	}
	arg := func(i int) *Ex {
		if i >= len(e.a) {
			n.fail(e, "%s: too few arguments", e.s)
		}
		return e.a[i]
	}
	switch e.s {
	case "old":
		if n.pre == nil {
			n.fail(e, "old() without a pre-state")
		}
		m := *n
		m.st = n.pre
		return m.fixed(m.eval(arg(0)))
	case "entry":
		if n.entry == nil {
			n.fail(e, "entry() outside a loop invariant")
		}
		m := *n
		m.st = n.entry
		return m.fixed(m.eval(arg(0)))
	case "len":
		s := n.eval(arg(0))
		if x, ok := s.v.(VSlice); ok {
			return sval{v: x.len}
		}
		if x, ok := s.v.(VArr); ok {
			return sval{v: I(int64(len(x.e)))}
		}
		return sval{v: SeqLen(n.toTerm(e.a[0], s))}
	case "min", "max":
		a, b := n.asSort(arg(0), SInt), n.asSort(arg(1), SInt)
		if e.s == "max" {
			a, b = b, a
		}
		c := Le(a, b)
		if v, k := n.st.decide(c); k {
			if v {
				return sval{v: n.term(e.a[0])}
			}
			return sval{v: n.term(e.a[1])}
		}
		if e.s == "max" {
			a, b = b, a
			return sval{v: Ite(c, a, b)}
		}
		return sval{v: Ite(c, a, b)}
	case "rep":
		return sval{v: Rep(n.asSort(arg(0), SInt), n.asSort(arg(1), SInt))}
	case "store":
		return sval{v: Store(n.asSort(arg(0), SMap), n.asSort(arg(1), SSeq), n.asSort(arg(2), SSeq))}
	case "xorseq": // of equal constant lengths
		a, b := n.asSort(arg(0), SSeq), n.asSort(arg(1), SSeq)
		x, ok1 := expand(a, 512)
		y, ok2 := expand(b, 512)
		if !ok1 || !ok2 || len(x) != len(y) {
			n.fail(e, "xorseq of unknown lengths")
		}
		var bs []*Term
		for i := range x {
			bs = append(bs, Xor(x[i], y[i]))
		}
		return sval{v: Lit(bs...)}
	case "be": // big-endian value of a constant-length sequence
		a := n.asSort(arg(0), SSeq)
		x, ok := expand(a, 64)
		if !ok {
			n.fail(e, "be() of unknown length")
		}
		return sval{v: n.st.simpInt(beVal(x))}
	case "be4", "be8", "be24":
		k := map[string]int{"be4": 4, "be8": 8, "be24": 24}[e.s]
		return sval{v: beSeq(n.asSort(arg(0), SInt), k)}
	case "le32bytes":
		return sval{v: leSeq(n.asSort(arg(0), SInt), 32)}
	case "out", "in":
		r := n.stream(e, n.eval(arg(0)), e.s)
		return sval{v: r}
	case "attr": // attr(obj, "name")
		s := n.eval(arg(0))
		return n.attr(e, s, arg(1).s)
	case "called": // number of traced calls of a function
		c := 0
		for _, ev := range n.st.events {
			if ev.kind == "call" && (e.a[0].s == "*" || ev.name == e.a[0].s) {
				c++
			}
		}
		return sval{v: I(int64(c))}
	case "callarg": // callarg("f", i): argument of the only call of f
		for _, ev := range n.st.events {
			if ev.kind == "call" && ev.name == e.a[0].s {
				return sval{v: ev.vals[int(e.a[1].n.Int64())]}
			}
		}
		n.fail(e, "no call of %s", e.a[0].s)
	case "callok": // the only traced call succeeded
		for _, ev := range n.st.events {
			if ev.kind == "call" {
				return sval{v: Eq(ev.res, I(0))}
			}
		}
		return sval{v: False}
	case "wiped": // every passphrase obtained has been overwritten with zeros
		var cs []*Term
		for _, w := range n.st.wipe {
			c, ok := n.st.heap[w.obj].(*Term)
			if !ok {
				n.fail(e, "wiped")
			}
			cs = append(cs, Eq(c, Rep(I(0), w.n)))
		}
		return sval{v: And(cs...)}
	case "nprompted":
		return sval{v: I(int64(len(n.st.wipe)))}
	case "unchanged": // the value of a location is what it was
		a := n.eval(arg(0))
		m := *n
		m.st = n.pre
		b := m.eval(arg(0))
		a, b = n.deref(e, a), m.deref(e, b)
		return sval{v: n.ex.eqVal(n.st, a.v, b.v)}
	case "flagval": // value given for a command line flag, or its default
		return sval{v: flagSym(e.a[0].s, SSeq)}
	case "flagset":
		return sval{v: flagSym(e.a[0].s, SBool)}
	case "forallk":
	case "fe": // field element of a limb array
		s := n.deref(e, n.eval(arg(0)))
		a, ok := s.v.(VArr)
		if !ok || len(a.e) != 10 {
			n.fail(e, "fe() of %T", s.v)
		}
		return sval{v: FeOf(packed(a))}
	case "feint": // packed integer value
		s := n.deref(e, n.eval(arg(0)))
		a, ok := s.v.(VArr)
		if !ok || len(a.e) != 10 {
			n.fail(e, "feint() of %T", s.v)
		}
		return sval{v: packed(a)}
	case "febound": // |limb i| <= b1 (even) / b2 (odd)
		s := n.deref(e, n.eval(arg(0)))
		a, ok := s.v.(VArr)
		if !ok || len(a.e) != 10 {
			n.fail(e, "febound() of %T", s.v)
		}
		b := []*Term{n.asSort(arg(1), SInt), n.asSort(arg(2), SInt)}
		var cs []*Term
		for i, x := range a.e {
			t := x.(*Term)
			cs = append(cs, Le(Neg(b[i&1]), t), Le(t, b[i&1]))
		}
		return sval{v: And(cs...)}
	case "feconst":
		return sval{v: feConst(n.asSort(arg(0), SInt).ival)}
	case "feof":
		return sval{v: FeOf(n.asSort(arg(0), SInt))}
	case "fenat":
		return sval{v: FeNat(n.asSort(arg(0), SFe))}
	case "fepow":
		x := n.asSort(arg(1), SInt)
		if !x.isConst() {
			n.fail(e, "fepow exponent")
		}
		return sval{v: FePow(n.asSort(arg(0), SFe), x.ival)}
	case "pow2":
		x := n.asSort(arg(0), SInt)
		return sval{v: IB(new(big.Int).Lsh(one, uint(x.ival.Int64())))}
	case "le": // little-endian value
		x, ok := expand(n.asSort(arg(0), SSeq), 64)
		if !ok {
			n.fail(e, "le() of unknown length")
		}
		return sval{v: leVal(x)}
	case "bit": // bit(n, k)
		k, _ := n.asSort(arg(1), SInt).constInt()
		return sval{v: Mod(Div(n.asSort(arg(0), SInt), new(big.Int).Lsh(one, uint(k))), bi(2))}
	case "int":
		return n.eval(arg(0))
	case "made": // the only object of a type made by this execution
		var found *Obj
		for o := range n.st.heap {
			if n.st.fresh[o] && o.typ != nil && short(typeName(o.typ)) == arg(0).s {
				if found != nil {
					n.fail(e, "several objects of type %s", arg(0).s)
				}
				found = o
			}
		}
		if found == nil {
			n.fail(e, "no object of type %s", arg(0).s)
		}
		return sval{v: VPtr{loc: Loc{found, ""}, typ: found.typ}, t: types.NewPointer(found.typ)}
	case "israndom":
		i, ok := n.eval(arg(0)).v.(VIface)
		return sval{v: B(ok && i.abs != nil && i.abs.ghost == "rand")}
	case "isobj": // isobj(p, "encoding/base64.StdEncoding")
		p, ok := n.eval(arg(0)).v.(VPtr)
		return sval{v: B(ok && !p.nul && p.loc.obj.name == arg(1).s)}
	case "null":
		return sval{v: n.eq(e, n.eval(arg(0)), sval{v: nilVal{}})}
	case "exitcode":
		if n.exit == nil {
			return sval{v: I(0)} // main returned
		}
		return sval{v: n.exit}
	case "helped": // the command line asked for help
		return sval{v: B(n.st.ghost["help"] == True)}
	case "badflags": // the command line could not be parsed
		return sval{v: B(n.st.ghost["help"] == False)}
	case "exited":
		return sval{v: B(n.exit != nil)}
	}
	n.fail(e, "unknown function %s", e.s)
	return sval{}
}

// fixed replaces bytes in memory by their present contents.
func (n *senv) fixed(s sval) sval {
	switch x := s.v.(type) {
	case VPtr:
		if !x.nul && x.idx == nil {
			if t, ok := n.st.load(x.loc).(*Term); ok && t.sort == SSeq {
				return sval{v: t}
			}
		}
	case VSlice:
		if isByte(x.elem) && x.null != True {
			return sval{v: n.st.bytesOf(x)}
		}
	}
	return s
}

// leVal is the little-endian value of bytes.
func leVal(bs []*Term) *Term {
	x := make([]*Term, len(bs))
	for i, b := range bs {
		x[len(bs)-1-i] = b
	}
	v := beVal(x)
	// bytes cut out of longer numbers: x mod 256 = x - 256 (x div 256)
	if len(x) == 32 && v.op == opPoly {
		w := I(0)
		for _, m := range v.mons {
			t := mk(&Term{op: opPoly, sort: SInt, mons: []mon{{c: one, atoms: m.atoms}}})
			if len(m.atoms) == 1 {
				t = m.atoms[0]
			} else if len(m.atoms) == 0 {
				t = I(1)
			}
			if t.op == opMod {
				a := t.args[0]
				t = Sub(a, MulC(Div(a, t.ival), t.ival))
			}
			w = Add(w, MulC(t, m.c))
		}
		if len(toMons(w)) <= len(v.mons) {
			v = w
		}
	}
	return v
}

func packed(a VArr) *Term {
	var ts []*Term
	for i, x := range a.e {
		ts = append(ts, MulC(x.(*Term), new(big.Int).Lsh(one, limbExp[i])))
	}
	return Add(ts...)
}

func beVal(x []*Term) *Term {
	if last := x[len(x)-1]; last.op == opMod && last.ival.Cmp(bi(256)) == 0 && len(x) > 1 {
		// the bytes of one number
		n := last.args[0]
		same := true
		for i, b := range x {
			same = same && b == Mod(Div(n, new(big.Int).Lsh(one, uint(8*(len(x)-1-i)))), bi(256))
		}
		if same {
			return Mod(n, new(big.Int).Lsh(one, uint(8*len(x))))
		}
	}
	var ts []*Term
	for i, b := range x {
		ts = append(ts, MulC(b, new(big.Int).Lsh(one, uint(8*(len(x)-1-i)))))
	}
	return Add(ts...)
}

// beSeq is the k-byte big-endian encoding of n modulo 2^(8k).
func beSeq(n *Term, k int) *Term {
	bs := make([]*Term, k)
	for i := 0; i < k; i++ {
		bs[i] = Mod(Div(n, new(big.Int).Lsh(one, uint(8*(k-1-i)))), bi(256))
	}
	return Lit(bs...)
}

func leSeq(n *Term, k int) *Term {
	bs := make([]*Term, k)
	for i := 0; i < k; i++ {
		bs[i] = Mod(Div(n, new(big.Int).Lsh(one, uint(8*i))), bi(256))
	}
	return Lit(bs...)
}

func flagSym(name string, s Sort) *Term {
	return Var("flag_"+name+"_"+s.smt(), s)
}

// stream is the contents still to be read from a reader ("in") or written so
// far to a writer ("out").
func (n *senv) stream(e *Ex, s sval, dir string) *Term {
	t, err := n.ex.streamVal(n.st, s.v, dir)
	if err != "" {
		n.fail(e, "%s(): %s", dir, err)
	}
	return t
}

func (ex *Exec) streamVal(st *State, v Val, dir string) (*Term, string) {
	if i, ok := v.(VIface); ok {
		if i.abs != nil {
			g, ok := st.heap[i.abs].(VGhost)
			if ok && g.t(dir) != nil {
				return g.t(dir), ""
			}
			return nil, "not a stream"
		}
		v = i.v
	}
	p, ok := v.(VPtr)
	if !ok || p.nul {
		return nil, fmt.Sprintf("%T", v)
	}
	if g, ok := st.load(p.loc).(VGhost); ok {
		switch g.kind {
		case "buffer":
			return g.t("buf"), ""
		case "file":
			if dir == "in" {
				if t := g.t("in"); t != nil {
					return t, ""
				}
				return nil, "file not open for reading"
			}
			if t := g.t("path"); t != nil {
				return Sel(st.ghost["fs"].(*Term), t), ""
			}
		case "scanner":
			return g.t("rest"), ""
		}
		return nil, g.kind
	}
	if ex.ensureAttrs(st, p) {
		if t, ok := st.ghost[attrKey(p.loc.obj, dir)].(*Term); ok {
			return t, ""
		}
	}
	return nil, fmt.Sprintf("no %s stream in %s", dir, p.typ)
}

func attrKey(o *Obj, name string) string { return fmt.Sprintf("@%d.%s", o.id, name) }

// ensureAttrs gives an object of a type with declared ghost attributes their
// initial values, unless it has them.
func (ex *Exec) ensureAttrs(st *State, p VPtr) bool {
	c := ex.v.specs.objInv[short(typeName(p.typ))]
	if c == nil {
		return false
	}
	for _, g := range c.ghosts {
		k := attrKey(p.loc.obj, g.ghost.s)
		if _, ok := st.ghost[k]; ok {
			continue
		}
		env := &senv{ex: ex, st: st, vars: map[string]sval{c.params[0]: {v: p, t: types.NewPointer(p.typ)}}, where: "ghostinit " + c.name}
		st.ghost[k] = env.term(g.e)
	}
	return true
}

func (n *senv) attr(e *Ex, s sval, name string) sval {
	if i, ok := s.v.(VIface); ok && i.typ != nil {
		s.v = i.v
	}
	p, ok := s.v.(VPtr)
	if !ok || p.nul || !n.ex.ensureAttrs(n.st, p) {
		n.fail(e, "no attribute %s of %T", name, s.v)
	}
	v, ok := n.st.ghost[attrKey(p.loc.obj, name)]
	if !ok {
		n.fail(e, "no attribute %s", name)
	}
	return sval{v: v}
}

// ---------- assignable targets ----------

type target struct {
	key   leafKey
	obj   *Obj
	path  string
	fresh func(st *State) Val
	set   func(st *State, v Val)
	lo    *Term // byte range of a region
	n     *Term
}

func (n *senv) targets(e *Ex) []target {
	ex := n.ex
	switch e.op {
	case "id":
		if s, ok := ghostSorts[e.s]; ok {
			name := e.s
			return []target{{key: leafKey{nil, name},
				fresh: func(st *State) Val { return Fresh(name, s) },
				set:   func(st *State, v Val) { st.ghost[name] = v }}}
		}
	case "field":
		b := n.eval(e.a[0])
		if i, ok := b.v.(VIface); ok && i.typ != nil {
			b.v = i.v
		}
		p, ok := b.v.(VPtr)
		if !ok || p.nul {
			n.fail(e, "modifies %s", e)
		}
		st, ok := p.typ.Underlying().(*types.Struct)
		if !ok {
			n.fail(e, "modifies %s", e)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.s {
				l := p.loc.sub(i)
				t := st.Field(i).Type()
				nm := e.s
				return []target{{obj: l.obj, path: l.path,
					fresh: func(s *State) Val { return ex.freshVal(s, t, nm) },
					set:   func(s *State, v Val) { s.store(l, v) }}}
			}
		}
		n.fail(e, "no field %s", e.s)
	case "call":
		switch e.s {
		case "deref":
			p, ok := n.eval(e.a[0]).v.(VPtr)
			if !ok || p.nul {
				n.fail(e, "modifies %s", e)
			}
			return []target{{obj: p.loc.obj, path: p.loc.path,
				fresh: func(s *State) Val { return ex.freshVal(s, p.typ, "deref") },
				set:   func(s *State, v Val) { s.store(p.loc, v) }}}
		case "contents":
			cv := n.eval(e.a[0]).v
			if p, ok := cv.(VPtr); ok && !p.nul {
				if a, ok := p.typ.Underlying().(*types.Array); ok && p.idx == nil && isByte(a.Elem()) {
					k := int(a.Len())
					return []target{{obj: p.loc.obj, path: p.loc.path,
						fresh: func(s *State) Val { return FreshSeqN("contents", k) },
						set:   func(s *State, v Val) { s.store(p.loc, v) }}}
				}
				if d, ok := n.st.load(p.loc).(VSlice); ok {
					cv = d
				}
			}
			v, ok := cv.(VSlice)
			if !ok || !isByte(v.elem) {
				n.fail(e, "modifies %s", e)
			}
			if v.null == True {
				return nil
			}
			return []target{{obj: v.loc.obj, path: v.loc.path, lo: v.off, n: v.len,
				fresh: func(s *State) Val {
					if k, ok := v.len.constInt(); ok {
						return FreshSeqN("contents", int(k))
					}
					f := Fresh("contents", SSeq)
					s.assume(Eq(SeqLen(f), v.len))
					return f
				},
				set: func(s *State, x Val) {
					if old := s.load(v.loc).(*Term); v.off.isInt(0) && SeqLen(old) == v.len {
						s.store(v.loc, x)
						return
					}
					s.store(v.loc, splice(s.load(v.loc).(*Term), v.off, x.(*Term)))
				}}}
		case "fe":
			p, ok := n.eval(e.a[0]).v.(VPtr)
			if !ok || p.nul {
				n.fail(e, "modifies %s", e)
			}
			a, ok := n.st.load(p.loc).(VArr)
			if !ok || len(a.e) != 10 {
				n.fail(e, "modifies %s", e)
			}
			return []target{{obj: p.loc.obj, path: p.loc.path,
				fresh: func(s *State) Val { return ex.freshVal(s, p.typ, "fe") },
				set:   func(s *State, v Val) { s.store(p.loc, v) }}}
		case "out", "in":
			return n.streamTargets(e, n.eval(e.a[0]).v, e.s)
		case "attr":
			s := n.eval(e.a[0])
			if i, ok := s.v.(VIface); ok && i.typ != nil {
				s.v = i.v
			}
			n.attr(e, s, e.a[1].s)
			k := attrKey(s.v.(VPtr).loc.obj, e.a[1].s)
			old := n.st.ghost[k].(*Term)
			return []target{{key: leafKey{nil, k},
				fresh: func(st *State) Val { return Fresh("attr", old.sort) },
				set:   func(st *State, v Val) { st.ghost[k] = v }}}
		}
	}
	n.fail(e, "cannot modify %s", e)
	return nil
}

func (n *senv) streamTargets(e *Ex, v Val, dir string) []target {
	ghostF := func(o *Obj, path string, f string) []target {
		return []target{{obj: o, path: path + "#" + f + ".",
			fresh: func(st *State) Val { return Fresh("stream", SSeq) },
			set: func(st *State, x Val) {
				l := Loc{o, path}
				st.store(l, st.load(l).(VGhost).with(f, x))
			}}}
	}
	if i, ok := v.(VIface); ok {
		if i.abs != nil {
			return ghostF(i.abs, "", dir)
		}
		v = i.v
	}
	p, ok := v.(VPtr)
	if !ok || p.nul {
		n.fail(e, "stream %T", v)
	}
	if g, ok := n.st.load(p.loc).(VGhost); ok {
		switch {
		case g.kind == "buffer":
			return ghostF(p.loc.obj, p.loc.path, "buf")
		case g.kind == "file" && dir == "in":
			return ghostF(p.loc.obj, p.loc.path, "in")
		case g.kind == "file":
			path := g.t("path")
			return []target{{key: leafKey{nil, "fs"},
				fresh: func(st *State) Val { return Fresh("fsat", SSeq) },
				set:   func(st *State, x Val) { st.ghost["fs"] = Store(st.ghost["fs"].(*Term), path, x.(*Term)) }}}
		case g.kind == "scanner":
			return ghostF(p.loc.obj, p.loc.path, "rest")
		}
	}
	if n.ex.ensureAttrs(n.st, p) {
		k := attrKey(p.loc.obj, dir)
		return []target{{key: leafKey{nil, k},
			fresh: func(st *State) Val { return Fresh("stream", SSeq) },
			set:   func(st *State, x Val) { st.ghost[k] = x }}}
	}
	n.fail(e, "stream")
	return nil
}

// ---------- contracts at calls ----------

// specGuard turns specification errors into an unresolved contract.
type contractErr struct {
	name string
	msg  string
}

func (ex *Exec) applyContract(st *State, c *Contract, sig *types.Signature, args []Val, pos token.Pos) (outs []outcome) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				panic(contractErr{c.name, e.msg})
			}
			panic(r)
		}
	}()
	ex.used[c.name] = true
	env := &senv{ex: ex, st: st, vars: map[string]sval{}, where: c.name}
	var ptypes []types.Type
	if sig.Recv() != nil {
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	if len(c.params) != len(args) {
		panic(contractErr{c.name, fmt.Sprintf("%d parameters in the contract, %d at the call", len(c.params), len(args))})
	}
	for i, p := range c.params {
		env.vars[p] = sval{v: args[i], t: ptypes[i]}
	}
	if !c.alias && len(c.modifies) > 0 && !c.extern {
		for i, a := range args {
			for _, b := range args[:i] {
				p, ok1 := a.(VPtr)
				q, ok2 := b.(VPtr)
				if ok1 && ok2 && !p.nul && !q.nul && p.loc.obj == q.loc.obj && (strings.HasPrefix(p.loc.path, q.loc.path) || strings.HasPrefix(q.loc.path, p.loc.path)) {
					ex.oblige(st, "requires", c.name+" arguments do not overlap", nil, False, ex.pos(pos))
				}
			}
		}
	}
	for _, r := range c.requires {
		ex.oblige(st, "requires", c.name+" "+r.label, nil, env.asBool(r.e), ex.pos(pos))
		st.assume(env.asBool(r.e))
	}
	if st.dead {
		return nil
	}
	nres := sig.Results().Len()
	errIdx := -1
	if nres > 0 && isErr(sig.Results().At(nres-1).Type()) && !c.noerr {
		errIdx = nres - 1
	}
	if len(c.results) != nres {
		panic(contractErr{c.name, "number of results"})
	}
	variants := []int{0}
	if errIdx >= 0 {
		variants = []int{0, 1}
	}
	pre := st.clone()
	for _, vr := range variants {
		s := pre.clone()
		e := &senv{ex: ex, st: s, pre: pre, vars: map[string]sval{}, where: c.name, assume: true}
		for k, v := range env.vars {
			e.vars[k] = v
		}
		for _, p := range c.draws {
			d := FreshSeqN("draw_"+p.name, p.n)
			if vr == 0 {
				s.draws = append(s.draws, d)
			}
			e.vars[p.name] = sval{v: d}
		}
		freshSyms := map[*Term]bool{}
		note := func(v Val) {
			leaves(v, "", func(_ string, x Val) {
				if t, ok := x.(*Term); ok && t.op == opVar {
					freshSyms[t] = true
				} else if ok && t.op == opApp && t.name == "limb" && t.args[1].op == opVar {
					freshSyms[t.args[1]] = true
				}
			})
		}
		var touched []target
		{
			pe := *env
			pe.st = s
			for _, m := range c.modifies {
				for _, t := range pe.targets(m) {
					f := t.fresh(s)
					note(f)
					t.set(s, f)
					touched = append(touched, t)
				}
			}
			for o := range ex.v.mutable {
				s.heap[o] = ex.v.anyGlobal(ex, s, o)
			}
		}
		var rets []Val
		for i := 0; i < nres; i++ {
			rt := sig.Results().At(i).Type()
			var v Val
			switch {
			case i == errIdx && vr == 0:
				v = VIface{id: I(0)}
			case i == errIdx:
				f := Fresh("err", SInt)
				s.assume(Le(I(1), f))
				v = VIface{id: f}
			default:
				if _, isP := rt.Underlying().(*types.Pointer); isP && vr == 1 {
					v = VOpaque{typ: rt}
				} else {
					v = ex.freshVal(s, rt, c.results[i])
					if p, ok := v.(VPtr); ok {
						s.fresh[p.loc.obj] = true
						note(s.heap[p.loc.obj])
					} else if sl, ok := v.(VSlice); ok {
						s.fresh[sl.loc.obj] = true
						note(s.heap[sl.loc.obj])
					} else {
						note(v)
					}
				}
			}
			rets = append(rets, v)
			e.vars[c.results[i]] = sval{v: v, t: rt}
		}
		// ghost assignments
		for _, g := range c.ghosts {
			pe := *env
			pe.st = s
			for _, t := range pe.targets(g.ghost) {
				// only the assignment changes it
				if v, ok := pre.ghost[t.key.path]; ok && t.key.obj == nil {
					s.ghost[t.key.path] = v
				}
			}
		}
		for _, g := range c.ghosts {
			val := e.term(g.e)
			pe := *env
			pe.st = s
			for _, t := range pe.targets(g.ghost) {
				t.set(s, val)
			}
		}
		sig_ := map[*Term]*Term{}
		var rest []*Term
		for _, cl := range c.ensures {
			var t *Term
			if vr == 1 && refersOpaque(e, cl.e) {
				continue
			}
			t = e.asBool(cl.e)
			for _, cj := range conjuncts(t) {
				cj = subst(cj, sig_)
				if v, d := definition(cj, freshSyms); v != nil {
					if v.sort == SSeq {
						if v.clen >= 0 && !SeqLen(d).isConst() {
							rest = append(rest, Eq(SeqLen(d), I(int64(v.clen))))
						}
					}
					if r, ok := preRange(v); ok {
						if r.lo != nil {
							rest = append(rest, Le(IB(r.lo), d))
						}
						if r.hi != nil {
							rest = append(rest, Le(d, IB(r.hi)))
						}
					}
					one := map[*Term]*Term{v: d}
					for k, x := range sig_ {
						sig_[k] = subst(x, one)
					}
					sig_[v] = d
					delete(freshSyms, v)
					continue
				}
				rest = append(rest, cj)
			}
		}
		if len(sig_) > 0 {
			substState(s, sig_, touched)
			for i := range rets {
				rets[i] = substVal(rets[i], sig_)
				if p, ok := rets[i].(VPtr); ok && !p.nul {
					s.heap[p.loc.obj] = substVal(s.heap[p.loc.obj], sig_)
				}
				if p, ok := rets[i].(VSlice); ok && p.null != True {
					s.heap[p.loc.obj] = substVal(s.heap[p.loc.obj], sig_)
				}
			}
			var npc []*Term
			for _, p := range s.pc {
				npc = append(npc, p)
			}
			s.pc = npc
			s.resubst(sig_)
		}
		for _, r := range rest {
			s.assume(subst(r, sig_))
		}
		if s.dead {
			continue
		}
		if !c.alias && (len(variants) > 1 || len(rest) > 0) {
			if !ex.feasible(s) {
				continue
			}
		}
		outs = append(outs, outcome{st: s, ret: rets})
	}
	return outs
}

// refersOpaque: the clause inspects a result that is not available on the
// error path.
func refersOpaque(e *senv, x *Ex) (bad bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); ok {
				bad = true
				return
			}
			if _, ok := r.(unsupported); ok {
				bad = true
				return
			}
			panic(r)
		}
	}()
	m := *e
	m.st = e.st.clone()
	m.asBool(x)
	return false
}

// definition recognises v == d for a fresh symbol v.
func definition(c *Term, fresh map[*Term]bool) (v, d *Term) {
	if fresh[c] { // boolean symbol
		return c, True
	}
	if c.op == opNot && fresh[c.args[0]] {
		return c.args[0], False
	}
	if c.op != opEq {
		return nil, nil
	}
	a, b := c.args[0], c.args[1]
	if fresh[a] && !occurs(a, b) {
		return a, b
	}
	if fresh[b] && !occurs(b, a) {
		return b, a
	}
	if a.sort == SInt {
		// linear: find a fresh atom with coefficient +-1
		d := Sub(a, b)
		for _, m := range toMons(d) {
			if len(m.atoms) == 1 && fresh[m.atoms[0]] && (m.c.Cmp(one) == 0 || m.c.Cmp(minusOne) == 0) {
				v := m.atoms[0]
				rest := Sub(d, MulC(v, m.c))
				if occurs(v, rest) {
					continue
				}
				if m.c.Sign() > 0 {
					return v, Neg(rest)
				}
				return v, rest
			}
		}
	}
	return nil, nil
}

func substVal(v Val, m map[*Term]*Term) Val {
	switch x := v.(type) {
	case *Term:
		return subst(x, m)
	case VStruct:
		f := make([]Val, len(x.f))
		for i := range f {
			f[i] = substVal(x.f[i], m)
		}
		return VStruct{x.typ, f}
	case VArr:
		f := make([]Val, len(x.e))
		for i := range f {
			f[i] = substVal(x.e[i], m)
		}
		return VArr{f}
	case VSlice:
		if x.null != True {
			x.off, x.len, x.cap, x.null = subst(x.off, m), subst(x.len, m), subst(x.cap, m), subst(x.null, m)
		}
		return x
	case VPtr:
		if x.idx != nil {
			x.idx = subst(x.idx, m)
		}
		return x
	case VIface:
		if x.id != nil {
			x.id = subst(x.id, m)
		}
		return x
	case VGhost:
		n := VGhost{x.kind, map[string]Val{}}
		for k, y := range x.f {
			n.f[k] = substVal(y, m)
		}
		return n
	case VTuple:
		f := make(VTuple, len(x))
		for i := range f {
			f[i] = substVal(x[i], m)
		}
		return f
	}
	return v
}

func substState(s *State, m map[*Term]*Term, touched []target) {
	done := map[*Obj]bool{}
	for _, t := range touched {
		if t.obj != nil && !done[t.obj] {
			done[t.obj] = true
			s.heap[t.obj] = substVal(s.heap[t.obj], m)
		}
		if t.key.path != "" {
			s.ghost[t.key.path] = substVal(s.ghost[t.key.path], m)
		}
	}
	for k, v := range s.ghost {
		if t, ok := v.(*Term); ok {
			s.ghost[k] = subst(t, m)
		}
	}
}

// resubst rewrites the path condition (facts about fresh symbols only).
func (s *State) resubst(m map[*Term]*Term) {
	old := s.pc
	changed := false
	var out []*Term
	for _, p := range old {
		q := subst(p, m)
		if q != p {
			changed = true
		}
		out = append(out, q)
	}
	if !changed {
		return
	}
	s.pc = nil
	s.pcset = map[*Term]bool{}
	for _, q := range out {
		s.assume(q)
	}
}
