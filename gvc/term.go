package main

// Terms: a hash-consed DAG of mathematical expressions with on-construction
// simplification. Machine integers are mathematical integers; wrap-around is
// explicit (opWrap) and only dropped when an interval bound excludes it.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort int

const (
	SInt Sort = iota
	SBool
	SSeq
	SFe  // element of GF(2^255-19)
	SMap // file system: path -> contents
)

func (s Sort) smt() string { return [...]string{"Int", "Bool", "Byt", "Fe", "Fs"}[s] }

type Op int

const (
	opConst Op = iota // integer constant (ival) / boolean (ival 0,1) / fe constant
	opVar             // free symbol
	opPoly            // integer polynomial: mons
	opDiv             // floor division by positive constant: args[0], ival
	opMod             // mathematical modulus by positive constant
	opIte
	opEq
	opLe // a <= b (Int)
	opNot
	opAnd
	opOr
	opXor // bitwise xor, n-ary, sorted; args non-negative within a width
	opBits
	opLit // byte sequence literal of args
	opCat // n-ary
	opSub // seq, lo, hi
	opAt  // seq, idx
	opLen // seq
	opRep // byte, count
	opApp // uninterpreted application name(args)
	opFe  // fe polynomial: fmons
	opForall
	opSel   // map, key
	opStore // map, key, val
)

type mon struct {
	c     *big.Int
	atoms []*Term // sorted by id, with repetition
}

type fmon struct {
	c     *big.Int
	atoms []*Term // sorted, distinct
	exps  []*big.Int
}

type Term struct {
	id    int
	op    Op
	sort  Sort
	args  []*Term
	ival  *big.Int
	name  string
	mons  []mon
	fmons []fmon
	bound []*Term // quantified variables
	trigs []*Term
	clen  int // for SSeq vars/apps with a fixed length; -1 unknown
	size  int
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termCnt int
)

func key(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d:%d:%s:", t.op, t.sort, t.name)
	if t.ival != nil {
		b.WriteString(t.ival.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, m := range t.mons {
		fmt.Fprintf(&b, ";%s", m.c.Text(62))
		for _, a := range m.atoms {
			fmt.Fprintf(&b, ".%d", a.id)
		}
	}
	for _, m := range t.fmons {
		fmt.Fprintf(&b, ";%s", m.c.Text(62))
		for i, a := range m.atoms {
			fmt.Fprintf(&b, ".%d^%s", a.id, m.exps[i].Text(62))
		}
	}
	for _, a := range t.bound {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	for _, a := range t.trigs {
		fmt.Fprintf(&b, "!%d", a.id)
	}
	if t.clen >= 0 {
		fmt.Fprintf(&b, "#%d", t.clen)
	}
	return b.String()
}

func mk(t *Term) *Term {
	if t.sort != SSeq || (t.op != opVar && t.op != opApp) {
		t.clen = -1
	}
	k := key(t)
	termMu.Lock()
	defer termMu.Unlock()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCnt++
	t.id = termCnt
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
	}
	termTab[k] = t
	return t
}

var freshCnt int

func freshName(base string) string {
	termMu.Lock()
	freshCnt++
	n := freshCnt
	termMu.Unlock()
	return fmt.Sprintf("%s!%d", base, n)
}

func Var(name string, s Sort) *Term { return mk(&Term{op: opVar, sort: s, name: name, clen: -1}) }
func Fresh(base string, s Sort) *Term {
	return Var(freshName(base), s)
}
func FreshSeqN(base string, n int) *Term {
	return mk(&Term{op: opVar, sort: SSeq, name: freshName(base), clen: n})
}

func bi(n int64) *big.Int { return big.NewInt(n) }

func I(n int64) *Term     { return IB(bi(n)) }
func IB(n *big.Int) *Term { return mk(&Term{op: opConst, sort: SInt, ival: n}) }
func B(b bool) *Term {
	if b {
		return mk(&Term{op: opConst, sort: SBool, ival: bi(1)})
	}
	return mk(&Term{op: opConst, sort: SBool, ival: bi(0)})
}

var True, False *Term

func init() { True, False = B(true), B(false) }

func (t *Term) isConst() bool { return t.op == opConst }
func (t *Term) isInt(n int64) bool {
	return t.op == opConst && t.sort == SInt && t.ival.IsInt64() && t.ival.Int64() == n
}
func (t *Term) constInt() (int64, bool) {
	if t.op == opConst && t.sort == SInt && t.ival.IsInt64() {
		return t.ival.Int64(), true
	}
	return 0, false
}

// ---------- integer polynomials ----------

func toMons(t *Term) []mon {
	switch t.op {
	case opConst:
		if t.ival.Sign() == 0 {
			return nil
		}
		return []mon{{c: t.ival}}
	case opPoly:
		return t.mons
	}
	return []mon{{c: bi(1), atoms: []*Term{t}}}
}

func monKey(a []*Term) string {
	var b strings.Builder
	for _, x := range a {
		fmt.Fprintf(&b, "%d.", x.id)
	}
	return b.String()
}

type polyAcc struct {
	m map[string]*mon
}

func newAcc() *polyAcc { return &polyAcc{m: map[string]*mon{}} }
func (p *polyAcc) add(m mon, k *big.Int) {
	key := monKey(m.atoms)
	c := new(big.Int).Mul(m.c, k)
	if e, ok := p.m[key]; ok {
		e.c = new(big.Int).Add(e.c, c)
	} else {
		p.m[key] = &mon{c: c, atoms: m.atoms}
	}
}
func monLess(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return false
}
func (p *polyAcc) term() *Term {
	var ms []mon
	for _, m := range p.m {
		if m.c.Sign() != 0 {
			ms = append(ms, *m)
		}
	}
	sort.Slice(ms, func(i, j int) bool { return monLess(ms[i].atoms, ms[j].atoms) })
	return fromMons(ms)
}
func fromMons(ms []mon) *Term {
	if len(ms) == 0 {
		return I(0)
	}
	if len(ms) == 1 {
		if len(ms[0].atoms) == 0 {
			return IB(ms[0].c)
		}
		if len(ms[0].atoms) == 1 && ms[0].c.Cmp(bi(1)) == 0 {
			return ms[0].atoms[0]
		}
	}
	return mk(&Term{op: opPoly, sort: SInt, mons: ms})
}

var one = bi(1)
var minusOne = bi(-1)

func Add(ts ...*Term) *Term {
	acc := newAcc()
	for _, t := range ts {
		for _, m := range toMons(t) {
			acc.add(m, one)
		}
	}
	return acc.term()
}
func Sub(a, b *Term) *Term {
	acc := newAcc()
	for _, m := range toMons(a) {
		acc.add(m, one)
	}
	for _, m := range toMons(b) {
		acc.add(m, minusOne)
	}
	return acc.term()
}
func Neg(a *Term) *Term { return Sub(I(0), a) }
func MulC(a *Term, c *big.Int) *Term {
	acc := newAcc()
	for _, m := range toMons(a) {
		acc.add(m, c)
	}
	return acc.term()
}
func Mul(a, b *Term) *Term {
	acc := newAcc()
	for _, m := range toMons(a) {
		for _, n := range toMons(b) {
			at := append(append([]*Term{}, m.atoms...), n.atoms...)
			sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
			acc.add(mon{c: n.c, atoms: at}, m.c)
		}
	}
	return acc.term()
}

func floorDiv(a, c *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, c, m) // Euclidean, c>0 -> floor
	return q
}

// Div: floor division by a positive constant.
func Div(a *Term, c *big.Int) *Term {
	if c.Cmp(one) == 0 {
		return a
	}
	if a.isConst() {
		return IB(floorDiv(a.ival, c))
	}
	// pull out multiples of c: (c*x + y) div c = x + y div c
	q, r := newAcc(), newAcc()
	nz := false
	for _, m := range toMons(a) {
		mm := new(big.Int).Mod(m.c, c)
		if mm.Sign() == 0 {
			q.add(mon{c: new(big.Int).Div(m.c, c), atoms: m.atoms}, one)
			nz = true
		} else if len(m.atoms) == 0 && m.c.Cmp(c) > 0 {
			q.add(mon{c: new(big.Int).Div(m.c, c)}, one)
			r.add(mon{c: mm}, one)
			nz = true
		} else {
			r.add(m, one)
		}
	}
	if nz {
		return Add(q.term(), Div(r.term(), c))
	}
	// (y + x div d) div c = (d*y + x) div (d*c), for the carries of limbs
	if _, ok := pow2(c); ok && a.op == opPoly && c.BitLen() > 2 {
		var q *Term
		n := 0
		for _, m := range a.mons {
			if len(m.atoms) == 1 && m.atoms[0].op == opDiv && m.c.Cmp(one) == 0 && m.atoms[0].ival.BitLen() > 20 {
				if _, ok := pow2(m.atoms[0].ival); ok {
					q = m.atoms[0]
					n++
				}
			}
		}
		if n == 1 {
			return Div(Add(MulC(Sub(a, q), q.ival), q.args[0]), new(big.Int).Mul(q.ival, c))
		}
	}
	// (x div d) div c = x div (d*c)
	if a.op == opDiv {
		return mk(&Term{op: opDiv, sort: SInt, args: a.args, ival: new(big.Int).Mul(a.ival, c)})
	}
	return mk(&Term{op: opDiv, sort: SInt, args: []*Term{a}, ival: c})
}

func Mod(a *Term, c *big.Int) *Term {
	if c.Cmp(one) == 0 {
		return I(0)
	}
	if a.isConst() {
		return IB(new(big.Int).Mod(a.ival, c))
	}
	if a.op == opMod {
		if new(big.Int).Mod(a.ival, c).Sign() == 0 {
			return Mod(a.args[0], c)
		}
		if a.ival.Cmp(c) <= 0 {
			return a
		}
	}
	// reduce coefficients mod c
	r := newAcc()
	for _, m := range toMons(a) {
		mm := new(big.Int).Mod(m.c, c)
		if mm.Sign() != 0 {
			// inner mod with multiple modulus can be dropped
			if len(m.atoms) == 1 && m.atoms[0].op == opMod && new(big.Int).Mod(m.atoms[0].ival, c).Sign() == 0 {
				for _, im := range toMons(MulC(m.atoms[0].args[0], mm)) {
					r.add(im, one)
				}
				continue
			}
			r.add(mon{c: mm, atoms: m.atoms}, one)
		}
	}
	b := r.term()
	if b != a {
		return Mod(b, c)
	}
	// common factors (not for machine words)
	if _, p2 := pow2(c); !p2 {
		g := new(big.Int).Set(c)
		k := new(big.Int)
		ms := toMons(a)
		for _, m := range ms {
			if len(m.atoms) == 0 {
				k.Set(m.c)
			} else {
				g.GCD(nil, nil, g, m.c)
			}
		}
		if g.Cmp(one) > 0 && g.Cmp(c) < 0 {
			r := newAcc()
			for _, m := range ms {
				if len(m.atoms) > 0 {
					r.add(mon{c: new(big.Int).Div(m.c, g), atoms: m.atoms}, one)
				}
			}
			q, s := new(big.Int).DivMod(k, g, new(big.Int))
			return Add(MulC(Mod(Add(r.term(), IB(q)), new(big.Int).Div(c, g)), g), IB(s))
		}
	}
	return mk(&Term{op: opMod, sort: SInt, args: []*Term{a}, ival: c})
}

// ---------- booleans ----------

func Not(a *Term) *Term {
	if a.isConst() {
		return B(a.ival.Sign() == 0)
	}
	if a.op == opNot {
		return a.args[0]
	}
	if a.op == opLe { // !(a<=b) == b+1<=a
		return Le(Add(a.args[1], I(1)), a.args[0])
	}
	return mk(&Term{op: opNot, sort: SBool, args: []*Term{a}})
}
func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit || seen[t.id] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return zero
		}
	}
	for _, t := range out {
		if t.op == opNot && seen[t.args[0].id] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{op: op, sort: SBool, args: out})
}
func And(ts ...*Term) *Term { return nary(opAnd, True, False, ts) }
func Or(ts ...*Term) *Term  { return nary(opOr, False, True, ts) }
func Implies(a, b *Term) *Term {
	return Or(Not(a), b)
}
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.isConst() {
		return B(d.ival.Sign() >= 0)
	}
	// canonical: constants on the right; keep as a<=b with a,b from sign split
	acc1, acc2 := newAcc(), newAcc()
	for _, m := range toMons(d) { // b-a>=0 : positives on right, negatives left
		if m.c.Sign() > 0 {
			acc2.add(m, one)
		} else {
			acc1.add(m, minusOne)
		}
	}
	return mk(&Term{op: opLe, sort: SBool, args: []*Term{acc1.term(), acc2.term()}})
}
func Lt(a, b *Term) *Term { return Le(Add(a, I(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		return And(Implies(c, a), Or(c, b))
	}
	if a.sort == SInt {
		if t := ceilDiv(c, a, b); t != nil {
			return t
		}
	}
	return mk(&Term{op: opIte, sort: a.sort, args: []*Term{c, a, b}, clen: -1})
}

// ceilDiv: if x mod k = 0 then x div k else x div k + 1 is (x + k - 1) div k.
func ceilDiv(c, a, b *Term) *Term {
	if c.op == opNot {
		c, a, b = c.args[0], b, a
	}
	if c.op != opEq || Sub(b, a) != I(1) {
		return nil
	}
	m := c.args[0]
	if m.op != opMod {
		m = c.args[1]
	}
	if m.op != opMod || !c.args[0].isInt(0) && !c.args[1].isInt(0) || a != Div(m.args[0], m.ival) {
		return nil
	}
	return Div(Add(m.args[0], IB(new(big.Int).Sub(m.ival, one))), m.ival)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts differ: %s (%d) vs %s (%d)", show(a), a.sort, show(b), b.sort))
	}
	switch a.sort {
	case SBool:
		if a.isConst() {
			if a == True {
				return b
			}
			return Not(b)
		}
		if b.isConst() {
			return Eq(b, a)
		}
		if a.op == opNot && a.args[0] == b || b.op == opNot && b.args[0] == a {
			return False
		}
	case SInt:
		d := Sub(a, b)
		if d.isConst() {
			return B(d.ival.Sign() == 0)
		}
		acc1, acc2 := newAcc(), newAcc()
		// normalise sign: first non-constant monomial positive on the left
		neg := false
		for _, m := range toMons(d) {
			if len(m.atoms) > 0 {
				neg = m.c.Sign() < 0
				break
			}
		}
		for _, m := range toMons(d) {
			mm := m
			if neg {
				mm = mon{c: new(big.Int).Neg(m.c), atoms: m.atoms}
			}
			if mm.c.Sign() > 0 {
				acc1.add(mm, one)
			} else {
				acc2.add(mm, minusOne)
			}
		}
		a, b = acc1.term(), acc2.term()
		g, k := new(big.Int), new(big.Int)
		for _, m := range toMons(d) {
			if len(m.atoms) == 0 {
				k.Set(m.c)
			} else {
				g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
			}
		}
		if g.Cmp(one) > 0 {
			if new(big.Int).Mod(k, g).Sign() != 0 {
				return False
			}
			r := newAcc()
			for _, m := range toMons(d) {
				r.add(mon{c: new(big.Int).Div(m.c, g), atoms: m.atoms}, one)
			}
			return Eq(r.term(), I(0))
		}
		// (x + c) mod m == k
		for i, x := range []*Term{a, b} {
			y := []*Term{b, a}[i]
			if x.op != opMod || !y.isConst() {
				continue
			}
			if y.ival.Sign() < 0 || y.ival.Cmp(x.ival) >= 0 {
				return False
			}
			k := new(big.Int)
			for _, m := range toMons(x.args[0]) {
				if len(m.atoms) == 0 {
					k.Set(m.c)
				}
			}
			if k.Sign() != 0 {
				if _, p2 := pow2(x.ival); !p2 {
					return Eq(Mod(Sub(x.args[0], IB(k)), x.ival), IB(new(big.Int).Mod(new(big.Int).Sub(y.ival, k), x.ival)))
				}
			}
		}
	case SSeq:
		return seqEq(a, b)
	case SFe:
		d := FeSub(a, b)
		if d == feConst(bi(0)) {
			return True
		}
		if d.op == opConst {
			return False
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: opEq, sort: SBool, args: []*Term{a, b}})
}

// ---------- bitwise ----------

func Xor(ts ...*Term) *Term {
	cnt := map[*Term]int{}
	var order []*Term
	c := new(big.Int)
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == opXor {
			for _, a := range t.args {
				rec(a)
			}
			return
		}
		if t.isConst() {
			if t.ival.Sign() < 0 {
				panic("xor of negative constant")
			}
			c = new(big.Int).Xor(c, t.ival)
			return
		}
		if cnt[t] == 0 {
			order = append(order, t)
		}
		cnt[t] ^= 1
		if cnt[t] == 0 {
			for i, o := range order {
				if o == t {
					order = append(order[:i:i], order[i+1:]...)
					break
				}
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	if c.Sign() != 0 {
		order = append(order, IB(c))
	}
	if len(order) == 0 {
		return I(0)
	}
	if len(order) == 1 {
		return order[0]
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	return mk(&Term{op: opXor, sort: SInt, args: order})
}

// ---------- sequences ----------

var emptySeq *Term

func init() { emptySeq = mk(&Term{op: opLit, sort: SSeq}) }

// Lit is a sequence of given bytes; runs of consecutive bytes of one base are
// kept as slices of it, so that equal contents have equal terms.
func Lit(bs ...*Term) *Term {
	for i := 0; i+1 < len(bs); i++ {
		if bs[i].op == opAt && bs[i+1].op == opAt && bs[i].args[0] == bs[i+1].args[0] && Add(bs[i].args[1], I(1)) == bs[i+1].args[1] {
			return Cat(rawLit(bs...))
		}
	}
	if len(bs) == 1 && bs[0].op == opAt {
		if n, ok := constLen(bs[0].args[0]); ok && n == 1 {
			return bs[0].args[0]
		}
	}
	return rawLit(bs...)
}
func rawLit(bs ...*Term) *Term {
	return mk(&Term{op: opLit, sort: SSeq, args: bs})
}
func StrLit(s string) *Term {
	var bs []*Term
	for i := 0; i < len(s); i++ {
		bs = append(bs, I(int64(s[i])))
	}
	return Lit(bs...)
}

func SeqLen(s *Term) *Term {
	switch s.op {
	case opLit:
		return I(int64(len(s.args)))
	case opCat:
		var ls []*Term
		for _, a := range s.args {
			ls = append(ls, SeqLen(a))
		}
		return Add(ls...)
	case opSub:
		return Sub(s.args[2], s.args[1])
	case opRep:
		return s.args[1]
	case opIte:
		l1, l2 := SeqLen(s.args[1]), SeqLen(s.args[2])
		return Ite(s.args[0], l1, l2)
	}
	if s.clen >= 0 {
		return I(int64(s.clen))
	}
	return mk(&Term{op: opLen, sort: SInt, args: []*Term{s}})
}

func constLen(s *Term) (int, bool) {
	l := SeqLen(s)
	if n, ok := l.constInt(); ok && n >= 0 && n < 1<<40 {
		return int(n), true
	}
	return 0, false
}

func Cat(ts ...*Term) *Term {
	var out []*Term // no opCat, no adjacent literals
	var push func(t *Term)
	pushByte := func(b *Term) {
		if len(out) == 0 {
			out = append(out, rawLit(b))
			return
		}
		p := out[len(out)-1]
		if b.op == opAt {
			base, i := b.args[0], b.args[1]
			if p.op == opSub && p.args[0] == base && p.args[2] == i {
				out = out[:len(out)-1]
				push(mkSub(base, p.args[1], Add(i, I(1))))
				return
			}
			if p.op == opLit {
				last := p.args[len(p.args)-1]
				if last.op == opAt && last.args[0] == base && Add(last.args[1], I(1)) == i {
					if len(p.args) == 1 {
						out = out[:len(out)-1]
					} else {
						out[len(out)-1] = rawLit(p.args[:len(p.args)-1]...)
					}
					push(mkSub(base, last.args[1], Add(i, I(1))))
					return
				}
			}
		}
		if p.op == opLit {
			out[len(out)-1] = rawLit(append(append([]*Term{}, p.args...), b)...)
			return
		}
		out = append(out, rawLit(b))
	}
	push = func(t *Term) {
		if t.op == opCat {
			for _, a := range t.args {
				push(a)
			}
			return
		}
		if t == emptySeq {
			return
		}
		if t.op == opSub && t.args[1] == t.args[2] {
			return
		}
		if t.op == opLit {
			anyAt := false
			for _, a := range t.args {
				anyAt = anyAt || a.op == opAt
			}
			if !anyAt {
				if len(out) > 0 && out[len(out)-1].op == opLit {
					out[len(out)-1] = rawLit(append(append([]*Term{}, out[len(out)-1].args...), t.args...)...)
				} else {
					out = append(out, t)
				}
				return
			}
			for _, a := range t.args {
				pushByte(a)
			}
			return
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			// adjacent slices of one base
			if p.op == opSub && t.op == opSub && p.args[0] == t.args[0] && p.args[2] == t.args[1] {
				out = out[:len(out)-1]
				push(mkSub(p.args[0], p.args[1], t.args[2]))
				return
			}
			if p.op == opLit && t.op == opSub {
				last := p.args[len(p.args)-1]
				if last.op == opAt && last.args[0] == t.args[0] && Add(last.args[1], I(1)) == t.args[1] {
					if len(p.args) == 1 {
						out = out[:len(out)-1]
					} else {
						out[len(out)-1] = rawLit(p.args[:len(p.args)-1]...)
					}
					push(mkSub(t.args[0], last.args[1], t.args[2]))
					return
				}
			}
			if p.op == opRep && t.op == opRep && p.args[0] == t.args[0] {
				out[len(out)-1] = Rep(p.args[0], Add(p.args[1], t.args[1]))
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		push(t)
	}
	if len(out) == 0 {
		return emptySeq
	}
	if len(out) == 1 {
		if out[0].op == opLit && len(out[0].args) == 1 {
			return Lit(out[0].args[0])
		}
		return out[0]
	}
	return mk(&Term{op: opCat, sort: SSeq, args: out})
}

// mkSub is a slice of an atomic base.
func mkSub(s, lo, hi *Term) *Term {
	if lo.isInt(0) && hi == SeqLen(s) {
		return s
	}
	return mk(&Term{op: opSub, sort: SSeq, args: []*Term{s, lo, hi}})
}

func Rep(b, n *Term) *Term {
	if k, ok := n.constInt(); ok && k >= 0 && k <= 512 {
		bs := make([]*Term, k)
		for i := range bs {
			bs[i] = b
		}
		return Lit(bs...)
	}
	return mk(&Term{op: opRep, sort: SSeq, args: []*Term{b, n}})
}

func leConst(a, b *Term) (res, known bool) {
	d := Sub(b, a)
	if d.isConst() {
		return d.ival.Sign() >= 0, true
	}
	return false, false
}

// SeqSub is s[lo:hi]; callers guarantee 0<=lo<=hi<=len(s) where it is used.
func SeqSub(s, lo, hi *Term) *Term {
	if lo == hi {
		return emptySeq
	}
	if lo.isInt(0) && hi == SeqLen(s) {
		return s
	}
	switch s.op {
	case opSub:
		return SeqSub(s.args[0], Add(s.args[1], lo), Add(s.args[1], hi))
	case opLit:
		l, ok1 := lo.constInt()
		h, ok2 := hi.constInt()
		if ok1 && ok2 && 0 <= l && l <= h && int(h) <= len(s.args) {
			return Lit(s.args[l:h]...)
		}
	case opRep:
		return Rep(s.args[0], Sub(hi, lo))
	case opCat:
		// walk the pieces as long as the comparisons are decided syntactically
		pos := I(0)
		var out []*Term
		started := false
		total := SeqLen(s)
		for _, p := range s.args {
			end := Add(pos, SeqLen(p))
			if !started {
				if r, k := leConst(end, lo); k && r {
					pos = end
					continue
				} else if r2, k2 := leConst(pos, lo); !(k2 && r2) || (!k && lo != pos) {
					goto generic
				}
			}
			{
				a := I(0)
				if !started {
					a = Sub(lo, pos)
					started = true
				}
				if r, k := leConst(end, hi); k && r || hi == total {
					out = append(out, SeqSub(p, a, SeqLen(p)))
					pos = end
					if end == hi {
						return Cat(out...)
					}
					continue
				} else if k {
					out = append(out, SeqSub(p, a, Sub(hi, pos)))
					return Cat(out...)
				}
				// undecided: hi == pos + something inside p?
				goto generic
			}
		}
	}
generic:
	if s.op == opCat {
		// (a ++ x[l:j])[lo:hi] is the same part of a ++ x[l:]
		if z := s.args[len(s.args)-1]; z.op == opSub && z.args[2] != SeqLen(z.args[0]) {
			as := append([]*Term(nil), s.args[:len(s.args)-1]...)
			return SeqSub(Cat(append(as, SeqSub(z.args[0], z.args[1], SeqLen(z.args[0])))...), lo, hi)
		}
	}
	if Sub(hi, lo).isInt(1) {
		return Lit(At(s, lo))
	}
	return mk(&Term{op: opSub, sort: SSeq, args: []*Term{s, lo, hi}})
}

func At(s, i *Term) *Term {
	switch s.op {
	case opLit:
		if n, ok := i.constInt(); ok && n >= 0 && int(n) < len(s.args) {
			return s.args[n]
		}
	case opSub:
		return At(s.args[0], Add(s.args[1], i))
	case opRep:
		return s.args[0]
	case opCat:
		pos := I(0)
		for _, p := range s.args {
			end := Add(pos, SeqLen(p))
			if r, k := leConst(end, i); k && r {
				pos = end
				continue
			}
			lo, k1 := leConst(pos, i)
			hi, k2 := leConst(Add(i, I(1)), end)
			if k1 && lo && k2 && hi {
				return At(p, Sub(i, pos))
			}
			break
		}
	}
	return mk(&Term{op: opAt, sort: SInt, args: []*Term{s, i}})
}

// expand returns the bytes of a sequence of small constant length.
func expand(s *Term, max int) ([]*Term, bool) {
	n, ok := constLen(s)
	if !ok || n > max {
		return nil, false
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = At(s, I(int64(i)))
	}
	return out, true
}

func seqEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	la, lb := SeqLen(a), SeqLen(b)
	if la.isConst() && lb.isConst() {
		if la != lb {
			return False
		}
		if la.isInt(0) {
			return True
		}
		n := la.ival.Int64()
		if n <= 256 && len(parts(a)) == 1 && len(parts(b)) == 1 && (a.op == opLit || b.op == opLit) {
			x, _ := expand(a, 256)
			y, _ := expand(b, 256)
			var cs []*Term
			for i := range x {
				cs = append(cs, Eq(x[i], y[i]))
			}
			return And(cs...)
		}
	}
	// strip syntactically equal prefixes and suffixes (parts equal => equal;
	// cancellation is an equivalence for equal-length ends)
	pa, pb := parts(a), parts(b)
	stripped := false
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
		stripped = true
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
		stripped = true
	}
	if stripped {
		return Eq(Cat(pa...), Cat(pb...))
	}
	// leading pieces of equal length (and non-empty constant): split
	if (len(pa) > 1 || len(pb) > 1) && len(pa) > 0 && len(pb) > 0 {
		l1, l2 := SeqLen(pa[0]), SeqLen(pb[0])
		if l1 == l2 {
			return And(Eq(pa[0], pb[0]), Eq(Cat(pa[1:]...), Cat(pb[1:]...)))
		}
		if n1, ok1 := l1.constInt(); ok1 {
			if n2, ok2 := l2.constInt(); ok2 {
				if n1 < n2 {
					return And(Eq(pa[0], SeqSub(pb[0], I(0), l1)), Eq(Cat(pa[1:]...), Cat(append([]*Term{SeqSub(pb[0], l1, l2)}, pb[1:]...)...)))
				}
				return And(Eq(pb[0], SeqSub(pa[0], I(0), l2)), Eq(Cat(append([]*Term{SeqSub(pa[0], l2, l1)}, pa[1:]...)...), Cat(pb[1:]...)))
			}
		}
		l1, l2 = SeqLen(pa[len(pa)-1]), SeqLen(pb[len(pb)-1])
		if l1 == l2 {
			return And(Eq(pa[len(pa)-1], pb[len(pb)-1]), Eq(Cat(pa[:len(pa)-1]...), Cat(pb[:len(pb)-1]...)))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: opEq, sort: SBool, args: []*Term{a, b}})
}

func parts(a *Term) []*Term {
	if a == emptySeq {
		return nil
	}
	if a.op == opCat {
		return a.args
	}
	return []*Term{a}
}

// ---------- uninterpreted applications ----------

func App(name string, s Sort, clen int, args ...*Term) *Term {
	if clen < 0 && strings.HasPrefix(name, "b64enc") && len(args) == 1 {
		// base64.Encoding.EncodedLen (padded encodings)
		if n, ok := constLen(args[0]); ok && name == "b64enc" {
			clen = (n + 2) / 3 * 4
		}
	}
	return mk(&Term{op: opApp, sort: s, name: name, args: args, clen: clen})
}

func Forall(vars []*Term, trigs []*Term, body *Term) *Term {
	if body == True {
		return True
	}
	return mk(&Term{op: opForall, sort: SBool, args: []*Term{body}, bound: vars, trigs: trigs})
}

func Sel(m, k *Term) *Term {
	if m.op == opStore {
		if m.args[1] == k {
			return m.args[2]
		}
		if Eq(m.args[1], k) == False {
			return Sel(m.args[0], k)
		}
	}
	return mk(&Term{op: opSel, sort: SSeq, args: []*Term{m, k}})
}
func Store(m, k, v *Term) *Term {
	if m.op == opStore && m.args[1] == k {
		m = m.args[0]
	}
	return mk(&Term{op: opStore, sort: SMap, args: []*Term{m, k, v}})
}

// ---------- field elements ----------

var feP = func() *big.Int {
	p := new(big.Int).Lsh(one, 255)
	return p.Sub(p, bi(19))
}()

func feConst(c *big.Int) *Term {
	return mk(&Term{op: opConst, sort: SFe, ival: new(big.Int).Mod(c, feP)})
}

func toF(t *Term) []fmon {
	switch t.op {
	case opConst:
		if t.ival.Sign() == 0 {
			return nil
		}
		return []fmon{{c: t.ival}}
	case opFe:
		return t.fmons
	}
	return []fmon{{c: one, atoms: []*Term{t}, exps: []*big.Int{one}}}
}

func fkey(m fmon) string {
	var b strings.Builder
	for i, a := range m.atoms {
		fmt.Fprintf(&b, "%d^%s.", a.id, m.exps[i].Text(62))
	}
	return b.String()
}

type feAcc map[string]fmon

func (p feAcc) add(m fmon, k *big.Int) {
	key := fkey(m)
	c := new(big.Int).Mul(m.c, k)
	if e, ok := p[key]; ok {
		c.Add(c, e.c)
	}
	c.Mod(c, feP)
	p[key] = fmon{c: c, atoms: m.atoms, exps: m.exps}
}
func (p feAcc) term() *Term {
	var keys []string
	for k, m := range p {
		if m.c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return feConst(bi(0))
	}
	var ms []fmon
	for _, k := range keys {
		ms = append(ms, p[k])
	}
	if len(ms) == 1 {
		m := ms[0]
		if len(m.atoms) == 0 {
			return feConst(m.c)
		}
		if len(m.atoms) == 1 && m.c.Cmp(one) == 0 && m.exps[0].Cmp(one) == 0 {
			return m.atoms[0]
		}
	}
	return mk(&Term{op: opFe, sort: SFe, fmons: ms})
}

func FeAdd(a, b *Term) *Term {
	acc := feAcc{}
	for _, m := range toF(a) {
		acc.add(m, one)
	}
	for _, m := range toF(b) {
		acc.add(m, one)
	}
	return acc.term()
}
func FeSub(a, b *Term) *Term {
	acc := feAcc{}
	for _, m := range toF(a) {
		acc.add(m, one)
	}
	for _, m := range toF(b) {
		acc.add(m, minusOne)
	}
	return acc.term()
}
func fmonMul(a, b fmon) fmon {
	r := fmon{c: new(big.Int).Mul(a.c, b.c)}
	r.c.Mod(r.c, feP)
	i, j := 0, 0
	for i < len(a.atoms) || j < len(b.atoms) {
		switch {
		case j == len(b.atoms) || i < len(a.atoms) && a.atoms[i].id < b.atoms[j].id:
			r.atoms = append(r.atoms, a.atoms[i])
			r.exps = append(r.exps, a.exps[i])
			i++
		case i == len(a.atoms) || b.atoms[j].id < a.atoms[i].id:
			r.atoms = append(r.atoms, b.atoms[j])
			r.exps = append(r.exps, b.exps[j])
			j++
		default:
			r.atoms = append(r.atoms, a.atoms[i])
			r.exps = append(r.exps, new(big.Int).Add(a.exps[i], b.exps[j]))
			i++
			j++
		}
	}
	return r
}
func FeMulT(a, b *Term) *Term {
	acc := feAcc{}
	for _, m := range toF(a) {
		for _, n := range toF(b) {
			acc.add(fmonMul(m, n), one)
		}
	}
	return acc.term()
}

// FePow: a^e for a constant e >= 0.
func FePow(a *Term, e *big.Int) *Term {
	if e.Sign() == 0 {
		return feConst(one)
	}
	ms := toF(a)
	if len(ms) == 0 {
		return feConst(bi(0))
	}
	if len(ms) == 1 {
		m := ms[0]
		r := fmon{c: new(big.Int).Exp(m.c, e, feP), atoms: m.atoms}
		for _, x := range m.exps {
			r.exps = append(r.exps, new(big.Int).Mul(x, e))
		}
		acc := feAcc{}
		acc.add(r, one)
		return acc.term()
	}
	if e.IsInt64() && e.Int64() <= 8 {
		r := a
		for i := int64(1); i < e.Int64(); i++ {
			r = FeMulT(r, a)
		}
		return r
	}
	return mk(&Term{op: opApp, sort: SFe, name: "fepow", args: []*Term{a, IB(e)}, clen: -1})
}

// FeOf maps an integer to the field; it is a ring homomorphism, so it is
// pushed through polynomials. Limb atoms of a packed element are eliminated in
// favour of the element's value: limb0 = fv - sum_{i>0} 2^e_i limb_i.
func FeOf(t *Term) *Term {
	acc := feConst(bi(0))
	for _, m := range toMons(t) {
		p := feConst(m.c)
		for _, a := range m.atoms {
			p = FeMulT(p, feAtom(a))
		}
		acc = FeAdd(acc, p)
	}
	return acc
}

var limbExp = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

// limb(i, fv, uid): i-th limb of a field element in memory; its value is fv.
// The number tells elements of the same value but with other limbs apart.
func limb(i int, fv, uid *Term) *Term { return App("limb", SInt, -1, I(int64(i)), fv, uid) }

var limbUid int64

// freshLimbs: any ten 32-bit limbs, named after their value in the field.
func freshLimbs(name string) []Val {
	termMu.Lock()
	limbUid++
	u := limbUid
	termMu.Unlock()
	fv := Fresh(name+"_fe", SFe)
	e := make([]Val, 10)
	for i := range e {
		e[i] = limb(i, fv, I(u))
	}
	return e
}

func feAtom(a *Term) *Term {
	if a.op == opApp && a.name == "limb" && a.args[0].isInt(0) {
		fv := a.args[1]
		r := fv
		for i := 1; i < 10; i++ {
			c := new(big.Int).Lsh(one, limbExp[i])
			r = FeSub(r, FeMulT(feConst(c), feAtom(limb(i, fv, a.args[2]))))
		}
		return r
	}
	if a.op == opApp && a.name == "fenat" {
		return a.args[0]
	}
	if a.op == opDiv && a.ival.Sign() > 0 {
		// x div c = (x - x mod c)/c : kept opaque
	}
	return App("feof", SFe, -1, a)
}

// FeNat is the canonical representative in [0,p).
func FeNat(f *Term) *Term {
	if f.op == opConst {
		return IB(f.ival)
	}
	return App("fenat", SInt, -1, f)
}

// ---------- substitution ----------

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substM(t, m, memo)
}

func substM(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if t.op == opConst || t.op == opVar {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case opPoly:
		acc := I(0)
		changed := false
		for _, mo := range t.mons {
			for _, a := range mo.atoms {
				if substM(a, m, memo) != a {
					changed = true
				}
			}
		}
		if !changed {
			r = t
			break
		}
		var sum []*Term
		for _, mo := range t.mons {
			p := IB(mo.c)
			for _, a := range mo.atoms {
				p = Mul(p, substM(a, m, memo))
			}
			sum = append(sum, p)
		}
		acc = Add(sum...)
		r = acc
	case opFe:
		changed := false
		for _, mo := range t.fmons {
			for _, a := range mo.atoms {
				if substM(a, m, memo) != a {
					changed = true
				}
			}
		}
		if !changed {
			r = t
			break
		}
		acc := feConst(bi(0))
		for _, mo := range t.fmons {
			p := feConst(mo.c)
			for i, a := range mo.atoms {
				p = FeMulT(p, FePow(substM(a, m, memo), mo.exps[i]))
			}
			acc = FeAdd(acc, p)
		}
		r = acc
	default:
		args := make([]*Term, len(t.args))
		changed := false
		for i, a := range t.args {
			args[i] = substM(a, m, memo)
			changed = changed || args[i] != a
		}
		if !changed {
			r = t
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case opDiv:
		return Div(args[0], t.ival)
	case opMod:
		return Mod(args[0], t.ival)
	case opIte:
		return Ite(args[0], args[1], args[2])
	case opEq:
		return Eq(args[0], args[1])
	case opLe:
		return Le(args[0], args[1])
	case opNot:
		return Not(args[0])
	case opAnd:
		return And(args...)
	case opOr:
		return Or(args...)
	case opXor:
		return Xor(args...)
	case opLit:
		return Lit(args...)
	case opCat:
		return Cat(args...)
	case opSub:
		return SeqSub(args[0], args[1], args[2])
	case opAt:
		return At(args[0], args[1])
	case opLen:
		return SeqLen(args[0])
	case opRep:
		return Rep(args[0], args[1])
	case opSel:
		return Sel(args[0], args[1])
	case opStore:
		return Store(args[0], args[1], args[2])
	case opForall:
		return mk(&Term{op: opForall, sort: SBool, args: args, bound: t.bound, trigs: t.trigs})
	case opApp:
		switch t.name {
		case "feof":
			return FeOf(args[0])
		case "fenat":
			return FeNat(args[0])
		case "fepow":
			return FePow(args[0], args[1].ival)
		}
		return App(t.name, t.sort, t.clen, args...)
	}
	panic("rebuild")
}

// occurs reports whether v occurs in t.
func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, c := range children(t) {
			if rec(c) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func children(t *Term) []*Term {
	switch t.op {
	case opPoly:
		var cs []*Term
		for _, m := range t.mons {
			cs = append(cs, m.atoms...)
		}
		return cs
	case opFe:
		var cs []*Term
		for _, m := range t.fmons {
			cs = append(cs, m.atoms...)
		}
		return cs
	case opForall:
		return append(append([]*Term{}, t.args...), t.trigs...)
	}
	return t.args
}

// ---------- printing ----------

func show(t *Term) string {
	s := showD(t, 12)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func showD(t *Term, d int) string {
	if d == 0 {
		return "…"
	}
	j := func(ts []*Term, sep string) string {
		var o []string
		for _, a := range ts {
			o = append(o, showD(a, d-1))
		}
		return strings.Join(o, sep)
	}
	switch t.op {
	case opConst:
		if t.sort == SBool {
			return fmt.Sprint(t.ival.Sign() != 0)
		}
		return t.ival.String()
	case opVar:
		return t.name
	case opPoly:
		var o []string
		for _, m := range t.mons {
			s := j(m.atoms, "*")
			if m.c.Cmp(one) != 0 || s == "" {
				if s == "" {
					s = m.c.String()
				} else {
					s = m.c.String() + "*" + s
				}
			}
			o = append(o, s)
		}
		return "(" + strings.Join(o, " + ") + ")"
	case opFe:
		var o []string
		for _, m := range t.fmons {
			s := m.c.String()
			for i, a := range m.atoms {
				s += "*" + showD(a, d-1)
				if m.exps[i].Cmp(one) != 0 {
					s += "^" + m.exps[i].String()
				}
			}
			o = append(o, s)
		}
		return "fe(" + strings.Join(o, " + ") + ")"
	case opDiv:
		return "(" + showD(t.args[0], d-1) + " div " + t.ival.String() + ")"
	case opMod:
		return "(" + showD(t.args[0], d-1) + " mod " + t.ival.String() + ")"
	case opIte:
		return "(" + showD(t.args[0], d-1) + " ? " + showD(t.args[1], d-1) + " : " + showD(t.args[2], d-1) + ")"
	case opEq:
		return "(" + j(t.args, " == ") + ")"
	case opLe:
		return "(" + j(t.args, " <= ") + ")"
	case opNot:
		return "!" + showD(t.args[0], d-1)
	case opAnd:
		return "(" + j(t.args, " && ") + ")"
	case opOr:
		return "(" + j(t.args, " || ") + ")"
	case opXor:
		return "(" + j(t.args, " ^ ") + ")"
	case opLit:
		all := len(t.args) > 0
		var sb strings.Builder
		for _, a := range t.args {
			if n, ok := a.constInt(); ok {
				sb.WriteByte(byte(n))
			} else {
				all = false
			}
		}
		if all {
			return fmt.Sprintf("%q", sb.String())
		}
		return "[" + j(t.args, ",") + "]"
	case opCat:
		return "(" + j(t.args, " ++ ") + ")"
	case opSub:
		return showD(t.args[0], d-1) + "[" + showD(t.args[1], d-1) + ":" + showD(t.args[2], d-1) + "]"
	case opAt:
		return showD(t.args[0], d-1) + "[" + showD(t.args[1], d-1) + "]"
	case opLen:
		return "len(" + showD(t.args[0], d-1) + ")"
	case opRep:
		return "rep(" + j(t.args, ",") + ")"
	case opForall:
		return "forall(" + j(t.bound, ",") + " :: " + showD(t.args[0], d-1) + ")"
	case opSel:
		return showD(t.args[0], d-1) + "{" + showD(t.args[1], d-1) + "}"
	case opStore:
		return "store(" + j(t.args, ",") + ")"
	}
	return t.name + "(" + j(t.args, ",") + ")"
}
