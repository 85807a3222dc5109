package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Val is a symbolic Go value. *Term stands for integers, booleans, strings and
// byte arrays.
type Val interface{}

// Obj is an allocated variable or backing array.
type Obj struct {
	id    int
	name  string
	typ   types.Type
	ghost string // kind of ghost object ("", "reader", "writer", "file", ...)
	glob  bool
}

type Loc struct {
	obj  *Obj
	path string // field/element indices, each as "i."
}

func (l Loc) sub(i int) Loc { return Loc{l.obj, l.path + fmt.Sprintf("%d.", i)} }

// VPtr points to a location; idx is set for a pointer to one byte of a byte
// sequence.
type VPtr struct {
	loc Loc
	idx *Term
	nul bool
	typ types.Type // pointee
}

// VSlice views loc[off:off+len]; loc holds a Seq term or a VArr.
type VSlice struct {
	loc           Loc
	off, len, cap *Term
	null          *Term
	elem          types.Type
}

type VStruct struct {
	typ types.Type
	f   []Val
}

type VArr struct {
	e []Val
}

// VIface: an interface value. For errors only the identity matters (id 0 is
// nil); otherwise the dynamic value is known (typ, v) or abstract (abs).
type VIface struct {
	id  *Term
	typ types.Type
	v   Val
	abs *Obj
}

type VFunc struct {
	fn   interface{} // *ssa.Function
	bind []Val
	name string // abstract or builtin function
	nul  bool
}

type VTuple []Val

// VGhost is the abstract state of a library object.
type VGhost struct {
	kind string
	f    map[string]Val
}

func (g VGhost) with(k string, v Val) VGhost {
	n := VGhost{g.kind, make(map[string]Val, len(g.f)+1)}
	for a, b := range g.f {
		n.f[a] = b
	}
	n.f[k] = v
	return n
}

func (g VGhost) t(k string) *Term {
	if v, ok := g.f[k].(*Term); ok {
		return v
	}
	return nil
}

// VOpaque is a value the executor cannot look into.
type VOpaque struct {
	typ types.Type
	id  int
}

type ivl struct{ lo, hi *big.Int } // nil: unbounded

// Event is an entry of the trace of observable effects.
type Event struct {
	kind string // call, stdout, stderr, prompt, exit
	name string
	args []*Term
	vals []Val
	res  *Term
}

type State struct {
	heap   map[*Obj]Val
	pc     []*Term
	pcset  map[*Term]bool
	iv     map[*Term]ivl
	ghost  map[string]Val
	events []Event
	draws  []*Term
	wipe   []wipeObj
	fresh  map[*Obj]bool // allocated since the unit started
	shared map[*Obj]*Term
	dead   bool
}

type wipeObj struct {
	obj *Obj
	n   *Term
}

func newState() *State {
	return &State{heap: map[*Obj]Val{}, pcset: map[*Term]bool{}, iv: map[*Term]ivl{}, ghost: map[string]Val{}, fresh: map[*Obj]bool{}, shared: map[*Obj]*Term{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[*Obj]Val, len(s.heap)+4), pcset: make(map[*Term]bool, len(s.pcset)+4), iv: make(map[*Term]ivl, len(s.iv)+4), ghost: make(map[string]Val, len(s.ghost)), fresh: make(map[*Obj]bool, len(s.fresh)+4), shared: make(map[*Obj]*Term, len(s.shared))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.pcset {
		n.pcset[k] = v
	}
	for k, v := range s.iv {
		n.iv[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.fresh {
		n.fresh[k] = v
	}
	for k, v := range s.shared {
		n.shared[k] = v
	}
	n.pc = append([]*Term(nil), s.pc...)
	n.events = append([]Event(nil), s.events...)
	n.draws = append([]*Term(nil), s.draws...)
	n.wipe = append([]wipeObj(nil), s.wipe...)
	return n
}

// unsupported is raised for constructs outside the verifier's fragment.
type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// ---------- intervals ----------

var maxLen = new(big.Int).Lsh(one, 62)

func (s *State) interval(t *Term) ivl { return s.ivd(t, 0) }

func meet(a, b ivl) ivl {
	r := a
	if b.lo != nil && (r.lo == nil || b.lo.Cmp(r.lo) > 0) {
		r.lo = b.lo
	}
	if b.hi != nil && (r.hi == nil || b.hi.Cmp(r.hi) < 0) {
		r.hi = b.hi
	}
	return r
}

var varRange = map[string]ivl{} // ranges of uninterpreted functions, by name

var ivPre = map[*Term]ivl{} // ranges fixed when a symbol is created (machine type)

func setRange(t *Term, r ivl) {
	termMu.Lock()
	ivPre[t] = r
	termMu.Unlock()
}
func preRange(t *Term) (ivl, bool) {
	termMu.Lock()
	r, ok := ivPre[t]
	termMu.Unlock()
	return r, ok
}

func (s *State) ivd(t *Term, d int) ivl {
	var r ivl
	switch t.op {
	case opConst:
		return ivl{t.ival, t.ival}
	case opPoly:
		if g := content(t); g != nil {
			k := new(big.Int)
			u := newAcc()
			for _, m := range t.mons {
				if len(m.atoms) == 0 {
					k = m.c
				} else {
					u.add(mon{c: new(big.Int).Quo(m.c, g), atoms: m.atoms}, one)
				}
			}
			x := ivScale(s.ivd(u.term(), d+1), g)
			if x.lo != nil {
				r.lo = new(big.Int).Add(x.lo, k)
			}
			if x.hi != nil {
				r.hi = new(big.Int).Add(x.hi, k)
			}
			break
		}
		lo, hi := new(big.Int), new(big.Int)
		lok, hok := true, true
		for _, m := range t.mons {
			p := ivl{one, one}
			sq := len(m.atoms) == 2 && m.atoms[0] == m.atoms[1]
			for _, a := range m.atoms {
				p = ivMul(p, s.ivd(a, d+1))
			}
			if sq && p.lo != nil && p.lo.Sign() < 0 {
				p.lo = new(big.Int)
			}
			p = ivMul(p, ivl{m.c, m.c})
			if p.lo == nil {
				lok = false
			} else {
				lo.Add(lo, p.lo)
			}
			if p.hi == nil {
				hok = false
			} else {
				hi.Add(hi, p.hi)
			}
		}
		if lok {
			r.lo = lo
		}
		if hok {
			r.hi = hi
		}
		if rr, ok := s.ivRound(t, d); ok {
			r = meet(r, rr)
		}
		if rr, ok := s.ivPair(t); ok {
			r = meet(r, rr)
		}
		if rr, ok := s.ivDiff(t, d); ok {
			r = meet(r, rr)
		}
	case opDiv:
		a := s.ivd(t.args[0], d+1)
		if a.lo != nil {
			r.lo = floorDiv(a.lo, t.ival)
		}
		if a.hi != nil {
			r.hi = floorDiv(a.hi, t.ival)
		}
	case opMod:
		r = ivl{bi(0), new(big.Int).Sub(t.ival, one)}
		a := s.ivd(t.args[0], d+1)
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(t.ival) < 0 {
			r = a
		}
	case opAt:
		r = ivl{bi(0), bi(255)}
	case opLen:
		r = ivl{bi(0), maxLen}
	case opIte:
		a, b := s.ivd(t.args[1], d+1), s.ivd(t.args[2], d+1)
		if a.lo != nil && b.lo != nil {
			r.lo = minB(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			r.hi = maxB(a.hi, b.hi)
		}
	case opXor:
		m := 0
		ok := true
		for _, a := range t.args {
			x := s.ivd(a, d+1)
			if x.lo == nil || x.lo.Sign() < 0 || x.hi == nil {
				ok = false
				break
			}
			if n := x.hi.BitLen(); n > m {
				m = n
			}
		}
		if ok {
			r = ivl{bi(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(m)), one)}
		}
	case opApp:
		if x, ok := varRange[t.name]; ok {
			r = x
		}
		if t.name == "limb" {
			r = intRange(32, true)
		}
		if t.name == "fenat" {
			r = ivl{bi(0), new(big.Int).Sub(feP, one)}
		}
	}
	if x, ok := preRange(t); ok {
		r = meet(r, x)
	}
	if x, ok := s.iv[t]; ok {
		r = meet(r, x)
	}
	return r
}

// content is the greatest common divisor of the coefficients of a sum of
// several terms with a division among them, if it is not 1.
func content(t *Term) *big.Int {
	g, div := new(big.Int), false
	n := 0
	for _, m := range t.mons {
		if len(m.atoms) == 0 {
			continue
		}
		n++
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		div = div || len(m.atoms) == 1 && m.atoms[0].op == opDiv
	}
	if n < 2 || !div || g.Cmp(one) == 0 {
		return nil
	}
	return g
}

// ivPair recognises x div a - b*(x div (a*b)), which lies in [0, b-1].
func (s *State) ivPair(t *Term) (ivl, bool) {
	for _, mo := range t.mons {
		if len(mo.atoms) != 1 || mo.atoms[0].op != opDiv || mo.c.Sign() >= 0 {
			continue
		}
		q, b := mo.atoms[0], new(big.Int).Neg(mo.c)
		a, r := new(big.Int).QuoRem(q.ival, b, new(big.Int))
		if r.Sign() != 0 {
			continue
		}
		if Add(t, MulC(q, b)) == Div(q.args[0], a) {
			return ivl{bi(0), new(big.Int).Sub(b, one)}, true
		}
	}
	return ivl{}, false
}

// ivDiff bounds y div m - z, another division, as (y - m*z) div m.
func (s *State) ivDiff(t *Term, d int) (ivl, bool) {
	if d > 8 || len(t.mons) > 4 {
		return ivl{}, false
	}
	for _, a := range t.mons {
		if len(a.atoms) != 1 || a.atoms[0].op != opDiv || a.c.Cmp(one) != 0 {
			continue
		}
		for _, b := range t.mons {
			if len(b.atoms) != 1 || b.atoms[0].op != opDiv || b.c.Cmp(minusOne) != 0 {
				continue
			}
			x, z := a.atoms[0], b.atoms[0]
			i := s.ivd(Sub(x.args[0], MulC(z, x.ival)), d+1)
			j := s.ivd(Add(Sub(t, x), z), d+1)
			if i.lo != nil && i.hi != nil && j.lo != nil && j.hi != nil {
				return ivl{new(big.Int).Add(floorDiv(i.lo, x.ival), j.lo), new(big.Int).Add(floorDiv(i.hi, x.ival), j.hi)}, true
			}
		}
	}
	return ivl{}, false
}

// ivRound recognises k*(x - ((x+h) div m)*m), the signed remainder of a carry.
func (s *State) ivRound(t *Term, d int) (ivl, bool) {
	// find an atom q = (y div m) with coefficient -m in t; then t + m*q =: x and
	// y - x must be a constant h: the value lies in [-h, m-1-h].
	for _, mo := range t.mons {
		if len(mo.atoms) != 1 || mo.atoms[0].op != opDiv {
			continue
		}
		q := mo.atoms[0]
		if new(big.Int).Neg(q.ival).Cmp(mo.c) == 0 {
			x := Add(t, MulC(q, q.ival))
			h := Sub(q.args[0], x)
			if h.isConst() {
				return ivl{new(big.Int).Neg(h.ival), new(big.Int).Sub(new(big.Int).Sub(q.ival, one), h.ival)}, true
			}
		}
		// a carry merged with the one before it, or more than a carry:
		// y div M - m*(y div (M*m)) lies in [0, m-1]
		m := new(big.Int).Neg(mo.c)
		if _, ok := pow2(m); !ok || m.BitLen() < 9 {
			continue
		}
		if k, rem := new(big.Int).QuoRem(m, q.ival, new(big.Int)); rem.Sign() == 0 && k.Cmp(one) > 0 {
			v := MulC(Sub(q.args[0], MulC(q, q.ival)), k)
			r := Sub(t, v)
			if occurs(q, r) || len(toMons(r)) > len(t.mons) || d > 12 {
				continue
			}
			if i := s.ivd(r, d+1); i.lo != nil && i.hi != nil {
				return ivl{i.lo, new(big.Int).Add(i.hi, new(big.Int).Mul(k, new(big.Int).Sub(q.ival, one)))}, true
			}
			continue
		}
		if new(big.Int).Mod(q.ival, m).Sign() != 0 {
			continue
		}
		v := Sub(Div(q.args[0], new(big.Int).Div(q.ival, m)), MulC(q, m))
		r := Sub(t, v)
		if occurs(q, r) || len(toMons(r)) > len(t.mons) || d > 12 {
			continue
		}
		if i := s.ivd(r, d+1); i.lo != nil && i.hi != nil {
			return ivl{i.lo, new(big.Int).Add(i.hi, new(big.Int).Sub(m, one))}, true
		}
	}
	return ivl{}, false
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func ivMul(a, b ivl) ivl {
	if isZero(a) || isZero(b) {
		return ivl{bi(0), bi(0)}
	}
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		var r ivl
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if r.lo == nil || p.Cmp(r.lo) < 0 {
					r.lo = p
				}
				if r.hi == nil || p.Cmp(r.hi) > 0 {
					r.hi = p
				}
			}
		}
		return r
	}
	// half-bounded: only the common non-negative / constant cases
	if b.lo != nil && b.hi != nil && b.lo.Cmp(b.hi) == 0 {
		return ivScale(a, b.lo)
	}
	if a.lo != nil && a.hi != nil && a.lo.Cmp(a.hi) == 0 {
		return ivScale(b, a.lo)
	}
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		return ivl{lo: new(big.Int).Mul(a.lo, b.lo)}
	}
	return ivl{}
}

func isZero(a ivl) bool {
	return a.lo != nil && a.hi != nil && a.lo.Sign() == 0 && a.hi.Sign() == 0
}

func ivScale(a ivl, c *big.Int) ivl {
	var r ivl
	if a.lo != nil {
		r.lo = new(big.Int).Mul(a.lo, c)
	}
	if a.hi != nil {
		r.hi = new(big.Int).Mul(a.hi, c)
	}
	if c.Sign() < 0 {
		r.lo, r.hi = r.hi, r.lo
	}
	return r
}

func (s *State) setIv(t *Term, r ivl) {
	if t.isConst() {
		return
	}
	s.iv[t] = meet(s.iv[t], r)
	c := s.interval(t)
	if c.lo != nil && c.hi != nil && c.lo.Cmp(c.hi) > 0 {
		s.dead = true
	}
}

// assume adds a fact to the path condition.
func (s *State) assume(t *Term) {
	if t == True || s.pcset[t] {
		return
	}
	if t == False || s.pcset[Not(t)] {
		s.dead = true
		return
	}
	if t.op == opAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.pcset[t] = true
	s.pc = append(s.pc, t)
	s.refine(t)
}

func (s *State) refine(t *Term) {
	switch t.op {
	case opNot:
		a := t.args[0]
		// x != c at an interval end
		if a.op == opEq && a.args[0].sort == SInt {
			x, y := a.args[0], a.args[1]
			if x.isConst() {
				x, y = y, x
			}
			if y.isConst() {
				r := s.interval(x)
				if r.lo != nil && r.lo.Cmp(y.ival) == 0 {
					s.setIv(x, ivl{lo: new(big.Int).Add(r.lo, one)})
				}
				if r.hi != nil && r.hi.Cmp(y.ival) == 0 {
					s.setIv(x, ivl{hi: new(big.Int).Sub(r.hi, one)})
				}
			}
		}
	case opEq:
		if t.args[0].sort == SInt {
			s.refineLe(t.args[0], t.args[1])
			s.refineLe(t.args[1], t.args[0])
		}
	case opLe:
		s.refineLe(t.args[0], t.args[1])
	}
}

// refineLe uses a <= b to bound each atom with the intervals of the others.
func (s *State) refineLe(a, b *Term) {
	d := Sub(b, a) // d >= 0
	ms := toMons(d)
	for i, m := range ms {
		if len(m.atoms) != 1 {
			continue
		}
		// c*x + rest >= 0
		hi := new(big.Int) // upper bound of rest
		ok := true
		for j, n := range ms {
			if j == i {
				continue
			}
			p := ivl{one, one}
			for _, at := range n.atoms {
				p = ivMul(p, s.interval(at))
			}
			p = ivMul(p, ivl{n.c, n.c})
			if p.hi == nil {
				ok = false
				break
			}
			hi.Add(hi, p.hi)
		}
		if !ok {
			continue
		}
		// c*x >= -hi
		if m.c.Sign() > 0 {
			lo := new(big.Int).Neg(floorDiv(hi, m.c)) // ceil(-hi/c)
			s.setIv(m.atoms[0], ivl{lo: lo})
		} else {
			s.setIv(m.atoms[0], ivl{hi: floorDiv(hi, new(big.Int).Neg(m.c))})
		}
	}
	if len(ms) > 1 {
		// remember bounds of whole polynomials too
		s.setIvPoly(d)
	}
}

func (s *State) setIvPoly(d *Term) {
	if d.op == opPoly {
		s.iv[d] = meet(s.iv[d], ivl{lo: bi(0)})
	}
}

// decide evaluates a condition by intervals and known facts.
func (s *State) decide(t *Term) (val, known bool) {
	if t.isConst() {
		return t == True, true
	}
	if s.pcset[t] {
		return true, true
	}
	if s.pcset[Not(t)] {
		return false, true
	}
	switch t.op {
	case opNot:
		v, k := s.decide(t.args[0])
		return !v, k
	case opAnd:
		all := true
		for _, a := range t.args {
			v, k := s.decide(a)
			if k && !v {
				return false, true
			}
			all = all && k
		}
		return true, all
	case opOr:
		any := false
		all := true
		for _, a := range t.args {
			v, k := s.decide(a)
			if k && v {
				return true, true
			}
			all = all && k
			any = any || v
		}
		return false, all
	case opLe:
		r := s.interval(Sub(t.args[1], t.args[0]))
		if r.lo != nil && r.lo.Sign() >= 0 {
			return true, true
		}
		if r.hi != nil && r.hi.Sign() < 0 {
			return false, true
		}
	case opEq:
		if t.args[0].sort == SInt {
			r := s.interval(Sub(t.args[0], t.args[1]))
			if r.lo != nil && r.lo.Sign() > 0 || r.hi != nil && r.hi.Sign() < 0 {
				return false, true
			}
			if isZero(r) {
				return true, true
			}
		}
		if t.args[0].sort == SSeq {
			v, k := s.decide(Eq(SeqLen(t.args[0]), SeqLen(t.args[1])))
			if k && !v {
				return false, true
			}
		}
	}
	return false, false
}

// simp replaces terms pinned to one value by their interval.
func (s *State) simpInt(t *Term) *Term {
	if t.isConst() {
		return t
	}
	r := s.interval(t)
	if r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) == 0 {
		return IB(r.lo)
	}
	if t.op == opMod { // in range already
		a := s.interval(t.args[0])
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(t.ival) < 0 {
			return t.args[0]
		}
	}
	return t
}

// ---------- heap access ----------

func pathIdx(p string) []int {
	var out []int
	for _, x := range strings.Split(p, ".") {
		if x == "" {
			continue
		}
		n := 0
		fmt.Sscanf(x, "%d", &n)
		out = append(out, n)
	}
	return out
}

func (s *State) load(l Loc) Val {
	v, ok := s.heap[l.obj]
	if !ok {
		unsup("read of unknown object %s", l.obj.name)
	}
	for _, i := range pathIdx(l.path) {
		switch x := v.(type) {
		case VStruct:
			v = x.f[i]
		case VArr:
			if i >= len(x.e) {
				unsup("array index %d out of range", i)
			}
			v = x.e[i]
		case *Term: // byte array element
			v = At(x, I(int64(i)))
		default:
			unsup("path into %T", v)
		}
	}
	return v
}

func storePath(v Val, p []int, nv Val) Val {
	if len(p) == 0 {
		return nv
	}
	switch x := v.(type) {
	case VStruct:
		f := append([]Val(nil), x.f...)
		f[p[0]] = storePath(f[p[0]], p[1:], nv)
		return VStruct{x.typ, f}
	case VArr:
		e := append([]Val(nil), x.e...)
		e[p[0]] = storePath(e[p[0]], p[1:], nv)
		return VArr{e}
	case *Term:
		return seqSet(x, I(int64(p[0])), nv.(*Term))
	}
	unsup("store into %T", v)
	return nil
}

func (s *State) store(l Loc, nv Val) {
	s.heap[l.obj] = storePath(s.heap[l.obj], pathIdx(l.path), nv)
}

// seqSet is s with s[i]=b (0<=i<len(s)).
func seqSet(s, i, b *Term) *Term {
	n, ok := constLen(s)
	if k, ok2 := i.constInt(); ok && ok2 && n <= 512 {
		bs, _ := expand(s, 512)
		nb := append([]*Term(nil), bs...)
		nb[k] = b
		return Lit(nb...)
	}
	return Cat(SeqSub(s, I(0), i), Lit(b), SeqSub(s, Add(i, I(1)), SeqLen(s)))
}

// splice replaces s[lo:lo+len(x)] by x.
func splice(s, lo, x *Term) *Term {
	hi := Add(lo, SeqLen(x))
	return Cat(SeqSub(s, I(0), lo), x, SeqSub(s, hi, SeqLen(s)))
}

// slice contents as a byte sequence
func (s *State) bytesOf(v VSlice) *Term {
	if v.null == True {
		return emptySeq
	}
	c, ok := s.load(v.loc).(*Term)
	if !ok {
		unsup("byte contents of a non-byte slice")
	}
	return SeqSub(c, v.off, Add(v.off, v.len))
}
