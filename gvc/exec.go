package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/kisom/psignify/"

func short(s string) string { return strings.ReplaceAll(s, modPath, "") }

// Obligation is one proof goal.
type Obligation struct {
	unit   string
	kind   string // safety, requires, ensures, frame, loop, lemma, vacuity
	label  string
	props  []string
	pc     []*Term
	goal   *Term
	alts   []*Term // discharged if any of these holds (draw witnesses)
	pos    string
	path   string
	res    Result
	pre    bool   // already discharged
	detail string // text for reports
}

type outKind int

const (
	oRet outKind = iota
	oExit
)

type outcome struct {
	st   *State
	kind outKind
	ret  []Val
	code *Term
}

type Exec struct {
	v     *Verifier
	unit  *Unit
	obls  []*Obligation
	quiet int
	steps int
	paths int
	depth int
	nobj  int
	stack []string
	start time.Time
	used  map[string]bool // contracts applied
	inl   map[string]bool // functions inlined
	mods  map[string]bool // models used
	sites map[string]*Obj

	preState *State
	unitVars map[string]sval
}

type item struct {
	st    *State
	env   map[ssa.Value]Val
	blk   *ssa.BasicBlock
	prev  *ssa.BasicBlock
	idx   int
	defs  []deferred
	cut   map[*ssa.BasicBlock]*cutCtx
	count map[*ssa.BasicBlock]int
	ret   []Val
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type cutCtx struct {
	loop     *loopInfo
	analysis bool
	backs    []*item
}

func (it *item) fork() *item {
	n := &item{st: it.st.clone(), blk: it.blk, prev: it.prev, idx: it.idx, env: make(map[ssa.Value]Val, len(it.env)+8), cut: map[*ssa.BasicBlock]*cutCtx{}, count: map[*ssa.BasicBlock]int{}}
	for k, v := range it.env {
		n.env[k] = v
	}
	for k, v := range it.cut {
		n.cut[k] = v
	}
	for k, v := range it.count {
		n.count[k] = v
	}
	n.defs = append([]deferred(nil), it.defs...)
	n.ret = it.ret
	return n
}

type frame struct {
	fn      *ssa.Function
	work    []*item
	outs    []outcome
	loops   map[*ssa.BasicBlock]*loopInfo
	blkStop *cutCtx // set during loop analysis
}

func (ex *Exec) newObj(name string, t types.Type) *Obj {
	ex.nobj++
	return &Obj{id: ex.nobj, name: name, typ: t}
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.v.prog.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, ex.v.dir+"/") + fmt.Sprintf(":%d", q.Line)
}

// ---------- types ----------

func intType(t types.Type) (bits uint, signed, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func intRange(bits uint, signed bool) ivl {
	if signed {
		h := new(big.Int).Lsh(one, bits-1)
		return ivl{new(big.Int).Neg(h), new(big.Int).Sub(h, one)}
	}
	return ivl{bi(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

var ghostTypes = map[string]string{
	"bytes.Buffer":    "buffer",
	"strings.Builder": "buffer",
	"bytes.Reader":    "buffer",
	"strings.Reader":  "buffer",
	"bufio.Scanner":   "scanner",
	"os.File":         "file",
	"bufio.Reader":    "bufreader",
	"bufio.Writer":    "bufwriter",
}

func (ex *Exec) zeroVal(t types.Type) Val {
	if k := ghostTypes[typeName(t)]; k != "" {
		if k == "buffer" {
			return VGhost{k, map[string]Val{"buf": emptySeq}}
		}
		return VGhost{k, map[string]Val{}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intType(t); ok {
			return I(0)
		}
		if isBool(t) {
			return False
		}
		if isString(t) {
			return emptySeq
		}
	case *types.Array:
		if isByte(u.Elem()) {
			return Rep(I(0), I(u.Len()))
		}
		if u.Len() > 4096 {
			unsup("large array %s", t)
		}
		e := make([]Val, u.Len())
		for i := range e {
			e[i] = ex.zeroVal(u.Elem())
		}
		return VArr{e}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = ex.zeroVal(u.Field(i).Type())
		}
		return VStruct{t, f}
	case *types.Pointer:
		return VPtr{nul: true, typ: u.Elem()}
	case *types.Slice:
		return VSlice{off: I(0), len: I(0), cap: I(0), null: True, elem: u.Elem()}
	case *types.Interface:
		return VIface{id: I(0)}
	case *types.Signature:
		return VFunc{nul: true}
	}
	return VOpaque{typ: t}
}

// freshVal makes an arbitrary value of a type; machine ranges are attached to
// the symbols themselves.
func (ex *Exec) freshVal(st *State, t types.Type, name string) Val {
	if k := ghostTypes[typeName(t)]; k != "" {
		g := VGhost{k, map[string]Val{}}
		switch k {
		case "buffer":
			g.f["buf"] = Fresh(name, SSeq)
		case "scanner":
			g.f["rest"] = Fresh(name, SSeq)
			g.f["tok"] = Fresh(name, SSeq)
		}
		return g
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if b, s, ok := intType(t); ok {
			v := Fresh(name, SInt)
			setRange(v, intRange(b, s))
			return v
		}
		if isBool(t) {
			return Fresh(name, SBool)
		}
		if isString(t) {
			return Fresh(name, SSeq)
		}
	case *types.Array:
		if isByte(u.Elem()) {
			return FreshSeqN(name, int(u.Len()))
		}
		if b, s, ok := intType(u.Elem()); ok && s && b == 32 && u.Len() == 10 {
			return VArr{freshLimbs(name)}
		}
		if u.Len() > 4096 {
			unsup("large array %s", t)
		}
		e := make([]Val, u.Len())
		for i := range e {
			e[i] = ex.freshVal(st, u.Elem(), fmt.Sprintf("%s_%d", name, i))
		}
		return VArr{e}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = ex.freshVal(st, u.Field(i).Type(), name+"_"+u.Field(i).Name())
		}
		return VStruct{t, f}
	case *types.Pointer:
		o := ex.newObj(name, u.Elem())
		st.heap[o] = ex.freshVal(st, u.Elem(), name)
		return VPtr{loc: Loc{o, ""}, typ: u.Elem()}
	case *types.Slice:
		o := ex.newObj(name, t)
		if isByte(u.Elem()) {
			c := Fresh(name, SSeq)
			st.heap[o] = c
			n := SeqLen(c)
			cp := Fresh(name+"_cap", SInt)
			setRange(cp, ivl{bi(0), maxLen})
			st.assume(Le(n, cp))
			return VSlice{loc: Loc{o, ""}, off: I(0), len: n, cap: cp, null: Fresh(name+"_nil", SBool), elem: u.Elem()}
		}
		return VOpaque{typ: t}
	case *types.Interface:
		if isErr(t) {
			return VIface{id: Fresh(name, SInt)}
		}
		o := ex.newObj(name, t)
		switch typeName(t) {
		case "io.Reader", "io.ReadCloser":
			o.ghost = "reader"
			st.heap[o] = VGhost{"reader", map[string]Val{"in": Fresh(name+"_in", SSeq)}}
		case "io.Writer", "io.WriteCloser":
			o.ghost = "writer"
			st.heap[o] = VGhost{"writer", map[string]Val{"out": Fresh(name+"_out", SSeq)}}
		default:
			o.ghost = "iface"
			st.heap[o] = VGhost{"iface", map[string]Val{}}
		}
		return VIface{id: I(1), abs: o}
	case *types.Signature:
		return VFunc{name: name}
	}
	return VOpaque{typ: t}
}

// ---------- obligations ----------

func (ex *Exec) oblige(st *State, kind, label string, props []string, goal *Term, pos string) {
	if ex.quiet > 0 {
		return
	}
	o := &Obligation{unit: ex.unit.name, kind: kind, label: label, props: props, goal: goal, pos: pos}
	if v, k := st.decide(goal); k && v {
		o.pre = true
		o.res = Result{ok: true, solver: "simplifier"}
		ex.obls = append(ex.obls, o)
		return
	}
	o.pc = append([]*Term(nil), st.pc...)
	ex.obls = append(ex.obls, o)
}

// check emits a no-panic obligation and continues under its assumption.
func (ex *Exec) check(st *State, what string, goal *Term, pos string) {
	ex.oblige(st, "safety", what, nil, goal, pos)
	st.assume(goal)
}

func (ex *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	return !ex.v.infeasible(st.pc)
}

// feasible2 asks for the two sides of a branch at the same time.
func (ex *Exec) feasible2(a, b *State) (yes, no bool) {
	ch := make(chan bool)
	go func() { ch <- ex.feasible(b) }()
	yes = ex.feasible(a)
	no = <-ch
	return
}

func (ex *Exec) prove(st *State, goal *Term) bool {
	if v, k := st.decide(goal); k {
		return v
	}
	t0 := time.Now()
	r := ex.v.prove(st.pc, goal, decT)
	stat(fmt.Sprint("quick proof ", r.ok), t0)
	if debugOn && time.Since(t0) > 300*time.Millisecond {
		fmt.Fprintln(os.Stderr, "quick proof", r.ok, time.Since(t0), show(goal))
	}
	return r.ok
}

// ---------- evaluation of operands ----------

func (ex *Exec) eval(it *item, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return VPtr{loc: Loc{ex.v.globalObj(x), ""}, typ: x.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return VFunc{fn: x}
	case *ssa.Builtin:
		return VFunc{name: "builtin." + x.Name()}
	}
	r, ok := it.env[v]
	if !ok {
		unsup("value %s of %s", v.Name(), v.Parent())
	}
	return r
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return ex.zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return B(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		if _, _, ok := intType(t); ok {
			n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return IB(n)
		}
	}
	unsup("constant %s", c)
	return nil
}

func (ex *Exec) term(it *item, v ssa.Value) *Term {
	r := ex.eval(it, v)
	t, ok := r.(*Term)
	if !ok {
		unsup("%s is not a scalar (%T)", v.Name(), r)
	}
	return t
}

// ---------- machine integers ----------

func (ex *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	bits, signed, ok := intType(typ)
	if !ok {
		unsup("integer type %s", typ)
	}
	return ex.wrapBits(st, t, bits, signed)
}

func (ex *Exec) wrapBits(st *State, t *Term, bits uint, signed bool) *Term {
	r := intRange(bits, signed)
	i := st.interval(t)
	if i.lo != nil && i.hi != nil && i.lo.Cmp(r.lo) >= 0 && i.hi.Cmp(r.hi) <= 0 {
		return t
	}
	if t.op == opMod && !signed && t.ival.Cmp(new(big.Int).Lsh(one, bits)) == 0 {
		return t
	}
	if bits == 64 && ex.v.theory != nil {
		if ex.prove(st, And(Le(IB(r.lo), t), Le(t, IB(r.hi)))) {
			st.setIv(t, r)
			return t
		}
	}
	m := new(big.Int).Lsh(one, bits)
	if !signed {
		return Mod(t, m)
	}
	h := new(big.Int).Lsh(one, bits-1)
	return Sub(Mod(Add(t, IB(h)), m), IB(h))
}

func pow2(c *big.Int) (uint, bool) {
	if c.Sign() <= 0 {
		return 0, false
	}
	n := c.BitLen() - 1
	return uint(n), new(big.Int).Lsh(one, uint(n)).Cmp(c) == 0
}

// splitMod is t mod m where t is a number given by its bytes: the low ones are
// kept, so that only the last one is reduced.
func splitMod(t *Term, m *big.Int) *Term {
	ms := toMons(t)
	if len(ms) < 2 {
		return Mod(t, m)
	}
	var low, high []*Term
	k := new(big.Int)
	for _, mo := range ms {
		if len(mo.atoms) != 1 || mo.atoms[0].op != opAt || mo.c.Sign() <= 0 {
			return Mod(t, m)
		}
		if _, ok := pow2(mo.c); !ok {
			return Mod(t, m)
		}
		if mo.c.Cmp(k) > 0 {
			k = mo.c
		}
	}
	if k.Cmp(m) >= 0 {
		return Mod(t, m)
	}
	max := new(big.Int)
	for _, mo := range ms {
		x := MulC(mo.atoms[0], mo.c)
		if mo.c.Cmp(k) == 0 {
			high = append(high, mo.atoms[0])
		} else {
			low = append(low, x)
			max.Add(max, new(big.Int).Mul(mo.c, bi(255)))
		}
	}
	if max.Cmp(k) >= 0 {
		return Mod(t, m)
	}
	return Add(Add(low...), MulC(Mod(Add(high...), new(big.Int).Div(m, k)), k))
}

// andConst: x & c for x >= 0 (c any non-negative mask), or any x when viewed
// modulo 2^k.
func andConst(x *Term, c *big.Int) *Term {
	var sum []*Term
	i := 0
	for i < c.BitLen() {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < c.BitLen() && c.Bit(j) == 1 {
			j++
		}
		// bits i..j-1
		p := splitMod(Div(x, new(big.Int).Lsh(one, uint(i))), new(big.Int).Lsh(one, uint(j-i)))
		sum = append(sum, MulC(p, new(big.Int).Lsh(one, uint(i))))
		i = j
	}
	return Add(sum...)
}

// lowZeros returns k such that 2^k divides t syntactically.
func lowZeros(t *Term) uint {
	if t.isConst() {
		if t.ival.Sign() == 0 {
			return 512
		}
		return t.ival.TrailingZeroBits()
	}
	r := uint(512)
	for _, m := range toMons(t) {
		z := m.c.TrailingZeroBits()
		for _, a := range m.atoms {
			if a.op == opMod { // the machine's wrap-around
				k := lowZeros(a.args[0])
				if j := a.ival.TrailingZeroBits(); j < k {
					k = j
				}
				z += k
			}
		}
		if z < r {
			r = z
		}
	}
	return r
}

func (ex *Exec) bitop(st *State, op token.Token, x, y *Term, typ types.Type) *Term {
	bits, signed, _ := intType(typ)
	x, y = st.simpInt(x), st.simpInt(y)
	if x.isConst() && y.isConst() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(x.ival, y.ival)
		case token.OR:
			r.Or(x.ival, y.ival)
		case token.XOR:
			r.Xor(x.ival, y.ival)
		case token.AND_NOT:
			r.AndNot(x.ival, y.ival)
		}
		return IB(r)
	}
	if x.isConst() && op != token.AND_NOT {
		x, y = y, x
	}
	ix, iy := st.interval(x), st.interval(y)
	nonneg := func(i ivl) bool { return i.lo != nil && i.lo.Sign() >= 0 }
	full := new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	wrapS := func(t *Term) *Term { return ex.wrapBits(st, t, bits, signed) }
	switch op {
	case token.AND:
		if x == y {
			return x
		}
		if y.isConst() {
			c := y.ival
			if b, ok := knownBits.Load(x); ok && c.Sign() >= 0 {
				return bitSum(b.([8]*Term), int(c.Int64()&255))
			}
			if c.Sign() < 0 { // ...1111xxxx: x - (x & ^c)
				return wrapS(Sub(x, andConst(x, new(big.Int).Not(c))))
			}
			if nonneg(ix) && ix.hi != nil {
				// drop mask bits above the value
				c = new(big.Int).And(c, new(big.Int).Sub(new(big.Int).Lsh(one, uint(ix.hi.BitLen())), one))
				// a mask of all ones but the low bits: x - x mod 2^k
				fullx := new(big.Int).Sub(new(big.Int).Lsh(one, uint(ix.hi.BitLen())), one)
				inv := new(big.Int).AndNot(fullx, c)
				if inv.Sign() == 0 {
					return x
				}
				if _, ok := pow2(new(big.Int).Add(inv, one)); ok {
					return Sub(x, andConst(x, inv))
				}
			}
			return andConst(x, c)
		}
	case token.OR:
		if x == y {
			return x
		}
		if y.isConst() && y.ival.Sign() == 0 {
			return x
		}
		if y.isConst() && y.ival.Sign() > 0 && nonneg(ix) {
			return Sub(Add(x, y), andConst(x, y.ival))
		}
		if nonneg(ix) && ix.hi != nil && uint(ix.hi.BitLen()) <= lowZeros(y) || nonneg(iy) && iy.hi != nil && uint(iy.hi.BitLen()) <= lowZeros(x) {
			return Add(x, y) // no bit in common (of negative numbers too)
		}
		if nonneg(ix) && nonneg(iy) && ix.hi != nil && iy.hi != nil {
			if uint(ix.hi.BitLen()) <= lowZeros(y) || uint(iy.hi.BitLen()) <= lowZeros(x) {
				return Add(x, y)
			}
		}
	case token.XOR:
		if x == y {
			return I(0)
		}
		if y.isConst() && y.ival.Sign() == 0 {
			return x
		}
		if y.isConst() && y.ival.Cmp(full) == 0 && !signed {
			return Sub(IB(full), x)
		}
		if y.isConst() && y.ival.Cmp(minusOne) == 0 && signed {
			return Sub(I(-1), x)
		}
		if nonneg(ix) && nonneg(iy) {
			return Xor(x, y)
		}
	case token.AND_NOT:
		if x == y {
			return I(0)
		}
		if y.isConst() && y.ival.Sign() >= 0 {
			return Sub(x, andConst(x, y.ival))
		}
	}
	// multiplication of a value by a 0/-1 mask, etc.
	if signed && op == token.AND {
		return ex.maskAnd(st, x, y, bits)
	}
	if nonneg(ix) && nonneg(iy) {
		a, b := x, y
		if a.id > b.id {
			a, b = b, a
		}
		name := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxorw", token.AND_NOT: "bandnot"}[op]
		if op == token.AND_NOT {
			a, b = x, y
		}
		r := App(fmt.Sprintf("%s%d", name, bits), SInt, -1, a, b)
		st.setIv(r, intRange(bits, false))
		// monotone facts that ORed comparisons rely on
		switch op {
		case token.OR:
			// folding a byte onto itself: the exact bits
			for k := 0; k < 2; k++ {
				p, q := x, y
				if k == 1 {
					p, q = y, x
				}
				ip := st.interval(p)
				if ip.hi == nil || ip.hi.Cmp(bi(255)) > 0 || q.op != opDiv || q.args[0] != p {
					continue
				}
				n, ok := pow2(q.ival)
				if !ok {
					continue
				}
				old := bitsOf(p)
				var bits [8]*Term
				for i := range bits {
					bits[i] = old[i]
					if i+int(n) < 8 {
						bits[i] = Or(old[i], old[i+int(n)])
					}
				}
				knownBits.Store(r, bits)
				st.assume(Eq(r, bitSum(bits, 255)))
				break
			}
			st.assume(And(Le(a, r), Le(b, r), Le(r, Add(a, b))))
			if n, k := digitsOf(r, r.name); bits == 8 && k >= 4 && k%4 == 0 {
				// all the low bytes of a number
				st.assume(Iff(Eq(r, I(0)), Eq(st.simpInt(Mod(n, new(big.Int).Lsh(one, uint(8*k)))), I(0))))
			}
		case token.AND:
			st.assume(And(Le(r, a), Le(r, b), Le(I(0), r)))
		}
		return r
	}
	unsup("bit operation %s on %s and %s", op, show(x), show(y))
	return nil
}

// knownBits has the bits, as conditions, of bytes folded onto themselves.
var knownBits sync.Map

func bitsOf(p *Term) (b [8]*Term) {
	if k, ok := knownBits.Load(p); ok {
		return k.([8]*Term)
	}
	for i := range b {
		b[i] = Eq(Mod(Div(p, new(big.Int).Lsh(one, uint(i))), bi(2)), I(1))
	}
	return
}

func bitSum(b [8]*Term, mask int) *Term {
	var sum []*Term
	for i, c := range b {
		if mask>>uint(i)&1 == 1 {
			sum = append(sum, Ite(c, I(1<<uint(i)), I(0)))
		}
	}
	if sum == nil {
		return I(0)
	}
	return Add(sum...)
}

// digitsOf recognises the OR of the k lowest bytes of n (each below 256).
func digitsOf(r *Term, name string) (n *Term, k int) {
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t.op == opApp && t.name == name {
			return walk(t.args[0]) && walk(t.args[1])
		}
		if t.op == opMod && t.ival.Cmp(bi(256)) == 0 {
			t = t.args[0]
		} else if t.op != opDiv {
			return false
		}
		i := 0
		if t.op == opDiv {
			e, ok := pow2(t.ival)
			if !ok || e%8 != 0 {
				return false
			}
			i, t = int(e/8), t.args[0]
		}
		if n == nil {
			n = t
		}
		seen[i] = true
		return n == t
	}
	if !walk(r) {
		return nil, 0
	}
	for k = range seen {
		if k >= len(seen) {
			return nil, 0
		}
	}
	return n, len(seen)
}

// maskAnd: one side is 0 or -1.
func (ex *Exec) maskAnd(st *State, x, y *Term, bits uint) *Term {
	for k := 0; k < 2; k++ {
		i := st.interval(y)
		if i.lo != nil && i.hi != nil && i.lo.Cmp(minusOne) >= 0 && i.hi.Sign() <= 0 {
			return Ite(Eq(y, I(0)), I(0), x)
		}
		x, y = y, x
	}
	unsup("bitwise and of %s and %s", show(x), show(y))
	return nil
}

func (ex *Exec) arith(it *item, op token.Token, x, y *Term, typ types.Type, pos token.Pos) *Term {
	st := it.st
	switch op {
	case token.ADD:
		return ex.wrap(st, Add(x, y), typ)
	case token.SUB:
		return ex.wrap(st, Sub(x, y), typ)
	case token.MUL:
		return ex.wrap(st, Mul(x, y), typ)
	case token.QUO, token.REM:
		y = st.simpInt(y)
		x = st.simpInt(x)
		if !y.isConst() {
			ex.check(st, "division by zero", Not(Eq(y, I(0))), ex.pos(pos))
			q := App("godiv", SInt, -1, x, y)
			if op == token.REM {
				q = App("gorem", SInt, -1, x, y)
			}
			b, s, _ := intType(typ)
			st.setIv(q, intRange(b, s))
			return q
		}
		c := y.ival
		if c.Sign() == 0 {
			ex.check(st, "division by zero", False, ex.pos(pos))
			return I(0)
		}
		if c.Sign() < 0 {
			unsup("division by a negative constant")
		}
		i := st.interval(x)
		if i.lo != nil && i.lo.Sign() >= 0 || ex.prove(st, Le(I(0), x)) {
			if op == token.QUO {
				return Div(x, c)
			}
			return Mod(x, c)
		}
		q := Ite(Le(I(0), x), Div(x, c), Neg(Div(Neg(x), c)))
		if op == token.QUO {
			return q
		}
		return Sub(x, MulC(q, c))
	case token.SHL, token.SHR:
		y = st.simpInt(y)
		n, ok := y.constInt()
		if !ok {
			unsup("shift by a variable")
		}
		if n < 0 || n > 4096 {
			unsup("shift by %d", n)
		}
		p := new(big.Int).Lsh(one, uint(n))
		if op == token.SHL {
			return ex.wrap(st, MulC(x, p), typ)
		}
		return Div(x, p)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return ex.bitop(st, op, x, y, typ)
	}
	unsup("operator %s", op)
	return nil
}

func (ex *Exec) eqVal(st *State, a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("comparison %T %T", a, b)
		}
		return Eq(x, y)
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			unsup("comparison %T %T", a, b)
		}
		return ex.eqIface(st, x, y)
	case VPtr:
		y := b.(VPtr)
		if x.nul || y.nul {
			return B(x.nul == y.nul)
		}
		if x.idx != nil || y.idx != nil {
			unsup("comparison of element pointers")
		}
		return B(x.loc == y.loc)
	case VSlice: // only with nil
		y := b.(VSlice)
		if y.null == True {
			return x.null
		}
		if x.null == True {
			return y.null
		}
	case VStruct:
		y := b.(VStruct)
		var cs []*Term
		for i := range x.f {
			cs = append(cs, ex.eqVal(st, x.f[i], y.f[i]))
		}
		return And(cs...)
	case VArr:
		y := b.(VArr)
		var cs []*Term
		for i := range x.e {
			cs = append(cs, ex.eqVal(st, x.e[i], y.e[i]))
		}
		return And(cs...)
	case VFunc:
		y := b.(VFunc)
		if x.nul || y.nul {
			return B(x.nul == y.nul)
		}
	}
	unsup("comparison of %T", a)
	return nil
}

func (ex *Exec) eqIface(st *State, x, y VIface) *Term {
	xn, yn := x.typ != nil || x.abs != nil, y.typ != nil || y.abs != nil
	if !xn && !yn {
		return Eq(x.id, y.id)
	}
	if !xn && x.id == I(0) || !yn && y.id == I(0) {
		return False
	}
	if x.abs != nil && x.abs == y.abs {
		return True
	}
	if x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
		return ex.eqVal(st, x.v, y.v)
	}
	unsup("comparison of interfaces")
	return nil
}

// ---------- running a function ----------

const maxDepth = 24

func (ex *Exec) inline(st *State, fn *ssa.Function, args []Val, bind []Val) []outcome {
	if fn.Blocks == nil {
		unsup("no model or contract for %s", fn)
	}
	ex.depth++
	ex.stack = append(ex.stack, fn.String())
	defer func() { ex.depth--; ex.stack = ex.stack[:len(ex.stack)-1] }()
	if ex.depth > maxDepth {
		unsup("call depth at %s", fn)
	}
	for _, s := range ex.stack[:len(ex.stack)-1] {
		if s == fn.String() {
			unsup("recursion in %s", fn)
		}
	}
	fr := &frame{fn: fn, loops: findLoops(fn)}
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = bind[i]
	}
	fr.work = []*item{{st: st, env: env, blk: fn.Blocks[0], cut: map[*ssa.BasicBlock]*cutCtx{}, count: map[*ssa.BasicBlock]int{}}}
	ex.drive(fr)
	return fr.outs
}

func (ex *Exec) drive(fr *frame) {
	for len(fr.work) > 0 {
		it := fr.work[len(fr.work)-1]
		fr.work = fr.work[:len(fr.work)-1]
		ex.runItem(fr, it)
	}
}

func (ex *Exec) runItem(fr *frame, it *item) {
	for {
		if it.st.dead {
			return
		}
		if it.idx >= len(it.blk.Instrs) {
			return
		}
		ex.steps++
		if ex.steps > 4000000 {
			unsup("too many steps")
		}
		if ex.steps&255 == 0 && (time.Since(ex.start) > ex.v.unitT || ex.v.late()) {
			unsup("time limit for the unit")
		}
		in := it.blk.Instrs[it.idx]
		it.idx++
		switch x := in.(type) {
		case *ssa.If:
			c := ex.term(it, x.Cond)
			if v, k := it.st.decide(c); k {
				s := it.blk.Succs[1]
				if v {
					s = it.blk.Succs[0]
				}
				if !ex.jump(fr, it, s) {
					return
				}
				continue
			}
			if ex.merge(fr, it, c) {
				continue
			}
			ex.paths++
			if ex.paths > 20000 {
				unsup("too many paths")
			}
			b := it.fork()
			it.st.assume(c)
			b.st.assume(Not(c))
			tOK, fOK := ex.feasible2(it.st, b.st)
			if !tOK {
				it.st.dead = true
			} else if !fOK {
				b.st.dead = true
			}
			if !b.st.dead {
				if ex.jump(fr, b, b.blk.Succs[1]) {
					fr.work = append(fr.work, b)
				}
			}
			if it.st.dead || !ex.jump(fr, it, it.blk.Succs[0]) {
				return
			}
		case *ssa.Jump:
			if !ex.jump(fr, it, it.blk.Succs[0]) {
				return
			}
		case *ssa.Return:
			if fr.blkStop != nil {
				return // leaving the loop under analysis
			}
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, ex.eval(it, r))
			}
			fr.outs = append(fr.outs, outcome{st: it.st, ret: rs})
			return
		case *ssa.Panic:
			ex.check(it.st, "panic", False, ex.pos(x.Pos()))
			return
		case *ssa.RunDefers:
			if len(it.defs) == 0 {
				continue
			}
			d := it.defs[len(it.defs)-1]
			it.defs = it.defs[:len(it.defs)-1]
			it.idx-- // come back for the rest
			outs := ex.callVal(it.st, d.fn, d.args, d.call, d.pos)
			if !ex.resume(fr, it, outs, nil) {
				return
			}
		case *ssa.Defer:
			fv, args := ex.callee(it, &x.Call)
			it.defs = append(it.defs, deferred{&x.Call, fv, args, x.Pos()})
		case *ssa.Call:
			fv, args := ex.callee(it, &x.Call)
			outs := ex.callVal(it.st, fv, args, &x.Call, x.Pos())
			if !ex.resume(fr, it, outs, x) {
				return
			}
		case *ssa.Go, *ssa.Select, *ssa.Send:
			unsup("concurrency in %s", fr.fn)
		default:
			ex.instr(it, in)
		}
	}
}

// phis gives the phis of a block their values for one edge.
func (ex *Exec) phis(it *item, blk, from *ssa.BasicBlock) {
	n := -1
	for i, p := range blk.Preds {
		if p == from {
			n = i
		}
	}
	if n < 0 {
		unsup("phi")
	}
	vals := map[ssa.Value]Val{}
	for _, in := range blk.Instrs {
		x, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[x] = ex.eval(it, x.Edges[n])
	}
	for x, v := range vals {
		it.env[x] = v
	}
}

// pureArm: a block that only computes numbers or strings into local
// variables and goes on to another one, and is reached only from b.
func pureArm(fr *frame, b, s *ssa.BasicBlock) (stores []*ssa.Alloc, join *ssa.BasicBlock, ok bool) {
	if len(s.Preds) != 1 || s.Preds[0] != b || fr.loops[s] != nil || len(s.Instrs) > 8 {
		return
	}
	simple := func(t types.Type) bool {
		_, _, isInt := intType(t)
		return isInt || isString(t)
	}
	for i, in := range s.Instrs {
		switch x := in.(type) {
		case *ssa.Jump:
			return stores, s.Succs[0], i == len(s.Instrs)-1
		case *ssa.Store:
			l, isL := x.Addr.(*ssa.Alloc)
			if !isL || !simple(x.Val.Type()) {
				return
			}
			stores = append(stores, l)
		case *ssa.UnOp:
			if _, isL := x.X.(*ssa.Alloc); !isL || x.Op != token.MUL || !simple(x.Type()) {
				return
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.SUB, token.MUL:
			default:
				return
			}
			_, c1 := x.X.(*ssa.Const)
			_, c2 := x.Y.(*ssa.Const)
			if !simple(x.Type()) || !isString(x.Type()) && !c1 && !c2 {
				return
			}
		case *ssa.DebugRef:
		default:
			return
		}
	}
	return
}

// merge replaces a branch whose arms only choose between values of local
// variables by conditional values, so that what follows is executed once.
func (ex *Exec) merge(fr *frame, it *item, c *Term) bool {
	b := it.blk
	t, f := b.Succs[0], b.Succs[1]
	if fr.blkStop != nil || t == f {
		return false
	}
	ts, tj, tok := pureArm(fr, b, t)
	fs, fj, fok := pureArm(fr, b, f)
	var join *ssa.BasicBlock
	switch {
	case tok && fok && tj == fj:
		join = tj
	case tok && tj == f:
		join, fok, fs = f, false, nil
	case fok && fj == t:
		join, tok, ts = t, false, nil
	default:
		return false
	}
	if fr.loops[join] != nil || len(join.Preds) != 2 {
		return false
	}
	if _, ok := join.Instrs[0].(*ssa.Phi); ok {
		return false
	}
	for _, cx := range it.cut {
		if !cx.loop.blocks[join] {
			return false
		}
	}
	var extra []*Term // what the arms assume besides the condition
	arm := func(c *Term, blk *ssa.BasicBlock, own bool) *State {
		a := it.fork()
		a.st.assume(c)
		if !ex.feasible(a.st) {
			return nil
		}
		n := len(a.st.pc)
		if own {
			for _, in := range blk.Instrs[:len(blk.Instrs)-1] {
				ex.instr(a, in)
				if a.st.dead {
					return nil
				}
			}
		}
		for _, e := range a.st.pc[n:] {
			extra = append(extra, Or(Not(c), e))
		}
		return a.st
	}
	x := arm(c, t, tok)
	if x == nil {
		return false
	}
	y := arm(Not(c), f, fok)
	if y == nil {
		return false
	}
	vals := map[*Obj]Val{}
	for _, l := range append(ts, fs...) {
		p, ok := it.env[l].(VPtr)
		if !ok || p.loc.path != "" {
			return false
		}
		u, ok1 := x.heap[p.loc.obj].(*Term)
		v, ok2 := y.heap[p.loc.obj].(*Term)
		if !ok1 || !ok2 || u.sort != v.sort {
			return false
		}
		vals[p.loc.obj] = u
		if u != v {
			vals[p.loc.obj] = Ite(c, u, v)
		}
	}
	if len(vals) == 0 {
		return false
	}
	for _, e := range extra {
		it.st.assume(e)
	}
	for o, v := range vals {
		it.st.heap[o] = v
	}
	it.prev, it.blk, it.idx = b, join, 0
	return true
}

// resume continues an item after a call with one or more outcomes.
func (ex *Exec) resume(fr *frame, it *item, outs []outcome, x *ssa.Call) bool {
	var live []outcome
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if o.kind == oExit {
			if fr.blkStop == nil {
				fr.outs = append(fr.outs, o)
			}
			continue
		}
		live = append(live, o)
	}
	for i, o := range live {
		t := it
		if i < len(live)-1 {
			t = it.fork()
		}
		t.st = o.st
		if x != nil {
			switch n := x.Call.Signature().Results().Len(); {
			case n == 1:
				t.env[x] = o.ret[0]
			case n > 1:
				t.env[x] = VTuple(o.ret)
			}
		}
		if i < len(live)-1 {
			fr.work = append(fr.work, t)
		}
	}
	return len(live) > 0
}

// jump moves to a successor block, handling loop heads. It returns false if
// the item ends here.
// unrollErr: unrolling this loop does not end; it has to be cut.
type unrollErr struct{ head *ssa.BasicBlock }

func (ex *Exec) jump(fr *frame, it *item, to *ssa.BasicBlock) bool {
	from := it.blk
	// phis read the edge values
	it.prev, it.blk, it.idx = from, to, 0
	for h, c := range it.cut {
		if !c.loop.blocks[to] {
			if c.analysis {
				return false
			}
			delete(it.cut, h)
		}
	}
	if l := fr.loops[to]; l != nil {
		if l.blocks[from] { // back edge
			if c := it.cut[to]; c != nil {
				c.backs = append(c.backs, it)
				return false
			}
			it.count[to]++
			if it.count[to] > 600 {
				panic(unrollErr{to})
			}
		} else {
			it.count[to] = 0
			if !ex.concreteLoop(fr, it, l) {
				return ex.cutLoop(fr, it, l)
			}
		}
	}
	return true
}

func (ex *Exec) callee(it *item, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fv Val
	if c.IsInvoke() {
		args = append(args, ex.eval(it, c.Value))
	} else {
		fv = ex.eval(it, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, ex.eval(it, a))
	}
	return fv, args
}

func ret(st *State, vs ...Val) []outcome { return []outcome{{st: st, ret: vs}} }

func (ex *Exec) callVal(st *State, fv Val, args []Val, c *ssa.CallCommon, pos token.Pos) []outcome {
	if c.IsInvoke() {
		return ex.invoke(st, args[0].(VIface), c.Method, args[1:], pos)
	}
	f, ok := fv.(VFunc)
	if !ok {
		unsup("call of %T", fv)
	}
	if f.nul {
		ex.check(st, "call of nil function", False, ex.pos(pos))
		return nil
	}
	if strings.HasPrefix(f.name, "builtin.") {
		return ex.builtin(st, f.name[8:], args, c, pos)
	}
	if f.fn == nil {
		if m := models["func:"+f.name]; m != nil {
			ex.mods["func:"+f.name] = true
			return m(&call{ex: ex, st: st, args: args, pos: pos, name: f.name, sig: c.Signature()})
		}
		unsup("call of unknown function value %s", f.name)
	}
	return ex.callFn(st, f.fn.(*ssa.Function), args, f.bind, pos)
}

func (ex *Exec) callFn(st *State, fn *ssa.Function, args, bind []Val, pos token.Pos) []outcome {
	name := short(fn.String())
	if o := fn.Origin(); o != nil {
		name = short(o.String())
	}
	for _, p := range ex.unit.opaqueCalls() {
		if p == name {
			return models["opaque"](&call{ex: ex, st: st, args: args, pos: pos, name: name, sig: fn.Signature, fn: fn})
		}
	}
	if c := ex.v.contract(name); c != nil && !c.inline && !ex.v.dropped[name] {
		return ex.applyContract(st, c, fn.Signature, args, pos)
	}
	if m := models[name]; m != nil {
		ex.mods[name] = true
		return m(&call{ex: ex, st: st, args: args, pos: pos, name: name, sig: fn.Signature, fn: fn})
	}
	if fn.Synthetic != "" && fn.Blocks == nil && strings.Contains(fn.Synthetic, "wrapper") {
		unsup("wrapper %s", fn)
	}
	if fn.Blocks == nil && fn.Name() == "init" && fn.Signature.Recv() == nil && !ex.v.repoPkg(fn.Pkg.Pkg) {
		return ret(st) // initialiser of a library package
	}
	if fn.Blocks == nil {
		unsup("no model or contract for %s", name)
	}
	ex.inl[name] = true
	return ex.inline(st, fn, args, bind)
}

func (ex *Exec) invoke(st *State, r VIface, m *types.Func, args []Val, pos token.Pos) []outcome {
	if r.typ == nil && r.abs == nil {
		if isErrMethod(m) {
			ex.check(st, "method call on nil error", Not(Eq(r.id, I(0))), ex.pos(pos))
			return ret(st, App("errstr", SSeq, -1, r.id))
		}
		if r.id == I(0) {
			ex.check(st, "method call on nil interface", False, ex.pos(pos))
			return nil
		}
		unsup("method %s of unknown value", m.Name())
	}
	if r.typ != nil {
		fn := ex.v.prog.LookupMethod(r.typ, m.Pkg(), m.Name())
		if fn == nil {
			unsup("method %s of %s", m.Name(), r.typ)
		}
		return ex.callFn(st, fn, append([]Val{r.v}, args...), nil, pos)
	}
	k := "abs." + r.abs.ghost + "." + m.Name()
	if mo := models[k]; mo != nil {
		ex.mods[k] = true
		return mo(&call{ex: ex, st: st, args: append([]Val{r}, args...), pos: pos, name: k, sig: m.Type().(*types.Signature)})
	}
	unsup("method %s of abstract %s", m.Name(), r.abs.ghost)
	return nil
}

func isErrMethod(m *types.Func) bool { return m.Name() == "Error" }

// ---------- ordinary instructions ----------

func (ex *Exec) nonNil(st *State, p VPtr, pos token.Pos) {
	if p.nul {
		ex.check(st, "nil pointer", False, ex.pos(pos))
		st.dead = true
	}
}

func (ex *Exec) loadPtr(st *State, p VPtr) Val {
	if p.loc.obj.glob {
		if v := ex.v.globalFn(p.loc); v != nil {
			return v
		}
	}
	v := st.load(p.loc)
	if p.idx != nil {
		switch x := v.(type) {
		case *Term:
			return At(x, p.idx)
		}
		unsup("element pointer into %T", v)
	}
	return v
}

func (ex *Exec) storePtr(st *State, p VPtr, v Val) {
	if s := st.shared[p.loc.obj]; s != nil {
		if p.idx == nil || !ex.prove(st, Le(s, p.idx)) {
			unsup("write to a possibly shared append buffer")
		}
	}
	if p.idx != nil {
		c, ok := st.load(p.loc).(*Term)
		if !ok {
			unsup("element store into %T", st.load(p.loc))
		}
		st.store(p.loc, seqSet(c, p.idx, v.(*Term)))
		return
	}
	st.store(p.loc, v)
}

func (ex *Exec) instr(it *item, in ssa.Instruction) {
	st := it.st
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := ex.newObj(x.Comment, t)
		st.fresh[o] = true
		st.heap[o] = ex.zeroVal(t)
		it.env[x] = VPtr{loc: Loc{o, ""}, typ: t}
	case *ssa.Phi:
		// the phis of a block read their edges at the same moment
		ex.phis(it, it.blk, it.prev)
		for it.idx < len(it.blk.Instrs) {
			if _, ok := it.blk.Instrs[it.idx].(*ssa.Phi); !ok {
				break
			}
			it.idx++
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p, ok := ex.eval(it, x.X).(VPtr)
			if !ok {
				unsup("load through %T", ex.eval(it, x.X))
			}
			ex.nonNil(st, p, x.Pos())
			if st.dead {
				return
			}
			it.env[x] = ex.loadPtr(st, p)
		case token.NOT:
			it.env[x] = Not(ex.term(it, x.X))
		case token.SUB:
			it.env[x] = ex.wrap(st, Neg(ex.term(it, x.X)), x.Type())
		case token.XOR:
			b, s, _ := intType(x.Type())
			t := ex.term(it, x.X)
			if s {
				it.env[x] = Sub(I(-1), t)
			} else {
				it.env[x] = Sub(IB(intRange(b, false).hi), t)
			}
		default:
			unsup("unary %s", x.Op)
		}
	case *ssa.BinOp:
		it.env[x] = ex.binop(it, x)
	case *ssa.Store:
		p := ex.eval(it, x.Addr).(VPtr)
		ex.nonNil(st, p, x.Pos())
		if st.dead {
			return
		}
		ex.storePtr(st, p, ex.eval(it, x.Val))
	case *ssa.FieldAddr:
		p := ex.eval(it, x.X).(VPtr)
		ex.nonNil(st, p, x.Pos())
		if st.dead {
			return
		}
		it.env[x] = VPtr{loc: p.loc.sub(x.Field), typ: x.Type().(*types.Pointer).Elem()}
	case *ssa.Field:
		s, ok := ex.eval(it, x.X).(VStruct)
		if !ok {
			unsup("field of %T", ex.eval(it, x.X))
		}
		it.env[x] = s.f[x.Field]
	case *ssa.IndexAddr:
		i := st.simpInt(ex.term(it, x.Index))
		switch b := ex.eval(it, x.X).(type) {
		case VPtr:
			ex.nonNil(st, b, x.Pos())
			if st.dead {
				return
			}
			n := b.typ.Underlying().(*types.Array)
			ex.check(st, "index out of range", And(Le(I(0), i), Lt(i, I(n.Len()))), ex.pos(x.Pos()))
			if isByte(n.Elem()) {
				it.env[x] = VPtr{loc: b.loc, idx: i, typ: n.Elem()}
				return
			}
			k, ok := i.constInt()
			if !ok {
				unsup("symbolic index into an array of %s", n.Elem())
			}
			it.env[x] = VPtr{loc: b.loc.sub(int(k)), typ: n.Elem()}
		case VSlice:
			ex.check(st, "index out of range", And(Le(I(0), i), Lt(i, b.len)), ex.pos(x.Pos()))
			if st.dead {
				return
			}
			if isByte(b.elem) {
				it.env[x] = VPtr{loc: b.loc, idx: st.simpInt(Add(b.off, i)), typ: b.elem}
				return
			}
			k, ok := st.simpInt(Add(b.off, i)).constInt()
			if !ok {
				unsup("symbolic index into a slice of %s", b.elem)
			}
			it.env[x] = VPtr{loc: b.loc.sub(int(k)), typ: b.elem}
		default:
			unsup("index of %T", b)
		}
	case *ssa.Index:
		i := st.simpInt(ex.term(it, x.Index))
		switch b := ex.eval(it, x.X).(type) {
		case *Term:
			ex.check(st, "index out of range", And(Le(I(0), i), Lt(i, SeqLen(b))), ex.pos(x.Pos()))
			it.env[x] = At(b, i)
		case VArr:
			k, ok := i.constInt()
			if !ok || k < 0 || int(k) >= len(b.e) {
				unsup("array index")
			}
			it.env[x] = b.e[k]
		default:
			unsup("index of %T", b)
		}
	case *ssa.Lookup:
		b, ok := ex.eval(it, x.X).(*Term)
		if !ok {
			unsup("map lookup")
		}
		i := st.simpInt(ex.term(it, x.Index))
		ex.check(st, "index out of range", And(Le(I(0), i), Lt(i, SeqLen(b))), ex.pos(x.Pos()))
		it.env[x] = At(b, i)
	case *ssa.Slice:
		it.env[x] = ex.slice(it, x)
	case *ssa.MakeSlice:
		n, c := st.simpInt(ex.term(it, x.Len)), st.simpInt(ex.term(it, x.Cap))
		ex.check(st, "makeslice: len out of range", And(Le(I(0), n), Le(n, c)), ex.pos(x.Pos()))
		et := x.Type().Underlying().(*types.Slice).Elem()
		o := ex.newObj("make", x.Type())
		st.fresh[o] = true
		if isByte(et) {
			st.heap[o] = Rep(I(0), c)
		} else {
			k, ok := c.constInt()
			if !ok || k > 4096 {
				unsup("make of symbolic length")
			}
			e := make([]Val, k)
			for i := range e {
				e[i] = ex.zeroVal(et)
			}
			st.heap[o] = VArr{e}
		}
		it.env[x] = VSlice{loc: Loc{o, ""}, off: I(0), len: n, cap: c, null: False, elem: et}
	case *ssa.ChangeType:
		it.env[x] = ex.eval(it, x.X)
	case *ssa.ChangeInterface:
		it.env[x] = ex.eval(it, x.X)
	case *ssa.MakeInterface:
		v := ex.eval(it, x.X)
		if isErr(x.Type()) {
			it.env[x] = VIface{id: I(ex.v.errID())}
			return
		}
		it.env[x] = VIface{id: I(1), typ: x.X.Type(), v: v}
	case *ssa.Convert:
		it.env[x] = ex.convert(it, x)
	case *ssa.MultiConvert:
		unsup("generic conversion")
	case *ssa.SliceToArrayPointer:
		s := ex.eval(it, x.X).(VSlice)
		n := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		ex.check(st, "slice to array conversion", Le(I(n.Len()), s.len), ex.pos(x.Pos()))
		if !(s.off.isInt(0)) {
			unsup("array pointer into the middle of a slice")
		}
		c, ok := st.load(s.loc).(*Term)
		if !ok || !isByte(n.Elem()) {
			unsup("array pointer of %s", n)
		}
		if k, ok := constLen(c); !ok || k != int(n.Len()) {
			unsup("array pointer to part of a slice")
		}
		it.env[x] = VPtr{loc: s.loc, typ: x.Type().(*types.Pointer).Elem()}
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, ex.eval(it, b))
		}
		it.env[x] = VFunc{fn: x.Fn.(*ssa.Function), bind: bs}
	case *ssa.Extract:
		t, ok := ex.eval(it, x.Tuple).(VTuple)
		if !ok {
			unsup("extract")
		}
		it.env[x] = t[x.Index]
	case *ssa.TypeAssert:
		v, ok := ex.eval(it, x.X).(VIface)
		if !ok || v.typ == nil {
			unsup("type assertion")
		}
		var r Val
		good := false
		if ai, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			good = types.Implements(v.typ, ai)
			r = v
			if !good {
				r = VIface{id: I(0)}
			}
		} else {
			good = types.Identical(v.typ, x.AssertedType)
			r = v.v
			if !good {
				r = ex.zeroVal(x.AssertedType)
			}
		}
		if x.CommaOk {
			it.env[x] = VTuple{r, B(good)}
		} else {
			ex.check(st, "type assertion", B(good), ex.pos(x.Pos()))
			it.env[x] = r
		}
	default:
		unsup("instruction %T", in)
	}
}

func (ex *Exec) binop(it *item, x *ssa.BinOp) Val {
	st := it.st
	a, b := ex.eval(it, x.X), ex.eval(it, x.Y)
	switch x.Op {
	case token.EQL:
		return ex.eqVal(st, a, b)
	case token.NEQ:
		return Not(ex.eqVal(st, a, b))
	}
	s, ok1 := a.(*Term)
	t, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("operator %s on %T", x.Op, a)
	}
	if s.sort == SSeq {
		if x.Op == token.ADD {
			return Cat(s, t)
		}
		unsup("string operator %s", x.Op)
	}
	switch x.Op {
	case token.LSS:
		return Lt(s, t)
	case token.LEQ:
		return Le(s, t)
	case token.GTR:
		return Lt(t, s)
	case token.GEQ:
		return Le(t, s)
	}
	return ex.arith(it, x.Op, s, t, x.Type(), x.Pos())
}

func (ex *Exec) convert(it *item, x *ssa.Convert) Val {
	st := it.st
	v := ex.eval(it, x.X)
	from, to := x.X.Type(), x.Type()
	if _, _, ok := intType(to); ok {
		if _, _, ok2 := intType(from); ok2 {
			return ex.wrap(st, v.(*Term), to)
		}
	}
	if isString(to) {
		if s, ok := v.(VSlice); ok && isByte(s.elem) {
			return st.bytesOf(s)
		}
		if isString(from) {
			return v
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isByte(sl.Elem()) && isString(from) {
		return ex.newBytes(st, v.(*Term), "conv")
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

// newBytes allocates a byte slice with given contents.
func (ex *Exec) newBytes(st *State, c *Term, name string) VSlice {
	o := ex.newObj(name, types.NewSlice(types.Typ[types.Byte]))
	st.fresh[o] = true
	st.heap[o] = c
	n := SeqLen(c)
	cp := Fresh("cap", SInt)
	setRange(cp, ivl{bi(0), maxLen})
	st.assume(Le(n, cp))
	return VSlice{loc: Loc{o, ""}, off: I(0), len: n, cap: cp, null: False, elem: types.Typ[types.Byte]}
}

func (ex *Exec) slice(it *item, x *ssa.Slice) Val {
	st := it.st
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return st.simpInt(ex.term(it, v))
	}
	switch b := ex.eval(it, x.X).(type) {
	case *Term: // string
		lo, hi := get(x.Low, I(0)), get(x.High, SeqLen(b))
		ex.check(st, "slice bounds out of range", And(Le(I(0), lo), Le(lo, hi), Le(hi, SeqLen(b))), ex.pos(x.Pos()))
		return SeqSub(b, lo, hi)
	case VPtr:
		ex.nonNil(st, b, x.Pos())
		if st.dead {
			return nil
		}
		n := b.typ.Underlying().(*types.Array)
		lo, hi := get(x.Low, I(0)), get(x.High, I(n.Len()))
		max := get(x.Max, I(n.Len()))
		ex.check(st, "slice bounds out of range", And(Le(I(0), lo), Le(lo, hi), Le(hi, max), Le(max, I(n.Len()))), ex.pos(x.Pos()))
		return VSlice{loc: b.loc, off: lo, len: Sub(hi, lo), cap: Sub(max, lo), null: False, elem: n.Elem()}
	case VSlice:
		lo, hi := get(x.Low, I(0)), get(x.High, b.len)
		max := get(x.Max, b.cap)
		ex.check(st, "slice bounds out of range", And(Le(I(0), lo), Le(lo, hi), Le(hi, max), Le(max, b.cap)), ex.pos(x.Pos()))
		if b.null == True {
			return b
		}
		if c, ok := st.load(b.loc).(*Term); ok {
			// contents beyond the known bytes
			if v, k := st.decide(Le(Add(b.off, hi), SeqLen(c))); !k || !v {
				if !ex.prove(st, Le(Add(b.off, hi), SeqLen(c))) {
					unsup("reslice beyond the known contents")
				}
			}
		}
		return VSlice{loc: b.loc, off: Add(b.off, lo), len: st.simpInt(Sub(hi, lo)), cap: Sub(max, lo), null: b.null, elem: b.elem}
	}
	unsup("slice of %T", ex.eval(it, x.X))
	return nil
}

func (ex *Exec) builtin(st *State, name string, args []Val, c *ssa.CallCommon, pos token.Pos) []outcome {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			return ret(st, SeqLen(x))
		case VSlice:
			return ret(st, x.len)
		case VArr:
			return ret(st, I(int64(len(x.e))))
		case VPtr:
			return ret(st, I(x.typ.Underlying().(*types.Array).Len()))
		}
	case "cap":
		if x, ok := args[0].(VSlice); ok {
			return ret(st, x.cap)
		}
	case "copy":
		dst, ok := args[0].(VSlice)
		if src, ok2 := args[1].(VSlice); ok && ok2 && !isByte(dst.elem) && dst.null == False && src.null == False {
			return ret(st, ex.copyElems(st, dst, src))
		}
		if !ok || !isByte(dst.elem) {
			unsup("copy to %T", args[0])
		}
		var src *Term
		switch y := args[1].(type) {
		case *Term:
			src = y
		case VSlice:
			src = st.bytesOf(y)
		default:
			unsup("copy from %T", args[1])
		}
		return ex.copyTo(st, dst, src)
	case "append":
		return ex.appendTo(st, args, c)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = ex.pick(st, Le(r, t), r, t)
			} else {
				r = ex.pick(st, Le(r, t), t, r)
			}
		}
		return ret(st, r)
	case "clear":
		if x, ok := args[0].(VSlice); ok && isByte(x.elem) {
			if x.null == True {
				return ret(st)
			}
			old := st.load(x.loc).(*Term)
			st.store(x.loc, splice(old, x.off, Rep(I(0), x.len)))
			return ret(st)
		}
	case "print", "println":
		return ret(st)
	case "ssa:deferstack":
		return ret(st, VOpaque{})
	case "ssa:wrapnilchk":
		return ret(st, args[0])
	}
	unsup("builtin %s", name)
	return nil
}

// copyElems copies elements other than bytes, between arrays of known lengths.
func (ex *Exec) copyElems(st *State, dst, src VSlice) *Term {
	num := func(t *Term) int {
		n, ok := st.simpInt(t).constInt()
		if !ok {
			unsup("copy of a symbolic number of elements")
		}
		return int(n)
	}
	a, ok1 := st.load(dst.loc).(VArr)
	b, ok2 := st.load(src.loc).(VArr)
	if !ok1 || !ok2 {
		unsup("copy of elements of %T", st.load(dst.loc))
	}
	n, do, so := num(dst.len), num(dst.off), num(src.off)
	if m := num(src.len); m < n {
		n = m
	}
	e := append([]Val(nil), a.e...)
	for i := 0; i < n; i++ {
		e[do+i] = b.e[so+i]
	}
	st.store(dst.loc, VArr{e})
	return I(int64(n))
}

func (ex *Exec) pick(st *State, c, a, b *Term) *Term {
	if v, k := st.decide(c); k {
		if v {
			return a
		}
		return b
	}
	return Ite(c, a, b)
}

// copyTo splits on which of the two is shorter when that is undecided.
func (ex *Exec) copyTo(st *State, dst VSlice, src *Term) []outcome {
	n := SeqLen(src)
	do := func(s *State, k *Term) outcome {
		if k == I(0) || dst.null == True {
			return outcome{st: s, ret: []Val{I(0)}}
		}
		if sh := s.shared[dst.loc.obj]; sh != nil {
			unsup("copy into a possibly shared append buffer")
		}
		old, ok := s.load(dst.loc).(*Term)
		if !ok {
			unsup("copy into %T", s.load(dst.loc))
		}
		s.store(dst.loc, splice(old, dst.off, SeqSub(src, I(0), k)))
		return outcome{st: s, ret: []Val{k}}
	}
	c := Le(n, dst.len)
	if v, k := st.decide(c); k {
		if v {
			return []outcome{do(st, n)}
		}
		return []outcome{do(st, dst.len)}
	}
	b := st.clone()
	st.assume(c)
	b.assume(Not(c))
	var outs []outcome
	yes, no := ex.feasible2(st, b)
	if yes {
		outs = append(outs, do(st, n))
	}
	if no {
		outs = append(outs, do(b, dst.len))
	}
	return outs
}

func (ex *Exec) appendTo(st *State, args []Val, c *ssa.CallCommon) []outcome {
	s, ok := args[0].(VSlice)
	if !ok {
		unsup("append to %T", args[0])
	}
	if !isByte(s.elem) {
		y, ok := args[1].(VSlice)
		if !ok {
			unsup("append")
		}
		a, b := ex.elems(st, s), ex.elems(st, y)
		o := ex.newObj("append", c.Signature().Results().At(0).Type())
		st.fresh[o] = true
		e := append(append([]Val(nil), a...), b...)
		st.heap[o] = VArr{e}
		n := I(int64(len(e)))
		return ret(st, VSlice{loc: Loc{o, ""}, off: I(0), len: n, cap: n, null: False, elem: s.elem})
	}
	var add *Term
	switch y := args[1].(type) {
	case *Term:
		add = y
	case VSlice:
		add = st.bytesOf(y)
	}
	if SeqLen(add) == I(0) {
		return ret(st, s)
	}
	cur := st.bytesOf(s)
	nl := Add(s.len, SeqLen(add))
	fits := Le(nl, s.cap)
	if s.null == True {
		fits = False
	}
	v, known := st.decide(fits)
	if !known && ex.prove(st, fits) {
		v, known = true, true
	}
	if !known && ex.prove(st, Not(fits)) {
		v, known = false, true
	}
	if known && v {
		old := st.load(s.loc).(*Term)
		if d, k := st.decide(Le(Add(s.off, nl), SeqLen(old))); k && d || ex.prove(st, Le(Add(s.off, nl), SeqLen(old))) {
			st.store(s.loc, splice(old, Add(s.off, s.len), add))
			return ret(st, VSlice{loc: s.loc, off: s.off, len: nl, cap: s.cap, null: False, elem: s.elem})
		}
	}
	r := ex.newBytes(st, Cat(cur, add), "append")
	nc := Fresh("cap", SInt)
	setRange(nc, ivl{bi(0), maxLen})
	st.assume(Le(r.len, nc))
	r.cap = nc
	if !known {
		// The old array may or may not be the new one: neither may be written
		// below the old length, and the old one may not be extended again.
		if m := st.shared[s.loc.obj]; m != nil && m.isConst() && s.null != True {
			unsup("second append to a slice of unknown capacity")
		}
		if s.null != True {
			st.shared[s.loc.obj] = IB(maxLen)
			st.shared[r.loc.obj] = Add(s.off, s.len)
		}
	}
	return ret(st, r)
}

func (ex *Exec) elems(st *State, s VSlice) []Val {
	if s.null == True {
		return nil
	}
	a, ok := st.load(s.loc).(VArr)
	lo, k1 := s.off.constInt()
	n, k2 := s.len.constInt()
	if !ok || !k1 || !k2 {
		unsup("elements of a symbolic slice")
	}
	return a.e[lo : lo+n]
}

var errCounter int64 = 1000

func (v *Verifier) errID() int64 { return atomic.AddInt64(&errCounter, 1) }

func sortedStr(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
