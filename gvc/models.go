package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions whose effect on abstract state is easier to
// give as code than as a contract. They are assumptions, reported as such.

type call struct {
	ex   *Exec
	st   *State
	args []Val
	pos  token.Pos
	name string
	sig  *types.Signature
	fn   *ssa.Function
}

var models map[string]func(*call) []outcome

var nilErr = VIface{id: I(0)}
var eofErr = VIface{id: I(1)}

func (c *call) newErr() VIface { return VIface{id: I(c.ex.v.errID())} }

// ioErr is a failure of the outside world: neither nil nor io.EOF.
func (c *call) ioErr(st *State) VIface {
	e := Fresh("ioerr", SInt)
	setRange(e, ivl{lo: bi(4)})
	st.ghost["failed"] = True
	return VIface{id: e}
}

func (c *call) str(i int) *Term {
	switch x := c.args[i].(type) {
	case *Term:
		return x
	case VSlice:
		return c.st.bytesOf(x)
	}
	unsup("%s: argument %d is a %T", c.name, i, c.args[i])
	return nil
}

func (c *call) ptr(i int) VPtr {
	p, ok := c.args[i].(VPtr)
	if !ok {
		unsup("%s: argument %d is a %T", c.name, i, c.args[i])
	}
	if p.nul {
		c.ex.check(c.st, "nil pointer", False, c.ex.pos(c.pos))
	}
	return p
}

func (c *call) slice(i int) VSlice {
	s, ok := c.args[i].(VSlice)
	if !ok {
		unsup("%s: argument %d is a %T", c.name, i, c.args[i])
	}
	return s
}

// split forks on a condition; either state may be nil.
func (c *call) split(cond *Term) (yes, no *State) {
	if v, k := c.st.decide(cond); k {
		if v {
			return c.st, nil
		}
		return nil, c.st
	}
	a, b := c.st.clone(), c.st.clone()
	a.assume(cond)
	b.assume(Not(cond))
	okA, okB := c.ex.feasible2(a, b)
	if !okA {
		a = nil
	}
	if !okB {
		b = nil
	}
	return a, b
}

func (st *State) setBytes(d VSlice, x *Term) {
	if d.null == True || SeqLen(x) == I(0) {
		return
	}
	if st.shared[d.loc.obj] != nil {
		unsup("write into a possibly shared append buffer")
	}
	old, ok := st.load(d.loc).(*Term)
	if !ok {
		unsup("bytes of a non-byte slice")
	}
	st.store(d.loc, splice(old, d.off, x))
}

func (st *State) bytesPtr(p VPtr) *Term {
	t, ok := st.load(p.loc).(*Term)
	if !ok {
		unsup("byte array expected")
	}
	return t
}

func one_(st *State, vs ...Val) outcome { return outcome{st: st, ret: vs} }

var nilSlice = VSlice{off: I(0), len: I(0), cap: I(0), null: True, elem: types.Typ[types.Byte]}

// ---------- files ----------

func fsOf(st *State) *Term   { return st.ghost["fs"].(*Term) }
func permOf(st *State) *Term { return st.ghost["perm"].(*Term) }

func readable(p *Term) *Term { return App("readable", SBool, -1, p) }

func mReadFile(c *call) []outcome {
	p := c.str(0)
	var outs []outcome
	if st, bad := c.split(readable(p)); true {
		if st != nil {
			outs = append(outs, one_(st, c.ex.newBytes(st, Sel(fsOf(st), p), "file"), nilErr))
		}
		if bad != nil {
			outs = append(outs, one_(bad, nilSlice, c.ioErr(bad)))
		}
	}
	return outs
}

func mWriteFile(c *call) []outcome {
	p, d, m := c.str(0), c.str(1), c.args[2].(*Term)
	bad := c.st.clone()
	write := func(st *State, x *Term) {
		st.ghost["fs"] = Store(fsOf(st), p, x)
		st.ghost["perm"] = Store(permOf(st), p, beSeq(m, 4))
	}
	write(c.st, d)
	write(bad, Fresh("partial", SSeq))
	return []outcome{one_(c.st, nilErr), one_(bad, c.ioErr(bad))}
}

func (c *call) openFile(p *Term, mode string, create bool, perm *Term) []outcome {
	rt := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
	mkf := func(st *State) VPtr {
		o := c.ex.newObj("file", rt)
		st.fresh[o] = true
		g := VGhost{"file", map[string]Val{"path": p, "in": Sel(fsOf(st), p), "closed": False}}
		if mode == "w" {
			g.f["wr"] = True
		} else {
			g.f["wr"] = False
		}
		st.heap[o] = g
		return VPtr{loc: Loc{o, ""}, typ: rt}
	}
	if !create {
		var outs []outcome
		a, b := c.split(readable(p))
		if a != nil {
			outs = append(outs, one_(a, mkf(a), nilErr))
		}
		if b != nil {
			outs = append(outs, one_(b, VPtr{nul: true, typ: rt}, c.ioErr(b)))
		}
		return outs
	}
	bad := c.st.clone()
	st := c.st
	st.ghost["fs"] = Store(fsOf(st), p, emptySeq)
	st.ghost["perm"] = Store(permOf(st), p, beSeq(perm, 4))
	return []outcome{one_(st, mkf(st), nilErr), one_(bad, VPtr{nul: true, typ: rt}, c.ioErr(bad))}
}

func mOpenFile(c *call) []outcome {
	f, ok := c.args[1].(*Term).constInt()
	if !ok {
		unsup("os.OpenFile with variable flags")
	}
	const wr, rdwr, creat, trunc, app = 1, 2, 0x40, 0x200, 0x400
	switch {
	case f&(wr|rdwr) == 0 && f&(creat|trunc) == 0:
		return c.openFile(c.str(0), "r", false, nil)
	case f&(wr|rdwr) != 0 && f&creat != 0 && f&trunc != 0 && f&app == 0:
		return c.openFile(c.str(0), "w", true, c.args[2].(*Term))
	}
	unsup("os.OpenFile flags %#x", f)
	return nil
}

func (c *call) ghostPtr(i int) (VPtr, VGhost) {
	p := c.ptr(i)
	if c.st.dead || p.nul {
		return p, VGhost{"nil", nil}
	}
	g, ok := c.st.load(p.loc).(VGhost)
	if !ok {
		unsup("%s on %T", c.name, c.st.load(p.loc))
	}
	return p, g
}

func mFileRead(c *call) []outcome {
	p, g := c.ghostPtr(0)
	if c.st.dead {
		return nil
	}
	if g.kind != "file" {
		unsup("read of %s", g.kind)
	}
	if g.f["closed"] != False {
		return []outcome{one_(c.st, I(0), c.newErr())}
	}
	return c.readStream(c.slice(1), g.t("in"), func(st *State, rest *Term) {
		st.store(p.loc, st.load(p.loc).(VGhost).with("in", rest))
	}, false)
}

// readStream: any number of bytes between 1 and min(len(p), available), the
// end of the data, or an error. A reader may also return 0 bytes without
// an error or data together with io.EOF when lax is set.
func (c *call) readStream(d VSlice, in *Term, set func(st *State, rest *Term), lax bool) []outcome {
	var outs []outcome
	bad := c.st.clone()
	bn := Fresh("nread", SInt)
	setRange(bn, ivl{bi(0), maxLen})
	bad.assume(Le(bn, d.len))
	bad.assume(Le(bn, SeqLen(in)))
	{
		x := c
		x2 := *x
		x2.st = bad
		bad.setBytes(d, SeqSub(in, I(0), bn))
		set(bad, SeqSub(in, bn, SeqLen(in)))
		outs = append(outs, one_(bad, bn, x2.ioErr(bad)))
	}
	cond := Eq(d.len, I(0))
	z, st := c.split(cond)
	if z != nil {
		outs = append(outs, one_(z, I(0), nilErr))
	}
	if st == nil {
		return outs
	}
	c2 := *c
	c2.st = st
	e, st := c2.split(Eq(SeqLen(in), I(0)))
	if e != nil {
		outs = append(outs, one_(e, I(0), eofErr))
	}
	if st == nil {
		return outs
	}
	lo := int64(1)
	if lax {
		lo = 0
	}
	n := Fresh("nread", SInt)
	setRange(n, ivl{bi(lo), maxLen})
	if d.len == I(1) && !lax {
		n = I(1)
	}
	st.assume(Le(n, d.len))
	st.assume(Le(n, SeqLen(in)))
	st.setBytes(d, SeqSub(in, I(0), n))
	set(st, SeqSub(in, n, SeqLen(in)))
	outs = append(outs, one_(st, n, nilErr))
	if lax { // the last bytes together with io.EOF
		e := st.clone()
		e.assume(Eq(n, SeqLen(in)))
		if c.ex.feasible(e) {
			outs = append(outs, one_(e, n, eofErr))
		}
	}
	return outs
}

func (c *call) fileWrite(p VPtr, g VGhost, x *Term) []outcome {
	if g.kind == "std" {
		name := p.loc.obj.name
		return c.stdWrite(name, x)
	}
	if g.kind != "file" {
		unsup("write to %s", g.kind)
	}
	if g.f["wr"] != True || g.f["closed"] != False {
		return []outcome{one_(c.st, I(0), c.newErr())}
	}
	path := g.t("path")
	bad := c.st.clone()
	n := Fresh("nwritten", SInt)
	setRange(n, ivl{bi(0), maxLen})
	bad.assume(Le(n, SeqLen(x)))
	bad.ghost["fs"] = Store(fsOf(bad), path, Cat(Sel(fsOf(bad), path), SeqSub(x, I(0), n)))
	c.st.ghost["fs"] = Store(fsOf(c.st), path, Cat(Sel(fsOf(c.st), path), x))
	return []outcome{one_(c.st, SeqLen(x), nilErr), one_(bad, n, c.ioErr(bad))}
}

func (c *call) stdWrite(name string, x *Term) []outcome {
	if _, ok := c.st.ghost[name]; !ok {
		unsup("write to %s", name)
	}
	c.st.ghost[name] = Cat(c.st.ghost[name].(*Term), x)
	return []outcome{one_(c.st, SeqLen(x), nilErr)}
}

func mFileClose(c *call) []outcome {
	p, g := c.ghostPtr(0)
	if c.st.dead {
		return nil
	}
	if g.kind != "file" {
		unsup("close of %s", g.kind)
	}
	if g.f["closed"] != False {
		return []outcome{one_(c.st, c.newErr())}
	}
	bad := c.st.clone()
	for _, s := range []*State{c.st, bad} {
		s.store(p.loc, s.load(p.loc).(VGhost).with("closed", True))
	}
	if g.f["wr"] != True { // nothing is lost
		e := Fresh("closeerr", SInt)
		setRange(e, ivl{lo: bi(4)})
		return []outcome{one_(c.st, nilErr), one_(bad, VIface{id: e})}
	}
	return []outcome{one_(c.st, nilErr), one_(bad, c.ioErr(bad))}
}

func mFileSync(c *call) []outcome {
	bad := c.st.clone()
	return []outcome{one_(c.st, nilErr), one_(bad, c.ioErr(bad))}
}

func mFileStat(c *call) []outcome {
	_, g := c.ghostPtr(0)
	if c.st.dead {
		return nil
	}
	if g.kind != "file" {
		unsup("stat of %s", g.kind)
	}
	o := c.ex.newObj("fileinfo", nil)
	o.ghost = "fileinfo"
	bad := c.st.clone()
	c.st.heap[o] = VGhost{"fileinfo", map[string]Val{"size": SeqLen(Sel(fsOf(c.st), g.t("path")))}}
	return []outcome{one_(c.st, VIface{id: I(1), abs: o}, nilErr), one_(bad, VIface{id: I(0)}, c.ioErr(bad))}
}

func mChmod(c *call) []outcome {
	p, g := c.ghostPtr(0)
	_ = p
	bad := c.st.clone()
	c.st.ghost["perm"] = Store(permOf(c.st), g.t("path"), beSeq(c.args[1].(*Term), 4))
	return []outcome{one_(c.st, nilErr), one_(bad, c.ioErr(bad))}
}

// ---------- streams in general ----------

// write x to a writer value
func (c *call) writeTo(w Val, x VSlice) []outcome {
	i, ok := w.(VIface)
	if !ok {
		unsup("writer %T", w)
	}
	m := types.NewFunc(0, nil, "Write", types.NewSignatureType(nil, nil, nil, nil, nil, false))
	return c.ex.invokeNamed(c.st, i, m, []Val{x}, c.pos)
}

func (ex *Exec) invokeNamed(st *State, r VIface, m *types.Func, args []Val, pos token.Pos) []outcome {
	if r.typ != nil {
		ms := ex.v.prog.MethodSets.MethodSet(r.typ)
		sel := ms.Lookup(nil, m.Name())
		if sel == nil {
			unsup("method %s of %s", m.Name(), r.typ)
		}
		fn := ex.v.prog.MethodValue(sel)
		return ex.callFn(st, fn, append([]Val{r.v}, args...), nil, pos)
	}
	return ex.invoke(st, r, m, args, pos)
}

func mAbsWrite(c *call) []outcome {
	r := c.args[0].(VIface)
	x := c.str(1)
	bad := c.st.clone()
	n := Fresh("nwritten", SInt)
	setRange(n, ivl{bi(0), maxLen})
	bad.assume(Le(n, SeqLen(x)))
	upd := func(st *State, y *Term) {
		g := st.heap[r.abs].(VGhost)
		st.heap[r.abs] = g.with("out", Cat(g.t("out"), y))
	}
	upd(c.st, x)
	upd(bad, SeqSub(x, I(0), n))
	return []outcome{one_(c.st, SeqLen(x), nilErr), one_(bad, n, c.ioErr(bad))}
}

func mAbsRead(c *call) []outcome {
	r := c.args[0].(VIface)
	g := c.st.heap[r.abs].(VGhost)
	return c.readStream(c.slice(1), g.t("in"), func(st *State, rest *Term) {
		st.heap[r.abs] = st.heap[r.abs].(VGhost).with("in", rest)
	}, true)
}

// mReadFull: exact semantics over the abstract contents of a stream.
func mReadFull(c *call) []outcome {
	r, ok := c.args[0].(VIface)
	if !ok {
		unsup("io.ReadFull from %T", c.args[0])
	}
	d := c.slice(1)
	if r.abs != nil && r.abs.ghost == "rand" {
		return mRandRead(&call{ex: c.ex, st: c.st, args: []Val{d}, pos: c.pos, name: c.name, sig: c.sig})
	}
	in, msg := c.ex.streamVal(c.st, r, "in")
	if msg != "" {
		unsup("io.ReadFull from %s", msg)
	}
	set := c.streamSetter(r)
	var outs []outcome
	if r.abs != nil || isFile(r) { // the source may fail
		bad := c.st.clone()
		bn := Fresh("nread", SInt)
		setRange(bn, ivl{bi(0), maxLen})
		bad.assume(Le(bn, d.len))
		bad.assume(Le(bn, SeqLen(in)))
		bad.setBytes(d, SeqSub(in, I(0), bn))
		set(bad, SeqSub(in, bn, SeqLen(in)))
		outs = append(outs, one_(bad, bn, c.ioErr(bad)))
	}
	full, short := c.split(Le(d.len, SeqLen(in)))
	if full != nil {
		full.setBytes(d, SeqSub(in, I(0), d.len))
		set(full, SeqSub(in, d.len, SeqLen(in)))
		outs = append(outs, one_(full, d.len, nilErr))
	}
	if short != nil {
		c2 := *c
		c2.st = short
		e, some := c2.split(Eq(SeqLen(in), I(0)))
		if e != nil {
			outs = append(outs, one_(e, I(0), eofErr))
		}
		if some != nil {
			some.setBytes(d, in)
			set(some, emptySeq)
			outs = append(outs, one_(some, SeqLen(in), VIface{id: I(2)}))
		}
	}
	return outs
}

func isFile(r VIface) bool {
	p, ok := r.v.(VPtr)
	return ok && typeName(p.typ) == "os.File"
}

func (c *call) streamSetter(r VIface) func(st *State, rest *Term) {
	if r.abs != nil {
		return func(st *State, rest *Term) { st.heap[r.abs] = st.heap[r.abs].(VGhost).with("in", rest) }
	}
	p, ok := r.v.(VPtr)
	if !ok {
		unsup("stream %T", r.v)
	}
	if g, ok := c.st.load(p.loc).(VGhost); ok {
		f := "in"
		if g.kind == "buffer" {
			f = "buf"
		}
		return func(st *State, rest *Term) { st.store(p.loc, st.load(p.loc).(VGhost).with(f, rest)) }
	}
	unsup("%s over %s", c.name, p.typ)
	return nil
}

func mReadAll(c *call) []outcome {
	r, ok := c.args[0].(VIface)
	if !ok {
		unsup("io.ReadAll from %T", c.args[0])
	}
	in, msg := c.ex.streamVal(c.st, r, "in")
	if msg != "" {
		unsup("io.ReadAll from %s", msg)
	}
	set := c.streamSetter(r)
	bad := c.st.clone()
	set(c.st, emptySeq)
	outs := []outcome{one_(c.st, c.ex.newBytes(c.st, in, "readall"), nilErr)}
	if r.abs != nil || isFile(r) {
		n := Fresh("nread", SInt)
		setRange(n, ivl{bi(0), maxLen})
		bad.assume(Le(n, SeqLen(in)))
		set(bad, SeqSub(in, n, SeqLen(in)))
		outs = append(outs, one_(bad, c.ex.newBytes(bad, SeqSub(in, I(0), n), "readall"), c.ioErr(bad)))
	}
	return outs
}

// ---------- bytes.Buffer and friends ----------

func (c *call) newBuffer(content *Term) []outcome {
	t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
	o := c.ex.newObj("buffer", t)
	c.st.fresh[o] = true
	c.st.heap[o] = VGhost{"buffer", map[string]Val{"buf": content}}
	return ret(c.st, VPtr{loc: Loc{o, ""}, typ: t})
}

func (c *call) bufSet(p VPtr, x *Term) {
	c.st.store(p.loc, c.st.load(p.loc).(VGhost).with("buf", x))
}

func mBufWrite(c *call) []outcome {
	p, g := c.ghostPtr(0)
	if c.st.dead {
		return nil
	}
	x := c.str(1)
	c.bufSet(p, Cat(g.t("buf"), x))
	return ret(c.st, SeqLen(x), nilErr)
}

func mBufWriteByte(c *call) []outcome {
	p, g := c.ghostPtr(0)
	if c.st.dead {
		return nil
	}
	c.bufSet(p, Cat(g.t("buf"), Lit(c.args[1].(*Term))))
	return ret(c.st, nilErr)
}

func mBufRead(c *call) []outcome {
	p, g := c.ghostPtr(0)
	if c.st.dead {
		return nil
	}
	d := c.slice(1)
	in := g.t("buf")
	set := func(st *State, r *Term) { st.store(p.loc, st.load(p.loc).(VGhost).with("buf", r)) }
	var outs []outcome
	e, st := c.split(Eq(SeqLen(in), I(0)))
	if e != nil {
		c2 := *c
		c2.st = e
		a, b := c2.split(Eq(d.len, I(0)))
		if a != nil {
			outs = append(outs, one_(a, I(0), nilErr))
		}
		if b != nil {
			outs = append(outs, one_(b, I(0), eofErr))
		}
	}
	if st != nil {
		c2 := *c
		c2.st = st
		a, b := c2.split(Le(d.len, SeqLen(in)))
		if a != nil {
			a.setBytes(d, SeqSub(in, I(0), d.len))
			set(a, SeqSub(in, d.len, SeqLen(in)))
			outs = append(outs, one_(a, d.len, nilErr))
		}
		if b != nil {
			b.setBytes(d, in)
			set(b, emptySeq)
			outs = append(outs, one_(b, SeqLen(in), nilErr))
		}
	}
	return outs
}

func mBufReadByte(c *call) []outcome {
	p, g := c.ghostPtr(0)
	if c.st.dead {
		return nil
	}
	in := g.t("buf")
	e, st := c.split(Eq(SeqLen(in), I(0)))
	var outs []outcome
	if e != nil {
		outs = append(outs, one_(e, I(0), eofErr))
	}
	if st != nil {
		st.store(p.loc, g.with("buf", SeqSub(in, I(1), SeqLen(in))))
		outs = append(outs, one_(st, At(in, I(0)), nilErr))
	}
	return outs
}

func mBufNext(c *call) []outcome {
	p, g := c.ghostPtr(0)
	if c.st.dead {
		return nil
	}
	in := g.t("buf")
	n := c.args[1].(*Term)
	var outs []outcome
	a, b := c.split(Le(n, SeqLen(in)))
	if a != nil {
		a.store(p.loc, g.with("buf", SeqSub(in, n, SeqLen(in))))
		outs = append(outs, one_(a, c.ex.newBytes(a, SeqSub(in, I(0), n), "next")))
	}
	if b != nil {
		b.store(p.loc, g.with("buf", emptySeq))
		outs = append(outs, one_(b, c.ex.newBytes(b, in, "next")))
	}
	return outs
}

// ---------- bufio.Scanner ----------

func mNewScanner(c *call) []outcome {
	r, ok := c.args[0].(VIface)
	if !ok {
		unsup("scanner over %T", c.args[0])
	}
	p, isP := r.v.(VPtr)
	if !isP || r.typ == nil {
		unsup("scanner over an abstract reader")
	}
	g, ok := c.st.load(p.loc).(VGhost)
	if !ok || g.kind != "buffer" {
		unsup("scanner over %s", p.typ)
	}
	in := g.t("buf")
	c.st.store(p.loc, g.with("buf", Fresh("consumed", SSeq)))
	t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
	o := c.ex.newObj("scanner", t)
	c.st.fresh[o] = true
	c.st.heap[o] = VGhost{"scanner", map[string]Val{"rest": in, "tok": emptySeq}}
	return ret(c.st, VPtr{loc: Loc{o, ""}, typ: t})
}

func mScan(c *call) []outcome {
	p, g := c.ghostPtr(0)
	if c.st.dead {
		return nil
	}
	in := g.t("rest")
	has := App("hasLine", SBool, -1, in)
	var outs []outcome
	a, b := c.split(has)
	if a != nil {
		a.store(p.loc, g.with("tok", App("line", SSeq, -1, in)).with("rest", App("afterLine", SSeq, -1, in)))
		outs = append(outs, one_(a, True))
	}
	if b != nil {
		b.store(p.loc, g.with("tok", emptySeq))
		outs = append(outs, one_(b, False))
	}
	return outs
}

// ---------- base64 ----------

func (c *call) b64() string {
	p := c.ptr(0)
	switch n := p.loc.obj.name; n {
	case "encoding/base64.StdEncoding":
		return ""
	default:
		return "_" + n
	}
}

func encodedLen(n *Term) *Term { return MulC(Div(Add(n, I(2)), bi(3)), bi(4)) }

func mB64Encode(c *call) []outcome {
	v := c.b64()
	d, x := c.slice(1), c.str(2)
	n := encodedLen(SeqLen(x))
	c.ex.check(c.st, "base64 output buffer too short", Le(n, d.len), c.ex.pos(c.pos))
	if c.st.dead {
		return nil
	}
	e := b64enc(c.st, v, x)
	c.st.assume(Eq(SeqLen(e), n))
	old, ok := c.st.load(d.loc).(*Term)
	if d.null == True || !ok {
		return ret(c.st)
	}
	if c.st.shared[d.loc.obj] != nil {
		unsup("write into a possibly shared append buffer")
	}
	if v, k := c.st.decide(Eq(n, SeqLen(old))); k && v {
		c.st.store(d.loc, e)
		return ret(c.st)
	}
	c.st.store(d.loc, Cat(SeqSub(old, I(0), d.off), e, SeqSub(old, Add(d.off, n), SeqLen(old))))
	return ret(c.st)
}

func b64enc(st *State, v string, x *Term) *Term {
	n := -1
	if k, ok := constLen(x); ok {
		n = (k + 2) / 3 * 4
	}
	e := App("b64enc"+v, SSeq, -1, x)
	_ = n
	return e
}

func mB64Decode(c *call) []outcome {
	v := c.b64()
	d, x := c.slice(1), c.str(2)
	c.ex.check(c.st, "base64 output buffer too short", Le(MulC(Div(SeqLen(x), bi(4)), bi(3)), d.len), c.ex.pos(c.pos))
	if c.st.dead {
		return nil
	}
	good, bad := c.split(App("b64ok"+v, SBool, -1, x))
	var outs []outcome
	if good != nil {
		r := App("b64dec"+v, SSeq, -1, x)
		good.assume(Le(SeqLen(r), d.len))
		if d.null != True {
			old := good.load(d.loc).(*Term)
			good.store(d.loc, Cat(SeqSub(old, I(0), d.off), r, SeqSub(old, Add(d.off, SeqLen(r)), SeqLen(old))))
		}
		outs = append(outs, one_(good, SeqLen(r), nilErr))
	}
	if bad != nil {
		n := Fresh("ndec", SInt)
		setRange(n, ivl{bi(0), maxLen})
		bad.assume(Le(n, d.len))
		if d.null != True {
			g := Fresh("garbage", SSeq)
			bad.assume(Eq(SeqLen(g), d.len))
			bad.setBytes(d, g)
		}
		outs = append(outs, one_(bad, n, c.newErr()))
	}
	return outs
}

func mB64DecodeString(c *call) []outcome {
	v := c.b64()
	x := c.str(1)
	good, bad := c.split(App("b64ok"+v, SBool, -1, x))
	var outs []outcome
	if good != nil {
		outs = append(outs, one_(good, c.ex.newBytes(good, App("b64dec"+v, SSeq, -1, x), "decoded"), nilErr))
	}
	if bad != nil {
		outs = append(outs, one_(bad, c.ex.newBytes(bad, Fresh("garbage", SSeq), "decoded"), c.newErr()))
	}
	return outs
}

// ---------- encoding/binary ----------

func endianBytes(x *Term, k int, little bool) *Term {
	if little {
		return leSeq(x, k)
	}
	return beSeq(x, k)
}

func mPut(k int, little bool) func(c *call) []outcome {
	return func(c *call) []outcome {
		d := c.slice(1)
		c.ex.check(c.st, "index out of range", Le(I(int64(k)), d.len), c.ex.pos(c.pos))
		if c.st.dead {
			return nil
		}
		c.st.setBytes(d, endianBytes(c.args[2].(*Term), k, little))
		return ret(c.st)
	}
}

func mAppendInt(k int, little bool) func(c *call) []outcome {
	return func(c *call) []outcome {
		x := Cat(c.str(1), endianBytes(c.args[2].(*Term), k, little))
		return ret(c.st, c.ex.newBytes(c.st, x, "append"))
	}
}

func mGet(k int, little bool) func(c *call) []outcome {
	return func(c *call) []outcome {
		d := c.slice(1)
		c.ex.check(c.st, "index out of range", Le(I(int64(k)), d.len), c.ex.pos(c.pos))
		if c.st.dead {
			return nil
		}
		b := SeqSub(c.st.bytesOf(d), I(0), I(int64(k)))
		return ret(c.st, intOf(b, k, little))
	}
}

func intOf(b *Term, k int, little bool) *Term {
	x := make([]*Term, k)
	for i := range x {
		j := i
		if little {
			j = k - 1 - i
		}
		x[i] = At(b, I(int64(j)))
	}
	return beVal(x)
}

func (c *call) order(i int) bool { // little-endian?
	o := c.args[i].(VIface)
	n := typeName(o.typ)
	switch {
	case strings.HasSuffix(n, "bigEndian"):
		return false
	case strings.HasSuffix(n, "littleEndian"):
		return true
	}
	unsup("byte order %s", n)
	return false
}

func mBinaryWrite(c *call) []outcome {
	little := c.order(1)
	d := c.args[2].(VIface)
	var x *Term
	v, t := d.v, d.typ
	if p, ok := v.(VPtr); ok && !p.nul {
		v, t = c.st.load(p.loc), p.typ
	}
	switch y := v.(type) {
	case *Term:
		if b, _, ok := intType(t); ok {
			x = endianBytes(y, int(b/8), little)
		} else if a, ok := t.Underlying().(*types.Array); ok && isByte(a.Elem()) {
			x = y
		}
	case VSlice:
		if isByte(y.elem) {
			x = c.st.bytesOf(y)
		}
	}
	if x == nil {
		unsup("binary.Write of %s", t)
	}
	var outs []outcome
	for _, o := range c.writeTo(c.args[0], c.ex.newBytes(c.st, x, "binary")) {
		outs = append(outs, one_(o.st, o.ret[1]))
	}
	return outs
}

func mBinaryRead(c *call) []outcome {
	little := c.order(1)
	d := c.args[2].(VIface)
	p, ok := d.v.(VPtr)
	if !ok || p.nul {
		unsup("binary.Read into %s", d.typ)
	}
	k := 0
	b, signed, isInt := intType(p.typ)
	if isInt {
		k = int(b / 8)
	} else if a, ok := p.typ.Underlying().(*types.Array); ok && isByte(a.Elem()) {
		k = int(a.Len())
	} else {
		unsup("binary.Read into %s", p.typ)
	}
	tmp := c.ex.newBytes(c.st, Rep(I(0), I(int64(k))), "binary")
	tmp.cap = tmp.len
	c2 := *c
	c2.args = []Val{c.args[0], tmp}
	var outs []outcome
	for _, o := range mReadFull(&c2) {
		e := o.ret[1].(VIface)
		if e.id == I(0) {
			bs := o.st.bytesOf(tmp)
			if isInt {
				v := intOf(bs, k, little)
				if signed {
					v = c.ex.wrapBits(o.st, v, b, true)
				}
				o.st.store(p.loc, v)
			} else {
				o.st.store(p.loc, bs)
			}
		}
		outs = append(outs, one_(o.st, e))
	}
	return outs
}

// ---------- randomness and passphrases ----------

func mRandRead(c *call) []outcome {
	d := c.slice(len(c.args) - 1)
	if len(c.args) == 2 {
		if r, ok := c.args[0].(VIface); !ok || r.abs == nil || r.abs.ghost != "rand" {
			unsup("random bytes from %T", c.args[0])
		}
	}
	bad := c.st.clone()
	n, ok := c.st.simpInt(d.len).constInt()
	if !ok {
		unsup("random read of variable length")
	}
	r := FreshSeqN("random", int(n))
	c.st.setBytes(d, r)
	c.st.draws = append(c.st.draws, r)
	e := Fresh("randerr", SInt)
	setRange(e, ivl{lo: bi(4)})
	bad.ghost["randbad"] = True
	if d.null != True {
		g := FreshSeqN("randpart", int(n))
		bad.setBytes(d, g)
	}
	return []outcome{one_(c.st, I(n), nilErr), one_(bad, I(0), VIface{id: e})}
}

func mPrompt(c *call) []outcome {
	confirm := c.args[0].(*Term)
	n := c.st.ghost["prompts"].(*Term)
	bad := c.st.clone()
	for _, s := range []*State{c.st, bad} {
		s.ghost["prompts"] = Add(n, I(1))
		s.ghost["confirmed"] = confirm
	}
	pw := Fresh("passphrase", SSeq)
	r := c.ex.newBytes(c.st, pw, "passphrase")
	c.st.ghost["pw"] = pw
	c.st.wipe = append(c.st.wipe, wipeObj{r.loc.obj, SeqLen(pw)})
	c.st.events = append(c.st.events, Event{kind: "prompt", args: []*Term{confirm}})
	e := Fresh("prompterr", SInt)
	setRange(e, ivl{lo: bi(1)})
	bad.ghost["promptbad"] = True
	bad.events = append(bad.events, Event{kind: "prompt", args: []*Term{confirm}})
	return []outcome{one_(c.st, r, nilErr), one_(bad, nilSlice, VIface{id: e})}
}

func mReadPassword(c *call) []outcome {
	pos := c.st.ghost["ttypos"].(*Term)
	bad := c.st.clone()
	c.st.ghost["ttypos"] = Add(pos, I(1))
	r := c.ex.newBytes(c.st, App("typed", SSeq, -1, pos), "typed")
	e := Fresh("ttyerr", SInt)
	setRange(e, ivl{lo: bi(1)})
	bad.ghost["promptbad"] = True
	return []outcome{one_(c.st, r, nilErr), one_(bad, nilSlice, VIface{id: e})}
}

// ---------- strings ----------

func hasPrefix(s, p *Term) *Term {
	return And(Le(SeqLen(p), SeqLen(s)), Eq(SeqSub(s, I(0), SeqLen(p)), p))
}
func hasSuffix(s, p *Term) *Term {
	return And(Le(SeqLen(p), SeqLen(s)), Eq(SeqSub(s, Sub(SeqLen(s), SeqLen(p)), SeqLen(s)), p))
}

func mTrimPrefix(c *call) []outcome {
	s, p := c.str(0), c.str(1)
	h := App("hasPrefix", SBool, -1, s, p)
	return ret(c.st, c.ex.pick(c.st, h, SeqSub(s, SeqLen(p), SeqLen(s)), s))
}
func mTrimSuffix(c *call) []outcome {
	s, p := c.str(0), c.str(1)
	return ret(c.st, App("trimSuffix", SSeq, -1, s, p))
}

func uf(name string, s Sort, n int) func(c *call) []outcome {
	return func(c *call) []outcome {
		var as []*Term
		for i := range c.args {
			as = append(as, c.str(i))
		}
		return ret(c.st, App(name, s, n, as...))
	}
}

func (c *call) variadic(i int) []Val {
	s := c.slice(i)
	return c.ex.elems(c.st, s)
}

func mJoin(c *call) []outcome {
	var as []*Term
	for _, v := range c.variadic(0) {
		as = append(as, v.(*Term))
	}
	return ret(c.st, App(fmt.Sprintf("pathjoin%d", len(as)), SSeq, -1, as...))
}

// ---------- fmt ----------

func (c *call) format(f *Term, args []Val) *Term {
	bs, ok := expand(f, 4096)
	if !ok {
		return App("sprintf", SSeq, -1, f)
	}
	var out []*Term
	k := 0
	for i := 0; i < len(bs); i++ {
		b, isC := bs[i].constInt()
		if !isC || b != '%' || i+1 >= len(bs) {
			out = append(out, Lit(bs[i]))
			continue
		}
		i++
		v, _ := bs[i].constInt()
		switch v {
		case '%':
			out = append(out, StrLit("%"))
		case 's', 'd', 'v', 'q', 'x':
			if k >= len(args) {
				out = append(out, StrLit("%!"+string(rune(v))+"(MISSING)"))
				continue
			}
			out = append(out, c.show(args[k], rune(v)))
			k++
		default:
			unsup("format verb %%%c", rune(v))
		}
	}
	return Cat(out...)
}

func (c *call) show(v Val, verb rune) *Term {
	i, ok := v.(VIface)
	if !ok {
		unsup("format of %T", v)
	}
	if i.typ == nil {
		if i.abs != nil {
			return App("showobj", SSeq, -1, I(int64(i.abs.id)))
		}
		return App("errstr", SSeq, -1, i.id)
	}
	switch x := i.v.(type) {
	case *Term:
		if x.sort == SSeq && isString(i.typ) && (verb == 's' || verb == 'v') {
			return x
		}
		return App("show_"+x.sort.smt()+string(verb), SSeq, -1, x)
	case VIface:
		return c.show(x, verb)
	}
	return Fresh("shown", SSeq)
}

func (c *call) sprint(args []Val, ln bool) *Term {
	var out []*Term
	for k, a := range args {
		if k > 0 && ln {
			out = append(out, StrLit(" "))
		}
		out = append(out, c.show(a, 'v'))
	}
	if ln {
		out = append(out, StrLit("\n"))
	}
	return Cat(out...)
}

func mPrint(std bool, kind string) func(c *call) []outcome {
	return func(c *call) []outcome {
		i := 0
		var w Val
		if !std {
			w = c.args[0]
			i = 1
		}
		var t *Term
		switch kind {
		case "f":
			t = c.format(c.args[i].(*Term), c.variadic(i+1))
		case "ln":
			t = c.sprint(c.variadic(i), true)
		default:
			t = c.sprint(c.variadic(i), false)
		}
		if std {
			return c.stdWrite("stdout", t)
		}
		return c.writeTo(w, c.ex.newBytes(c.st, t, "fmt"))
	}
}

// ---------- flag, os ----------

type flagVar struct {
	p   VPtr
	def *Term
}

func mFlagVar(c *call) []outcome {
	p := c.ptr(0)
	name, ok := litString(c.str(1))
	if !ok {
		unsup("flag name")
	}
	def := c.args[2].(*Term)
	c.st.store(p.loc, def)
	c.st.ghost["flag:"+name] = VTuple{p, def}
	return ret(c.st)
}

func mFlagNew(c *call) []outcome {
	name, ok := litString(c.str(0))
	if !ok {
		unsup("flag name")
	}
	def := c.args[1].(*Term)
	t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
	o := c.ex.newObj("flag_"+name, t)
	c.st.fresh[o] = true
	c.st.heap[o] = def
	p := VPtr{loc: Loc{o, ""}, typ: t}
	c.st.ghost["flag:"+name] = VTuple{p, def}
	return ret(c.st, p)
}

func litString(t *Term) (string, bool) {
	bs, ok := expand(t, 256)
	if !ok {
		return "", false
	}
	var b []byte
	for _, x := range bs {
		n, ok := x.constInt()
		if !ok {
			return "", false
		}
		b = append(b, byte(n))
	}
	return string(b), true
}

func mFlagParse(c *call) []outcome {
	ok := c.st
	var outs []outcome
	for _, code := range []int64{2, 0} { // bad usage; -h
		st := ok.clone()
		st.ghost["help"] = B(code == 0)
		if code != 0 { // package flag reports what is wrong
			msg := Fresh("flag_error", SSeq)
			st.assume(Le(I(1), SeqLen(msg)))
			st.ghost["stderr"] = Cat(st.ghost["stderr"].(*Term), msg)
		}
		var g *Obj
		for o, x := range c.ex.v.gnames {
			if x.Pkg.Pkg.Path() == "flag" && x.Name() == "Usage" {
				g = o
			}
		}
		cur := []outcome{one_(st)}
		if g != nil {
			if f, is := st.heap[g].(VFunc); is && f.fn != nil {
				cur = c.ex.callFn(st, f.fn.(*ssa.Function), nil, f.bind, c.pos)
			} else {
				st.ghost["stderr"] = Cat(st.ghost["stderr"].(*Term), App("usage_text", SSeq, -1))
			}
		}
		for _, o := range cur {
			if o.kind == oRet {
				o.kind, o.code = oExit, I(code)
			}
			outs = append(outs, o)
		}
	}
	for _, k := range sortedKeys(ok.ghost) {
		if !strings.HasPrefix(k, "flag:") {
			continue
		}
		t := ok.ghost[k].(VTuple)
		def := t[1].(*Term)
		sym := flagSym(k[5:], def.sort)
		zero := False
		if def.sort == SSeq {
			zero = emptySeq
		} else if def.sort == SInt {
			zero = I(0)
		}
		val := sym
		if def != zero {
			val = Ite(App("flaggiven_"+k[5:], SBool, -1), sym, def)
		}
		ok.store(t[0].(VPtr).loc, val)
	}
	return append(outs, one_(ok))
}

func mExit(c *call) []outcome {
	return []outcome{{st: c.st, kind: oExit, code: c.args[0].(*Term)}}
}

func mNewError(c *call) []outcome { return ret(c.st, c.newErr()) }

// mOpaque records a call of a function that the unit treats as a black box.
func mOpaque(c *call) []outcome {
	st := c.st
	var ts []*Term
	vals := make([]Val, len(c.args))
	for i, a := range c.args {
		vals[i] = a
		if s, ok := a.(VSlice); ok && isByte(s.elem) {
			vals[i] = st.bytesOf(s)
		}
	}
	var rets []Val
	res := I(0)
	for i := 0; i < c.sig.Results().Len(); i++ {
		t := c.sig.Results().At(i).Type()
		if isErr(t) {
			res = Fresh("result", SInt)
			setRange(res, ivl{lo: bi(0)})
			rets = append(rets, VIface{id: res})
			continue
		}
		rets = append(rets, c.ex.freshVal(st, t, "opaque"))
	}
	st.events = append(st.events, Event{kind: "call", name: c.name, args: ts, vals: vals, res: res})
	return ret(st, rets...)
}

func mFlip(c *call) []outcome { // subtle.ConstantTimeCompare
	return ret(c.st, Ite(Eq(c.str(0), c.str(1)), I(1), I(0)))
}

func init() {
	models = map[string]func(*call) []outcome{
		"opaque":              mOpaque,
		"os.ReadFile":         mReadFile,
		"io/ioutil.ReadFile":  mReadFile,
		"os.WriteFile":        mWriteFile,
		"io/ioutil.WriteFile": mWriteFile,
		"os.Open":             func(c *call) []outcome { return c.openFile(c.str(0), "r", false, nil) },
		"os.Create":           func(c *call) []outcome { return c.openFile(c.str(0), "w", true, I(0666)) },
		"os.OpenFile":         mOpenFile,
		"(*os.File).Read":     mFileRead,
		"(*os.File).Write": func(c *call) []outcome {
			p, g := c.ghostPtr(0)
			if c.st.dead {
				return nil
			}
			return c.fileWrite(p, g, c.str(1))
		},
		"(*os.File).Close": mFileClose,
		"(*os.File).Sync":  mFileSync,
		"(*os.File).Stat":  mFileStat,
		"(*os.File).Chmod": mChmod,
		"(*os.File).Name": func(c *call) []outcome {
			_, g := c.ghostPtr(0)
			if t := g.t("path"); t != nil {
				return ret(c.st, t)
			}
			unsup("name of %s", g.kind)
			return nil
		},
		"abs.fileinfo.Size": func(c *call) []outcome {
			return ret(c.st, c.st.heap[c.args[0].(VIface).abs].(VGhost).f["size"])
		},
		"abs.writer.Write":         mAbsWrite,
		"abs.reader.Read":          mAbsRead,
		"io.ReadFull":              mReadFull,
		"io.ReadAll":               mReadAll,
		"io/ioutil.ReadAll":        mReadAll,
		"bytes.NewBuffer":          func(c *call) []outcome { return c.newBuffer(c.str(0)) },
		"bytes.NewBufferString":    func(c *call) []outcome { return c.newBuffer(c.str(0)) },
		"bytes.NewReader":          func(c *call) []outcome { return c.newBuffer(c.str(0)) },
		"strings.NewReader":        func(c *call) []outcome { return c.newBuffer(c.str(0)) },
		"(*bytes.Buffer).Write":    mBufWrite,
		"(*strings.Builder).Write": mBufWrite,
		"(*bytes.Buffer).Read":     mBufRead,
		"(*bytes.Reader).Read":     mBufRead,
		"(*strings.Reader).Read":   mBufRead,
		"(*bytes.Buffer).ReadByte": mBufReadByte,
		"(*bytes.Reader).ReadByte": mBufReadByte,
		"(*bytes.Buffer).Next":     mBufNext,
		"bufio.NewScanner":         mNewScanner,
		"(*bufio.Scanner).Scan":    mScan,
		"(*bufio.Scanner).Text": func(c *call) []outcome {
			_, g := c.ghostPtr(0)
			return ret(c.st, g.f["tok"])
		},
		"(*bufio.Scanner).Bytes": func(c *call) []outcome {
			_, g := c.ghostPtr(0)
			return ret(c.st, c.ex.newBytes(c.st, g.t("tok"), "tok"))
		},
		"(*bufio.Scanner).Err": func(c *call) []outcome {
			e := Fresh("scanerr", SInt)
			setRange(e, ivl{lo: bi(0)})
			return ret(c.st, VIface{id: e})
		},
		"(*encoding/base64.Encoding).EncodedLen": func(c *call) []outcome {
			c.b64()
			return ret(c.st, encodedLen(c.args[1].(*Term)))
		},
		"(*encoding/base64.Encoding).DecodedLen": func(c *call) []outcome {
			c.b64()
			return ret(c.st, MulC(Div(c.args[1].(*Term), bi(4)), bi(3)))
		},
		"(*encoding/base64.Encoding).Encode": mB64Encode,
		"(*encoding/base64.Encoding).EncodeToString": func(c *call) []outcome {
			return ret(c.st, b64enc(c.st, c.b64(), c.str(1)))
		},
		"(*encoding/base64.Encoding).Decode":            mB64Decode,
		"(*encoding/base64.Encoding).DecodeString":      mB64DecodeString,
		"encoding/binary.Write":                         mBinaryWrite,
		"encoding/binary.Read":                          mBinaryRead,
		"crypto/rand.Read":                              mRandRead,
		"abs.rand.Read":                                 mRandRead,
		"func:signify.PassphrasePrompt":                 mPrompt,
		"golang.org/x/crypto/ssh/terminal.ReadPassword": mReadPassword,
		"golang.org/x/term.ReadPassword":                mReadPassword,
		"bytes.Equal":                                   func(c *call) []outcome { return ret(c.st, Eq(c.str(0), c.str(1))) },
		"bytes.Compare": func(c *call) []outcome {
			o := Fresh("order", SInt)
			setRange(o, ivl{bi(-1), bi(1)})
			c.st.assume(Not(Eq(o, I(0))))
			return ret(c.st, Ite(Eq(c.str(0), c.str(1)), I(0), o))
		},
		"crypto/subtle.ConstantTimeCompare": mFlip,
		"strings.HasPrefix":                 uf("hasPrefix", SBool, -1),
		"bytes.HasPrefix":                   uf("hasPrefix", SBool, -1),
		"strings.HasSuffix":                 uf("hasSuffix", SBool, -1),
		"strings.TrimPrefix":                mTrimPrefix,
		"strings.TrimSuffix":                mTrimSuffix,
		"strings.ReplaceAll":                uf("replaceAll", SSeq, -1),
		"strings.Replace": func(c *call) []outcome {
			n := c.args[3].(*Term)
			if v, k := c.st.decide(Lt(n, I(0))); k && v {
				c2 := *c
				c2.args = c.args[:3]
				return uf("replaceAll", SSeq, -1)(&c2)
			}
			return ret(c.st, App("replaceN", SSeq, -1, c.str(0), c.str(1), c.str(2), n))
		},
		"path/filepath.Base": uf("basename", SSeq, -1),
		"path/filepath.Join": mJoin,
		"path/filepath.Ext":  uf("pathext", SSeq, -1),
		"errors.New":         mNewError,
		"fmt.Errorf":         mNewError,
		"fmt.Printf":         mPrint(true, "f"),
		"fmt.Println":        mPrint(true, "ln"),
		"fmt.Print":          mPrint(true, ""),
		"fmt.Fprintf":        mPrint(false, "f"),
		"fmt.Fprintln":       mPrint(false, "ln"),
		"fmt.Fprint":         mPrint(false, ""),
		"fmt.Sprintf":        func(c *call) []outcome { return ret(c.st, c.format(c.args[0].(*Term), c.variadic(1))) },
		"io.WriteString": func(c *call) []outcome {
			return c.writeTo(c.args[0], c.ex.newBytes(c.st, c.str(1), "str"))
		},
		"flag.StringVar": mFlagVar, "flag.BoolVar": mFlagVar, "flag.IntVar": mFlagVar,
		"flag.String": mFlagNew, "flag.Bool": mFlagNew, "flag.Int": mFlagNew,
		"flag.Parse": mFlagParse,
		"os.Exit":    mExit,
	}
	for _, t := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		models[t+".WriteString"] = mBufWrite
		models[t+".WriteByte"] = mBufWriteByte
	}
	models["(*os.File).WriteString"] = models["(*os.File).Write"]
	for _, t := range []string{"(*bytes.Buffer)", "(*strings.Builder)", "(*bytes.Reader)", "(*strings.Reader)"} {
		models[t+".Len"] = func(c *call) []outcome {
			_, g := c.ghostPtr(0)
			return ret(c.st, SeqLen(g.t("buf")))
		}
		models[t+".String"] = func(c *call) []outcome {
			_, g := c.ghostPtr(0)
			return ret(c.st, g.t("buf"))
		}
		models[t+".Bytes"] = func(c *call) []outcome {
			_, g := c.ghostPtr(0)
			return ret(c.st, c.ex.newBytes(c.st, g.t("buf"), "bytes"))
		}
		models[t+".Reset"] = func(c *call) []outcome {
			p, _ := c.ghostPtr(0)
			c.bufSet(p, emptySeq)
			return ret(c.st)
		}
	}
	models["(*bytes.Buffer).Grow"] = func(c *call) []outcome {
		c.ex.check(c.st, "bytes.Buffer.Grow: negative count", Le(I(0), c.args[1].(*Term)), c.ex.pos(c.pos))
		return ret(c.st)
	}
	models["(*strings.Builder).Grow"] = models["(*bytes.Buffer).Grow"]
	for _, o := range []struct {
		n string
		l bool
	}{{"bigEndian", false}, {"littleEndian", true}} {
		for _, k := range []int{2, 4, 8} {
			p := fmt.Sprintf("(encoding/binary.%s).", o.n)
			models[p+fmt.Sprintf("PutUint%d", 8*k)] = mPut(k, o.l)
			models[p+fmt.Sprintf("Uint%d", 8*k)] = mGet(k, o.l)
			models[p+fmt.Sprintf("AppendUint%d", 8*k)] = mAppendInt(k, o.l)
		}
	}
	_ = big.NewInt
}
