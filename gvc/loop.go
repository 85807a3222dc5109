package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := out[h]
			if l == nil {
				l = &loopInfo{h, map[*ssa.BasicBlock]bool{h: true}}
				out[h] = l
			}
			var add func(x *ssa.BasicBlock)
			add = func(x *ssa.BasicBlock) {
				if l.blocks[x] {
					return
				}
				l.blocks[x] = true
				for _, p := range x.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	return out
}

// concreteLoop reports whether the first exit test of the loop is decided, so
// that the loop is executed instead of being cut.
func (ex *Exec) concreteLoop(fr *frame, it0 *item, l *loopInfo) (res bool) {
	if ex.v.cutHeads[l.head] {
		return false
	}
	it := it0.fork()
	ex.quiet++
	defer func() {
		ex.quiet--
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			res = false
		}
	}()
	for n := 0; n < 2000; n++ {
		if it.idx >= len(it.blk.Instrs) || it.st.dead {
			return false
		}
		in := it.blk.Instrs[it.idx]
		it.idx++
		switch x := in.(type) {
		case *ssa.If:
			c := ex.term(it, x.Cond)
			v, k := it.st.decide(c)
			exits := !l.blocks[it.blk.Succs[0]] || !l.blocks[it.blk.Succs[1]]
			if exits || !k {
				return c.isConst()
			}
			s := it.blk.Succs[1]
			if v {
				s = it.blk.Succs[0]
			}
			it.prev, it.blk, it.idx = it.blk, s, 0
		case *ssa.Jump:
			if it.blk.Succs[0] == l.head || !l.blocks[it.blk.Succs[0]] {
				return false
			}
			it.prev, it.blk, it.idx = it.blk, it.blk.Succs[0], 0
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
			fv, args := ex.callee(it, &x.Call)
			o := ex.callVal(it.st, fv, args, &x.Call, x.Pos())
			it.env[x] = o[0].ret[0]
		case *ssa.Return, *ssa.Panic, *ssa.Defer, *ssa.RunDefers, *ssa.Go:
			return false
		default:
			ex.instr(it, in)
		}
	}
	return false
}

type leafKey struct {
	obj  *Obj // nil: ghost state
	path string
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x.loc == y.loc && x.off == y.off && x.len == y.len && x.cap == y.cap && x.null == y.null
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x.loc == y.loc && x.idx == y.idx && x.nul == y.nul
	}
	return reflect.DeepEqual(a, b)
}

// leaves calls f on the scalar components of v.
func leaves(v Val, path string, f func(path string, v Val)) {
	switch x := v.(type) {
	case VStruct:
		for i, e := range x.f {
			leaves(e, path+fmt.Sprintf("%d.", i), f)
		}
	case VArr:
		for i, e := range x.e {
			leaves(e, path+fmt.Sprintf("%d.", i), f)
		}
	case VGhost:
		var ks []string
		for k := range x.f {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			leaves(x.f[k], path+"#"+k+".", f)
		}
	default:
		f(path, v)
	}
}

func getLeaf(v Val, path string) (Val, bool) {
	for _, p := range strings.Split(path, ".") {
		if p == "" {
			continue
		}
		switch x := v.(type) {
		case VStruct:
			i := pathIdx(p + ".")[0]
			v = x.f[i]
		case VArr:
			i := pathIdx(p + ".")[0]
			if i >= len(x.e) {
				return nil, false
			}
			v = x.e[i]
		case VGhost:
			n, ok := x.f[p[1:]]
			if !ok {
				return nil, false
			}
			v = n
		default:
			return nil, false
		}
	}
	return v, true
}

func setLeaf(v Val, path string, nv Val) Val {
	i := strings.Index(path, ".")
	if i < 0 {
		return nv
	}
	p, rest := path[:i], path[i+1:]
	switch x := v.(type) {
	case VStruct:
		k := pathIdx(p + ".")[0]
		f := append([]Val(nil), x.f...)
		f[k] = setLeaf(f[k], rest, nv)
		return VStruct{x.typ, f}
	case VArr:
		k := pathIdx(p + ".")[0]
		e := append([]Val(nil), x.e...)
		e[k] = setLeaf(e[k], rest, nv)
		return VArr{e}
	case VGhost:
		return x.with(p[1:], setLeaf(x.f[p[1:]], rest, nv))
	}
	unsup("setLeaf %T", v)
	return nil
}

func typeAt(t types.Type, path string) types.Type {
	for _, p := range strings.Split(path, ".") {
		if p == "" {
			continue
		}
		if t == nil || p[0] == '#' {
			return nil
		}
		k := pathIdx(p + ".")[0]
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(k).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

type havocSym struct {
	sym   *Term
	entry *Term
	get   func(s *State) *Term
	key   leafKey
}

type havocState struct {
	st   *State
	syms []havocSym
	k    *Term
}

func leafOf(s *State, k leafKey) (Val, bool) {
	if k.obj == nil {
		v, ok := s.ghost[k.path]
		return v, ok
	}
	v, ok := s.heap[k.obj]
	if !ok {
		return nil, false
	}
	return getLeaf(v, k.path)
}

func (ex *Exec) setLeafOf(s *State, k leafKey, v Val) {
	if k.obj == nil {
		s.ghost[k.path] = v
		return
	}
	s.heap[k.obj] = setLeaf(s.heap[k.obj], k.path, v)
}

// mode of a modified leaf
const (
	mSame = 1 // slice within one array, or scalar
	mMove = 2 // slice or pointer whose target changes
)

type linear struct{ d *Term }

func (ex *Exec) havocLoop(entry *State, M map[leafKey]int, lin map[leafKey]*Term) *havocState {
	h := &havocState{st: entry.clone(), k: Fresh("iter", SInt)}
	setRange(h.k, ivl{bi(0), maxLen})
	st := h.st
	var keys []leafKey
	for k := range M {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		ai, bi := -1, -1
		if a.obj != nil {
			ai = a.obj.id
		}
		if b.obj != nil {
			bi = b.obj.id
		}
		if ai != bi {
			return ai < bi
		}
		return a.path < b.path
	})
	add := func(key leafKey, sym, ent *Term, get func(s *State) *Term) {
		h.syms = append(h.syms, havocSym{sym, ent, get, key})
	}
	for _, key := range keys {
		key := key
		ev, _ := leafOf(entry, key)
		var t types.Type
		if key.obj != nil {
			t = typeAt(key.obj.typ, key.path)
		}
		name := key.path
		if key.obj != nil {
			name = key.obj.name
		}
		name = "loop_" + strings.NewReplacer(".", "", "#", "").Replace(name)
		scalar := func(s *State) *Term {
			v, ok := leafOf(s, key)
			if !ok {
				unsup("loop variable vanished")
			}
			if i, ok := v.(VIface); ok {
				return i.id
			}
			return v.(*Term)
		}
		switch e := ev.(type) {
		case *Term:
			if d := lin[key]; d != nil {
				v := Add(e, Mul(d, h.k))
				if t != nil {
					if b, s, ok := intType(t); ok {
						r := intRange(b, s)
						st.assume(And(Le(IB(r.lo), v), Le(v, IB(r.hi))))
					}
				}
				ex.setLeafOf(st, key, v)
				add(key, v, e, scalar)
				continue
			}
			var v *Term
			switch e.sort {
			case SInt:
				v = Fresh(name, SInt)
				if t != nil {
					if b, s, ok := intType(t); ok {
						setRange(v, intRange(b, s))
					}
				}
			case SSeq:
				fixed := false
				if t != nil {
					switch t.Underlying().(type) {
					case *types.Array, *types.Slice:
						fixed = true
					}
				}
				if n, ok := constLen(e); ok && fixed {
					v = FreshSeqN(name, n)
				} else {
					v = Fresh(name, SSeq)
					if fixed {
						st.assume(Eq(SeqLen(v), SeqLen(e)))
					}
				}
			default:
				v = Fresh(name, e.sort)
			}
			ex.setLeafOf(st, key, v)
			add(key, v, e, scalar)
		case VIface:
			v := Fresh(name, SInt)
			ex.setLeafOf(st, key, VIface{id: v})
			add(key, v, e.id, scalar)
		case VSlice:
			if M[key] == mMove {
				if !isByte(e.elem) {
					unsup("loop changes a slice of %s", e.elem)
				}
				o := ex.newObj(name, types.NewSlice(e.elem))
				st.fresh[o] = true
				c := Fresh(name, SSeq)
				st.heap[o] = c
				cp := Fresh(name+"_cap", SInt)
				setRange(cp, ivl{bi(0), maxLen})
				st.assume(Le(SeqLen(c), cp))
				nl := Fresh(name+"_nil", SBool)
				ex.setLeafOf(st, key, VSlice{loc: Loc{o, ""}, off: I(0), len: SeqLen(c), cap: cp, null: nl, elem: e.elem})
				sl := func(s *State) VSlice { v, _ := leafOf(s, key); return v.(VSlice) }
				add(key, c, entry.bytesOf(e), func(s *State) *Term { return s.bytesOf(sl(s)) })
				add(key, cp, e.cap, func(s *State) *Term { return sl(s).cap })
				add(key, nl, e.null, func(s *State) *Term { return sl(s).null })
				continue
			}
			v := e
			sl := func(s *State) VSlice { v, _ := leafOf(s, key); return v.(VSlice) }
			mkI := func(n string) *Term {
				x := Fresh(name+n, SInt)
				setRange(x, ivl{bi(0), maxLen})
				return x
			}
			v.off, v.len, v.cap = mkI("_off"), mkI("_len"), mkI("_cap")
			st.assume(Le(v.len, v.cap))
			if c, ok := entry.load(e.loc).(*Term); ok {
				st.assume(Le(Add(v.off, v.len), SeqLen(c)))
			}
			st.assume(Eq(Add(v.off, v.cap), Add(e.off, e.cap)))
			ex.setLeafOf(st, key, v)
			add(key, v.off, e.off, func(s *State) *Term { return sl(s).off })
			add(key, v.len, e.len, func(s *State) *Term { return sl(s).len })
			add(key, v.cap, e.cap, func(s *State) *Term { return sl(s).cap })
		case VPtr:
			if e.idx != nil {
				unsup("loop changes an element pointer")
			}
			o := ex.newObj(name, e.typ)
			st.fresh[o] = true
			st.heap[o] = ex.freshVal(st, e.typ, name)
			ex.setLeafOf(st, key, VPtr{loc: Loc{o, ""}, typ: e.typ})
			leaves(st.heap[o], "", func(path string, lv Val) {
				if t, ok := lv.(*Term); ok && t.op == opVar {
					get := func(s *State) *Term {
						p, _ := leafOf(s, key)
						pp := p.(VPtr)
						if pp.nul {
							unsup("nil loop pointer")
						}
						x, _ := getLeaf(s.load(pp.loc), path)
						return x.(*Term)
					}
					var ent *Term
					if !e.nul {
						ent = get(entry)
					}
					add(key, t, ent, get)
				}
			})
		case VOpaque, VFunc:
			ex.setLeafOf(st, key, VOpaque{})
		default:
			unsup("loop changes a %T", ev)
		}
	}
	return h
}

// runBody executes one iteration from state st at the loop head and returns the
// items that come back to it.
func (ex *Exec) runBody(fr *frame, it0 *item, st *State, l *loopInfo) []*item {
	defer stat("runBody", time.Now())
	it := it0.fork()
	it.st = st.clone()
	c := &cutCtx{loop: l, analysis: true}
	it.cut[l.head] = c
	sub := &frame{fn: fr.fn, loops: fr.loops, blkStop: c, work: []*item{it}}
	ex.quiet++
	defer func() { ex.quiet-- }()
	ex.drive(sub)
	return c.backs
}

func varsOf(t *Term, out map[*Term]bool) {
	if t.op == opVar {
		out[t] = true
	}
	for _, c := range children(t) {
		varsOf(c, out)
	}
}

var loopDebug = os.Getenv("GVC_LOOP") != ""

type cand struct {
	t    *Term
	src  string
	auto bool
}

func (ex *Exec) cutLoop(fr *frame, it *item, l *loopInfo) bool {
	entry := it.st
	where := ex.pos(firstPos(l.head))
	M := map[leafKey]int{}
	lin := map[leafKey]*Term{}
	banned := map[leafKey]bool{}
	var h *havocState
	// modified locations
	for round := 0; ; round++ {
		if round > 24 {
			unsup("loop at %s: modified set does not settle", where)
		}
		h = ex.havocLoop(entry, M, lin)
		backs := ex.runBody(fr, it, h.st, l)
		changed := false
		note := func(k leafKey, a, b Val) {
			mode := mSame
			switch x := a.(type) {
			case VSlice:
				y, ok := b.(VSlice)
				if !ok || x.loc != y.loc {
					mode = mMove
				}
				ev, _ := leafOf(entry, k)
				if e, ok := ev.(VSlice); ok && e.loc != y.loc {
					mode = mMove
				}
			case VPtr:
				mode = mMove
			}
			if M[k] < mode {
				M[k] = mode
				changed = true
			}
		}
		for _, b := range backs {
			if len(b.st.events) != len(h.st.events) || len(b.st.draws) != len(h.st.draws) || len(b.st.wipe) != len(h.st.wipe) {
				unsup("loop at %s performs traced effects", where)
			}
			if len(b.defs) != len(it.defs) {
				unsup("defer in a loop")
			}
			for o := range entry.heap {
				hv, bv := h.st.heap[o], b.st.heap[o]
				if sameShape(hv, bv) {
					leaves(hv, "", func(p string, v Val) {
						w, ok := getLeaf(bv, p)
						if !ok || !sameVal(v, w) {
							note(leafKey{o, p}, v, w)
						}
					})
				} else {
					unsup("loop at %s changes the shape of %s", where, o.name)
				}
			}
			for g, v := range h.st.ghost {
				if !sameVal(v, b.st.ghost[g]) {
					note(leafKey{nil, g}, v, b.st.ghost[g])
				}
			}
		}
		if changed {
			continue
		}
		// linear variables
		moved := false
		for k := range M {
			hv, _ := leafOf(h.st, k)
			ht, ok := hv.(*Term)
			if !ok || ht.sort != SInt || banned[k] {
				continue
			}
			var d *Term
			good := len(backs) > 0
			for _, b := range backs {
				bv, _ := leafOf(b.st, k)
				x := Sub(bv.(*Term), ht)
				if !x.isConst() && lin[k] == nil {
					x = Sub(unwrapMods(bv.(*Term)), ht)
				}
				if !x.isConst() || d != nil && d != x {
					good = false
					break
				}
				d = x
			}
			if good && d.isInt(0) {
				good = false
			}
			switch {
			case good && lin[k] == nil:
				lin[k] = d
				moved = true
			case lin[k] != nil && (!good || lin[k] != d):
				delete(lin, k)
				banned[k] = true
				moved = true
			}
		}
		if !moved {
			break
		}
	}
	backs := ex.runBody(fr, it, h.st, l)
	cands := ex.candidates(fr, it, entry, h, backs, l)
	inst := func(t *Term, s *State, k *Term) *Term {
		m := map[*Term]*Term{h.k: k}
		for _, y := range h.syms {
			if y.sym.op == opVar {
				v := y.entry
				if s != nil {
					v = y.get(s)
				}
				if v == nil {
					return False
				}
				m[y.sym] = v
			}
		}
		return subst(t, m)
	}
	// entry
	type res struct {
		i  int
		ok bool
	}
	filter := func(ts []cand, f func(c cand) bool) []cand {
		defer stat("filter", time.Now())
		ch := make(chan res, len(ts))
		for i := range ts {
			i := i
			go func() {
				ok := false
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(unsupported); !is {
							fmt.Fprintln(os.Stderr, "candidate panic:", r)
						}
					}
					ch <- res{i, ok}
				}()
				ok = f(ts[i])
			}()
		}
		keep := make([]bool, len(ts))
		for range ts {
			r := <-ch
			keep[r.i] = r.ok
		}
		var out []cand
		for i, c := range ts {
			if keep[i] {
				out = append(out, c)
			} else if loopDebug && ex.quiet == 0 {
				fmt.Fprintf(os.Stderr, "  loop %s drops %s: %s\n", where, c.src, show(c.t))
			}
		}
		return out
	}
	ninit := 0
	cands = filter(cands, func(c cand) bool {
		g := inst(c.t, nil, I(0))
		if v, k := entry.decide(g); k {
			return v
		}
		return ex.v.prove(entry.pc, g, map[bool]time.Duration{true: fastT, false: ex.v.quickT}[c.auto]).ok
	})
	ninit = len(cands)
	var H *State
	var backsNow []*item
	head := func(cs []cand) bool {
		H = h.st.clone()
		for _, c := range cs {
			H.assume(c.t)
		}
		if H.dead {
			return false // the loop head is unreachable
		}
		backsNow = ex.runBody(fr, it, H, l)
		return true
	}
	preserved := func(c cand, b *item) bool {
		g := inst(c.t, b.st, Add(h.k, I(1)))
		if v, k := b.st.decide(g); k {
			return v
		}
		T := fastT
		if !c.auto {
			T = ex.v.candT
		}
		t0 := time.Now()
		r := ex.v.prove(b.st.pc, g, T)
		if loopDebug && ex.quiet == 0 && time.Since(t0) > time.Second {
			fmt.Fprintf(os.Stderr, "  (%v %v %s)\n", r.ok, time.Since(t0).Round(time.Millisecond), show(c.t))
		}
		if !r.ok && !c.auto && r.status != "sat" {
			atomic.AddInt32(&ex.v.gaveUp, 1)
		}
		return r.ok
	}
	var dropped []cand
	for {
		if !head(cands) {
			return false
		}
		n := len(cands)
		// guesses first: a template is only tested against facts that hold
		for _, auto := range []bool{true, false} {
			for _, b := range backsNow {
				before := cands
				cands = filter(cands, func(c cand) bool { return c.auto != auto || preserved(c, b) })
				if !auto {
					kept := map[*Term]bool{}
					for _, c := range cands {
						kept[c.t] = true
					}
					for _, c := range before {
						if !kept[c.t] {
							dropped = append(dropped, c)
						}
					}
				}
			}
			if len(cands) != n {
				break
			}
		}
		if len(cands) == n {
			break
		}
	}
	// templates that only failed next to a wrong one
	for again := len(dropped) > 1; again; {
		again = false
		for i, c := range dropped {
			more := append(append([]cand(nil), cands...), c)
			if !head(more) {
				return false
			}
			ok := true
			for _, b := range backsNow {
				if ok && !preserved(c, b) {
					ok = false
				}
			}
			if ok {
				cands = more
				dropped = append(append([]cand(nil), dropped[:i]...), dropped[i+1:]...)
				again = true
				break
			}
		}
	}
	if !head(cands) {
		return false
	}
	// linear variables are preserved by construction (checked above)
	if ex.quiet == 0 {
		if loopDebug {
			fmt.Fprintf(os.Stderr, "loop %s: %d modified, %d invariants\n", where, len(M), len(cands))
			for _, c := range cands {
				fmt.Fprintf(os.Stderr, "  inv %s: %s\n", c.src, show(c.t))
			}
			for k, d := range lin {
				fmt.Fprintf(os.Stderr, "  linear %v step %s\n", k, show(d))
			}
		}
		for _, c := range cands {
			for _, ph := range []string{"holds on entry", "is preserved"} {
				ex.obls = append(ex.obls, &Obligation{unit: ex.unit.name, kind: "loop", label: "loop invariant " + c.src + " " + ph, pos: where, pre: true, goal: c.t, res: Result{ok: true, solver: "houdini"}})
			}
		}
		_ = ninit
	}
	it.st = H
	it.cut[l.head] = &cutCtx{loop: l}
	return true
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if p := i.Pos(); p.IsValid() {
			return p
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if p := i.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return token.NoPos
}

func sameShape(a, b Val) bool {
	switch x := a.(type) {
	case VStruct:
		y, ok := b.(VStruct)
		return ok && len(x.f) == len(y.f)
	case VArr:
		y, ok := b.(VArr)
		return ok && len(x.e) == len(y.e)
	case VGhost:
		y, ok := b.(VGhost)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for k := range x.f {
			if _, ok := y.f[k]; !ok {
				return false
			}
		}
	}
	return true
}

func (ex *Exec) candidates(fr *frame, it *item, entry *State, h *havocState, backs []*item, l *loopInfo) []cand {
	var out []cand
	seen := map[*Term]bool{}
	add := func(t *Term, src string, auto bool) {
		if t.isConst() || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, cand{t, src, auto})
	}
	known := map[*Term]bool{h.k: true}
	var ints []havocSym
	for _, y := range h.syms {
		if y.sym.op == opVar {
			known[y.sym] = true
			if y.entry != nil {
				add(Eq(y.sym, y.entry), "unchanged", true)
				if y.sym.sort == SInt {
					add(Le(y.entry, y.sym), "lower", true)
					add(Le(y.sym, y.entry), "upper", true)
				}
			}
		}
		if y.entry != nil && y.sym.sort == SInt {
			ints = append(ints, y)
		}
		if y.entry != nil && y.sym.sort == SSeq && y.sym.op == opVar && y.sym.clen < 0 {
			ints = append(ints, havocSym{SeqLen(y.sym), SeqLen(y.entry), nil, y.key})
			add(Eq(SeqLen(y.sym), SeqLen(y.entry)), "length", true)
		}
	}
	if len(ints) <= 9 {
		for i := range ints {
			a := ints[i]
			if a.sym.op == opVar || a.sym.op == opLen {
				add(Eq(Sub(a.sym, a.entry), h.k), "count", true)
			}
			for j := range ints[:i] {
				b := ints[j]
				add(Eq(Sub(a.sym, b.sym), Sub(a.entry, b.entry)), "difference", true)
				add(Eq(Add(a.sym, b.sym), Add(a.entry, b.entry)), "sum", true)
			}
		}
	}
	// facts about the head state seen on the way round
	entryVars := map[*Term]bool{}
	for _, p := range h.st.pc {
		varsOf(p, entryVars)
	}
	for _, v := range entry.heap {
		leaves(v, "", func(_ string, x Val) {
			if t, ok := x.(*Term); ok {
				varsOf(t, entryVars)
			}
		})
	}
	for _, b := range backs {
		for _, f := range b.st.pc {
			if h.st.pcset[f] || f.size > 40 {
				continue
			}
			vs := map[*Term]bool{}
			varsOf(f, vs)
			ok, touches := true, false
			for v := range vs {
				if known[v] {
					touches = true
				} else if !entryVars[v] {
					ok = false
				}
			}
			if !ok || !touches {
				continue
			}
			add(f, "condition", true)
			if f.op == opLe {
				add(Le(f.args[0], Add(f.args[1], I(1))), "weak condition", true)
			}
		}
	}
	// templates
	for _, li := range ex.v.specs.loopinvs {
		// a template belongs to the package its file is about
		if f := strings.TrimSuffix(li.file, ".gvc"); f != "lib" && fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Name() != f {
			continue
		}
		for _, c := range ex.instTemplate(fr, it, entry, h, li) {
			add(c, fmt.Sprintf("%s:%d", li.owner, li.line), false)
		}
	}
	return out
}

// unwrapMods drops machine wrap-around (used to guess induction variables).
func unwrapMods(t *Term) *Term {
	m := map[*Term]*Term{}
	for _, a := range children(t) {
		if a.op == opMod {
			if _, ok := pow2(a.ival); ok {
				m[a] = a.args[0]
			}
		}
	}
	if t.op == opMod {
		if _, ok := pow2(t.ival); ok {
			return t.args[0]
		}
	}
	if t.op == opPoly {
		r := subst(t, m)
		return r
	}
	return t
}
