package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// X is the context of the instruction being executed.
type X struct {
	e    *Engine
	st   *State
	th   *Thread
	fr   *Frame
	in   *inst
	args []Value
	fn   *ssa.Function // callee, for intrinsics

	cand    uint64
	blocked bool // the instruction could not proceed
	pushed  bool // a frame was pushed; the result comes later
	nested  bool
}

type goPanic struct{ val Value } // Iface
type pathEnd struct {
	kind string // ok, assume, assert, crash, hang, exit
	msg  string
}
type restart struct{ pkg *ssa.Package }

func (x *X) op(f *Frame, i int32) Value {
	if i >= 0 {
		return f.regs[i]
	}
	return f.fi.consts[-1-i]
}

// rtPanic raises a runtime error.
func (x *X) rtPanic(msg string) {
	panic(goPanic{x.e.runtimeError(msg)})
}

func (e *Engine) runtimeError(msg string) Value {
	// modelled as runtime.errorString-like: a string based error type
	if e.rtErr == nil {
		if p := e.prog.ImportedPackage("runtime"); p != nil {
			if t, ok := p.Members["errorString"].(*ssa.Type); ok {
				e.rtErr = e.rt(t.Type())
			}
		}
	}
	if len(msg) > 15 && msg[:15] == "runtime error: " {
		msg = msg[15:]
	}
	return Iface{e.rtErr, msg}
}

// runSteps executes the current thread until it stops. It returns when the thread yields, blocks or ends.
func (x *X) runThread() {
	st := x.st
	e := x.e
	x.th = st.ownThread(st.cur)
	for {
		if len(x.th.frames) == 0 {
			x.th.status = tDone
			return
		}
		fr := st.ownFrame(x.th, len(x.th.frames)-1)
		x.fr = fr
		b := &fr.fi.blks[fr.blk]
		in := &b.insts[fr.pc]
		x.in = in
		if e.trace {
			fmt.Printf("[%d.%s] %s b%d.%d %v\n", st.id, x.th.name, fr.fi.fn, fr.blk, fr.pc, in.i)
		}
		if in.site != 0 && !st.granted && in.op != opDefer && e.mt(st) {
			x.th.status = tYield
			st.stamp++
			x.th.arrive = st.stamp
			return
		}
		st.fidx = 0
		x.blocked = false
		x.pushed = false
		st.steps++
		e.nsteps++
		if st.steps > e.maxSteps {
			panic(pathEnd{"bound", "step bound"})
		}
		x.step(in)
		if len(st.forced) > 0 {
			st.forced = st.forced[:0]
		}
		if x.blocked {
			st.granted = false
			x.th.status = tBlock
			st.stamp++
			x.th.arrive = st.stamp
			return
		}
		if in.site != 0 && in.op != opRunDefers {
			st.granted = false
		}
		if x.th.status != tRun {
			return
		}
	}
}

// mt says whether visible operations are scheduling points in this state.
func (e *Engine) mt(st *State) bool { return !st.inBase && e.concurrent }

func (x *X) jump(to int32) {
	fr := x.fr
	from := fr.blk
	nb := &fr.fi.blks[to]
	if len(nb.phis) > 0 {
		ei := 0
		for i, p := range nb.preds {
			if p == from {
				ei = i
				break
			}
		}
		if len(nb.phis) == 1 {
			fr.regs[nb.phis[0].dst] = x.op(fr, nb.phis[0].edges[ei])
		} else {
			tmp := make([]Value, len(nb.phis))
			for i := range nb.phis {
				tmp[i] = x.op(fr, nb.phis[i].edges[ei])
			}
			for i := range nb.phis {
				fr.regs[nb.phis[i].dst] = tmp[i]
			}
		}
	}
	fr.blk = to
	fr.pc = 0
}

func (x *X) set(v Value) {
	x.fr.regs[x.in.dst] = v
	x.fr.pc++
}

// nilDeref panics when p is nil.
func (x *X) ptr(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		if p.id == 0 {
			x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return p
	case *SymPtr:
		i := x.concretize(p.idx)
		return Ptr{p.id, p.off + int32(i)}
	case Poison:
		panic(unsupported{"poison pointer: " + p.why})
	}
	panic(unsupported{fmt.Sprintf("pointer is %T", v)})
}

func (x *X) load(v Value, rt *RType) Value {
	if sp, ok := v.(*SymPtr); ok {
		return x.loadSym(sp, rt)
	}
	p := x.ptr(v)
	if raceOn {
		x.access(p.id, p.off, rt.size, false)
	}
	if rt.isAgg() {
		return Agg(x.st.readCells(p.id, p.off, rt.size))
	}
	c := x.st.robj(p.id).get(p.off)
	switch cv := c.(type) {
	case Slice:
		if rt.kind == KString {
			return mkStr(x.st.bytesOf(cv))
		}
	case string, *SymStr:
		if rt.kind == KSlice {
			s := x.st.newBytes(strBytes(cv))
			return s
		}
	case Poison:
		panic(unsupported{"poison: " + cv.why})
	}
	return c
}

// loadSym reads an element with symbolic index as an if-then-else over the distinct values.
func (x *X) loadSym(sp *SymPtr, rt *RType) Value {
	cells := x.st.readCells(sp.id, sp.off, sp.n)
	return x.iteTable(cells, sp.idx, rt)
}

func (x *X) iteTable(cells []Value, idx *Term, rt *RType) Value {
	if rt.kind != KInt && rt.kind != KBool {
		i := x.concretize(idx)
		return cells[i]
	}
	w := rt.w
	type rng struct{ lo, hi int }
	var order []*Term
	groups := map[*Term][]rng{}
	for i := 0; i < len(cells); {
		t := toTerm(cells[i], w)
		j := i
		for j+1 < len(cells) && toTerm(cells[j+1], w) == t {
			j++
		}
		if _, ok := groups[t]; !ok {
			order = append(order, t)
		}
		groups[t] = append(groups[t], rng{i, j})
		i = j + 1
	}
	best := order[0]
	for _, t := range order {
		if len(groups[t]) > len(groups[best]) {
			best = t
		}
	}
	res := best
	for _, t := range order {
		if t == best {
			continue
		}
		c := tFalse
		for _, r := range groups[t] {
			lo, hi := tConst(uint64(r.lo), 64), tConst(uint64(r.hi), 64)
			var rc *Term
			switch {
			case r.lo == r.hi:
				rc = tEq(idx, lo)
			case r.lo == 0:
				rc = tUle(idx, hi)
			default:
				rc = tAnd(tUle(lo, idx), tUle(idx, hi))
			}
			c = tOr(c, rc)
		}
		res = tIte(c, t, res)
	}
	return fromTerm(res)
}

func (x *X) store(addr Value, v Value, rt *RType) {
	if sp, ok := addr.(*SymPtr); ok {
		if sp.n <= 64 && (rt.kind == KInt || rt.kind == KBool) {
			o := x.st.wobj(sp.id)
			nv := toTerm(v, rt.w)
			for i := int32(0); i < sp.n; i++ {
				old := toTerm(o.get(sp.off+i), rt.w)
				x.st.put(o, sp.off+i, fromTerm(tIte(tEq(sp.idx, tConst(uint64(i), 64)), nv, old)))
			}
			return
		}
	}
	p := x.ptr(addr)
	if raceOn {
		x.access(p.id, p.off, rt.size, true)
	}
	if rt.isAgg() {
		if po, ok := v.(Poison); ok {
			c := make([]Value, rt.size)
			for i := range c {
				c[i] = po
			}
			v = Agg(c)
		}
		x.st.writeCells(p.id, p.off, v.(Agg))
		return
	}
	x.st.put(x.st.wobj(p.id), p.off, v)
}

func (x *X) intIdx(v Value, rt *RType) (int64, *Term) {
	switch i := v.(type) {
	case uint64:
		if rt.signed {
			return sx(i, rt.w), nil
		}
		if i > math.MaxInt64 {
			return math.MaxInt64, nil
		}
		return int64(i), nil
	case *Term:
		if rt.signed {
			return 0, tSExt(i, 64)
		}
		return 0, tZExt(i, 64)
	}
	panic(unsupported{fmt.Sprintf("index %T", v)})
}

// index checks bounds, forking when symbolic, and returns a concrete index or a term known to be in range.
func (x *X) index(v Value, rt *RType, n int) (int, *Term) {
	i, t := x.intIdx(v, rt)
	if t == nil {
		if i < 0 || i >= int64(n) {
			x.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	if !x.decide(tUlt(t, tConst(uint64(n), 64))) {
		x.rtPanic(fmt.Sprintf("runtime error: index out of range [symbolic] with length %d", n))
	}
	if t.isConst() {
		return int(t.val), nil
	}
	return 0, t
}

// sizeArg concretises an int argument.
func (x *X) intArg(v Value, rt *RType) int64 {
	i, t := x.intIdx(v, rt)
	if t == nil {
		return i
	}
	return int64(x.concretize(t))
}

// checkAlloc ends the path with a crash when memory for an absurd number of elements is asked for.
func (x *X) checkAlloc(v Value, isMap bool) {
	const huge = 1 << 28
	i, t := x.intIdx(v, x.e.tInt)
	big := i >= huge && i < 1<<40
	if t != nil {
		big = x.decide(tUlt(tConst(huge-1, 64), t)) && x.decide(tUlt(t, tConst(1<<40, 64)))
	}
	if big {
		panic(pathEnd{"crash", fmt.Sprintf("fatal error: out of memory: allocation of more than %d elements", huge)})
	}
}

func (x *X) step(in *inst) {
	fr := x.fr
	st := x.st
	switch in.op {
	case opAlloc:
		id := st.alloc(in.rt, 1)
		x.set(Ptr{id, 0})
	case opBin:
		x.set(x.binop(in.tok, in.rt, in.rt2, x.op(fr, in.a), x.op(fr, in.b)))
	case opUn:
		x.unop(in)
	case opCall:
		x.doCall(in)
	case opCopy:
		x.set(x.op(fr, in.a))
	case opConvert:
		x.set(x.convert(in.rt, in.rt2, x.op(fr, in.a)))
	case opExtract:
		t, ok := x.op(fr, in.a).(Tuple)
		if !ok {
			panic(unsupported{"poison tuple"})
		}
		x.set(t[in.off])
	case opField:
		a := x.op(fr, in.a).(Agg)
		if in.rt.isAgg() {
			x.set(append(Agg(nil), a[in.off:in.off+in.rt.size]...))
		} else {
			x.set(a[in.off])
		}
	case opFieldAddr:
		v := x.op(fr, in.a)
		p := x.ptr(v)
		x.set(Ptr{p.id, p.off + in.off})
	case opIf:
		if x.decideV(x.op(fr, in.a)) {
			x.jump(fr.fi.blks[fr.blk].succs[0])
		} else {
			x.jump(fr.fi.blks[fr.blk].succs[1])
		}
	case opJump:
		x.jump(fr.fi.blks[fr.blk].succs[0])
	case opIndex:
		x.doIndex(in)
	case opIndexAddr:
		x.indexAddr(in)
	case opLookup:
		x.lookup(in)
	case opMakeChan:
		n := x.intArg(x.op(fr, in.a), x.e.tInt)
		if n < 0 {
			panic(goPanic{x.e.plainError("makechan: size out of range")})
		}
		x.set(st.newChan(in.rt, int(n)))
	case opMakeClosure:
		c := &Closure{fn: in.fn}
		for _, a := range in.args {
			c.bind = append(c.bind, x.op(fr, a))
		}
		x.set(c)
	case opMakeIface:
		x.set(Iface{in.rt, x.op(fr, in.a)})
	case opMakeMap:
		if in.flag {
			x.checkAlloc(x.op(fr, in.a), true)
		}
		x.set(st.newMap(in.rt))
	case opMakeSlice:
		x.checkAlloc(x.op(fr, in.b), false)
		n := x.intArg(x.op(fr, in.a), x.e.tInt)
		c := x.intArg(x.op(fr, in.b), x.e.tInt)
		if n < 0 || n > 1<<24 {
			if n > 1<<24 && n < 1<<40 {
				panic(unsupported{fmt.Sprintf("make of %d elements", n)})
			}
			x.rtPanic("runtime error: makeslice: len out of range")
		}
		if c < n {
			x.rtPanic("runtime error: makeslice: cap out of range")
		}
		if c > 1<<24 {
			panic(unsupported{fmt.Sprintf("make of %d elements", c)})
		}
		id := st.alloc(in.rt.elem, int32(c))
		x.set(Slice{id, 0, int32(n), int32(c)})
	case opMapUpdate:
		mv := x.mapv(x.op(fr, in.a))
		if mv == 0 {
			panic(goPanic{x.e.plainError("assignment to entry in nil map")})
		}
		x.mapAccess(MapV(mv), true)
		k := x.op(fr, in.b)
		x.checkHashable(in.rt.key, k)
		i := x.mapFind(st.robj(int32(mv)).m, in.rt.key, k)
		st.mapSet(mv, i, k, x.op(fr, in.c))
		x.fr.pc++
	case opNext:
		x.next(in)
	case opPanic:
		v := x.op(fr, in.a)
		panic(goPanic{v})
	case opRange:
		v := x.op(fr, in.a)
		id := st.alloc(x.e.tInt, 1)
		x.set(Tuple{v, Ptr{id, 0}})
	case opReturn:
		var res Value
		switch len(in.args) {
		case 0:
		case 1:
			res = x.op(fr, in.args[0])
		default:
			t := make(Tuple, len(in.args))
			for i, a := range in.args {
				t[i] = x.op(fr, a)
			}
			res = t
		}
		x.ret(res)
	case opRunDefers:
		x.runDefers(in)
	case opSelect:
		x.doSelect(in)
	case opSend:
		x.doSend(in)
	case opSlice:
		x.doSlice(in)
	case opSliceToArrPtr:
		s := x.slice(x.op(fr, in.a))
		if s.len < in.rt.n {
			x.rtPanic("runtime error: cannot convert slice to array pointer: length mismatch")
		}
		if s.id == 0 {
			if in.rt.n == 0 {
				x.set(Ptr{})
				return
			}
		}
		x.set(Ptr{s.id, s.off})
	case opStore:
		x.store(x.op(fr, in.a), x.op(fr, in.b), in.rt)
		x.fr.pc++
	case opTypeAssert:
		x.typeAssert(in)
	case opDefer:
		d := deferRec{in: in}
		d.cl, d.args, d.bi = x.resolve(in)
		fr.defers = append(fr.defers, d)
		x.fr.pc++
	case opGo:
		cl, args, bi := x.resolve(in)
		if bi != "" {
			panic(unsupported{"go builtin"})
		}
		x.fr.pc++
		kind := 0
		if fr.fi.repo {
			kind = 1
		} else if fr.fi.harness {
			kind = 2
		}
		x.spawn(cl, args, kind)
	case opTramp:
		cl := fr.regs[0].(*Closure)
		x.callClosure(cl, fr.regs[2].(Tuple), nil)
	default:
		panic(unsupported{fmt.Sprintf("instruction %T %v", in.i, in.i)})
	}
}

func (x *X) slice(v Value) Slice {
	switch s := v.(type) {
	case Slice:
		return s
	case Poison:
		panic(unsupported{"poison: " + s.why})
	}
	panic(unsupported{fmt.Sprintf("slice is %T", v)})
}
func (x *X) mapv(v Value) MapV {
	switch s := v.(type) {
	case MapV:
		return s
	case Poison:
		panic(unsupported{"poison: " + s.why})
	}
	panic(unsupported{fmt.Sprintf("map is %T", v)})
}

func (x *X) doIndex(in *inst) {
	fr := x.fr
	base := x.op(fr, in.a)
	if in.rt.kind == KString {
		i, t := x.index(x.op(fr, in.b), in.rt2, strLen(base))
		if t == nil {
			x.set(strByte(base, i))
		} else {
			x.set(x.iteTable(strBytes(base), t, x.e.tByte))
		}
		return
	}
	a := base.(Agg)
	es := in.rt.elem.size
	i, t := x.index(x.op(fr, in.b), in.rt2, int(in.rt.n))
	if t != nil {
		if es == 1 {
			x.set(x.iteTable(a, t, in.rt.elem))
			return
		}
		i = int(x.concretize(t))
	}
	c := a[int32(i)*es : int32(i+1)*es]
	x.set(fromCells(in.rt.elem, append([]Value(nil), c...)))
}

func (x *X) indexAddr(in *inst) {
	fr := x.fr
	base := x.op(fr, in.a)
	var id, off, n int32
	if in.rt.kind == KArray {
		p := x.ptr(base)
		id, off, n = p.id, p.off, in.rt.n
	} else {
		s := x.slice(base)
		id, off, n = s.id, s.off, s.len
	}
	es := in.rt.elem.size
	i, t := x.index(x.op(fr, in.b), in.rt2, int(n))
	if t != nil {
		if es == 1 && n <= 1024 {
			x.set(&SymPtr{id, off, n, t})
			return
		}
		i = int(x.concretize(t))
	}
	x.set(Ptr{id, off + int32(i)*es})
}

func (x *X) lookup(in *inst) {
	fr := x.fr
	if in.rt.kind == KString {
		base := x.op(fr, in.a)
		i, t := x.index(x.op(fr, in.b), in.rt2, strLen(base))
		if t == nil {
			x.set(strByte(base, i))
		} else {
			x.set(x.iteTable(strBytes(base), t, x.e.tByte))
		}
		return
	}
	mv := x.mapv(x.op(fr, in.a))
	x.mapAccess(MapV(mv), false)
	k := x.op(fr, in.b)
	var m *MapD
	if mv != 0 {
		m = x.st.robj(int32(mv)).m
	}
	i := x.mapFind(m, in.rt.key, k)
	var v Value
	if i >= 0 {
		v = m.ents[i].v
	} else {
		v = in.rt.elem.zeroVal()
	}
	if in.flag {
		x.set(Tuple{v, i >= 0})
	} else {
		x.set(v)
	}
}

func (x *X) next(in *inst) {
	fr := x.fr
	it := x.op(fr, in.a).(Tuple)
	pp := it[1].(Ptr)
	pos := int(x.st.get1(pp).(uint64))
	x.mapAccess(it[0], false)
	if in.flag {
		s := it[0]
		n := strLen(s)
		if pos >= n {
			x.set(Tuple{false, uint64(0), uint64(0)})
			return
		}
		switch sv := s.(type) {
		case string:
			r, w := utf8.DecodeRuneInString(sv[pos:])
			x.st.set1(pp, uint64(pos+w))
			x.set(Tuple{true, uint64(pos), uint64(uint32(r))})
			return
		case *SymStr:
			b := sv.b[pos]
			if c, ok := b.(uint64); ok && c < 0x80 {
				x.st.set1(pp, uint64(pos+1))
				x.set(Tuple{true, uint64(pos), c})
				return
			}
			if t, ok := b.(*Term); ok && x.decide(tUlt(t, tConst(0x80, 8))) {
				x.st.set1(pp, uint64(pos+1))
				x.set(Tuple{true, uint64(pos), fromTerm(tZExt(t, 32))})
				return
			}
			// decode with the library function
			fn := x.e.lookupFn("unicode/utf8", "DecodeRuneInString")
			x.callClosure(&Closure{fn: fn}, []Value{strSub(s, pos, n)}, func(x *X, res Value) {
				t := res.(Tuple)
				w := t[1]
				var wi uint64
				if tw, ok := w.(*Term); ok {
					wi = x.concretize(tw)
				} else {
					wi = w.(uint64)
				}
				x.st.set1(pp, uint64(pos)+wi)
				x.fr.regs[x.in.dst] = Tuple{true, uint64(pos), t[0]}
				x.fr.pc++
			})
			return
		}
	}
	mv := x.mapv(it[0])
	var kz, vz Value = uint64(0), uint64(0)
	if len(in.rt.fields) == 3 {
		if in.rt.fields[1].kind != KInvalid {
			kz = in.rt.fields[1].zeroVal()
		}
		if in.rt.fields[2].kind != KInvalid {
			vz = in.rt.fields[2].zeroVal()
		}
	}
	if mv != 0 {
		m := x.st.robj(int32(mv)).m
		for pos < len(m.ents) && m.ents[pos].dead {
			pos++
		}
		if pos < len(m.ents) {
			e := m.ents[pos]
			x.st.set1(pp, uint64(pos+1))
			x.set(Tuple{true, e.k, e.v})
			return
		}
	}
	x.set(Tuple{false, kz, vz})
}

func (x *X) doSlice(in *inst) {
	fr := x.fr
	base := x.op(fr, in.a)
	get := func(o int32, def int64) int64 {
		if o == math.MinInt32 {
			return def
		}
		return x.intArg(x.op(fr, o), x.e.tInt)
	}
	if in.rt.kind == KString {
		n := int64(strLen(base))
		hi := get(in.c, n)
		lo := get(in.b, 0)
		if hi < 0 || hi > n {
			x.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			x.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
		}
		x.set(strSub(base, int(lo), int(hi)))
		return
	}
	var s Slice
	var es int32
	if in.rt.kind == KPtr {
		p := x.ptr(base)
		at := x.e.elemOf(in.rt)
		s = Slice{p.id, p.off, at.n, at.n}
		es = at.elem.size
	} else {
		s = x.slice(base)
		es = in.rt.elem.size
	}
	max := get(in.d, int64(s.cap))
	hi := get(in.c, int64(s.len))
	lo := get(in.b, 0)
	if in.d != math.MinInt32 {
		if max < 0 || max > int64(s.cap) {
			x.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [::%d] with capacity %d", max, s.cap))
		}
	}
	if hi < 0 || hi > max {
		x.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with capacity %d", hi, s.cap))
	}
	if lo < 0 || lo > hi {
		x.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
	}
	x.set(Slice{s.id, s.off + int32(lo)*es, int32(hi - lo), int32(max - lo)})
}

func (x *X) unop(in *inst) {
	fr := x.fr
	switch in.tok {
	case token.MUL:
		x.set(x.load(x.op(fr, in.a), in.rt2))
	case token.NOT:
		x.set(vNot(x.op(fr, in.a)))
	case token.SUB:
		switch v := x.op(fr, in.a).(type) {
		case uint64:
			x.set(-v & mask(in.rt.w))
		case *Term:
			x.set(fromTerm(tNeg(v)))
		case float64:
			x.set(-v)
		case complex128:
			x.set(-v)
		default:
			panic(unsupported{fmt.Sprintf("neg %T", v)})
		}
	case token.XOR:
		switch v := x.op(fr, in.a).(type) {
		case uint64:
			x.set(^v & mask(in.rt.w))
		case *Term:
			x.set(fromTerm(tBNot(v)))
		default:
			panic(unsupported{fmt.Sprintf("not %T", v)})
		}
	case token.ARROW:
		x.doRecv(in)
	default:
		panic(unsupported{"unop " + in.tok.String()})
	}
}

func f32(rt *RType, f float64) float64 {
	if rt.w == 32 {
		return float64(float32(f))
	}
	return f
}

func (x *X) binop(tok token.Token, rt, rt2 *RType, a, b Value) Value {
	switch tok {
	case token.EQL:
		return x.eq(rt, a, b)
	case token.NEQ:
		return vNot(x.eq(rt, a, b))
	}
	if p, ok := a.(Poison); ok {
		panic(unsupported{"poison: " + p.why})
	}
	if p, ok := b.(Poison); ok {
		panic(unsupported{"poison: " + p.why})
	}
	switch rt.kind {
	case KInt:
		if tok == token.SHL || tok == token.SHR {
			return x.shift(tok, rt, rt2, a, b)
		}
		ua, ok1 := a.(uint64)
		ub, ok2 := b.(uint64)
		if ok1 && ok2 {
			return x.intop(tok, rt, ua, ub)
		}
		ta, tb := toTerm(a, rt.w), toTerm(b, rt.w)
		switch tok {
		case token.ADD:
			return fromTerm(tBin(OAdd, ta, tb))
		case token.SUB:
			return fromTerm(tBin(OSub, ta, tb))
		case token.MUL:
			return fromTerm(tBin(OMul, ta, tb))
		case token.QUO, token.REM:
			if x.decide(tEq(tb, tConst(0, rt.w))) {
				x.rtPanic("runtime error: integer divide by zero")
			}
			o := OUDiv
			switch {
			case tok == token.QUO && rt.signed:
				o = OSDiv
			case tok == token.REM && rt.signed:
				o = OSRem
			case tok == token.REM:
				o = OURem
			}
			return fromTerm(tBin(o, ta, tb))
		case token.AND:
			return fromTerm(tBin(OBAnd, ta, tb))
		case token.OR:
			return fromTerm(tBin(OBOr, ta, tb))
		case token.XOR:
			return fromTerm(tBin(OBXor, ta, tb))
		case token.AND_NOT:
			return fromTerm(tBin(OBAnd, ta, tBNot(tb)))
		case token.LSS:
			if rt.signed {
				return fromTerm(tSlt(ta, tb))
			}
			return fromTerm(tUlt(ta, tb))
		case token.LEQ:
			if rt.signed {
				return fromTerm(tSle(ta, tb))
			}
			return fromTerm(tUle(ta, tb))
		case token.GTR:
			if rt.signed {
				return fromTerm(tSlt(tb, ta))
			}
			return fromTerm(tUlt(tb, ta))
		case token.GEQ:
			if rt.signed {
				return fromTerm(tSle(tb, ta))
			}
			return fromTerm(tUle(tb, ta))
		}
	case KString:
		switch tok {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return x.strLess(a, b)
		case token.GTR:
			return x.strLess(b, a)
		case token.LEQ:
			return vNot(x.strLess(b, a))
		case token.GEQ:
			return vNot(x.strLess(a, b))
		}
	case KFloat:
		fa, ok1 := a.(float64)
		fb, ok2 := b.(float64)
		if !ok1 || !ok2 {
			panic(unsupported{"symbolic float"})
		}
		switch tok {
		case token.ADD:
			return f32(rt, fa+fb)
		case token.SUB:
			return f32(rt, fa-fb)
		case token.MUL:
			return f32(rt, fa*fb)
		case token.QUO:
			return f32(rt, fa/fb)
		case token.LSS:
			return fa < fb
		case token.LEQ:
			return fa <= fb
		case token.GTR:
			return fa > fb
		case token.GEQ:
			return fa >= fb
		}
	case KBool:
		switch tok {
		case token.AND, token.LAND:
			return vAnd(a, b)
		case token.OR, token.LOR:
			return vNot(vAnd(vNot(a), vNot(b)))
		}
	}
	panic(unsupported{fmt.Sprintf("binop %v %v", tok, rt)})
}

func (x *X) intop(tok token.Token, rt *RType, a, b uint64) Value {
	m := mask(rt.w)
	switch tok {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO:
		if b == 0 {
			x.rtPanic("runtime error: integer divide by zero")
		}
		if rt.signed {
			return evalBin(OSDiv, rt.w, a, b)
		}
		return a / b
	case token.REM:
		if b == 0 {
			x.rtPanic("runtime error: integer divide by zero")
		}
		if rt.signed {
			return evalBin(OSRem, rt.w, a, b)
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	}
	if rt.signed {
		sa, sb := sx(a, rt.w), sx(b, rt.w)
		switch tok {
		case token.LSS:
			return sa < sb
		case token.LEQ:
			return sa <= sb
		case token.GTR:
			return sa > sb
		case token.GEQ:
			return sa >= sb
		}
	}
	switch tok {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic(unsupported{"intop " + tok.String()})
}

func (x *X) shift(tok token.Token, rt, rt2 *RType, a, b Value) Value {
	if ub, ok := b.(uint64); ok {
		if rt2.signed && sx(ub, rt2.w) < 0 {
			x.rtPanic("runtime error: negative shift amount")
		}
		if ua, ok := a.(uint64); ok {
			if tok == token.SHL {
				if ub >= 64 {
					return uint64(0)
				}
				return ua << ub & mask(rt.w)
			}
			if rt.signed {
				if ub >= 64 {
					ub = 63
				}
				return uint64(sx(ua, rt.w)>>ub) & mask(rt.w)
			}
			if ub >= 64 {
				return uint64(0)
			}
			return ua >> ub
		}
		if ub >= uint64(rt.w) {
			ub = uint64(rt.w)
		}
		t := a.(*Term)
		o := OShl
		if tok == token.SHR {
			o = OLShr
			if rt.signed {
				o = OAShr
			}
		}
		if ub == uint64(rt.w) && o == OAShr {
			ub--
		} else if ub == uint64(rt.w) {
			return uint64(0)
		}
		return fromTerm(tBin(o, t, tConst(ub, rt.w)))
	}
	tb := b.(*Term)
	if rt2.signed && !nonNeg(tb) {
		if x.decide(tSlt(tb, tConst(0, rt2.w))) {
			x.rtPanic("runtime error: negative shift amount")
		}
	}
	// saturate to the width
	var amt *Term
	if rt2.w > rt.w {
		big := tNot(tUlt(tb, tConst(uint64(rt.w), rt2.w)))
		amt = tIte(big, tConst(uint64(rt.w), rt.w), tExtract(tb, rt.w))
	} else {
		amt = tZExt(tb, rt.w)
	}
	o := OShl
	if tok == token.SHR {
		o = OLShr
		if rt.signed {
			o = OAShr
		}
	}
	return fromTerm(tBin(o, toTerm(a, rt.w), amt))
}

func (x *X) strLess(a, b Value) Value {
	if s, ok := a.(string); ok {
		if t, ok := b.(string); ok {
			return s < t
		}
	}
	ba, bb := strBytes(a), strBytes(b)
	n := len(ba)
	if len(bb) < n {
		n = len(bb)
	}
	// from the end: less(i) = a[i]<b[i] || a[i]==b[i] && less(i+1)
	res := tBool(len(ba) < len(bb))
	for i := n - 1; i >= 0; i-- {
		ta, tb := toTerm(ba[i], 8), toTerm(bb[i], 8)
		res = tOr(tUlt(ta, tb), tAnd(tEq(ta, tb), res))
	}
	return fromTerm(res)
}

// eq compares two values of static type rt.
func (x *X) eq(rt *RType, a, b Value) Value {
	switch va := a.(type) {
	case uint64:
		switch vb := b.(type) {
		case uint64:
			return va == vb
		case *Term:
			return fromTerm(tEq(tConst(va, vb.w), vb))
		}
	case *Term:
		return fromTerm(tEq(va, toTerm(b, va.w)))
	case bool:
		switch vb := b.(type) {
		case bool:
			return va == vb
		case *Term:
			if va {
				return vb
			}
			return vNot(vb)
		}
	case float64:
		return va == b.(float64)
	case complex128:
		return va == b.(complex128)
	case string, *SymStr:
		return x.strEq(a, b)
	case Ptr:
		switch vb := b.(type) {
		case Ptr:
			return va == vb
		case *SymPtr:
			if va.id == 0 {
				return false
			}
		case MapV, ChanV, Slice, *Closure:
			return isNilVal(b) && va.id == 0
		case *RType, *RVal:
			return false
		}
	case *SymPtr:
		if p, ok := b.(Ptr); ok && p.id == 0 {
			return false
		}
		pa := x.ptr(a)
		pb := x.ptr(b)
		return pa == pb
	case MapV:
		switch vb := b.(type) {
		case MapV:
			return va == vb
		case Ptr:
			return va == 0
		}
	case ChanV:
		switch vb := b.(type) {
		case ChanV:
			return va == vb
		case Ptr:
			return va == 0
		}
	case Slice:
		return va.id == 0 && isNilVal(b) || isNilVal(a) && isNilVal(b)
	case *Closure:
		return va == nil && isNilVal(b)
	case *RType:
		vb, ok := b.(*RType)
		return ok && va == vb
	case Iface:
		vb, ok := b.(Iface)
		if !ok {
			if isNilVal(b) {
				return va.rt == nil
			}
			panic(unsupported{fmt.Sprintf("compare iface with %T", b)})
		}
		if va.rt == nil || vb.rt == nil {
			return va.rt == vb.rt
		}
		if va.rt != vb.rt {
			return false
		}
		switch va.rt.kind {
		case KSlice, KMap, KFunc:
			x.rtPanic("runtime error: comparing uncomparable type " + va.rt.str)
		case KStruct, KArray:
			if !types.Comparable(va.rt.t) {
				x.rtPanic("runtime error: comparing uncomparable type " + va.rt.str)
			}
		}
		return x.eq(va.rt, va.v, vb.v)
	case Agg:
		vb := b.(Agg)
		var r Value = true
		for i := range va {
			r = vAnd(r, x.eq(nil, va[i], vb[i]))
			if r == false {
				return false
			}
		}
		return r
	case Poison:
		panic(unsupported{"poison: " + va.why})
	}
	panic(unsupported{fmt.Sprintf("compare %T with %T", a, b)})
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case Ptr:
		return x.id == 0
	case Slice:
		return x.id == 0
	case MapV:
		return x == 0
	case ChanV:
		return x == 0
	case *Closure:
		return x == nil
	case Iface:
		return x.rt == nil
	}
	return false
}

func (x *X) strEq(a, b Value) Value {
	if s, ok := a.(string); ok {
		if t, ok := b.(string); ok {
			return s == t
		}
	}
	if strLen(a) != strLen(b) {
		return false
	}
	ba, bb := strBytes(a), strBytes(b)
	r := tTrue
	for i := range ba {
		r = tAnd(r, tEq(toTerm(ba[i], 8), toTerm(bb[i], 8)))
		if r == tFalse {
			return false
		}
	}
	return fromTerm(r)
}

func (x *X) convert(from, to *RType, v Value) Value {
	if p, ok := v.(Poison); ok {
		panic(unsupported{"poison: " + p.why})
	}
	switch to.kind {
	case KInt:
		switch from.kind {
		case KInt:
			switch i := v.(type) {
			case uint64:
				if from.signed {
					return uint64(sx(i, from.w)) & mask(to.w)
				}
				return i & mask(to.w)
			case *Term:
				if from.signed {
					return fromTerm(tSExt(i, to.w))
				}
				return fromTerm(tZExt(i, to.w))
			}
		case KFloat:
			f := v.(float64)
			if to.signed {
				return uint64(int64(f)) & mask(to.w)
			}
			return uint64(f) & mask(to.w)
		case KUnsafePtr:
			if p, ok := v.(Ptr); ok { // uintptr(unsafe.Pointer): address arithmetic is not modelled, nil-ness is
				if p.id == 0 {
					return uint64(0)
				}
				return uint64(uint32(p.id))<<24 + uint64(p.off)*8 + 1<<60
			}
		}
	case KFloat:
		switch f := v.(type) {
		case float64:
			return f32(to, f)
		case uint64:
			if from.signed {
				return f32(to, float64(sx(f, from.w)))
			}
			return f32(to, float64(f))
		case *Term:
			i := x.concretize(f)
			if from.signed {
				return f32(to, float64(sx(i, from.w)))
			}
			return f32(to, float64(i))
		}
	case KComplex:
		return v
	case KString:
		switch from.kind {
		case KString:
			return v
		case KInt:
			var r rune
			switch i := v.(type) {
			case uint64:
				if from.signed {
					s := sx(i, from.w)
					if s < 0 || s > 0x10ffff {
						r = 0xfffd
					} else {
						r = rune(s)
					}
				} else if i > 0x10ffff {
					r = 0xfffd
				} else {
					r = rune(i)
				}
				return string(r)
			case *Term:
				t := tZExt(i, 64)
				if x.decide(tUlt(t, tConst(0x80, 64))) {
					return mkStr([]Value{fromTerm(tExtract(t, 8))})
				}
				return string(rune(x.concretize(i)))
			}
		case KSlice:
			s := x.slice(v)
			if from.elem.kind == KInt && from.elem.w == 8 {
				return mkStr(x.st.bytesOf(s))
			}
			// runes
			var out []byte
			for _, c := range x.st.bytesOf(s) {
				u, ok := c.(uint64)
				if !ok {
					u = x.concretize(c.(*Term))
				}
				out = utf8.AppendRune(out, rune(int32(u)))
			}
			return string(out)
		}
	case KSlice:
		switch from.kind {
		case KSlice:
			return v
		case KString:
			if to.elem.w == 8 {
				return x.st.newBytes(strBytes(v))
			}
			s, ok := v.(string)
			if !ok {
				s = x.concreteStr(v)
			}
			var rs []Value
			for _, r := range s {
				rs = append(rs, uint64(uint32(r)))
			}
			return x.st.newSlice(to.elem, rs)
		}
	case KPtr, KUnsafePtr:
		switch from.kind {
		case KPtr, KUnsafePtr:
			return v
		case KInt:
			if u, ok := v.(uint64); ok && u == 0 {
				return Ptr{}
			} else if ok && u>>60 == 1 {
				return Ptr{int32(uint32(u >> 24)), int32(u&(1<<24-1)) / 8}
			}
		}
	default:
		return v
	}
	panic(unsupported{fmt.Sprintf("convert %v to %v (%T)", from, to, v)})
}

func (x *X) concreteStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := v.(*SymStr).b
	r := make([]byte, len(b))
	for i, c := range b {
		if u, ok := c.(uint64); ok {
			r[i] = byte(u)
		} else {
			r[i] = byte(x.concretize(c.(*Term)))
		}
	}
	return string(r)
}

func (x *X) typeAssert(in *inst) {
	v, ok := x.op(x.fr, in.a).(Iface)
	if !ok {
		panic(unsupported{fmt.Sprintf("typeassert on %T", x.op(x.fr, in.a))})
	}
	good := false
	if v.rt != nil {
		if in.rt.kind == KIface {
			good = x.e.implements(v.rt, in.rt)
		} else {
			good = v.rt == in.rt
		}
	}
	var res Value
	if good {
		if in.rt.kind == KIface {
			res = v
		} else {
			res = v.v
		}
	} else {
		if !in.flag {
			if v.rt == nil {
				panic(goPanic{x.e.plainError("interface conversion: interface is nil, not " + in.rt.str)})
			}
			panic(goPanic{x.e.plainError("interface conversion: interface {} is " + v.rt.str + ", not " + in.rt.str)})
		}
		res = in.rt.zeroVal()
	}
	if in.flag {
		x.set(Tuple{res, good})
	} else {
		x.set(res)
	}
}

func (e *Engine) implements(t, iface *RType) bool {
	if t.impl == nil {
		t.impl = map[*RType]bool{}
	}
	if r, ok := t.impl[iface]; ok {
		return r
	}
	r := types.Implements(t.t, iface.u.(*types.Interface))
	t.impl[iface] = r
	return r
}

// plainError is a runtime error value (runtime.plainError / TypeAssertionError stand-in).
func (e *Engine) plainError(msg string) Value {
	v := e.runtimeError(msg).(Iface)
	return v
}
