package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// resolve evaluates callee and arguments of a call-like instruction without side effects.
// It returns either a closure or the name of a builtin.
func (x *X) resolve(in *inst) (*Closure, []Value, string) {
	return resolveCall(x, x.fr, in)
}

func resolveCall(x *X, fr *Frame, in *inst) (*Closure, []Value, string) {
	n := len(in.args)
	if in.bi != "" {
		args := make([]Value, n)
		for i, a := range in.args {
			args[i] = x.op(fr, a)
		}
		return nil, args, in.bi
	}
	if in.call.IsInvoke() {
		recv, ok := x.op(fr, in.a).(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", x.op(fr, in.a))})
		}
		if recv.rt == nil {
			x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		fn := in.mcache[recv.rt]
		if fn == nil {
			fn = x.e.methodOf(recv.rt, in.call.Method)
			in.mcache[recv.rt] = fn
		}
		args := make([]Value, n+1)
		args[0] = recv.v
		for i, a := range in.args {
			args[i+1] = x.op(fr, a)
		}
		return x.e.fnClosure(fn), args, ""
	}
	args := make([]Value, n)
	for i, a := range in.args {
		args[i] = x.op(fr, a)
	}
	if in.fn != nil {
		return x.e.fnClosure(in.fn), args, ""
	}
	switch c := x.op(fr, in.a).(type) {
	case *Closure:
		return c, args, ""
	case Poison:
		panic(unsupported{"poison func: " + c.why})
	default:
		panic(unsupported{fmt.Sprintf("call of %T", c)})
	}
}

func (e *Engine) fnClosure(fn *ssa.Function) *Closure {
	c := e.fcl[fn]
	if c == nil {
		c = &Closure{fn: fn}
		e.fcl[fn] = c
	}
	return c
}

func (e *Engine) methodOf(rt *RType, m *types.Func) *ssa.Function {
	fn := e.prog.LookupMethod(rt.t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported{fmt.Sprintf("no method %v on %v", m, rt)})
	}
	return fn
}

func (x *X) doCall(in *inst) {
	cl, args, bi := x.resolve(in)
	if bi != "" {
		r := x.builtin(bi, in, args)
		x.fr.regs[in.dst] = r
		x.fr.pc++
		return
	}
	x.callClosure(cl, args, nil)
}

// callClosure calls cl. Without cont, the result goes to the current instruction's register and the pc advances when the
// call returns; with cont, cont runs (with x.fr/x.in restored to the caller) instead.
func (x *X) callClosure(cl *Closure, args []Value, cont func(x *X, res Value)) {
	if cl == nil {
		x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if cl.nat != nil && cl.nat.target != nil {
		x.callClosure(x.e.fnClosure(cl.nat.target), append(append([]Value(nil), cl.nat.pre...), args...), cont)
		return
	}
	if cl.nat != nil {
		sa, sf := x.args, x.fn
		x.args = args
		r := cl.nat.f(x)
		x.args, x.fn = sa, sf
		if x.blocked || x.pushed {
			return
		}
		x.deliver(r, cont)
		return
	}
	fn := cl.fn
	if it := x.e.intrinsicOf(fn); it != nil {
		sa, sf := x.args, x.fn
		x.args, x.fn = args, fn
		if cont != nil {
			x.nested = true
		}
		r := it.f(x)
		x.args, x.fn = sa, sf
		x.nested = false
		if x.blocked {
			if cont != nil && !it.okNested {
				panic(unsupported{"nested blocking intrinsic " + fn.String()})
			}
			return
		}
		if r == notHandled {
			x.pushed = false
			x.push(fn, cl.bind, args, cont)
			return
		}
		if x.pushed {
			if cont != nil {
				panic(unsupported{"nested call pushing intrinsic " + fn.String()})
			}
			return
		}
		x.deliver(r, cont)
		return
	}
	if m := x.e.modelOf(fn); m != nil {
		fn = m
	}
	x.push(fn, cl.bind, args, cont)
}

func (x *X) deliver(r Value, cont func(x *X, res Value)) {
	if cont != nil {
		cont(x, r)
		return
	}
	if x.in.dst >= 0 {
		x.fr.regs[x.in.dst] = r
	}
	x.fr.pc++
}

func (x *X) push(fn *ssa.Function, bind, args []Value, cont func(x *X, res Value)) *Frame {
	fi := x.e.info(fn)
	if len(x.th.frames) > 2000 {
		panic(pathEnd{"bound", "stack depth"})
	}
	f := &Frame{gen: x.st.gen, fi: fi, regs: make([]Value, fi.nregs), onRet: cont}
	copy(f.regs, args)
	copy(f.regs[len(args):], bind)
	if len(args)+len(bind) != fi.nparam {
		panic(unsupported{fmt.Sprintf("internal: %v called with %d+%d args, wants %d", fn, len(args), len(bind), fi.nparam)})
	}
	x.th.frames = append(x.th.frames, f)
	x.pushed = true
	if x.e.fnHit != nil {
		x.e.fnHit[fi]++
	}
	return f
}

// ret returns from the current frame.
func (x *X) ret(res Value) {
	f := x.fr
	x.th.frames = x.th.frames[:len(x.th.frames)-1]
	n := len(x.th.frames)
	if n == 0 {
		x.th.status = tDone
		return
	}
	caller := x.st.ownFrame(x.th, n-1)
	x.fr = caller
	x.in = &caller.fi.blks[caller.blk].insts[caller.pc]
	if f.isDefer {
		switch caller.pmode {
		case 0:
			// back in RunDefers, which is executed again
		case 1:
			x.unwind()
		case 2:
			caller.pmode = 3
			caller.pval = nil
			x.contRecover()
		case 3:
			x.contRecover()
		}
		return
	}
	if f.onRet != nil {
		x.pushed = false
		f.onRet(x, res)
		return
	}
	if f.noStore {
		return
	}
	if x.in.dst >= 0 {
		caller.regs[x.in.dst] = res
	}
	caller.pc++
}

// contRecover runs the remaining deferred calls of a recovered frame and then leaves it through its recover block.
func (x *X) contRecover() {
	fr := x.fr
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if x.runDeferred(d) {
			return
		}
	}
	fr.pmode = 0
	if fr.fi.rec >= 0 {
		fr.blk = fr.fi.rec
		fr.pc = 0
		return
	}
	x.ret(x.e.rt(fr.fi.fn.Signature.Results()).zeroResults())
}

func (r *RType) zeroResults() Value {
	switch len(r.fields) {
	case 0:
		return nil
	case 1:
		return r.fields[0].zeroVal()
	}
	return r.zeroVal()
}

// runDeferred starts a deferred call; it reports whether a frame was pushed.
func (x *X) runDeferred(d deferRec) bool {
	if d.bi != "" {
		switch d.bi {
		case "recover":
		default:
			x.builtin(d.bi, d.in, d.args)
		}
		return false
	}
	if d.cl == nil {
		x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if d.cl.nat == nil && x.e.intrinsicOf(d.cl.fn) == nil {
		fn := d.cl.fn
		if m := x.e.modelOf(fn); m != nil {
			fn = m
		}
		f := x.push(fn, d.cl.bind, d.args, nil)
		f.isDefer = true
		return true
	}
	f := x.pushTramp(d.cl, d.args)
	f.isDefer = true
	return true
}

// pushTramp pushes a frame that calls a native function, so that it may block.
func (x *X) pushTramp(cl *Closure, args []Value) *Frame {
	f := &Frame{gen: x.st.gen, fi: x.e.trampFI, regs: []Value{cl, nil, Tuple(args)}}
	x.th.frames = append(x.th.frames, f)
	x.pushed = true
	return f
}

func (x *X) runDefers(in *inst) {
	fr := x.fr
	if len(fr.defers) == 0 {
		fr.pc++
		return
	}
	d := fr.defers[len(fr.defers)-1]
	if d.in.site != 0 && x.e.mt(x.st) && !x.st.granted {
		x.th.status = tYield
		x.st.stamp++
		x.th.arrive = x.st.stamp
		return
	}
	if d.in.site != 0 {
		x.st.granted = false
	}
	fr.defers = fr.defers[:len(fr.defers)-1]
	x.runDeferred(d)
}

// raise starts a panic in the current thread.
func (x *X) raise(v Value) {
	n := len(x.th.frames)
	fr := x.st.ownFrame(x.th, n-1)
	fr.pmode = 1
	fr.pval = v
	x.fr = fr
	x.unwind()
}

// unwind continues panicking in the top frame.
func (x *X) unwind() {
	for {
		n := len(x.th.frames)
		fr := x.st.ownFrame(x.th, n-1)
		x.fr = fr
		v := fr.pval
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			if x.runDeferred(d) {
				return
			}
			if fr.pmode == 2 {
				fr.pmode = 3
				x.contRecover()
				return
			}
			continue
		}
		x.th.frames = x.th.frames[:n-1]
		if n-1 == 0 {
			panic(pathEnd{"crash", x.panicText(v)})
		}
		below := x.st.ownFrame(x.th, n-2)
		below.pmode = 1
		below.pval = v
	}
}

func (x *X) panicText(v Value) string {
	iv, ok := v.(Iface)
	if !ok || iv.rt == nil {
		return "panic(nil)"
	}
	switch s := iv.v.(type) {
	case string:
		return "panic: " + s
	case Ptr:
		// error created by errors.New / fmt.Errorf: first string cell
		if s.id != 0 {
			o := x.st.robj(s.id)
			for i := s.off; i < o.n && i < s.off+2; i++ {
				if t, ok := o.get(i).(string); ok {
					return "panic: " + t
				}
			}
		}
	case Agg:
		return fmt.Sprintf("panic: %s %v", iv.rt.str, s)
	}
	return fmt.Sprintf("panic: %v", iv)
}

// doRecover implements recover() called by the current frame.
func (x *X) doRecover() Value {
	n := len(x.th.frames)
	// the caller of recover is frame n-1; it must be a deferred call (possibly through a wrapper)
	i := n - 1
	for i > 0 && !x.th.frames[i].isDefer && x.th.frames[i-1].fi.fn.Synthetic != "" {
		i--
	}
	if i <= 0 || !x.th.frames[i].isDefer {
		return Iface{}
	}
	below := x.st.ownFrame(x.th, i-1)
	if below.pmode != 1 {
		return Iface{}
	}
	below.pmode = 2
	return below.pval
}

// spawn starts a goroutine; kind is 0 for library code, 1 for the code under test and 2 for the harness.
func (x *X) spawn(cl *Closure, args []Value, kind int) *Thread {
	if cl == nil {
		x.rtPanic("runtime error: go of nil func value")
	}
	st := x.st
	parent := x.th
	t := &Thread{gen: st.gen, idx: len(st.threads)}
	if kind <= 0 {
		// goroutines of libraries are not controlled in a replay
		st.nlib++
		t.name = fmt.Sprintf("L%d", st.nlib)
	} else {
		t.name = fmt.Sprintf("%s.%d", parent.name, parent.nspawn)
		parent.nspawn++
	}
	if cl.nat != nil || x.e.intrinsicOf(cl.fn) != nil {
		t.frames = []*Frame{{gen: st.gen, fi: x.e.trampFI, regs: []Value{cl, nil, Tuple(args)}}}
	} else {
		fn := cl.fn
		if m := x.e.modelOf(fn); m != nil {
			fn = m
		}
		fi := x.e.info(fn)
		f := &Frame{gen: st.gen, fi: fi, regs: make([]Value, fi.nregs)}
		copy(f.regs, args)
		copy(f.regs[len(args):], cl.bind)
		t.frames = []*Frame{f}
		if x.e.fnHit != nil {
			x.e.fnHit[fi]++
		}
	}
	st.threads = append(st.threads, t)
	if raceOn && kind != -1 {
		x.event(evFork, int64(t.idx), 0, 0)
	}
	st.stamp++
	t.arrive = st.stamp
	if kind == 1 && x.e.mt(st) {
		t.status = tYield
	} else {
		t.status = tRun
	}
	return t
}

func (x *X) builtin(name string, in *inst, args []Value) Value {
	st := x.st
	switch name {
	case "len":
		switch v := args[0].(type) {
		case string:
			return uint64(len(v))
		case *SymStr:
			return uint64(len(v.b))
		case Slice:
			return uint64(v.len)
		case MapV:
			if v == 0 {
				return uint64(0)
			}
			x.mapTouch(v, false)
			return uint64(st.robj(int32(v)).m.n)
		case ChanV:
			if v == 0 {
				return uint64(0)
			}
			c := st.robj(int32(v)).ch
			if c.timer {
				return uint64(0)
			}
			return uint64(len(c.buf))
		case Agg:
			return uint64(in.rt.n)
		case Ptr:
			return uint64(x.e.elemOf(in.rt).n)
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return uint64(v.cap)
		case ChanV:
			if v == 0 {
				return uint64(0)
			}
			c := st.robj(int32(v)).ch
			if c.timer {
				return uint64(0)
			}
			return uint64(c.cap)
		case Agg:
			return uint64(in.rt.n)
		case Ptr:
			return uint64(x.e.elemOf(in.rt).n)
		}
	case "append":
		s := x.slice(args[0])
		var add []Value
		es := in.rt.elem.size
		n := int32(0)
		switch v := args[1].(type) {
		case Slice:
			n = v.len
			if n > 0 {
				x.access(v.id, v.off, n*es, false)
				add = st.readCells(v.id, v.off, n*es)
			}
		case string, *SymStr:
			add = strBytes(v)
			n = int32(len(add))
		default:
			panic(unsupported{fmt.Sprintf("append %T", v)})
		}
		if n == 0 {
			return s
		}
		return x.appendCells(s, in.rt.elem, add, n)
	case "copy":
		d := x.slice(args[0])
		var src []Value
		es := in.rt.elem.size
		switch v := args[1].(type) {
		case Slice:
			n := v.len
			if d.len < n {
				n = d.len
			}
			if n > 0 {
				x.access(v.id, v.off, n*es, false)
				src = st.readCells(v.id, v.off, n*es)
			}
		case string, *SymStr:
			src = strBytes(v)
			if int(d.len) < len(src) {
				src = src[:d.len]
			}
		}
		if len(src) == 0 {
			return uint64(0)
		}
		x.access(d.id, d.off, int32(len(src)), true)
		st.writeCells(d.id, d.off, src)
		return uint64(len(src) / int(es))
	case "close":
		x.closeChan(args[0])
		return nil
	case "delete":
		x.mapAccess(args[0], true)
		mv := x.mapv(args[0])
		if mv == 0 {
			return nil
		}
		i := x.mapFind(st.robj(int32(mv)).m, in.rt.key, args[1])
		if i >= 0 {
			st.mapDel(mv, i)
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case MapV:
			x.mapAccess(v, true)
			if v != 0 {
				m := st.wobj(int32(v)).m
				*m = MapD{idx: map[string]int{}}
			}
		case Slice:
			for i := int32(0); i < v.len; i++ {
				st.writeCells(v.id, v.off+i*in.rt.elem.size, in.rt.elem.zero)
			}
		}
		return nil
	case "recover":
		return x.doRecover()
	case "panic":
		panic(goPanic{args[0]})
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less Value
			switch in.rt.kind {
			case KString:
				less = x.strLess(a, r)
			default:
				less = x.binop(tokLSS, in.rt, in.rt, a, r)
			}
			if name == "max" {
				switch in.rt.kind {
				case KString:
					less = x.strLess(r, a)
				default:
					less = x.binop(tokLSS, in.rt, in.rt, r, a)
				}
			}
			if l, ok := less.(bool); ok {
				if l {
					r = a
				}
			} else {
				r = fromTerm(tIte(less.(*Term), toTerm(a, in.rt.w), toTerm(r, in.rt.w)))
			}
		}
		return r
	case "String": // unsafe.String(ptr, len)
		n := x.intArg(args[1], x.e.tInt)
		if n == 0 {
			return ""
		}
		p := x.ptr(args[0])
		return mkStr(st.readCells(p.id, p.off, int32(n)))
	case "StringData":
		b := strBytes(args[0])
		s := st.newBytes(b)
		return Ptr{s.id, s.off}
	case "SliceData":
		s := x.slice(args[0])
		return Ptr{s.id, s.off}
	case "Slice":
		n := x.intArg(args[1], x.e.tInt)
		if isNilPtr(args[0]) {
			return Slice{}
		}
		p := x.ptr(args[0])
		return Slice{p.id, p.off, int32(n), int32(n)}
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	}
	panic(unsupported{fmt.Sprintf("builtin %s(%T)", name, args)})
}

func (x *X) appendCells(s Slice, elem *RType, add []Value, n int32) Slice {
	st := x.st
	es := elem.size
	if s.len+n <= s.cap {
		st.writeCells(s.id, s.off+s.len*es, add)
		return Slice{s.id, s.off, s.len + n, s.cap}
	}
	nc := s.cap * 2
	if s.cap > 256 {
		nc = s.cap + s.cap/4 + 192
	}
	if nc < s.len+n {
		nc = s.len + n
	}
	if es == 1 && nc < 8 {
		nc = 8
	}
	id := st.alloc(elem, nc)
	if s.len > 0 {
		st.writeCells(id, 0, st.readCells(s.id, s.off, s.len*es))
	}
	st.writeCells(id, s.len*es, add)
	return Slice{id, 0, s.len + n, nc}
}
