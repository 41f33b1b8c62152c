package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// chop is one channel operation a thread offers at its current instruction.
type chop struct {
	ch   ChanV
	send bool
	val  Value
	idx  int // select case, or -1
}

// chanOffer describes the blocking channel operation thread t stands at. ok is false when it is not at one.
type chanOffer struct {
	ops        []chop
	nonblock   bool // select with default
	reflectVal bool
	in         *inst
}

func (x *X) offer(t *Thread) (chanOffer, bool) {
	if len(t.frames) == 0 {
		return chanOffer{}, false
	}
	fr := t.frames[len(t.frames)-1]
	in := &fr.fi.blks[fr.blk].insts[fr.pc]
	switch in.op {
	case opSend:
		return chanOffer{ops: []chop{{ch: chanOf(x.op(fr, in.a)), send: true, val: x.op(fr, in.b), idx: -1}}, in: in}, true
	case opUn:
		if in.tok == tokARROW {
			return chanOffer{ops: []chop{{ch: chanOf(x.op(fr, in.a)), idx: -1}}, in: in}, true
		}
	case opSelect:
		s := in.i.(*ssa.Select)
		o := chanOffer{nonblock: !in.flag, in: in}
		for i, c := range s.States {
			ch := chanOf(x.op(fr, in.args[2*i]))
			if c.Dir == types.SendOnly {
				o.ops = append(o.ops, chop{ch: ch, send: true, val: x.op(fr, in.args[2*i+1]), idx: i})
			} else {
				o.ops = append(o.ops, chop{ch: ch, idx: i})
			}
		}
		return o, true
	case opCall, opTramp, opRunDefers:
		cl, args := x.callAt(fr, in)
		if cl != nil && cl.fn != nil {
			switch cl.fn.String() {
			case "(reflect.Value).Recv":
				if rv := rvalOf(args[0]); rv != nil {
					return chanOffer{ops: []chop{{ch: chanOf(x.rget(rv)), idx: -1}}, in: in, reflectVal: true}, true
				}
			case "(reflect.Value).Send":
				if rv := rvalOf(args[0]); rv != nil {
					return chanOffer{ops: []chop{{ch: chanOf(x.rget(rv)), send: true, val: x.rassign(rvalOf(args[1]), rv.rt.elem), idx: -1}}, in: in, reflectVal: true}, true
				}
			}
		}
	}
	return chanOffer{}, false
}

// callAt returns the callee the thread is about to call at in, if that can be told.
func (x *X) callAt(fr *Frame, in *inst) (cl *Closure, args []Value) {
	switch in.op {
	case opCall:
		if in.bi != "" {
			return nil, nil
		}
		if in.call.IsInvoke() {
			if r, ok := x.op(fr, in.a).(Iface); !ok || r.rt == nil {
				return nil, nil
			}
		}
		c, a, _ := resolveCall(x, fr, in)
		return c, a
	case opTramp:
		return fr.regs[0].(*Closure), fr.regs[2].(Tuple)
	case opRunDefers:
		if n := len(fr.defers); n > 0 {
			return fr.defers[n-1].cl, fr.defers[n-1].args
		}
	}
	return nil, nil
}

func chanOf(v Value) ChanV {
	switch c := v.(type) {
	case ChanV:
		return c
	case Ptr:
		return 0
	case Poison:
		panic(unsupported{"poison chan"})
	}
	panic(unsupported{fmt.Sprintf("channel is %T", v)})
}

type partner struct {
	t  int
	op chop
}

// partners lists the threads waiting at the opposite operation on ch, in order of arrival.
func (x *X) partners(ch ChanV, wantSend bool, self int) []partner {
	var r []partner
	for i, t := range x.st.threads {
		if i == self || t.status != tYield && t.status != tBlock {
			continue
		}
		if t.status == tYield && x.e.noEarly(t) {
			continue
		}
		o, ok := x.offer(t)
		if !ok || o.nonblock {
			continue
		}
		for _, op := range o.ops {
			if op.ch == ch && op.send == wantSend {
				r = append(r, partner{i, op})
			}
		}
	}
	// order of arrival
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && x.st.threads[r[j].t].arrive < x.st.threads[r[j-1].t].arrive; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// noEarly: a thread at a start yield is not at its channel operation yet (it has pc 0 of its entry and was never run).
func (e *Engine) noEarly(t *Thread) bool { return false }

// chReady tells whether a channel operation can complete now.
func (x *X) chReady(op chop, self int) bool {
	if op.ch == 0 {
		return false
	}
	c := x.st.robj(int32(op.ch)).ch
	if op.send {
		if c.closed || len(c.buf) < c.cap {
			return true
		}
		return c.cap == 0 && len(x.partners(op.ch, false, self)) > 0
	}
	if c.closed || len(c.buf) > 0 {
		return true
	}
	if c.cap > 0 && !c.timer {
		return false // a full buffer with waiting senders is not empty
	}
	return len(x.partners(op.ch, true, self)) > 0
}

// complete finishes the pending channel operation of another thread.
func (x *X) complete(p partner, val Value, ok bool) {
	st := x.st
	t := st.ownThread(p.t)
	fr := st.ownFrame(t, len(t.frames)-1)
	in := &fr.fi.blks[fr.blk].insts[fr.pc]
	if t.status == tYield && in.site != 0 {
		// the partner arrives first
		sp := step{thr: t.name, site: in.site - 1, sel: p.op.idx, tm: st.now}
		n := len(st.trace)
		if st.granted && n > 0 {
			st.trace = append(append(st.trace[:n-1:n-1], sp), st.trace[n-1])
		} else {
			st.trace = append(st.trace[:n:n], sp)
		}
	}
	switch in.op {
	case opSend:
		fr.pc++
	case opUn:
		if in.flag {
			fr.regs[in.dst] = Tuple{val, ok}
		} else {
			fr.regs[in.dst] = val
		}
		fr.pc++
	case opSelect:
		fr.regs[in.dst] = x.selTuple(in, p.op.idx, val, ok)
		fr.pc++
	case opCall, opTramp:
		if !p.op.send {
			cl, args := x.callAt(fr, in)
			_ = cl
			rv := rvalOf(args[0])
			fr.regs[in.dst] = Tuple{mkRV(&RVal{rt: rv.rt.elem, v: val}), ok}
		} else if in.dst >= 0 {
			fr.regs[in.dst] = nil
		}
		fr.pc++
	default:
		panic(unsupported{"complete"})
	}
	t.status = tRun
	t.parked = false
	t.what = ""
}

func (x *X) selTuple(in *inst, idx int, val Value, ok bool) Value {
	s := in.i.(*ssa.Select)
	tp := Tuple{uint64(idx), ok}
	k := 2
	for i, c := range s.States {
		if c.Dir == types.RecvOnly {
			if i == idx {
				tp = append(tp, val)
			} else {
				tp = append(tp, in.rt.fields[k].zeroVal())
			}
			k++
		}
	}
	return tp
}

// trySend performs a send if it can complete.
func (x *X) trySend(ch ChanV, val Value) bool {
	st := x.st
	c := st.robj(int32(ch)).ch
	if c.closed {
		panic(goPanic{x.e.plainError("send on closed channel")})
	}
	if c.cap == 0 {
		if ps := x.partners(ch, false, st.cur); len(ps) > 0 {
			x.complete(ps[0], val, true)
			x.event(evSync, int64(ps[0].t), 0, 0)
			return true
		}
		return false
	}
	if len(c.buf) < c.cap {
		c = st.wobj(int32(ch)).ch
		c.buf = append(c.buf, val)
		x.event(evSend, int64(ch), 0, int32(c.cap))
		return true
	}
	return false
}

// tryRecv performs a receive if it can complete.
func (x *X) tryRecv(ch ChanV) (Value, bool, bool) {
	st := x.st
	o := st.robj(int32(ch))
	c := o.ch
	if len(c.buf) > 0 {
		c = st.wobj(int32(ch)).ch
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if c.timer {
			x.acq(chKey(ch))
		} else {
			x.event(evRecv, int64(ch), 0, int32(c.cap))
		}
		if !c.closed && c.cap > 0 && !c.timer {
			for _, p := range x.partners(ch, true, st.cur) {
				if st.threads[p.t].parked {
					c.buf = append(c.buf, p.op.val)
					x.eventOf(p.t, evSend, int64(ch), 0, int32(c.cap))
					x.complete(p, nil, true)
					break
				}
			}
		}
		return v, true, true
	}
	if c.closed {
		x.acq(chKey(ch))
		return o.rt.elem.zeroVal(), false, true
	}
	if c.cap == 0 {
		if ps := x.partners(ch, true, st.cur); len(ps) > 0 {
			v := ps[0].op.val
			x.complete(ps[0], nil, true)
			x.event(evSync, int64(ps[0].t), 0, 0)
			return v, true, true
		}
	}
	return nil, false, false
}

func (x *X) doSend(in *inst) {
	ch := chanOf(x.op(x.fr, in.a))
	if ch == 0 || !x.trySend(ch, x.op(x.fr, in.b)) {
		x.block("chan send")
		return
	}
	x.fr.pc++
}

func (x *X) block(what string) {
	x.blocked = true
	x.th.what = what
}

func (x *X) doRecv(in *inst) {
	ch := chanOf(x.op(x.fr, in.a))
	if ch == 0 {
		x.block("chan receive (nil chan)")
		return
	}
	v, ok, done := x.tryRecv(ch)
	if !done {
		x.block("chan receive")
		return
	}
	if in.flag {
		x.set(Tuple{v, ok})
	} else {
		x.set(v)
	}
}

func (x *X) doSelect(in *inst) {
	o, _ := x.offer(x.th)
	var ready []int
	for i, op := range o.ops {
		if x.chReady(op, x.st.cur) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if !in.flag {
			x.noteSel(in, -1)
			x.set(x.selTuple(in, -1, nil, false))
			return
		}
		x.block("select")
		return
	}
	k := 0
	if len(ready) > 1 {
		if x.st.calm || x.st.sels == 0 {
			k = 0 // calm phases explore one choice only
		} else {
			k = x.choose(len(ready), "select")
			if k > 0 && x.st.sels > 0 {
				x.st.sels--
			}
		}
	}
	idx := ready[k]
	x.noteSel(in, idx)
	op := o.ops[idx]
	if op.send {
		if !x.trySend(op.ch, op.val) {
			panic(unsupported{"internal: select send"})
		}
		x.set(x.selTuple(in, idx, nil, false))
		return
	}
	v, ok, done := x.tryRecv(op.ch)
	if !done {
		panic(unsupported{"internal: select recv"})
	}
	x.set(x.selTuple(in, idx, v, ok))
}

// noteSel records the chosen case in the schedule step that granted this select.
func (x *X) noteSel(in *inst, idx int) {
	st := x.st
	if in.site != 0 && st.granted && len(st.trace) > 0 {
		s := st.trace[len(st.trace)-1]
		s.sel = idx
		st.trace = append(st.trace[:len(st.trace)-1:len(st.trace)-1], s)
	}
}

func chKey(ch ChanV) int64 { return syncKey(Ptr{int32(ch), 0}, 3) }

func (x *X) closeChan(v Value) {
	ch := chanOf(v)
	if ch == 0 {
		panic(goPanic{x.e.plainError("close of nil channel")})
	}
	c := x.st.robj(int32(ch)).ch
	if c.closed {
		panic(goPanic{x.e.plainError("close of closed channel")})
	}
	x.st.wobj(int32(ch)).ch.closed = true
	x.rel(chKey(ch))
	// Receivers that are parked become enabled. Senders that are parked panic when they run.
}
