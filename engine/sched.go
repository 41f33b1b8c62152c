package main

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	tokLSS   = token.LSS
	tokARROW = token.ARROW
)

// ---- decisions

func (x *X) decideV(v Value) bool {
	switch b := v.(type) {
	case bool:
		return b
	case *Term:
		return x.decide(b)
	case Poison:
		panic(unsupported{"poison: " + b.why})
	}
	panic(unsupported{fmt.Sprintf("condition %T", v)})
}

// decide evaluates a condition under the path condition; when both outcomes are possible, the state forks: a clone that
// executes the current instruction again takes the other outcome.
func (x *X) decide(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	st := x.st
	if st.fidx < len(st.forced) {
		r := st.forced[st.fidx]
		st.fidx++
		return r.b != 0
	}
	b := c.eval(st.model) != 0
	var other *Term
	if b {
		other = tNot(c)
	} else {
		other = c
	}
	r := x.e.feasible(st, other)
	if r.sat == 0 {
		// implied; recorded so that a re-execution after a later fork follows the same course
		st.fidx++
		v := int32(0)
		if b {
			v = 1
		}
		st.forced = append(st.forced, fdec{v, x.cand})
		return b
	}
	if r.sat < 0 {
		x.e.inconclusive("solver gave no answer on a branch")
	}
	if r.sat > 0 {
		o := st.clone()
		o.pc = append(o.pc, other)
		m := Model{}
		for k, v := range st.model {
			m[k] = v
		}
		for k, v := range r.model {
			m[k] = v
		}
		o.model = m
		v := int32(1)
		if b {
			v = 0
		}
		o.forced = append(o.forced, fdec{v, x.cand})
		o.fidx = 0
		x.e.pushWork(o)
		// the clone took over the old generation of shared structures: refresh owned pointers
		x.refresh()
		st = x.st
	}
	st.fidx++
	if b {
		st.forced = append(st.forced, fdec{1, x.cand})
		st.pc = append(st.pc, c)
	} else {
		st.forced = append(st.forced, fdec{0, x.cand})
		st.pc = append(st.pc, tNot(c))
	}
	return b
}

// refresh re-owns the current thread and frame after the generation changed.
func (x *X) refresh() {
	st := x.st
	x.th = st.ownThread(st.cur)
	if n := len(x.th.frames); n > 0 {
		x.fr = st.ownFrame(x.th, n-1)
	}
}

// choose forks over n alternatives which are all possible.
func (x *X) choose(n int, what string) int {
	st := x.st
	if st.fidx < len(st.forced) {
		r := st.forced[st.fidx]
		st.fidx++
		return int(r.b)
	}
	v := x.e.schedVar(st)
	for i := n - 1; i >= 1; i-- {
		o := st.clone()
		o.forced = append(o.forced, fdec{int32(i), 0})
		o.fidx = 0
		o.pc = append(o.pc, tEq(v, tConst(uint64(i), 8)))
		o.model = o.model.with(v, uint64(i))
		o.nsched++
		x.e.pushWork(o)
	}
	x.refresh()
	st.forced = append(st.forced, fdec{0, 0})
	st.fidx++
	st.pc = append(st.pc, tEq(v, tConst(0, 8)))
	st.nsched++
	return 0
}

func (e *Engine) schedVar(st *State) *Term { return tVar(fmt.Sprintf("sched!%d", st.nsched), 8) }

func (m Model) with(v *Term, val uint64) Model {
	n := make(Model, len(m)+1)
	for k, x := range m {
		n[k] = x
	}
	n[v] = val
	return n
}

// feasible asks whether the path condition allows c.
func (e *Engine) feasible(st *State, c *Term) qres {
	return e.solver.check(e.slice(st.pc, c))
}

// slice selects the conjuncts connected to c through shared variables.
func (e *Engine) slice(pc []*Term, c *Term) []*Term {
	if len(c.vars) == 0 {
		return []*Term{c}
	}
	in := map[*Term]bool{}
	for _, v := range c.vars {
		in[v] = true
	}
	res := []*Term{c}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				res = append(res, p)
				for _, v := range p.vars {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	return res
}

// concretize makes a term concrete, forking over its feasible values.
func (x *X) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	st := x.st
	for n := 0; ; n++ {
		if n > 1100 {
			panic(unsupported{"concretize: too many values"})
		}
		var v uint64
		if st.fidx < len(st.forced) {
			v = st.forced[st.fidx].v
		} else {
			v = t.eval(st.model)
		}
		x.cand = v
		ok := x.decide(tEq(t, tConst(v, t.w)))
		if ok {
			return v
		}
	}
}

// ---- work list

func (e *Engine) pushWork(s *State) {
	e.forks++
	e.work = append(e.work, s)
}

func (e *Engine) popWork() *State {
	n := len(e.work)
	s := e.work[n-1]
	e.work = e.work[:n-1]
	return s
}

// ---- scheduling

// enabled tells whether thread t can make a step now.
func (x *X) enabled(i int) bool {
	st := x.st
	t := st.threads[i]
	switch t.status {
	case tDone:
		return false
	case tRun:
		return true
	}
	if len(t.frames) == 0 {
		return false
	}
	fr := t.frames[len(t.frames)-1]
	in := &fr.fi.blks[fr.blk].insts[fr.pc]
	if t.status == tYield && in.site == 0 && in.op != opRunDefers {
		return true // start of a goroutine
	}
	if o, ok := x.offer(t); ok {
		if o.nonblock {
			return true
		}
		for _, op := range o.ops {
			if x.chReady(op, i) {
				return true
			}
		}
		return false
	}
	switch in.op {
	case opCall, opTramp, opRunDefers:
		cl, args := x.callAt(fr, in)
		if cl == nil {
			return true
		}
		var it *intrinsic
		if cl.nat != nil {
			return true
		}
		it = x.e.intrinsicOf(cl.fn)
		if it != nil && it.ready != nil {
			sa, st2, sf, si := x.args, x.th, x.fr, x.in
			x.args, x.th, x.fr, x.in = args, t, fr, in
			r := it.ready(x)
			x.args, x.th, x.fr, x.in = sa, st2, sf, si
			return r
		}
		return true
	}
	return true
}

// schedule picks the next thread. It returns false when the state was forked away or the path ended.
func (x *X) schedule() {
	st := x.st
	e := x.e
	x.th, x.fr, x.in = nil, nil, nil
	for {
		// 1. threads that are not preemptible: run them first, the lowest index first
		for i, t := range st.threads {
			if t.status == tRun || t.status == tBlock && t.what != "vWait" && x.enabled(i) {
				st.cur = i
				th := st.ownThread(i)
				th.status = tRun
				th.what = ""
				return
			}
		}
		// 2. threads at visible operations
		var en, starved []int
		for i, t := range st.threads {
			if t.status == tYield && x.enabled(i) {
				if t.starve {
					starved = append(starved, i)
				} else {
					en = append(en, i)
				}
			}
		}
		if len(en) == 0 && len(starved) > 0 {
			for _, i := range starved {
				st.ownThread(i).starve = false
			}
			en = starved
		}
		if len(en) > 0 {
			e.nsched++
			// default: the thread that ran last, else the next one in round-robin order
			n := len(st.threads)
			sort.Slice(en, func(a, b int) bool {
				return (en[a]-st.last+n)%n < (en[b]-st.last+n)%n
			})
			if len(en) > 1 && e.visited(st, x) {
				panic(pathEnd{"merged", ""})
			}
			k := 0
			if len(en) > 1 && st.budget != 0 && !st.calm {
				k = e.forkSched(x, en)
			}
			x.grant(en[k])
			return
		}
		// 3. quiescence
		woke := false
		for i, t := range st.threads {
			if t.status == tBlock && t.what == "vWait" {
				th := st.ownThread(i)
				th.status = tRun
				th.what = "woken"
				st.cur = i
				st.trace = append(st.trace, step{thr: th.name, site: siteWait, sel: -1, tm: st.now})
				woke = true
				break
			}
		}
		if woke {
			return
		}
		if x.advanceTime() {
			continue
		}
		if st.threads[0].status == tDone {
			panic(pathEnd{"ok", ""})
		}
		if x.timersLeft() {
			panic(pathEnd{"bound", "virtual time"})
		}
		panic(pathEnd{"hang", x.describe()})
	}
}

func (x *X) timersLeft() bool {
	for _, t := range x.st.timers {
		if t.on {
			return true
		}
	}
	for _, t := range x.st.threads {
		if t.status == tBlock && t.wakeAt > 0 {
			return true
		}
	}
	return false
}

func (x *X) grant(i int) {
	st := x.st
	st.cur = i
	st.last = i
	th := st.ownThread(i)
	th.status = tRun
	th.parked = false
	st.granted = true
	site := -1
	fr := th.frames[len(th.frames)-1]
	in := &fr.fi.blks[fr.blk].insts[fr.pc]
	if in.op == opRunDefers && len(fr.defers) > 0 {
		site = fr.defers[len(fr.defers)-1].in.site - 1
	} else if in.site != 0 {
		site = in.site - 1
	} else {
		st.granted = false // goroutine start
	}
	st.trace = append(st.trace, step{thr: th.name, site: site, sel: -1, tm: st.now})
	if st.now != st.spinAt {
		st.spinAt, st.spin = st.now, 0
	}
	if st.spin++; st.spin > 3000 {
		panic(pathEnd{"spin", "goroutines run forever without waiting: " + x.describe()})
	}
}

// forkSched lets the schedule variable of this decision choose; alternatives cost one unit of the deviation budget each:
// either another thread is run first, or the thread whose turn it is does not run until nothing else can.
func (e *Engine) forkSched(x *X, en []int) int {
	st := x.st
	v := e.schedVar(st)
	for i := len(en); i >= 1; i-- {
		if i == len(en) && noStarve {
			continue
		}
		o := st.clone()
		o.pc = append(o.pc, tEq(v, tConst(uint64(i), 8)))
		o.model = o.model.with(v, uint64(i))
		o.nsched++
		if o.budget > 0 {
			o.budget--
		}
		xo := *x
		xo.st = o
		if i < len(en) {
			xo.grant(en[i])
		} else {
			// the thread whose turn it is waits until nothing else can run
			o.ownThread(en[0]).starve = true
			xo.grant(en[1])
		}
		e.pushWork(o)
	}
	st.pc = append(st.pc, tEq(v, tConst(0, 8)))
	st.nsched++
	return 0
}

// advanceTime moves the clock to the next timer or sleeper and fires everything due.
func (x *X) advanceTime() bool {
	st := x.st
	next := int64(-1)
	for _, t := range st.timers {
		if t.on && (next < 0 || t.when < next) {
			next = t.when
		}
	}
	for _, t := range st.threads {
		if t.status == tBlock && t.wakeAt > 0 && (next < 0 || t.wakeAt < next) {
			next = t.wakeAt
		}
	}
	if next < 0 || next > x.e.maxTime {
		return false
	}
	if st.threads[0].status == tDone {
		return false // the main function has returned
	}
	x.park()
	if next > st.now {
		st.now = next
	}
	st.trace = append(st.trace, step{site: siteTime, sel: -1, tm: st.now})
	var due []int
	for i, t := range st.timers {
		if t.on && t.when <= st.now {
			due = append(due, i)
		}
	}
	sort.Slice(due, func(a, b int) bool {
		ta, tb := st.timers[due[a]], st.timers[due[b]]
		if ta.when != tb.when {
			return ta.when < tb.when
		}
		return ta.seq < tb.seq
	})
	for _, i := range due {
		t := &st.timers[i]
		if t.period > 0 {
			t.when += t.period
			if t.when <= st.now {
				t.when = st.now + t.period
			}
		} else {
			t.on = false
		}
		if t.ch != 0 {
			c := st.wobj(int32(t.ch)).ch
			if len(c.buf) < c.cap {
				c.buf = append(c.buf, x.timeNow())
			}
		} else if t.fn != nil {
			fn := t.fn
			main := st.ownThread(0)
			sv := x.th
			x.th = main
			nt := x.spawn(fn, nil, -1)
			x.event(evForkKey, int64(nt.idx), syncKey(Ptr{t.obj, 0}, 2), 0)
			x.th = sv
		}
	}
	for i, t := range st.threads {
		if t.status == tBlock && t.wakeAt > 0 && t.wakeAt <= st.now {
			th := st.ownThread(i)
			th.wakeAt = -1
			th.status = tRun
		}
	}
	// drop dead one-shot timers without handle
	return true
}

// park marks the threads which wait in a send to a full channel: they are served in the order of their arrival as soon as
// there is room, whether they get to run or not.
func (x *X) park() {
	for i, t := range x.st.threads {
		if t.status != tYield || t.parked {
			continue
		}
		o, ok := x.offer(t)
		if !ok || o.nonblock {
			continue
		}
		for _, op := range o.ops {
			if op.send && op.ch != 0 {
				if c := x.st.robj(int32(op.ch)).ch; c.cap > 0 && !c.closed && len(c.buf) == c.cap {
					x.st.ownThread(i).parked = true
				}
			}
		}
	}
}

func (x *X) describe() string {
	s := ""
	for _, t := range x.st.threads {
		if t.status == tDone {
			continue
		}
		w := t.what
		loc := ""
		if len(t.frames) > 0 {
			for i := len(t.frames) - 1; i >= 0; i-- {
				f := t.frames[i]
				if f.fi.fn.Pkg == x.e.repoPkg || f.fi.fn.Parent() != nil {
					in := f.fi.blks[f.blk].insts[f.pc]
					loc = f.fi.fn.String() + " " + x.e.shortPos(in.i)
					break
				}
			}
		}
		s += fmt.Sprintf("[%s %s at %s] ", t.name, w, loc)
	}
	return s
}

func (e *Engine) shortPos(i ssa.Instruction) string {
	if i == nil {
		return ""
	}
	p := e.prog.Fset.Position(i.Pos())
	if !p.IsValid() {
		return ""
	}
	return fmt.Sprintf("%s:%d", p.Filename, p.Line)
}

// ---- running one state to its end

type outcome struct {
	kind string
	msg  string
}

// runState runs a state until its path ends. Forks go to the work list.
func (e *Engine) runState(st *State) (out outcome) {
	x := &X{e: e, st: st}
	var pending Value
	hasPending := false
	for {
		done := func() (done bool) {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				switch p := r.(type) {
				case goPanic:
					pending = p.val
					hasPending = true
					st.forced = st.forced[:0]
					st.granted = false
				case pathEnd:
					out = outcome{p.kind, p.msg}
					done = true
				case unsupported:
					out = outcome{"unsupported", p.msg + " in " + x.where()}
					done = true
				case restart:
					panic(p)
				default:
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "engine panic: %v at %s\n%s\n", r, x.where(), debug.Stack())
					}
					out = outcome{"unsupported", fmt.Sprintf("engine: %v in %s", r, x.where())}
					done = true
				}
			}()
			if hasPending {
				hasPending = false
				x.refresh()
				x.raise(pending)
			}
			for {
				if st.threads[st.cur].status == tRun {
					x.runThread()
				}
				if st.cur == 0 && st.threads[0].status == tDone || st.exitOK {
					panic(pathEnd{"ok", ""})
				}
				if e.deadline.Before(time.Now()) {
					panic(pathEnd{"timeout", "time budget"})
				}
				x.schedule()
			}
		}()
		if done {
			return out
		}
	}
}

func (x *X) where() string {
	if x.th == nil || len(x.th.frames) == 0 {
		return "scheduler"
	}
	s := ""
	for i := len(x.th.frames) - 1; i >= 0 && i > len(x.th.frames)-whereDepth; i-- {
		f := x.th.frames[i]
		pos := ""
		if int(f.blk) < len(f.fi.blks) && int(f.pc) < len(f.fi.blks[f.blk].insts) {
			pos = x.e.shortPos(f.fi.blks[f.blk].insts[f.pc].i)
		}
		s += f.fi.fn.String() + "@" + pos + " < "
	}
	return s
}

var noStarve = os.Getenv("VERIF_NOSTARVE") != ""

// whereDepth is how many frames of the stack the reasons for what could not be executed show
var whereDepth = func() int {
	if os.Getenv("VERIF_VERBOSE") != "" {
		return 30
	}
	return 6
}()
