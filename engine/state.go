package main

import (
	"fmt"
	"strconv"
)

const chunkSz = 64

type chunk struct {
	gen uint32
	c   []Value
}

// Obj is a heap object: memory cells, a map or a channel.
type Obj struct {
	gen   uint32
	n     int32
	rt    *RType // element type of cells (for debugging) or the map/chan type
	zero  []Value
	small []Value
	big   []*chunk
	m     *MapD
	ch    *ChanD
}

type mapEnt struct {
	k, v Value
	dead bool
}
type MapD struct {
	ents []mapEnt
	idx  map[string]int
	n    int
	sym  int // number of live entries with symbolic keys
}
type ChanD struct {
	buf    []Value
	cap    int
	closed bool
	timer  bool
}

type page struct {
	gen uint32
	o   [64]*Obj
}

type Frame struct {
	gen     uint32
	fi      *FnInfo
	regs    []Value
	blk     int32
	pc      int32
	defers  []deferRec
	pmode   int8 // 0 none, 1 panicking, 2 recovered by a running deferred call, 3 running remaining defers after recovery
	pval    Value
	isDefer bool
	onRet   func(x *X, res Value) // native continuation instead of storing to the caller's register
	noStore bool                  // result is dropped (defer, go)
}

type deferRec struct {
	cl   *Closure
	args []Value
	bi   string // builtin name
	in   *inst
}

type tstatus uint8

const (
	tRun tstatus = iota
	tYield
	tBlock
	tDone
)

type Thread struct {
	gen    uint32
	name   string
	frames []*Frame
	status tstatus
	nspawn int
	arrive int
	wakeAt int64 // for sleep: >0
	idx    int
	what   string // description of what it blocks on (debugging)
	daemon bool
	parked bool // waits in a send to a full channel since the clock has moved
	starve bool // not scheduled until nothing else can run
}

type timerRec struct {
	obj    int32 // timer object id (0 for engine timers)
	when   int64
	seq    int
	period int64
	ch     ChanV
	fn     *Closure
	on     bool
}

type step struct {
	thr  string
	site int // visible site id, -1 for start
	sel  int // chosen select case, -1 none
	tm   int64
}

// special sites of steps
const (
	siteStart = -1
	siteWait  = -2
	siteTime  = -3
)

type State struct {
	e       *Engine
	id      int
	gen     uint32
	pages   []*page
	nobj    int32
	gpages  []*page
	threads []*Thread
	cur     int
	pc      []*Term
	model   Model
	forced  []fdec
	fidx    int
	now     int64
	timers  []timerRec
	tseq    int
	stamp   int
	occ     map[string]int
	trace   []step
	obs     []obsRec
	reached []string
	steps   int
	calm    bool // no deviations now
	budget  int  // remaining scheduling deviations, -1 unlimited
	sels    int  // remaining choices of another than the first ready case of a select, -1 unlimited
	nsched  int
	spin    int // scheduling decisions since the clock was advanced
	spinAt  int64
	granted bool
	nlib    int
	last    int // thread that ran last at a scheduling decision
	randCtr uint64
	pools   map[int64][]Value
	names   []nameRec
	tags    map[string]Value
	inBase  bool
	exitOK  bool
	depth   int
	ev      *evNode // events for the data race analysis, the last one first
	nev     int
}

// fdec is a decision of the instruction being executed; v is the candidate value of a concretisation.
type fdec struct {
	b int32
	v uint64
}

type obsRec struct {
	name string
	v    Value
}
type nameRec struct {
	name string
	t    *Term
	v    Value // concrete when t == nil
}

func (st *State) clone() *State {
	c := *st
	st.e.nstates++
	c.id = st.e.nstates
	st.e.genCtr += 2
	st.gen = st.e.genCtr - 1
	c.gen = st.e.genCtr
	c.pages = append([]*page(nil), st.pages...)
	c.gpages = append([]*page(nil), st.gpages...)
	c.threads = append([]*Thread(nil), st.threads...)
	c.timers = append([]timerRec(nil), st.timers...)
	c.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = c.pc
	c.forced = append([]fdec(nil), st.forced...)
	c.trace = st.trace[:len(st.trace):len(st.trace)]
	st.trace = c.trace
	c.obs = st.obs[:len(st.obs):len(st.obs)]
	st.obs = c.obs
	c.reached = st.reached[:len(st.reached):len(st.reached)]
	st.reached = c.reached
	c.names = st.names[:len(st.names):len(st.names)]
	st.names = c.names
	c.occ = map[string]int{}
	for k, v := range st.occ {
		c.occ[k] = v
	}
	c.pools = map[int64][]Value{}
	for k, v := range st.pools {
		c.pools[k] = v[:len(v):len(v)]
		st.pools[k] = c.pools[k]
	}
	c.tags = map[string]Value{}
	for k, v := range st.tags {
		c.tags[k] = v
	}
	return &c
}

func (st *State) th() *Thread { return st.ownThread(st.cur) }

func (st *State) ownThread(i int) *Thread {
	t := st.threads[i]
	if t.gen != st.gen {
		n := *t
		n.gen = st.gen
		n.frames = append(make([]*Frame, 0, len(t.frames)+4), t.frames...)
		st.threads[i] = &n
		return &n
	}
	return t
}

func (st *State) ownFrame(t *Thread, i int) *Frame {
	f := t.frames[i]
	if f.gen != st.gen {
		n := *f
		n.gen = st.gen
		n.regs = append([]Value(nil), f.regs...)
		n.defers = append([]deferRec(nil), f.defers...)
		t.frames[i] = &n
		return &n
	}
	return f
}

// ---- heap

func (st *State) robj(id int32) *Obj {
	if id > 0 {
		return st.pages[id>>6].o[id&63]
	}
	if id == 0 {
		panic("robj(0)")
	}
	g := -id
	if int(g>>6) < len(st.gpages) && st.gpages[g>>6] != nil {
		if o := st.gpages[g>>6].o[g&63]; o != nil {
			return o
		}
	}
	if st.e.base != st && st.e.base != nil {
		return st.e.base.robj(id)
	}
	return nil
}

func (st *State) wobj(id int32) *Obj {
	var pp **page
	k := id
	if id > 0 {
		pp = &st.pages[id>>6]
	} else {
		k = -id
		for int(k>>6) >= len(st.gpages) {
			st.gpages = append(st.gpages, nil)
		}
		pp = &st.gpages[k>>6]
		if *pp == nil {
			*pp = &page{gen: st.gen}
		}
	}
	p := *pp
	if p.gen != st.gen {
		n := *p
		n.gen = st.gen
		*pp = &n
		p = &n
	}
	o := p.o[k&63]
	if o == nil && id < 0 {
		o = st.e.base.robj(id) // copied below: its generation differs
	}
	if o.gen != st.gen {
		n := *o
		n.gen = st.gen
		if o.small != nil {
			n.small = append([]Value(nil), o.small...)
		}
		if o.big != nil {
			n.big = append([]*chunk(nil), o.big...)
		}
		if o.m != nil {
			m := *o.m
			m.ents = append([]mapEnt(nil), o.m.ents...)
			m.idx = make(map[string]int, len(o.m.idx))
			for k, v := range o.m.idx {
				m.idx[k] = v
			}
			n.m = &m
		}
		if o.ch != nil {
			c := *o.ch
			c.buf = append([]Value(nil), o.ch.buf...)
			n.ch = &c
		}
		p.o[k&63] = &n
		o = &n
	}
	return o
}

func (st *State) addObj(o *Obj) int32 {
	if st.inBase {
		st.e.nextG++
		st.setGlobal(st.e.nextG, o)
		return -st.e.nextG
	}
	if st.nobj == 0 {
		st.nobj = 1
	}
	id := st.nobj
	st.nobj++
	o.gen = st.gen
	for int(id>>6) >= len(st.pages) {
		st.pages = append(st.pages, &page{gen: st.gen})
	}
	p := st.pages[id>>6]
	if p.gen != st.gen {
		n := *p
		n.gen = st.gen
		st.pages[id>>6] = &n
		p = &n
	}
	p.o[id&63] = o
	return id
}

func (st *State) setGlobal(gid int32, o *Obj) {
	o.gen = st.gen
	for int(gid>>6) >= len(st.gpages) {
		st.gpages = append(st.gpages, nil)
	}
	p := st.gpages[gid>>6]
	if p == nil {
		p = &page{gen: st.gen}
		st.gpages[gid>>6] = p
	} else if p.gen != st.gen {
		n := *p
		n.gen = st.gen
		st.gpages[gid>>6] = &n
		p = &n
	}
	p.o[gid&63] = o
}

func newCells(rt *RType, n int32) *Obj {
	o := &Obj{rt: rt, n: n * rt.size, zero: rt.zero}
	if o.n <= chunkSz {
		o.small = make([]Value, o.n)
		z := len(rt.zero)
		for i := range o.small {
			o.small[i] = rt.zero[i%z]
		}
	} else {
		o.big = make([]*chunk, (o.n+chunkSz-1)/chunkSz)
	}
	return o
}

// alloc makes an object of n elements of type rt.
func (st *State) alloc(rt *RType, n int32) int32 { return st.addObj(newCells(rt, n)) }

func (o *Obj) get(i int32) Value {
	if i < 0 || i >= o.n {
		panic(unsupported{fmt.Sprintf("internal: cell %d of %d (%v)", i, o.n, o.rt)})
	}
	if o.small != nil {
		return o.small[i]
	}
	c := o.big[i/chunkSz]
	if c == nil {
		return o.zero[int(i)%len(o.zero)]
	}
	return c.c[i%chunkSz]
}

func (st *State) put(o *Obj, i int32, v Value) {
	if i < 0 || i >= o.n {
		panic(unsupported{fmt.Sprintf("internal: cell %d of %d (%v)", i, o.n, o.rt)})
	}
	if o.small != nil {
		o.small[i] = v
		return
	}
	c := o.big[i/chunkSz]
	if c == nil {
		c = &chunk{gen: st.gen, c: make([]Value, chunkSz)}
		base := (i / chunkSz) * chunkSz
		for k := range c.c {
			c.c[k] = o.zero[(int(base)+k)%len(o.zero)]
		}
		o.big[i/chunkSz] = c
	} else if c.gen != st.gen {
		c = &chunk{gen: st.gen, c: append([]Value(nil), c.c...)}
		o.big[i/chunkSz] = c
	}
	c.c[i%chunkSz] = v
}

func (st *State) readCells(id, off, n int32) []Value {
	o := st.robj(id)
	r := make([]Value, n)
	if o.small != nil {
		if int(off+n) > len(o.small) {
			panic(unsupported{fmt.Sprintf("internal: cells %d+%d of %d (%v)", off, n, o.n, o.rt)})
		}
		copy(r, o.small[off:off+n])
		return r
	}
	for i := int32(0); i < n; i++ {
		r[i] = o.get(off + i)
	}
	return r
}
func (st *State) writeCells(id, off int32, v []Value) {
	if len(v) == 0 {
		return
	}
	o := st.wobj(id)
	if o.small != nil {
		if int(off)+len(v) > len(o.small) {
			panic(unsupported{fmt.Sprintf("internal: cells %d+%d of %d (%v)", off, len(v), o.n, o.rt)})
		}
		copy(o.small[off:], v)
		return
	}
	for i, x := range v {
		st.put(o, off+int32(i), x)
	}
}

func (st *State) get1(p Ptr) Value    { return st.robj(p.id).get(p.off) }
func (st *State) set1(p Ptr, v Value) { st.put(st.wobj(p.id), p.off, v) }

// bytesOf returns the byte cells of a slice.
func (st *State) bytesOf(s Slice) []Value {
	if s.len == 0 {
		return nil
	}
	return st.readCells(s.id, s.off, s.len)
}

func (st *State) newBytes(b []Value) Slice {
	if len(b) == 0 {
		id := st.alloc(st.e.tByte, 0)
		return Slice{id, 0, 0, 0}
	}
	id := st.alloc(st.e.tByte, int32(len(b)))
	st.writeCells(id, 0, b)
	return Slice{id, 0, int32(len(b)), int32(len(b))}
}

func (st *State) newSlice(elem *RType, vals []Value) Slice {
	id := st.alloc(elem, int32(len(vals)))
	for i, v := range vals {
		st.writeCells(id, int32(i)*elem.size, cellsOf(elem, v))
	}
	return Slice{id, 0, int32(len(vals)), int32(len(vals))}
}

func (st *State) newChan(rt *RType, cap int) ChanV {
	return ChanV(st.addObj(&Obj{rt: rt, ch: &ChanD{cap: cap}}))
}
func (st *State) newMap(rt *RType) MapV {
	return MapV(st.addObj(&Obj{rt: rt, m: &MapD{idx: map[string]int{}}}))
}

// ---- maps

// keyStr gives a canonical string for a fully concrete key.
func keyStr(v Value) (string, bool) {
	switch x := v.(type) {
	case uint64:
		return "i" + strconv.FormatUint(x, 36), true
	case string:
		return "s" + x, true
	case bool:
		if x {
			return "T", true
		}
		return "F", true
	case float64:
		return "f" + strconv.FormatFloat(x, 'g', -1, 64), true
	case Ptr:
		return fmt.Sprintf("p%d.%d", x.id, x.off), true
	case ChanV:
		return fmt.Sprintf("c%d", x), true
	case *RType:
		return fmt.Sprintf("t%d", x.id), true
	case Iface:
		if x.rt == nil {
			return "n", true
		}
		k, ok := keyStr(x.v)
		if !ok {
			return "", false
		}
		return fmt.Sprintf("I%d:%d:%s", x.rt.id, len(k), k), true
	case Agg:
		s := "A"
		for _, c := range x {
			k, ok := keyStr(c)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s", len(k), k)
		}
		return s, true
	}
	return "", false
}

func hasSym(v Value) bool {
	switch x := v.(type) {
	case *Term, *SymStr:
		return true
	case Iface:
		return x.rt != nil && hasSym(x.v)
	case Agg:
		for _, c := range x {
			if hasSym(c) {
				return true
			}
		}
	}
	return false
}

// mapFind returns the index of the entry for key or -1. It may fork.
func (x *X) mapFind(m *MapD, kt *RType, key Value) int {
	if m == nil {
		x.checkHashable(kt, key)
		return -1
	}
	if k, ok := keyStr(key); ok {
		if i, ok := m.idx[k]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
		for i, e := range m.ents {
			if !e.dead && hasSym(e.k) && x.decideV(x.eq(kt, e.k, key)) {
				return i
			}
		}
		return -1
	}
	x.checkHashable(kt, key)
	for i, e := range m.ents {
		if !e.dead && x.decideV(x.eq(kt, e.k, key)) {
			return i
		}
	}
	return -1
}

func (x *X) checkHashable(kt *RType, key Value) {
	switch v := key.(type) {
	case Iface:
		if v.rt == nil {
			return
		}
		switch v.rt.kind {
		case KSlice, KMap, KFunc:
			x.rtPanic("runtime error: hash of unhashable type " + v.rt.str)
		}
		x.checkHashable(v.rt, v.v)
	case Agg:
		for _, c := range v {
			x.checkHashable(nil, c)
		}
	case Slice, MapV, *Closure:
		x.rtPanic("runtime error: hash of unhashable type")
	}
}

// mapSet stores an entry, having found index i before (-1: append).
func (st *State) mapSet(mv MapV, i int, key, val Value) {
	m := st.wobj(int32(mv)).m
	if i >= 0 {
		m.ents[i].v = val
		return
	}
	m.ents = append(m.ents, mapEnt{k: key, v: val})
	m.n++
	if k, ok := keyStr(key); ok {
		m.idx[k] = len(m.ents) - 1
	} else {
		m.sym++
	}
}

func (st *State) mapDel(mv MapV, i int) {
	m := st.wobj(int32(mv)).m
	e := &m.ents[i]
	if k, ok := keyStr(e.k); ok {
		delete(m.idx, k)
	} else {
		m.sym--
	}
	e.dead = true
	e.v = nil
	m.n--
	if m.n == 0 {
		m.ents = m.ents[:0]
		m.idx = map[string]int{}
		m.sym = 0
	}
}
