package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsic is a function implemented by the engine instead of by its Go source.
type intrinsic struct {
	f        func(x *X) Value
	ready    func(x *X) bool
	okNested bool
}

type notHandledT struct{}

// notHandled makes the call run the function's Go source after all.
var notHandled = notHandledT{}

const baseUnix = 946684800 // 2000-01-01T00:00:00Z, the start of time in testing/synctest

func nop(x *X) Value { return nil }

func (e *Engine) intrinsicOf(fn *ssa.Function) *intrinsic {
	if it, ok := e.itab[fn]; ok {
		return it
	}
	it := e.findIntrinsic(fn)
	e.itab[fn] = it
	return it
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) findIntrinsic(fn *ssa.Function) *intrinsic {
	name := fnName(fn)
	if fn.Synthetic == "package initializer" {
		return &intrinsic{f: nop}
	}
	if it, ok := intrinsics[name]; ok {
		return it
	}
	if strings.HasPrefix(name, repoPath+".v") && fn.Signature.Recv() == nil {
		if it, ok := harnessFns[name[len(repoPath)+1:]]; ok {
			return it
		}
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		if it := atomicFn(name[12:]); it != nil {
			return it
		}
	}
	if f := reflIntrinsic(name); f != nil {
		lite := strings.Contains(name, "reflectlite")
		it := &intrinsic{f: func(x *X) Value { return f(x, lite) }}
		switch name {
		case "(reflect.Value).Call", "(reflect.Value).CallSlice":
		case "(reflect.Value).Recv", "(reflect.Value).Send":
			it.ready = func(x *X) bool { return true } // decided by offer
		}
		return it
	}
	if (strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.") || strings.HasPrefix(name, "(*reflect.") ||
		strings.HasPrefix(name, "internal/reflectlite.") || strings.HasPrefix(name, "(internal/reflectlite.") || strings.HasPrefix(name, "(*internal/reflectlite.")) && !reflSource[name] && fn.Synthetic == "" {
		return &intrinsic{f: func(x *X) Value { panic(unsupported{"reflect function " + name}) }}
	}
	if fn.Blocks == nil {
		return &intrinsic{f: func(x *X) Value { panic(unsupported{"no body: " + name}) }}
	}
	return nil
}

func (e *Engine) modelOf(fn *ssa.Function) *ssa.Function { return nil }

// itemKey is the synchronisation key of a pooled item.
func itemKey(v Value) int64 {
	if i, ok := v.(Iface); ok {
		if p, ok := i.v.(Ptr); ok {
			return syncKey(p, 2)
		}
	}
	return 2
}

// smapSync finds an entry of a sync.Map and records how the operation orders goroutines.
func (x *X) smapSync(mv MapV, k Value, write bool) int {
	i := x.smapFind(mv, k)
	if raceOn && mv != 0 {
		x.acq(chKey(ChanV(mv)))
		if write {
			x.relMerge(chKey(ChanV(mv)))
		}
	}
	return i
}

func atomicFn(n string) *intrinsic {
	var op, ty string
	for _, o := range []string{"CompareAndSwap", "Swap", "Add", "And", "Or", "Load", "Store"} {
		if strings.HasPrefix(n, o) {
			op, ty = o, n[len(o):]
			break
		}
	}
	if op == "" {
		return nil
	}
	w := uint8(64)
	switch ty {
	case "Int32", "Uint32":
		w = 32
	case "Int64", "Uint64", "Uintptr", "Pointer":
	default:
		return nil
	}
	return &intrinsic{f: func(x *X) Value {
		p := x.ptr(x.args[0])
		old := x.st.get1(p)
		if op == "CompareAndSwap" {
			x.acq(syncKey(p, 0))
			if x.decideV(x.eq(nil, old, x.args[1])) {
				x.rel(syncKey(p, 0))
				x.st.set1(p, x.args[2])
				return true
			}
			return false
		}
		if op != "Store" {
			x.acq(syncKey(p, 0))
		}
		if op != "Load" {
			x.rel(syncKey(p, 0))
		}
		switch op {
		case "Load":
			return old
		case "Store":
			x.st.set1(p, x.args[1])
			return nil
		case "Swap":
			x.st.set1(p, x.args[1])
			return old
		}
		var r Value
		a, ok1 := old.(uint64)
		b, ok2 := x.args[1].(uint64)
		if ok1 && ok2 {
			switch op {
			case "Add":
				r = (a + b) & mask(w)
			case "And":
				r = a & b
			case "Or":
				r = a | b
			}
		} else {
			o := map[string]Op{"Add": OAdd, "And": OBAnd, "Or": OBOr}[op]
			r = fromTerm(tBin(o, toTerm(old, w), toTerm(x.args[1], w)))
		}
		x.st.set1(p, r)
		if op == "Add" {
			return r
		}
		return old
	}}
}

func cell(x *X, i int32) (Ptr, uint64) {
	p := x.ptr(x.args[0])
	p.off += i
	v, ok := x.st.get1(p).(uint64)
	if !ok {
		panic(unsupported{"sync cell"})
	}
	return p, v
}

func fatalErr(msg string) { panic(pathEnd{"crash", "fatal error: " + msg}) }

func (x *X) strArg(i int) string {
	s, ok := x.args[i].(string)
	if !ok {
		panic(unsupported{"symbolic string argument"})
	}
	return s
}

func (x *X) nilErr() Value { return Iface{} }

// ---- sync.Map: cell 0 holds a MapV from any to any

func (x *X) smap(create bool) MapV {
	p := x.ptr(x.args[0])
	if m, ok := x.st.get1(p).(MapV); ok {
		return m
	}
	if !create {
		return 0
	}
	any := types.NewInterfaceType(nil, nil)
	m := x.st.newMap(x.e.rt(types.NewMap(any, any)))
	x.st.set1(p, m)
	return m
}
func (x *X) smapFind(mv MapV, k Value) int {
	if mv == 0 {
		x.checkHashable(nil, k)
		return -1
	}
	return x.mapFind(x.st.robj(int32(mv)).m, x.st.robj(int32(mv)).rt.key, k)
}
func (x *X) smapVal(mv MapV, i int) Value { return x.st.robj(int32(mv)).m.ents[i].v }

func bytesArg(x *X, i int) []Value {
	switch v := x.args[i].(type) {
	case Slice:
		return x.st.bytesOf(v)
	case string, *SymStr:
		return strBytes(v)
	}
	panic(unsupported{fmt.Sprintf("bytes argument %T", x.args[i])})
}

func (x *X) byteEq(a, b Value) Value { return x.eq(x.e.tByte, a, b) }

func indexByte(x *X) Value {
	b := bytesArg(x, 0)
	for i, c := range b {
		if x.decideV(x.byteEq(c, x.args[1])) {
			return uint64(i)
		}
	}
	return mask(64)
}
func lastIndexByte(x *X) Value {
	b := bytesArg(x, 0)
	for i := len(b) - 1; i >= 0; i-- {
		if x.decideV(x.byteEq(b[i], x.args[1])) {
			return uint64(i)
		}
	}
	return mask(64)
}
func indexStr(x *X) Value {
	b, s := bytesArg(x, 0), bytesArg(x, 1)
	for i := 0; i+len(s) <= len(b); i++ {
		var r Value = true
		for k := range s {
			r = vAnd(r, x.byteEq(b[i+k], s[k]))
			if r == false {
				break
			}
		}
		if x.decideV(r) {
			return uint64(i)
		}
	}
	return mask(64)
}
func countByte(x *X) Value {
	b := bytesArg(x, 0)
	n := uint64(0)
	for _, c := range b {
		if x.decideV(x.byteEq(c, x.args[1])) {
			n++
		}
	}
	return n
}
func compareBytes(x *X) Value {
	a, b := mkStr(bytesArg(x, 0)), mkStr(bytesArg(x, 1))
	if x.decideV(x.strEq(a, b)) {
		return uint64(0)
	}
	if x.decideV(x.strLess(a, b)) {
		return mask(64)
	}
	return uint64(1)
}

// ---- time

func (x *X) nowParts() (sec, nsec, mono uint64) {
	return uint64(baseUnix + x.st.now/1e9), uint64(x.st.now % 1e9), uint64(x.st.now + 1)
}

// timeNow is the value of time.Now().
func (x *X) timeNow() Value {
	g := x.e.prog.ImportedPackage("time").Members["localLoc"].(*ssa.Global)
	x.e.needPkg(g.Pkg)
	const minWall = 59453308800 // 1885 as internal seconds
	const unixToInternal = 62135596800
	sec, nsec, mono := x.nowParts()
	// startNano is runtimeNano()-1 = 0 at start
	s := sec + unixToInternal - minWall
	return Agg{uint64(1)<<63 | s<<30 | nsec, mono, Ptr{-x.e.gid(g), 0}}
}

func (x *X) findTimer(obj int32) int {
	for i, t := range x.st.timers {
		if t.obj == obj {
			return i
		}
	}
	return -1
}

func (x *X) newTimer(typ string, d, period int64, fn *Closure) Value {
	st := x.st
	rt := x.e.namedRT("time", typ)
	id := st.alloc(rt, 1)
	var ch ChanV
	if fn == nil {
		cht := rt.fields[0]
		ch = ChanV(st.addObj(&Obj{rt: x.e.rt(types.NewChan(types.SendRecv, cht.elem.t)), ch: &ChanD{cap: 1, timer: true}}))
		st.writeCells(id, 0, []Value{ch})
	}
	st.writeCells(id, 1, []Value{true})
	x.addTimer(timerRec{obj: id, when: addTime(st.now, d), period: period, ch: ch, fn: fn, on: true})
	x.armTimer(id, ch)
	return Ptr{id, 0}
}

func addTime(now, d int64) int64 {
	if d < 0 {
		d = 0
	}
	if now+d < 0 {
		return math.MaxInt64
	}
	return now + d
}

func (x *X) addTimer(t timerRec) {
	st := x.st
	st.tseq++
	t.seq = st.tseq
	st.timers = append(st.timers[:len(st.timers):len(st.timers)], t)
}

func (x *X) durArg(i int) int64 {
	switch v := x.args[i].(type) {
	case uint64:
		return int64(v)
	case *Term:
		return int64(x.concretize(v))
	}
	panic(unsupported{"duration"})
}

func (x *X) stopTimer() bool {
	p := x.ptr(x.args[0])
	i := x.findTimer(p.id)
	if i < 0 {
		panic(goPanic{x.e.plainError("time: Stop called on uninitialized Timer")})
	}
	ts := append([]timerRec(nil), x.st.timers...)
	x.st.timers = ts
	was := ts[i].on
	ts[i].on = false
	if ts[i].ch != 0 {
		c := x.st.wobj(int32(ts[i].ch)).ch
		if len(c.buf) > 0 {
			was = true
			c.buf = nil
		}
	}
	return was
}

// armTimer orders the arming of a timer before what happens when it fires.
func (x *X) armTimer(id int32, ch ChanV) {
	if ch != 0 {
		x.relMerge(chKey(ch))
	} else {
		x.relMerge(syncKey(Ptr{id, 0}, 2))
	}
}

func (x *X) resetTimer(d int64, ticker bool) bool {
	was := x.stopTimer()
	i := x.findTimer(x.ptr(x.args[0]).id)
	t := &x.st.timers[i]
	t.on = true
	t.when = addTime(x.st.now, d)
	if ticker {
		t.period = d
	}
	x.st.tseq++
	t.seq = x.st.tseq
	x.armTimer(t.obj, t.ch)
	return was
}

var intrinsics map[string]*intrinsic

func fl1(f func(float64) float64) *intrinsic {
	return &intrinsic{f: func(x *X) Value {
		v, ok := x.args[0].(float64)
		if !ok {
			panic(unsupported{"symbolic float"})
		}
		return f(v)
	}}
}

func in(f func(x *X) Value) *intrinsic { return &intrinsic{f: f} }

func mutexReady(x *X) bool {
	if isNilPtr(x.args[0]) {
		return true
	}
	_, v := cell(x, 0)
	return v == 0
}

func init() {
	ret := func(v Value) *intrinsic { return in(func(x *X) Value { return v }) }
	fillRand := func(x *X, s Slice) {
		for i := int32(0); i < s.len; i++ {
			x.st.randCtr = x.st.randCtr*6364136223846793005 + 1442695040888963407
			x.st.set1(Ptr{s.id, s.off + i}, (x.st.randCtr>>33)&0xff)
		}
	}
	intrinsics = map[string]*intrinsic{
		// sync
		"(*sync.Mutex).Lock": {ready: mutexReady, f: func(x *X) Value {
			p, v := cell(x, 0)
			if v != 0 {
				x.block("mutex")
				return nil
			}
			x.st.set1(p, uint64(1))
			x.acq(syncKey(p, 0))
			return nil
		}},
		"(*sync.Mutex).TryLock": in(func(x *X) Value {
			p, v := cell(x, 0)
			if v != 0 {
				return false
			}
			x.st.set1(p, uint64(1))
			x.acq(syncKey(p, 0))
			return true
		}),
		"(*sync.Mutex).Unlock": in(func(x *X) Value {
			p, v := cell(x, 0)
			if v == 0 {
				fatalErr("sync: unlock of unlocked mutex")
			}
			x.st.set1(p, uint64(0))
			x.rel(syncKey(p, 0))
			return nil
		}),
		"(*sync.RWMutex).Lock": {ready: func(x *X) bool {
			if isNilPtr(x.args[0]) {
				return true
			}
			_, w := cell(x, 0)
			_, r := cell(x, 1)
			return w == 0 && r == 0
		}, f: func(x *X) Value {
			p, w := cell(x, 0)
			_, r := cell(x, 1)
			if w != 0 || r != 0 {
				x.block("rwmutex write")
				return nil
			}
			x.st.set1(p, uint64(1))
			x.acq(syncKey(p, 0))
			x.acq(syncKey(p, 1))
			return nil
		}},
		"(*sync.RWMutex).TryLock": in(func(x *X) Value {
			p, w := cell(x, 0)
			_, r := cell(x, 1)
			if w != 0 || r != 0 {
				return false
			}
			x.st.set1(p, uint64(1))
			x.acq(syncKey(p, 0))
			x.acq(syncKey(p, 1))
			return true
		}),
		"(*sync.RWMutex).Unlock": in(func(x *X) Value {
			p, w := cell(x, 0)
			if w == 0 {
				fatalErr("sync: Unlock of unlocked RWMutex")
			}
			x.st.set1(p, uint64(0))
			x.rel(syncKey(p, 0))
			return nil
		}),
		"(*sync.RWMutex).RLock": {ready: mutexReady, f: func(x *X) Value {
			_, w := cell(x, 0)
			if w != 0 {
				x.block("rwmutex read")
				return nil
			}
			p, r := cell(x, 1)
			x.st.set1(p, r+1)
			x.acq(x.argKey(0))
			return nil
		}},
		"(*sync.RWMutex).TryRLock": in(func(x *X) Value {
			_, w := cell(x, 0)
			if w != 0 {
				return false
			}
			p, r := cell(x, 1)
			x.st.set1(p, r+1)
			x.acq(x.argKey(0))
			return true
		}),
		"(*sync.RWMutex).RUnlock": in(func(x *X) Value {
			p, r := cell(x, 1)
			if r == 0 {
				fatalErr("sync: RUnlock of unlocked RWMutex")
			}
			x.st.set1(p, r-1)
			x.relMerge(x.argKey(1))
			return nil
		}),
		"(*sync.WaitGroup).Add": in(func(x *X) Value {
			p, v := cell(x, 0)
			v += x.args[1].(uint64)
			if int64(v) < 0 {
				panic(goPanic{x.e.plainError("sync: negative WaitGroup counter")})
			}
			x.st.set1(p, v)
			x.relMerge(syncKey(p, 0))
			return nil
		}),
		"(*sync.WaitGroup).Done": in(func(x *X) Value {
			p, v := cell(x, 0)
			if v == 0 {
				panic(goPanic{x.e.plainError("sync: negative WaitGroup counter")})
			}
			x.st.set1(p, v-1)
			x.relMerge(syncKey(p, 0))
			return nil
		}),
		"(*sync.WaitGroup).Wait": {ready: mutexReady, f: func(x *X) Value {
			_, v := cell(x, 0)
			if v != 0 {
				x.block("waitgroup")
				return nil
			}
			x.acq(x.argKey(0))
			return nil
		}},
		"(*sync.Pool).Get": in(func(x *X) Value {
			p := x.ptr(x.args[0])
			k := int64(p.id)<<32 | int64(p.off)
			if l := x.st.pools[k]; len(l) > 0 {
				v := l[len(l)-1]
				x.st.pools[k] = l[: len(l)-1 : len(l)-1]
				x.acq(itemKey(v))
				return v
			}
			rt := x.e.namedRT("sync", "Pool")
			nf, _ := x.st.get1(Ptr{p.id, p.off + rt.foff[len(rt.foff)-1]}).(*Closure)
			if nf == nil {
				return Iface{}
			}
			if x.nested {
				panic(unsupported{"nested Pool.Get"})
			}
			x.callClosure(nf, nil, nil)
			x.pushed = true
			return nil
		}),
		"(*sync.Pool).Put": in(func(x *X) Value {
			p := x.ptr(x.args[0])
			k := int64(p.id)<<32 | int64(p.off)
			if x.args[1].(Iface).rt != nil {
				l := x.st.pools[k]
				x.st.pools[k] = append(l[:len(l):len(l)], x.args[1])
				x.relMerge(itemKey(x.args[1]))
			}
			return nil
		}),
		"(*sync.Map).Load": in(func(x *X) Value {
			mv := x.smap(false)
			i := x.smapSync(mv, x.args[1], false)
			if i < 0 {
				return Tuple{Iface{}, false}
			}
			return Tuple{x.smapVal(mv, i), true}
		}),
		"(*sync.Map).Store": in(func(x *X) Value {
			mv := x.smap(true)
			x.st.mapSet(mv, x.smapSync(mv, x.args[1], true), x.args[1], x.args[2])
			return nil
		}),
		"(*sync.Map).LoadOrStore": in(func(x *X) Value {
			mv := x.smap(true)
			i := x.smapSync(mv, x.args[1], true)
			if i >= 0 {
				return Tuple{x.smapVal(mv, i), true}
			}
			x.st.mapSet(mv, -1, x.args[1], x.args[2])
			return Tuple{x.args[2], false}
		}),
		"(*sync.Map).Swap": in(func(x *X) Value {
			mv := x.smap(true)
			i := x.smapSync(mv, x.args[1], true)
			if i >= 0 {
				old := x.smapVal(mv, i)
				x.st.mapSet(mv, i, x.args[1], x.args[2])
				return Tuple{old, true}
			}
			x.st.mapSet(mv, -1, x.args[1], x.args[2])
			return Tuple{Iface{}, false}
		}),
		"(*sync.Map).CompareAndSwap": in(func(x *X) Value {
			mv := x.smap(true)
			i := x.smapSync(mv, x.args[1], true)
			if i < 0 || !x.decideV(x.eq(nil, x.smapVal(mv, i), x.args[2])) {
				return false
			}
			x.st.mapSet(mv, i, x.args[1], x.args[3])
			return true
		}),
		"(*sync.Map).LoadAndDelete": in(func(x *X) Value {
			mv := x.smap(false)
			i := x.smapSync(mv, x.args[1], true)
			if i < 0 {
				return Tuple{Iface{}, false}
			}
			v := x.smapVal(mv, i)
			x.st.mapDel(mv, i)
			return Tuple{v, true}
		}),
		"(*sync.Map).Delete": in(func(x *X) Value {
			mv := x.smap(false)
			if i := x.smapSync(mv, x.args[1], true); i >= 0 {
				x.st.mapDel(mv, i)
			}
			return nil
		}),
		"(*sync.Map).CompareAndDelete": in(func(x *X) Value {
			mv := x.smap(false)
			i := x.smapSync(mv, x.args[1], true)
			if i < 0 || !x.decideV(x.eq(nil, x.smapVal(mv, i), x.args[2])) {
				return false
			}
			x.st.mapDel(mv, i)
			return true
		}),
		"(*sync.Map).Clear": in(func(x *X) Value {
			if mv := x.smap(false); mv != 0 {
				x.relMerge(chKey(ChanV(mv)))
				*x.st.wobj(int32(mv)).m = MapD{idx: map[string]int{}}
			}
			return nil
		}),
		"(*sync.Map).Range": in(func(x *X) Value {
			// runs a snapshot of the keys through the callback; entries deleted meanwhile are skipped
			mv := x.smap(false)
			if mv == 0 {
				return nil
			}
			if x.nested {
				panic(unsupported{"nested Map.Range"})
			}
			cl := x.args[1].(*Closure)
			m := x.st.robj(int32(mv)).m
			var keys []Value
			for _, e := range m.ents {
				if !e.dead {
					keys = append(keys, e.k)
				}
			}
			x.acq(chKey(ChanV(mv)))
			rangeStep(x, mv, cl, keys)
			x.pushed = true
			return nil
		}),
		"(*sync/atomic.Value).Load": in(func(x *X) Value {
			p := x.ptr(x.args[0])
			x.acq(syncKey(p, 0))
			return x.st.get1(p)
		}),
		"(*sync/atomic.Value).Store": in(func(x *X) Value {
			p := x.ptr(x.args[0])
			nv := x.args[1].(Iface)
			if nv.rt == nil {
				panic(goPanic{x.e.plainError("sync/atomic: store of nil value into Value")})
			}
			if o, ok := x.st.get1(p).(Iface); ok && o.rt != nil && o.rt != nv.rt {
				panic(goPanic{x.e.plainError("sync/atomic: store of inconsistently typed value into Value")})
			}
			x.st.set1(p, nv)
			x.rel(syncKey(p, 0))
			return nil
		}),
		"(*sync/atomic.Value).Swap": in(func(x *X) Value {
			p := x.ptr(x.args[0])
			o := x.st.get1(p)
			x.st.set1(p, x.args[1])
			x.acq(syncKey(p, 0))
			x.rel(syncKey(p, 0))
			return o
		}),
		"(*sync/atomic.Value).CompareAndSwap": in(func(x *X) Value {
			p := x.ptr(x.args[0])
			x.acq(syncKey(p, 0))
			if x.decideV(x.eq(nil, x.st.get1(p), x.args[1])) {
				x.st.set1(p, x.args[2])
				x.rel(syncKey(p, 0))
				return true
			}
			return false
		}),

		// time
		"time.now":              in(func(x *X) Value { s, n, m := x.nowParts(); return Tuple{s, n, m} }),
		"time.runtimeNow":       in(func(x *X) Value { s, n, m := x.nowParts(); return Tuple{s, n, m} }),
		"time.runtimeNano":      in(func(x *X) Value { return uint64(x.st.now + 1) }),
		"time.runtimeIsBubbled": ret(false),
		"time.Sleep": {f: func(x *X) Value {
			d := x.durArg(0)
			if x.th.wakeAt == -1 {
				x.th.wakeAt = 0
				return nil
			}
			if d <= 0 {
				return nil
			}
			if x.th.wakeAt == 0 {
				x.th.wakeAt = addTime(x.st.now, d)
			}
			x.block("sleep")
			return nil
		}, ready: func(x *X) bool { return x.th.wakeAt <= 0 }},
		"time.NewTimer": in(func(x *X) Value { return x.newTimer("Timer", x.durArg(0), 0, nil) }),
		"time.NewTicker": in(func(x *X) Value {
			d := x.durArg(0)
			if d <= 0 {
				panic(goPanic{Iface{x.e.rt(types.Typ[types.String]), "non-positive interval for NewTicker"}})
			}
			return x.newTimer("Ticker", d, d, nil)
		}),
		"time.AfterFunc":       in(func(x *X) Value { return x.newTimer("Timer", x.durArg(0), 0, x.args[1].(*Closure)) }),
		"(*time.Timer).Stop":   in(func(x *X) Value { return x.stopTimer() }),
		"(*time.Ticker).Stop":  in(func(x *X) Value { x.stopTimer(); return nil }),
		"(*time.Timer).Reset":  in(func(x *X) Value { return x.resetTimer(x.durArg(1), false) }),
		"(*time.Ticker).Reset": in(func(x *X) Value { x.resetTimer(x.durArg(1), true); return nil }),

		// runtime
		"runtime/debug.Stack": in(func(x *X) Value {
			return x.st.newBytes(strBytes("goroutine 1 [running]:\nstack trace"))
		}),
		"runtime/debug.PrintStack": in(nop),
		"runtime.SetFinalizer":     in(nop),
		"runtime.KeepAlive":        in(nop),
		"runtime.GC":               in(nop),
		"runtime.Gosched":          in(nop),
		"runtime.NumGoroutine": in(func(x *X) Value {
			n := uint64(0)
			for _, t := range x.st.threads {
				if t.status != tDone {
					n++
				}
			}
			return n
		}),
		"runtime.GOMAXPROCS":                        ret(uint64(1)),
		"runtime.NumCPU":                            ret(uint64(1)),
		"runtime.Callers":                           ret(uint64(0)),
		"runtime.Caller":                            ret(Tuple{uint64(0), "", uint64(0), false}),
		"runtime.AddCleanup":                        in(nop),
		"runtime.Stack":                             ret(uint64(0)),
		"internal/godebug.New":                      in(func(x *X) Value { return Ptr{x.st.alloc(x.e.namedRT("internal/godebug", "Setting"), 1), 0} }),
		"os.Getenv":                                 ret(""),
		"os.LookupEnv":                              ret(Tuple{"", false}),
		"syscall.runtime_envs":                      ret(Slice{}),
		"(*internal/godebug.Setting).Value":         ret(""),
		"(*internal/godebug.Setting).IncNonDefault": in(nop),
		"(*internal/godebug.Setting).register":      in(nop),
		"os.NewFile":                                in(func(x *X) Value { return Ptr{x.st.alloc(x.e.namedRT("os", "File"), 1), 0} }),
		"(*os.File).Write":                          in(func(x *X) Value { return Tuple{uint64(x.args[1].(Slice).len), Iface{}} }),
		"(*os.File).WriteString":                    in(func(x *X) Value { return Tuple{uint64(strLen(x.args[1])), Iface{}} }),

		// bytes
		"internal/bytealg.IndexByte":           in(indexByte),
		"internal/bytealg.IndexByteString":     in(indexByte),
		"internal/bytealg.LastIndexByte":       in(lastIndexByte),
		"internal/bytealg.LastIndexByteString": in(lastIndexByte),
		"internal/bytealg.Index":               in(indexStr),
		"internal/bytealg.IndexString":         in(indexStr),
		"bytes.Index":                          in(indexStr),
		"strings.Index":                        in(indexStr),
		"internal/stringslite.Index":           in(indexStr),
		"internal/bytealg.Count":               in(countByte),
		"internal/bytealg.CountString":         in(countByte),
		"internal/bytealg.Compare":             in(compareBytes),
		"internal/bytealg.CompareString":       in(compareBytes),
		"internal/bytealg.MakeNoZero": in(func(x *X) Value {
			n := x.argInt(0)
			if n < 0 || n > 1<<24 {
				panic(unsupported{"MakeNoZero huge"})
			}
			id := x.st.alloc(x.e.tByte, int32(n))
			return Slice{id, 0, int32(n), int32(n)}
		}),
		"(*strings.Builder).copyCheck": in(nop),
		"internal/abi.NoEscape":        in(func(x *X) Value { return x.args[0] }),
		"internal/abi.Escape":          in(func(x *X) Value { return x.args[0] }),
		"strings.Clone":                in(func(x *X) Value { return x.args[0] }),
		"internal/stringslite.Clone":   in(func(x *X) Value { return x.args[0] }),

		// math
		"math.Float64bits":     in(func(x *X) Value { return math.Float64bits(x.args[0].(float64)) }),
		"math.Float32bits":     in(func(x *X) Value { return uint64(math.Float32bits(float32(x.args[0].(float64)))) }),
		"math.Float64frombits": in(func(x *X) Value { return math.Float64frombits(x.concU(0)) }),
		"math.Float32frombits": in(func(x *X) Value { return float64(math.Float32frombits(uint32(x.concU(0)))) }),
		"math.Floor":           fl1(math.Floor), "math.Ceil": fl1(math.Ceil), "math.Trunc": fl1(math.Trunc), "math.Sqrt": fl1(math.Sqrt), "math.sqrt": fl1(math.Sqrt),
		"math.Exp": fl1(math.Exp), "math.Log": fl1(math.Log), "math.Abs": fl1(math.Abs),

		// randomness
		"crypto/rand.Read": in(func(x *X) Value {
			s := x.args[0].(Slice)
			fillRand(x, s)
			return Tuple{uint64(s.len), Iface{}}
		}),
		"(*crypto/rand.reader).Read": in(func(x *X) Value {
			s := x.args[1].(Slice)
			fillRand(x, s)
			return Tuple{uint64(s.len), Iface{}}
		}),
		"math/rand.runtime_rand":    in(func(x *X) Value { x.st.randCtr++; return x.st.randCtr * 0x9e3779b97f4a7c15 }),
		"math/rand/v2.runtime_rand": in(func(x *X) Value { x.st.randCtr++; return x.st.randCtr * 0x9e3779b97f4a7c15 }),
		"math/rand.Float64":         ret(float64(0.5)),

		"github.com/coder/websocket.secWebSocketAccept": ret("s3pPLMBiTxaQ9kYGzzhZRbK+xOo="),

		// logging is not part of the observed behaviour
		// except for values which code of the repository computes for it
		"(*github.com/go-kit/log.context).Log": in(func(x *X) Value {
			if logOps {
				return notHandled // the run observes what is logged
			}
			p := x.ptr(x.args[0])
			if s, ok := x.st.get1(Ptr{id: p.id, off: p.off + 1}).(Slice); ok {
				for i := int32(0); i < s.len; i++ {
					v, _ := x.st.get1(Ptr{id: s.id, off: s.off + i}).(Iface)
					if c, ok := v.v.(*Closure); ok && c != nil && c.fn != nil {
						f := c.fn
						for f.Parent() != nil {
							f = f.Parent()
						}
						if f.Pkg == x.e.repoPkg {
							return notHandled
						}
					}
				}
			}
			return Iface{}
		}),
		"fmt.Sprintf": in(func(x *X) Value {
			if f, ok := x.args[0].(string); ok && (strings.Contains(f, "%#v") || strings.Contains(f, "%+v")) {
				return "<formatted>"
			}
			return notHandled
		}),
		"(*fmt.fmt).fmtInteger": in(func(x *X) Value {
			t, ok := x.args[1].(*Term)
			if !ok {
				return notHandled
			}
			_ = t
			bp := x.ptr(x.st.get1(x.ptr(x.args[0])))
			s := x.slice(x.st.get1(bp))
			b := strBytes("<int>")
			x.st.set1(bp, x.appendCells(s, x.e.tByte, b, int32(len(b))))
			return nil
		}),
	}
}

func (x *X) concU(i int) uint64 {
	switch v := x.args[i].(type) {
	case uint64:
		return v
	case *Term:
		return x.concretize(v)
	}
	panic(unsupported{fmt.Sprintf("uint %T", x.args[i])})
}

func rangeStep(x *X, mv MapV, cl *Closure, keys []Value) {
	for len(keys) > 0 {
		k := keys[0]
		rest := keys[1:]
		i := x.smapFind(mv, k)
		if i < 0 {
			keys = rest
			continue
		}
		x.callClosure(cl, []Value{k, x.smapVal(mv, i)}, func(x *X, res Value) {
			if !x.decideV(res) {
				x.fr.pc++
				return
			}
			rangeStep(x, mv, cl, rest)
		})
		return
	}
	x.fr.pc++
}

// ---- harness functions

var harnessFns map[string]*intrinsic

// fresh makes the name of the next symbolic value called name.
func (x *X) fresh(name string) string {
	n := x.st.occ["n:"+name]
	x.st.occ["n:"+name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func (x *X) symByte(name string) Value {
	t := tVar(name, 8)
	x.st.names = append(x.st.names, nameRec{name, t, nil})
	return t
}

func (x *X) assume(c *Term) {
	if !x.decide(c) {
		panic(pathEnd{"assume", ""})
	}
}

// refreshable runs f at most once per execution of the instruction even if the instruction is executed again after a fork:
// names must not be counted twice. Forks copy the occurrence table after it was advanced, so re-execution resets it first.
func symFn(f func(x *X) Value) *intrinsic {
	return in(func(x *X) Value {
		return f(x)
	})
}

func init() {
	harnessFns = map[string]*intrinsic{
		"vByte": symFn(func(x *X) Value {
			return x.symByte(x.fresh(x.strArg(0)))
		}),
		"vBool": symFn(func(x *X) Value {
			n := x.fresh(x.strArg(0))
			t := tVar(n, 8)
			x.st.names = append(x.st.names, nameRec{n, t, nil})
			return fromTerm(tEq(tBin(OBAnd, t, tConst(1, 8)), tConst(1, 8)))
		}),
		"vBytes": symFn(func(x *X) Value {
			n := x.argInt(1)
			nm := x.fresh(x.strArg(0))
			b := make([]Value, n)
			for i := range b {
				b[i] = x.symByte(fmt.Sprintf("%s.%d", nm, i))
			}
			return x.st.newBytes(b)
		}),
		"vString": symFn(func(x *X) Value {
			n := x.argInt(1)
			nm := x.fresh(x.strArg(0))
			b := make([]Value, n)
			for i := range b {
				b[i] = x.symByte(fmt.Sprintf("%s.%d", nm, i))
			}
			return mkStr(b)
		}),
		// vInt(name, lo, hi): any value in [lo, hi]
		"vInt": symFn(func(x *X) Value { return x.vInt(false) }),
		// vChoose(name, n): any value in [0, n), one path each
		"vChoose": symFn(func(x *X) Value { return x.vInt(true) }),
		"vConcrete": in(func(x *X) Value {
			if t, ok := x.args[0].(*Term); ok {
				return x.concretize(t)
			}
			return x.args[0]
		}),
		"vConcBytes": in(func(x *X) Value {
			s := x.args[0].(Slice)
			b := x.st.bytesOf(s)
			for i, c := range b {
				if t, ok := c.(*Term); ok {
					b[i] = x.concretize(t)
				}
			}
			return x.st.newBytes(b)
		}),
		"vAssume": in(func(x *X) Value {
			if !x.decideV(x.args[0]) {
				panic(pathEnd{"assume", ""})
			}
			return nil
		}),
		"vAssert": in(func(x *X) Value {
			x.e.asserts++
			if !x.decideV(x.args[0]) {
				panic(pathEnd{"assert", x.strArg(1)})
			}
			return nil
		}),
		"vFail": in(func(x *X) Value { panic(pathEnd{"assert", x.strArg(0)}) }),
		"vReach": in(func(x *X) Value {
			x.st.reached = append(x.st.reached, x.strArg(0))
			return nil
		}),
		"vObserve": in(func(x *X) Value {
			iv := x.args[1].(Iface)
			v := iv.v
			if s, ok := v.(Slice); ok && iv.rt.elem.w == 8 {
				v = mkStr(x.st.bytesOf(s))
			}
			x.st.obs = append(x.st.obs, obsRec{x.strArg(0), Iface{iv.rt, v}})
			return nil
		}),
		"vParam":    in(func(x *X) Value { return uint64(x.e.params[x.strArg(0)]) }),
		"vSymbolic": ret(true),
		// vWait returns when every other goroutine is blocked
		"vWait": {f: func(x *X) Value {
			if x.th.what == "woken" {
				x.th.what = ""
				return nil
			}
			x.block("vWait")
			return nil
		}, ready: func(x *X) bool { return false }},
		"vDone": in(func(x *X) Value { panic(pathEnd{"ok", ""}) }),
		"vCalm": in(func(x *X) Value { x.st.calm = x.args[0].(bool); return nil }),
	}
}

func ret(v Value) *intrinsic { return in(func(x *X) Value { return v }) }

func (x *X) vInt(conc bool) Value {
	var lo, hi int64
	if conc {
		lo, hi = 0, int64(x.args[1].(uint64))-1
	} else {
		lo, hi = int64(x.args[1].(uint64)), int64(x.args[2].(uint64))
	}
	name := x.strArg(0)
	nm := fmt.Sprintf("%s#%d", name, x.st.occ["n:"+name])
	t := tVar(nm, 64)
	if lo == hi {
		x.st.occ["n:"+name]++
		x.st.names = append(x.st.names, nameRec{nm, nil, uint64(lo)})
		return uint64(lo)
	}
	c := tAnd(tSle(tConst(uint64(lo), 64), t), tSle(t, tConst(uint64(hi), 64)))
	x.addFact(c, t, uint64(lo))
	var r Value = t
	if conc {
		r = x.concretize(t)
	}
	x.st.occ["n:"+name]++
	x.st.names = append(x.st.names, nameRec{nm, t, nil})
	return r
}

// addFact adds a constraint on a fresh variable with a witness, without asking the solver.
func (x *X) addFact(c, v *Term, w uint64) {
	for _, p := range x.st.pc {
		if p == c {
			return
		}
	}
	x.st.pc = append(x.st.pc[:len(x.st.pc):len(x.st.pc)], c)
	x.st.model = x.st.model.with(v, w)
}
