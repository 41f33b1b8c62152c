package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Data races. With the parameter race=1 every path records the memory accesses of the code under test and the operations
// which order goroutines; at the end of the path the happens-before relation of the Go memory model decides whether two
// accesses to one location, one of them a write, are unordered. Two such accesses can be executed at the same time in another
// schedule, so one path speaks for all schedules with the same synchronisation.

var raceOn bool

type evKind uint8

const (
	evRead evKind = iota
	evWrite
	evAcq
	evRel      // the clock of the key becomes the goroutine's
	evRelMerge // the goroutine's clock is added to the key's
	evFork     // a: index of the new goroutine
	evForkKey  // a: index of the new goroutine, b: key (timers)
	evSync     // a: index of the other goroutine of a rendezvous
	evSend     // a: channel, n: capacity
	evRecv
)

type evNode struct {
	prev *evNode
	i    ssa.Instruction
	a, b int64
	thr  int32
	n    int32
	kind evKind
}

func (x *X) event(k evKind, a, b int64, n int32) { x.eventOf(x.st.cur, k, a, b, n) }

func (x *X) eventOf(thr int, k evKind, a, b int64, n int32) {
	if !raceOn || x.st.inBase {
		return
	}
	e := &evNode{prev: x.st.ev, kind: k, a: a, b: b, n: n, thr: int32(thr)}
	if x.in != nil {
		e.i = x.in.i
	}
	x.st.ev = e
	x.st.nev++
}

// access records that the current instruction reads or writes n cells.
func (x *X) access(id, off, n int32, write bool) {
	if !raceOn || x.fr == nil || !x.fr.fi.racy || x.st.inBase || x.in == nil || x.nested {
		return
	}
	k := evRead
	if write {
		k = evWrite
	}
	x.event(k, int64(id)<<32|int64(uint32(off)), 0, n)
}

func (x *X) mapTouch(mv Value, write bool) {
	if m, ok := mv.(MapV); ok && m != 0 {
		x.access(int32(m), -1, 1, write)
	}
}

// keys of synchronisation objects

func syncKey(p Ptr, sub int64) int64 { return (int64(p.id)<<32|int64(uint32(p.off)))<<2 | sub }

func (x *X) argKey(sub int64) int64 { return syncKey(x.ptr(x.args[0]), sub) }

func (x *X) acq(key int64)      { x.event(evAcq, key, 0, 0) }
func (x *X) rel(key int64)      { x.event(evRel, key, 0, 0) }
func (x *X) relMerge(key int64) { x.event(evRelMerge, key, 0, 0) }

type vclock []uint32

func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, n := range o {
		if n > v[i] {
			v[i] = n
		}
	}
	return v
}

func (v vclock) copy() vclock { return append(vclock(nil), v...) }

func (v vclock) at(i int32) uint32 {
	if int(i) < len(v) {
		return v[i]
	}
	return 0
}

type epoch struct {
	i   ssa.Instruction
	thr int32
	clk uint32
}

type shadow struct {
	w     epoch
	reads []epoch
}

type race struct {
	a, b ssa.Instruction
}

type slotQ struct {
	slots  []vclock
	si, ri int
}

// decideRaces asks the solver for the pairs of conflicting accesses of a path which coincide in some schedule (raceorder.go).
// The vector clocks of the same events must come to the same result.
func (e *Engine) decideRaces(last *evNode, n int) []race {
	evs := make([]*evNode, n)
	for e := last; e != nil; e = e.prev {
		n--
		evs[n] = e
	}
	if e.osolver == nil {
		e.osolver = newSolver("QF_IDL")
	}
	t0 := time.Now()
	rs, ok := orderOf(evs).decide(e.osolver)
	e.osolver.Time += time.Since(t0)
	cs := races(evs)
	if !ok {
		return cs
	}
	set := map[race]bool{}
	for _, r := range rs {
		set[r] = true
	}
	for _, r := range cs {
		if !set[r] {
			fmt.Fprintf(os.Stderr, "order: only the clocks find %s\n", e.raceMsg(r))
			rs = append(rs, r)
		}
		delete(set, r)
	}
	for r := range set {
		fmt.Fprintf(os.Stderr, "order: only the solver finds %s\n", e.raceMsg(r))
	}
	return rs
}

// races replays the events of a path and returns the pairs of unordered conflicting accesses.
func races(evs []*evNode) []race {
	var vcs []vclock
	vc := func(t int32) vclock {
		for len(vcs) <= int(t) {
			k := len(vcs)
			v := make(vclock, k+1)
			v[k] = 1
			vcs = append(vcs, v)
		}
		return vcs[t]
	}
	keys := map[int64]vclock{}
	chans := map[int64]*slotQ{}
	mem := map[int64]*shadow{}
	var res []race
	seen := map[race]bool{}
	report := func(a epoch, b *evNode) {
		r := race{a.i, b.i}
		if !seen[r] {
			seen[r] = true
			res = append(res, r)
		}
	}
	for _, e := range evs {
		v := vc(e.thr)
		switch e.kind {
		case evRead, evWrite:
			me := epoch{e.i, e.thr, v[e.thr]}
			for k := int64(0); k < int64(e.n); k++ {
				s := mem[e.a+k]
				if s == nil {
					s = &shadow{}
					mem[e.a+k] = s
				}
				if s.w.i != nil && s.w.thr != e.thr && s.w.clk > v.at(s.w.thr) {
					report(s.w, e)
				}
				if e.kind == evRead {
					found := false
					for j := range s.reads {
						if s.reads[j].thr == e.thr {
							s.reads[j] = me
							found = true
						}
					}
					if !found {
						s.reads = append(s.reads, me)
					}
					continue
				}
				for _, r := range s.reads {
					if r.thr != e.thr && r.clk > v.at(r.thr) {
						report(r, e)
					}
				}
				s.w, s.reads = me, s.reads[:0]
			}
		case evAcq:
			if k := keys[e.a]; k != nil {
				vcs[e.thr] = v.join(k)
			}
		case evRel:
			keys[e.a] = v.copy()
			v[e.thr]++
		case evRelMerge:
			keys[e.a] = keys[e.a].join(v)
			v[e.thr]++
		case evFork, evForkKey:
			src := v
			if e.kind == evForkKey {
				src = keys[e.b]
			}
			c := int32(e.a)
			vc(c)
			vcs[c] = vcs[c].join(src)
			if e.kind == evFork {
				vcs[e.thr][e.thr]++
			}
		case evSync:
			o := int32(e.a)
			vc(o)
			j := vcs[e.thr].join(vcs[o])
			vcs[e.thr] = j
			vcs[o] = vcs[o].join(j)
			vcs[e.thr][e.thr]++
			vcs[o][o]++
		case evSend, evRecv:
			q := chans[e.a]
			if q == nil {
				q = &slotQ{slots: make([]vclock, e.n)}
				chans[e.a] = q
			}
			k := &q.si
			if e.kind == evRecv {
				k = &q.ri
			}
			s := *k % len(q.slots)
			*k++
			v = v.join(q.slots[s])
			q.slots[s] = v.copy()
			v[e.thr]++
			vcs[e.thr] = v
		}
	}
	return res
}

// racePos renders an instruction as file:line.
func (e *Engine) racePos(i ssa.Instruction) string {
	for _, p := range []func() string{
		func() string { return posStr(e, i) },
		func() string {
			if u, ok := i.(*ssa.UnOp); ok {
				if d, ok := u.X.(ssa.Instruction); ok {
					return posStr(e, d)
				}
			}
			if u, ok := i.(*ssa.Store); ok {
				if d, ok := u.Addr.(ssa.Instruction); ok {
					return posStr(e, d)
				}
			}
			if u, ok := i.(*ssa.Next); ok {
				if d, ok := u.Iter.(ssa.Instruction); ok {
					return posStr(e, d)
				}
			}
			return ""
		},
	} {
		if s := p(); s != "" {
			return s
		}
	}
	return i.Parent().Name()
}

func posStr(e *Engine, i ssa.Instruction) string {
	p := e.prog.Fset.Position(i.Pos())
	if !p.IsValid() {
		return ""
	}
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
}

func (e *Engine) raceMsg(r race) string {
	l := []string{e.racePos(r.a) + " (" + fnShort(r.a.Parent()) + ")", e.racePos(r.b) + " (" + fnShort(r.b.Parent()) + ")"}
	sort.Strings(l)
	return "data race: " + l[0] + " and " + l[1]
}

func fnShort(f *ssa.Function) string { return strings.ReplaceAll(f.String(), repoPath+".", "") }

// racePair extracts the two positions of a message of raceMsg.
func racePair(msg string) (string, string) {
	a, b, _ := strings.Cut(strings.TrimPrefix(msg, "data race: "), " and ")
	return strings.Fields(a + " ?")[0], strings.Fields(b + " ?")[0]
}

// raceSeen tells whether the output of a replay built with the race detector reports the pair.
func raceSeen(msg, out string) bool {
	p, q := racePair(msg)
	for i, r := range strings.Split(out, "WARNING: DATA RACE") {
		if i == 0 {
			continue
		}
		if k := strings.Index(r, "=================="); k >= 0 {
			r = r[:k]
		}
		// the parts of a report: two accesses and where their goroutines were started
		var parts []string
		for _, s := range strings.Split(r, "\n\n") {
			if strings.Contains(s, " at 0x") {
				parts = append(parts, s)
			}
		}
		if len(parts) < 2 {
			continue
		}
		has := func(s, p string) bool { return strings.Contains(s, "/"+p+" ") }
		if has(parts[0], p) && has(parts[1], q) || has(parts[0], q) && has(parts[1], p) {
			return true
		}
	}
	return false
}
