package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The order of the parts of a path as a question to the solver. The events of every goroutine are divided into parts by its
// synchronisation operations. Each part has an integer variable, its position in a schedule; the order of the program and the
// synchronisation observed constrain them (difference logic). Two conflicting accesses race when there is a schedule, an
// assignment of all positions, which gives their parts the same position. Unsat means: under no schedule with this
// synchronisation do any two conflicting accesses of the path coincide.

type order struct {
	edges [][2]int32
	cur   []int32 // part of each goroutine
	n     int32
	pairs map[[2]int32][]race
	list  [][2]int32
}

func (o *order) part(t int32) int32 {
	for len(o.cur) <= int(t) {
		o.cur = append(o.cur, -1)
	}
	if o.cur[t] < 0 {
		o.cur[t] = o.n
		o.n++
	}
	return o.cur[t]
}

// next starts a new part of the goroutine t after the parts given.
func (o *order) next(t int32, after ...int32) {
	p := o.part(t)
	o.cur[t] = o.n
	o.n++
	o.edges = append(o.edges, [2]int32{p, o.cur[t]})
	for _, a := range after {
		o.edges = append(o.edges, [2]int32{a, o.cur[t]})
	}
}

type orderAcc struct {
	i    ssa.Instruction
	thr  int32
	part int32
}

func (o *order) conflict(a, b orderAcc) {
	if a.thr == b.thr {
		return
	}
	k := [2]int32{a.part, b.part}
	r := race{a.i, b.i}
	l, ok := o.pairs[k]
	if !ok {
		o.list = append(o.list, k)
	}
	for _, q := range l {
		if q == r {
			return
		}
	}
	o.pairs[k] = append(l, r)
}

// orderOf builds the order of a path.
func orderOf(evs []*evNode) *order {
	o := &order{pairs: map[[2]int32][]race{}}
	keys := map[int64][]int32{}
	type slots struct {
		s      []int32
		si, ri int
	}
	chans := map[int64]*slots{}
	type cell struct {
		w     orderAcc
		reads []orderAcc
	}
	mem := map[int64]*cell{}
	for _, e := range evs {
		switch e.kind {
		case evRead, evWrite:
			me := orderAcc{e.i, e.thr, o.part(e.thr)}
			for k := int64(0); k < int64(e.n); k++ {
				c := mem[e.a+k]
				if c == nil {
					c = &cell{}
					mem[e.a+k] = c
				}
				if c.w.i != nil {
					o.conflict(c.w, me)
				}
				if e.kind == evRead {
					found := false
					for j := range c.reads {
						if c.reads[j].thr == e.thr {
							c.reads[j] = me
							found = true
						}
					}
					if !found {
						c.reads = append(c.reads, me)
					}
					continue
				}
				for _, r := range c.reads {
					o.conflict(r, me)
				}
				c.w, c.reads = me, c.reads[:0]
			}
		case evAcq:
			if k := keys[e.a]; k != nil {
				o.next(e.thr, k...)
			}
		case evRel:
			keys[e.a] = []int32{o.part(e.thr)}
			o.next(e.thr)
		case evRelMerge:
			keys[e.a] = append(keys[e.a][:len(keys[e.a]):len(keys[e.a])], o.part(e.thr))
			o.next(e.thr)
		case evFork:
			p := o.part(e.thr)
			o.next(int32(e.a), p)
			o.next(e.thr)
		case evForkKey:
			o.next(int32(e.a), keys[e.b]...)
		case evSync:
			t, u := o.part(e.thr), o.part(int32(e.a))
			o.next(e.thr, u)
			o.next(int32(e.a), t)
		case evSend, evRecv:
			q := chans[e.a]
			if q == nil {
				q = &slots{s: make([]int32, e.n)}
				for i := range q.s {
					q.s[i] = -1
				}
				chans[e.a] = q
			}
			k := &q.si
			if e.kind == evRecv {
				k = &q.ri
			}
			s := *k % len(q.s)
			*k++
			// acquires from the slot and releases to it
			if p := q.s[s]; p >= 0 {
				o.next(e.thr, p)
			}
			q.s[s] = o.part(e.thr)
			o.next(e.thr)
		}
	}
	return o
}

// compress removes parts without conflicting accesses from the constraints: what comes before such a part comes before all
// which follows it.
func (o *order) compress() {
	keep := make([]bool, o.n)
	for _, k := range o.list {
		keep[k[0]], keep[k[1]] = true, true
	}
	in, out := make([]map[int32]bool, o.n), make([]map[int32]bool, o.n)
	for i := range in {
		in[i], out[i] = map[int32]bool{}, map[int32]bool{}
	}
	for _, e := range o.edges {
		if e[0] != e[1] {
			out[e[0]][e[1]] = true
			in[e[1]][e[0]] = true
		}
	}
	var work []int32
	for i := int32(0); i < o.n; i++ {
		work = append(work, i)
	}
	gone := make([]bool, o.n)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if keep[v] || gone[v] || len(in[v]) > 1 && len(out[v]) > 1 {
			continue
		}
		gone[v] = true
		for a := range in[v] {
			delete(out[a], v)
			for b := range out[v] {
				out[a][b] = true
				in[b][a] = true
			}
		}
		for b := range out[v] {
			delete(in[b], v)
			work = append(work, b)
		}
		for a := range in[v] {
			work = append(work, a)
		}
	}
	nr := make([]int32, o.n)
	n := int32(0)
	for i := range nr {
		if !gone[i] {
			nr[i] = n
			n++
		}
	}
	o.edges = o.edges[:0]
	for i := range nr {
		if gone[i] {
			continue
		}
		var l []int
		for b := range out[i] {
			l = append(l, int(nr[b]))
		}
		sort.Ints(l)
		for _, b := range l {
			o.edges = append(o.edges, [2]int32{nr[i], int32(b)})
		}
	}
	pairs := map[[2]int32][]race{}
	for i, k := range o.list {
		o.list[i] = [2]int32{nr[k[0]], nr[k[1]]}
		pairs[o.list[i]] = o.pairs[k]
	}
	o.pairs, o.n = pairs, n
}

// text is the question in SMT-LIB2.
func (o *order) text() string {
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	for i := int32(0); i < o.n; i++ {
		sb.WriteString("(declare-const p" + strconv.Itoa(int(i)) + " Int)\n")
	}
	for _, e := range o.edges {
		fmt.Fprintf(&sb, "(assert (< p%d p%d))\n", e[0], e[1])
	}
	for i, k := range o.list {
		fmt.Fprintf(&sb, "(declare-const b%d Bool)\n(assert (=> b%d (= p%d p%d)))\n", i, i, k[0], k[1])
	}
	sb.WriteString("(assert (or")
	for i := range o.list {
		fmt.Fprintf(&sb, " b%d", i)
	}
	sb.WriteString("))\n")
	return sb.String()
}

// decide asks for schedules in which conflicting accesses coincide.
func (o *order) decide(s *Solver) ([]race, bool) {
	if len(o.list) == 0 {
		return nil, true
	}
	o.compress()
	txt := o.text()
	h := fmt.Sprintf("%x %d", hashStr(txt), len(txt))
	if s.orders == nil {
		s.orders = map[string][]int{}
	}
	hit, ok := s.orders[h]
	if !ok {
		s.send(txt)
		for {
			s.send("(check-sat)\n")
			_ = s.in.Flush()
			s.Queries++
			l := s.readLine()
			if l == "unsat" {
				s.Unsat++
				break
			}
			if l != "sat" {
				s.Unknown++
				fmt.Fprintf(os.Stderr, "order: solver said %q\n", l)
				s.stop()
				s.start()
				return nil, false
			}
			s.Sat++
			s.send("(get-value (")
			for i := range o.list {
				s.send(fmt.Sprintf("b%d ", i))
			}
			s.send("))\n")
			_ = s.in.Flush()
			n := len(hit)
			for i, v := range s.readBools(len(o.list)) {
				if v {
					hit = append(hit, i)
					s.send(fmt.Sprintf("(assert (not b%d))\n", i))
				}
			}
			if len(hit) == n {
				fatal("order: no pair in the model")
			}
			// what is left
			s.send("(assert (or false")
			for i := range o.list {
				s.send(fmt.Sprintf(" b%d", i))
			}
			s.send("))\n")
		}
		s.send("(pop 1)\n")
		s.orders[h] = hit
	} else {
		s.CacheHits++
	}
	var res []race
	for _, i := range hit {
		res = append(res, o.pairs[o.list[i]]...)
	}
	return res, true
}

func hashStr(t string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(t); i++ {
		h = (h ^ uint64(t[i])) * 1099511628211
	}
	return h
}

// readBools reads ((b0 true) (b1 false) ...)
func (s *Solver) readBools(n int) []bool {
	res := make([]bool, n)
	depth := 0
	var txt strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		txt.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if err != nil || depth <= 0 && strings.TrimSpace(l) != "" {
			break
		}
	}
	f := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		if k, err := strconv.Atoi(strings.TrimPrefix(f[i], "b")); err == nil && k < n {
			res[k] = f[i+1] == "true"
		}
	}
	return res
}
