package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver talks SMT-LIB2 with one z3 process.
type Solver struct {
	cmdline  []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	defined  map[int]bool
	nDefined int
	logic    string
	orders   map[string][]int
	cache    map[string]qres
	dump     *os.File

	Queries   int // sent to the solver
	CacheHits int
	Sat       int
	Unsat     int
	Unknown   int
	Time      time.Duration
}

type qres struct {
	sat   int // 1 sat, 0 unsat, -1 unknown
	model Model
}

func newSolver(logic string) *Solver {
	cl := []string{"z3", "-in", "-smt2"}
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		cl = strings.Fields(s)
	}
	s := &Solver{logic: logic, cmdline: cl, cache: map[string]qres{}}
	if p := os.Getenv("VERIF_SMT_DUMP"); p != "" {
		s.dump, _ = os.Create(p)
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		fatal("solver: %v", err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int]bool{}
	s.nDefined = 0
	if strings.Contains(s.cmdline[0], "z3") {
		s.send("(set-option :timeout 20000)\n")
	}
	s.send("(set-option :produce-models true)\n(set-logic " + s.logic + ")\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		_ = s.inRaw.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(t string) {
	if s.dump != nil {
		_, _ = s.dump.WriteString(t)
	}
	_, _ = s.in.WriteString(t)
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || s.defined[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < 3 && f.t.a[f.i] != nil {
			c := f.t.a[f.i]
			f.i++
			if c.op != OConst && !s.defined[c.id] {
				st = append(st, fr{c, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		s.defined[x.id] = true
		s.nDefined++
		if x.op == OVar {
			s.send(fmt.Sprintf("(declare-const v%d %s) ; %s\n", x.id, sortOf(x.w), x.name))
		} else {
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortOf(x.w), x.def()))
		}
	}
}

// check decides the conjunction of the terms. A model is returned for the variables occurring in them.
func (s *Solver) check(conj []*Term) qres {
	ids := make([]int, 0, len(conj))
	for _, c := range conj {
		if c == tTrue {
			continue
		}
		if c == tFalse {
			return qres{sat: 0}
		}
		ids = append(ids, c.id)
	}
	if len(ids) == 0 {
		return qres{sat: 1, model: Model{}}
	}
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, i := range ids {
		if i == last {
			continue
		}
		last = i
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.CacheHits++
		return r
	}
	t0 := time.Now()
	if s.nDefined > 60000 {
		s.stop()
		s.start()
	}
	r := s.ask(conj)
	s.Time += time.Since(t0)
	s.Queries++
	switch r.sat {
	case 1:
		s.Sat++
	case 0:
		s.Unsat++
	default:
		s.Unknown++
	}
	s.cache[key] = r
	return r
}

func (s *Solver) ask(conj []*Term) qres {
	var vars []*Term
	for _, c := range conj {
		s.define(c)
		vars = mergeVars(vars, c.vars)
	}
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	for _, c := range conj {
		sb.WriteString("(assert " + c.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	s.send(sb.String())
	if err := s.in.Flush(); err != nil {
		s.stop()
		s.start()
		return qres{sat: -1}
	}
	line := s.readLine()
	res := qres{sat: -1}
	switch line {
	case "sat":
		res.sat = 1
		res.model = Model{}
		if len(vars) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.ref() + " ")
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			_ = s.in.Flush()
			if !s.readValues(vars, res.model) {
				res = qres{sat: -1}
			}
		}
	case "unsat":
		res.sat = 0
	case "unknown", "timeout":
	default:
		// error or solver died: inconclusive
		fmt.Fprintf(os.Stderr, "solver said %q\n", line)
		s.stop()
		s.start()
		return res
	}
	s.send("(pop 1)\n")
	return res
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
		if err != nil {
			return "EOF"
		}
	}
}

// readValues reads ((v1 #x..) (v2 true) ...)
func (s *Solver) readValues(vars []*Term, m Model) bool {
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return false
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.ref()] = v
	}
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	n := 0
	for i := 0; i+1 < len(toks); i++ {
		v, ok := byName[toks[i]]
		if !ok {
			continue
		}
		x := toks[i+1]
		switch {
		case x == "true":
			m[v] = 1
		case x == "false":
			m[v] = 0
		case strings.HasPrefix(x, "#x"):
			u, _ := strconv.ParseUint(x[2:], 16, 64)
			m[v] = u
		case strings.HasPrefix(x, "#b"):
			u, _ := strconv.ParseUint(x[2:], 2, 64)
			m[v] = u
		case x == "_" && i+2 < len(toks) && strings.HasPrefix(toks[i+2], "bv"):
			u, _ := strconv.ParseUint(toks[i+2][2:], 10, 64)
			m[v] = u
		default:
			return false
		}
		n++
		i++
	}
	return n == len(vars)
}
