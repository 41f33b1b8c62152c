package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// repoPath is the import path of the package under test, pkgDir its directory in the repository. VERIF_PKG selects another
// package than the root one; its harnesses are in the subdirectory of the same name.
var repoPath, pkgDir = "github.com/philippseith/signalr", os.Getenv("VERIF_PKG")

func selectPkg(dir string) {
	pkgDir = dir
	repoPath = "github.com/philippseith/signalr"
	if dir != "" {
		repoPath += "/" + dir
	}
}

func init() { selectPkg(pkgDir) }

// forPkg adapts a source file of the harness runtime to the package under test.
func forPkg(src string) string {
	if pkgDir == "" {
		return src
	}
	return strings.Replace(src, "package signalr\n", "package "+filepath.Base(pkgDir)+"\n", 1)
}

// Engine executes the functions of one program symbolically.
type Engine struct {
	buildRace func() error // builds race.test after replayBuild

	tt      typeTab
	prog    *ssa.Program
	repoPkg *ssa.Package
	files   []*ast.File
	dropped string // harness files left out
	fns     map[*ssa.Function]*FnInfo
	fnList  []*FnInfo
	gids    map[*ssa.Global]int32
	glist   []*ssa.Global
	nextG   int32
	sites   []Site
	siteIdx map[string]int
	fcl     map[*ssa.Function]*Closure
	itab    map[*ssa.Function]*intrinsic
	rtErr   *RType
	rtypeRT *RType
	ltypeRT *RType
	tByte   *RType
	tInt    *RType
	sizes   types.Sizes
	solver  *Solver
	osolver *Solver // of the order of events
	work    []*State
	base    *State
	inited  map[*ssa.Package]bool
	poison  []string
	trampFI *FnInfo
	params  map[string]int64

	forks, nstates, nsched, asserts int
	genCtr                          uint32
	nsteps                          int64
	maxSteps                        int
	maxTime                         int64
	deadline                        time.Time
	concurrent                      bool
	trace                           bool
	fnHit                           map[*FnInfo]int
	inconcl                         map[string]int
	seen                            map[[2]uint64]int
	merged                          int
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func repoDir() string {
	d := os.Getenv("VERIF_REPO")
	if d == "" {
		d = "/repo"
	}
	return filepath.Join(d, pkgDir)
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "PATH=") || strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOWORK=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "PATH=/opt/veriftools/go1.25.14/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
}

// loadProgram builds the SSA form of the repository with the harness files added to its package.
func loadProgram(harness map[string]string) *Engine {
	_ = os.Setenv("PATH", "/opt/veriftools/go1.25.14/bin:"+os.Getenv("PATH")) // go/packages looks the go command up here
	var pkgs []*packages.Package
	dropped := ""
	for {
		overlay := map[string][]byte{}
		for name, src := range harness {
			overlay[filepath.Join(repoDir(), name)] = []byte(src)
		}
		fset := token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir(), Env: goEnv(), Overlay: overlay, Fset: fset}
		var err error
		pkgs, err = packages.Load(cfg, ".")
		if err != nil {
			fatal("load: %v", err)
		}
		bad := ""
		again := false
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				bad += e.Error() + "\n"
				f := filepath.Base(strings.SplitN(e.Pos, ":", 2)[0])
				if _, ok := harness[f]; ok && f != "zverif_rt.go" {
					// a harness that does not fit the current sources is left out
					delete(harness, f)
					dropped += e.Error() + "; "
					again = true
				}
			}
		})
		if bad == "" {
			break
		}
		if !again {
			fatal("the repository does not load:\n%s", bad)
		}
	}
	prog, ips := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{
		prog: prog, dropped: dropped, repoPkg: ips[0], files: pkgs[0].Syntax, fns: map[*ssa.Function]*FnInfo{}, gids: map[*ssa.Global]int32{}, siteIdx: map[string]int{},
		fcl: map[*ssa.Function]*Closure{}, itab: map[*ssa.Function]*intrinsic{}, inited: map[*ssa.Package]bool{}, params: map[string]int64{},
		fnHit: map[*FnInfo]int{}, inconcl: map[string]int{}, seen: map[[2]uint64]int{}, maxSteps: 3000000, maxTime: 1e9 * 3600,
		sizes: types.SizesFor("gc", "amd64"),
	}
	e.tt.byPtr = map[types.Type]*RType{}
	e.tt.canon.SetHasher(typeutil.MakeHasher())
	e.tByte = e.rt(types.Typ[types.Uint8])
	e.tInt = e.rt(types.Typ[types.Int])
	tf := prog.NewFunction("trampoline", types.NewSignatureType(nil, nil, nil, nil, nil, false), "engine trampoline")
	e.trampFI = &FnInfo{fn: tf, nregs: 3, rec: -1}
	e.trampFI.blks = []blk{{insts: []inst{{op: opTramp, dst: 1, fi: e.trampFI}, {op: opReturn, dst: -1, args: []int32{1}, fi: e.trampFI}}}}
	e.base = &State{e: e, inBase: true, gen: 1, occ: map[string]int{}, pools: map[int64][]Value{}, tags: map[string]Value{}, model: Model{}}
	e.genCtr = 1
	return e
}

func (e *Engine) lookupFn(pkg, name string) *ssa.Function {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported{"package " + pkg})
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported{"function " + pkg + "." + name})
	}
	return f
}

func (e *Engine) inconclusive(msg string) { e.inconcl[msg]++ }

// needPkg runs the initialiser of a package, once, when the first code that refers to one of its variables is prepared.
func (e *Engine) needPkg(p *ssa.Package) {
	if e.inited[p] {
		return
	}
	e.inited[p] = true
	st := e.base
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			rt := e.rt(g.Type().Underlying().(*types.Pointer).Elem())
			st.setGlobal(e.gid(g), newCells(rt, 1))
		}
	}
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	save, sc := st.threads, st.cur
	defer func() { st.threads, st.cur = save, sc }()
	fi := e.info(f)
	fr := &Frame{gen: st.gen, fi: fi, regs: make([]Value, fi.nregs)}
	th := &Thread{gen: st.gen, name: "init", frames: []*Frame{fr}, status: tRun}
	st.threads = []*Thread{th}
	st.cur = 0
	x := &X{e: e, st: st}
	for th.status == tRun && len(th.frames) > 0 {
		why := func() (why string) {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case unsupported:
					why = r.msg + " in " + x.where()
				case goPanic:
					why = "panic " + x.panicText(r.val)
				case pathEnd:
					why = r.kind + " " + r.msg
				default:
					why = fmt.Sprint(r)
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "init %v: %v\n%s\n", p, r, debug.Stack())
					}
				}
			}()
			x.runThread()
			return ""
		}()
		if th.status == tBlock {
			why = "blocked: " + th.what
			th.status = tRun
		}
		if why == "" {
			break
		}
		if i := strings.Index(why, " < "); i > 0 {
			why = why[:i]
		}
		e.poison = append(e.poison, p.Pkg.Path()+": "+why)
		if len(th.frames) == 0 {
			break
		}
		th.frames = th.frames[:1]
		st.forced, st.fidx = nil, 0
		fr = th.frames[0]
		in := &fr.fi.blks[fr.blk].insts[fr.pc]
		if in.op == opIf || in.op == opJump || in.op == opReturn {
			break
		}
		if in.dst >= 0 {
			fr.regs[in.dst] = Poison{p.Pkg.Path() + ": " + why}
		}
		fr.pc++
	}
}

func (e *Engine) visited(st *State, x *X) bool { return false }

// Result is what one exploration found.
type Result struct {
	Harness   string
	Config    map[string]int64
	Paths     map[string]int // outcome kind -> number of paths
	Found     []Finding      // candidate violations
	Samples   []Case         // witnesses of ok paths
	Reached   map[string]int
	Asserts   int
	Steps     int64
	States    int
	Forks     int
	Sched     int
	Merged    int
	Queries   int
	CacheHits int
	Sat       int
	Unsat     int
	Unknown   int
	SolverMs  int64
	WallMs    int64
	Functions []string
	Poison    []string
	Incompl   map[string]int
	Exhausted bool
	Events    int64 // accesses and synchronisation operations examined for data races
	Threads   int   // largest number of goroutines on a path
}

// Case is a concrete execution to be replayed against the real code.
type Case struct {
	Fn      string            `json:"fn"`
	Params  map[string]int64  `json:"params"`
	Vals    map[string]uint64 `json:"vals"`
	Steps   []StepJ           `json:"steps,omitempty"`
	Conc    bool              `json:"conc"`
	Obs     []string          `json:"obs,omitempty"`
	Reached []string          `json:"reached,omitempty"`
	Outcome string            `json:"outcome"`
	Msg     string            `json:"msg"`
}
type StepJ struct {
	Thr  string `json:"t"`
	Site string `json:"s"`
	Sel  int    `json:"c"`
	Tm   int64  `json:"n"`
}

// Finding is a candidate violation.
type Finding struct {
	Kind  string
	Msg   string
	Where string
	Case  Case
}

type RunSpec struct {
	Fn         string
	Params     map[string]int64
	Concurrent bool
	Budget     int
	MaxPaths   int
	MaxSteps   int
	TimeMs     int
	Samples    int
	MaxTimeS   int64
	AllowHang  bool
	Seed       int64
}

// explore runs the harness function over all values and schedules within the bounds.
func (e *Engine) explore(spec RunSpec) *Result {
	t0 := time.Now()
	e.params = spec.Params
	mapOps = spec.Params["maps"] == 1
	logOps = spec.Params["logs"] == 1
	raceOn = spec.Params["race"] == 1
	e.concurrent = spec.Concurrent
	if spec.MaxSteps > 0 {
		e.maxSteps = spec.MaxSteps
	}
	if spec.MaxTimeS > 0 {
		e.maxTime = spec.MaxTimeS * 1e9
	}
	if spec.TimeMs == 0 {
		spec.TimeMs = 60000
	}
	e.deadline = t0.Add(time.Duration(spec.TimeMs) * time.Millisecond)
	e.solver = newSolver("QF_BV")
	defer e.solver.stop()
	fn := e.repoPkg.Func(spec.Fn)
	if fn == nil {
		fatal("no harness function %s; dropped: %s", spec.Fn, e.dropped)
	}
	res := &Result{Harness: spec.Fn, Config: spec.Params, Paths: map[string]int{}, Reached: map[string]int{}, Incompl: e.inconcl, Exhausted: true}
	e.nstates = 1
	e.genCtr += 2
	st := &State{e: e, id: 1, gen: e.genCtr, occ: map[string]int{}, pools: map[int64][]Value{}, tags: map[string]Value{}, model: Model{}, budget: spec.Budget, sels: -1, last: 0}
	if n, ok := spec.Params["sels"]; ok {
		st.sels = int(n)
	}
	fi := e.info(fn)
	st.threads = []*Thread{{gen: st.gen, name: "0", frames: []*Frame{{gen: st.gen, fi: fi, regs: make([]Value, fi.nregs)}}}}
	e.fnHit[fi]++
	e.work = []*State{st}
	seenMsg := map[string]int{}
	nsample := 0
	for len(e.work) > 0 {
		if time.Now().After(e.deadline) {
			res.Exhausted = false
			e.inconclusive(fmt.Sprintf("time budget used up with %d+ states left", len(e.work)))
			break
		}
		if spec.MaxPaths > 0 && res.total() >= spec.MaxPaths {
			res.Exhausted = false
			e.inconclusive("path budget used up")
			break
		}
		s := e.popWork()
		out := e.runState(s)
		res.Paths[out.kind]++
		if len(s.threads) > res.Threads {
			res.Threads = len(s.threads)
		}
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "path %d: %s %s steps=%d thr=%d pc=%d trace=%d\n", s.id, out.kind, out.msg, s.steps, len(s.threads), len(s.pc), len(s.trace))
			if os.Getenv("VERIF_VERBOSE") == "2" {
				for _, t := range s.trace {
					fmt.Fprintf(os.Stderr, "   %s %s sel=%d t=%d\n", t.thr, e.siteName(t.site), t.sel, t.tm)
				}
				fmt.Fprintf(os.Stderr, "   obs %v\n", e.mkCase(spec, s, out).Obs)
			}
		}
		for _, r := range s.reached {
			res.Reached[r]++
		}
		if raceOn && out.kind != "assume" {
			for _, r := range e.decideRaces(s.ev, s.nev) {
				m := e.raceMsg(r)
				if seenMsg[m]++; seenMsg[m] <= 3 {
					res.Found = append(res.Found, Finding{Kind: "race", Msg: m, Where: m, Case: e.mkCase(spec, s, outcome{"race", m})})
				}
			}
			res.Events += int64(s.nev)
			s.ev = nil
		}
		switch out.kind {
		case "ok":
			nsample++
			if len(res.Samples) < spec.Samples {
				res.Samples = append(res.Samples, e.mkCase(spec, s, out))
			} else if spec.Samples > 0 {
				// reservoir by a fixed generator
				k := int(hash64(uint64(spec.Seed), uint64(nsample)) % uint64(nsample))
				if k < spec.Samples {
					res.Samples[k] = e.mkCase(spec, s, out)
				}
			}
		case "assume", "merged":
		case "assert", "crash", "hang", "spin":
			if out.kind == "spin" {
				e.work = nil // every other path may spin as well
			}
			if out.kind == "hang" && spec.AllowHang {
				break
			}
			key := out.kind + out.msg
			if out.kind == "hang" || out.kind == "spin" {
				key = out.kind
			}
			seenMsg[key]++
			if seenMsg[key] <= 3 {
				w := ""
				if key == out.kind+out.msg {
					w = out.msg
				}
				res.Found = append(res.Found, Finding{Kind: out.kind, Msg: out.msg, Where: w, Case: e.mkCase(spec, s, out)})
			}
		default: // bound, timeout, unsupported
			e.inconclusive(out.kind + ": " + out.msg)
			if out.kind == "timeout" {
				res.Exhausted = false
			}
		}
	}
	res.Asserts = e.asserts
	res.Steps = e.nsteps
	res.States = e.nstates
	res.Forks = e.forks
	res.Sched = e.nsched
	res.Merged = e.merged
	sv := e.solver
	res.Queries, res.CacheHits, res.Sat, res.Unsat, res.Unknown, res.SolverMs = sv.Queries, sv.CacheHits, sv.Sat, sv.Unsat, sv.Unknown, sv.Time.Milliseconds()
	if e.osolver != nil {
		sv := e.osolver
		res.Queries += sv.Queries
		res.CacheHits += sv.CacheHits
		res.Sat += sv.Sat
		res.Unsat += sv.Unsat
		res.Unknown += sv.Unknown
		res.SolverMs += sv.Time.Milliseconds()
		sv.stop()
	}
	res.WallMs = time.Since(t0).Milliseconds()
	res.Poison = e.poison
	for fi := range e.fnHit {
		if fi.repo {
			res.Functions = append(res.Functions, fi.fn.String())
		}
	}
	sort.Strings(res.Functions)
	return res
}

func hash64(a, b uint64) uint64 {
	h := a*0x9e3779b97f4a7c15 + b
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

func (r *Result) total() int {
	n := 0
	for _, k := range r.Paths {
		n += k
	}
	return n
}

func (e *Engine) siteName(id int) string {
	switch id {
	case siteStart:
		return "start"
	case siteWait:
		return "vwait"
	case siteTime:
		return "time"
	}
	s := e.sites[id]
	return fmt.Sprintf("%s:%d:%d:%s", filepath.Base(s.pos.Filename), s.pos.Line, s.pos.Column, s.kind)
}

func (e *Engine) mkCase(spec RunSpec, s *State, out outcome) Case {
	c := Case{Fn: spec.Fn, Params: spec.Params, Conc: spec.Concurrent, Vals: map[string]uint64{}, Outcome: out.kind, Msg: out.msg, Reached: s.reached}
	for _, n := range s.names {
		if n.t == nil {
			c.Vals[n.name] = n.v.(uint64)
		} else {
			c.Vals[n.name] = n.t.eval(s.model)
		}
	}
	for _, o := range s.obs {
		c.Obs = append(c.Obs, o.name+"="+e.showVal(o.v.(Iface), s.model))
	}
	for _, t := range s.trace {
		c.Steps = append(c.Steps, StepJ{t.thr, e.siteName(t.site), t.sel, t.tm})
	}
	return c
}

// showVal renders an observed value in the way the native side does.
func (e *Engine) showVal(v Iface, m Model) string {
	if v.rt == nil {
		return "nil"
	}
	ev := func(x Value) uint64 {
		switch y := x.(type) {
		case uint64:
			return y
		case bool:
			if y {
				return 1
			}
			return 0
		case *Term:
			return y.eval(m)
		}
		return 0
	}
	switch v.rt.kind {
	case KInt:
		if v.rt.signed {
			return fmt.Sprint(sx(ev(v.v), v.rt.w))
		}
		return fmt.Sprint(ev(v.v))
	case KBool:
		return fmt.Sprint(ev(v.v) != 0)
	case KString, KSlice:
		switch v.v.(type) {
		case string, *SymStr:
			b := strBytes(v.v)
			r := make([]byte, len(b))
			for i, c := range b {
				r[i] = byte(ev(c))
			}
			return fmt.Sprintf("%q", r)
		}
	}
	return "?"
}
