package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// CheckConf is checks/<property>.json.
type CheckConf struct {
	Property    string
	Runs        []RunConf
	Assumptions []string
	Bounds      string
	Pkg         string // directory of the package under test, if it is not the root one
}

// RunConf is one harness with its bounds; Split lists parameters that get one process per value.
type RunConf struct {
	Fn       string
	Params   map[string]int64
	Split    map[string][]int64
	Conc     bool
	Budget   int
	Ms       int
	MaxSteps int
	MaxTimeS int64
	Tier     string // "", "quick" or "thorough"
	Reach    []string
	Thorough *RunConf // differing values for the thorough tier
}

type Known struct {
	Property string `json:"property"`
	Fn       string `json:"fn"`
	Kind     string `json:"kind,omitempty"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
}

type replayResult struct {
	rc       int
	out      string
	diverged int
}

func expand(runs []RunConf, tier string) []RunSpec {
	var res []RunSpec
	for _, r := range runs {
		if r.Tier != "" && r.Tier != tier {
			continue
		}
		if tier == "thorough" && r.Thorough != nil {
			t := r.Thorough
			p := map[string]int64{}
			for k, v := range r.Params {
				p[k] = v
			}
			for k, v := range t.Params {
				p[k] = v
			}
			r.Params = p
			if t.Split != nil {
				r.Split = t.Split
			}
			if t.Budget != 0 {
				r.Budget = t.Budget
			}
			if t.Ms != 0 {
				r.Ms = t.Ms
			}
			if t.MaxSteps != 0 {
				r.MaxSteps = t.MaxSteps
			}
		}
		specs := []map[string]int64{{}}
		for k, v := range r.Params {
			specs[0][k] = v
		}
		var ks []string
		for k := range r.Split {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			var n []map[string]int64
			for _, s := range specs {
				for _, v := range r.Split[k] {
					c := map[string]int64{}
					for a, b := range s {
						c[a] = b
					}
					c[k] = v
					n = append(n, c)
				}
			}
			specs = n
		}
		for _, s := range specs {
			ms := r.Ms
			if ms == 0 {
				ms = 150000
				if tier == "thorough" {
					ms = 600000
				}
			}
			res = append(res, RunSpec{Fn: r.Fn, Params: s, Concurrent: r.Conc, Budget: r.Budget, TimeMs: ms, MaxSteps: r.MaxSteps, MaxTimeS: r.MaxTimeS, Samples: 0})
		}
	}
	return res
}

func check(args []string) {
	if len(args) < 1 {
		fatal("usage: gosym check PROPERTY [quick|thorough]")
	}
	prop := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t0 := time.Now()
	var conf CheckConf
	b, err := os.ReadFile(filepath.Join(verifDir(), "checks", prop+".json"))
	if err == nil {
		err = json.Unmarshal(b, &conf)
	}
	if err != nil {
		fatal("%v", err)
	}
	if conf.Pkg != "" {
		// for the exploration processes, too
		_ = os.Setenv("VERIF_PKG", conf.Pkg)
		selectPkg(conf.Pkg)
	}
	var known []Known
	if b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json")); err == nil {
		var kf struct{ Known []Known }
		if err := json.Unmarshal(b, &kf); err != nil {
			fatal("known-findings.json: %v", err)
		}
		known = kf.Known
	}
	specs := expand(conf.Runs, tier)
	for i := range specs {
		specs[i].Samples = 2 + 24/len(specs)
	}
	work, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(work)
	exit := func(code int) {
		_ = os.RemoveAll(work)
		os.Exit(code)
	}

	// the replay binaries are built while the explorations run
	plain, conc := false, false
	for _, s := range specs {
		if s.Concurrent {
			conc = true
		} else {
			plain = true
		}
	}
	var buildErr error
	var buildWarn []string
	var harnessErr string
	var buildRace func() error
	built := make(chan struct{})
	go func() {
		defer close(built)
		h := readHarness()
		e := loadProgram(h)
		harnessErr = e.dropped
		buildWarn, buildErr = e.replayBuild(work, h, plain, conc)
		buildRace = e.buildRace
	}()

	results := make([]*Result, len(specs))
	errs := make([]string, len(specs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	self, _ := os.Executable()
	for i := range specs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			specs[i].Seed = seed
			j, _ := json.Marshal(specs[i])
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(specs[i].TimeMs)*time.Millisecond+60*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, self, "run", string(j))
			var out, eb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &eb
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOMAXPROCS=3", "GOGC=200")
			if err := cmd.Run(); err != nil {
				errs[i] = fmt.Sprintf("%s: %v: %s", specs[i].Fn, err, tail(eb.String(), 600))
				return
			}
			var r Result
			if err := json.Unmarshal(out.Bytes(), &r); err != nil {
				errs[i] = fmt.Sprintf("%s: %v", specs[i].Fn, err)
				return
			}
			results[i] = &r
		}(i)
	}
	wg.Wait()
	<-built

	cov := map[string]interface{}{}
	var notes []string
	note := func(f string, a ...interface{}) { notes = append(notes, fmt.Sprintf(f, a...)) }
	for _, e := range errs {
		if e != "" {
			note("exploration failed: %s", e)
		}
	}
	if harnessErr != "" {
		note("harness files that do not fit the current sources were left out: %s", harnessErr)
	}
	if buildErr != nil {
		note("replay build failed: %v", buildErr)
	}

	// aggregate
	var states, sched, asserts, queries, sat, unsat, unknown, hits, merged int
	var steps, solverMs int64
	paths := map[string]int{}
	reached := map[string]int{}
	fns := map[string]bool{}
	incompl := map[string]int{}
	exhausted := true
	poison := map[string]bool{}
	var confs []interface{}
	var found []Finding
	var samples []Case
	threads := 0
	for i, r := range results {
		if r == nil {
			exhausted = false
			continue
		}
		states += r.States
		sched += r.Sched
		asserts += r.Asserts
		queries += r.Queries
		hits += r.CacheHits
		sat += r.Sat
		unsat += r.Unsat
		unknown += r.Unknown
		merged += r.Merged
		steps += r.Steps
		solverMs += r.SolverMs
		if r.Threads > threads {
			threads = r.Threads
		}
		for k, v := range r.Paths {
			paths[k] += v
		}
		for k, v := range r.Reached {
			reached[k] += v
		}
		for _, f := range r.Functions {
			fns[strings.ReplaceAll(f, repoPath+".", "")] = true
		}
		for k, v := range r.Incompl {
			incompl[k] += v
		}
		for _, p := range r.Poison {
			poison[p] = true
		}
		if !r.Exhausted {
			exhausted = false
		}
		confs = append(confs, map[string]interface{}{"harness": r.Harness, "params": r.Config, "concurrent": specs[i].Concurrent, "deviations": specs[i].Budget, "paths": r.Paths, "exhausted": r.Exhausted, "wall_ms": r.WallMs})
		found = append(found, r.Found...)
		samples = append(samples, r.Samples...)
	}
	for _, r := range conf.Runs {
		if r.Tier != "" && r.Tier != tier {
			continue
		}
		for _, l := range r.Reach {
			if reached[l] == 0 {
				note("vacuous: label %q of %s was not reached", l, r.Fn)
				exhausted = false
			}
		}
	}

	for _, f := range found {
		if f.Kind == "race" && buildErr == nil {
			if err := buildRace(); err != nil {
				note("replay build with the race detector failed: %v", err)
			}
			break
		}
	}

	// replay witnesses of passing paths
	if len(samples) > 24 {
		var s []Case
		for i := 0; i < 24; i++ {
			s = append(s, samples[i*len(samples)/24])
		}
		samples = s
	}
	type vr struct{ ok, agree, div int }
	var v vr
	var mism []string
	runAll(len(samples), func(i int) {
		if buildErr != nil {
			return
		}
		r := replay(work, samples[i], 3)
		mu.Lock()
		defer mu.Unlock()
		v.ok++
		if r.rc == 0 && sameObs(samples[i], r.out) {
			v.agree++
			if r.diverged > 0 {
				v.div++
			}
		} else {
			mism = append(mism, fmt.Sprintf("%s %v: rc=%d %s", samples[i].Fn, samples[i].Params, r.rc, tail(r.out, 300)))
		}
	})

	// replay candidate violations
	type hit struct {
		f Finding
		r replayResult
	}
	hits2 := make([]*hit, len(found))
	runAll(len(found), func(i int) {
		if buildErr != nil {
			return
		}
		for try := 0; try < 3; try++ {
			r := replay(work, found[i].Case, 1)
			if reproduces(found[i], r) {
				hits2[i] = &hit{found[i], r}
				return
			}
			if try == 2 {
				mu.Lock()
				mism = append(mism, fmt.Sprintf("not reproduced: %s %v %s: %s: rc=%d %s", found[i].Case.Fn, found[i].Case.Params, found[i].Kind, found[i].Msg, r.rc, tail(r.out, 300)))
				mu.Unlock()
			}
		}
	})
	viol := 0
	printed := map[string]bool{}
	evDir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(evDir, prop+".violation.*.json"))
	for _, o := range old {
		_ = os.Remove(o)
	}
	var violations []interface{}
	for _, h := range hits2 {
		if h == nil {
			continue
		}
		key := h.f.Case.Fn + "|" + h.f.Kind + "|" + h.f.Where
		if k := matchKnown(known, prop, h.f); k != nil {
			if !printed["K"+k.What] {
				printed["K"+k.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
			}
			continue
		}
		if printed[key] {
			continue
		}
		printed[key] = true
		viol++
		p := filepath.Join(evDir, fmt.Sprintf("%s.violation.%d.json", prop, viol))
		j, _ := json.MarshalIndent(map[string]interface{}{"pkg": conf.Pkg, "kind": h.f.Kind, "message": h.f.Msg, "case": h.f.Case, "replay_exit": h.r.rc, "replay_output": tail(h.r.out, 4000),
			"how": "VERIF_CASE=<file with the object under case> <replay binary>; /verif/replay.sh <this file> builds the binary and runs it"}, "", " ")
		_ = os.WriteFile(p, j, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		fmt.Printf("  %s: %s (harness %s %v values %v)\n", h.f.Kind, tail(h.f.Msg, 400), h.f.Case.Fn, h.f.Case.Params, h.f.Case.Vals)
		violations = append(violations, map[string]interface{}{"kind": h.f.Kind, "message": h.f.Msg, "replay": p})
	}

	var ss []interface{}
	for i, s := range samples {
		if i < 3 {
			if len(s.Steps) > 40 {
				s.Steps = append(s.Steps[:20:20], s.Steps[len(s.Steps)-20:]...)
			}
			ss = append(ss, s)
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var pl []string
	for p := range poison {
		pl = append(pl, p)
	}
	sort.Strings(pl)
	cov["states"] = states
	cov["transitions"] = int(steps)
	cov["traces_validated_against_impl"] = v.agree
	cov["traces_replayed"] = v.ok
	cov["traces_agreeing_with_schedule_deviations"] = v.div
	cov["samples"] = ss
	cov["exhaustive"] = exhausted && len(incompl) == 0
	cov["paths"] = paths
	cov["assertions_decided"] = asserts
	cov["scheduling_points"] = sched
	cov["merged_states"] = merged
	cov["solver_queries"] = queries
	cov["solver_cache_hits"] = hits
	cov["solver_sat"] = sat
	cov["solver_unsat"] = unsat
	cov["solver_unknown"] = unknown
	cov["solver_ms"] = solverMs
	cov["functions_encoded"] = fl
	cov["max_goroutines"] = threads
	cov["configurations"] = confs
	cov["reached"] = reached
	cov["bounds"] = conf.Bounds
	cov["incomplete"] = incompl
	cov["package_initialisers_cut_short"] = pl
	cov["disagreements"] = mism
	cov["notes"] = append(notes, buildWarn...)
	cov["violations_found"] = violations
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "assumptions": append(append([]string{}, conf.Assumptions...), baseAssumptions...), "violations": viol}
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), j, 0o644); err != nil {
		fatal("%v", err)
	}
	for _, n := range notes {
		fmt.Println("NOTE:", n)
	}
	for k, n := range incompl {
		fmt.Printf("INCOMPLETE: %s (%d paths)\n", tail(k, 300), n)
	}
	for _, m := range mism {
		fmt.Println("DISAGREEMENT:", m)
	}
	fmt.Printf("%s %s: %d paths %v, %d assertions, %d solver queries (%d ms), %d/%d witnesses replayed, exhaustive=%v, %.1fs\n", prop, tier, sum(paths), paths, asserts, queries, solverMs, v.agree, v.ok, cov["exhaustive"], time.Since(t0).Seconds())
	if viol > 0 {
		exit(1)
	}
	if sum(paths) == 0 || buildErr != nil && len(found) > 0 {
		exit(3)
	}
	exit(0)
}

var baseAssumptions = []string{
	"the symbolic executor gives go/ssa instructions and the replaced runtime functions (goroutines, channels, sync, sync/atomic, time, reflect, math/rand) their documented meaning; witnesses and counterexamples are replayed against the compiled code",
	"goroutines are interleaved at the visible operations of the repository's own code (channel operations, locks, atomics, sync.Map, context checks and transport reads/writes); plain memory accesses between two such operations are executed without interruption",
	"time advances only when no goroutine can run",
	"schedules deviate from round-robin execution at most the stated number of times",
	"map iteration follows insertion order",
}

var mu sync.Mutex

func runAll(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			f(i)
		}()
	}
	wg.Wait()
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func replay(work string, c Case, tries int) (r replayResult) {
	f, err := os.CreateTemp(work, "case*.json")
	if err != nil {
		return replayResult{rc: -1, out: err.Error()}
	}
	b, _ := json.Marshal(c)
	_, _ = f.Write(b)
	_ = f.Close()
	bin, limit := "plain.test", "ulimit -v 12000000; "
	if c.Conc {
		bin = "conc.test"
	}
	if c.Outcome == "race" {
		bin, limit = "race.test", "" // the race detector maps terabytes
	}
	for i := 0; i < tries; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		// a limit on memory, so that an absurd allocation ends the replay and not the sandbox
		cmd := exec.CommandContext(ctx, "/bin/sh", "-c", limit+`exec "$0" "$@"`, filepath.Join(work, bin), "-test.run", "^TestVerifReplay$")
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "VERIF_CASE="+f.Name())
		out, err := cmd.CombinedOutput()
		cancel()
		r = replayResult{out: string(out)}
		if err != nil {
			r.rc = -1
			if ee, ok := err.(*exec.ExitError); ok {
				r.rc = ee.ExitCode()
			}
		}
		for _, l := range strings.Split(r.out, "\n") {
			if n, ok := strings.CutPrefix(l, "VERIF-DIVERGED "); ok {
				r.diverged, _ = strconv.Atoi(n)
			}
		}
		if r.rc == 0 && (c.Outcome != "ok" || sameObs(c, r.out)) {
			break
		}
	}
	return r
}

// sameObs compares the observations of a replay with the predicted ones.
func sameObs(c Case, out string) bool {
	var got []string
	for _, l := range strings.Split(out, "\n") {
		if o, ok := strings.CutPrefix(l, "VERIF-OBS "); ok {
			got = append(got, o)
		}
	}
	if len(got) != len(c.Obs) {
		return false
	}
	for i := range got {
		if got[i] != c.Obs[i] && !strings.HasSuffix(c.Obs[i], "=?") {
			return false
		}
	}
	return true
}

func reproduces(f Finding, r replayResult) bool {
	switch f.Kind {
	case "assert":
		if r.rc != 7 {
			return false
		}
		return strings.Contains(r.out, "VERIF-FAIL "+f.Msg)
	case "crash":
		return r.rc == 2 && (strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:"))
	case "spin":
		return r.rc == 5
	case "hang":
		return r.rc == 6
	case "race":
		return raceSeen(f.Msg, r.out)
	}
	return false
}

func matchKnown(known []Known, prop string, f Finding) *Known {
	for i, k := range known {
		if k.Property == prop && k.Fn == f.Case.Fn && (k.Kind == "" || k.Kind == f.Kind) && strings.Contains(f.Msg, k.Msg) {
			return &known[i]
		}
	}
	return nil
}
