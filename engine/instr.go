package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// The replay build: a copy of the sources in which every visible operation is preceded by a call of the schedule
// controller. The places come from the SSA form, so that they are those of the symbolic executor.

func (e *Engine) siteKeys() map[string]bool {
	keys := map[string]bool{}
	for fn := range ssautil.AllFunctions(e.prog) {
		if fn.Blocks == nil || !e.isRepoFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, si := range b.Instrs {
				if visPos(si).IsValid() {
					if k := e.visible(si); k != "" {
						keys[e.siteKey(visPos(si), k)] = true
					}
				}
			}
		}
	}
	return keys
}

func (e *Engine) siteKey(p token.Pos, kind string) string {
	pos := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d:%d:%s", filepath.Base(pos.Filename), pos.Line, pos.Column, kind)
}

type edit struct {
	from, to int
	text     string
	seq      int
	open     bool
}

type instrumenter struct {
	e       *Engine
	keys    map[string]bool
	used    map[string]bool
	src     []byte
	base    int
	edits   []edit
	nsel    int
	harness bool
}

func (in *instrumenter) off(p token.Pos) int { return in.e.prog.Fset.Position(p).Offset }

func (in *instrumenter) ins(p token.Pos, text string) {
	in.rep(p, p, text)
}

func (in *instrumenter) rep(p, q token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(p), in.off(q), text, len(in.edits), strings.TrimRight(text, " })") != ""})
}

func (in *instrumenter) site(p token.Pos, kind string) (string, bool) {
	k := in.e.siteKey(p, kind)
	if in.keys[k] {
		in.used[k] = true
		return k, true
	}
	return "", false
}

// render returns the source between two offsets with the edits applied.
func (in *instrumenter) render(from, to int) string {
	var es []edit
	for _, d := range in.edits {
		if d.from >= from && d.to <= to {
			es = append(es, d)
		}
	}
	// at one offset: what closes an inner expression, then replaced ranges, then what opens an outer expression first
	rank := func(d edit) int {
		if d.to > d.from {
			return 1
		}
		if d.open {
			return 2
		}
		return 0
	}
	sort.SliceStable(es, func(a, b int) bool {
		x, y := es[a], es[b]
		if x.from != y.from {
			return x.from < y.from
		}
		if rank(x) != rank(y) {
			return rank(x) < rank(y)
		}
		if rank(x) == 1 {
			return x.to > y.to
		}
		if x.open {
			return x.seq > y.seq
		}
		return x.seq < y.seq
	})
	var sb strings.Builder
	p := from
	for _, d := range es {
		if d.from < p {
			continue // inside a replaced range
		}
		sb.Write(in.src[p:d.from])
		sb.WriteString(d.text)
		p = d.to
	}
	sb.Write(in.src[p:to])
	return sb.String()
}

func isConstLike(x ast.Expr) bool {
	switch y := x.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return y.Name == "nil" || y.Name == "true" || y.Name == "false"
	}
	return false
}

func (in *instrumenter) walk(n ast.Node, parentLabel *ast.LabeledStmt) {
	switch s := n.(type) {
	case nil:
		return
	case *ast.LabeledStmt:
		in.walk(s.Stmt, s)
		return
	case *ast.GoStmt:
		in.children(s.Call)
		y := "true"
		if in.harness {
			y = "false"
		}
		in.ins(s.Call.Fun.Pos(), "vGo(vSpawn(), "+y+", ")
		in.ins(s.Call.Fun.End(), ")")
		return
	case *ast.DeferStmt:
		in.children(s.Call)
		if k, ok := in.site(s.Defer, "call"); ok {
			in.wrapCall(s.Call, k)
		}
		return
	case *ast.CallExpr:
		in.children(s)
		if k, ok := in.site(s.Lparen, "call"); ok {
			in.wrapCall(s, k)
		}
		if k, ok := in.site(s.Lparen, "log"); ok {
			in.ins(s.Fun.Pos(), fmt.Sprintf("vYl(%q, ", k))
			in.ins(s.Fun.End(), ")")
		}
		if k, ok := in.site(s.Lparen, "mapd"); ok {
			in.ins(s.Args[0].Pos(), fmt.Sprintf("vMap(%q, true, ", k))
			in.ins(s.Args[0].End(), ")")
		}
		return
	case *ast.IndexExpr:
		in.children(s)
		for _, kind := range []string{"mapr", "mapw"} {
			if k, ok := in.site(s.Lbrack, kind); ok {
				in.ins(s.X.Pos(), fmt.Sprintf("vMap(%q, %v, ", k, kind == "mapw"))
				in.ins(s.X.End(), ")")
			}
		}
		return
	case *ast.UnaryExpr:
		in.children(s)
		if s.Op == token.ARROW {
			if k, ok := in.site(s.OpPos, "recv"); ok {
				in.ins(s.X.Pos(), fmt.Sprintf("vYc(%q, ", k))
				in.ins(s.X.End(), ")")
			}
		}
		return
	case *ast.SendStmt:
		in.children(s)
		if k, ok := in.site(s.Arrow, "send"); ok {
			x := s.Value
			if isConstLike(x) {
				x = s.Chan
			}
			in.ins(x.Pos(), fmt.Sprintf("vYc(%q, ", k))
			in.ins(x.End(), ")")
		}
		return
	case *ast.RangeStmt:
		in.children(s)
		for _, p := range []token.Pos{s.For, s.TokPos, s.X.Pos()} {
			if !p.IsValid() {
				continue
			}
			if k, ok := in.site(p, "recv"); ok {
				in.ins(s.X.Pos(), fmt.Sprintf("vRange(%q, ", k))
				in.ins(s.X.End(), ")")
				break
			}
			if k, ok := in.site(p, "mapn"); ok {
				in.ins(s.X.Pos(), fmt.Sprintf("vMapRange(%q, ", k))
				in.ins(s.X.End(), ")")
				break
			}
		}
		return
	case *ast.SelectStmt:
		k, ok := in.site(s.Select, "select")
		if !ok {
			in.children(s)
			return
		}
		in.nsel++
		v := fmt.Sprintf("vs%d", in.nsel)
		pre := "{ "
		i := 0
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			for _, b := range cc.Body {
				in.walk(b, nil)
			}
			if cc.Comm == nil {
				continue
			}
			var ch ast.Expr
			switch cm := cc.Comm.(type) {
			case *ast.SendStmt:
				ch = cm.Chan
				in.walk(cm.Value, nil)
			case *ast.ExprStmt:
				ch = ast.Unparen(cm.X).(*ast.UnaryExpr).X
			case *ast.AssignStmt:
				ch = ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr).X
			}
			in.walk(ch, nil)
			from, to := in.off(ch.Pos()), in.off(ch.End())
			pre += fmt.Sprintf("%s_%d := %s; ", v, i, in.render(from, to))
			in.rep(ch.Pos(), ch.End(), fmt.Sprintf("vSc(%s_%d, %s, %d)", v, i, v, i))
			i++
		}
		pre += fmt.Sprintf("%s := vYield(%q); _ = %s; ", v, k, v)
		p := s.Select
		if parentLabel != nil {
			p = parentLabel.Pos()
		}
		in.ins(p, pre)
		in.ins(s.End(), " }")
		return
	}
	in.children(n)
}

func (in *instrumenter) wrapCall(c *ast.CallExpr, k string) {
	if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "close" {
		in.rep(c.Fun.Pos(), c.Fun.End(), "vClose")
		in.ins(c.Lparen+1, fmt.Sprintf("%q, ", k))
		return
	}
	in.ins(c.Fun.Pos(), fmt.Sprintf("vYd(%q, ", k))
	in.ins(c.Fun.End(), ")")
}

// children walks the children of a node.
func (in *instrumenter) children(n ast.Node) {
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			in.walk(c, nil)
		}
		return false
	})
}

func (in *instrumenter) file(f *ast.File) string {
	in.children(f)
	return in.render(0, len(in.src))
}

// replayBuild compiles the two replay binaries (plain and schedule-controlled) into dir.
func (e *Engine) replayBuild(dir string, harness map[string]string, plain, conc bool) (warn []string, err error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	read := func(n string) string {
		b, err := os.ReadFile(filepath.Join(verifDir(), "harness", "native", n))
		if err != nil {
			fatal("%v", err)
		}
		return forPkg(string(b))
	}
	table := "\nvar vHarness = map[string]func(){\n"
	for _, m := range e.repoPkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "Z") && e.isHarnessFn(f) && f.Signature.Params().Len() == 0 {
			table += fmt.Sprintf("\t%q: %s,\n", f.Name(), f.Name())
		}
	}
	table += "}\n"
	repl := map[string]string{}
	tests, _ := filepath.Glob(filepath.Join(repoDir(), "*_test.go"))
	for _, t := range tests {
		repl[t] = ""
	}
	put := func(sub, name, src string) {
		p := filepath.Join(dir, sub, name)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
			fatal("%v", err)
		}
		repl[filepath.Join(repoDir(), name)] = p
	}
	e.buildRace = func() error {
		cmd := exec.Command("go", "test", "-c", "-race", "-vet=off", "-overlay", filepath.Join(dir, "conc.test.overlay.json"), "-o", filepath.Join(dir, "race.test"), ".")
		cmd.Dir = repoDir()
		cmd.Env = append(goEnv(), "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("%v\n%s", err, out)
		}
		return nil
	}
	build := func(bin string) error {
		b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
		ov := filepath.Join(dir, bin+".overlay.json")
		if err := os.WriteFile(ov, b, 0o644); err != nil {
			return err
		}
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", filepath.Join(dir, bin), ".")
		cmd.Dir = repoDir()
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("%v\n%s", err, out)
		}
		return nil
	}
	put("n", "zverif_sched.go", read("sched.go.txt"))
	put("n", "zverif_nativerace.go", read("race.go.txt"))
	put("n", "zverif_nativenorace.go", read("norace.go.txt"))
	put("n", "zverif_main_test.go", read("main_test.go.txt")+table)
	for name, src := range harness {
		put("p", name, src)
	}
	if plain {
		if err := build("plain.test"); err != nil {
			return warn, fmt.Errorf("plain replay build: %w", err)
		}
	}
	if !conc {
		return warn, nil
	}
	mapOps, logOps = true, true
	keys := e.siteKeys()
	used := map[string]bool{}
	for _, f := range e.files {
		path := e.prog.Fset.Position(f.Package).Filename
		name := filepath.Base(path)
		if name == "zverif_rt.go" {
			continue
		}
		in := &instrumenter{e: e, keys: keys, used: used, harness: strings.HasPrefix(name, "zverif")}
		if in.harness {
			in.src = []byte(harness[name])
		} else if in.src, err = os.ReadFile(path); err != nil {
			return warn, err
		}
		put("i", name, in.file(f))
	}
	for k := range keys {
		if !used[k] {
			warn = append(warn, "visible operation without replay point: "+k)
		}
	}
	sort.Strings(warn)
	if err := build("conc.test"); err != nil {
		return warn, fmt.Errorf("controlled replay build: %w", err)
	}
	return warn, nil
}
