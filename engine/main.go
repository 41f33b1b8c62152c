package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
)

func readHarness() map[string]string {
	root := verifDir()
	r := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(root, "harness", pkgDir, "zverif_*.go"))
	if pkgDir != "" {
		fs = append(fs, filepath.Join(root, "harness", "zverif_rt.go"))
	}
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		r[filepath.Base(f)] = forPkg(string(b))
	}
	return r
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	if p := os.Getenv("VERIF_PROF"); p != "" {
		f, _ := os.Create(p)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fatal("usage: gosym run SPEC.json|FN [param=value...] | check PROP quick|thorough")
	}
	switch os.Args[1] {
	case "run":
		runOne(os.Args[2:])
	case "check":
		check(os.Args[2:])
	case "replaybuild":
		h := readHarness()
		e := loadProgram(h)
		w, err := e.replayBuild(os.Args[2], h, true, true)
		fmt.Println(strings.Join(w, "\n"), err)
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

// runOne explores one harness configuration and prints the result as JSON.
func runOne(args []string) {
	var spec RunSpec
	if strings.HasPrefix(args[0], "{") {
		if err := json.Unmarshal([]byte(args[0]), &spec); err != nil {
			fatal("%v", err)
		}
	} else {
		spec = RunSpec{Fn: args[0], Params: map[string]int64{}, Samples: 60}
		for _, a := range args[1:] {
			k, v, _ := strings.Cut(a, "=")
			var n int64
			fmt.Sscan(v, &n)
			switch k {
			case "conc":
				spec.Concurrent = n != 0
			case "maxsteps":
				spec.MaxSteps = int(n)
			case "budget":
				spec.Budget = int(n)
			case "ms":
				spec.TimeMs = int(n)
			case "maxpaths":
				spec.MaxPaths = int(n)
			default:
				spec.Params[k] = n
			}
		}
	}
	e := loadProgram(readHarness())
	e.trace = os.Getenv("VERIF_TRACE") != ""
	r := e.explore(spec)
	b, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(b))
}
