package signalr

// Runtime of the verification harness. In the symbolic executor the v* functions are built in; natively they read the
// values of one concrete case, so that the same harness replays a counterexample against the real code.

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sync"
)

type vCaseT struct {
	Fn     string            `json:"fn"`
	Params map[string]int64  `json:"params"`
	Vals   map[string]uint64 `json:"vals"`
	Conc   bool              `json:"conc"`
	Steps  []vStepT          `json:"steps"`
}

type vStepT struct {
	Thr  string `json:"t"`
	Site string `json:"s"`
	Sel  int    `json:"c"`
	Tm   int64  `json:"n"`
}

var (
	vCase   vCaseT
	vOcc    = map[string]int{}
	vMx     sync.Mutex
	vWaitFn = func() {}
	vExit   = func(code int) { os.Exit(code) }
)

func vLoadCase(path string) {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &vCase)
	}
	if err != nil {
		fmt.Println("VERIF-ERR", err)
		os.Exit(9)
	}
}

func vFresh(name string) string {
	vMx.Lock()
	defer vMx.Unlock()
	n := vOcc[name]
	vOcc[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func vVal(n string) uint64 { return vCase.Vals[n] }

func vByte(name string) byte { return byte(vVal(vFresh(name))) }
func vBool(name string) bool { return vVal(vFresh(name))&1 == 1 }
func vBytes(name string, n int) []byte {
	nm := vFresh(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vVal(fmt.Sprintf("%s.%d", nm, i)))
	}
	return b
}
func vString(name string, n int) string { return string(vBytes(name, n)) }

// vInt is any value in [lo, hi].
func vInt(name string, lo, hi int) int { return int(vVal(vFresh(name))) }

// vChoose is any value in [0, n); every value gets a path of its own.
func vChoose(name string, n int) int { return int(vVal(vFresh(name))) }

// vConcrete makes a symbolic integer concrete, one path per value.
func vConcrete(i int) int { return i }

// vConcBytes makes symbolic bytes concrete.
func vConcBytes(b []byte) []byte { return b }

func vAssume(c bool) {
	if !c {
		fmt.Println("VERIF-ASSUME")
		vExit(8)
	}
}

func vAssert(c bool, what string) {
	if !c {
		vFail(what)
	}
}

func vFail(what string) {
	fmt.Printf("VERIF-FAIL %s\n", what)
	vExit(7)
}

func vReach(label string) { fmt.Printf("VERIF-REACH %s\n", label) }

func vObserve(name string, v interface{}) {
	s := "?"
	switch x := v.(type) {
	case nil:
		s = "nil"
	case string:
		s = fmt.Sprintf("%q", x)
	case []byte:
		s = fmt.Sprintf("%q", x)
	default:
		rv := reflect.ValueOf(v)
		switch rv.Kind() {
		case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			s = fmt.Sprint(v)
		}
	}
	fmt.Printf("VERIF-OBS %s=%s\n", name, s)
}

func vParam(name string) int { return int(vCase.Params[name]) }
func vSymbolic() bool        { return false }

// vWait returns when all other goroutines are blocked.
func vWait() { vWaitFn() }

// vCalm says whether schedules do not deviate from here on. Phases of a harness which only prepare or only look at the
// result are calm.
func vCalm(on bool) {}

// vDone ends the harness.
func vDone() {
	fmt.Println("VERIF-OK")
	vExit(0)
}

// vLog is a logger that drops everything.
type vLog struct{}

func (vLog) Log(...interface{}) error { return nil }
