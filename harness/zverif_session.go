package signalr

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"
)

// vWire is one message as it went over the wire.
type vWire struct {
	Type   int
	ID     string
	HasID  bool
	Target string
	Args   []string
	Ids    []string
	Value  string // item or result
	HasVal bool
	Error  string
	HasErr bool
	Allow  bool
}

type vWireJSON struct {
	Type           int               `json:"type"`
	InvocationID   *string           `json:"invocationId"`
	Target         string            `json:"target"`
	Arguments      []json.RawMessage `json:"arguments"`
	StreamIds      []string          `json:"streamIds"`
	Item           json.RawMessage   `json:"item"`
	Result         json.RawMessage   `json:"result"`
	Error          *string           `json:"error"`
	AllowReconnect bool              `json:"allowReconnect"`
}

// vParseWire decodes one write of a party, which must be exactly one message.
func vParseWire(b []byte) vWire {
	vAssert(len(b) > 0 && b[len(b)-1] == 0x1e, "a write does not end with the end of a message")
	b = b[:len(b)-1]
	for _, c := range b {
		vAssert(c != 0x1e, "a write contains more than one message")
	}
	var j vWireJSON
	vAssert(json.Unmarshal(b, &j) == nil, "a written message is not valid JSON")
	w := vWire{Type: j.Type, Target: j.Target, Ids: j.StreamIds, Allow: j.AllowReconnect}
	if j.InvocationID != nil {
		w.ID, w.HasID = *j.InvocationID, true
	}
	if j.Error != nil {
		w.Error, w.HasErr = *j.Error, true
	}
	if j.Item != nil {
		w.Value, w.HasVal = string(j.Item), true
	}
	if j.Result != nil {
		w.Value, w.HasVal = string(j.Result), true
	}
	for _, a := range j.Arguments {
		w.Args = append(w.Args, string(a))
	}
	return w
}

// vPeer is the remote side of a connection to a server.
type vPeer struct {
	*vConn
	done  chan error
	ended bool
	err   error
	seen  int
}

// vServe starts serving a connection.
func vServe(s Server, id string) *vPeer {
	p := &vPeer{vConn: newVConn(context.Background(), id), done: make(chan error, 1)}
	go func() { p.done <- s.Serve(p.vConn) }()
	return p
}

// vOpen serves a connection and does the handshake.
func vOpen(s Server, id string) *vPeer {
	vCalm(true)
	defer vCalm(false)
	p := vServe(s, id)
	p.send(vHandshakeJSON)
	vWait()
	w := p.written()
	vAssert(len(w) == 1 && string(w[0]) == "{}\x1e", "the handshake is not answered")
	p.seen = 1
	return p
}

// recv returns the messages written since the last call.
func (p *vPeer) recv() []vWire {
	all := p.written()
	var res []vWire
	for ; p.seen < len(all); p.seen++ {
		res = append(res, vParseWire(all[p.seen]))
	}
	return res
}

func (p *vPeer) msg(s string) { p.send(s + "\x1e") }

// closed says whether Serve has returned.
func (p *vPeer) closed() bool {
	if !p.ended {
		select {
		case p.err = <-p.done:
			p.ended = true
		default:
		}
	}
	return p.ended
}

// vNoPings is a pair of options under which no ping and no timeout disturb.
func vNoPings(p Party) error {
	p.setKeepAliveInterval(10000 * time.Hour)
	p.setTimeout(20000 * time.Hour)
	return nil
}

func vServer(options ...func(Party) error) Server {
	s, err := NewServer(context.Background(), append([]func(Party) error{Logger(vLog{}, false), vNoPings}, options...)...)
	vAssert(err == nil, "the server can not be created")
	return s
}

// vT is what the methods of the hubs of the harnesses report and wait for.
var vT struct {
	mx    sync.Mutex
	calls []string
	gate  chan struct{}
	src   map[string]chan int
	srcS  map[string]chan string
}

func vCall(format string, args ...interface{}) {
	vT.mx.Lock()
	vT.calls = append(vT.calls, fmt.Sprintf(format, args...))
	vT.mx.Unlock()
}

func vCalls() []string {
	vT.mx.Lock()
	defer vT.mx.Unlock()
	return append([]string(nil), vT.calls...)
}

func vCallsAre(want ...string) bool {
	c := vCalls()
	if len(c) != len(want) {
		return false
	}
	for i := range c {
		if c[i] != want[i] {
			return false
		}
	}
	return true
}

// vSrc returns the source of a stream.
func vSrc(name string) chan int {
	vT.mx.Lock()
	defer vT.mx.Unlock()
	if vT.src == nil {
		vT.src = map[string]chan int{}
	}
	c, ok := vT.src[name]
	if !ok {
		c = make(chan int, 10)
		vT.src[name] = c
	}
	return c
}

// vCallHub has methods of all kinds.
type vCallHub struct {
	Hub
}

func (h *vCallHub) Add(a, b int) int {
	vCall("Add %d %d", a, b)
	return a + b
}

func (h *vCallHub) Echo(s string) string {
	vCall("Echo %q", s)
	return s
}

func (h *vCallHub) Nothing(a int, s string) {
	vCall("Nothing %d %q", a, s)
}

func (h *vCallHub) None() int {
	vCall("None")
	return 1
}

func (h *vCallHub) Two(a int) (int, string) {
	vCall("Two %d", a)
	return a, "two"
}

func (h *vCallHub) Fail(a int) int {
	vCall("Fail %d", a)
	var m map[string]int
	switch a {
	case 0:
		panic("told so")
	case 1:
		m["x"] = 1 // a runtime error
	case 2:
		panic(fmt.Errorf("an error"))
	}
	return 7
}

func (h *vCallHub) FailVoid() {
	vCall("FailVoid")
	panic("told so")
}

func (h *vCallHub) Null() *int {
	vCall("Null")
	return nil
}

// Stream returns a channel which is fed by the harness.
func (h *vCallHub) Stream(name string) <-chan int {
	vCall("Stream %q", name)
	return vSrc(name)
}

// Quit ends the connection.
func (h *vCallHub) Quit() { h.Abort() }

// Words returns a channel which is fed by the harness.
func (h *vCallHub) Words(name string) <-chan string { return vSrcS(name) }

// UpN receives a stream and reports its items under a name.
func (h *vCallHub) UpN(name string, in <-chan int) int {
	if name != "s1" && name != "s2" {
		vCall("UpN %s", name)
	}
	s := 0
	for i := range in {
		vCall("%s %d", name, i)
		s += i
	}
	if name == "s1" || name == "s2" {
		vCall("%s end", name)
	}
	return s
}

// UpM receives two streams.
func (h *vCallHub) UpM(a <-chan int, name string, b chan int) {
	vCall("UpM %s", name)
	for range a {
	}
	for range b {
	}
}

// Items returns a channel with n items.
func (h *vCallHub) Items(n int) chan int {
	vCall("Items %d", n)
	c := make(chan int, n)
	for i := 0; i < n; i++ {
		c <- 100 + i
	}
	close(c)
	return c
}

// Give gets a channel it is meant to send to.
func (h *vCallHub) Give(c chan<- int) {
	vCall("Give")
}

// Up receives a stream.
func (h *vCallHub) Up(in <-chan int) int {
	vCall("Up")
	s := 0
	for i := range in {
		vCall("item %d", i)
		s += i
	}
	vCall("up end")
	return s
}

// Up2 receives two streams.
func (h *vCallHub) Up2(a <-chan int, x string, b <-chan string) string {
	vCall("Up2 %q", x)
	for a != nil || b != nil {
		select {
		case i, ok := <-a:
			if !ok {
				a = nil
				vCall("a end")
				continue
			}
			vCall("a %d", i)
		case s, ok := <-b:
			if !ok {
				b = nil
				vCall("b end")
				continue
			}
			vCall("b %q", s)
		}
	}
	return x
}

func vInvocation(typ int, id, target, args, ids string) string {
	s := fmt.Sprintf("{\"type\":%d,", typ)
	if id != "" {
		s += fmt.Sprintf("\"invocationId\":%q,", id)
	}
	if ids != "" {
		s += "\"streamIds\":" + ids + ","
	}
	return s + fmt.Sprintf("\"target\":%q,\"arguments\":%s}", target, args)
}

type vCallCase struct {
	target, args string
	result       string // of the method, "" for none, "!" for an error
	items        string // with stream invocation, "!" for an error
	call         string // what the method reports
}

var vCallCases = []vCallCase{
	{"Add", "[3,4]", "7", "7", "Add 3 4"},
	{"aDD", "[4,3]", "7", "7", "Add 4 3"},
	{"echo", "[\"x\"]", "\"x\"", "\"x\"", "Echo \"x\""},
	{"None", "[]", "1", "1", "None"},
	{"nothing", "[5,\"s\"]", "", "!", "Nothing 5 \"s\""},
	{"Two", "[2]", "[2,\"two\"]", "!", "Two 2"},
	{"Fail", "[0]", "!", "!", "Fail 0"},
	{"Fail", "[1]", "!", "!", "Fail 1"},
	{"Fail", "[2]", "!", "!", "Fail 2"},
	{"Fail", "[3]", "7", "7", "Fail 3"},
	{"FailVoid", "[]", "!", "!", "FailVoid"},
	{"Items", "[2]", "100", "100 101", "Items 2"},
	{"Items", "[0]", "!", "", "Items 0"},
	{"alias", "[1,1]", "2", "2", "Add 1 1"},
	{"Add", "[3]", "!", "!", ""},
	{"Add", "[]", "!", "!", ""},
	{"Add", "[1,2,3]", "!", "!", ""},
	{"Add", "[\"1\",2]", "!", "!", ""},
	{"None", "[1]", "!", "!", ""},
	{"Unknown", "[1,2]", "!", "!", ""},
	{"", "[]", "!", "!", ""},
	{"Ad", "[1,2]", "!", "!", ""},
	{"Up", "[1]", "!", "!", ""},
	{"Null", "[]", "null", "null", "Null"},
}

// ZAnswer sends invocations of all kinds to a server and watches what comes back.
func ZAnswer() {
	detailed := vParam("detailed") == 1
	s := vServer(SimpleHubFactory(&vCallHub{}), WithAlternateMethodName("Add", "alias"), EnableDetailedErrors(detailed))
	p := vOpen(s, "c")
	var want []string
	for n := 0; n < vParam("calls"); n++ {
		c := vCallCases[vPickN("case", n, len(vCallCases))]
		typ := 1 + 3*vChoose("stream", 2)
		id := []string{"7", ""}[vChoose("id", 2)]
		if typ == 4 && id == "" {
			vAssume(false)
		}
		p.msg(vInvocation(typ, id, c.target, c.args, ""))
		vWait()
		if c.call != "" && (typ == 1 || c.target != "nothing" && c.target != "Two" && c.target != "FailVoid") {
			want = append(want, c.call)
		}
		vAssert(vCallsAre(want...), "not exactly the named method is called with exactly the sent arguments")
		res := p.recv()
		if p.closed() {
			vFail("the connection is closed because of an invocation")
		}
		if id == "" {
			vAssert(len(res) == 0, "an invocation without id is answered")
			vReach("unanswered")
			continue
		}
		vAssert(len(res) > 0, "an invocation with id is not answered")
		if panics := c.target == "Fail" && c.args != "[3]" || c.target == "FailVoid" && typ == 1; panics {
			// known: after the completion with the error, empty completions are sent as for a method without result
			n := len(res)
			for n > 1 && res[n-1].Type == 3 && res[n-1].ID == id && !res[n-1].HasVal && !res[n-1].HasErr && n > len(res)-typ/4-1 {
				n--
			}
			if n < len(res) && vParam("strict") == 1 {
				vFail("the invocation of a method that panics is answered with an error and then completed again")
			}
			res = res[:n]
		}
		last := res[len(res)-1]
		vAssert(last.Type == 3 && last.HasID && last.ID == id, "the last answer is not the completion of the invocation")
		expect := c.result
		if typ == 4 {
			expect = c.items
		}
		if expect == "!" {
			vAssert(len(res) == 1, "a failed invocation is answered more than once")
			vAssert(last.HasErr && last.Error != "" && !last.HasVal, "a failed invocation is not answered with an error")
			vAssert(detailed || !strings.Contains(last.Error, "goroutine") && !strings.Contains(last.Error, ".go:"), "a stack trace is disclosed")
			vReach("failed")
			continue
		}
		vAssert(!last.HasErr || last.Error == "", "a successful invocation is answered with an error")
		if typ == 1 {
			vAssert(len(res) == 1, "an invocation is answered more than once")
			vAssert(last.Value == expect || expect == "null" && !last.HasVal, "the answer is not the result of the method")
			vReach("answered")
		} else {
			vAssert(!last.HasVal, "the completion of a stream has a result")
			var items []string
			for _, r := range res[:len(res)-1] {
				vAssert(r.Type == 2 && r.ID == id, "a stream invocation is answered with other messages than items and a completion")
				items = append(items, r.Value)
			}
			vAssert(strings.Join(items, " ") == expect, "not exactly the items of the stream are sent")
			vReach("streamed")
		}
	}
	vReach("answer-end")
	vDone()
}
