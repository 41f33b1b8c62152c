package signalr

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"strconv"
	"time"

	"github.com/vmihailenco/msgpack/v5"
)

var errVStop = errors.New("no more bytes")

// vReader hands out the data in the given pieces and fails with errVStop where a real transport would block.
type vReader struct {
	data  []byte
	cuts  []int // ends of the pieces, ascending; the last is len(data)
	pos   int
	piece int
	reads int
	check func(pos int) // called before every read of further bytes
}

func (r *vReader) Read(p []byte) (int, error) {
	r.reads++
	if r.check != nil {
		r.check(r.pos)
	}
	if len(p) == 0 {
		// a transport that has no data blocks (or returns at once) on an empty buffer; either way nothing is gained
		if r.pos >= len(r.data) {
			return 0, errVStop
		}
		return 0, nil
	}
	for r.piece < len(r.cuts) && r.cuts[r.piece] <= r.pos {
		r.piece++
	}
	if r.piece >= len(r.cuts) {
		return 0, errVStop
	}
	n := copy(p, r.data[r.pos:r.cuts[r.piece]])
	r.pos += n
	return n, nil
}

var _ io.Reader = (*vReader)(nil)

// vCuts chooses how n bytes are cut into at most k pieces, each not empty.
func vCuts(n, k int) []int {
	var c []int
	last := 0
	for i := 0; i < k-1 && last+1 < n; i++ {
		// n stands for no further cut
		last = vConcrete(vInt("cut", last+1, n))
		if last < n {
			c = append(c, last)
		}
	}
	return append(c, n)
}

func vProtocol(kind int, max uint) hubProtocol {
	var p hubProtocol
	if kind == 0 {
		p = &jsonHubProtocol{}
	} else {
		p = &messagePackHubProtocol{}
	}
	p.setDebugLogger(vLog{})
	p.setMaxReceiveMessageSize(max)
	return p
}

// vWarm parses one message of every kind, so that the caches of the encoding packages are filled on every path.
func vWarm(proto int) {
	p := vProtocol(proto, 0)
	for _, m := range []interface{}{
		invocationMessage{Type: 1, Target: "t", InvocationID: "1", Arguments: []interface{}{1, "a"}, StreamIds: []string{"2"}},
		streamItemMessage{Type: 2, InvocationID: "1", Item: "a"},
		completionMessage{Type: 3, InvocationID: "1", Result: 1},
		completionMessage{Type: 3, InvocationID: "1", Error: "e"},
		cancelInvocationMessage{Type: 5, InvocationID: "1"},
		hubMessage{Type: 6},
		closeMessage{Type: 7, Error: "e"},
	} {
		var b, rest bytes.Buffer
		err := p.WriteMessage(m, &b)
		vAssert(err == nil, "write")
		_, err = p.ParseMessages(&b, &rest)
		vAssert(err == nil, "parse")
	}
}

// vPlain is a byte a JSON string or identifier may contain unescaped.
func vPlain(name string) byte {
	b := vByte(name)
	vAssume(b >= 'a' && b <= 'z')
	return b
}

const (
	vKindBad   = -1 // not a valid message
	vKindLarge = -2 // larger than the maximum
)

type vMsgRec struct {
	raw  []byte // without framing
	kind int
	s    string
	v    string // raw argument, item or result
}

// vJSONRec makes a JSON record of a symbolic kind.
func vJSONRec(kinds int) vMsgRec { return vJSONRecOf(vChoose("rec", kinds)) }

func vJSONRecOf(kind int) vMsgRec {
	switch kind {
	case 0:
		return vMsgRec{raw: []byte("{\"type\":6}"), kind: 6}
	case 1:
		t := string([]byte{vPlain("t"), vPlain("t")})
		return vMsgRec{raw: []byte("{\"type\":1,\"target\":\"" + t + "\",\"arguments\":[17]}"), kind: 1, s: t, v: "17"}
	case 2:
		t := string([]byte{vPlain("i")})
		return vMsgRec{raw: []byte("{\"type\":3,\"invocationId\":\"" + t + "\"}"), kind: 3, s: t}
	case 3:
		return vMsgRec{raw: []byte("{}"), kind: 0}
	case 4:
		t := string([]byte{vPlain("c")})
		return vMsgRec{raw: []byte("{\"type\":5,\"invocationId\":\"" + t + "\"}"), kind: 5, s: t}
	case 5:
		v := "\"" + string([]byte{vPlain("v")}) + "\""
		return vMsgRec{raw: []byte("{\"type\":2,\"invocationId\":\"1\",\"item\":" + v + "}"), kind: 2, s: "1", v: v}
	case 6:
		return vMsgRec{raw: []byte("{\"error\":\"e\",\"type\":7}"), kind: 7, s: "e"}
	default:
		return vMsgRec{raw: []byte("{\"type\":1"), kind: vKindBad}
	}
}

func vRaw(v interface{}) string {
	switch x := v.(type) {
	case json.RawMessage:
		return string(x)
	case msgpack.RawMessage:
		return string(x)
	}
	return ""
}

func vCheckMsg(m interface{}, want vMsgRec, what string) {
	switch want.kind {
	case 0, 6:
		h, ok := m.(hubMessage)
		vAssert(ok && h.Type == want.kind, what+": hub message expected")
	case 1:
		h, ok := m.(invocationMessage)
		vAssert(ok && h.Type == 1 && h.Target == want.s && h.InvocationID == "" && len(h.StreamIds) == 0 && len(h.Arguments) == 1 &&
			vRaw(h.Arguments[0]) == want.v, what+": invocation expected")
	case 2:
		h, ok := m.(streamItemMessage)
		vAssert(ok && h.Type == 2 && h.InvocationID == want.s && vRaw(h.Item) == want.v, what+": stream item expected")
	case 3:
		h, ok := m.(completionMessage)
		vAssert(ok && h.Type == 3 && h.InvocationID == want.s && h.Error == "" && h.Result == nil, what+": completion expected")
	case 5:
		h, ok := m.(cancelInvocationMessage)
		vAssert(ok && h.Type == 5 && h.InvocationID == want.s, what+": cancel expected")
	case 7:
		h, ok := m.(closeMessage)
		vAssert(ok && h.Type == 7 && h.Error == want.s && !h.AllowReconnect, what+": close expected")
	default:
		vFail(what + ": an invalid message is delivered")
	}
}

// vFrame puts a message in its frame.
func vFrame(proto int, b []byte) []byte {
	if proto == 0 {
		return append(append([]byte(nil), b...), 0x1e)
	}
	var f []byte
	n := len(b)
	for n >= 0x80 {
		f = append(f, byte(n)|0x80)
		n >>= 7
	}
	return append(append(f, byte(n)), b...)
}

// vFraming checks what a protocol delivers for a stream of records.
type vFraming struct {
	want []vMsgRec
	ends []int
	data []byte
	got  int
}

func (f *vFraming) add(proto int, r vMsgRec) {
	f.want = append(f.want, r)
	f.data = append(f.data, vFrame(proto, r.raw)...)
	f.ends = append(f.ends, len(f.data))
}

// run parses until the reader runs dry or an invalid record is refused. Before any read of further bytes, all records whose
// last byte was handed out must have been delivered.
func (f *vFraming) run(p hubProtocol, cuts []int) {
	rd := &vReader{data: f.data, cuts: cuts}
	pending := 0 // messages returned but not yet counted
	rd.check = func(pos int) {
		if f.got+pending < len(f.want) && f.ends[f.got+pending] <= pos {
			vFail("further bytes are awaited although a record is complete")
		}
	}
	var rest bytes.Buffer
	for calls := 0; ; calls++ {
		if calls > len(f.data)+10 {
			vFail("parser makes no progress")
		}
		reads := rd.reads
		msgs, err := p.ParseMessages(rd, &rest)
		for _, m := range msgs {
			vAssert(f.got < len(f.want), "a record that was not sent is delivered")
			vCheckMsg(m, f.want[f.got], "record")
			f.got++
		}
		if err != nil {
			if errors.Is(err, errVStop) {
				break
			}
			vAssert(f.got < len(f.want) && f.want[f.got].kind < 0, "valid records are refused")
			vReach("refused")
			return
		}
		vAssert(len(msgs) > 0 || rd.reads > reads, "parser returns nothing without reading")
	}
	vAssert(f.got == len(f.want), "a completely received record is not delivered")
}

// ZC01 feeds records through the JSON protocol, cut into arbitrary pieces, and compares what is delivered with what was sent.
func ZC01() {
	vWarm(0)
	f := &vFraming{}
	for i := 0; i < vParam("records"); i++ {
		if i == 0 {
			f.add(0, vJSONRecOf(vPick("first", vParam("kinds"))))
			continue
		}
		f.add(0, vJSONRec(vParam("kinds")))
	}
	if vParam("tail") == 1 {
		// an unfinished record at the end
		f.data = append(f.data, []byte("{\"type\":6")...)
	}
	f.run(vProtocol(0, 0), vCuts(len(f.data), vParam("pieces")))
	vReach("c01-end")
}

// ZC01Any compares, for a stream of symbolic bytes, what is delivered when it arrives cut into pieces with what its records
// mean on their own.
func ZC01Any() {
	n := vParam("n")
	data := vBytes("b", n)
	for _, b := range data {
		vAssume(b == 0x1e || b == '{' || b == '}' || b == '1' || b == ' ')
	}
	f := &vFraming{data: data}
	last := 0
	for i := 0; i < n; i++ {
		if data[i] == 0x1e {
			r := vMsgRec{kind: vKindBad}
			if json.Valid(data[last:i]) && !vIsOne(data[last:i]) {
				r.kind = 0
			}
			f.want = append(f.want, r)
			f.ends = append(f.ends, i+1)
			last = i + 1
		}
	}
	f.run(vProtocol(0, 0), vCuts(n, vParam("pieces")))
	vReach("c01-any-end")
}

// vIsOne says whether b is a number, which is valid JSON but no message.
func vIsOne(b []byte) bool {
	for _, c := range b {
		if c == '{' {
			return false
		}
	}
	return true
}

// ZC01Recv sends records through a transport and the connection's Receive.
func ZC01Recv() {
	proto := vParam("proto")
	f := &vFraming{}
	for i := 0; i < vParam("records"); i++ {
		if proto == 0 {
			f.add(0, vJSONRec(vParam("kinds")))
		} else {
			f.add(1, vMPRec(vParam("kinds")))
		}
	}
	c := newVConn(context.Background(), "c")
	hc := newHubConnection(c, vProtocol(proto, 1<<15), 1<<15, vLog{})
	ch := hc.Receive()
	last := 0
	for _, e := range vCuts(len(f.data), vParam("pieces")) {
		c.in <- f.data[last:e]
		last = e
	}
	for i, w := range f.want {
		select {
		case r := <-ch:
			vAssert((r.err != nil) == (w.kind < 0), "an error and only an error is expected for an invalid record")
			if r.err != nil {
				vReach("refused")
				vDone()
			}
			vCheckMsg(r.message, w, "record "+strconv.Itoa(i))
		case <-time.After(time.Hour):
			vFail("a completely received record is not delivered")
		}
	}
	vWait()
	select {
	case <-ch:
		vFail("something that was not sent is delivered")
	default:
	}
	vReach("recv-end")
	vDone()
}

// vMPRec makes a MessagePack message of a symbolic kind.
func vMPRec(kinds int) vMsgRec {
	lo := func(name string) byte {
		c := vByte(name)
		vAssume(c < 0x80)
		return c
	}
	switch vChoose("rec", kinds) {
	case 0: // ping
		return vMsgRec{raw: []byte{0x91, 6}, kind: 6}
	case 1: // cancel
		c := lo("c")
		return vMsgRec{raw: []byte{0x93, 5, 0x80, 0xa1, c}, kind: 5, s: string([]byte{c})}
	case 2: // invocation without id, one argument
		c := lo("t")
		return vMsgRec{raw: []byte{0x95, 1, 0x80, 0xc0, 0xa1, c, 0x91, 1}, kind: 1, s: string([]byte{c}), v: "\x01"}
	case 3: // completion without result
		c := lo("i")
		return vMsgRec{raw: []byte{0x94, 3, 0x80, 0xa1, c, 2}, kind: 3, s: string([]byte{c})}
	case 4: // stream item
		c := lo("v")
		return vMsgRec{raw: []byte{0x94, 2, 0x80, 0xa1, '1', c}, kind: 2, s: "1", v: string([]byte{c})}
	case 5: // close
		return vMsgRec{raw: []byte{0x93, 7, 0x80, 0xa1, 'e', 0xc2}, kind: 7, s: "e"}
	default:
		return vMsgRec{raw: []byte{0x91, 1}, kind: vKindBad}
	}
}

// ZC02 is ZC01 for MessagePack.
func ZC02() {
	f := &vFraming{}
	for i := 0; i < vParam("records"); i++ {
		f.add(1, vMPRec(vParam("kinds")))
	}
	switch vParam("tail") {
	case 1:
		f.data = append(f.data, 5, 0x93)
	case 2:
		f.data = append(f.data, 0x85)
	}
	f.run(vProtocol(1, 0), vCuts(len(f.data), vParam("pieces")))
	vReach("c02-end")
}

// ZC02Long has messages whose length takes one, two or three bytes.
func ZC02Long() {
	f := &vFraming{}
	for i := 0; i < vParam("records"); i++ {
		n := []int{1, 121, 122, 123, 250, 16378, 16379}[vChoose("len", vParam("lens"))]
		item := make([]byte, n+3)
		item[0], item[1], item[2] = 0xc5, byte(n>>8), byte(n)
		c := vByte("c")
		for j := range item[3:] {
			item[3+j] = c
		}
		f.add(1, vMsgRec{raw: append([]byte{0x94, 2, 0x80, 0xa1, '1'}, item...), kind: 2, s: "1", v: string(item)})
		if i == 0 {
			f.add(1, vMPRec(2))
		}
	}
	// cut near the beginning or the end of a frame
	var cuts []int
	for i := 0; i < len(f.ends); i++ {
		if d := vConcrete(vInt("d", 0, 4)); d > 0 {
			e := f.ends[i] + d - 3
			if e < len(f.data) && (len(cuts) == 0 || e > cuts[len(cuts)-1]) {
				cuts = append(cuts, e)
			}
		}
	}
	f.run(vProtocol(1, 0), append(cuts, len(f.data)))
	vReach("c02-long-end")
}

// ZC03 sends messages of sizes around the maximum, alone and together.
func ZC03() {
	proto, max := vParam("proto"), vParam("max")
	f := &vFraming{}
	large := false
	for i := 0; i < vParam("records"); i++ {
		// the size that counts: for JSON the record with its delimiter, for MessagePack the message
		n := []int{0, max - 1, max, max + 1, 2 * max}[vChoose("size", 5)]
		var r vMsgRec
		if proto == 0 {
			r = vMsgRec{raw: []byte("{\"type\":6}"), kind: 6}
			for len(r.raw)+1 < n {
				r.raw = append(r.raw, ' ')
			}
		} else {
			c := vByte("c")
			item := []byte{0xc4, 1, c}
			if n >= 8 {
				item = []byte{0xc4, byte(n - 7)}
				for len(item) < n-5 {
					item = append(item, c)
				}
			}
			r = vMsgRec{raw: append([]byte{0x94, 2, 0x80, 0xa1, '1'}, item...), kind: 2, s: "1", v: string(item)}
		}
		if n > max {
			r.kind = vKindLarge
			large = true
		}
		f.add(proto, r)
		if large {
			// what follows does not matter, but must not hide the error
			break
		}
	}
	f.run(vProtocol(proto, uint(max)), vCuts(len(f.data), vParam("pieces")))
	vReach("c03-end")
}

// vEndless hands out c bytes per read, without end.
type vEndless struct {
	first    []byte
	fill     byte
	chunk    int
	consumed int
	limit    int
}

func (r *vEndless) Read(p []byte) (int, error) {
	n := r.chunk
	if n > len(p) {
		n = len(p)
	}
	if r.consumed > r.limit {
		vFail("an endless message is buffered without limit")
	}
	for i := 0; i < n; i++ {
		if r.consumed < len(r.first) {
			p[i] = r.first[r.consumed]
		} else {
			p[i] = r.fill
		}
		r.consumed++
	}
	return n, nil
}

// ZC03Endless sends a message that does not end.
func ZC03Endless() {
	proto, max := vParam("proto"), vParam("max")
	r := &vEndless{chunk: vConcrete(vInt("chunk", 1, vParam("chunk"))), limit: 4 * max, fill: vPlain("fill")}
	if proto == 1 {
		r.first = []byte{0xff, 0xff, 0x7f, 0x94}
		if vBool("overlong") {
			r.first = []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x94}
		}
	}
	p := vProtocol(proto, uint(max))
	var rest bytes.Buffer
	for i := 0; i < 4*max; i++ {
		msgs, err := p.ParseMessages(r, &rest)
		vAssert(len(msgs) == 0, "an unfinished message is delivered")
		if err != nil {
			vReach("endless-refused")
			return
		}
	}
	vFail("an endless message is never refused")
}
