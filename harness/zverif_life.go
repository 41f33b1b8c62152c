package signalr

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/vmihailenco/msgpack/v5"
)

// vHS is a handshake request or response and what has to follow from it.
type vHS struct {
	text string
	ok   bool
	mp   bool
	err  string // the error which has to be answered, "?" for any or none
}

const vLetter = "\x00" // replaced by a symbolic lower case letter in a handshake

var vServerHS = []vHS{
	{text: `{"protocol":"json","version":1}`, ok: true},
	{text: `{"version":1,"protocol":"json"}`, ok: true},
	{text: `{"protocol":"messagepack","version":1}`, ok: true, mp: true},
	{text: `{"protocol":"JSON","version":1}`, err: "?"},
	{text: `{"protocol":"jso` + vLetter + `","version":1}`, err: "protocol jso" + vLetter + " not supported"},
	{text: `{"protocol":"a\"b\u0001","version":1}`, err: "protocol a\"b\u0001 not supported"},
	{text: `{"version":1}`, err: "protocol  not supported"},
	{text: `{}`, err: "protocol  not supported"},
	{text: `null`, err: "?"},
	{text: `{"protocol":"json"`, err: "?"},
	{text: `{"protocol":1,"version":1}`, err: "?"},
	{text: `[]`, err: "?"},
	{text: `{"protocol":"json","version":"1"}`, err: "?"},
	{text: `{"protocol":["json"],"version":1}`, err: "?"},
	{text: ``, err: "?"},
	{text: `{"type":1,"target":"None","arguments":[]}`, err: "?"},
}

// ZHandshake opens a connection to a server in any way.
func ZHandshake() {
	s := vServer(SimpleHubFactory(&vCallHub{}), MaximumReceiveMessageSize(100))
	p := vServe(s, "c")
	h := vServerHS[vPick("request", len(vServerHS))]
	if strings.Contains(h.text, vLetter) {
		l := vPlain("letter")
		vAssume(l != 'n')
		h.text = strings.ReplaceAll(h.text, vLetter, string([]byte{l}))
		h.err = strings.ReplaceAll(h.err, vLetter, string([]byte{l}))
	}
	data := h.text + "\x1e"
	complete := true
	follow := ""
	switch vPick("follow", 4) {
	case 1: // messages follow directly
		follow = vInvocation(1, "1", "None", "[]", "") + "\x1e" + vInvocation(1, "2", "Add", "[1,2]", "") + "\x1e"
		if h.mp {
			var b bytes.Buffer
			mp := &messagePackHubProtocol{dbg: vLog{}}
			vAssert(mp.WriteMessage(invocationMessage{Type: 1, InvocationID: "1", Target: "None", Arguments: []interface{}{}}, &b) == nil, "a message can not be encoded")
			vAssert(mp.WriteMessage(invocationMessage{Type: 1, InvocationID: "2", Target: "Add", Arguments: []interface{}{1, 2}}, &b) == nil, "a message can not be encoded")
			follow = b.String()
		}
	case 2: // the peer stops in the middle
		complete = false
		data = data[:len(data)-1-vChoose("missing", 2)*(len(data)/2)]
	case 3: // or sends too much
		data = `{"protocol":"json","version":1,"x":"` + strings.Repeat("y", 100) + `"}` + "\x1e"
		h = vHS{err: "?"}
	}
	all := data + follow
	if len(all) > 0 {
		for i, c := range append(vCutsNear(len(data), len(all), vParam("pieces")), len(all)) {
			_ = i
			if c <= 0 || len(all) == 0 {
				continue
			}
			n := len(data) + len(follow) - len(all)
			if c > n {
				p.send(all[:c-n])
				all = all[c-n:]
			}
		}
	}
	vWait()
	w := p.written()
	if !complete {
		vAssert(len(w) == 0 && !p.closed(), "an unfinished handshake is answered")
		if vChoose("loss", 2) == 1 {
			p.cancel()
			vWait()
		} else {
			time.Sleep(15100 * time.Millisecond)
			vWait()
		}
		vAssert(p.closed() && p.err != nil, "a connection without handshake is kept")
		vAssert(len(p.written()) == 0, "an unfinished handshake is answered")
		vReach("timeout")
	} else if h.ok {
		vAssert(!p.closed(), "a valid handshake is refused")
		vAssert(len(w) > 0 && string(w[0]) == "{}\x1e", "a valid handshake is not answered by an empty response")
		if follow == "" {
			vAssert(len(w) == 1, "something is sent nobody asked for")
			vReach("opened")
		} else {
			vAssert(len(w) == 3, "not all messages which follow the handshake are answered")
			seen := map[string]bool{}
			for _, b := range w[1:] {
				id := ""
				if h.mp {
					id = vMPID(b)
				} else {
					id = vParseWire(b).ID
				}
				vAssert(!seen[id] && (id == "1" || id == "2"), "not every message which follows the handshake is answered once")
				seen[id] = true
			}
			vReach("followed")
		}
	} else {
		vAssert(p.closed() && p.err != nil, "an invalid handshake opens a connection")
		vAssert(len(w) <= 1, "an invalid handshake is answered more than once")
		if h.err != "?" {
			vAssert(len(w) == 1, "an invalid handshake is not answered")
		}
		if len(w) == 1 {
			r := vParseWire(w[0])
			vAssert(r.HasErr && r.Error != "", "an invalid handshake is not answered with an error")
			if h.err != "?" {
				vAssert(r.Error == h.err, "the error of an invalid handshake is not the right one")
			}
		}
		vReach("refused")
	}
	vAssert(len(vCalls()) == 0 || h.ok && follow != "", "a method is called without handshake")
	vReach("handshake-end")
	vDone()
}

// vMPID returns the invocation id of the completion which is one MessagePack frame.
func vMPID(b []byte) string {
	vAssert(len(b) > 1 && int(b[0]) == len(b)-1, "a write is not one message")
	d := msgpack.NewDecoder(bytes.NewReader(b[1:]))
	n, err := d.DecodeArrayLen()
	vAssert(err == nil && n >= 4, "a completion is no array")
	t, err := d.DecodeInt()
	vAssert(err == nil && t == 3, "a message is no completion")
	_, err = d.DecodeMapLen()
	vAssert(err == nil, "a completion has no headers")
	id, err := d.DecodeString()
	vAssert(err == nil, "a completion has no id")
	return id
}

// vCutsNear chooses up to k-1 cuts near the beginning, the end and n.
func vCutsNear(n, total, k int) []int {
	var c []int
	last := 0
	at := []int{1, n / 2, n - 1, n, n + 1, (n + total) / 2, total - 1}
	for i := 0; i < k-1; i++ {
		j := vChoose("cut", len(at)+1)
		if j == len(at) {
			break
		}
		if at[j] <= last || at[j] >= total {
			vAssume(false)
		}
		last = at[j]
		c = append(c, last)
	}
	return c
}

// ZHandshakeClient lets a server answer the handshake of a client in any way.
func ZHandshakeClient() {
	format := []TransferFormatType{"Text", "Binary"}[vPick("format", 2)]
	c := vClient(TransferFormat(format), MaximumReceiveMessageSize(100))
	c.client.Start()
	vWait()
	w := c.written()
	vAssert(len(w) == 1 && string(w[0]) == `{"protocol":"`+map[TransferFormatType]string{"Text": "json", "Binary": "messagepack"}[format]+`","version":1}`+"\x1e", "the client does not send the handshake request")
	responses := []vHS{
		{text: `{}`, ok: true},
		{text: `{"error":""}`, ok: true},
		{text: `{"error":"no` + vLetter + `"}`, err: "no" + vLetter},
		{text: `{"error":5}`},
		{text: `x`},
		{text: ``},
		{text: `{"x":"` + strings.Repeat("y", 100) + `"}`},
	}
	h := responses[vPick("response", len(responses))]
	l := string([]byte{vPlain("letter")})
	data := strings.ReplaceAll(h.text, vLetter, l) + "\x1e"
	follow := ""
	if vChoose("follow", 2) == 1 {
		follow = `{"type":1,"target":"ona","arguments":[1]}` + "\x1e" + `{"type":1,"target":"ona","arguments":[2]}` + "\x1e"
		if format == "Binary" {
			var b bytes.Buffer
			mp := &messagePackHubProtocol{dbg: vLog{}}
			for i := 1; i <= 2; i++ {
				vAssert(mp.WriteMessage(invocationMessage{Type: 1, Target: "ona", Arguments: []interface{}{i}}, &b) == nil, "a message can not be encoded")
			}
			follow = b.String()
		}
	}
	all := data + follow
	pos := 0
	for _, cut := range append(vCutsNear(len(data), len(all), vParam("pieces")), len(all)) {
		c.send(all[pos:cut])
		pos = cut
	}
	vWait()
	if h.ok {
		vStateIs(c.client, ClientConnected, "a client is not connected after the handshake")
		if follow != "" {
			calls := vCalls()
			vAssert(len(calls) == 2 && (calls[0] == "OnA 1" && calls[1] == "OnA 2" || calls[0] == "OnA 2" && calls[1] == "OnA 1"), "messages which follow the handshake are lost")
			vReach("followed")
		} else {
			vReach("opened")
		}
	} else {
		vStateIs(c.client, ClientClosed, "a refused client is not closed")
		vAssert(c.client.Err() != nil, "a refused client has no error")
		if h.err != "" {
			vAssert(c.client.Err().Error() == strings.ReplaceAll(h.err, vLetter, l), "a refused client has not the error of the server")
		}
		vAssert(len(vCalls()) == 0, "a method is called without handshake")
		vReach("refused")
	}
	vReach("handshake-end")
	vDone()
}

// ZEnd ends a connection to a server in any way and looks at how it is announced.
func ZEnd() {
	ctx, cancelServer := context.WithCancel(context.Background())
	s, err := NewServer(ctx, SimpleHubFactory(&vCallHub{}), Logger(vLog{}, false), func(p Party) error {
		p.setTimeout(30 * time.Second)
		p.setKeepAliveInterval(1000 * time.Hour)
		return nil
	})
	vAssert(err == nil, "the server can not be created")
	p := vOpen(s, "c")
	told := string([]byte{vPlain("letter")})
	announced := true // a close message has to be sent
	want := ""        // the error
	cause := vPick("cause", 14)
	switch cause {
	case 0:
		p.msg(`{"type":9}`)
		want = "?"
	case 1:
		p.msg(`x`)
		want = "?"
	case 2:
		p.msg(`{"type":3,"invocationId":"u` + told + `"}`)
		want = "u" + told
	case 3:
		p.msg(`{"type":2,"invocationId":"u` + told + `","item":1}`)
		want = "u" + told
	case 4:
		time.Sleep(30500 * time.Millisecond)
		want = "timeout"
	case 5:
		cancelServer()
		want = "canceled"
	case 6:
		p.msg(vInvocation(1, "", "Quit", "[]", ""))
		want = "canceled"
	case 7:
		p.msg(`{"type":7}`)
		announced = false
	case 8:
		p.msg(`{"type":7,"error":""}`)
		announced = false
	case 9:
		p.msg(`{"type":7,"error":"` + told + `!"}`)
		want = told + "!"
	case 10:
		p.msg(`{"type":7,"error":"` + told + `!","allowReconnect":true}`)
		want = told + "!"
	case 11:
		p.msg(`{"type":7,"allowReconnect":true}`)
		announced = false
	case 12: // two reasons at once
		p.msg(`{"type":9}`)
		cancelServer()
		want = "?"
	case 13:
		close(p.in) // the transport fails but its context stays
		want = "?"
	}
	vWait()
	vCalm(true)
	vAssert(p.closed(), "serving does not end")
	var closes []vWire
	for _, w := range p.recv() {
		vAssert(w.Type == 7, "something else than a close message is sent")
		closes = append(closes, w)
	}
	if announced {
		vAssert(p.err != nil, "serving a connection which ends because of an error returns no error")
		vAssert(len(closes) == 1, "the end of a connection is not announced by one close message")
		vAssert(closes[0].Error == p.err.Error(), "the close message does not carry the error")
		vAssert(closes[0].Allow, "the close message does not carry the reconnect permission")
		if want != "?" {
			vAssert(strings.Contains(p.err.Error(), want), "the error is not the reason of the end")
		}
		vReach("announced")
	} else {
		vAssert(p.err == nil, "serving a connection which the peer has closed returns an error")
		vAssert(len(closes) == 0, "a close message without error is answered")
		vReach("closed")
	}
	n := len(p.written())
	time.Sleep(100 * time.Second)
	vWait()
	vAssert(len(p.written()) == n, "something is sent after the end")
	vReach("end-end")
	vDone()
}

// ZEndClient ends the connection of a client by an error and looks at how it is announced.
func ZEndClient() {
	c := vClient(TimeoutInterval(30 * time.Second)).connect()
	told := string([]byte{vPlain("letter")})
	want := "?"
	announced := true
	switch vPick("cause", 8) {
	case 0:
		c.msg(`{"type":9}`)
	case 1:
		c.msg(`x`)
	case 2:
		c.msg(`{"type":3,"invocationId":"u` + told + `"}`)
		want = "u" + told
	case 3:
		c.msg(`{"type":2,"invocationId":"u` + told + `","item":1}`)
		want = "u" + told
	case 4:
		time.Sleep(30500 * time.Millisecond)
		want = "timeout"
	case 5:
		go c.client.Stop()
		want = "canceled"
	case 6:
		c.msg(`{"type":7,"error":"` + told + `!"}`)
		want = told + "!"
	case 7:
		c.msg(`{"type":7}`)
		announced = false
	}
	vWait()
	vCalm(true)
	vStateIs(c.client, ClientClosed, "a client whose connection has ended is not closed")
	w := c.recv()
	vAssert(len(w) == 1 && w[0].Type == 7, "the end of a connection is not announced by one close message")
	vAssert(!w[0].Allow, "a client permits a server to reconnect")
	if announced {
		vAssert(c.client.Err() != nil && w[0].Error != "", "the close message does not carry the error")
		if want != "?" {
			vAssert(strings.Contains(w[0].Error, want) && strings.Contains(c.client.Err().Error(), want), "the error is not the reason of the end")
		}
		vReach("announced")
	} else {
		vAssert(c.client.Err() == nil && w[0].Error == "", "a connection which the peer has closed ends with an error")
		vReach("closed")
	}
	vReach("end-end")
	vDone()
}

// vTimes records when the connection is written to.
func (c *vConn) vTimes() []time.Time {
	c.mx.Lock()
	defer c.mx.Unlock()
	return append([]time.Time(nil), c.times...)
}

// ZIdle lets time pass while messages arrive and are sent.
func ZIdle() {
	keep := []time.Duration{time.Second, 2 * time.Second, 1700 * time.Millisecond}[vPick("keep", 3)]
	timeout := []time.Duration{2500 * time.Millisecond, 1300 * time.Millisecond, 10 * time.Second}[vPick("timeout", 3)]
	s, err := NewServer(context.Background(), SimpleHubFactory(&vCallHub{}), Logger(vLog{}, false), KeepAliveInterval(keep), TimeoutInterval(timeout))
	vAssert(err == nil, "the server can not be created")
	p := vOpen(s, "c")
	last := time.Now() // of a received message
	step := 700 * time.Millisecond
	busy := 0
	held := false
	dead := false
	for k := 0; k < vParam("steps") && !dead; k++ {
		got := false
		switch vPickN("action", k, 4+vParam("holds")) {
		case 0:
		case 1:
			p.msg(`{"type":6}`)
			got = true
		case 2: // which is answered
			p.msg(vInvocation(1, "1", "None", "[]", ""))
			got = true
		case 3:
			s.HubClients().All().Send("x")
		case 4: // the transport is busy for three steps, shorter than the timeout
			if timeout < 3*step || held {
				vAssume(false)
			}
			p.mx.Lock()
			p.hold = make(chan struct{})
			p.mx.Unlock()
			busy = 3
			held = true
		}
		if got {
			last = time.Now()
		}
		vWait()
		time.Sleep(step)
		vWait()
		if busy > 0 {
			busy--
			if busy == 0 {
				p.mx.Lock()
				close(p.hold)
				p.hold = nil
				p.mx.Unlock()
				vWait()
			}
		}
		dead = p.closed()
		if !dead && !held {
			vAssert(time.Since(last) <= timeout, "a silent peer is not disconnected by the timeout")
		}
		vAssert(!dead || time.Since(last) >= timeout, "a live peer is disconnected")
	}
	vCalm(true)
	if held {
		// the loop may have been late, so only a live peer is checked for
		vReach("held")
		vDone()
		return
	}
	if !dead {
		time.Sleep(time.Until(last.Add(timeout - time.Millisecond)))
		vWait()
		vAssert(!p.closed(), "a live peer is disconnected")
		time.Sleep(2 * time.Millisecond)
		vWait()
		vAssert(p.closed(), "a silent peer is not disconnected by the timeout")
	}
	vAssert(p.err != nil && strings.Contains(p.err.Error(), "timeout"), "a silent peer is not disconnected because of the timeout")
	times := p.vTimes()
	w := p.recv()
	for i := 1; i < len(times); i++ {
		gap := times[i].Sub(times[i-1])
		vAssert(gap <= 2*keep, "an idle party does not ping in time")
		if w[i-1].Type == 6 {
			vAssert(gap >= keep, "a ping is sent although the party is not idle")
			vReach("ping")
		}
	}
	vAssert(time.Since(times[len(times)-1]) <= 2*keep, "an idle party does not ping in time")
	vReach("idle-end")
	vDone()
}

// ZWrites lets several goroutines send at once and some write fail.
func ZWrites() {
	proto := vPick("proto", 2)
	s := vServer(SimpleHubFactory(&vCallHub{}))
	var p *vPeer
	if proto == 0 {
		p = vOpen(s, "c")
	} else {
		vCalm(true)
		p = vServe(s, "c")
		p.send("{\"protocol\":\"messagepack\",\"version\":1}\x1e")
		vWait()
		vCalm(false)
	}
	n := vParam("senders")
	fail := vChoose("fail", n+1)
	p.mx.Lock()
	if fail > 0 {
		p.failAt = 1 + fail
	}
	p.mx.Unlock()
	var frames []string // as they have to appear
	frame := func(m interface{}) {
		var b bytes.Buffer
		var hp hubProtocol = &jsonHubProtocol{dbg: vLog{}}
		if proto == 1 {
			hp = &messagePackHubProtocol{dbg: vLog{}}
		}
		vAssert(hp.WriteMessage(m, &b) == nil, "a message can not be encoded")
		frames = append(frames, b.String())
	}
	item := string([]byte{vPlain("item")})
	for i := 0; i < n; i++ {
		switch vPickN("sender", i, 4) {
		case 0:
			arg := fmt.Sprint(i) + item
			frame(invocationMessage{Type: 1, Target: "t", Arguments: []interface{}{arg}})
			go s.HubClients().All().Send("t", arg)
		case 1:
			arg := strings.Repeat(fmt.Sprint(i), 200+vParam("long")) // longer than any buffer
			frame(invocationMessage{Type: 1, Target: "t", Arguments: []interface{}{arg, i}})
			go s.HubClients().Client("c").Send("t", arg, i)
		case 2:
			frame(completionMessage{Type: 3, InvocationID: fmt.Sprint(i), Result: 1})
			if proto == 0 {
				p.msg(vInvocation(1, fmt.Sprint(i), "None", "[]", ""))
			} else {
				var b bytes.Buffer
				vAssert((&messagePackHubProtocol{dbg: vLog{}}).WriteMessage(invocationMessage{Type: 1, InvocationID: fmt.Sprint(i), Target: "None", Arguments: []interface{}{}}, &b) == nil, "a message can not be encoded")
				p.send(b.String())
			}
		case 3:
			frame(streamItemMessage{Type: 2, InvocationID: fmt.Sprint(i), Item: "x"})
			frame(completionMessage{Type: 3, InvocationID: fmt.Sprint(i)})
			src := vSrcS(fmt.Sprint(i))
			src <- "x"
			close(src)
			if proto == 0 {
				p.msg(vInvocation(4, fmt.Sprint(i), "words", fmt.Sprintf("[\"%d\"]", i), ""))
			} else {
				var b bytes.Buffer
				vAssert((&messagePackHubProtocol{dbg: vLog{}}).WriteMessage(invocationMessage{Type: 4, InvocationID: fmt.Sprint(i), Target: "words", Arguments: []interface{}{fmt.Sprint(i)}}, &b) == nil, "a message can not be encoded")
				p.send(b.String())
			}
		}
	}
	vWait()
	vCalm(true)
	w := p.written()[1:]
	left := append([]string(nil), frames...)
	for _, b := range w {
		found := false
		for k, f := range left {
			if len(f) == len(b) && f == string(b) {
				left = append(left[:k:k], left[k+1:]...)
				found = true
				break
			}
		}
		if !found && fail > 0 && p.closed() {
			break // the close message
		}
		vAssert(found, "a write is not exactly one message")
	}
	if fail == 0 {
		vAssert(len(left) == 0, "not all messages are written")
		vAssert(!p.closed(), "a connection without failure is closed")
		vReach("written")
	} else {
		vAssert(p.closed() && p.err != nil, "a failed write does not end the connection")
		vReach("failed")
	}
	vReach("writes-end")
	vDone()
}

// ZWriteFail lets writes of a client fail while calls are made.
func ZWriteFail() {
	c := vClient().connect()
	n := vParam("calls")
	fail := 1 + vChoose("fail", n)
	c.mx.Lock()
	c.failAt = 1 + fail
	c.mx.Unlock()
	res := make([]*vRes, n)
	ups := make([]chan int, n)
	for i := 0; i < n; i++ {
		switch vPickN("kind", i, 4) {
		case 0:
			res[i] = vCollect(c.client.Invoke("m", i))
		case 1:
			res[i] = vCollectErr(c.client.Send("m", i))
		case 2:
			res[i] = vCollect(c.client.PullStream("m", i))
		case 3:
			ups[i] = make(chan int, 1)
			res[i] = vCollect(c.client.PushStreams("m", i, ups[i]))
		}
		if vChoose("wait", 2) == 1 {
			vWait()
		}
	}
	vWait()
	vCalm(true)
	for i := 0; i < n; i++ {
		order, closed := res[i].get()
		vAssert(closed && order == "e", "a call whose message can not be written does not end with an error")
	}
	vStateIs(c.client, ClientClosed, "a failed write does not end the connection")
	vReach("fail-end")
	vDone()
}
