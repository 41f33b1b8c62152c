package signalr

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"
)

// vBadHub is a hub per connection. That of the connection bad has callbacks and methods which do not return.
type vBadHub struct {
	vCallHub
	trouble int
}

var vNever = func() chan struct{} { return make(chan struct{}) }

func (h *vBadHub) OnConnected(string) {
	if h.trouble == 7 {
		<-vNever()
	}
}

func (h *vBadHub) OnDisconnected(string) {
	if h.trouble == 8 {
		<-vNever()
	}
}

// Block never returns.
func (h *vBadHub) Block() { <-vNever() }

// Ignore does not receive what is streamed to it and never returns.
func (h *vBadHub) Ignore(in <-chan int) { <-vNever() }

// Join adds the connection to a group.
func (h *vBadHub) Join() { h.Groups().AddToGroup("g", h.ConnectionID()) }

// ZIsolate sends messages to and gets messages from a connection while another one is in trouble.
func ZIsolate() {
	vCalm(true)
	trouble := vPick("trouble", 14)
	s := vServer(PerConnectionHubFactory(func(id string) HubInterface {
		if id == "bad" {
			if trouble == 12 { // the factory of hubs never returns
				<-vNever()
			}
			return &vBadHub{trouble: trouble}
		}
		return &vBadHub{}
	}), StreamBufferCapacity(1), ChanReceiveTimeout(time.Second), HandshakeTimeout(time.Second))
	var bad *vPeer
	if trouble == 13 { // the handshake does not end
		bad = vServe(s, "bad")
		bad.send(`{"protocol`)
		vWait()
	} else {
		bad = vOpen(s, "bad")
	}
	good := vOpen(s, "good")
	good.msg(vInvocation(1, "", "Join", "[]", ""))
	if trouble < 12 {
		bad.msg(vInvocation(1, "", "Join", "[]", ""))
	}
	vWait()
	start := time.Now()
	vCalm(false)
	// what the connection does which is in trouble itself
	self := true
	switch trouble {
	case 0: // the peer does not take messages
		bad.mx.Lock()
		bad.hold = make(chan struct{})
		bad.mx.Unlock()
		self = false
	case 1: // messages can not be sent
		bad.mx.Lock()
		bad.failAt = bad.writes + 1
		bad.mx.Unlock()
		self = false
	case 2: // a method never returns
		bad.msg(vInvocation(1, "1", "Block", "[]", ""))
	case 3: // a method does not take its items
		bad.msg(vInvocation(1, "1", "Ignore", "[]", `["1"]`))
		for i := 0; i < 4; i++ {
			bad.msg(`{"type":2,"invocationId":"1","item":1}`)
		}
		self = false
	case 4: // a message does not end
		bad.send(`{"type":1,"target":"`)
		self = false
	case 5: // many messages
		for i := 0; i < 5; i++ {
			bad.msg(vInvocation(1, fmt.Sprint(i), "Add", "[1,2]", ""))
		}
	case 6: // invalid messages
		bad.msg("nonsense")
		self = false
	case 7: // the callback for connecting never returns
	case 8: // the callback for disconnecting never returns
		bad.cancel()
		self = false
	case 9: // a stream whose source does not produce
		bad.msg(vInvocation(4, "1", "Stream", `["never"]`, ""))
	case 10: // the peer does not take the answer of an endless stream
		bad.mx.Lock()
		bad.hold = make(chan struct{})
		bad.mx.Unlock()
		bad.msg(vInvocation(4, "1", "Items", "[9]", ""))
		self = false
	case 11: // a method panics
		bad.msg(vInvocation(1, "1", "Fail", "[0]", ""))
	case 12, 13:
		self = false
	}
	if vPick("settle", 2) == 1 {
		vWait()
	}
	want := map[string]int{}
	var fresh *vPeer
	for k := 0; k < vParam("ops"); k++ {
		what := fmt.Sprint("op", k)
		switch vPickN("op", k, 6) {
		case 0:
			s.HubClients().All().Send(what)
			want[what]++
		case 1:
			s.HubClients().Group("g").Send(what)
			want[what]++
		case 2:
			s.HubClients().Client("bad").Send("x")
			s.HubClients().Client("good").Send(what)
			want[what]++
		case 3:
			good.msg(vInvocation(1, what, "Add", "[1,2]", ""))
			want[what]++
		case 4:
			good.msg(vInvocation(4, what, "Items", "[2]", ""))
			want[what] += 3
		case 5:
			vAssume(fresh == nil)
			fresh = vServe(s, "fresh")
			fresh.send(vHandshakeJSON + vInvocation(1, what, "Add", "[1,2]", "") + "\x1e")
		}
	}
	if self {
		bad.msg(vInvocation(1, "self", "Add", "[1,2]", ""))
	}
	vWait()
	vAssert(time.Since(start) == 0, "time has passed")
	vCalm(true)
	count := func(p *vPeer, what string) (n int) {
		for _, w := range p.written() {
			if strings.Contains(string(w), fmt.Sprintf("%q", what)) {
				n++
			}
		}
		return n
	}
	for what, n := range want {
		vAssert(count(good, what) == n, "a connection is held up by another one which is in trouble")
	}
	if fresh != nil {
		vAssert(len(fresh.written()) >= 2, "a new connection is held up by another one which is in trouble")
		vReach("fresh")
	}
	if self {
		vAssert(count(bad, "self") == 1, "a method which does not return holds up other invocations of its connection")
		vReach("self")
	}
	if trouble == 0 {
		vReach("held")
	}
	vReach("isolate-end")
	vDone()
}

// vNoBody is a body which does not come.
type vNoBody struct{}

func (vNoBody) Read([]byte) (int, error) { <-vNever(); return 0, io.EOF }

// ZIsolateWeb uses a server over HTTP while requests of a client are in trouble.
func ZIsolateWeb() {
	vCalm(true)
	h := vWebServer(MaximumReceiveMessageSize(200), HandshakeTimeout(2*time.Second))
	ctx := context.Background()
	open := func(ws bool) *vLink {
		n := h.negotiate(0)
		vWait()
		l := n.link(0, nil)
		l.ws = ws
		if ws {
			l.sock = h.webSocket(ctx, l.key)
		} else {
			l.get = h.sse(ctx, l.key)
		}
		vWait()
		l.works(h)
		return l
	}
	trouble := vPick("trouble", 11)
	var bad *vLink
	if trouble < 6 {
		bad = open(trouble == 2)
	} else {
		n := h.negotiate(0)
		vWait()
		bad = n.link(0, nil)
	}
	good := open(vPick("good", 2) == 1)
	holder := func() *vWriter { return &vWriter{header: http.Header{}, hold: vNever()} }
	vCalm(false)
	switch trouble {
	case 0: // a body does not come
		vHTTP(ctx, h.r.handler, "POST", vQuery(bad.key), nil, vNoBody{})
	case 1: // events are not taken
		bad.get.mx.Lock()
		bad.get.hold = vNever()
		bad.get.mx.Unlock()
	case 2: // messages are not taken
		bad.sock.conn.change(func() { bad.sock.conn.room = len(bad.sock.conn.out) })
	case 3: // events can not be written
		bad.get.mx.Lock()
		bad.get.fails = true
		bad.get.mx.Unlock()
	case 4: // two POSTs, one of them does not come
		vHTTP(ctx, h.r.handler, "POST", vQuery(bad.key), nil, vNoBody{})
		h.post(bad.key, vNote(1))
	case 5: // what is sent does not end, and too much is sent
		h.post(bad.key, `{"type":1,"target":"`)
		time.Sleep(60 * time.Millisecond)
		h.post(bad.key, string(make([]byte, 300)))
	case 6: // a POST comes before the connection is started
		h.post(bad.key, vHandshakeJSON)
	case 7: // the handshake does not come
		h.sse(ctx, bad.key)
	case 8: // the start of the events is not taken
		vHTTPTo(ctx, holder(), h.r.handler, "GET", vQuery(bad.key), http.Header{"Accept": {"text/event-stream"}}, nil)
	case 9: // the answer to the negotiation is not taken
		vHTTPTo(ctx, holder(), http.HandlerFunc(h.r.negotiate), "POST", "", nil, nil)
	case 10: // a body does not come, for nothing
		vHTTP(ctx, h.r.handler, "POST", vQuery("unknown"), nil, vNoBody{})
		vHTTP(ctx, http.HandlerFunc(h.r.negotiate), "POST", "", nil, vNoBody{})
	}
	if vPick("sent", 2) == 1 {
		h.s.HubClients().All().Send("first")
	}
	if vPick("settle", 2) == 1 {
		vWait()
	}
	start := time.Now()
	events := func(l *vLink, what string) int {
		if l.ws {
			return strings.Count(strings.Join(l.sock.frames(), "\n"), what)
		}
		l.get.mx.Lock()
		defer l.get.mx.Unlock()
		return bytes.Count(l.get.body, []byte(what))
	}
	for k := 0; k < vParam("ops"); k++ {
		what := fmt.Sprint("op", k)
		switch vPickN("op", k, 5) {
		case 0:
			n := h.negotiate(1)
			vWait()
			st, done := n.ended()
			vAssert(done && st == 200, "a negotiation is held up by requests of somebody else")
		case 1:
			open(false)
		case 2:
			open(true)
		case 3:
			h.s.HubClients().All().Send(what)
			vWait()
			vAssert(events(good, what) == 1, "a message is held up by a connection of somebody else")
		case 4:
			m := vInvocation(1, what, "Text", `["x"]`, "") + "\x1e"
			if good.ws {
				good.sock.sendFrame(m)
			} else {
				p := h.post(good.key, m)
				time.Sleep(100 * time.Millisecond)
				vWait()
				st, done := p.ended()
				vAssert(done && st == 200, "a POST is held up by requests of somebody else")
			}
			vWait()
			vAssert(events(good, what) == 1, "an invocation is held up by a connection of somebody else")
		}
	}
	vCalm(true)
	vAssert(time.Since(start) <= time.Duration(vParam("ops"))*100*time.Millisecond, "time has passed")
	vReach("web-end")
	vDone()
}
