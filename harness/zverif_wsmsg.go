package signalr

import (
	"context"

	"net/http"
	"strings"
	"time"
)

// vWSMessage is a WebSocket message in frames which end at the cuts.
func vWSMessage(op byte, data []byte, mask bool, cuts ...int) (out []byte) {
	start := 0
	for i := 0; i <= len(cuts); i++ {
		end, fin := len(data), byte(0x80)
		if i < len(cuts) {
			end, fin = cuts[i], 0
		}
		part := data[start:end]
		m := byte(0)
		if mask {
			m = 0x80
		}
		out = append(out, fin|op)
		if len(part) < 126 {
			out = append(out, m|byte(len(part)))
		} else if len(part) >= 1<<16 {
			out = append(out, m|127, 0, 0, 0, 0, byte(len(part)>>24), byte(len(part)>>16), byte(len(part)>>8), byte(len(part)))
		} else {
			out = append(out, m|126, byte(len(part)>>8), byte(len(part)))
		}
		if mask {
			out = append(out, 1, 2, 3, 4)
		}
		for k, c := range part {
			if mask {
				c ^= byte(k%4 + 1)
			}
			out = append(out, c)
		}
		start, op = end, 0
	}
	return out
}

// vText is an invocation of the method Text with an argument which makes the message size bytes long.
func vText(proto, size int, letter byte) (frame []byte, arg string) {
	build := func(a string) []byte {
		if proto == 0 {
			return []byte(vInvocation(1, "", "Text", `["`+a+`"]`, ""))
		}
		b := append([]byte{0x95, 1, 0x80, 0xa0, 0xa4}, "Text"...)
		switch n := len(a); {
		case size < 270:
			b = append(b, 0x91, 0xd9, byte(n))
		case size < 66000:
			b = append(b, 0x91, 0xda, byte(n>>8), byte(n))
		default:
			b = append(b, 0x91, 0xdb, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		}
		return append(b, a...)
	}
	n := size - len(build(""))
	if proto == 0 {
		n-- // the delimiter
	}
	arg = string([]byte{letter}) + strings.Repeat("p", n-1)
	return vFrame(proto, build(arg)), arg
}

// vTextHub tells which texts it gets.
type vTextHub struct{ Hub }

func (h *vTextHub) Text(s string) { vCall("text %s", s) }

// vBigHub tells who is connected, too.
type vBigHub struct{ vTextHub }

func (h *vBigHub) OnConnected(id string) { vCall("connected %s", id) }

// vTexts are the calls of Text.
func vTexts() (l []string) {
	for _, c := range vCalls() {
		if strings.HasPrefix(c, "text ") {
			l = append(l, c)
		}
	}
	return l
}

type vTextReceiver struct{ Receiver }

func (h *vTextReceiver) Text(s string) { vCall("text %s", s) }

// ZWSMessages receives hub messages in WebSocket messages which contain one or several of them.
func ZWSMessages() {
	const max = 100
	proto := vPick("proto", 2)
	side := vPick("side", 2)
	n := vParam("msgs")
	l := vPlain("letter")
	hello := vHandshakeJSON
	if side == 1 {
		hello = "{}\x1e"
	} else if proto == 1 {
		hello = `{"protocol":"messagepack","version":1}` + "\x1e"
	}
	var parts [][]byte
	current := []byte(hello)
	var want []string
	over := false
	for k := 1; k <= n; k++ {
		if vPickN("alone", k, 2) == 1 {
			parts = append(parts, current)
			current = nil
		}
		size := []int{70, max, max + 1}[vPickN("size", k, 3)]
		f, arg := vText(proto, size, l)
		current = append(current, f...)
		over = over || size > max
		if !over {
			want = append(want, "text "+arg)
		}
	}
	parts = append(parts, current)
	op := byte(1 + proto)
	cut := vPick("cut", 4)
	send := func(i int) []byte {
		p := parts[i]
		switch {
		case cut == 1:
			return vWSMessage(op, p, side == 0, len(p)/2)
		case cut == 2:
			return vWSMessage(op, p, side == 0, 0, 1, len(p))
		case cut == 3 && len(p) > 100:
			return vWSMessage(op, p, side == 0, 100)
		}
		return vWSMessage(op, p, side == 0)
	}
	var add func(b []byte)
	var ended func() bool
	if side == 0 {
		h := vWebServer(SimpleHubFactory(&vTextHub{}), MaximumReceiveMessageSize(max))
		w := h.webSocket(h.ctx, "")
		vWait()
		vAssert(w.status == 101, "a WebSocket is refused")
		add = func(b []byte) { w.conn.change(func() { w.conn.data = append(w.conn.data, b...) }) }
		ended = func() bool { _, done := w.ended(); return done }
	} else {
		d := &vDoer{negStatus: 200, wsStatus: 101}
		d.negotiate, _ = vNegAnswer(1, 1)
		conn, err := NewHTTPConnection(context.Background(), "http://h/x", WithHTTPClient(&http.Client{Transport: d}))
		vAssert(err == nil, "a client can not connect")
		c, err := NewClient(context.Background(), WithConnection(conn), Logger(vLog{}, false), WithReceiver(&vTextReceiver{}), MaximumReceiveMessageSize(max),
			TimeoutInterval(10*time.Minute), KeepAliveInterval(9*time.Minute), TransferFormat([]TransferFormatType{TransferFormatText, TransferFormatBinary}[proto]))
		vAssert(err == nil, "a client can not be created")
		c.Start()
		vWait()
		d.end.mx.Lock()
		vAssert(len(d.end.data) > 30, "a client sends no handshake")
		d.end.mx.Unlock()
		add = func(b []byte) { _, _ = d.end.Write(b) }
		ended = func() bool { return c.State() == ClientClosed && c.Err() != nil }
	}
	var all []byte
	together := vPick("together", 2) == 1
	for i := range parts {
		all = append(all, send(i)...)
		if !together || i == len(parts)-1 {
			add(all)
			all = nil
			vWait()
		}
	}
	time.Sleep(12 * time.Second) // closing a WebSocket takes some time if the peer does not answer
	vWait()
	got := vCalls()
	vAssert(len(got) <= len(want), "a message is delivered which is too large or was not sent")
	for i, g := range got {
		vAssert(g == want[i], "messages over a WebSocket are delivered changed or in the wrong order")
	}
	vAssert(len(got) == len(want), "a message over a WebSocket is lost")
	if over {
		vAssert(ended(), "a message which is too large does not end the connection")
		vReach("too-large")
	} else {
		vAssert(!ended(), "valid messages over a WebSocket end the connection")
		vReach("alive")
	}
	vReach("wsmsg-end")
	vDone()
}

// ZBig receives a message near the maximum receive message size, which is small or large, over any transport.
func ZBig() {
	max := []int{100, 40000, 70000}[vPick("max", 3)]
	size := []int{max - 1, max, max + 1}[vPick("size", 3)]
	side := vPick("side", 2)
	web := vPick("web", 2) == 1
	proto := 0
	if web {
		proto = vPick("proto", 2)
	}
	l := vPlain("letter")
	f, arg := vText(proto, size, l)
	vAssert(proto == 1 || len(f) == size, "harness")
	var add func(b []byte)
	var ended func() bool
	var hello string
	status := 0
	if side == 0 {
		h := vWebServer(SimpleHubFactory(&vBigHub{}), MaximumReceiveMessageSize(uint(max)))
		hello = vHandshakeJSON
		if proto == 1 {
			hello = `{"protocol":"messagepack","version":1}` + "\x1e"
		}
		if web {
			w := h.webSocket(h.ctx, "")
			vWait()
			vAssert(w.status == 101, "a WebSocket is refused")
			add = func(b []byte) {
				w.conn.change(func() { w.conn.data = append(w.conn.data, vWSMessage(byte(1+proto), b, true)...) })
			}
			ended = func() bool { _, done := w.ended(); return done }
		} else {
			link := h.start(h.ctx)
			hello = ""
			add = func(b []byte) {
				w := h.post(link.key, string(b))
				time.Sleep(100 * time.Millisecond)
				vWait()
				w.mx.Lock()
				status = w.status
				w.mx.Unlock()
			}
			ended = func() bool { _, done := link.get.ended(); return done }
		}
	} else {
		d := &vDoer{negStatus: 200, getStatus: 200, postState: 200, wsStatus: 101, stream: newVStreamBody()}
		d.negotiate, _ = vNegAnswer(1, map[bool]int{true: 1, false: 2}[web])
		hello = "{}\x1e"
		conn, err := NewHTTPConnection(context.Background(), "http://h/x", WithHTTPClient(&http.Client{Transport: d}))
		vAssert(err == nil, "a client can not connect")
		c, err := NewClient(context.Background(), WithConnection(conn), Logger(vLog{}, false), WithReceiver(&vTextReceiver{}), MaximumReceiveMessageSize(uint(max)),
			TimeoutInterval(10*time.Minute), KeepAliveInterval(9*time.Minute), TransferFormat([]TransferFormatType{TransferFormatText, TransferFormatBinary}[proto]))
		vAssert(err == nil, "a client can not be created")
		c.Start()
		vWait()
		if web {
			add = func(b []byte) { _, _ = d.end.Write(vWSMessage(byte(1+proto), b, false)) }
		} else {
			add = func(b []byte) { d.stream.add([]byte("data: " + string(b) + "\n\n")) }
		}
		ended = func() bool { return c.State() == ClientClosed && c.Err() != nil }
	}
	if hello != "" {
		add([]byte(hello))
		vWait()
	}
	add(f)
	time.Sleep(12 * time.Second) // closing a WebSocket takes some time if the peer does not answer
	vWait()
	got := vTexts()
	if size > max {
		vAssert(len(got) == 0, "a message which is too large is delivered")
		vAssert(ended() || status == 400, "a message which is too large is not refused")
		vReach("too-large")
	} else {
		vAssert(len(got) == 1, "a message within the limit is not delivered")
		vAssert(got[0] == "text "+arg, "a message is delivered changed")
		vAssert(!ended() && (status == 0 || status == 200), "a message within the limit is refused")
		vReach("delivered")
	}
	vReach("big-end")
	vDone()
}
