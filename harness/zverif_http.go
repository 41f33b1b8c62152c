package signalr

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"time"
)

var errVOp = errors.New("the operation failed")

// vGuardCtx is a context which ends after at*200ms (0: is ended from the beginning, 5: never) in one of two ways.
func vGuardCtx(at int) (context.Context, error, context.CancelFunc) {
	if at == 0 {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		return ctx, context.Canceled, cancel
	}
	if at < 5 && vPick("deadline", 2) == 1 {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(at)*200*time.Millisecond)
		return ctx, context.DeadlineExceeded, cancel
	}
	ctx, cancel := context.WithCancel(context.Background())
	if at < 5 {
		go func() {
			time.Sleep(time.Duration(at) * 200 * time.Millisecond)
			cancel()
		}()
	}
	return ctx, context.Canceled, cancel
}

// ZGuard runs an operation guarded by a context.
func ZGuard() {
	cancelAt := vPick("cancel", 6) // 0: before, 1..4: after 200..800 ms, 5: never
	opAt := vPick("op", 5)         // 0: at once, 1..3: after 200..600 ms, 4: never
	vAssume(cancelAt != 5 || opAt != 4)
	fails := vPick("fails", 2) == 1
	wakes := vPick("wakes", 2) == 1 // unblocking ends the operation
	n := vInt("n", 0, 1000)
	ctx, want, cancel := vGuardCtx(cancelAt)
	defer cancel()
	var mx sync.Mutex
	started, unblocked, returned := 0, 0, 0
	finished := false
	var rn int
	var rerr error
	var at time.Time
	release := make(chan struct{})
	begin := time.Now()
	go func() {
		rn1, err1 := ReadWriteWithContext(ctx, func() (int, error) {
			mx.Lock()
			started++
			mx.Unlock()
			switch opAt {
			case 0:
			case 4:
				<-release
				return 0, errVClosed
			default:
				select {
				case <-time.After(time.Duration(opAt) * 200 * time.Millisecond):
				case <-release:
					return 0, errVClosed
				}
			}
			mx.Lock()
			finished = true
			mx.Unlock()
			if fails {
				return n, errVOp
			}
			return n, nil
		}, func() {
			mx.Lock()
			defer mx.Unlock()
			unblocked++
			if unblocked == 1 && wakes {
				close(release)
			}
		})
		mx.Lock()
		defer mx.Unlock()
		rn, rerr, at = rn1, err1, time.Now()
		returned++
	}()
	time.Sleep(time.Second)
	vWait()
	mx.Lock()
	defer mx.Unlock()
	vAssert(returned == 1, "a guarded operation does not return")
	end := opAt
	if cancelAt < opAt {
		end = cancelAt
	}
	vAssert(at.Sub(begin) == time.Duration(end)*200*time.Millisecond, "a guarded operation returns late")
	vAssert(started <= 1 && unblocked <= 1, "an operation is started or unblocked twice")
	own := rn == n && (fails && rerr == errVOp || !fails && rerr == nil)
	ended := rn == 0 && rerr != nil && errors.Is(rerr, want)
	switch {
	case cancelAt == 0:
		vAssert(started == 0, "an operation is started with a context which has ended")
		vAssert(ended, "the error of the ended context is not returned")
		vReach("before")
	case opAt < cancelAt:
		vAssert(own && finished, "the result of an operation is not returned")
		vAssert(unblocked == 0, "an operation which has finished is unblocked")
		vReach("finished")
	case cancelAt < opAt:
		vAssert(ended, "the error of the ended context is not returned")
		vAssert(unblocked == 1, "the operation is not unblocked")
		vReach("released")
	default:
		vAssert(own || ended, "neither the result nor the error of the context is returned")
		vReach("both")
	}
	vReach("guard-end")
	vDone()
}

// vNetConn is a network connection. Reads and writes block until the harness lets them go on, the deadline is set to a
// time which has passed or the connection is closed.
type vNetConn struct {
	mx      sync.Mutex
	cond    chan struct{} // closed at every change
	data    []byte
	readErr error
	room    int // bytes which can be written
	out     []byte
	readDl  bool
	writeDl bool
	closed  int
	calls   int
}

var errVDeadline = errors.New("i/o timeout")

func (c *vNetConn) change(f func()) {
	c.mx.Lock()
	f()
	close(c.cond)
	c.cond = make(chan struct{})
	c.mx.Unlock()
}

func (c *vNetConn) Read(p []byte) (int, error) {
	c.change(func() { c.calls++ })
	for {
		c.mx.Lock()
		w := c.cond
		switch {
		case len(c.data) > 0:
			n := copy(p, c.data)
			c.data = c.data[n:]
			c.mx.Unlock()
			return n, nil
		case c.readErr != nil:
			c.mx.Unlock()
			return 0, c.readErr
		case c.closed > 0:
			c.mx.Unlock()
			return 0, net.ErrClosed
		case c.readDl:
			c.mx.Unlock()
			return 0, errVDeadline
		}
		c.mx.Unlock()
		<-w
	}
}

func (c *vNetConn) Write(p []byte) (int, error) {
	c.change(func() { c.calls++ })
	for {
		c.mx.Lock()
		w := c.cond
		switch {
		case c.closed > 0:
			c.mx.Unlock()
			return 0, net.ErrClosed
		case c.room >= len(p):
			c.room -= len(p)
			c.out = append(c.out, p...)
			c.mx.Unlock()
			return len(p), nil
		case c.writeDl:
			c.mx.Unlock()
			return 0, errVDeadline
		}
		c.mx.Unlock()
		<-w
	}
}

func (c *vNetConn) Close() error         { c.change(func() { c.closed++ }); return nil }
func (c *vNetConn) LocalAddr() net.Addr  { return nil }
func (c *vNetConn) RemoteAddr() net.Addr { return nil }
func (c *vNetConn) SetDeadline(time.Time) error {
	c.change(func() { c.readDl, c.writeDl = true, true })
	return nil
}
func (c *vNetConn) SetReadDeadline(t time.Time) error {
	c.change(func() { c.readDl = true })
	return nil
}
func (c *vNetConn) SetWriteDeadline(t time.Time) error {
	c.change(func() { c.writeDl = true })
	return nil
}

// ZNetConn reads from and writes to a network connection until its context ends.
func ZNetConn() {
	cancelAt := vPick("cancel", 5) + 1
	ctx, want, cancel := vGuardCtx(cancelAt)
	defer cancel()
	nc := &vNetConn{cond: make(chan struct{})}
	conn := NewNetConnection(ctx, nc)
	vAssert(conn.ConnectionID() != "", "a connection without id")
	readAt := vPick("read", 4) // 0: data is there, 1, 2: comes later, 3: never
	writeAt := vPick("write", 4)
	readFails := vPick("fails", 2) == 1
	data := vBytes("data", 3)
	send := vBytes("send", 3)
	arrive := func(at int, f func()) {
		if at == 0 {
			nc.change(f)
		} else if at < 3 {
			go func() {
				time.Sleep(time.Duration(at) * 200 * time.Millisecond)
				nc.change(f)
			}()
		}
	}
	arrive(readAt, func() {
		if readFails {
			nc.readErr = errVOp
		} else {
			nc.data = append([]byte(nil), data...)
		}
	})
	arrive(writeAt, func() { nc.room = 3 })
	var mx sync.Mutex
	var rn, wn, rdone, wdone int
	var rerr, werr error
	var got []byte
	go func() {
		p := make([]byte, 8)
		n, err := conn.Read(p)
		mx.Lock()
		defer mx.Unlock()
		rn, rerr = n, err
		if n >= 0 && n <= 8 {
			got = p[:n]
		}
		rdone++
	}()
	go func() {
		n, err := conn.Write(send)
		mx.Lock()
		defer mx.Unlock()
		wn, werr = n, err
		wdone++
	}()
	time.Sleep(time.Second)
	vWait()
	if cancelAt == 5 {
		vAssert(nc.closed == 0, "a connection is closed")
		if readAt == 3 || writeAt == 3 {
			cancel()
			vWait()
		}
	}
	mx.Lock()
	defer mx.Unlock()
	vAssert(rdone == 1, "reading does not end with the context")
	vAssert(wdone == 1, "writing does not end with the context")
	rown := readFails && rn == 0 && rerr != nil && errors.Is(rerr, errVOp) || !readFails && rn == 3 && rerr == nil && string(got) == string(data)
	rend := rn == 0 && rerr != nil && errors.Is(rerr, want)
	wown := wn == 3 && werr == nil && string(nc.out) == string(send)
	wend := wn == 0 && werr != nil && errors.Is(werr, want)
	// an operation which is unblocked by closing the connection may tell so
	if rn == 0 && rerr != nil && (errors.Is(rerr, net.ErrClosed) || errors.Is(rerr, errVDeadline)) && (cancelAt <= readAt || readAt == 3) {
		rend = true
	}
	if wn == 0 && werr != nil && (errors.Is(werr, net.ErrClosed) || errors.Is(werr, errVDeadline)) && (cancelAt <= writeAt || writeAt == 3) {
		wend = true
	}
	vAssert(rown && readAt <= cancelAt && readAt < 3 || rend && (cancelAt <= readAt || readAt == 3), "a read returns neither its result nor the error of the context")
	vAssert(wown && writeAt <= cancelAt && writeAt < 3 || wend && (cancelAt <= writeAt || writeAt == 3), "a write returns neither its result nor the error of the context")
	if rown {
		vReach("read")
	}
	if wown {
		vReach("written")
	}
	if rend || wend {
		vReach("released")
	}
	if ctx.Err() != nil {
		vAssert(nc.closed > 0, "the connection is not closed when its context ends")
		calls := nc.calls
		n, err := conn.Read(make([]byte, 4))
		vAssert(n == 0 && errors.Is(err, want), "a read with an ended context does not fail")
		n, err = conn.Write([]byte("x"))
		vAssert(n == 0 && errors.Is(err, want), "a write with an ended context does not fail")
		vWait()
		vAssert(nc.calls == calls, "an operation is started with a context which has ended")
	}
	vReach("net-end")
	vDone()
}

// vRouter takes the handlers of a server.
type vRouter struct {
	negotiate func(w http.ResponseWriter, r *http.Request)
	handler   http.Handler
}

func (r *vRouter) HandleFunc(_ string, f func(w http.ResponseWriter, r *http.Request)) {
	r.negotiate = f
}
func (r *vRouter) Handle(_ string, h http.Handler) { r.handler = h }

// vWriter is the response to a request.
type vWriter struct {
	mx      sync.Mutex
	header  http.Header
	status  int
	heads   int
	body    []byte
	chunks  [][]byte
	flushed int
	done    bool
	hold    chan struct{} // when not nil, Write blocks until it is closed
	fails   bool
	sink    func([]byte)
}

func (w *vWriter) Header() http.Header { return w.header }
func (w *vWriter) WriteHeader(status int) {
	w.mx.Lock()
	defer w.mx.Unlock()
	w.heads++
	if w.heads == 1 {
		w.status = status
	}
}
func (w *vWriter) Write(p []byte) (int, error) {
	w.mx.Lock()
	if w.heads == 0 {
		w.heads, w.status = 1, 200
	}
	hold, fails := w.hold, w.fails
	w.mx.Unlock()
	if hold != nil {
		<-hold
	}
	if fails {
		return 0, errVOp
	}
	w.mx.Lock()
	defer w.mx.Unlock()
	w.body = append(w.body, p...)
	w.chunks = append(w.chunks, append([]byte(nil), p...))
	return len(p), nil
}
func (w *vWriter) Flush() {
	w.mx.Lock()
	defer w.mx.Unlock()
	w.flushed = len(w.body)
}

func (w *vWriter) ended() (int, bool) {
	w.mx.Lock()
	defer w.mx.Unlock()
	return w.status, w.done
}

// vHTTP sends a request to a handler and does not wait for the end of the response.
func vHTTP(ctx context.Context, h http.Handler, method, query string, header http.Header, body io.Reader) *vWriter {
	w := &vWriter{header: http.Header{}}
	vHTTPTo(ctx, w, h, method, query, header, body)
	return w
}

func vRequest(ctx context.Context, method, query string, header http.Header, body io.Reader) *http.Request {
	if header == nil {
		header = http.Header{}
	}
	if body == nil {
		body = bytes.NewReader(nil)
	}
	r := &http.Request{Method: method, URL: &url.URL{Path: "/x", RawQuery: query}, Header: header, Body: io.NopCloser(body), Host: "h", ProtoMajor: 1, ProtoMinor: 1, Proto: "HTTP/1.1"}
	return r.WithContext(ctx)
}

func vHTTPTo(ctx context.Context, w *vWriter, h http.Handler, method, query string, header http.Header, body io.Reader) {
	r := vRequest(ctx, method, query, header, body)
	go func() {
		h.ServeHTTP(w, r)
		w.mx.Lock()
		defer w.mx.Unlock()
		w.done = true
	}()
}

type vNegotiated struct {
	ConnectionToken     string `json:"connectionToken,omitempty"`
	ConnectionID        string `json:"connectionId"`
	NegotiateVersion    int    `json:"negotiateVersion,omitempty"`
	AvailableTransports []struct {
		Transport       string   `json:"transport"`
		TransferFormats []string `json:"transferFormats"`
	} `json:"availableTransports"`
}

// vWebHub tells which connections it sees.
type vWebHub struct{ Hub }

func (h *vWebHub) OnConnected(id string)    { vCall("connected %s", id) }
func (h *vWebHub) OnDisconnected(id string) { vCall("disconnected %s", id) }

// Note takes a number and does nothing else.
func (h *vWebHub) Note(n int) { vCall("note %d", n) }

// Name answers with the name of the connection and a text.
func (h *vWebHub) Name(s string) string { return h.ConnectionID() + s }

// Text answers with a text.
func (h *vWebHub) Text(s string) string { return s }

func vCountCalls(what string) int {
	n := 0
	for _, c := range vCalls() {
		if c == what {
			n++
		}
	}
	return n
}

// vWeb is a server which is mapped to a path.
type vWeb struct {
	r   *vRouter
	ctx context.Context
	s   Server
}

func vWebServer(options ...func(Party) error) *vWeb {
	w := &vWeb{r: &vRouter{}, ctx: context.Background()}
	w.s = vServer(append([]func(Party) error{SimpleHubFactory(&vWebHub{}), TimeoutInterval(10 * time.Minute), KeepAliveInterval(9 * time.Minute)}, options...)...)
	w.s.MapHTTP(func() MappableRouter { return w.r }, "/x")
	return w
}

// negotiate sends a negotiate request of a kind.
func (h *vWeb) negotiate(kind int) *vWriter {
	query, method := "", "POST"
	header := http.Header{}
	switch kind {
	case 1:
		query = "negotiateVersion=1"
	case 2:
		header.Set("negotiateVersion", "1")
	case 3:
		query = "negotiateVersion=x&a=b"
	case 4:
		method = "GET"
	}
	return vHTTP(h.ctx, http.HandlerFunc(h.r.negotiate), method, query, header, nil)
}

// vLink is what the harness knows about a negotiated connection.
type vLink struct {
	key, id, other string // what starts it, its id, what does not start it
	v1             bool
	at             time.Time
	state          int // 0: negotiated, 1: started, 2: ended
	ws             bool
	cancel         context.CancelFunc
	get            *vWriter
	sock           *vHijack
	free           bool // there was no negotiation
}

// link takes the answer of a negotiate request.
func (w *vWriter) link(kind int, before []*vLink) *vLink {
	st, done := w.ended()
	vAssert(done && st == 200 && w.heads == 1, "a negotiate request is not accepted")
	var n vNegotiated
	vAssert(json.Unmarshal(w.body, &n) == nil, "the answer to a negotiate request can not be read")
	vAssert(n.ConnectionID != "", "a negotiated connection has no id")
	l := &vLink{id: n.ConnectionID, key: n.ConnectionID, v1: kind == 1 || kind == 2, at: time.Now()}
	if l.v1 {
		vAssert(n.NegotiateVersion == 1 && n.ConnectionToken != "" && n.ConnectionToken != n.ConnectionID, "the negotiation of version 1 has no token of its own")
		l.key, l.other = n.ConnectionToken, n.ConnectionID
	} else {
		vAssert(n.NegotiateVersion == 0 && n.ConnectionToken == "", "the negotiation of version 0 has a token")
	}
	for _, b := range before {
		vAssert(b.id != l.id && b.key != l.key && b.id != l.key && b.key != l.id, "an id is handed out twice")
	}
	return l
}

func vQuery(key string) string { return url.Values{"id": {key}}.Encode() }

// connect requests to start a connection with server-sent events.
func (h *vWeb) sse(ctx context.Context, key string) *vWriter {
	q := ""
	if key != "" {
		q = vQuery(key)
	}
	return vHTTP(ctx, h.r.handler, "GET", q, http.Header{"Accept": {"text/event-stream"}}, nil)
}

// webSocket requests to start a connection with a WebSocket.
func (h *vWeb) webSocket(ctx context.Context, key string, headers ...string) *vHijack {
	q := ""
	if key != "" {
		q = vQuery(key)
	}
	w := &vHijack{conn: &vNetConn{cond: make(chan struct{}), room: 100000}}
	w.header = http.Header{}
	hd := http.Header{}
	for i, s := range append([]string{"Connection", "keep-alive, Upgrade", "Upgrade", "websocket", "Sec-WebSocket-Version", "13", "Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ=="}, headers...) {
		if i%2 == 1 {
			hd.Set(append([]string{"Connection", "keep-alive, Upgrade", "Upgrade", "websocket", "Sec-WebSocket-Version", "13", "Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ=="}, headers...)[i-1], s)
		}
	}
	r := vRequest(ctx, "GET", q, hd, nil)
	go func() {
		h.r.handler.ServeHTTP(w, r)
		w.mx.Lock()
		defer w.mx.Unlock()
		w.done = true
	}()
	return w
}

func (h *vWeb) post(key, body string) *vWriter {
	q := ""
	if key != "" {
		q = vQuery(key)
	}
	return vHTTP(h.ctx, h.r.handler, "POST", q, nil, bytes.NewReader([]byte(body)))
}

// frames are the payloads of the frames a WebSocket got. A close frame is "close " and its code.
func (w *vHijack) frames() (f []string) {
	w.conn.mx.Lock()
	b := append([]byte(nil), w.conn.out...)
	w.conn.mx.Unlock()
	for len(b) >= 2 {
		op, n, h := b[0]&15, int(b[1]&127), 2
		if n == 126 && len(b) >= 4 {
			n, h = int(b[2])<<8|int(b[3]), 4
		}
		if len(b) < h+n {
			break
		}
		s := string(b[h : h+n])
		if op == 8 {
			code := 0
			if n >= 2 {
				code = int(s[0])<<8 | int(s[1])
			}
			s = "close " + fmt.Sprint(code)
		}
		f = append(f, s)
		b = b[h+n:]
	}
	return f
}

func (w *vHijack) sendFrame(s string) {
	w.conn.change(func() { w.conn.data = append(w.conn.data, vWSFrame(1, s)...) })
}

const vEventStart = ":\r\n\r\n"

// works asserts that a connection was started and can be used.
func (l *vLink) works(h *vWeb) {
	if l.ws {
		vAssert(l.sock.status == 101 && l.sock.hijacked == 1, "a WebSocket with a negotiated id is refused")
		l.sock.sendFrame(vHandshakeJSON)
		vWait()
		f := l.sock.frames()
		vAssert(len(f) == 1 && f[0] == "{}\x1e", "a connection with a negotiated id can not be used")
	} else {
		st, done := l.get.ended()
		vAssert(!done && st == 200 && l.get.heads == 1, "a request for events with a negotiated id is refused")
		vAssert(l.get.header.Get("Content-Type") == "text/event-stream", "the content type of the events is wrong")
		vAssert(string(l.get.body) == vEventStart && l.get.flushed == len(vEventStart), "the event stream does not start with a comment")
		p := h.post(l.key, vHandshakeJSON)
		time.Sleep(100 * time.Millisecond)
		vWait()
		st, done = p.ended()
		vAssert(done && st == 200, "a POST to a started connection is refused")
		vAssert(string(l.get.body) == vEventStart+"data: {}\x1e\n\n" && l.get.flushed == len(l.get.body), "a connection with a negotiated id can not be used")
	}
	if l.free {
		return
	}
	vAssert(vCountCalls("connected "+l.id) == 1, "a connection is not the one which was negotiated")
	l.state = 1
}

// over asserts that a connection has ended.
func (l *vLink) over(reason string) {
	if l.ws {
		_, done := l.sock.ended()
		vAssert(done, "the request of a WebSocket does not end "+reason)
		l.sock.conn.mx.Lock()
		vAssert(l.sock.conn.closed > 0, "a WebSocket is not closed "+reason)
		l.sock.conn.mx.Unlock()
	} else {
		_, done := l.get.ended()
		vAssert(done, "the event stream does not end "+reason)
	}
	if l.free {
		return
	}
	vAssert(vCountCalls("disconnected "+l.id) == 1, "a connection does not end "+reason)
	l.state = 2
}

// refusedSSE asserts that a request for events does not start a connection.
func vRefusedSSE(w *vWriter, status int) {
	st, done := w.ended()
	vAssert(done && st == status && w.heads == 1, fmt.Sprint("a request for events is not answered with ", status))
	vAssert(len(w.body) == 0, "a refused request for events gets events")
}

// vRefusedWS asserts that a request does not start a connection.
func vRefusedWS(w *vHijack) {
	if w.hijacked > 0 {
		f := w.frames()
		vAssert(len(f) == 1 && strings.HasPrefix(f[0], "close "), "a WebSocket which is not negotiated is not closed")
	} else {
		st, done := w.ended()
		vAssert(done && st >= 400, "a WebSocket which is not negotiated is not refused")
	}
}

// ZNegotiations is a history of negotiations, connections and their ends.
func ZNegotiations() {
	limit := vPick("limit", 3) // 0 is none
	h := vWebServer(MaxNegotiationConnections(limit), HandshakeTimeout(2*time.Second))
	var links []*vLink
	connected := 0
	steps := vParam("steps")
	for k := 1; k <= steps; k++ {
		now := time.Now()
		sure, perhaps := 0, 0
		alive := map[*vLink]int{} // 0: gone, 1: pending, 2: perhaps
		for _, l := range links {
			age := now.Sub(l.at)
			if l.state != 0 {
				continue
			}
			switch {
			case age <= 2*time.Second:
				sure++
				alive[l] = 1
			case age <= 4*time.Second+time.Millisecond:
				perhaps++
				alive[l] = 2
			}
		}
		// one of the links or one of three keys nobody knows
		pick := func(name string) (*vLink, string) {
			i := vPickN(name, k, len(links)+vNarrow(3, 1))
			if i < len(links) {
				return links[i], links[i].key
			}
			switch i - len(links) {
			case 0:
				return nil, "unknown"
			case 1:
				return nil, ""
			}
			for _, l := range links {
				if l.other != "" {
					return nil, l.other // the id does not start a connection which has a token
				}
			}
			vAssume(false)
			return nil, ""
		}
		switch vPickN("step", k, 6) {
		case 0: // negotiate
			kind := vPickN("kind", k, vNarrow(5, 2))
			w := h.negotiate(kind)
			vWait()
			st, done := w.ended()
			vAssert(done && w.heads == 1, "a negotiate request is not answered")
			switch {
			case kind == 4:
				vAssert(st == 400 && len(w.body) == 0, "a negotiate request with the wrong method is accepted")
			case limit > 0 && sure >= limit:
				vAssert(st == 429 && len(w.body) == 0, "more connections than allowed are negotiated")
				vReach("limit")
			case limit > 0 && sure+perhaps >= limit && st == 429:
				vAssert(len(w.body) == 0, "a refused negotiate request gets an id")
			default:
				links = append(links, w.link(kind, links))
				vReach("negotiated")
			}
		case 1: // events
			l, key := pick("key")
			ctx, cancel := context.WithCancel(h.ctx)
			w := h.sse(ctx, key)
			vWait()
			st, done := w.ended()
			switch {
			case key == "":
				vRefusedSSE(w, 400)
				vReach("no-key")
			case l != nil && l.state == 1:
				vRefusedSSE(w, 409)
				vReach("used")
			case l == nil || l.state == 2 || alive[l] == 0 || alive[l] == 2 && done && st == 404:
				vRefusedSSE(w, 404)
				if l != nil {
					l.state = 2
					vReach("gone")
				}
			default:
				l.get, l.cancel = w, cancel
				l.works(h)
				connected++
				vReach("sse")
			}
		case 2: // WebSocket
			l, key := pick("key")
			ctx, cancel := context.WithCancel(h.ctx)
			w := h.webSocket(ctx, key)
			if key == "" { // works without negotiation
				vWait()
				l = &vLink{free: true, sock: w, ws: true, cancel: cancel}
				l.works(h)
				cancel()
				time.Sleep(100 * time.Millisecond)
				vWait()
				l.over("with its request")
				connected++
				vReach("ws-free")
				break
			}
			if l == nil || l.state != 0 || alive[l] == 0 {
				w.sendFrame(vHandshakeJSON)
				time.Sleep(100 * time.Millisecond)
				vWait()
				vRefusedWS(w)
				vReach("ws-refused")
				break
			}
			vWait()
			if len(w.frames()) > 0 && alive[l] == 2 {
				vRefusedWS(w)
				l.state = 2
				break
			}
			l.sock, l.cancel, l.ws = w, cancel, true
			l.works(h)
			connected++
			vReach("ws")
		case 3: // end
			i := vPickN("key", k, len(links)+1)
			vAssume(i < len(links) && links[i].state == 1)
			links[i].cancel()
			time.Sleep(100 * time.Millisecond)
			vWait()
			links[i].over("with its request")
			vReach("ended")
		case 4: // POST
			l, key := pick("key")
			w := h.post(key, `{"type":6}`+"\x1e")
			time.Sleep(100 * time.Millisecond)
			vWait()
			st, done := w.ended()
			switch {
			case key == "":
				vAssert(done && st == 400, "a POST without id is not answered with 400")
			case l != nil && l.state == 1 && l.ws:
				vAssert(done && st == 409, "a POST to a WebSocket is not answered with 409")
			case l != nil && l.state == 1:
				vAssert(done && st == 200, "a POST to a started connection is refused")
				vReach("posted")
			case l == nil || l.state == 2 || alive[l] == 0:
				vAssert(done && st == 404, "a POST with an unknown id is not answered with 404")
				vReach("post-unknown")
			default: // too early
				vAssert(!done || st == 404 && alive[l] == 2, "a POST before the connection is started is answered too early")
				time.Sleep(2100 * time.Millisecond)
				vWait()
				st, done = w.ended()
				vAssert(done && (st == 425 || st == 404), "a POST for a connection nobody starts is not answered with 425")
				vReach("early")
			}
		case 5:
			time.Sleep(1500 * time.Millisecond)
			vWait()
		}
		n := 0
		for _, c := range vCalls() {
			if strings.HasPrefix(c, "connected ") {
				n++
			}
		}
		vAssert(n == connected, "a connection is started nobody asked for")
	}
	vReach("negotiations-end")
	vDone()
}

// ZConnectRace sends requests for the same negotiated connection at once.
func ZConnectRace() {
	h := vWebServer(MaxNegotiationConnections(2), HandshakeTimeout(2*time.Second))
	vCalm(true)
	version := vPick("version", 2)
	w := h.negotiate(version)
	vWait()
	l := w.link(version, nil)
	old := vPick("old", 2) == 1
	if old { // the negotiation expires now
		time.Sleep(4 * time.Second)
	}
	vCalm(false)
	var sse, neg, posts []*vWriter
	var negKind []int
	var wss, free []*vHijack
	ctx, cancel := context.WithCancel(h.ctx)
	for i := 1; i <= vParam("calls"); i++ {
		switch vPickN("call", i, 5) {
		case 0:
			sse = append(sse, h.sse(ctx, l.key))
		case 1:
			wss = append(wss, h.webSocket(ctx, l.key))
		case 2:
			neg = append(neg, h.negotiate(i%2))
			negKind = append(negKind, i%2)
		case 3:
			vAssume(len(posts) == 0)
			posts = append(posts, h.post(l.key, vHandshakeJSON))
		case 4:
			free = append(free, h.webSocket(ctx, ""))
		}
	}
	vWait()
	vCalm(true)
	links := []*vLink{l}
	started, unknown := 0, 0
	for _, w := range sse {
		st, done := w.ended()
		switch {
		case !done && st == 200:
			started++
			l.get, l.state = w, 1
		case done && st == 404 && old:
			vRefusedSSE(w, 404)
			unknown++
		default:
			vRefusedSSE(w, 409)
		}
	}
	for _, w := range wss {
		vAssert(w.hijacked == 1, "a WebSocket is refused")
		if len(w.frames()) == 0 {
			started++
			l.sock, l.ws, l.state = w, true, 1
		} else {
			vRefusedWS(w)
		}
	}
	vAssert(started <= 1, "a negotiated id starts more than one connection")
	vAssert(started == 1 || old || len(sse)+len(wss) == 0, "a negotiated id starts no connection")
	accepted, refused := 0, 0
	for i, w := range neg {
		if st, done := w.ended(); done && st == 429 {
			refused++
		} else {
			links = append(links, w.link(negKind[i], links))
			accepted++
		}
	}
	vAssert(accepted <= 2 && (accepted <= 1 || old || started == 1), "more connections than allowed are negotiated")
	vAssert(refused == 0 || accepted >= 1, "a negotiation is refused although there are less than allowed")
	for _, w := range free {
		f := &vLink{free: true, ws: true, sock: w}
		f.works(h)
	}
	if started == 1 && (len(posts) == 0 || l.ws) {
		l.works(h)
	}
	time.Sleep(100 * time.Millisecond)
	vWait()
	for _, w := range posts {
		st, done := w.ended()
		switch {
		case started == 1 && !l.ws:
			vAssert(done && (st == 200 || st == 404 && old), "a POST for a connection which is started is refused")
			if st == 200 {
				vAssert(string(l.get.body) == vEventStart+"data: {}\x1e\n\n", "a connection with a negotiated id can not be used")
				vAssert(vCountCalls("connected "+l.id) == 1, "a connection is not the one which was negotiated")
				vReach("posted")
			}
		case started == 1:
			vAssert(done && (st == 409 || st == 404 && old), "a POST for a WebSocket is not refused")
		default:
			vAssert(!done || st == 404 && old, "a POST before the connection is started is answered too early")
		}
	}
	n := 0
	for _, c := range vCalls() {
		if strings.HasPrefix(c, "connected ") {
			n++
		}
	}
	vAssert(n <= started+len(free), "a negotiated id starts more than one connection")
	if started == 1 {
		vReach("started")
	} else if unknown > 0 {
		vReach("expired")
	}
	cancel()
	time.Sleep(2500 * time.Millisecond) // the timeout for POSTs to connections which are not started
	vWait()
	for _, w := range posts {
		st, done := w.ended()
		vAssert(done && (started == 1 || st == 425 || st == 404), "a POST is not answered")
	}
	if started == 1 {
		if vCountCalls("connected "+l.id) == 1 {
			l.over("with its request")
		}
		again := h.sse(h.ctx, l.key)
		p := h.post(l.key, vHandshakeJSON)
		ws := h.webSocket(h.ctx, l.key)
		ws.sendFrame(vHandshakeJSON)
		time.Sleep(100 * time.Millisecond)
		vWait()
		vRefusedSSE(again, 404)
		vRefusedWS(ws)
		st, done := p.ended()
		vAssert(done && st == 404, "a POST with an id whose connection has ended is not answered with 404")
	}
	for _, w := range free {
		f := &vLink{free: true, ws: true, sock: w}
		f.over("with its request")
	}
	vReach("race-end")
	vDone()
}

// vNarrow is the number of choices, which is smaller in narrow runs.
func vNarrow(n, narrow int) int {
	if vParam("narrow") != 0 {
		return narrow
	}
	return n
}

// vSSEConn starts a connection with server-sent events.
func (h *vWeb) start(ctx context.Context) *vLink {
	w := h.negotiate(1)
	vWait()
	l := w.link(1, nil)
	l.get = h.sse(ctx, l.key)
	vWait()
	l.works(h)
	return l
}

// vBody is the body of a POST. It comes in two pieces and may fail instead of the second one.
type vBody struct {
	pieces []string
	wait   time.Duration
	fails  bool
	n      int
}

func (b *vBody) Read(p []byte) (int, error) {
	if b.n == len(b.pieces) {
		return 0, io.EOF
	}
	if b.n > 0 {
		time.Sleep(b.wait)
		if b.fails {
			return 0, errVOp
		}
	}
	n := copy(p, b.pieces[b.n])
	b.pieces[b.n] = b.pieces[b.n][n:]
	if len(b.pieces[b.n]) == 0 {
		b.n++
	}
	return n, nil
}

func vNote(n int) string { return vInvocation(1, "", "Note", fmt.Sprint("[", n, "]"), "") + "\x1e" }

// ZPosts sends POSTs of all kinds to a connection.
func ZPosts() {
	h := vWebServer(MaximumReceiveMessageSize(200), HandshakeTimeout(2*time.Second))
	vCalm(true)
	ctx, cancel := context.WithCancel(h.ctx)
	l := h.start(ctx)
	vCalm(false)
	type post struct {
		w          *vWriter
		notes      []int
		good       bool
		begin, end time.Time
		overlaps   bool
	}
	var posts []*post
	note := 0
	n := vParam("posts")
	ended := false
	for k := 1; k <= n; k++ {
		p := &post{good: true, begin: time.Now()}
		next := func() string {
			note++
			p.notes = append(p.notes, note)
			return vNote(note)
		}
		b := &vBody{}
		kind := vPickN("kind", k, 7)
		switch kind {
		case 0:
			b.pieces = []string{next()}
		case 1: // two messages in two pieces
			s := next() + next()
			cut := 1 + vPickN("cut", k, 2)*20
			b.pieces = []string{s[:cut], s[cut:]}
		case 2: // too large
			p.good = false
			b.pieces = []string{next() + next(), next() + next() + strings.Repeat(" ", 100)}
		case 3: // can not be read
			p.good = false
			b.pieces, b.fails = []string{next(), "x"}, true
		case 4: // slow
			s := next()
			b.pieces, b.wait = []string{s[:5], s[5:]}, 300*time.Millisecond
		case 5: // slow and fails
			p.good = false
			b.pieces, b.fails, b.wait = []string{next(), "x"}, true, 300*time.Millisecond
		case 6: // the connection ends
			vAssume(!ended)
			ended = true
			cancel()
		}
		if kind < 6 {
			for _, o := range posts {
				if _, done := o.w.ended(); !done {
					p.overlaps, o.overlaps = true, true
				}
			}
			p.w = vHTTP(h.ctx, h.r.handler, "POST", vQuery(l.key), nil, b)
			posts = append(posts, p)
		}
		if ended {
			vWait()
		} else if vPickN("gap", k, 2) == 1 {
			time.Sleep(500 * time.Millisecond)
			vWait()
			for _, p := range posts {
				_, done := p.w.ended()
				vAssert(done, "a POST is not answered")
			}
		}
	}
	time.Sleep(500 * time.Millisecond)
	vWait()
	vCalm(true)
	for _, p := range posts {
		st, done := p.w.ended()
		vAssert(done && p.w.heads == 1, "a POST is not answered")
		if st == 200 {
			vAssert(p.good, "a POST whose body can not be read is accepted")
			vReach("accepted")
		} else {
			vAssert(st >= 400, "a POST is answered with a wrong status")
			vReach("refused")
		}
		if !ended {
			if p.good {
				vAssert(st == 200 || p.overlaps && st == 409, "a POST is refused without reason")
			} else {
				vAssert(st == 400 || st == 413 || p.overlaps && st == 409, "the status of a refused POST is wrong")
			}
		}
		for _, i := range p.notes {
			c := vCountCalls(fmt.Sprint("note ", i))
			switch {
			case st == 200 && !ended:
				vAssert(c == 1, "the messages of an accepted POST are not delivered once")
			case st == 200:
				vAssert(c <= 1, "the messages of an accepted POST are delivered twice")
			case ended && p.good:
				vAssert(c <= 1, "the messages of a POST are delivered twice")
			default:
				vAssert(c == 0, "a message of a refused POST is delivered")
			}
		}
	}
	last := h.post(l.key, vNote(1000))
	time.Sleep(100 * time.Millisecond)
	vWait()
	st, done := last.ended()
	if ended {
		vAssert(done && (st == 404 || st == 410), "a POST to an ended connection is not refused as such")
		vAssert(vCountCalls("note 1000") == 0, "the messages of a POST to an ended connection are delivered")
		vReach("ended")
	} else {
		vAssert(done && st == 200, "a POST is refused although there is none in progress")
		vAssert(vCountCalls("note 1000") == 1, "the messages of an accepted POST are not delivered once")
		cancel()
		time.Sleep(100 * time.Millisecond)
		vWait()
	}
	l.over("with its request")
	vReach("posts-end")
	vDone()
}

// vEvents are the payloads of the events of a stream. The rest of an event which is not complete comes last.
func vEvents(b []byte) (events []string, rest string) {
	s := string(b)
	for {
		i := strings.Index(s, "\n\n")
		if strings.HasPrefix(s, vEventStart) {
			s = s[len(vEventStart):]
			continue
		}
		if i < 0 {
			return events, s
		}
		e := ""
		for n, line := range strings.Split(s[:i], "\n") {
			vAssert(strings.HasPrefix(line, "data: "), "the event stream has an invalid line")
			if n > 0 {
				e += "\n"
			}
			e += line[6:]
		}
		events = append(events, e)
		s = s[i+2:]
	}
}

// Stop ends the connection.
func (h *vWebHub) Stop() { h.Abort() }

// ZSSEWrites sends to a connection from several places while it ends.
func ZSSEWrites() {
	ctx0, stop := context.WithCancel(context.Background())
	s, err := NewServer(ctx0, SimpleHubFactory(&vWebHub{}), Logger(vLog{}, false), TimeoutInterval(10*time.Minute), KeepAliveInterval(9*time.Minute))
	vAssert(err == nil, "the server can not be created")
	h := &vWeb{r: &vRouter{}, ctx: context.Background(), s: s}
	s.MapHTTP(func() MappableRouter { return h.r }, "/x")
	vCalm(true)
	vWait()
	before := runtime.NumGoroutine()
	ctx, cancel := context.WithCancel(h.ctx)
	l := h.start(ctx)
	g := l.get
	fault := vPick("fault", 4)
	release := make(chan struct{})
	g.mx.Lock()
	if fault == 1 { // the HTTP layer takes nothing more until the request ends
		g.hold = release
	} else if fault == 2 { // or refuses it
		g.fails = true
	} else if fault == 3 {
		g.hold = release
	}
	g.mx.Unlock()
	vCalm(false)
	var texts []string
	calls := vParam("calls")
	for k := 1; k <= calls; k++ {
		text := fmt.Sprint("m", k)
		texts = append(texts, text)
		switch vPickN("call", k, 3) {
		case 0:
			h.s.HubClients().All().Send(text)
		case 1:
			h.s.HubClients().Client(l.id).Send(text)
		case 2:
			h.post(l.key, vInvocation(1, text, "Text", `["x"]`, "")+"\x1e")
			time.Sleep(100 * time.Millisecond)
		}
	}
	if fault == 3 {
		close(release)
	}
	end := vPick("end", 5)
	switch end {
	case 0:
		cancel()
	case 1:
		stop()
	case 2:
		h.post(l.key, `{"type":7}`+"\x1e")
	case 3:
		h.post(l.key, vInvocation(1, "", "Stop", "[]", "")+"\x1e")
	case 4: // the peer stays connected
	}
	time.Sleep(time.Second)
	vWait()
	vCalm(true)
	if fault == 1 {
		cancel() // a server which is blocked ends when the peer is gone
		time.Sleep(time.Second)
		vWait()
		vAssert(vCountCalls("disconnected "+l.id) == 1, "a write which is not taken blocks the end of the connection")
		vAssert(runtime.NumGoroutine() <= before+1, "a write does not return when the connection ends")
		close(release)
		time.Sleep(time.Second)
		vWait()
	}
	if end == 4 && fault != 1 && fault != 2 {
		_, done := g.ended()
		vAssert(!done, "an event stream ends without reason")
		e, rest := vEvents(g.body)
		vAssert(rest == "" && g.flushed == len(g.body), "an event is not complete")
		vAssert(len(e) == calls+1, "something is sent nobody asked for")
		for _, text := range texts {
			n := 0
			for _, s := range e {
				if strings.HasSuffix(s, "\x1e") && strings.Contains(s, `"`+text+`"`) {
					n++
				}
			}
			vAssert(n == 1, "a message is not sent once")
		}
		vReach("sent")
		cancel()
		time.Sleep(time.Second)
		vWait()
	}
	l.over("when it should")
	vAssert(runtime.NumGoroutine() <= before, "a goroutine of a connection which has ended is left")
	vReach("writes-end")
	vReach([]string{"cancelled", "stopped", "closed", "aborted", "sent-all"}[end])
	vDone()
}
