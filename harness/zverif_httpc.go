package signalr

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/coder/websocket"
)

// vStreamBody is the body of a response. It comes in chunks.
type vStreamBody struct {
	mx     sync.Mutex
	chunks [][]byte
	end    bool // comes together with the last chunk
	eof    error
	wake   chan struct{}
	closed int
}

func newVStreamBody() *vStreamBody { return &vStreamBody{wake: make(chan struct{}), eof: io.EOF} }

func (b *vStreamBody) add(chunk []byte) {
	b.mx.Lock()
	defer b.mx.Unlock()
	b.chunks = append(b.chunks, append([]byte(nil), chunk...))
	close(b.wake)
	b.wake = make(chan struct{})
}

func (b *vStreamBody) finish() {
	b.mx.Lock()
	defer b.mx.Unlock()
	b.end = true
	close(b.wake)
	b.wake = make(chan struct{})
}

func (b *vStreamBody) Read(p []byte) (int, error) {
	for {
		b.mx.Lock()
		if len(b.chunks) > 0 {
			n := copy(p, b.chunks[0])
			b.chunks[0] = b.chunks[0][n:]
			if len(b.chunks[0]) == 0 {
				b.chunks = b.chunks[1:]
			}
			var err error
			if b.end && len(b.chunks) == 0 {
				err = b.eof
			}
			b.mx.Unlock()
			return n, err
		}
		if b.end {
			b.mx.Unlock()
			return 0, b.eof
		}
		w := b.wake
		b.mx.Unlock()
		<-w
	}
}

func (b *vStreamBody) Close() error {
	b.mx.Lock()
	defer b.mx.Unlock()
	b.closed++
	return nil
}

// vDoer answers the requests of a client.
type vDoer struct {
	mx        sync.Mutex
	requests  []*http.Request
	bodies    []string
	negotiate string
	negStatus int
	getStatus int
	postState int
	wsStatus  int
	postErr   error
	getErr    error
	stream    *vStreamBody
	cookies   []string
	end       *vDuplex // the server's end of a WebSocket
}

func vResponse(status int, body io.ReadCloser) *http.Response {
	return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Header: http.Header{}, Body: body, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
}

func (d *vDoer) Do(r *http.Request) (*http.Response, error) {
	body := ""
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		body = string(b)
	}
	d.mx.Lock()
	defer d.mx.Unlock()
	d.requests = append(d.requests, r)
	d.bodies = append(d.bodies, body)
	if strings.HasSuffix(r.URL.Path, "/negotiate") {
		res := vResponse(d.negStatus, io.NopCloser(bytes.NewReader([]byte(d.negotiate))))
		for _, c := range d.cookies {
			res.Header.Add("Set-Cookie", c)
		}
		return res, nil
	}
	if r.Method == "GET" {
		if d.getErr != nil {
			return nil, d.getErr
		}
		if d.getStatus != 200 {
			d.stream.finish()
		}
		return vResponse(d.getStatus, d.stream), nil
	}
	if d.postErr != nil {
		return nil, d.postErr
	}
	return vResponse(d.postState, io.NopCloser(bytes.NewReader(nil))), nil
}

const vNegSSE = `{"connectionToken":"tok","connectionId":"id","negotiateVersion":1,"availableTransports":[{"transport":"ServerSentEvents","transferFormats":["Text"]}]}`

// ZEvents reads an event stream which is cut into chunks at any place.
func ZEvents() {
	d := &vDoer{negotiate: vNegSSE, negStatus: 200, getStatus: 200, postState: 200, stream: newVStreamBody()}
	conn, err := NewHTTPConnection(context.Background(), "http://h/x", WithHTTPClient(d))
	vAssert(err == nil, "a connection is not created")
	want, all := "", ""
	events := vParam("events")
	for k := 1; k <= events; k++ {
		nl := "\n"
		if vPickN("crlf", k, 2) == 1 {
			nl = "\r\n"
		}
		pay := ""
		n := vParam("len")
		for i, c := range vBytes("payload", n) {
			_ = i
			vAssume(c != '\n' && c != '\r')
			pay += string([]byte{c})
		}
		pay += "\x1e"
		e := "data: " + pay + nl
		switch vPickN("form", k, 8) {
		case 1: // no space
			vAssume(pay[0] != ' ')
			e = "data:" + pay + nl
		case 2: // a comment before
			e = ": data: x" + nl + e
		case 3: // other fields around
			e = "event: data" + nl + e + "id: 7" + nl
		case 4: // a comment between
			e = ":" + nl + nl + e
		case 5: // more empty lines
			e = nl + e + nl
		case 6: // unknown fields
			e = "datax: y" + nl + "data" + "\x00" + nl + "retry: 5" + nl + e
		case 7: // the fields are not at the start of the line
			e = " data: y" + nl + "x data: z" + nl + e
		}
		all += e + nl
		want += pay
	}
	for _, c := range vCutList(len(all), vParam("chunks")) {
		d.stream.add([]byte(all[:c]))
		all = all[c:]
	}
	if vPick("end", 2) == 1 {
		d.stream.finish() // with the last chunk
	}
	size := []int{1, 3, 100}[vPick("size", 3)]
	var mx sync.Mutex
	got := []byte{}
	var rerr error
	go func() {
		p := make([]byte, size)
		for {
			n, err := conn.Read(p)
			mx.Lock()
			got = append(got, p[:n]...)
			rerr = err
			mx.Unlock()
			if err != nil {
				return
			}
		}
	}()
	vWait()
	mx.Lock()
	vAssert(string(got) == want, "what is read is not what was sent")
	mx.Unlock()
	vReach("read")
	if rerr == nil {
		d.stream.finish()
		vWait()
	}
	mx.Lock()
	vAssert(rerr != nil && string(got) == want, "reading does not end with the event stream")
	mx.Unlock()
	vAssert(d.stream.closed > 0, "the event stream is not closed")
	// the other direction
	p := vBytes("write", 2)
	n, err := conn.Write(p)
	vAssert(err == nil && n == 2, "writing fails")
	last := d.requests[len(d.requests)-1]
	vAssert(last.Method == "POST" && d.bodies[len(d.requests)-1] == string(p) && last.URL.Path == "/x" && last.URL.Query().Get("id") == "tok", "what is written is not sent to the connection")
	vReach("events-end")
	vDone()
}

// vCutList cuts n bytes into up to k pieces and returns their lengths.
func vCutList(n, k int) (l []int) {
	last := 0
	for _, c := range vCuts(n, k) {
		l = append(l, c-last)
		last = c
	}
	return l
}

// vPipeDoer sends the requests of a client to a server.
type vPipeDoer struct {
	h       *vWeb
	ctx     context.Context // of the requests
	mx      sync.Mutex
	ids     []string
	stream  *vStreamBody
	headers []string
	cut     int
}

// vStreamWriter is the server's side of a response with a body of unknown length.
type vStreamWriter struct {
	vWriter
	body  *vStreamBody
	cut   int
	begun chan struct{}
	once  sync.Once
}

func (w *vStreamWriter) WriteHeader(status int) {
	w.vWriter.WriteHeader(status)
	w.once.Do(func() { close(w.begun) })
}

func (w *vStreamWriter) Write(p []byte) (int, error) {
	n, err := w.vWriter.Write(p)
	w.once.Do(func() { close(w.begun) })
	if w.cut > 0 && w.cut < len(p) {
		w.body.add(p[:w.cut])
		p = p[w.cut:]
	}
	w.body.add(p)
	return n, err
}

func (d *vPipeDoer) Do(r *http.Request) (*http.Response, error) {
	if d.ctx.Err() != nil {
		return nil, d.ctx.Err()
	}
	body := []byte(nil)
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
	}
	d.mx.Lock()
	d.headers = append(d.headers, r.Method+" "+r.Header.Get("X-Key"))
	d.mx.Unlock()
	sr := vRequest(d.ctx, r.Method, r.URL.RawQuery, r.Header, bytes.NewReader(body))
	w := &vStreamWriter{body: newVStreamBody(), begun: make(chan struct{}), cut: d.cut}
	w.header = http.Header{}
	var handler http.Handler = d.h.r.handler
	if strings.HasSuffix(r.URL.Path, "/negotiate") {
		handler = http.HandlerFunc(d.h.r.negotiate)
	}
	ended := make(chan struct{})
	go func() {
		handler.ServeHTTP(w, sr)
		w.body.finish()
		close(ended)
	}()
	if r.Method == "GET" {
		<-w.begun
		d.mx.Lock()
		d.stream = w.body
		d.mx.Unlock()
	} else {
		<-ended
	}
	res := vResponse(w.status, w.body)
	return res, nil
}

// ZLoopback connects a client to a server with server-sent events.
func ZLoopback() {
	vCalm(true)
	h := vWebServer()
	ctx, cancel := context.WithCancel(context.Background())
	d := &vPipeDoer{h: h, ctx: ctx}
	d.cut = []int{0, 1, 6, 9}[vPick("cut", 4)]
	version := vPick("version", 2)
	transport := []TransportType{TransportServerSentEvents, TransportWebSockets}[vPick("transport", 2)]
	var doer Doer = d
	if transport == TransportWebSockets {
		vAssume(d.cut == 0)
		doer = &http.Client{Transport: d}
	}
	conn, err := NewHTTPConnection(context.Background(), "http://h/x", WithHTTPClient(doer), WithNegotiateVersion(version), WithTransports(transport),
		WithHTTPHeaders(func() http.Header { return http.Header{"X-Key": {"secret"}} }))
	vAssert(err == nil, "a client can not connect to a server")
	recv := &vRecv{}
	c, err := NewClient(context.Background(), WithConnection(conn), Logger(vLog{}, false), WithReceiver(recv), TimeoutInterval(10*time.Minute), KeepAliveInterval(9*time.Minute))
	vAssert(err == nil, "a client can not be created")
	c.Start()
	time.Sleep(200 * time.Millisecond)
	vWait()
	vAssert(c.State() == ClientConnected, "a client can not connect to a server")
	vAssert(vCountCalls("connected "+conn.ConnectionID()) == 1, "the server does not see the connection of the client")
	vCalm(false)
	l := vPlain("letter")
	var mx sync.Mutex
	results := map[int]string{}
	calls := vParam("calls")
	for k := 1; k <= calls; k++ {
		text := fmt.Sprint(string([]byte{l}), k)
		res := c.Invoke("Name", text)
		go func(k int) {
			r := <-res
			mx.Lock()
			defer mx.Unlock()
			results[k] = fmt.Sprint(r.Value, " ", r.Error)
		}(k)
		time.Sleep(200 * time.Millisecond)
	}
	vWait()
	vCalm(true)
	mx.Lock()
	for k := 1; k <= calls; k++ {
		vAssert(results[k] == conn.ConnectionID()+fmt.Sprint(string([]byte{l}), k)+" <nil>", "an invocation is not answered with its result")
	}
	mx.Unlock()
	vReach("answered")
	for _, x := range d.headers {
		vAssert(strings.HasSuffix(x, " secret"), "the headers of the client are not sent")
	}
	cancel()
	time.Sleep(300 * time.Millisecond)
	vWait()
	vAssert(c.State() == ClientClosed && c.Err() != nil, "the client does not see the end of its connection")
	vAssert(vCountCalls("disconnected "+conn.ConnectionID()) == 1, "the server does not see the end of the connection")
	vReach("loopback-end")
	vDone()
}

// vDuplex is one end of a network connection.
type vDuplex struct {
	vNetConn
	peer *vDuplex
}

func newVDuplex() (*vDuplex, *vDuplex) {
	a, b := &vDuplex{}, &vDuplex{}
	a.peer, b.peer = b, a
	a.cond, b.cond = make(chan struct{}), make(chan struct{})
	return a, b
}

func (d *vDuplex) Write(p []byte) (int, error) {
	d.mx.Lock()
	closed := d.closed > 0
	d.mx.Unlock()
	if closed {
		return 0, net.ErrClosed
	}
	d.peer.change(func() { d.peer.data = append(d.peer.data, p...) })
	return len(p), nil
}

func (d *vDuplex) Close() error {
	d.change(func() { d.closed++ })
	d.peer.change(func() { d.peer.readErr = io.EOF })
	return nil
}

// RoundTrip sends a request of an http.Client to the server.
func (d *vPipeDoer) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.Header.Get("Upgrade") == "" {
		return d.Do(r)
	}
	d.mx.Lock()
	d.headers = append(d.headers, "WS "+r.Header.Get("X-Key"))
	d.mx.Unlock()
	a, b := newVDuplex()
	w := &vHijack{}
	w.header = http.Header{}
	w.dup = b
	w.took = make(chan struct{})
	sr := vRequest(d.ctx, "GET", r.URL.RawQuery, r.Header, nil)
	sr.Host = r.Host
	ended := make(chan struct{})
	go func() {
		d.h.r.handler.ServeHTTP(w, sr)
		close(ended)
	}()
	select {
	case <-w.took:
	case <-ended:
	}
	res := vResponse(w.status, a)
	if w.status != 101 {
		res.Body = io.NopCloser(bytes.NewReader(w.body))
	}
	res.Header = w.header
	return res, nil
}

// RoundTrip answers the requests of an http.Client.
func (d *vDoer) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.Header.Get("Upgrade") == "" {
		return d.Do(r)
	}
	d.mx.Lock()
	d.requests = append(d.requests, r)
	d.bodies = append(d.bodies, "")
	d.mx.Unlock()
	if d.wsStatus == 0 {
		return nil, errVOp
	}
	if d.wsStatus != 101 {
		return vResponse(d.wsStatus, io.NopCloser(bytes.NewReader(nil))), nil
	}
	a, b := newVDuplex()
	d.end = b
	w := &vHijack{dup: b, took: make(chan struct{})}
	w.header = http.Header{}
	sr := vRequest(context.Background(), "GET", r.URL.RawQuery, r.Header, nil)
	_, err := websocket.Accept(w, sr, nil)
	if err != nil {
		return nil, err
	}
	res := vResponse(w.status, a)
	res.Header = w.header
	return res, nil
}

var vTransportNames = []string{"WebSockets", "ServerSentEvents", "LongPolling"}

// vNegAnswer is the answer of a server which offers transports. It returns what starts the connection, too.
func vNegAnswer(version int, offer int) (string, string) {
	var t []string
	for i, n := range vTransportNames {
		if offer&(1<<i) != 0 {
			t = append(t, `{"transport":"`+n+`","transferFormats":["Text"]}`)
		}
	}
	list := `"availableTransports":[` + strings.Join(t, ",") + "]"
	if version == 1 {
		return `{"negotiateVersion":1,"connectionId":"id-1","connectionToken":"tok/+ =1",` + list + "}", "tok/+ =1"
	}
	return `{"connectionId":"id-1",` + list + "}", "id-1"
}

// ZHTTPConnect lets a client connect to servers of all kinds.
func ZHTTPConnect() {
	d := &vDoer{negStatus: 200, getStatus: 200, postState: 200, wsStatus: 101, stream: newVStreamBody()}
	version := vPick("version", 2)
	offer := vPick("offer", 8)
	var key string
	d.negotiate, key = vNegAnswer(version, offer)
	var options []func(*httpConnection) error
	allowed := 3
	headers := vPick("headers", 4) // none, some, always the same ones, nil
	ownHeaders := headers == 1 || headers == 2
	same := http.Header{"X-Key": {"secret"}}
	ask := vPick("ask", 3) // 2 is none
	order := vPick("order", 2)
	add := func(o func(*httpConnection) error) {
		if order == 0 {
			options = append(options, o)
		} else {
			options = append([]func(*httpConnection) error{o}, options...)
		}
	}
	asHTTP := vPick("client", 2) == 1
	if asHTTP {
		add(WithHTTPClient(&http.Client{Transport: d}))
	} else {
		vAssume(offer&1 == 0) // only an http.Client is used for WebSockets
		add(WithHTTPClient(d))
	}
	switch vPick("transports", 5) {
	case 1:
		allowed = 1
		add(WithTransports(TransportWebSockets))
	case 2:
		allowed = 2
		add(WithTransports(TransportServerSentEvents))
	case 3:
		add(WithTransports(TransportServerSentEvents, TransportWebSockets))
	case 4:
		add(WithTransports(TransportServerSentEvents, TransportType("LongPolling")))
		allowed = -1
	}
	switch headers {
	case 1:
		add(WithHTTPHeaders(func() http.Header { return http.Header{"X-Key": {"secret"}} }))
	case 2:
		add(WithHTTPHeaders(func() http.Header { return same }))
	case 3:
		add(WithHTTPHeaders(func() http.Header { return nil }))
	}
	add(nil)
	if ask < 2 {
		add(WithNegotiateVersion(ask))
	}
	fault := vPick("fault", 7)
	bad := false
	common := allowed & offer & 3
	switch fault {
	case 1:
		d.negStatus, bad = []int{404, 429, 500}[vPick("status", 3)], true
	case 2:
		d.negotiate, bad = d.negotiate[:len(d.negotiate)-1], true
	case 3: // events are refused
		vAssume(common == 2)
		d.getStatus, bad = []int{404, 409, 500}[vPick("status", 3)], true
	case 4:
		vAssume(common == 2)
		d.getErr, bad = errVOp, true
	case 5:
		vAssume(common&1 == 1)
		d.wsStatus, bad = []int{0, 403, 404}[vPick("status", 3)], true
	case 6:
		d.cookies = []string{"session=12; Path=/", "lb=a3"}
	}
	conn, err := NewHTTPConnection(context.Background(), "http://h/x?a=b", options...)
	vWait()
	if allowed == -1 {
		vAssert(err != nil && len(d.requests) == 0, "a transport which is not supported is accepted")
		vReach("invalid")
		vDone()
		return
	}
	if bad || common == 0 {
		vAssert(err != nil, "connecting succeeds although the server refuses it")
		vReach("refused")
	} else {
		vAssert(err == nil && conn != nil, "connecting fails")
		vAssert(conn.ConnectionID() == "id-1", "the id of a connection is not the negotiated one")
		vReach("connected")
	}
	for i, r := range d.requests {
		vAssert(r.URL.Query().Get("a") == "b", "the query of the address is lost")
		vAssert(r.Header.Get("X-Key") == map[bool]string{true: "secret"}[ownHeaders], "the headers of the client are not sent")
		if i == 0 {
			vAssert(r.Method == "POST" && r.URL.Path == "/x/negotiate" && r.URL.Host == "h", "the client does not negotiate")
			vAssert(r.URL.Query().Get("negotiateVersion") == []string{"0", "1", ""}[ask], "the client does not ask for the right version")
			continue
		}
		vAssert(i == 1 && r.Method == "GET" && r.URL.Path == "/x", "the client does not connect as negotiated")
		vAssert(r.URL.Query().Get("id") == key, "the client does not connect with what was negotiated")
		if common&1 == 1 {
			vAssert(strings.EqualFold(r.Header.Get("Upgrade"), "websocket"), "the client does not use WebSockets")
			vAssert(fault != 6 || vHasCookies(r), "a cookie is not sent")
			vReach("ws")
		} else {
			vAssert(r.Header.Get("Accept") == "text/event-stream" && r.Header.Get("Upgrade") == "", "the client does not ask for events")
			vReach("sse")
		}
	}
	if err == nil {
		vAssert(len(d.requests) == 2, "the client does not connect as negotiated")
		if common&1 == 0 {
			_, err = conn.Write([]byte("x"))
			vAssert(err == nil && len(d.requests) == 3, "writing fails")
			r := d.requests[2]
			vAssert(r.Method == "POST" && r.URL.Path == "/x" && r.URL.Query().Get("id") == key && d.bodies[2] == "x", "what is written is not sent to the connection")
			vAssert(r.URL.Query().Get("a") == "b", "the query of the address is lost")
			vAssert(r.Header.Get("X-Key") == map[bool]string{true: "secret"}[ownHeaders], "the headers of the client are not sent")
			vReach("posted")
		}
	}
	vAssert(len(same) == 1 && len(same["X-Key"]) == 1, "the headers of the client are changed")
	vReach("connect-end")
	vDone()
}

// ZHTTPFactory connects several times with the same options.
func ZHTTPFactory() {
	d := &vDoer{negStatus: 200, postState: 200}
	d.negotiate, _ = vNegAnswer(1, 3)
	kind := vPick("transports", 4)
	allowed := []int{3, 1, 2, 3}[kind]
	transports := []func(*httpConnection) error{nil, WithTransports(TransportWebSockets), WithTransports(TransportServerSentEvents), WithTransports(TransportServerSentEvents, TransportWebSockets)}[kind]
	pos := vPick("position", 3)
	same := http.Header{"X-Key": {"secret"}}
	others := []func(*httpConnection) error{WithHTTPClient(&http.Client{Transport: d}), WithHTTPHeaders(func() http.Header { return same })}
	options := []func(*httpConnection) error{}
	for i := 0; i <= len(others); i++ {
		if i == pos && transports != nil {
			options = append(options, transports)
		}
		if i < len(others) {
			options = append(options, others[i])
		}
	}
	if vPick("none", 2) == 1 {
		options = append(options, nil)
	}
	for k := 1; k <= vParam("rounds"); k++ {
		d.stream = newVStreamBody()
		d.requests = nil
		ws, sse := vPickN("ws", k, 2) == 0, vPickN("sse", k, 2) == 0
		d.wsStatus, d.getStatus = 404, 404
		if ws {
			d.wsStatus = 101
		}
		if sse {
			d.getStatus = 200
		}
		conn, err := HttpConnectionFactory(context.Background(), "http://h/x", options...)
		vWait()
		var want []string
		ok := false
		if allowed&1 != 0 {
			want = append(want, "POST", "WS")
			ok = ws
		}
		if !ok && allowed&2 != 0 {
			want = append(want, "POST", "GET")
			ok = sse
		}
		vAssert(ok == (err == nil) && ok == (conn != nil), "the connection is not made by a transport which works")
		var got []string
		for _, r := range d.requests {
			vAssert(r.Header.Get("X-Key") == "secret", "the headers of the client are not sent")
			vAssert(r.Method != "POST" || r.Header.Get("Accept") == "", "the headers of another request are sent")
			if r.Header.Get("Upgrade") != "" {
				got = append(got, "WS")
			} else {
				got = append(got, r.Method)
			}
		}
		vAssert(strings.Join(got, " ") == strings.Join(want, " "), "the transports are not tried as configured")
		if ok {
			vReach("connected")
		} else {
			vReach("refused")
		}
	}
	vReach("factory-end")
	vDone()
}

func vHasCookies(r *http.Request) bool {
	all := "; " + strings.Join(r.Header.Values("Cookie"), "; ") + ";"
	return strings.Contains(all, "; session=12;") && strings.Contains(all, "; lb=a3;")
}
