package signalr

import (
	"context"
	"errors"
	"strings"
	"sync"
	"time"
)

var errVClosed = errors.New("connection closed")

// vConn is a transport connection whose peer is the harness. Every Write is recorded as one unit.
type vConn struct {
	ctx     context.Context
	cancel  context.CancelFunc
	mx      sync.Mutex
	id      string
	in      chan []byte
	pending []byte
	out     [][]byte
	writes  int
	times   []time.Time   // of the Writes
	active  int           // Writes in progress
	overlap bool          // two Writes were in progress at once
	hold    chan struct{} // when not nil, Write blocks until it is closed or the connection is
	failAt  int           // the number of the Write that fails, 0 for none
	fin     bool          // the last bytes are read together with the error
	echo    string        // the peer's answer to a close message
}

func newVConn(parent context.Context, id string) *vConn {
	ctx, cancel := context.WithCancel(parent)
	return &vConn{ctx: ctx, cancel: cancel, id: id, in: make(chan []byte, 64)}
}

func (c *vConn) Context() context.Context  { return c.ctx }
func (c *vConn) ConnectionID() string      { return c.id }
func (c *vConn) SetConnectionID(id string) { c.id = id }
func (c *vConn) Read(p []byte) (int, error) {
	if len(c.pending) == 0 && len(c.in) > 0 { // what was received before the connection ended comes first
		c.pending = <-c.in
	}
	if len(c.pending) == 0 {
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, errVClosed
			}
			c.pending = b
		case <-c.ctx.Done():
			return 0, c.ctx.Err()
		}
	}
	n := copy(p, c.pending)
	c.pending = c.pending[n:]
	if c.fin && len(c.pending) == 0 && len(c.in) == 0 {
		return n, errVClosed
	}
	return n, nil
}

// finish lets reading fail after what was sent, or together with it. The context of the connection stays.
func (c *vConn) finish(with bool, last string) {
	if with {
		c.fin = true
	}
	if last != "" {
		c.send(last)
	}
	close(c.in)
}

func (c *vConn) Write(p []byte) (int, error) {
	if c.ctx.Err() != nil {
		return 0, c.ctx.Err()
	}
	c.mx.Lock()
	c.active++
	if c.active > 1 {
		c.overlap = true
	}
	h := c.hold
	c.mx.Unlock()
	if h != nil {
		select {
		case <-h:
		case <-c.ctx.Done():
		}
	}
	c.mx.Lock()
	defer c.mx.Unlock()
	c.active--
	if c.ctx.Err() != nil {
		return 0, c.ctx.Err()
	}
	c.writes++
	if c.writes == c.failAt {
		return 0, errVClosed
	}
	c.out = append(c.out, append([]byte(nil), p...))
	c.times = append(c.times, time.Now())
	if c.echo != "" && strings.HasPrefix(string(p), `{"type":7`) {
		c.send(c.echo)
	}
	return len(p), nil
}

func (c *vConn) send(s string) { c.in <- []byte(s) }

// written returns what has been written so far.
func (c *vConn) written() [][]byte {
	c.mx.Lock()
	defer c.mx.Unlock()
	return append([][]byte(nil), c.out...)
}

const vHandshakeJSON = "{\"protocol\":\"json\",\"version\":1}\x1e"

type vHub struct {
	Hub
}

func (h *vHub) Add(a, b int) int { return a + b }

func ZSmoke() {
	s, err := NewServer(context.Background(), SimpleHubFactory(&vHub{}), Logger(vLog{}, false))
	vAssert(err == nil, "server")
	c := newVConn(context.Background(), "c1")
	done := make(chan error, 1)
	go func() { done <- s.Serve(c) }()
	c.send(vHandshakeJSON)
	vWait()
	w := c.written()
	vObserve("n", len(w))
	for _, b := range w {
		vObserve("w", b)
	}
	vAssert(len(w) == 1 && string(w[0]) == "{}\x1e", "handshake response")
	c.send("{\"type\":1,\"invocationId\":\"1\",\"target\":\"add\",\"arguments\":[3,4]}\x1e")
	vWait()
	w = c.written()
	vAssert(len(w) == 2, "one answer")
	vObserve("answer", w[1])
	c.cancel()
	<-done
	vReach("smoke-end")
	vDone()
}
