package signalr

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
)

// vDial is the connector of a client.
type vDial struct {
	mx     sync.Mutex
	conns  []*vConn
	dials  int
	at     time.Time
	failed bool // the last dial failed
	never  bool // dials never fail
	writes int  // of the connections before the last one
	err    bool // something was written to a connection after the next dial
}

func (d *vDial) connect() (Connection, error) {
	d.mx.Lock()
	defer d.mx.Unlock()
	d.dials++
	d.at = time.Now()
	d.failed = !d.never && vPick(fmt.Sprintf("dial%d", d.dials-1), 2) == 1
	d.writes = d.old(len(d.conns))
	if d.failed {
		return nil, errVClosed
	}
	c := newVConn(context.Background(), fmt.Sprint(d.dials))
	d.conns = append(d.conns, c)
	return c, nil
}

// old counts the writes to the first n connections.
func (d *vDial) old(n int) (w int) {
	for _, c := range d.conns[:n] {
		w += len(c.written())
	}
	return w
}

func (d *vDial) last() *vConn { return d.conns[len(d.conns)-1] }

// vBackoff waits one second between attempts and gives up after max.
type vBackoff struct{ n, max int }

func (b *vBackoff) Reset() { b.n = 0 }
func (b *vBackoff) NextBackOff() time.Duration {
	b.n++
	if b.n > b.max {
		return backoff.Stop
	}
	return time.Second
}

// vStateObs collects the states a client announces.
type vStateObs struct {
	mx     sync.Mutex
	states []ClientState
	closed bool
}

func vObserveStates(c Client) (*vStateObs, func()) {
	o := &vStateObs{}
	ch := make(chan ClientState)
	cancel := c.ObserveStateChanged(ch)
	go func() {
		for s := range ch {
			o.mx.Lock()
			if n := len(o.states); n == 0 || o.states[n-1] != s {
				o.states = append(o.states, s)
			}
			o.mx.Unlock()
		}
		o.mx.Lock()
		o.closed = true
		o.mx.Unlock()
	}()
	return o, cancel
}

// vStateIs asserts that the state can be asked for without waiting.
func vStateIs(c Client, s ClientState, what string) {
	t := time.Now()
	got := c.State()
	vAssert(time.Since(t) == 0, "asking for the state takes time")
	vAssert(got == s, what)
}

const (
	vPhHandshake = iota
	vPhConnected
	vPhBackoff
	vPhClosed
)

// ZReconnect lets the connections of a client with a connector fail in any ways.
func ZReconnect() {
	d := &vDial{}
	max := 1 + vPick("backoffs", 2)
	ctx, cancelClient := context.WithCancel(context.Background())
	c, err := NewClient(ctx, WithConnector(d.connect), WithBackoff(func() backoff.BackOff { return &vBackoff{max: max} }), Logger(vLog{}, false), vNoPings)
	vAssert(err == nil, "the client can not be created")
	vStateIs(c, ClientCreated, "a client which was not started is not in state created")
	vAssert(<-c.WaitForState(context.Background(), ClientConnected) != nil, "waiting for a client which was not started is no error")
	obs, cancelObs := vObserveStates(c)
	unread := make(chan ClientState)
	cancelUnread := c.ObserveStateChanged(unread)
	states := []ClientState{ClientConnecting}
	phase, dials, tries := 0, 0, 0
	stopped, transient, calm := false, false, false
	failWith := ""
	enter := func(s ClientState) {
		if states[len(states)-1] != s {
			states = append(states, s)
		}
	}
	lost := func() {
		if phase == vPhConnected {
			tries = 0
		}
		tries++
		if tries > max {
			phase = vPhClosed
			failWith = "backoff exceeded"
			enter(ClientClosed)
			vReach("gave-up")
			return
		}
		phase = vPhBackoff
		enter(ClientConnecting)
	}
	dialed := func() {
		dials++
		enter(ClientConnecting)
		if d.failed {
			phase = vPhHandshake
			lost()
		} else {
			phase = vPhHandshake
		}
	}
	end := func(how int) {
		if how == 0 {
			done := make(chan struct{})
			go func() {
				c.Stop()
				close(done)
			}()
			vWait()
			select {
			case <-done:
			default:
				vFail("Stop does not return")
			}
		} else {
			cancelClient()
		}
		stopped = true
		phase = vPhClosed
		enter(ClientClosed)
		vReach("stopped")
	}
	check := func() {
		vWait()
		vCalm(true)
		defer vCalm(calm)
		want := []ClientState{ClientConnecting, ClientConnected, ClientConnecting, ClientClosed}[phase]
		vStateIs(c, want, "the state of the client is not that of its connection")
		vAssert(d.dials == dials, "the client does not connect exactly when it has to")
		if len(d.conns) > 1 {
			vAssert(d.old(len(d.conns)-1) == d.writes || d.failed, "a client writes to an old connection")
		}
		if phase == vPhClosed {
			vAssert(failWith == "" && !stopped || c.Err() != nil, "a closed client has no error")
			vAssert(failWith == "" || c.Err().Error() == failWith, "a closed client has not the error which ended its connection")
		}
		// a waiter whose context ends is released
		wctx, wcancel := context.WithCancel(context.Background())
		w := c.WaitForState(wctx, ClientConnected)
		wcancel()
		vWait()
		select {
		case err := <-w:
			vAssert((err == nil) == (want == ClientConnected), "waiting for a state does not end with the right result")
		default:
			vFail("a waiter is not released when its context ends")
		}
	}
	c.Start()
	first := c.WaitForState(context.Background(), ClientConnected)
	vWait()
	dialed()
	check()
	restarted := false
	for k := 0; k < vParam("events") && (phase != vPhClosed || !stopped && !restarted); k++ {
		switch phase {
		case vPhClosed:
			c.Start()
			vWait()
			restarted = true
			failWith = ""
			tries = 0
			dialed()
			vReach("restarted")
		case vPhHandshake:
			switch vPick(fmt.Sprintf("event%d", k), 9) {
			case 7: // the connection ends as soon as it is established
				d.last().send("{}\x1e{\"type\":7}\x1e")
				enter(ClientConnected)
				enter(ClientClosed)
				phase = vPhClosed
				transient = true
			case 8:
				d.last().send("{}\x1e{\"type\":7,\"allowReconnect\":true}\x1e")
				enter(ClientConnected)
				phase = vPhConnected
				lost()
				transient = true
			case 0:
				d.last().send("{}\x1e")
				phase = vPhConnected
				enter(ClientConnected)
			case 1:
				d.last().send("{\"error\":\"no\"}\x1e")
				lost()
			case 2:
				d.last().send("x\x1e")
				lost()
			case 3:
				d.last().cancel()
				lost()
			case 4:
				time.Sleep(time.Until(d.at.Add(15500 * time.Millisecond)))
				lost()
				vReach("timeout")
			case 5:
				end(0)
			case 6:
				end(1)
			}
		case vPhConnected:
			switch ev := vPick(fmt.Sprintf("event%d", k), 8); ev {
			case 0:
				d.last().cancel()
				lost()
			case 1, 2, 3, 4:
				s := "{\"type\":7"
				if ev&1 == 1 {
					s += ",\"error\":\"told\""
				}
				if ev > 2 {
					s += ",\"allowReconnect\":true"
				}
				d.last().send(s + "}\x1e")
				if ev > 2 {
					lost()
				} else {
					phase = vPhClosed
					enter(ClientClosed)
					if ev == 1 {
						failWith = "told"
					}
					vReach("forbidden")
				}
			case 5:
				d.last().send("{\"type\":9}\x1e")
				lost()
			case 6:
				end(0)
			case 7:
				end(1)
			}
		case vPhBackoff:
			switch vPick(fmt.Sprintf("event%d", k), 3) {
			case 0:
				time.Sleep(1200 * time.Millisecond)
				vWait()
				dialed()
			case 1:
				end(0)
			case 2:
				end(1)
			}
		}
		check()
	}
	calm = true
	vCalm(true)
	if phase != vPhClosed && vChoose("last", 2) == 1 {
		// from here on nothing fails anymore: the client has to connect and to work
		d.never = true
		if phase == vPhBackoff {
			time.Sleep(1200 * time.Millisecond)
			vWait()
			dialed()
		}
		if phase == vPhHandshake {
			d.last().send("{}\x1e")
			phase = vPhConnected
			enter(ClientConnected)
		}
		check()
		n := len(d.last().written())
		res := vCollect(c.Invoke("m"))
		vWait()
		w := d.last().written()
		vAssert(len(w) == n+1, "an invocation is not sent over the new connection")
		d.last().send(fmt.Sprintf("{\"type\":3,\"invocationId\":%q,\"result\":4}\x1e", vParseWire(w[n]).ID))
		vWait()
		order, closed := res.get()
		vAssert(order == "v" && closed, "an invocation over the new connection is not answered")
		vReach("works")
	}
	if phase != vPhClosed {
		end(vChoose("stop", 2))
		check()
	}
	// closed it stays
	time.Sleep(100 * time.Second)
	check()
	select {
	case err := <-first:
		connected := false
		for _, s := range states {
			if s == ClientClosed {
				break
			}
			connected = connected || s == ClientConnected
		}
		vAssert((err == nil) == connected || connected && transient, "waiting for the connection does not end with the right result")
	default:
		vFail("a waiter waits forever")
	}
	cancelObs()
	cancelUnread()
	vWait()
	vAssert(obs.closed, "the end of an observation does not close the channel")
	vAssert(len(obs.states) == len(states), "an observer does not see exactly the states of the client")
	for i := range states {
		vAssert(obs.states[i] == states[i], "an observer does not see the states of the client in order")
	}
	for n := 0; ; n++ {
		vAssert(n < 50, "a channel yields states forever")
		if _, ok := <-unread; !ok {
			break
		}
	}
	vReach("reconnect-end")
	vDone()
}

// ZFixed lets the connection of a client without connector end in any way.
func ZFixed() {
	c := vClient()
	obs, cancelObs := vObserveStates(c.client)
	c.client.Start()
	closed := c.client.WaitForState(context.Background(), ClientClosed)
	first := c.client.WaitForState(context.Background(), ClientConnected)
	vWait()
	connected := false
	failWith := ""
	stopped := false
	hs := vPick("handshake", 8)
	switch hs {
	case 0:
		c.send("{}\x1e")
		connected = true
	case 1:
		c.send("{\"error\":\"no\"}\x1e")
		failWith = "no"
	case 2:
		c.send("x\x1e")
	case 3:
		c.cancel()
	case 4:
		time.Sleep(15500 * time.Millisecond)
	case 5:
		go c.client.Stop()
		stopped = true
	case 6:
		c.send("{}\x1e{\"type\":7,\"allowReconnect\":true}\x1e")
	case 7: // Stop races with the handshake
		c.send("{}\x1e")
		go c.client.Stop()
		stopped = true
	}
	vWait()
	if connected {
		vStateIs(c.client, ClientConnected, "a client is not connected after the handshake")
		switch ev := vPick("event", 8); ev {
		case 0:
			c.cancel()
		case 1, 2, 3, 4:
			s := "{\"type\":7"
			if ev&1 == 1 {
				s += ",\"error\":\"told\""
				failWith = "told"
			}
			if ev > 2 {
				s += ",\"allowReconnect\":true"
			}
			c.msg(s + "}")
		case 5:
			c.msg("{\"type\":9}")
		case 6:
			go c.client.Stop()
			stopped = true
		case 7: // Stop races with the loss of the connection
			c.cancel()
			go c.client.Stop()
			stopped = true
		}
		vWait()
	}
	vCalm(true)
	vStateIs(c.client, ClientClosed, "a client whose connection has ended is not closed")
	vAssert(failWith == "" || c.client.Err() != nil && c.client.Err().Error() == failWith, "a closed client has not the error which ended its connection")
	vAssert(!stopped || c.client.Err() != nil, "a stopped client has no error")
	n := len(c.written())
	time.Sleep(100 * time.Second)
	vWait()
	vStateIs(c.client, ClientClosed, "a closed client does not stay closed")
	vAssert(len(c.written()) == n, "a client writes to a connection which has ended")
	select {
	case err := <-closed:
		vAssert(err == nil || stopped, "waiting for the end yields an error")
	default:
		vFail("a waiter waits forever")
	}
	select {
	case err := <-first:
		vAssert((err == nil) == connected || hs >= 6, "waiting for the connection does not end with the right result")
	default:
		vFail("a waiter waits forever")
	}
	res := vCollect(c.client.Invoke("m"))
	vWait()
	order, cl := res.get()
	vAssert(order == "e" && cl, "an invocation of a closed client is no error")
	cancelObs()
	vWait()
	vAssert(obs.closed, "the end of an observation does not close the channel")
	want := []ClientState{ClientConnecting, ClientConnected, ClientClosed}
	if !connected && (hs < 6 || hs == 7 && len(obs.states) == 2) {
		want = []ClientState{ClientConnecting, ClientClosed}
	}
	vAssert(len(obs.states) == len(want), "an observer does not see exactly the states of the client")
	for i := range want {
		vAssert(obs.states[i] == want[i], "an observer does not see the states of the client in order")
	}
	// started again it has no connection
	if !stopped && connected {
		c.client.Start()
		vWait()
		vStateIs(c.client, ClientClosed, "a client without connection is not closed")
		vAssert(c.client.Err() != nil, "a client without connection has no error")
		vReach("no-connection")
	}
	vReach("fixed-end")
	vDone()
}

// ZWaitState waits for states of a client which reaches or leaves them at the same time.
func ZWaitState() {
	c := vClient()
	c.send("{}\x1e") // the answer of the handshake is on its way
	end := vPick("end", 5)
	if end == 2 {
		c.msg("{\"type\":7}")
	}
	c.client.Start()
	switch end {
	case 1:
		go c.cancel()
	case 3:
		go c.client.Stop()
	}
	ctx, cancel := context.WithCancel(context.Background())
	connected := c.client.WaitForState(ctx, ClientConnected)
	closed := c.client.WaitForState(ctx, ClientClosed)
	if end == 4 {
		cancel()
	}
	vWait()
	vCalm(true)
	over := func(w <-chan error) (bool, error) {
		select {
		case err := <-w:
			return true, err
		default:
			return false, nil
		}
	}
	ok1, err1 := over(connected)
	ok2, err2 := over(closed)
	vAssert(ok1, "a waiter waits forever for the connection")
	switch end {
	case 0, 4:
		vStateIs(c.client, ClientConnected, "a client is not connected after the handshake")
		vAssert(err1 == nil || end == 4, "waiting for a connected client is an error")
		vAssert(ok2 == (end == 4) && (err2 != nil) == ok2, "a waiter does not wait until the client is closed")
		cancel()
		vWait()
		if end == 0 {
			ok2, err2 = over(closed)
			vAssert(ok2 && err2 != nil, "a waiter waits longer than its context")
			vReach("connected")
		}
	default:
		vStateIs(c.client, ClientClosed, "a client whose connection has ended is not closed")
		vAssert(ok2 && (err2 == nil || end == 3), "a waiter does not see that the client is closed")
		vReach("closed")
	}
	cancel()
	vReach("wait-end")
	vDone()
}

// closeAll ends all connections, as their transports do when they are closed.
func (d *vDial) closeAll() {
	d.mx.Lock()
	defer d.mx.Unlock()
	for _, c := range d.conns {
		c.cancel()
	}
}
