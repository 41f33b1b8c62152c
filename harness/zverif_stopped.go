package signalr

import (
	"context"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
)

// vStopLog counts what is logged.
type vStopLog struct {
	mx sync.Mutex
	n  int
}

func (l *vStopLog) Log(...interface{}) error {
	l.mx.Lock()
	l.n++
	l.mx.Unlock()
	return nil
}

func (l *vStopLog) logged() int {
	l.mx.Lock()
	defer l.mx.Unlock()
	return l.n
}

// ZStopped stops a client while things happen.
func ZStopped() {
	vCalm(true)
	d := &vDial{never: true}
	l := &vStopLog{}
	ctx, cancelClient := context.WithCancel(context.Background())
	c, err := NewClient(ctx, WithConnector(d.connect), WithBackoff(func() backoff.BackOff { return &vBackoff{max: 9} }),
		WithReceiver(&vRecv{}), Logger(l, true), KeepAliveInterval(5*time.Second), TimeoutInterval(12*time.Second))
	vAssert(err == nil, "the client can not be created")
	c.Start()
	vWait()
	phase := vPick("phase", 3) // handshake, connected, backoff
	if phase > 0 {
		d.last().send("{}\x1e")
		vWait()
		vAssert(c.State() == ClientConnected, "the client is not connected after the handshake")
	}
	if phase == 2 {
		d.last().cancel()
		vWait()
		vAssert(c.State() == ClientConnecting, "the client does not reconnect")
	}
	conn := d.last()
	if phase == 1 && vPick("echo", 2) == 1 {
		conn.echo = "{\"type\":7}\x1e"
	}
	// Stop when the ping, the timeout or the next dial is due, or before
	var after time.Duration
	if vPick("due", 2) == 1 {
		after = []time.Duration{15 * time.Second, 5 * time.Second, time.Second}[phase]
		if phase == 1 && vPick("late", 2) == 1 {
			conn.send("{\"type\":6}\x1e")
			after = 12 * time.Second
		}
	}
	if after > 0 {
		time.Sleep(after - 1)
		vWait()
		after = 1
	}
	how := vPick("how", 2)
	vCalm(false)
	stopped := make(chan struct{})
	logged, dials := 0, 0
	go func() {
		time.Sleep(after)
		if how == 1 {
			cancelClient()
		}
		c.Stop()
		logged = l.logged()
		dials = len(d.conns)
		close(stopped)
	}()
	if phase == 1 {
		for k := 0; k < vParam("msgs"); k++ {
			switch vPickN("msg", k, 7) {
			case 1:
				conn.send("{\"type\":6}\x1e")
			case 2:
				conn.send("{\"type\":6}\x1e{\"type\":6}\x1e{\"ty")
			case 3:
				conn.send("nonsense\x1e")
			case 4:
				conn.send("{\"type\":7,\"error\":\"told\"}\x1e")
			case 5:
				conn.send(vInvocation(3, "7", "", "", ""))
			case 6:
				go func() {
					time.Sleep(after)
					conn.cancel()
				}()
			}
		}
	} else if phase == 0 && vPick("shake", 2) == 1 {
		conn.send("{}\x1e{\"type\":6}\x1e")
	}
	<-stopped
	vWait()
	vCalm(true)
	vStateIs(c, ClientClosed, "a stopped client is not closed")
	time.Sleep(30 * time.Second)
	vWait()
	vAssert(l.logged() == logged, "a client logs after it was stopped")
	vAssert(len(d.conns) == dials, "a client connects after it was stopped")
	vStateIs(c, ClientClosed, "a stopped client is not closed")
	vReach([]string{"handshake", "connected", "backoff"}[phase])
	vReach("stopped-end")
	vDone()
}
