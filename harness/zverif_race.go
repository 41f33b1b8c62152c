package signalr

import (
	"context"
	"fmt"
	"net"
	"sync"

	"github.com/cenkalti/backoff/v4"
)

// The harnesses of this file use the public API concurrently. They assert little: what they look for are unordered accesses
// to memory (parameter race=1) and calls which never return.

// ZRaceClient calls methods of a client concurrently, also while its connection is established, ends and is replaced.
func ZRaceClient() {
	d := &vDial{never: true}
	ctx, cancelClient := context.WithCancel(context.Background())
	defer cancelClient()
	c, err := NewClient(ctx, WithConnector(d.connect), WithBackoff(func() backoff.BackOff { return &vBackoff{max: 1} }), WithReceiver(&vRecv{}), Logger(vLog{}, false), vNoPings)
	vAssert(err == nil, "the client can not be created")
	phase := vPick("phase", 3) // created, waiting for the handshake, connected
	if phase > 0 {
		vCalm(true)
		c.Start()
		vWait()
		if phase == 2 {
			d.last().send("{}\x1e")
			vWait()
		}
		vCalm(false)
	}
	var wg sync.WaitGroup
	stopped := false
	for k := 0; k < vParam("calls"); k++ {
		var f func()
		switch kind := vPickN("kind", k, 13); kind {
		case 0:
			f = func() { c.State() }
		case 1:
			f = func() { _ = c.Err() }
		case 2:
			f = func() {
				w, cancel := context.WithCancel(context.Background())
				go cancel()
				<-c.WaitForState(w, ClientConnected)
			}
		case 3:
			f = func() {
				ch := make(chan ClientState)
				cancel := c.ObserveStateChanged(ch)
				go func() {
					for range ch {
					}
				}()
				cancel()
			}
		case 4:
			f = func() { c.Invoke("a", 1) }
		case 5:
			f = func() { c.Send("a", 1) }
		case 6:
			f = func() { c.PullStream("a", 1) }
		case 7:
			f = func() {
				up := make(chan int, 1)
				up <- 1
				close(up)
				c.PushStreams("a", up)
			}
		case 8:
			vAssume(phase > 0)
			f = func() { c.Stop() }
			stopped = true
		case 9:
			vAssume(phase > 0)
			f = func() { d.last().cancel() }
		case 10:
			vAssume(phase > 0)
			f = func() { d.last().send("{\"type\":1,\"target\":\"OnA\",\"arguments\":[1]}\x1e") }
		case 11:
			vAssume(phase == 0 && k == 0)
			f = func() { c.Start() }
		case 12:
			vAssume(phase > 0)
			f = func() { d.last().send("{\"type\":7,\"allowReconnect\":true}\x1e") }
		}
		wg.Add(1)
		go func() {
			f()
			wg.Done()
		}()
	}
	vWait()
	vCalm(true)
	if phase == 0 {
		vReach("created")
	}
	if stopped {
		vAssert(c.State() == ClientClosed, "a stopped client is not closed")
		vReach("stopped")
	}
	// a call while the client reconnects may wait for the connection
	cancelClient()
	vWait()
	vReach("race-end")
	vDone()
}

// vShared is a hub which all connections share.
type vShared struct{ Hub }

func (h *vShared) Do(kind int) string {
	switch kind {
	case 0:
		return h.ConnectionID()
	case 1:
		h.Items().Store("k", 1)
	case 2:
		v, ok := h.Items().Load("k")
		return fmt.Sprint(v, ok)
	case 3:
		_ = h.Context().Err()
	case 4:
		info, _ := h.Logger()
		_ = info.Log("a", 1)
	case 5:
		h.Clients().Caller().Send("x")
	case 6:
		h.Clients().All().Send("x")
	case 7:
		h.Groups().AddToGroup("g", h.ConnectionID())
	case 8:
		h.Groups().RemoveFromGroup("g", h.ConnectionID())
	case 9:
		h.Abort()
	case 10:
		_ = h.Close("enough", false)
	case 11:
		h.Clients().Group("g").Send("x")
	}
	return ""
}

// ZRaceHub lets two connections and the program use a server with one hub for all concurrently.
func ZRaceHub() {
	s := vServer(UseHub(&vShared{}))
	p, q := vOpen(s, "p"), vOpen(s, "q")
	for i, c := range []*vPeer{p, q} {
		k := vPickN("kind", i, 12)
		c.msg(fmt.Sprintf("{\"type\":1,\"invocationId\":\"1\",\"target\":\"do\",\"arguments\":[%d]}", k))
	}
	vCalm(false)
	switch vPick("main", 6) {
	case 1:
		go s.HubClients().All().Send("y")
	case 2:
		go s.HubClients().Client("p").Send("y")
	case 3:
		go q.cancel()
	case 4:
		go func() { vServe(s, "r") }()
	case 5:
		p.msg("{\"type\":1,\"invocationId\":\"2\",\"target\":\"do\",\"arguments\":[0]}")
	}
	vWait()
	vReach("race-end")
	vDone()
}

// ZRaceConn uses connections concurrently.
func ZRaceConn() {
	a, b := net.Pipe()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var c Connection
	c = NewNetConnection(ctx, a)
	base := NewConnectionBase(ctx, "x")
	if vPick("base", 2) == 1 {
		c = nil
	}
	go func() {
		buf := make([]byte, 10)
		for {
			if _, err := b.Read(buf); err != nil {
				return
			}
		}
	}()
	for k := 0; k < vParam("calls"); k++ {
		kind := vPickN("kind", k, 7)
		var conn ConnectionBaseAPI = base
		if c != nil {
			conn = c
		}
		go func() {
			switch kind {
			case 0:
				conn.SetConnectionID("y")
			case 1:
				conn.ConnectionID()
			case 2:
				_ = conn.Context().Err()
			case 3:
				cancel()
			case 4:
				if c != nil {
					_, _ = c.Write([]byte("abc"))
				}
			case 5:
				if c != nil {
					_, _ = c.Read(make([]byte, 3))
				}
			case 6:
				_, _ = b.Write([]byte("abc"))
			}
		}()
	}
	vWait()
	cancel()
	_ = a.Close()
	_ = b.Close()
	vWait()
	vReach("race-end")
	vDone()
}

// ConnectionBaseAPI is what all connections have.
type ConnectionBaseAPI interface {
	Context() context.Context
	ConnectionID() string
	SetConnectionID(id string)
}

// vFlaky is a hub whose callbacks may panic.
type vFlaky struct {
	Hub
	at int
}

func (h *vFlaky) OnConnected(string) {
	if h.at&1 != 0 {
		panic("connected")
	}
}

func (h *vFlaky) OnDisconnected(string) {
	if h.at&2 != 0 {
		panic("disconnected")
	}
}

// ZRaceLife connects and disconnects connections while callbacks of the hub panic.
func ZRaceLife() {
	at := [2]int{vPickN("panic", 0, 4), vPickN("panic", 1, 4)}
	kind := vPick("hub", 2)
	option := PerConnectionHubFactory(func(id string) HubInterface {
		if id == "p" {
			return &vFlaky{at: at[0]}
		}
		return &vFlaky{at: at[1]}
	})
	if kind == 1 {
		vAssume(at[1] == 0)
		option = SimpleHubFactory(&vFlakyAt{})
		vFlakyMode = at[0]
	}
	s := vServer(option)
	vCalm(true)
	for i, id := range []string{"p", "q"} {
		c := vServe(s, id)
		end := vPickN("end", i, 4)
		c.send(vHandshakeJSON + []string{"", "{\"type\":2,\"invocationId\":\"none\",\"item\":1}\x1e", "{\"type\":7}\x1e", ""}[end])
		if end == 3 {
			go c.cancel()
		}
	}
	vCalm(false)
	vWait()
	vCalm(true)
	vReach("race-end")
	vDone()
}

var vFlakyMode int

type vFlakyAt struct{ Hub }

func (h *vFlakyAt) OnConnected(string) {
	if vFlakyMode&1 != 0 {
		panic("connected")
	}
}

func (h *vFlakyAt) OnDisconnected(string) {
	if vFlakyMode&2 != 0 {
		panic("disconnected")
	}
}
