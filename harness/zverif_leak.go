package signalr

import (
	"context"
	"runtime"
	"time"

	"github.com/cenkalti/backoff/v4"
)

// ZLeak opens connections to a server, uses them and ends them: nothing of them may be left running.
func ZLeak() {
	vCalm(true)
	vLazy.after = 0
	vLazy.never = false
	s := vServer(SimpleHubFactory(&vLazyHub{}), StreamBufferCapacity(1), ChanReceiveTimeout(time.Second), TimeoutInterval(30*time.Second), MaximumReceiveMessageSize(2000))
	vWait()
	before := runtime.NumGoroutine()
	p := vOpen(s, "p")
	sources := map[string]bool{}
	vCalm(false)
	n := vParam("msgs")
	for k := 0; k < n; k++ {
		switch vPickN("use", k, 11) {
		case 1:
			p.msg(vInvocation(1, "1", "Add", "[1,2]", ""))
		case 2:
			p.msg(vInvocation(4, "2", "Words", `["a"]`, ""))
			sources["a"] = true
			vSrcS("a") <- "x"
		case 3:
			p.msg(vInvocation(1, "3", "Words", `["b"]`, ""))
			sources["b"] = true
		case 4:
			// an upload which is completed
			p.msg(vInvocation(1, "4", "Lazy", "[]", `["4"]`))
			p.msg(`{"type":2,"invocationId":"4","item":1}`)
			p.msg(`{"type":3,"invocationId":"4"}`)
		case 5:
			// an upload the method is late for, its items time out
			vLazy.after = 5 * time.Second
			p.msg(vInvocation(1, "5", "Lazy", "[]", `["5"]`))
			p.msg(`{"type":2,"invocationId":"5","item":1}`)
			p.msg(`{"type":2,"invocationId":"5","item":2}`)
			p.msg(`{"type":3,"invocationId":"5"}`)
		case 6:
			// an upload the method does not receive
			vLazy.never = true
			p.msg(vInvocation(1, "6", "Lazy", "[]", `["6"]`))
			p.msg(`{"type":2,"invocationId":"6","item":1}`)
			p.msg(`{"type":2,"invocationId":"6","item":2}`)
			p.msg(`{"type":3,"invocationId":"6"}`)
		case 7:
			p.msg(vInvocation(4, "7", "Items", "[3]", ""))
			p.msg(`{"type":5,"invocationId":"7"}`)
		case 8:
			p.msg(vInvocation(1, "8", "Fail", "[0]", ""))
		case 9:
			s.HubClients().All().Send("hello", 1)
		case 10:
			p.failAt = len(p.written()) + 1
			s.HubClients().All().Send("hello", 1)
		}
	}
	if vPick("settle", 2) == 1 {
		vWait()
	}
	end := vPick("end", 6)
	switch end {
	case 0:
		p.cancel()
	case 1:
		p.msg(`{"type":7}`)
	case 2:
		p.msg(`{"type":2,"invocationId":"none","item":1}`)
	case 3:
		p.msg(vInvocation(1, "", "Quit", "[]", ""))
	case 4:
		// silence
		time.Sleep(time.Minute)
	case 5:
		p.msg("no message")
	}
	time.Sleep(10 * time.Second)
	vWait()
	vCalm(true)
	if vAlive(p) {
		vAssert(false, "a connection which has ended is alive")
	}
	// the embedding program closes its transport, the methods close their channels
	p.cancel()
	for name := range sources {
		close(vSrcS(name))
	}
	time.Sleep(time.Minute)
	vWait()
	vObserve("left", runtime.NumGoroutine()-before)
	vAssert(runtime.NumGoroutine() <= before, "goroutines of a connection which has ended are left")
	vReach("leak-end")
	vDone()
}

// ZLeakClient starts clients, uses and stops them: nothing of them may be left running.
func ZLeakClient() {
	vCalm(true)
	vLazy.after = 0
	vLazy.never = false
	before := runtime.NumGoroutine()
	d := &vDial{never: true}
	ctx, cancelClient := context.WithCancel(context.Background())
	max := vPick("retries", 2)
	c, err := NewClient(ctx, WithConnector(d.connect), WithBackoff(func() backoff.BackOff { return &vBackoff{max: max} }),
		WithReceiver(&vLazyRecv{}), Logger(vLog{}, false), StreamBufferCapacity(1), ChanReceiveTimeout(time.Second), vNoPings)
	vAssert(err == nil, "the client can not be created")
	var cancels []context.CancelFunc
	if vPick("observe", 2) == 1 {
		ch := make(chan ClientState)
		cancels = append(cancels, c.ObserveStateChanged(ch))
		if vPick("observer", 2) == 1 {
			go func() {
				for range ch {
				}
			}()
		}
	}
	c.Start()
	vWait()
	shake := vPick("shake", 3) // none, refused, accepted
	switch shake {
	case 1:
		d.last().send("{\"error\":\"no\"}\x1e")
	case 2:
		d.last().send("{}\x1e")
	}
	vWait()
	vCalm(false)
	var sources []chan int
	if shake == 2 {
		send := func(m string) { d.last().send(m + "\x1e") }
		for k := 0; k < vParam("msgs"); k++ {
			switch vPickN("use", k, 11) {
			case 1:
				vCollect(c.Invoke("a", 1))
			case 2:
				vCollectErr(c.Send("a", 1))
			case 3:
				vCollect(c.PullStream("a", 1))
				send(`{"type":2,"invocationId":"1","item":1}`)
			case 4:
				up := make(chan int)
				sources = append(sources, up)
				vCollect(c.PushStreams("a", up))
			case 5:
				up := make(chan int, 2)
				up <- 1
				up <- 2
				close(up)
				vCollect(c.PushStreams("a", up))
			case 6:
				vCollectErr(c.WaitForState(ctx, ClientCreated))
			case 7:
				send(vInvocation(1, "4", "Lazy", "[]", `["4"]`))
				send(`{"type":2,"invocationId":"4","item":1}`)
				send(`{"type":3,"invocationId":"4"}`)
			case 8:
				vLazy.never = true
				send(vInvocation(1, "6", "Lazy", "[]", `["6"]`))
				send(`{"type":2,"invocationId":"6","item":1}`)
				send(`{"type":2,"invocationId":"6","item":2}`)
				send(`{"type":3,"invocationId":"6"}`)
			case 9:
				w, cancel := context.WithTimeout(context.Background(), time.Second)
				cancels = append(cancels, cancel)
				vCollectErr(c.WaitForState(w, ClientClosed))
			case 10:
				// nobody receives the answer
				c.Invoke("a", 1)
				send(`{"type":3,"invocationId":"1","result":1}`)
			}
		}
		if vPick("settle", 2) == 1 {
			vWait()
		}
	}
	switch vPick("end", 5) {
	case 0:
		go c.Stop()
	case 1:
		cancelClient()
	case 2:
		d.last().cancel()
	case 3:
		d.last().send("{\"type\":7}\x1e")
	case 4:
		d.last().send("{\"type\":7,\"allowReconnect\":true}\x1e")
	}
	time.Sleep(10 * time.Second)
	vWait()
	vCalm(true)
	c.Stop()
	cancelClient()
	for _, f := range cancels {
		f()
	}
	for _, up := range sources {
		close(up)
	}
	d.closeAll()
	time.Sleep(time.Minute)
	vWait()
	vObserve("left", runtime.NumGoroutine()-before)
	vAssert(runtime.NumGoroutine() <= before, "goroutines of a client which was stopped are left")
	vReach("leak-end")
	vDone()
}

// ZLeakWeb lets requests come to a server which start connections, use them and end them: nothing of them may be left running.
func ZLeakWeb() {
	vCalm(true)
	h := vWebServer(MaximumReceiveMessageSize(200), HandshakeTimeout(2*time.Second))
	time.Sleep(5 * time.Second)
	vWait()
	before := runtime.NumGoroutine()
	n := h.negotiate(0)
	vWait()
	l := n.link(0, nil)
	ctx, cancel := context.WithCancel(context.Background())
	kind := vPick("kind", 4)
	vCalm(false)
	switch kind {
	case 0:
		l.get = h.sse(ctx, l.key)
	case 1:
		l.ws = true
		l.sock = h.webSocket(ctx, l.key)
	case 2:
		h.sse(ctx, "unknown")
	}
	var posts []*vWriter
	for k := 0; k < vParam("ops"); k++ {
		switch vPickN("op", k, 7) {
		case 1:
			if l.ws {
				l.sock.sendFrame(vHandshakeJSON)
			} else {
				posts = append(posts, h.post(l.key, vHandshakeJSON))
			}
		case 2:
			if l.ws {
				l.sock.sendFrame(vNote(1))
			} else {
				posts = append(posts, h.post(l.key, vNote(1)))
			}
		case 3:
			if l.ws {
				l.sock.sendFrame(string(make([]byte, 300)))
			} else {
				posts = append(posts, h.post(l.key, string(make([]byte, 300))))
			}
		case 4:
			posts = append(posts, h.post("unknown", vHandshakeJSON))
		case 5:
			h.s.HubClients().All().Send("x", 1)
		case 6:
			vWait()
		}
	}
	switch vPick("end", 3) {
	case 0:
		cancel()
		if l.ws {
			_ = l.sock.conn.Close()
		}
	case 1:
		if l.ws {
			l.sock.sendFrame("{\"type\":7}\x1e")
		} else {
			posts = append(posts, h.post(l.key, "{\"type\":7}\x1e"))
		}
	case 2:
		// silence
	}
	time.Sleep(30 * time.Minute)
	vWait()
	vCalm(true)
	for _, p := range posts {
		_, done := p.ended()
		vAssert(done, "a POST is never answered")
	}
	// the HTTP server ends the contexts of the requests which were answered
	cancel()
	time.Sleep(time.Minute)
	vWait()
	if l.get != nil {
		_, done := l.get.ended()
		vAssert(done, "the request for events of a connection which has ended is not answered")
		vReach("events")
	}
	if l.ws {
		_, done := l.sock.ended()
		vAssert(done, "the request of a WebSocket which has ended is not answered")
		vReach("websocket")
	}
	vObserve("left", runtime.NumGoroutine()-before)
	vAssert(runtime.NumGoroutine() <= before, "goroutines of a connection which has ended are left")
	vReach("leak-end")
	vDone()
}
