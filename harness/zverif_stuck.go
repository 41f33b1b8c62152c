package signalr

import (
	"fmt"
	"strings"
	"sync"
	"time"
)

// vLazy is what methods do which do not receive what is streamed to them.
var vLazy struct {
	mx    sync.Mutex
	after time.Duration // when they begin to receive
	never bool          // they return instead
	got   []int
	ended bool
	begun bool
}

func vLazyUp(in <-chan int) {
	vLazy.mx.Lock()
	vLazy.begun = true
	vLazy.mx.Unlock()
	time.Sleep(vLazy.after)
	if vLazy.never {
		return
	}
	for i := range in {
		vLazy.mx.Lock()
		vLazy.got = append(vLazy.got, i)
		vLazy.mx.Unlock()
	}
	vLazy.mx.Lock()
	vLazy.ended = true
	vLazy.mx.Unlock()
}

type vLazyHub struct{ vCallHub }

func (h *vLazyHub) Lazy(in <-chan int) { vLazyUp(in) }

type vLazyRecv struct{ vRecv }

func (r *vLazyRecv) Lazy(in <-chan int) { vLazyUp(in) }

// ZStuck streams items to a method which does not receive them, or late.
func ZStuck() {
	vCalm(true)
	side := vPick("side", 2)
	options := []func(Party) error{StreamBufferCapacity(1), ChanReceiveTimeout(500 * time.Millisecond), MaximumReceiveMessageSize(1000)}
	vLazy.after = []time.Duration{0, 300 * time.Millisecond, 1300 * time.Millisecond, time.Minute}[vPick("after", 4)]
	vLazy.never = vPick("never", 2) == 1
	items := vPick("items", 4) + 1
	end := vPick("end", 7)
	var send func(string)
	var p, q *vPeer
	var c *vCli
	if side == 0 {
		s := vServer(append(options, SimpleHubFactory(&vLazyHub{}))...)
		p, q = vOpen(s, "c"), vOpen(s, "d")
		send = p.msg
	} else {
		c = vClient(append(options, WithReceiver(&vLazyRecv{}))...).connect()
		send = c.msg
	}
	vCalm(false)
	send(`{"type":1,"invocationId":"7","target":"lazy","arguments":[],"streamIds":["1"]}`)
	for i := 1; i <= items; i++ {
		send(fmt.Sprintf(`{"type":2,"invocationId":"1","item":%d}`, i))
	}
	switch end {
	case 0:
		send(`{"type":3,"invocationId":"1"}`)
	case 1:
		send(`{"type":3,"invocationId":"1","error":"e"}`)
	case 2:
		send(`{"type":3,"invocationId":"1","result":9}`)
	case 3:
		send(`{"type":5,"invocationId":"1"}`)
	case 4:
		send(`{"type":7}`)
	case 5:
		if side == 0 {
			p.cancel()
		} else {
			c.cancel()
		}
	case 6:
		send(`{"type":1,"invocationId":"8","target":"lazy","arguments":[],"streamIds":["1"]}`)
	}
	time.Sleep(10 * time.Second)
	vWait()
	vCalm(true)
	vLazy.mx.Lock()
	last := 0
	for _, i := range vLazy.got {
		vAssert(i > last && (i <= items || end == 2 && i == 9), "a method receives items in another order or twice")
		last = i
	}
	if !vLazy.never && vLazy.after <= 300*time.Millisecond && end != 4 && end != 5 {
		vAssert(len(vLazy.got) >= items, "an item is lost although the method receives in time")
		if end == 0 {
			vAssert(len(vLazy.got) == items && vLazy.ended, "a method does not see the end of its stream")
		}
		vReach("received")
	}
	if vLazy.begun && !vLazy.never && vLazy.after <= 1300*time.Millisecond && (end == 4 || end == 5) {
		vAssert(vLazy.ended, "a method waits for items of a connection which has ended")
		vReach("cut")
	}
	vLazy.mx.Unlock()
	if side == 0 {
		if vAlive(p) {
			vAssert(end != 4 && end != 5, "a connection which has ended is alive")
			vReach("alive")
		} else {
			vAssert(end != 0 && end != 3, "an upload which is not received ends the connection")
			vReach("ended")
		}
		if !vAlive(q) {
			vFail("another connection is ended")
		}
	} else {
		time.Sleep(60 * time.Second)
		vWait()
		if c.client.State() != ClientClosed {
			c.recv()
			c.msg(`{"type":1,"invocationId":"alive","target":"twice","arguments":[4]}`)
			vWait()
			w := c.recv()
			vAssert(len(w) == 1 && w[0].ID == "alive" && w[0].Value == "8", "a client neither answers nor ends the connection")
			vReach("alive")
		} else {
			vAssert(end != 0 && end != 3, "an upload which is not received ends the connection")
			vReach("ended")
		}
	}
	vReach("stuck-end")
	vDone()
}

// ZPullStuck sends the items of a pulled stream to a client whose caller does not receive them, or late.
func ZPullStuck() {
	vCalm(true)
	after := []time.Duration{0, 300 * time.Millisecond, 1300 * time.Millisecond, -1}[vPick("after", 4)]
	items := vPick("items", 4) + 1
	end := vPick("end", 6)
	c := vClient(StreamBufferCapacity(1), ChanReceiveTimeout(500*time.Millisecond)).connect()
	vCalm(false)
	pull := c.client.PullStream("s")
	vWait()
	w := c.recv()
	vAssert(len(w) == 1 && w[0].Type == 4, "a stream is not pulled")
	id := w[0].ID
	var mx sync.Mutex
	var got []string
	closed := false
	if after >= 0 {
		go func() {
			time.Sleep(after)
			for r := range pull {
				mx.Lock()
				if r.Error != nil {
					got = append(got, "error")
				} else {
					got = append(got, fmt.Sprint(r.Value))
				}
				mx.Unlock()
			}
			mx.Lock()
			closed = true
			mx.Unlock()
		}()
	}
	for i := 1; i <= items; i++ {
		c.msg(fmt.Sprintf(`{"type":2,"invocationId":%q,"item":"%d"}`, id, i))
	}
	switch end {
	case 0:
		c.msg(fmt.Sprintf(`{"type":3,"invocationId":%q}`, id))
	case 1:
		c.msg(fmt.Sprintf(`{"type":3,"invocationId":%q,"error":"e"}`, id))
	case 2:
		c.msg(fmt.Sprintf(`{"type":3,"invocationId":%q,"result":9}`, id))
	case 3:
		c.msg(`{"type":7}`)
	case 4:
		c.cancel()
	}
	time.Sleep(10 * time.Second)
	vWait()
	vCalm(true)
	mx.Lock()
	last := ""
	for _, g := range got {
		vAssert(g == "error" || g == "9" || g > last, "a caller receives items in another order or twice")
		last = g
	}
	if after >= 0 && after <= 300*time.Millisecond && end < 2 {
		vAssert(closed, "a pulled stream which is completed does not end")
		vAssert(strings.HasPrefix(strings.Join(got, " ")+" ", "1 2 3 4 "[:2*items]), "an item is lost although the caller receives in time")
		vAssert(len(got) == items+end, "a pulled stream has other items than were sent")
		vReach("received")
	}
	if after >= 0 && end < 5 {
		vAssert(closed, "a pulled stream which has ended does not end for the caller")
	}
	mx.Unlock()
	time.Sleep(60 * time.Second)
	vWait()
	if c.client.State() != ClientClosed {
		vAssert(end != 3 && end != 4, "a client whose connection has ended is not closed")
		c.recv()
		c.msg(`{"type":1,"invocationId":"alive","target":"twice","arguments":[4]}`)
		vWait()
		w := c.recv()
		vAssert(len(w) == 1 && w[0].ID == "alive" && w[0].Value == "8", "a client neither answers nor ends the connection")
		vReach("alive")
	} else {
		vReach("ended")
	}
	vReach("stuck-end")
	vDone()
}
