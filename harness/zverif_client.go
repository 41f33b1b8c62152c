package signalr

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"
)

// vRecv is the receiver of the clients of the harnesses.
type vRecv struct {
	Receiver
}

func (r *vRecv) OnA(i int) { vCall("OnA %d", i) }

func (r *vRecv) Twice(i int) int {
	vCall("Twice %d", i)
	return 2 * i
}

func (r *vRecv) OnUp(in <-chan int) {
	vCall("OnUp")
	for i := range in {
		vCall("item %d", i)
	}
	vCall("up end")
}

func (r *vRecv) Boom() { panic("told so") }

// vCli is a client whose server is the harness.
type vCli struct {
	*vConn
	client Client
	seen   int
}

// vClient creates a client with a fixed connection.
func vClient(options ...func(Party) error) *vCli {
	c := &vCli{vConn: newVConn(context.Background(), "c")}
	cl, err := NewClient(context.Background(), append([]func(Party) error{WithConnection(c.vConn), Logger(vLog{}, false), WithReceiver(&vRecv{}), vNoPings}, options...)...)
	vAssert(err == nil, "the client can not be created")
	c.client = cl
	return c
}

// connect starts the client and does the handshake.
func (c *vCli) connect() *vCli {
	vCalm(true)
	defer vCalm(false)
	c.client.Start()
	vWait()
	w := c.written()
	vAssert(len(w) == 1 && string(w[0]) == vHandshakeJSON, "the client does not send the handshake request")
	c.seen = 1
	c.send("{}\x1e")
	vWait()
	vAssert(c.client.State() == ClientConnected, "the client is not connected after the handshake")
	return c
}

func (c *vCli) recv() []vWire {
	all := c.written()
	var res []vWire
	for ; c.seen < len(all); c.seen++ {
		res = append(res, vParseWire(all[c.seen]))
	}
	return res
}

func (c *vCli) msg(s string) { c.send(s + "\x1e") }

var vPeerMsgs = []string{
	`{"type":1,"invocationId":"7","target":"Up","arguments":[],"streamIds":["1"]}`,
	`{"type":1,"invocationId":"7","target":"Up","arguments":[]}`,
	`{"type":1,"invocationId":"7","target":"Add","arguments":[1],"streamIds":["1"]}`,
	`{"type":1,"target":"Add","arguments":[],"streamIds":["1","2"]}`,
	`{"type":1,"invocationId":"8","target":"Up2","arguments":["x"],"streamIds":["1","2"]}`,
	`{"type":1,"invocationId":"8","target":"Up2","arguments":["x"],"streamIds":["2","2"]}`,
	`{"type":1,"invocationId":"8","target":"Up2","arguments":["x","y"],"streamIds":["2"]}`,
	`{"type":1,"invocationId":"8","target":"None","arguments":[],"streamIds":["2"]}`,
	`{"type":1,"invocationId":"8","target":"Give","arguments":[1]}`,
	`{"type":1,"invocationId":"8","target":"Give","arguments":[],"streamIds":["1"]}`,
	`{"type":2,"invocationId":"1","item":5}`,
	`{"type":2,"invocationId":"1","item":"s"}`,
	`{"type":2,"invocationId":"1"}`,
	`{"type":2,"invocationId":"2","item":5}`,
	`{"type":3,"invocationId":"1"}`,
	`{"type":3,"invocationId":"1","result":5}`,
	`{"type":3,"invocationId":"1","result":"s"}`,
	`{"type":3,"invocationId":"1","error":"e"}`,
	`{"type":3,"invocationId":"9","result":1}`,
	`{"type":3}`,
	`{"type":5,"invocationId":"1"}`,
	`{"type":5}`,
	`{"type":4,"invocationId":"1","target":"Stream","arguments":["a"]}`,
	`{"type":4,"invocationId":"1","target":"Items","arguments":[2]}`,
	`{"type":4,"target":"Items","arguments":[2]}`,
	`{"type":1,"invocationId":"1","target":"Items","arguments":[0]}`,
	`{"type":1,"invocationId":"1","target":"Fail","arguments":[1]}`,
	`{"type":4,"target":"FailVoid","arguments":[]}`,
	`{"type":6}`,
	`{"type":7}`,
	`{"type":7,"error":"e","allowReconnect":true}`,
	`{"type":8}`,
	`{"type":0}`,
	`{"protocol":"json","version":1}`,
	`[]`,
}

// vAlive says whether a connection to a vCallHub still answers.
func vAlive(p *vPeer) bool {
	for n := 0; n < 40; n++ {
		if p.closed() {
			return false
		}
		p.msg(`{"type":1,"invocationId":"alive","target":"None","arguments":[]}`)
		time.Sleep(time.Second)
		vWait()
		for _, w := range p.recv() {
			if w.ID == "alive" {
				return true
			}
		}
	}
	vFail("a party neither answers nor ends the connection")
	return false
}

// ZPeer sends any messages to a server.
func ZPeer() {
	s := vServer(SimpleHubFactory(&vCallHub{}))
	p := vOpen(s, "c")
	q := vOpen(s, "d")
	for n := 0; n < vParam("msgs"); n++ {
		p.msg(vPeerMsgs[vPickN("msg", n, len(vPeerMsgs))])
		if n < vParam("msgs")-1 && vChoose("wait", 2) == 1 {
			vWait()
		}
	}
	vWait()
	vCalm(true)
	if vAlive(p) {
		vReach("alive")
	} else {
		vReach("ended")
	}
	if !vAlive(q) {
		vFail("another connection is ended")
	}
	vReach("peer-end")
	vDone()
}

var vClientPeerMsgs = []string{
	`{"type":3,"invocationId":"#"}`,
	`{"type":3,"invocationId":"#","result":5}`,
	`{"type":3,"invocationId":"#","error":"e"}`,
	`{"type":2,"invocationId":"#","item":5}`,
	`{"type":2,"invocationId":"#"}`,
	`{"type":5,"invocationId":"#"}`,
	`{"type":1,"invocationId":"#","target":"onup","arguments":[],"streamIds":["#"]}`,
	`{"type":1,"invocationId":"#","target":"ona","arguments":[],"streamIds":["#"]}`,
	`{"type":1,"invocationId":"#","target":"twice","arguments":[3]}`,
	`{"type":4,"invocationId":"#","target":"twice","arguments":[3]}`,
	`{"type":1,"target":"boom","arguments":[]}`,
	`{"type":1,"target":"init","arguments":[]}`,
	`{"type":6}`,
	`{"type":7}`,
	`{"type":7,"error":"e","allowReconnect":true}`,
	`{"type":9}`,
	`{}`,
}

// ZPeerClient sends any messages to a client with pending calls.
func ZPeerClient() {
	c := vClient().connect()
	inv := c.client.Invoke("a", 1)
	vWait()
	pull := c.client.PullStream("b")
	vWait()
	up := make(chan int, 4)
	push := c.client.PushStreams("c", up)
	vWait()
	_, _, _ = inv, pull, push
	for n := 0; n < vParam("msgs"); n++ {
		m := vClientPeerMsgs[vPickN("msg", n, len(vClientPeerMsgs))]
		if strings.Contains(m, "#") {
			m = strings.ReplaceAll(m, "#", []string{"1", "2", "3", "4", "9"}[vChoose("id", 5)])
		}
		c.msg(m)
		if n < vParam("msgs")-1 && vChoose("wait", 2) == 1 {
			vWait()
		}
	}
	vWait()
	vCalm(true)
	up <- 1
	close(up)
	time.Sleep(60 * time.Second)
	vWait()
	if c.client.State() != ClientClosed {
		c.recv()
		c.msg(`{"type":1,"invocationId":"alive","target":"twice","arguments":[4]}`)
		vWait()
		w := c.recv()
		vAssert(len(w) == 1 && w[0].ID == "alive" && w[0].Value == "8", "a client neither answers nor ends the connection")
		vReach("alive")
	} else {
		vReach("ended")
	}
	vReach("peer-end")
	vDone()
}

// vRes collects what a channel returned by the client yields.
type vRes struct {
	mx     sync.Mutex
	vals   []interface{}
	errs   []error
	order  string
	closed bool
}

func vCollect(ch <-chan InvokeResult) *vRes {
	r := &vRes{}
	go func() {
		for ir := range ch {
			r.mx.Lock()
			if ir.Error != nil {
				r.errs = append(r.errs, ir.Error)
				r.order += "e"
			} else {
				r.vals = append(r.vals, ir.Value)
				r.order += "v"
			}
			r.mx.Unlock()
		}
		r.mx.Lock()
		r.closed = true
		r.mx.Unlock()
	}()
	return r
}

func vCollectErr(ch <-chan error) *vRes {
	r := &vRes{}
	go func() {
		for err := range ch {
			r.mx.Lock()
			r.errs = append(r.errs, err)
			if err == nil {
				r.order += "n"
			} else {
				r.order += "e"
			}
			r.mx.Unlock()
		}
		r.mx.Lock()
		r.closed = true
		r.mx.Unlock()
	}()
	return r
}

func (r *vRes) get() (order string, closed bool) {
	r.mx.Lock()
	defer r.mx.Unlock()
	return r.order, r.closed
}

func (r *vRes) err() string {
	if len(r.errs) == 0 {
		return ""
	}
	return r.errs[0].Error()
}

// ZCall makes calls on a client, answers them and ends the connection at any moment.
// kind: 0 Invoke, 1 Send, 2 PullStream, 3 PushStreams; ending: 0 none, 1 transport, 2 close message, 3 Stop, 4 invalid message
func ZCall() {
	c := vClient().connect()
	n := vParam("calls")
	res := make([]*vRes, n)
	kind := make([]int, n)
	ups := make([]chan int, n)
	ending := vPick("ending", 5)
	early := ending > 0 && vChoose("early", 2) == 1
	end := func() {
		switch ending {
		case 1:
			c.cancel()
		case 2:
			c.msg(`{"type":7}`)
		case 3:
			go c.client.Stop()
		case 4:
			c.msg(`{"type":9}`)
		}
	}
	for i := 0; i < n; i++ {
		kind[i] = vPickN("kind", i, 4)
		switch kind[i] {
		case 0:
			res[i] = vCollect(c.client.Invoke("m", i))
		case 1:
			res[i] = vCollectErr(c.client.Send("m", i))
		case 2:
			res[i] = vCollect(c.client.PullStream("m", i))
		case 3:
			ups[i] = make(chan int, 1)
			res[i] = vCollect(c.client.PushStreams("m", i, ups[i]))
		}
	}
	if early {
		end()
	}
	vWait()
	// the peer answers
	var inv []vWire
	for _, w := range c.recv() {
		if w.Type == 1 || w.Type == 4 {
			inv = append(inv, w)
		}
	}
	if !early {
		vAssert(len(inv) == n, "a call is not sent")
	}
	if len(inv) == 2 {
		vAssert(inv[0].ID != inv[1].ID, "two calls have the same id")
		if vChoose("swap", 2) == 1 {
			inv[0], inv[1] = inv[1], inv[0]
		}
	}
	answer := make([]int, n)
	for _, w := range inv {
		i := int(w.Args[0][0] - '0')
		vAssert(w.ID != "", "a call has no id")
		vAssert(w.Type == 1 && kind[i] != 2 || w.Type == 4 && kind[i] == 2, "a call is sent as the wrong kind of message")
		vAssert(len(w.Ids) == kind[i]/3, "a call does not have the right stream ids")
		answer[i] = vChoose("answer", 4)
		switch answer[i] {
		case 1:
			if kind[i] == 2 {
				c.msg(fmt.Sprintf(`{"type":2,"invocationId":%q,"item":%d}`, w.ID, 50+i))
				c.msg(fmt.Sprintf(`{"type":2,"invocationId":%q,"item":%d}`, w.ID, 60+i))
				c.msg(fmt.Sprintf(`{"type":3,"invocationId":%q}`, w.ID))
			} else {
				c.msg(fmt.Sprintf(`{"type":3,"invocationId":%q,"result":%d}`, w.ID, 50+i))
			}
		case 2:
			c.msg(fmt.Sprintf(`{"type":3,"invocationId":%q,"error":"err%d"}`, w.ID, i))
		case 3:
			c.msg(fmt.Sprintf(`{"type":3,"invocationId":%q}`, w.ID))
		}
	}
	if ending > 0 && !early {
		end()
	}
	vWait()
	vCalm(true)
	time.Sleep(100 * time.Second)
	vWait()
	for i := 0; i < n; i++ {
		order, closed := res[i].get()
		complete := ""
		switch answer[i] {
		case 1:
			complete = []string{"v", "", "vv", "v"}[kind[i]]
		case 2:
			complete = "e"
		}
		vAssert(order == "" || order[len(order)-1] != 'n', "Send yields an error that is none")
		answered := closed && order == complete && answer[i] > 0 && (complete != "e" || ending == 0 || res[i].err() == fmt.Sprintf("err%d", i))
		if answered {
			for k, v := range res[i].vals {
				f, ok := v.(float64)
				vAssert(ok && (f == float64(50+i) || k == 1 && f == float64(60+i)), "a call yields something else than its answer")
			}
			if complete == "e" {
				vAssert(res[i].err() == fmt.Sprintf("err%d", i), "a call yields another error than its own")
			}
			vReach("answered")
			continue
		}
		if ending == 0 {
			vAssert(answer[i] == 0, "a call does not yield exactly its answer")
			vAssert(order == "" && !closed, "a call without answer yields something")
			vReach("pending")
			continue
		}
		vAssert(closed, "a call is pending although the connection has ended")
		if kind[i] == 2 {
			vAssert(order == "e" || answer[i] == 1 && (order == "ve" || order == "vve"), "a stream whose connection ends does not end with an error")
		} else {
			vAssert(order == "e", "a call whose connection ends does not end with one error")
		}
		vReach("failed")
	}
	if ending > 0 {
		vAssert(c.client.State() == ClientClosed, "a client without connection is not closed")
	}
	vReach("call-end")
	vDone()
}
