package signalr

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/cenkalti/backoff/v4"
)

// vEncoded are the bytes of a message in one of the protocols.
func vEncoded(proto int, message interface{}) string {
	var p hubProtocol = &jsonHubProtocol{dbg: vLog{}}
	if proto == 1 {
		p = &messagePackHubProtocol{dbg: vLog{}}
	}
	var buf bytes.Buffer
	vAssert(p.WriteMessage(message, &buf) == nil, "a message can not be written")
	return buf.String()
}

// vLastSend sends the messages, then reading from the connection fails.
func vLastSend(c *vConn, msgs []string) {
	vCalm(false)
	with := vPick("with", 2) == 1
	if vPick("reads", 2) == 1 {
		msgs = []string{strings.Join(msgs, "")}
	}
	if len(msgs) == 0 {
		c.finish(false, "")
		return
	}
	for _, m := range msgs[:len(msgs)-1] {
		c.send(m)
	}
	c.finish(with, msgs[len(msgs)-1])
}

// ZLast lets a client send messages before it ends its connection.
func ZLast() {
	vCalm(true)
	s := vServer(SimpleHubFactory(&vWebHub{}))
	p := vServe(s, "p")
	proto := vPick("proto", 2)
	p.send(`{"protocol":"` + []string{"json", "messagepack"}[proto] + "\",\"version\":1}\x1e")
	vWait()
	vAssert(len(p.written()) == 1, "the handshake is not answered")
	var msgs []string
	notes, bad, closed := 0, false, false
	for k := 0; k < vParam("msgs"); k++ {
		switch vPickN("msg", k, 4) {
		case 0:
			msgs = append(msgs, vEncoded(proto, invocationMessage{Type: 1, Target: "Note", Arguments: []interface{}{k}}))
			if !bad && !closed {
				notes++
			}
		case 1:
			msgs = append(msgs, vEncoded(proto, hubMessage{Type: 6}))
		case 2:
			msgs = append(msgs, vEncoded(proto, closeMessage{Type: 7}))
			closed = closed || !bad
		case 3:
			msgs = append(msgs, vEncoded(proto, streamItemMessage{Type: 2, InvocationID: "none", Item: 1}))
			bad = bad || !closed
		}
	}
	vLastSend(p.vConn, msgs)
	vWait()
	vCalm(true)
	got := 0
	for _, c := range vCalls() {
		if strings.HasPrefix(c, "note ") {
			got++
		}
	}
	vAssert(p.closed(), "serving does not end with the connection")
	vAssert(got == notes, "messages which were received before the end of the connection are lost")
	if closed {
		vAssert(p.err == nil, "a connection which was closed by the peer ends with an error")
		vReach("closed")
	} else {
		vAssert(p.err != nil, "a connection which was lost ends without an error")
		vAssert(bad == strings.Contains(p.err.Error(), "unknown stream id"), "a connection does not end with its first error")
		vReach("lost")
	}
	vReach("last-end")
	vDone()
}

// ZLastClient lets a server send messages before it ends the connection.
func ZLastClient() {
	vCalm(true)
	d := &vDial{never: true}
	format := TransferFormatType("Text")
	proto := vPick("proto", 2)
	if proto == 1 {
		format = "Binary"
	}
	c, err := NewClient(context.Background(), WithConnector(d.connect), WithBackoff(func() backoff.BackOff { return &vBackoff{max: 3} }),
		WithReceiver(&vRecv{}), Logger(vLog{}, false), TransferFormat(format), vNoPings)
	vAssert(err == nil, "the client can not be created")
	c.Start()
	vWait()
	d.last().send("{}\x1e")
	vWait()
	call := vCollect(c.Invoke("a"))
	vWait()
	pull := vCollect(c.PullStream("b"))
	vWait()
	vAssert(len(d.last().written()) == 3, "the calls are not sent")
	var msgs []string
	answered, items, completed, notes := false, 0, false, 0
	for k := 0; k < vParam("msgs"); k++ {
		switch vPickN("msg", k, 4) {
		case 0:
			vAssume(!answered)
			answered = true
			msgs = append(msgs, vEncoded(proto, completionMessage{Type: 3, InvocationID: "1", Result: "r"}))
		case 1:
			vAssume(!completed)
			items++
			msgs = append(msgs, vEncoded(proto, streamItemMessage{Type: 2, InvocationID: "2", Item: "i"}))
		case 2:
			vAssume(!completed)
			completed = true
			msgs = append(msgs, vEncoded(proto, completionMessage{Type: 3, InvocationID: "2"}))
		case 3:
			notes++
			msgs = append(msgs, vEncoded(proto, invocationMessage{Type: 1, Target: "OnA", Arguments: []interface{}{k}}))
		}
	}
	cl := vPick("close", 5)
	if cl > 0 {
		m := closeMessage{Type: 7, AllowReconnect: cl > 2}
		if cl%2 == 0 {
			m.Error = "told"
		}
		msgs = append(msgs, vEncoded(proto, m))
	}
	vLastSend(d.last(), msgs)
	vWait()
	time.Sleep(5 * time.Second)
	vWait()
	vCalm(true)
	order, closed := call.get()
	vAssert(closed && order == map[bool]string{true: "v", false: "e"}[answered], "an answer which was received before the end of the connection is lost")
	order, closed = pull.get()
	want := strings.Repeat("v", items)
	if !completed {
		want += "e"
	}
	vAssert(closed && order == want, "items which were received before the end of the connection are lost")
	vAssert(vCountCallsOf("OnA") == notes, "messages which were received before the end of the connection are lost")
	if cl == 1 || cl == 2 {
		vAssert(len(d.conns) == 1 && c.State() == ClientClosed, "a client reconnects although the server has forbidden it")
		vAssert(cl == 1 || c.Err() != nil && c.Err().Error() == "told", "the error of the close message is lost")
		vReach("closed")
	} else {
		vAssert(len(d.conns) == 2 && c.State() == ClientConnecting, "a client does not reconnect")
		vReach("reconnect")
	}
	vReach("last-end")
	vDone()
}

func vCountCallsOf(method string) (n int) {
	for _, c := range vCalls() {
		if strings.HasPrefix(c, fmt.Sprint(method, " ")) {
			n++
		}
	}
	return n
}
