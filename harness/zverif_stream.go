package signalr

import (
	"fmt"
	"strings"
	"time"
)

// ZIds starts calls of all kinds in several goroutines of a client; all invocation and stream ids must differ.
func ZIds() {
	c := vClient().connect()
	n := vParam("calls")
	up := make([]chan int, 2*n)
	for i := range up {
		up[i] = make(chan int, 1)
	}
	ids := 0
	for i := 0; i < n; i++ {
		i := i
		switch vPickN("kind", i, 5) {
		case 0:
			ids++
			go c.client.Invoke("m", i)
		case 1:
			ids++
			go c.client.Send("m", i)
		case 2:
			ids++
			go c.client.PullStream("m", i)
		case 3:
			ids += 2
			go c.client.PushStreams("m", up[2*i])
		case 4:
			ids += 3
			go c.client.PushStreams("m", up[2*i], i, up[2*i+1])
		}
	}
	vWait()
	seen := map[string]bool{}
	for _, w := range c.recv() {
		if w.Type != 1 && w.Type != 4 {
			continue
		}
		for _, id := range append([]string{w.ID}, w.Ids...) {
			vAssert(id != "", "an id is empty")
			vAssert(!seen[id], "two invocations or streams have the same id")
			seen[id] = true
		}
	}
	vAssert(len(seen) == ids, "not all calls are sent")
	vReach("ids-end")
	vDone()
}

// vStream is what the harness knows of one stream a party sends.
type vStream struct {
	id       string
	src      chan string
	items    []string // which must be sent
	open     bool     // the source can still produce
	canceled bool
	done     bool // a completion must have been sent
	got      []string
	ends     int
}

// take sorts the messages of a party into the streams.
func vTake(msgs []vWire, streams []*vStream) {
	for _, w := range msgs {
		var s *vStream
		for _, t := range streams {
			if t.id == w.ID {
				s = t
			}
		}
		vAssert(s != nil, "a message with an unknown id is sent")
		vAssert(s.ends == 0, "something is sent for a stream which was completed")
		switch w.Type {
		case 2:
			s.got = append(s.got, w.Value)
		case 3:
			vAssert(!w.HasErr || w.Error == "", "a stream ends with an error")
			vAssert(!w.HasVal, "the completion of a stream has a result")
			s.ends++
		default:
			vFail("an unexpected message is sent")
		}
	}
}

// vSrcS returns the source of a stream of strings.
func vSrcS(name string) chan string {
	vT.mx.Lock()
	defer vT.mx.Unlock()
	if vT.srcS == nil {
		vT.srcS = map[string]chan string{}
	}
	c, ok := vT.srcS[name]
	if !ok {
		c = make(chan string, 10)
		vT.srcS[name] = c
	}
	return c
}

// ZStream reads streams of a server. The items are any characters which need no escape.
func ZStream() {
	s := vServer(SimpleHubFactory(&vCallHub{}))
	p := vOpen(s, "c")
	n := vParam("streams")
	streams := make([]*vStream, n)
	for i := range streams {
		streams[i] = &vStream{id: fmt.Sprint(i + 1), src: vSrcS(fmt.Sprint(i)), open: true}
	}
	p.msg(vInvocation(4, "1", "words", `["0"]`, ""))
	started := 1
	for k := 0; k < vParam("ops"); k++ {
		switch op := vChoose("op", 4); {
		case op == 0: // open another stream
			if started == n {
				vAssume(false)
			}
			p.msg(vInvocation(4, fmt.Sprint(started+1), "words", fmt.Sprintf(`["%d"]`, started), ""))
			started++
		case op == 1: // an item
			st := streams[vChoose("stream", n)]
			if !st.open {
				vAssume(false)
			}
			item := string([]byte{vPlain("item")}) + fmt.Sprint(k)
			st.src <- item
			st.items = append(st.items, "\""+item+"\"")
		case op == 2: // the end
			st := streams[vChoose("stream", n)]
			if !st.open {
				vAssume(false)
			}
			close(st.src)
			st.open = false
		case op == 3: // a call which has nothing to do with the streams, whose answer must not disturb them
			p.msg(vInvocation(1, "", "None", "[]", ""))
		}
		if vChoose("wait", 2) == 1 {
			vWait()
		}
	}
	vWait()
	vTake(p.recv(), streams)
	for i, st := range streams {
		if i >= started {
			vAssert(len(st.got) == 0 && st.ends == 0, "a stream is sent nobody asked for")
			continue
		}
		vAssert(len(st.got) == len(st.items), "not exactly the items of a stream are sent")
		for k := range st.got {
			vAssert(st.got[k] == st.items[k], "the items of a stream are not sent in order")
		}
		vAssert(st.ends == 1 == !st.open, "a stream is not completed exactly when its source ends")
		if st.ends == 1 {
			vReach("completed")
		}
		if len(st.got) > 1 {
			vReach("items")
		}
	}
	vReach("stream-end")
	vDone()
}

// ZStreamClient lets a client pull a stream and push one or two.
func ZStreamClient() {
	c := vClient().connect()
	up := []chan string{make(chan string), make(chan string, 1)}
	pull := vCollect(c.client.PullStream("a"))
	vWait()
	w := c.recv()
	vAssert(len(w) == 1 && w[0].Type == 4, "a stream invocation is not sent")
	pullID := w[0].ID
	push := vCollect(c.client.PushStreams("b", up[0], 7, up[1]))
	vWait()
	w = c.recv()
	vAssert(len(w) == 1 && w[0].Type == 1 && len(w[0].Ids) == 2 && len(w[0].Args) == 1 && w[0].Args[0] == "7", "an upload is not announced")
	pushID := w[0].ID
	streams := []*vStream{{id: w[0].Ids[0], open: true}, {id: w[0].Ids[1], open: true}}
	var want []string
	ended, result := false, false
	for k := 0; k < vParam("ops"); k++ {
		switch op := vChoose("op", 5); op {
		case 0:
			if ended {
				vAssume(false)
			}
			item := string([]byte{vPlain("item")}) + fmt.Sprint(k)
			c.msg(`{"type":2,"invocationId":"` + pullID + `","item":"` + item + `"}`)
			want = append(want, item)
		case 1:
			if ended {
				vAssume(false)
			}
			c.msg(`{"type":3,"invocationId":"` + pullID + `"}`)
			ended = true
		case 2:
			i := vChoose("stream", 2)
			if !streams[i].open {
				vAssume(false)
			}
			item := string([]byte{vPlain("item")}) + fmt.Sprint(k)
			up[i] <- item
			streams[i].items = append(streams[i].items, "\""+item+"\"")
		case 3:
			i := vChoose("stream", 2)
			if !streams[i].open {
				vAssume(false)
			}
			close(up[i])
			streams[i].open = false
		case 4:
			if result {
				vAssume(false)
			}
			c.msg(`{"type":3,"invocationId":"` + pushID + `","result":3}`)
			result = true
		}
		if vChoose("wait", 2) == 1 {
			vWait()
		}
	}
	vWait()
	vTake(c.recv(), streams)
	for _, st := range streams {
		vAssert(len(st.got) == len(st.items), "not exactly the items of an upload are sent")
		for k := range st.got {
			vAssert(st.got[k] == st.items[k], "the items of an upload are not sent in order")
		}
		vAssert(st.ends == 1 == !st.open, "an upload is not completed exactly when its source ends")
	}
	_, closed := pull.get()
	vAssert(len(pull.errs) == 0 && len(pull.vals) == len(want), "not exactly the items of a pulled stream are delivered")
	for k, v := range pull.vals {
		s, ok := v.(string)
		vAssert(ok && s == want[k], "the items of a pulled stream are not delivered in order")
	}
	vAssert(closed == ended, "a pulled stream is not closed exactly when it is completed")
	order, closed := push.get()
	vAssert(closed == result && (order == "v") == result, "the result of an upload is not delivered exactly once")
	vReach("pull-end")
	vDone()
}

// ZCancel cancels streams of a server.
func ZCancel() {
	max := vChoose("max", vParam("max"))
	s := vServer(SimpleHubFactory(&vCallHub{}), MaxConcurrentStreams(uint(max)))
	p := vOpen(s, "c")
	var streams []*vStream
	settle := func() {
		vWait()
		vTake(p.recv(), streams)
		for _, st := range streams {
			vAssert(len(st.got) == len(st.items), "not exactly the items of a stream are sent")
			vAssert(st.ends == 1 == st.done, "a stream does not end exactly when its source does or with the next item after its cancellation")
			if st.done && st.canceled {
				vReach("canceled")
			} else if st.done {
				vReach("completed")
			}
		}
	}
	open := func() {
		st := &vStream{id: fmt.Sprint(len(streams) + 1), src: vSrcS(fmt.Sprint(len(streams))), open: true}
		p.msg(vInvocation(4, st.id, "words", fmt.Sprintf(`["%d"]`, len(streams)), ""))
		streams = append(streams, st)
	}
	open()
	settle()
	for k := 0; k < vParam("ops"); k++ {
		switch op := vPickN("op", k, 6); op {
		case 0:
			open()
		case 1, 2: // an item, or the end
			st := streams[vChoose("stream", len(streams))]
			if !st.open {
				vAssume(false)
			}
			if op == 1 {
				st.src <- "x"
				if st.canceled {
					st.done = true
				}
				if !st.done {
					st.items = append(st.items, "x")
				}
			} else {
				close(st.src)
				st.open = false
				st.done = true
			}
		case 3: // cancel, also streams which have ended
			st := streams[vChoose("stream", len(streams))]
			p.msg(fmt.Sprintf(`{"type":5,"invocationId":"%s"}`, st.id))
			st.canceled = true
		case 4: // cancel what does not exist
			p.msg(fmt.Sprintf(`{"type":5,"invocationId":"u%d"}`, k))
		case 5: // an item races with the cancellation: it may be sent or not
			st := streams[vChoose("stream", len(streams))]
			if !st.open || st.done || st.canceled {
				vAssume(false)
			}
			st.src <- "x"
			p.msg(fmt.Sprintf(`{"type":5,"invocationId":"%s"}`, st.id))
			vWait()
			msgs := p.recv()
			vTake(msgs, streams)
			st.canceled = true
			st.done = st.ends > 0
			if !st.done {
				vAssert(len(st.got) == len(st.items)+1, "an item is lost")
			}
			st.items = st.items[:0:0]
			for range st.got {
				st.items = append(st.items, "x")
			}
		}
		settle()
	}
	vReach("cancel-end")
	vDone()
}

// ZUpload streams to methods of a server.
func ZUpload() {
	capacity := 1 + vChoose("capacity", 2)*9
	s := vServer(SimpleHubFactory(&vCallHub{}), StreamBufferCapacity(uint(capacity)))
	p := vOpen(s, "c")
	type upload struct {
		id, stream string
		open       bool
		want       []string
		sum        int
	}
	var ups []*upload
	open := func(id, stream string) {
		p.msg(vInvocation(1, id, "upn", fmt.Sprintf("[%q]", stream), fmt.Sprintf("[%q]", stream)))
		ups = append(ups, &upload{id: id, stream: stream, open: true})
	}
	open("7", "s1")
	open("8", "s2")
	broken := false
	reopened := false
	for k := 0; k < vParam("ops") && !broken; k++ {
		switch op := vPickN("op", k, 5); op {
		case 0:
			u := ups[vChoose("stream", len(ups))]
			if !u.open {
				vAssume(false)
			}
			v := 1 << k
			p.msg(fmt.Sprintf(`{"type":2,"invocationId":"%s","item":%d}`, u.stream, v))
			u.want = append(u.want, fmt.Sprintf("%s %d", u.stream, v))
			u.sum += v
		case 1:
			u := ups[vChoose("stream", len(ups))]
			if !u.open {
				vAssume(false)
			}
			p.msg(fmt.Sprintf(`{"type":3,"invocationId":"%s"}`, u.stream))
			u.want = append(u.want, u.stream+" end")
			u.open = false
		case 2: // an item nobody waits for
			if u := ups[0]; !u.open && vChoose("closed", 2) == 1 {
				p.msg(fmt.Sprintf(`{"type":2,"invocationId":"%s","item":1}`, u.stream))
			} else {
				p.msg(`{"type":2,"invocationId":"s9","item":1}`)
			}
			broken = true
		case 3: // an item of another type
			u := ups[vChoose("stream", len(ups))]
			if !u.open {
				vAssume(false)
			}
			p.msg(fmt.Sprintf(`{"type":2,"invocationId":"%s","item":"x"}`, u.stream))
			broken = true
		case 4: // another invocation wants the stream too
			u := ups[vChoose("stream", 2)]
			if !u.open || reopened {
				vAssume(false)
			}
			reopened = true
			p.msg(vInvocation(1, "9", "upn", `["dup"]`, fmt.Sprintf("[%q]", u.stream)))
		}
		if vChoose("wait", 2) == 1 {
			vWait()
		}
	}
	vWait()
	calls := vCalls()
	for _, u := range ups {
		var got []string
		for _, c := range calls {
			if strings.HasPrefix(c, u.stream+" ") {
				got = append(got, c)
			}
		}
		if broken && len(got) == len(u.want)+1 && got[len(got)-1] == u.stream+" end" {
			got = got[:len(got)-1] // the connection has ended
		}
		vAssert(len(got) == len(u.want), "a method does not receive exactly the items streamed to it")
		for i := range got {
			vAssert(got[i] == u.want[i], "a method does not receive the items in order")
		}
	}
	answers := map[string]vWire{}
	for _, w := range p.recv() {
		if w.Type == 3 {
			_, ok := answers[w.ID]
			vAssert(!ok, "an invocation is answered twice")
			answers[w.ID] = w
		} else {
			vAssert(broken && w.Type == 7, "an unexpected message is sent")
		}
	}
	if broken {
		vAssert(p.closed() && p.err != nil, "an item for an unknown stream or of a wrong type is no error")
		vReach("broken")
	} else {
		vAssert(!p.closed(), "the connection is closed")
		for _, u := range ups {
			a, ok := answers[u.id]
			vAssert(ok == !u.open, "an invocation is not answered when its stream ends")
			vAssert(!ok || a.Value == fmt.Sprint(u.sum) && !a.HasErr, "the method does not see the items")
		}
		if reopened {
			a, ok := answers["9"]
			vAssert(ok && a.HasErr && a.Error != "", "an invocation which wants a stream of another one is not refused")
			vReach("refused")
		}
		vReach("uploaded")
	}
	vReach("upload-end")
	vDone()
}

// ZUploadMax opens and completes upload streams up to any limit.
func ZUploadMax() {
	max := vChoose("max", 4)
	s := vServer(SimpleHubFactory(&vCallHub{}), MaxConcurrentStreams(uint(max)))
	p := vOpen(s, "c")
	var opened []string // streams
	count := 0
	answers := func(n int) []vWire {
		vWait()
		var res []vWire
		for _, w := range p.recv() {
			vAssert(w.Type == 3, "an unexpected message is sent")
			res = append(res, w)
		}
		vAssert(!p.closed(), "the connection is closed")
		vAssert(len(res) == n, "not exactly the finished invocations are answered")
		return res
	}
	for k := 0; k < vParam("ops"); k++ {
		calls := len(vCalls())
		switch op := vPickN("op", k, 8); op {
		case 0, 1, 2, 3, 4, 5, 6:
			n := []int{1, 2, 2, 1, 2, 2, 1}[op]
			bad := op >= 2
			ids := fmt.Sprintf(`["s%d"]`, count)
			if n == 2 {
				ids = fmt.Sprintf(`["s%d","s%d"]`, count, count+1)
			}
			target := []string{"upn", "upm", "upm", "upn", "up", "upm", "upn"}[op]
			// in the last ones an argument, the number of streams, the kind of invocation or the stream id is wrong
			args := []string{`["x"]`, `["x"]`, `[5]`, `[5]`, `[]`, `["x"]`, `["x"]`}[op]
			if op == 6 {
				if len(opened) == 0 {
					vAssume(false)
				}
				ids = fmt.Sprintf("[%q]", opened[0])
			}
			p.msg(vInvocation(1+3*(op/5*(6-op)), fmt.Sprint(100+k), target, args, ids))
			if bad || max > 0 && len(opened)+n > max {
				a := answers(1)
				vAssert(a[0].ID == fmt.Sprint(100+k) && a[0].HasErr && a[0].Error != "", "an invocation with too many streams or wrong arguments is not answered with an error")
				vAssert(len(vCalls()) == calls, "a refused invocation calls the method")
				if bad {
					vReach("bad")
				} else {
					vReach("refused")
				}
			} else {
				answers(0)
				vAssert(len(vCalls()) == calls+1, "an invocation whose streams are within the limit does not call the method")
				for i := 0; i < n; i++ {
					opened = append(opened, fmt.Sprintf("s%d", count+i))
				}
				vReach("opened")
			}
			count += n
		case 7:
			if len(opened) == 0 {
				vAssume(false)
			}
			i := vChoose("stream", len(opened))
			p.msg(fmt.Sprintf(`{"type":3,"invocationId":"%s"}`, opened[i]))
			opened = append(opened[:i:i], opened[i+1:]...)
			vWait()
			for _, w := range p.recv() {
				vAssert(w.Type == 3 && !w.HasErr, "an unexpected message is sent")
			}
			vAssert(!p.closed(), "the connection is closed")
			vReach("closed")
		}
	}
	time.Sleep(time.Second)
	vWait()
	vReach("max-end")
	vDone()
}
