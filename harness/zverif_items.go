package signalr

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
)

// vPoint is an item of a stream.
type vPoint struct {
	X int    `json:"x"`
	S string `json:"s,omitempty"`
}

type vInts chan int

// vItemChan is a source of one of several types, which is fed with up to three items, and the items as they must be sent.
func vItemChan(kind, n int, letter byte) (source interface{}, feed func(), want []string) {
	s := string([]byte{letter})
	one := 1
	mixed := []interface{}{nil, "", 0, false, []int{}, map[string]int{}, s, 1.5, vPoint{}, &vPoint{X: 1, S: s}, (*int)(nil), []interface{}{nil, s}, json.RawMessage("[1]"), true}
	palette := func(k int) interface{} { return mixed[vPickN("value", k, len(mixed))] }
	var items []interface{}
	switch kind {
	case 0:
		c := make(chan interface{})
		for k := 0; k < n; k++ {
			items = append(items, palette(k))
		}
		source, feed = c, func() {
			for _, i := range items {
				c <- i
			}
			close(c)
		}
	case 1:
		c := make(chan *int, n)
		for k := 0; k < n; k++ {
			items = append(items, []*int{nil, &one}[vPickN("value", k, 2)])
			c <- items[k].(*int)
		}
		close(c)
		source = c
	case 2:
		c := make(chan []string, 3)
		for k := 0; k < n; k++ {
			items = append(items, [][]string{nil, {}, {"", s}}[vPickN("value", k, 3)])
		}
		source, feed = c, func() {
			for _, i := range items {
				c <- i.([]string)
			}
			close(c)
		}
	case 3:
		c := make(chan bool)
		for k := 0; k < n; k++ {
			items = append(items, vPickN("value", k, 2) == 1)
		}
		source, feed = c, func() {
			for _, i := range items {
				c <- i.(bool)
			}
			close(c)
		}
	case 4:
		c := make(chan vPoint, 1)
		for k := 0; k < n; k++ {
			items = append(items, []vPoint{{}, {X: 3}, {S: s}}[vPickN("value", k, 3)])
		}
		source, feed = c, func() {
			for _, i := range items {
				c <- i.(vPoint)
			}
			close(c)
		}
	case 5:
		c := make(vInts, n)
		for k := 0; k < n; k++ {
			items = append(items, vPickN("value", k, 3)-1)
			c <- items[k].(int)
		}
		close(c)
		source = c
	case 6:
		c := make(chan map[string]interface{}, n)
		for k := 0; k < n; k++ {
			items = append(items, []map[string]interface{}{nil, {}, {s: nil}}[vPickN("value", k, 3)])
			c <- items[k].(map[string]interface{})
		}
		close(c)
		source = c
	case 7:
		c := make(chan string, n)
		for k := 0; k < n; k++ {
			items = append(items, []string{"", s, "null"}[vPickN("value", k, 3)])
			c <- items[k].(string)
		}
		close(c)
		source = c
	}
	for _, i := range items {
		b, err := json.Marshal(i)
		vAssert(err == nil, "harness: an item can not be encoded")
		want = append(want, string(b))
	}
	return source, feed, want
}

// vSource is what the methods of vItemHub return.
var vSource interface{}

type vItemHub struct{ Hub }

func (h *vItemHub) Mixed() chan interface{}             { return vSource.(chan interface{}) }
func (h *vItemHub) Pointers() <-chan *int               { return vSource.(chan *int) }
func (h *vItemHub) Lists() chan []string                { return vSource.(chan []string) }
func (h *vItemHub) Bools() <-chan bool                  { return vSource.(chan bool) }
func (h *vItemHub) Points() chan vPoint                 { return vSource.(chan vPoint) }
func (h *vItemHub) Ints() vInts                         { return vSource.(vInts) }
func (h *vItemHub) Maps() <-chan map[string]interface{} { return vSource.(chan map[string]interface{}) }
func (h *vItemHub) Strings() chan string                { return vSource.(chan string) }

// ZItems streams items of several types, from a server or from a client.
func ZItems() {
	kind := vPick("kind", 8)
	n := vParam("items")
	if vParam("items") > 1 {
		n = 1 + vPick("n", n)
	}
	side := vPick("side", 2)
	source, feed, want := vItemChan(kind, n, vPlain("letter"))
	vSource = source
	if feed != nil {
		go feed()
	}
	var msgs []vWire
	id := "7"
	if side == 0 {
		p := vOpen(vServer(SimpleHubFactory(&vItemHub{})), "c")
		p.msg(vInvocation(4, "7", []string{"Mixed", "Pointers", "Lists", "Bools", "Points", "Ints", "Maps", "Strings"}[kind], "[]", ""))
		vWait()
		msgs = p.recv()
		vAssert(!p.closed(), "a stream ends the connection")
	} else {
		c := vClient().connect()
		res := vCollect(c.client.PushStreams("m", source, 7))
		vWait()
		msgs = c.recv()
		vAssert(len(msgs) > 0 && msgs[0].Type == 1 && msgs[0].Target == "m" && len(msgs[0].Ids) == 1 && len(msgs[0].Args) == 1 && msgs[0].Args[0] == "7",
			"an upload is not announced before its items")
		id = msgs[0].Ids[0]
		vAssert(id != "" && id != msgs[0].ID && msgs[0].ID != "", "an upload has no id of its own")
		c.msg(fmt.Sprintf(`{"type":3,"invocationId":%q,"result":1}`, msgs[0].ID))
		vWait()
		order, closed := res.get()
		vAssert(order == "v" && closed, "the result of an upload is not delivered")
		msgs = msgs[1:]
	}
	vAssert(len(msgs) == n+1, "not exactly the items of a stream and its completion are sent")
	for i, w := range msgs {
		vAssert(w.ID == id, "an item is sent with another id")
		if i < n {
			vAssert(w.Type == 2 && w.HasVal, "an item of a stream has no value")
			vAssert(w.Value == want[i], "an item of a stream is sent changed or in another order")
			if want[i] == "null" {
				vReach("null")
			}
		} else {
			vAssert(w.Type == 3 && !w.HasVal && w.Error == "", "a stream is not completed")
		}
	}
	vReach("items-end")
	vDone()
}

// ZPush pushes streams which have items at once, and perhaps have ended.
func ZPush() {
	c := vClient().connect()
	count := 1 + vPick("two", 2)
	var streams []*vStream
	var args []interface{}
	var late []func()
	for i := 0; i < count; i++ {
		n := vPickN("items", i, 3)
		ch := make(chan string, 3)
		st := &vStream{open: true}
		for k := 0; k < n; k++ {
			ch <- fmt.Sprint(i, k)
			st.items = append(st.items, fmt.Sprintf("\"%d %d\"", i, k))
		}
		switch vPickN("end", i, 3) {
		case 0:
			close(ch)
			st.open = false
		case 1:
			st.open = false
			st.items = append(st.items, "\"late\"")
			late = append(late, func() {
				ch <- "late"
				close(ch)
			})
		}
		streams = append(streams, st)
		args = append(args, ch)
	}
	for _, f := range late {
		go f()
	}
	// arguments which are no channels
	wantArgs := ""
	switch vPick("other", 4) {
	case 1:
		args = append([]interface{}{nil}, args...)
		wantArgs = "null"
	case 2:
		args = append(args, 7, nil)
		wantArgs = "7 null"
	case 3:
		args = append([]interface{}{"x"}, append(args, []int{1})...)
		wantArgs = "\"x\" [1]"
	}
	res := vCollect(c.client.PushStreams("m", args...))
	time.Sleep(100 * time.Millisecond)
	vWait()
	vCalm(true)
	msgs := c.recv()
	vAssert(len(msgs) > 0 && msgs[0].Type == 1 && len(msgs[0].Ids) == count && strings.Join(msgs[0].Args, " ") == wantArgs, "an upload is not announced before its items")
	for i := range streams {
		streams[i].id = msgs[0].Ids[i]
	}
	vTake(msgs[1:], streams)
	for _, st := range streams {
		vAssert(len(st.got) == len(st.items), "not exactly the items of an upload are sent")
		for k := range st.got {
			vAssert(st.got[k] == st.items[k], "the items of an upload are not sent in order")
		}
		vAssert(st.ends == 1 == !st.open, "an upload is not completed exactly when its source ends")
	}
	c.msg(fmt.Sprintf(`{"type":3,"invocationId":%q,"result":1}`, msgs[0].ID))
	vWait()
	order, closed := res.get()
	vAssert(order == "v" && closed, "the result of an upload is not delivered")
	vReach("push-end")
	vDone()
}

type vSlowHub struct{ vCallHub }

// Slow returns a channel which is fed by the harness, as soon as the harness lets it.
func (h *vSlowHub) Slow(name string) <-chan string {
	<-vSrcS("gate " + name)
	return vSrcS(name)
}

// ZCancelEarly cancels streams of a server, some of them before their methods have returned.
func ZCancelEarly() {
	max := vPick("max", 3)
	s := vServer(SimpleHubFactory(&vSlowHub{}), MaxConcurrentStreams(uint(max)))
	p := vOpen(s, "c")
	const total = 3
	type early struct {
		vStream
		gate    chan string
		running bool
		unsure  bool // canceled too early together with too many others
		before  int  // the number of items before the cancellation
	}
	var streams []*early
	pending := map[string]bool{} // canceled, but not running
	for i := 0; i < total; i++ {
		name := fmt.Sprint(i)
		st := &early{vStream: vStream{id: fmt.Sprint(i + 1), src: vSrcS(name), open: true}, gate: vSrcS("gate " + name)}
		p.msg(vInvocation(4, st.id, "slow", fmt.Sprintf("[%q]", name), ""))
		streams = append(streams, st)
	}
	vWait()
	for k := 0; k < vParam("ops"); k++ {
		i := vPickN("stream", k, total)
		st := streams[i]
		switch vPickN("op", k, 4) {
		case 0: // cancel
			p.msg(fmt.Sprintf(`{"type":5,"invocationId":"%s"}`, st.id))
			if !st.running && st.open {
				if pending[st.id] {
					break
				}
				if max == 0 || len(pending) < max {
					pending[st.id] = true
				} else {
					st.unsure = true
				}
			} else if st.open {
				if !st.canceled {
					st.canceled, st.before = true, len(st.items)
				}
			} else {
				max = -1 // whether this one is remembered is left open
			}
		case 1: // the method returns
			vAssume(!st.running)
			st.gate <- "go"
			vWait()
			st.running = true
			if pending[st.id] {
				delete(pending, st.id)
				st.canceled = true
			}
		case 2: // an item
			vAssume(st.running && st.open)
			st.src <- fmt.Sprint(k)
			st.items = append(st.items, fmt.Sprintf(`"%d"`, k))
		case 3: // the end
			vAssume(st.running && st.open)
			close(st.src)
			st.open = false
		}
		vAssume(max >= 0)
		vWait()
	}
	for _, st := range streams {
		if !st.running {
			st.gate <- "go"
			st.running = true
			if pending[st.id] {
				st.canceled = true
			}
		}
		vWait()
		if st.open {
			st.src <- "y"
			vWait()
			st.items = append(st.items, `"y"`)
			close(st.src)
		}
	}
	vWait()
	vCalm(true)
	var all []*vStream
	for _, st := range streams {
		all = append(all, &st.vStream)
	}
	vTake(p.recv(), all)
	for _, st := range streams {
		vAssert(st.ends == 1, "a stream is not completed exactly once")
		vAssert(len(st.got) <= len(st.items), "a stream has items its source did not produce")
		for k := range st.got {
			vAssert(st.got[k] == st.items[k], "the items of a stream are not sent in order")
		}
		switch {
		case st.canceled:
			vAssert(len(st.got) <= st.before, "an item of a stream is sent after its cancellation")
			vAssert(len(st.got) == st.before, "an item of a stream is lost which was sent before its cancellation")
			vReach("canceled")
		case !st.unsure:
			vAssert(len(st.got) == len(st.items), "an item of a stream is lost which was not canceled")
			vReach("complete")
		default:
			vReach("unsure")
		}
	}
	vAssert(!p.closed(), "cancellations end the connection")
	vReach("early-end")
	vDone()
}
