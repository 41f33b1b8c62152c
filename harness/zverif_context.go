package signalr

import (
	"fmt"
	"sort"
	"strings"
)

// vCtxHub uses its context.
type vCtxHub struct {
	Hub
}

func (h *vCtxHub) OnConnected(id string) {
	vCall("in %s %s", id, h.ConnectionID())
	h.Items().Store("born", id)
}

func (h *vCtxHub) OnDisconnected(id string) {
	born, _ := h.Items().Load("born")
	vCall("out %s %s %v", id, h.ConnectionID(), born)
}

func (h *vCtxHub) Set(k string, v int) { h.Items().Store(k, v) }

func (h *vCtxHub) Get(k string) int {
	if v, ok := h.Items().Load(k); ok {
		return v.(int)
	}
	return -1
}

func (h *vCtxHub) Who() string { return h.ConnectionID() }

func (h *vCtxHub) Own(i int) { h.Clients().Caller().Send("own", i) }

func (h *vCtxHub) Tell(id string, i int) { h.Clients().Client(id).Send("told", i) }

func (h *vCtxHub) Watch() {
	id, ctx := h.ConnectionID(), h.Context()
	go func() {
		<-ctx.Done()
		vCall("ended %s", id)
	}()
}

func (h *vCtxHub) Leave() { h.Abort() }

func (h *vCtxHub) Bye(text string, allow bool) bool { return h.Close(text, allow) == nil }

// vCtxPeer is a connection and what is known about it.
type vCtxPeer struct {
	*vPeer
	name    string
	items   map[string]int
	watched int
	dead    bool
	want    []string
}

// step lets a method be called, the index of the step makes values unique.
func (p *vCtxPeer) step(op, k int, other *vCtxPeer) {
	if p.dead {
		vAssume(op == 0)
		return
	}
	id := fmt.Sprint(p.name, k)
	done := func(value string) { p.want = append(p.want, fmt.Sprintf("3 %s %s", id, value)) }
	key := []string{"a", "b"}[op%2]
	call := func(target, args string) { p.msg(vInvocation(1, id, target, args, "")) }
	switch op {
	case 1, 2:
		p.items[key] = k
		call("Set", fmt.Sprintf("[%q,%d]", key, k))
		done("")
	case 3, 4:
		v, ok := p.items[key]
		if !ok {
			v = -1
		}
		call("Get", fmt.Sprintf("[%q]", key))
		done(fmt.Sprint(v))
	case 5:
		call("Who", "[]")
		done(fmt.Sprintf("%q", p.id))
	case 6:
		call("Own", fmt.Sprintf("[%d]", k))
		p.want = append(p.want, fmt.Sprintf("1 own %d", k))
		done("")
	case 7:
		call("Tell", fmt.Sprintf("[%q,%d]", other.id, k))
		if !other.dead {
			other.want = append(other.want, fmt.Sprintf("1 told %d", k))
		}
		done("")
	case 8:
		call("Watch", "[]")
		done("")
		p.watched++
	case 9:
		call("Bye", fmt.Sprintf("[\"bye%d\",%v]", k, k%2 == 0))
		p.want = append(p.want, fmt.Sprintf("7 bye%d %v", k, k%2 == 0))
		done("true")
	case 10:
		call("Leave", "[]")
		p.dead = true
	case 11:
		p.cancel()
		p.dead = true
	case 12:
		p.msg("{\"type\":7}")
		p.dead = true
	}
}

// check compares what was written to the connection.
func (p *vCtxPeer) check() {
	var got []string
	for _, w := range p.recv() {
		if w.Type == 7 && (p.dead || p.closed()) {
			continue // C36
		}
		switch w.Type {
		case 1:
			got = append(got, fmt.Sprintf("1 %s %s", w.Target, strings.Join(w.Args, ",")))
		case 3:
			vAssert(!w.HasErr || w.Error == "", "a method fails")
			got = append(got, fmt.Sprintf("3 %s %s", w.ID, w.Value))
		case 7:
			got = append(got, fmt.Sprintf("7 %s %v", w.Error, w.Allow))
		}
	}
	sort.Strings(got)
	sort.Strings(p.want)
	vAssert(p.dead == p.closed(), "ending a connection does not end exactly this one")
	if !p.dead {
		vAssert(strings.Join(got, "\n") == strings.Join(p.want, "\n"), "a method does not act on the connection which called it")
	}
	p.want = nil
}

// ZContext lets methods called by two connections use their contexts.
func ZContext() {
	vCalm(true)
	var s Server
	if vPick("factory", 2) == 0 {
		s = vServer(SimpleHubFactory(&vCtxHub{}))
	} else {
		s = vServer(PerConnectionHubFactory(func(string) HubInterface { return &vCtxHub{} }))
	}
	open := func(name string, id string) *vCtxPeer {
		return &vCtxPeer{vPeer: vOpen(s, id), name: name, items: map[string]int{}}
	}
	p, q := open("x", "p"), open("y", "q")
	for k := 0; k < vParam("ops"); k++ {
		a, b := vPickN("opP", k, 13), vPickN("opQ", k, 13)
		vAssume(a != 0 || b != 0)
		vAssume(vParam("both") == 1 || a == 0 || b == 0)
		// who calls the one who ends can not know if it arrives
		vAssume(!(a >= 10 && b == 7) && !(b >= 10 && a == 7))
		vCalm(false)
		p.step(a, k, q)
		q.step(b, k, p)
		vWait()
		vCalm(true)
		p.check()
		q.check()
	}
	watched := 0
	if p.dead {
		// a later connection with the same id shares nothing with the one before
		watched = p.watched
		p = open("z", "p")
		p.step(3, 8, q)
		p.step(4, 9, q)
		vWait()
		p.check()
		vReach("again")
	}
	calls := strings.Join(vCalls(), "\n") + "\n"
	wantP, wantQ := watched, 0
	if q.dead {
		wantQ = q.watched
	}
	vAssert(strings.Count(calls, "ended p\n") == wantP && strings.Count(calls, "ended q\n") == wantQ, "the context of a hub does not end with its connection")
	vAssert(strings.Count(calls, "in p p\n") == 1+strings.Count(calls, "out p p p\n") && strings.Contains(calls, "in q q\n"), "a callback does not act on its connection")
	vAssert(strings.Contains(calls, "out q q q\n") == q.dead, "a callback does not act on its connection")
	vAssert(strings.Count(calls, "in ") == 2+strings.Count(calls, "out p p p\n") && strings.Count(calls, "out ") <= 2, "a callback does not act on its connection")
	vReach("context-end")
	vDone()
}
