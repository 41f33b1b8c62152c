package signalr

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"
)

// vHubs is what the hubs of ZHubs report.
var vHubs struct {
	mx        sync.Mutex
	made      []string // the connection ids the factory got, in the order of the instances
	connected []vHubCall
	ended     []vHubCall
	called    []vHubCall
}

// vHubCall is a call of a hub: the instance, the connection of the hub, the argument.
type vHubCall struct {
	hub      int
	conn, id string
}

type vLifeHub struct {
	Hub
	n int
}

func (h *vLifeHub) call(list *[]vHubCall, id string) {
	c := vHubCall{h.n, h.ConnectionID(), id}
	vHubs.mx.Lock()
	*list = append(*list, c)
	vHubs.mx.Unlock()
}

func (h *vLifeHub) OnConnected(id string)    { h.call(&vHubs.connected, id) }
func (h *vLifeHub) OnDisconnected(id string) { h.call(&vHubs.ended, id) }

// Note does nothing else.
func (h *vLifeHub) Note() { h.call(&vHubs.called, "") }

// Shout reaches the caller in every way.
func (h *vLifeHub) Shout() {
	h.call(&vHubs.called, "")
	h.Clients().Caller().Send("caller")
	h.Clients().Client(h.ConnectionID()).Send("client")
	h.Groups().AddToGroup("g", h.ConnectionID())
	h.Clients().Group("g").Send("group")
	h.Clients().All().Send("all")
}

func vLifeFactory(id string) HubInterface {
	vHubs.mx.Lock()
	defer vHubs.mx.Unlock()
	vHubs.made = append(vHubs.made, id)
	return &vLifeHub{n: len(vHubs.made)}
}

// ZHubs opens and ends connections of a server and looks at its hubs.
func ZHubs() {
	per := vPick("factory", 2) == 0
	opt := PerConnectionHubFactory(vLifeFactory)
	if !per {
		opt = HubFactory(func() HubInterface { return vLifeFactory("") })
	}
	s := vServer(opt)
	n := vParam("conns")
	method := "Shout"
	if vParam("simple") == 1 {
		method = "Note"
	}
	peers := make([]*vPeer, n)
	valid := make([]bool, n)
	maybe := make([]bool, n) // whether the connection was established is not certain
	calls := make([]int, n)
	waited := false
	wait := func(i int) {
		waited = false
		if vChoose("wait", 2) == 1 {
			vWait()
			waited = true
		}
	}
	for i := 0; i < n; i++ {
		peers[i] = vServe(s, fmt.Sprint("c", i))
		valid[i] = true
		shout := vInvocation(1, "1", method, "[]", "") + "\x1e"
		switch vPickN("open", i, 5) {
		case 0:
			peers[i].send(vHandshakeJSON)
		case 1: // with messages which follow directly
			peers[i].send(vHandshakeJSON + shout)
			calls[i] = 1
		case 2:
			peers[i].send(vHandshakeJSON + shout + shout)
			calls[i] = 2
		case 3:
			peers[i].send("{\"protocol\":\"no\",\"version\":1}\x1e")
			valid[i] = false
		case 4: // lost at any time
			peers[i].send(vHandshakeJSON + shout)
			peers[i].cancel()
			maybe[i] = true
		}
		wait(i)
	}
	for i := n - 1; i >= 0; i-- {
		switch vPickN("end", i, 5) {
		case 0:
		case 1:
			peers[i].cancel()
			maybe[i] = maybe[i] || valid[i] && !waited
		case 2:
			peers[i].msg(`{"type":7}`)
		case 3:
			peers[i].msg(`x`)
		case 4:
			peers[i].send(vInvocation(1, "1", method, "[]", "") + "\x1e{\"type\":7}\x1e")
			if valid[i] {
				calls[i]++
			}
		}
		wait(i)
	}
	vWait()
	vCalm(true)
	for i := 0; i < n; i++ {
		if !peers[i].closed() && valid[i] && !maybe[i] && calls[i] > 0 && method == "Shout" { // everything has to have reached this connection
			seen := map[string]int{}
			for _, w := range peers[i].recv() {
				if w.Type == 1 {
					vAssert(!w.HasID || w.ID == "", "a client is asked for an answer")
					seen[w.Target]++
				}
			}
			vAssert(seen["caller"] == calls[i] && seen["client"] == calls[i], "a connection can not be reached when its first message is handled")
			vAssert(seen["group"] >= calls[i] && seen["all"] >= calls[i], "a connection can not be reached when its first message is handled")
			vReach("reached")
		}
	}
	for i := 0; i < n; i++ {
		peers[i].cancel()
	}
	vWait()
	time.Sleep(time.Second)
	vWait()
	vHubs.mx.Lock()
	defer vHubs.mx.Unlock()
	count := func(list []vHubCall, conn string, id string) int {
		k := 0
		for _, c := range list {
			if c.conn == conn {
				vAssert(c.id == id, "a callback gets the id of another connection")
				k++
			}
		}
		return k
	}
	users := map[int]string{} // of the instances
	all := append(append(append([]vHubCall(nil), vHubs.connected...), vHubs.ended...), vHubs.called...)
	for _, c := range all {
		if u, ok := users[c.hub]; ok {
			vAssert(u == c.conn, "connections share a hub instance")
		}
		users[c.hub] = c.conn
	}
	for i := 0; i < n; i++ {
		id := fmt.Sprint("c", i)
		vAssert(peers[i].closed(), "serving an ended connection does not return")
		on, off := count(vHubs.connected, id, id), count(vHubs.ended, id, id)
		vAssert(on == off && on <= 1, "OnConnected and OnDisconnected are not called once each for a connection")
		if maybe[i] {
			vReach("perhaps")
		} else if valid[i] {
			vAssert(on == 1, "OnConnected is not called for a connection")
			vReach("connected")
		} else {
			vAssert(on == 0, "OnConnected is called for a connection without handshake")
			vReach("refused")
		}
		if k := count(vHubs.called, id, ""); !maybe[i] {
			vAssert(k == calls[i], "not every invocation is handled once")
		}
		hubs := 0
		for _, u := range users {
			if u == id {
				hubs++
			}
		}
		made := 0
		for _, m := range vHubs.made {
			if m == id {
				made++
			}
		}
		if per {
			vAssert(hubs == on, "a connection is served by more than one hub instance")
			vAssert(made == on, "the factory is not called once for a connection")
		}
	}
	if per {
		for _, m := range vHubs.made {
			vAssert(strings.HasPrefix(m, "c"), "the factory is called without a connection")
		}
		if s, ok := s.(*server); ok {
			vAssert(len(s.connectionHubs) == 0, "the server keeps the hub of an ended connection")
		}
		vReach("per-connection")
	}
	vReach("hubs-end")
	vDone()
}

type vGroupHub struct{ Hub }

var vGroupMan GroupManager

func (h *vGroupHub) OnConnected(string) { vGroupMan = h.Groups() }

// Say sends from the hub to the group or to all others it can reach.
func (h *vGroupHub) Say(kind int, name, text string) {
	to := []ClientProxy{h.Clients().All(), h.Clients().Client(name), h.Clients().Group(name), h.Clients().Caller()}[kind]
	vDecoys(h.Clients())
	to.Send(text, name, kind)
}

// vDecoys asks for other proxies than the one which is used next.
func vDecoys(c HubClients) {
	_, _, _, _ = c.All(), c.Client("decoy"), c.Group("decoy"), c.Caller()
}

// ZGroups changes groups and sends to them and to all and to single connections.
func ZGroups() {
	s := vServer(HubFactory(func() HubInterface { return &vGroupHub{} }))
	names := []string{"a", "", "c0", "A"} // of groups, one is the id of a connection
	max := vParam("conns")
	var peers []*vPeer
	var up []bool
	member := map[string]map[string]bool{}
	for _, n := range names {
		member[n] = map[string]bool{}
	}
	open := func() {
		peers = append(peers, vOpen(s, fmt.Sprint("c", len(peers))))
		up = append(up, true)
		vWait()
	}
	open()
	if vParam("conns") > 1 {
		open()
	}
	text := "t" + string([]byte{vPlain("text")})
	for k := 0; k < vParam("ops"); k++ {
		var op int
		if vParam("narrow") == 0 {
			op = vPickN("op", k, 8)
		} else if k < vParam("ops")-1 { // changes first, then one message
			op = 1 + vPickN("change", k, 3)
		} else {
			op = 4 + vPickN("send", 0, 4)
		}
		switch op {
		case 0, 1: // add or remove, also connections which do not exist
			name := names[vChoose("group", vParam("groups"))]
			c := vChoose("conn", len(peers)+1)
			id := fmt.Sprint("c", c)
			if vChoose("remove", 2) == 1 {
				vGroupMan.RemoveFromGroup(name, id)
				delete(member[name], id)
			} else {
				vGroupMan.AddToGroup(name, id)
				if c < len(peers) && up[c] {
					member[name][id] = true
				}
			}
			continue
		case 2:
			if len(peers) >= max+1 {
				vAssume(false)
			}
			open()
			continue
		case 3:
			c := vChoose("conn", len(peers))
			if !up[c] {
				vAssume(false)
			}
			if vChoose("how", 2) == 0 {
				peers[c].cancel()
			} else {
				peers[c].msg(`{"type":7}`)
			}
			vWait()
			up[c] = false
			for _, m := range member {
				delete(m, fmt.Sprint("c", c))
			}
			vAssert(peers[c].closed(), "serving an ended connection does not return")
			continue
		case 4:
			to := s.HubClients().All()
			vDecoys(s.HubClients())
			to.Send(text, "", 0)
			vGroupsCheck(peers, up, "", text, "", 0, func(string) bool { return true })
			vReach("all")
		case 5:
			id := []string{"c0", "c1", "c2", "a", ""}[vChoose("client", 5)]
			to := s.HubClients().Client(id)
			vDecoys(s.HubClients())
			to.Send(text, id, 1)
			vGroupsCheck(peers, up, "", text, id, 1, func(c string) bool { return c == id })
			vReach("client")
		case 6:
			name := append(names[:vParam("groups"):vParam("groups")], "nobody")[vChoose("group", vParam("groups")+1)]
			to := s.HubClients().Group(name)
			vDecoys(s.HubClients())
			to.Send(text, name, 2)
			vGroupsCheck(peers, up, "", text, name, 2, func(c string) bool { return member[name][c] })
			vReach("group")
		case 7: // the same from the hub of a connection
			from := vChoose("from", len(peers))
			if !up[from] {
				vAssume(false)
			}
			kind := vChoose("kind", 4)
			name := []string{"a", "c0", "c1"}[vChoose("name", 3)]
			peers[from].msg(fmt.Sprintf(`{"type":1,"target":"say","arguments":[%d,"%s","%s"]}`, kind, name, text))
			vGroupsCheck(peers, up, "", text, name, kind, func(c string) bool {
				return kind == 0 || kind == 1 && c == name || kind == 2 && member[name][c] || kind == 3 && c == fmt.Sprint("c", from)
			})
			vReach("hub")
		}
	}
	vReach("groups-end")
	vDone()
}

func vGroupsCheck(peers []*vPeer, up []bool, _, text, name string, kind int, addressed func(id string) bool) {
	vWait()
	for i, p := range peers {
		got := p.recv()
		if i < len(up) && !up[i] {
			for _, w := range got {
				vAssert(w.Type != 1, "an ended connection gets a message")
			}
			continue
		}
		if !addressed(fmt.Sprint("c", i)) {
			vAssert(len(got) == 0, "a connection gets a message which is not for it")
			continue
		}
		vAssert(len(got) == 1, "an addressed connection does not get the message once")
		w := got[0]
		vAssert(w.Type == 1 && w.Target == text && !w.HasID, "an addressed connection gets another message")
		vAssert(len(w.Args) == 2 && w.Args[0] == `"`+name+`"` && w.Args[1] == fmt.Sprint(kind), "an addressed connection gets other arguments")
	}
}

// vHubConn is a HubConnection which records what is sent to it.
type vHubConn struct {
	id    string
	items sync.Map
	mx    sync.Mutex
	sent  []string
}

func (c *vHubConn) ConnectionID() string          { return c.id }
func (c *vHubConn) Receive() <-chan receiveResult { return nil }
func (c *vHubConn) SendInvocation(id string, target string, args []interface{}) error {
	c.mx.Lock()
	defer c.mx.Unlock()
	c.sent = append(c.sent, target)
	return nil
}
func (c *vHubConn) SendStreamInvocation(id string, target string, args []interface{}) error {
	return nil
}
func (c *vHubConn) SendInvocationWithStreamIds(id string, target string, args []interface{}, streamIds []string) error {
	return nil
}
func (c *vHubConn) StreamItem(id string, item interface{}) error                 { return nil }
func (c *vHubConn) Completion(id string, result interface{}, error string) error { return nil }
func (c *vHubConn) Close(error string, allowReconnect bool) error                { return nil }
func (c *vHubConn) Ping() error                                                  { return nil }
func (c *vHubConn) LastWriteStamp() time.Time                                    { return time.Time{} }
func (c *vHubConn) Items() *sync.Map                                             { return &c.items }
func (c *vHubConn) Context() context.Context                                     { return context.Background() }
func (c *vHubConn) Abort()                                                       {}

// take returns what was sent since the last call.
func (c *vHubConn) take(target string) int {
	c.mx.Lock()
	defer c.mx.Unlock()
	n := 0
	for _, s := range c.sent {
		if s == target {
			n++
		}
	}
	c.sent = nil
	return n
}

// ZGroupRace lets a connection end while it is added to groups and others send.
func ZGroupRace() {
	s, ok := vServer(SimpleHubFactory(&vCallHub{})).(*server)
	vAssume(ok)
	lm := s.lifetimeManager
	gone, other := &vHubConn{id: "c0"}, &vHubConn{id: "c1"}
	lm.OnConnected(gone)
	lm.OnConnected(other)
	switch vPick("before", 3) {
	case 1:
		lm.AddToGroup("a", "c0")
	case 2:
		lm.AddToGroup("a", "c1")
	}
	calls := vParam("calls")
	otherIn := map[string]bool{}
	steady := map[string]bool{"a": true, "b": true} // groups whose membership of the other one is certain
	for i := 0; i < calls; i++ {
		name := []string{"a", "b"}[vChoose("group", 2)]
		switch vPickN("call", i, 5) {
		case 0:
			go lm.AddToGroup(name, "c0")
		case 1:
			go lm.AddToGroup(name, "c1")
			otherIn[name] = true
		case 2:
			go lm.RemoveFromGroup(name, "c0")
		case 3:
			go lm.RemoveFromGroup(name, "c1")
			steady[name] = false
		case 4:
			go lm.InvokeGroup(name, "early", nil)
		}
	}
	go lm.OnDisconnected(gone)
	vWait()
	vCalm(true)
	gone.take("")
	other.take("")
	for _, name := range []string{"a", "b"} {
		lm.InvokeGroup(name, "late", nil)
		vWait()
		vAssert(gone.take("late") == 0, "a disconnected connection is a member of a group")
		if otherIn[name] && steady[name] {
			vAssert(other.take("late") == 1, "a connection added to a group is no member")
		}
		other.take("")
	}
	lm.InvokeAll("late", nil)
	lm.InvokeClient("c0", "late", nil)
	vWait()
	vAssert(gone.take("late") == 0, "a disconnected connection gets messages")
	vAssert(other.take("late") == 1, "a connection does not get a message to all once")
	vReach("race-end")
	vDone()
}
