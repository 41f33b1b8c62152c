package ext

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
	"github.com/redis/go-redis/v9"
	"github.com/redis/go-redis/v9/maintnotifications"
)

func vPick(name string, n int) int {
	if p := vParam(name); p > 0 {
		return p - 1
	}
	return vChoose(name, n)
}

func vPickN(name string, k int, n int) int {
	if p := vParam(name + string(rune('0'+k))); p > 0 {
		return p - 1
	}
	return vPick(name, n)
}

// vRedis is a Redis server with sets and publish/subscribe by patterns. The clients talk to it over vRedisConn.
type vRedis struct {
	mx   sync.Mutex
	sets map[string]map[string]bool
	subs []*vRedisSub
}

type vRedisSub struct {
	conn    *vRedisConn
	pattern string
}

func (r *vRedis) client() *redis.Client {
	return redis.NewClient(&redis.Options{
		Addr:                     "redis:6379",
		Protocol:                 2,
		DisableIdentity:          true,
		MaxRetries:               -1,
		PoolSize:                 2,
		MaintNotificationsConfig: &maintnotifications.Config{Mode: maintnotifications.ModeDisabled, EndpointType: maintnotifications.EndpointTypeNone},
		Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
			return &vRedisConn{r: r, more: make(chan struct{}, 1), closed: make(chan struct{})}, nil
		},
	})
}

type vRedisConn struct {
	r      *vRedis
	in     []byte
	mx     sync.Mutex
	out    []byte
	more   chan struct{}
	closed chan struct{}
	once   sync.Once
}

func (c *vRedisConn) Read(p []byte) (int, error) {
	for {
		c.mx.Lock()
		if len(c.out) > 0 {
			n := copy(p, c.out)
			c.out = c.out[n:]
			c.mx.Unlock()
			return n, nil
		}
		c.mx.Unlock()
		select {
		case <-c.more:
		case <-c.closed:
			return 0, io.EOF
		}
	}
}

func (c *vRedisConn) reply(s string) {
	c.mx.Lock()
	c.out = append(c.out, s...)
	c.mx.Unlock()
	select {
	case c.more <- struct{}{}:
	default:
	}
}

func (c *vRedisConn) Write(p []byte) (int, error) {
	select {
	case <-c.closed:
		return 0, errors.New("closed")
	default:
	}
	c.in = append(c.in, p...)
	for {
		cmd, n := vRedisCommand(c.in)
		if n == 0 {
			return len(p), nil
		}
		c.in = c.in[n:]
		c.r.do(c, cmd)
	}
}

func (c *vRedisConn) Close() error {
	c.once.Do(func() { close(c.closed) })
	return nil
}

type vAddr struct{}

func (vAddr) Network() string { return "tcp" }
func (vAddr) String() string  { return "redis:6379" }

func (c *vRedisConn) LocalAddr() net.Addr              { return vAddr{} }
func (c *vRedisConn) RemoteAddr() net.Addr             { return vAddr{} }
func (c *vRedisConn) SetDeadline(time.Time) error      { return nil }
func (c *vRedisConn) SetReadDeadline(time.Time) error  { return nil }
func (c *vRedisConn) SetWriteDeadline(time.Time) error { return nil }

// vRedisCommand reads one command, an array of bulk strings, from b. n is 0 if it is not complete.
func vRedisCommand(b []byte) (cmd []string, n int) {
	num := func(c byte) (int, bool) {
		i := strings.Index(string(b[n:]), "\r\n")
		if i < 0 || b[n] != c {
			return 0, false
		}
		v, _ := strconv.Atoi(string(b[n+1 : n+i]))
		n += i + 2
		return v, true
	}
	count, ok := num('*')
	if !ok {
		return nil, 0
	}
	for i := 0; i < count; i++ {
		l, ok := num('$')
		if !ok || len(b) < n+l+2 {
			return nil, 0
		}
		cmd = append(cmd, string(b[n:n+l]))
		n += l + 2
	}
	return cmd, n
}

func vBulk(s string) string { return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n" }

func (r *vRedis) do(c *vRedisConn, cmd []string) {
	r.mx.Lock()
	defer r.mx.Unlock()
	num := func(n int) { c.reply(":" + strconv.Itoa(n) + "\r\n") }
	switch strings.ToLower(cmd[0]) {
	case "ping":
		c.reply("+PONG\r\n")
	case "sadd":
		if r.sets[cmd[1]] == nil {
			r.sets[cmd[1]] = map[string]bool{}
		}
		n := 0
		for _, m := range cmd[2:] {
			if !r.sets[cmd[1]][m] {
				n++
			}
			r.sets[cmd[1]][m] = true
		}
		num(n)
	case "srem":
		n := 0
		for _, m := range cmd[2:] {
			if r.sets[cmd[1]][m] {
				n++
			}
			delete(r.sets[cmd[1]], m)
		}
		num(n)
	case "sismember":
		if r.sets[cmd[1]][cmd[2]] {
			num(1)
		} else {
			num(0)
		}
	case "smismember":
		s := "*" + strconv.Itoa(len(cmd)-2) + "\r\n"
		for _, m := range cmd[2:] {
			if r.sets[cmd[1]][m] {
				s += ":1\r\n"
			} else {
				s += ":0\r\n"
			}
		}
		c.reply(s)
	case "smembers":
		var ms []string
		for m := range r.sets[cmd[1]] {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		s := "*" + strconv.Itoa(len(ms)) + "\r\n"
		for _, m := range ms {
			s += vBulk(m)
		}
		c.reply(s)
	case "scard":
		num(len(r.sets[cmd[1]]))
	case "psubscribe", "subscribe":
		for i, p := range cmd[1:] {
			r.subs = append(r.subs, &vRedisSub{c, p})
			c.reply("*3\r\n" + vBulk(strings.ToLower(cmd[0])) + vBulk(p) + ":" + strconv.Itoa(i+1) + "\r\n")
		}
	case "publish":
		n := 0
		for _, s := range r.subs {
			if s.pattern == cmd[1] || strings.HasSuffix(s.pattern, "*") && strings.HasPrefix(cmd[1], s.pattern[:len(s.pattern)-1]) {
				n++
				s.conn.reply("*4\r\n" + vBulk("pmessage") + vBulk(s.pattern) + vBulk(cmd[1]) + vBulk(cmd[2]))
			}
		}
		num(n)
	default:
		c.reply("-ERR unknown command '" + cmd[0] + "'\r\n")
	}
}

// vHubConn records the invocations which are sent over it.
type vHubConn struct {
	signalr.HubConnection
	id   string
	mx   sync.Mutex
	sent []vSent
}

type vSent struct {
	id, target string
	args       []interface{}
}

func (c *vHubConn) ConnectionID() string { return c.id }
func (c *vHubConn) SendInvocation(id string, target string, args []interface{}) error {
	c.mx.Lock()
	defer c.mx.Unlock()
	c.sent = append(c.sent, vSent{id, target, args})
	return nil
}

func vSameJSON(args []interface{}, encoded []byte) bool {
	b, err := json.Marshal(args)
	return err == nil && string(b) == string(encoded)
}

// ZRedis: servers which share a Redis server. Connections are added to groups, removed from them and disconnected by
// any server; then a message is sent by any server.
func ZRedis() {
	r := &vRedis{sets: map[string]map[string]bool{}}
	var ms []signalr.HubLifetimeManager
	for i := 0; i < 2; i++ {
		m, err := newRedisHubLifetimeManager(context.Background(), vLog{}, r.client())
		vAssert(err == nil, "no lifetime manager")
		ms = append(ms, m)
	}
	vCalm(true)
	vWait()
	vReach("subscribed")
	conns := []*vHubConn{{id: "a1"}, {id: "a2"}, {id: "b1"}}
	home := []signalr.HubLifetimeManager{ms[0], ms[0], ms[1]}
	up := []bool{true, true, true}
	groups := []string{"g", "", "g:h"}
	member := make([][3]bool, len(groups))
	for i, c := range conns {
		home[i].OnConnected(c)
	}
	for k := 0; k < vParam("steps"); k++ {
		op := vPickN("op", k, 3)
		i := vPickN("conn", k, 3)
		switch op {
		case 0:
			g := vPickN("group", k, len(groups))
			if up[i] {
				ms[vPickN("by", k, 2)].AddToGroup(groups[g], conns[i].id)
				member[g][i] = true
			}
		case 1:
			g := vPickN("group", k, len(groups))
			ms[vPickN("by", k, 2)].RemoveFromGroup(groups[g], conns[i].id)
			member[g][i] = false
		case 2:
			if up[i] {
				home[i].OnDisconnected(conns[i])
			}
			up[i] = false
		}
	}
	vWait()
	vCalm(false)
	m := ms[vPick("from", 2)]
	var want [3]int
	args := [][]interface{}{{"x"}, {"é<", 7, nil}, nil, {map[string]interface{}{"k": []interface{}{true, 1.5}}}}[vPick("args", 4)]
	encoded, _ := json.Marshal(args)
	except := [][]string{{"a1"}, {"b1", "a2"}, nil, {"", "c"}}
	exceptConn := [][]int{{0}, {2, 1}, nil, nil}
	switch vPick("send", 5) {
	case 0:
		m.InvokeAll("t", args)
		want = [3]int{1, 1, 1}
	case 1:
		// also an unknown and an empty id
		to := vPick("to", 5)
		m.InvokeClient([]string{"a1", "a2", "b1", "b2", ""}[to], "t", args)
		if to < 3 {
			want[to] = 1
		}
	case 2:
		to := vPick("tog", len(groups))
		m.InvokeGroup(groups[to], "t", args)
		for i := range want {
			if member[to][i] {
				want[i] = 1
			}
		}
	case 3:
		e, ok := m.(interface {
			InvokeAllExcept(string, []interface{}, []string)
		})
		vAssume(ok)
		excluded := vPick("excluded", 4)
		e.InvokeAllExcept("t", args, except[excluded])
		want = [3]int{1, 1, 1}
		for _, i := range exceptConn[excluded] {
			want[i] = 0
		}
	case 4:
		e, ok := m.(interface {
			InvokeGroupExcept(string, string, []interface{}, []string)
		})
		vAssume(ok)
		to := vPick("tog", len(groups))
		excluded := vPick("excluded", 4)
		e.InvokeGroupExcept(groups[to], "t", args, except[excluded])
		for i := range want {
			if member[to][i] {
				want[i] = 1
			}
		}
		for _, i := range exceptConn[excluded] {
			want[i] = 0
		}
	}
	vWait()
	n := 0
	for i, c := range conns {
		if !up[i] {
			want[i] = 0
		}
		c.mx.Lock()
		vAssert(len(c.sent) >= want[i], "connection "+c.id+" was not reached")
		vAssert(len(c.sent) <= want[i], "connection "+c.id+" was reached too often or is not addressed")
		for _, s := range c.sent {
			vAssert(s.id == "", "the message asks for a completion")
			vAssert(s.target == "t" && vSameJSON(s.args, encoded), "the message is not the one which was sent")
			n++
		}
		c.mx.Unlock()
	}
	if n > 1 {
		vReach("several")
	}
	if n > 0 {
		vReach("sent")
	}
	vDone()
}
