package signalr

import (
	"context"
	"errors"
	"strings"
	"time"

	"github.com/cenkalti/backoff/v4"
)

// vOptHub is a hub which can be told from others.
type vOptHub struct {
	Hub
	kind int
}

// vSettings are the settings a party should have.
type vSettings struct {
	timeout, handshake, keepAlive, chanTimeout time.Duration
	buffer, streams, size                      uint
	detailed                                   bool
	alternate                                  map[string]string
	// server
	hub        int // 0: none, 1: one hub, 2: factory, 3: simple factory, 4: per connection
	transports string
	limit      int
	skip       bool
	origins    string
	manager    *vManager
	// client
	conn, connector bool
	format          string
	receiver        interface{}
	http            bool
	link            *vConn
	doer            *vDoer
	backoffs        int
	backoff         bool
	bad             bool // an option is refused
}

var errVManager = errors.New("no manager")

// vManager is a lifetime manager of the harness.
type vManager struct {
	HubLifetimeManager
	calls string
}

func (m *vManager) InvokeAll(target string, args []interface{}) { m.calls += "all " + target + " " }
func (m *vManager) InvokeGroup(group, target string, args []interface{}) {
	m.calls += "group " + group + " " + target + " "
}

// vDuration is a positive number of seconds below 100, or 0 or a negative number.
func vDuration(name string) time.Duration { return time.Duration(vInt(name, -1, 99)) * time.Second }

// vOption is one option and what it should do.
func vOption(k int, isServer bool, s *vSettings) func(Party) error {
	server := func(ok bool) bool {
		if !isServer || !ok {
			s.bad = true
			return false
		}
		return true
	}
	client := func(ok bool) bool {
		if isServer || !ok {
			s.bad = true
			return false
		}
		return true
	}
	switch vPickN("option", k, 27) {
	case 0:
		d := vDuration("duration")
		if d <= 0 {
			s.bad = true
		} else {
			s.timeout = d
		}
		return TimeoutInterval(d)
	case 1:
		d := vDuration("duration")
		if d <= 0 {
			s.bad = true
		} else {
			s.handshake = d
		}
		return HandshakeTimeout(d)
	case 2:
		d := vDuration("duration")
		if d <= 0 {
			s.bad = true
		} else {
			s.keepAlive = d
		}
		return KeepAliveInterval(d)
	case 3:
		n := uint(vInt("number", 0, 100000))
		if n == 0 {
			s.bad = true
		} else {
			s.buffer = n
		}
		return StreamBufferCapacity(n)
	case 4:
		n := uint(vInt("number", 0, 100000))
		s.streams = n
		return MaxConcurrentStreams(n)
	case 5:
		n := uint(vInt("number", 0, 100000))
		if n == 0 {
			s.bad = true
		} else {
			s.size = n
		}
		return MaximumReceiveMessageSize(n)
	case 6:
		d := time.Duration(vInt("duration", 1, 99)) * time.Second
		s.chanTimeout = d
		return ChanReceiveTimeout(d)
	case 7:
		s.detailed = vPickN("value", k, 2) == 1
		return EnableDetailedErrors(s.detailed)
	case 8:
		m, a := []string{"Simple", "Other"}[vPickN("value", k, 2)], []string{"a.b", "c d"}[vPickN("name", k, 2)]
		s.alternate[a] = m
		return WithAlternateMethodName(m, a)
	case 9:
		return nil
	case 10:
		if server(true) {
			s.hub = 1
		}
		return UseHub(&vOptHub{kind: 1})
	case 11:
		if server(true) {
			s.hub = 2
		}
		return HubFactory(func() HubInterface { return &vOptHub{kind: 2} })
	case 12:
		if server(true) {
			s.hub = 3
		}
		return SimpleHubFactory(&vSimpleOptHub{})
	case 13:
		if server(true) {
			s.hub = 4
		}
		return PerConnectionHubFactory(func(string) HubInterface { return &vOptHub{kind: 4} })
	case 14:
		t := [][]TransportType{{TransportWebSockets}, {TransportServerSentEvents}, {TransportServerSentEvents, TransportWebSockets},
			{TransportWebSockets, "LongPolling"}, {"websockets"}}
		i := vPickN("value", k, len(t))
		if server(i < 3) {
			s.transports = vTransportList(t[i])
		}
		return HTTPTransports(t[i]...)
	case 15:
		b := vPickN("value", k, 2) == 1
		s.skip = b
		return InsecureSkipVerify(b)
	case 16:
		o := [][]string{{"a"}, {"b", "c"}, {}}[vPickN("value", k, 3)]
		s.origins = strings.Join(o, " ")
		return AllowOriginPatterns(o)
	case 17:
		m := &vManager{}
		fails := vPickN("value", k, 2) == 1
		if server(!fails) {
			s.manager = m
		}
		return WithHubLifetimeManager(func(sv Server) (HubLifetimeManager, error) {
			vAssert(sv != nil, "the function which makes the lifetime manager does not get the server")
			if fails {
				return nil, errVManager
			}
			return m, nil
		})
	case 18:
		n := vInt("number", 0, 100000)
		if server(true) {
			s.limit = n
		}
		return MaxNegotiationConnections(n)
	case 19:
		if client(!s.connector) {
			s.conn = true
		}
		return WithConnection(s.link)
	case 20:
		if client(!s.conn) {
			s.connector, s.http = true, false
		}
		return WithConnector(func() (Connection, error) { return s.link, nil })
	case 21:
		if client(!s.conn) {
			s.connector, s.http = true, true
		}
		return WithHttpConnection(context.Background(), "http://h/x", WithHTTPClient(s.doer))
	case 22:
		r := []interface{}{&vOptReceiver{}, &vOptHub{}}[vPickN("value", k, 2)]
		if client(true) {
			s.receiver = r
		}
		return WithReceiver(r)
	case 23:
		if client(true) {
			s.backoff = true
		}
		return WithBackoff(func() backoff.BackOff { s.backoffs++; return &backoff.StopBackOff{} })
	case 24:
		if client(true) {
			s.format = "json"
		}
		return TransferFormat(TransferFormatText)
	case 25:
		if client(true) {
			s.format = "messagepack"
		}
		return TransferFormat(TransferFormatBinary)
	default:
		s.bad = true
		return TransferFormat(TransferFormatType(string([]byte{vPlain("letter")}) + "ext"))
	}
}

type vSimpleOptHub struct{ Hub }

type vOptReceiver struct{ Receiver }

func vTransportList(t []TransportType) string {
	ws, sse := false, false
	for _, x := range t {
		ws, sse = ws || x == TransportWebSockets, sse || x == TransportServerSentEvents
	}
	l := ""
	if ws {
		l += "ws"
	}
	if sse {
		l += "sse"
	}
	return l
}

// ZOptions makes a server or a client with some options.
func ZOptions() {
	isServer := vPick("server", 2) == 1
	s := &vSettings{timeout: 30 * time.Second, handshake: 15 * time.Second, keepAlive: 5 * time.Second, chanTimeout: 5 * time.Second,
		link: newVConn(context.Background(), "link"), doer: &vDoer{negStatus: 404},
		buffer: 10, streams: 100, size: 1 << 15, alternate: map[string]string{}, limit: 1000, format: "json"}
	options := []func(Party) error{Logger(vLog{}, false)}
	n := vParam("options")
	base := vPick("base", 3) // 0: none, 1: first, 2: last
	need := func() {
		if isServer {
			s.hub = 1
			options = append(options, UseHub(&vOptHub{kind: 1}))
		} else {
			s.bad = s.bad || s.conn
			s.connector, s.http = true, false
			options = append(options, WithConnector(func() (Connection, error) { return s.link, nil }))
		}
	}
	if base == 1 {
		need()
	}
	for k := 1; k <= n && !s.bad; k++ {
		options = append(options, vOption(k, isServer, s))
	}
	if base == 2 && !s.bad {
		need()
	}
	var p Party
	var err error
	var srv Server
	var cli Client
	if isServer {
		srv, err = NewServer(context.Background(), options...)
		p = srv
		s.bad = s.bad || s.hub == 0
	} else {
		cli, err = NewClient(context.Background(), options...)
		p, _ = cli.(Party)
		s.bad = s.bad || !s.conn && !s.connector
	}
	if s.bad {
		vAssert(err != nil, "an invalid option is accepted")
		vReach("refused")
		vReach("options-end")
		vDone()
		return
	}
	vAssert(err == nil && p != nil, "valid options are refused")
	vAssert(p.timeout() == s.timeout, "the timeout interval is not the configured one")
	vAssert(p.handshakeTimeout() == s.handshake, "the handshake timeout is not the configured one")
	vAssert(p.keepAliveInterval() == s.keepAlive, "the keep alive interval is not the configured one")
	vAssert(p.chanReceiveTimeout() == s.chanTimeout, "the channel receive timeout is not the configured one")
	vAssert(p.streamBufferCapacity() == s.buffer, "the stream buffer capacity is not the configured one")
	vAssert(p.maxConcurrentStreams() == s.streams, "the number of streams is not the configured one")
	vAssert(p.maximumReceiveMessageSize() == s.size, "the maximum message size is not the configured one")
	vAssert(p.enableDetailedErrors() == s.detailed, "detailed errors are not set as configured")
	for _, a := range []string{"a.b", "c d", "Simple"} {
		want, ok := s.alternate[a]
		if !ok {
			want = a
		}
		vAssert(p.getMethodNameByAlternateName(a) == want, "an alternate method name is not the configured one")
	}
	if isServer {
		vAssert(p.insecureSkipVerify() == s.skip, "InsecureSkipVerify is not set as configured")
		vAssert(strings.Join(p.originPatterns(), " ") == s.origins, "the origin patterns are not the configured ones")
		vAssert(srv.maxNegotiationConnections() == s.limit, "the number of negotiations is not the configured one")
		want := s.transports
		if want == "" {
			want = "wssse"
		}
		vAssert(vTransportList(srv.availableTransports()) == want, "the transports are not the configured ones")
		if s.manager == nil {
			// the hubs seen by a connection
			hc := func(id string) HubConnection {
				return newHubConnection(newVConn(context.Background(), id), &jsonHubProtocol{}, 1000, vLog{})
			}
			conn := hc("one")
			h1, h2, other := p.invocationTarget(conn), p.invocationTarget(conn), p.invocationTarget(hc("other"))
			o, isOpt := h1.(*vOptHub)
			_, isSimple := h1.(*vSimpleOptHub)
			vAssert(isSimple == (s.hub == 3) && isOpt == (s.hub != 3) && (!isOpt || o.kind == s.hub), "the hub is not the configured one")
			vAssert((h1 == h2) == (s.hub == 1 || s.hub == 4), "the hub is not made as configured")
			vAssert((h1 == other) == (s.hub == 1), "the hub of another connection is not made as configured")
		} else {
			srv.HubClients().All().Send("x")
			srv.HubClients().Group("g").Send("y")
			vWait()
			vAssert(s.manager.calls == "all x group g y ", "the clients are not reached by the configured lifetime manager")
			vReach("manager")
		}
		vReach("server")
	} else {
		if r, ok := s.receiver.(*vOptReceiver); ok {
			vAssert(r.Server() == cli, "the receiver does not know the client")
		}
		vAssert(cli.State() == ClientCreated, "a client which was not started is in another state")
		cli.Start()
		time.Sleep(100 * time.Millisecond)
		vWait()
		vAssert((s.backoffs > 0) == s.backoff, "the backoff is not the configured one")
		out := s.link.written()
		vAssert((len(out) == 0) == s.http && (len(s.doer.requests) > 0) == s.http, "the connection is not the configured one")
		if !s.http {
			vAssert(string(out[0]) == `{"protocol":"`+s.format+`","version":1}`+"\x1e", "the transfer format is not the configured one")
			vReach("format")
		}
		vReach("client")
	}
	vReach("options-end")
	vDone()
}
