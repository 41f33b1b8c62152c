package signalr

import (
	"strings"
	"time"
)

// vOriginAllowed tells if a page of an origin may use a server with these patterns at this host.
func vOriginAllowed(scheme, host, own string, patterns int) bool {
	host, own = strings.ToLower(host), strings.ToLower(own)
	if host == own {
		return true
	}
	switch patterns {
	case 1, 5:
		return host == "good.example"
	case 2:
		return strings.HasSuffix(host, ".sub.example") || host == "port.example:8080"
	case 3:
		return scheme == "https" && host == "good.example"
	case 4:
		return true
	}
	return false
}

// ZOrigin connects with WebSockets from pages of all kinds of origins.
func ZOrigin() {
	patterns := vPick("patterns", 7)
	skip := vPick("skip", 4)
	options := []func(Party) error{HandshakeTimeout(2 * time.Second)}
	switch patterns {
	case 1:
		options = append(options, AllowOriginPatterns([]string{"good.example"}))
	case 2:
		options = append(options, AllowOriginPatterns([]string{"*.sub.example", "port.example:8080"}))
	case 3:
		options = append(options, AllowOriginPatterns([]string{"https://GOOD.example"}))
	case 4:
		options = append(options, AllowOriginPatterns([]string{"*"}))
	case 5: // the last one is in effect
		options = append(options, AllowOriginPatterns([]string{"*"}), AllowOriginPatterns([]string{"Good.example"}))
	case 6:
		options = append(options, AllowOriginPatterns([]string{}))
	}
	switch skip {
	case 1:
		options = append([]func(Party) error{InsecureSkipVerify(true)}, options...)
	case 2:
		options = append(options, InsecureSkipVerify(false))
	case 3:
		options = append(options, InsecureSkipVerify(true), InsecureSkipVerify(false))
	}
	h := vWebServer(options...)
	schemes := []string{"http", "https"}
	c := string([]byte{vPlain("letter")})
	hosts := []string{"", "good.example", "GOOD.Example", "goo" + c + ".example", "a" + c + ".sub.example", "x.y.sub.example", "sub.example", "evilsub.example", "port.example:8080", "port.example",
		"good.example.evil.example", "good.example:81", "h", "H", c, "h:80"}
	i := vPick("host", len(hosts)+1)
	var headers []string
	allowed := true
	if i == len(hosts) {
		headers, allowed = []string{"Origin", "null"}, false
	} else if hosts[i] != "" {
		s := schemes[vPick("scheme", 2)]
		headers = []string{"Origin", s + "://" + hosts[i]}
		allowed = vOriginAllowed(s, hosts[i], "h", patterns)
	}
	if patterns == 4 {
		allowed = true
	}
	if skip == 1 {
		allowed = true
	}
	version := vPick("version", 2)
	w := h.negotiate(version)
	vWait()
	l := w.link(version, nil)
	key := l.key
	if vPick("direct", 2) == 1 {
		key = ""
	}
	sock := h.webSocket(h.ctx, key, headers...)
	vWait()
	if allowed {
		n := &vLink{key: l.key, id: l.id, ws: true, sock: sock, free: key == ""}
		n.works(h)
		vReach("allowed")
	} else {
		st, done := sock.ended()
		vAssert(done && st == 403 && sock.hijacked == 0, "a WebSocket of a page of another origin is not refused with 403")
		for _, c := range vCalls() {
			vAssert(!strings.HasPrefix(c, "connected"), "a WebSocket which is refused starts a connection")
		}
		// this was not the user of the id
		l.ws = true
		l.sock = h.webSocket(h.ctx, l.key)
		vWait()
		l.works(h)
		vReach("refused")
	}
	vReach("origin-end")
	vDone()
}
