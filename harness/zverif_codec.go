package signalr

import (
	"bytes"
	"encoding/json"
	"strings"
)

// vOneWriter records the writes it gets.
type vOneWriter struct {
	writes [][]byte
}

func (w *vOneWriter) Write(p []byte) (int, error) {
	w.writes = append(w.writes, append([]byte(nil), p...))
	return len(p), nil
}

// vAnyString is any string of one of several shapes: up to two ASCII bytes (controls, quotes, delimiters included), or one
// multi-byte character.
func vAnyString() string {
	in := func(name string, lo, hi byte) byte {
		b := vByte(name)
		vAssume(b >= lo && b <= hi)
		return b
	}
	hi := byte(0x7f)
	if vParam("proto") == 1 {
		hi = 0xff
	}
	shape := vParam("shape") - 1
	if shape < 0 {
		shape = vChoose("shape", vParam("shapes"))
	}
	switch shape {
	case 0:
		return string([]byte{in("a", 0, hi)})
	case 1:
		return string([]byte{in("a", 0, hi), in("b", 0, hi)})
	case 2:
		return string([]byte{in("u0", 0xc2, 0xdf), in("u1", 0x80, 0xbf)})
	case 3:
		return string([]byte{'x', 0xe2, in("v1", 0x80, 0x81), in("v2", 0x80, 0xbf)})
	case 4:
		return string([]byte{0xf0, 0x9f, in("w2", 0x80, 0xbf), 0x80, 'y'})
	case 5:
		return ""
	case 6:
		// what looks like an escape sequence
		return string([]byte{'\\', 'u', '0', '0', in("e", ' ', 'z'), in("f", ' ', 'z')})
	default:
		n := []int{31, 32, 255, 256, 300}[vChoose("len", vParam("lens"))]
		c := in("c", 'a', 'z')
		b := make([]byte, n)
		for i := range b {
			b[i] = c
		}
		return string(b)
	}
}

type vArgStruct struct {
	Num  int    `json:"num"`
	Text string `json:"text"`
}

// vArg makes an argument and returns a check of its decoded form.
func vArg(p hubProtocol, kinds int) (interface{}, func(raw interface{}) bool) {
	switch vChoose("arg", kinds) {
	case 0:
		s := vAnyString()
		return s, func(raw interface{}) bool {
			var d string
			return p.UnmarshalArgument(raw, &d) == nil && d == s
		}
	case 1:
		n := vConcrete(vInt("n", -2, 12))
		n = n * n * n * n * n * n * n * n
		return n, func(raw interface{}) bool {
			var d int
			return p.UnmarshalArgument(raw, &d) == nil && d == n
		}
	case 2:
		b := vBool("b")
		return b, func(raw interface{}) bool {
			var d bool
			return p.UnmarshalArgument(raw, &d) == nil && d == b
		}
	case 3:
		c := vByte("c")
		vAssume(c < 0x80)
		v := vArgStruct{Num: 42, Text: string([]byte{c})}
		return v, func(raw interface{}) bool {
			var d vArgStruct
			return p.UnmarshalArgument(raw, &d) == nil && d == v
		}
	case 4:
		c := vByte("c")
		v := []byte{c, 0x1e, 0}
		return v, func(raw interface{}) bool {
			var d []byte
			return p.UnmarshalArgument(raw, &d) == nil && bytes.Equal(d, v)
		}
	case 5:
		return nil, func(raw interface{}) bool {
			d := &vArgStruct{}
			return p.UnmarshalArgument(raw, &d) == nil && d == nil
		}
	default:
		v := map[string][]int{"a": {1, 2}, "b": {}}
		return v, func(raw interface{}) bool {
			var d map[string][]int
			return p.UnmarshalArgument(raw, &d) == nil && len(d) == 2 && len(d["a"]) == 2 && d["a"][1] == 2 && len(d["b"]) == 0
		}
	}
}

// vTransfer writes a message and reads it back.
func vTransfer(proto int, m interface{}) (hubProtocol, interface{}) {
	p := vProtocol(proto, 0)
	w := &vOneWriter{}
	err := p.WriteMessage(m, w)
	vAssert(err == nil, "a message can not be written")
	vAssert(len(w.writes) == 1, "a message is not written in one piece")
	b := w.writes[0]
	if proto == 0 {
		vAssert(len(b) > 0 && b[len(b)-1] == 0x1e, "the record has no delimiter")
		for _, c := range b[:len(b)-1] {
			vAssert(c != 0x1e, "the delimiter occurs inside the record")
		}
	} else {
		n, shift, i := 0, 0, 0
		for ; i < len(b); i++ {
			n |= int(b[i]&0x7f) << shift
			shift += 7
			if b[i] < 0x80 {
				break
			}
		}
		vAssert(n == len(b)-i-1, "the frame length is wrong")
		_, _, left, whole := vMPFields(b[i+1:])
		vAssert(whole && len(left) == 0, "the frame is not one MessagePack array")
	}
	var rest bytes.Buffer
	msgs, err := p.ParseMessages(bytes.NewBuffer(b), &rest)
	vAssert(err == nil, "a written message is refused")
	vAssert(len(msgs) == 1 && rest.Len() == 0, "a written message is not read as one message")
	return p, msgs[0]
}

// ZCodec writes a message of every kind with symbolic contents and reads it back.
func ZCodec() {
	proto := vParam("proto")
	vWarm(proto)
	args := vParam("args")
	str := func(f int, field int, def string) string {
		if f == field {
			return vAnyString()
		}
		return def
	}
	switch kind := vChoose("kind", 9); kind {
	case 0, 1:
		typ := 1 + 3*kind
		f := vChoose("field", 5)
		m := invocationMessage{Type: typ, Target: str(f, 0, "T"), InvocationID: str(f, 1, "17"), Arguments: []interface{}{}}
		var check []func(interface{}) bool
		p := vProtocol(proto, 0)
		switch f {
		case 2:
			for i := 0; i < vParam("nargs"); i++ {
				a, c := vArg(p, args)
				m.Arguments = append(m.Arguments, a)
				check = append(check, c)
			}
		case 3:
			// many arguments
			for n := []int{15, 16, 17}[vChoose("many", 3)]; n > 0; n-- {
				m.Arguments = append(m.Arguments, n)
				n := n
				check = append(check, func(raw interface{}) bool {
					var d int
					return p.UnmarshalArgument(raw, &d) == nil && d == n
				})
			}
			m.StreamIds = []string{"5"}
		case 4:
			for n := []int{1, 2, 16}[vChoose("ids", 3)]; n > 0; n-- {
				m.StreamIds = append(m.StreamIds, "s")
			}
			m.StreamIds[0] = vAnyString()
		}
		_, r := vTransfer(proto, m)
		g, ok := r.(invocationMessage)
		vAssert(ok && g.Type == m.Type && g.Target == m.Target && g.InvocationID == m.InvocationID, "invocation is changed")
		vAssert(len(g.StreamIds) == len(m.StreamIds), "stream ids are lost")
		for i := range m.StreamIds {
			vAssert(g.StreamIds[i] == m.StreamIds[i], "stream ids are changed")
		}
		vAssert(len(g.Arguments) == len(m.Arguments), "arguments are lost")
		for i := range check {
			vAssert(check[i](g.Arguments[i]), "argument is changed")
		}
	case 2:
		f := vChoose("field", 2)
		m := streamItemMessage{Type: 2, InvocationID: str(f, 0, "17"), Item: "x"}
		var check func(interface{}) bool
		if f == 1 {
			m.Item, check = vArg(vProtocol(proto, 0), args)
		}
		_, r := vTransfer(proto, m)
		g, ok := r.(streamItemMessage)
		vAssert(ok && g.Type == 2 && g.InvocationID == m.InvocationID, "stream item is changed")
		vAssert(check == nil || check(g.Item), "the item is changed")
	case 3:
		m := completionMessage{Type: 3, InvocationID: "17"}
		var check func(interface{}) bool
		m.Result, check = vArg(vProtocol(proto, 0), args)
		_, r := vTransfer(proto, m)
		g, ok := r.(completionMessage)
		vAssert(ok && g.Type == 3 && g.InvocationID == m.InvocationID && g.Error == "", "completion is changed")
		if m.Result == nil {
			vAssert(g.Result == nil, "a result is invented")
		} else {
			vAssert(g.Result != nil && check(g.Result), "the result is changed")
		}
	case 4:
		f := vChoose("field", 2)
		m := completionMessage{Type: 3, InvocationID: str(f, 0, "17"), Error: str(f, 1, "failed")}
		_, r := vTransfer(proto, m)
		g, ok := r.(completionMessage)
		vAssert(ok && g == m, "completion with error is changed")
	case 5:
		m := cancelInvocationMessage{Type: 5, InvocationID: vAnyString()}
		_, r := vTransfer(proto, m)
		g, ok := r.(cancelInvocationMessage)
		vAssert(ok && g == m, "cancel is changed")
	case 6:
		m := hubMessage{Type: 6}
		_, r := vTransfer(proto, m)
		g, ok := r.(hubMessage)
		vAssert(ok && g == m, "ping is changed")
	case 7:
		m := closeMessage{Type: 7, Error: vAnyString(), AllowReconnect: vBool("reconnect")}
		_, r := vTransfer(proto, m)
		g, ok := r.(closeMessage)
		vAssert(ok && g == m, "close is changed")
	case 8:
		m := completionMessage{Type: 3, InvocationID: vAnyString()}
		_, r := vTransfer(proto, m)
		g, ok := r.(completionMessage)
		vAssert(ok && g == m, "completion without result is changed")
	}
	vReach("codec-end")
}

// vNode is a MessagePack value, decoded independently of the library.
type vNode struct {
	kind byte // n nil, b bool, i integer, f float, s string, d binary, a array, m map, e extension
	i    int64
	s    string
	sub  []vNode
	raw  []byte
}

// vDecode decodes the value at the beginning of b; ok is false when it is incomplete or invalid.
func vDecode(b []byte, depth int) (n vNode, rest []byte, ok bool) {
	if len(b) == 0 || depth > 8 {
		return n, b, false
	}
	c := b[0]
	r := b[1:]
	num := func(k int) (v uint64) {
		if len(r) < k {
			ok = false
			return 0
		}
		for _, x := range r[:k] {
			v = v<<8 | uint64(x)
		}
		r = r[k:]
		return v
	}
	ok = true
	size, items := -1, -1
	switch {
	case c <= 0x7f || c >= 0xe0:
		n.kind, n.i = 'i', int64(int8(c))
	case c <= 0x8f:
		n.kind, items = 'm', 2*int(c&15)
	case c <= 0x9f:
		n.kind, items = 'a', int(c&15)
	case c <= 0xbf:
		n.kind, size = 's', int(c&31)
	case c == 0xc0:
		n.kind = 'n'
	case c == 0xc1:
		return n, b, false
	case c <= 0xc3:
		n.kind, n.i = 'b', int64(c&1)
	case c <= 0xc6:
		n.kind, size = 'd', int(num(1<<(c-0xc4)))
	case c <= 0xc9:
		n.kind, size = 'e', int(num(1<<(c-0xc7)))+1
	case c <= 0xcb:
		n.kind = 'f'
		num(4 << (c - 0xca))
	case c <= 0xcf:
		n.kind, n.i = 'i', int64(num(1<<(c-0xcc)))
	case c == 0xd0:
		n.kind, n.i = 'i', int64(int8(num(1)))
	case c == 0xd1:
		n.kind, n.i = 'i', int64(int16(num(2)))
	case c == 0xd2:
		n.kind, n.i = 'i', int64(int32(num(4)))
	case c == 0xd3:
		n.kind, n.i = 'i', int64(num(8))
	case c <= 0xd8:
		n.kind, size = 'e', 1<<(c-0xd4)+1
	case c <= 0xdb:
		n.kind, size = 's', int(num(1<<(c-0xd9)))
	case c <= 0xdd:
		n.kind, items = 'a', int(num(2<<(c-0xdc)))
	default:
		n.kind, items = 'm', 2*int(num(2<<(c-0xde)))
	}
	if !ok {
		return n, b, false
	}
	if size >= 0 {
		if len(r) < size {
			return n, b, false
		}
		n.s = string(r[:size])
		r = r[size:]
	}
	for i := 0; i < items; i++ {
		var x vNode
		x, r, ok = vDecode(r, depth+1)
		if !ok {
			return n, b, false
		}
		n.sub = append(n.sub, x)
	}
	n.raw = b[:len(b)-len(r)]
	return n, r, true
}

// vIsText says whether the node is accepted as the string s; the library takes nil for the empty string and binary for string.
func vIsText(n vNode, s string) bool {
	switch n.kind {
	case 'n':
		return s == ""
	case 's', 'd':
		return n.s == s
	}
	return false
}

// vMPFields splits the frame of a message into its fields as far as they are complete.
func vMPFields(b []byte) (count int, f []vNode, rest []byte, whole bool) {
	if len(b) == 0 {
		return 0, nil, b, false
	}
	c := b[0]
	r := b[1:]
	switch {
	case c >= 0x90 && c <= 0x9f:
		count = int(c & 15)
	case c == 0xdc && len(r) >= 2:
		count = int(r[0])<<8 | int(r[1])
		r = r[2:]
	case c == 0xdd && len(r) >= 4:
		count = int(r[0])<<24 | int(r[1])<<16 | int(r[2])<<8 | int(r[3])
		r = r[4:]
	default:
		return 0, nil, b, false
	}
	for i := 0; i < count; i++ {
		if i == 1 && len(r) > 0 && f[0].i != 7 {
			// the library skips an extension's head before a map
			if c := r[0]; c >= 0xd4 && c <= 0xd8 && len(r) > 1 {
				r = r[2:]
			} else if c >= 0xc7 && c <= 0xc9 && len(r) > 1+1<<(c-0xc7) {
				r = r[2+1<<(c-0xc7):]
			}
		}
		n, rest, ok := vDecode(r, 0)
		if !ok {
			return count, f, r, false
		}
		f = append(f, n)
		r = rest
	}
	return count, f, r, true
}

// vMPJustified says whether a delivered message has the contents of the frame.
func vMPJustified(b []byte, m interface{}) bool {
	count, f, rest, _ := vMPFields(b)
	if len(f) == 0 || f[0].kind != 'i' && f[0].kind != 'n' {
		return false
	}
	typ := int(f[0].i)
	if h, ok := m.(hubMessage); ok {
		return h.Type == typ && (typ == 6 && count == 1 || typ < 1 || typ > 7)
	}
	if g, ok := m.(closeMessage); ok && typ == 7 && g.Type == 7 {
		if count == 3 && len(f) == 3 && f[1].kind == 'm' && len(f[1].sub) == 0 {
			// with the empty header that former versions sent
			n, _, ok := vDecode(rest, 0)
			return ok && vIsText(f[2], g.Error) && (n.kind == 'b' || n.kind == 'n') && g.AllowReconnect == (n.i == 1)
		}
		if len(f) < 2 || !vIsText(f[1], g.Error) {
			return false
		}
		if count < 3 {
			return !g.AllowReconnect
		}
		return len(f) > 2 && (f[2].kind == 'b' || f[2].kind == 'n') && g.AllowReconnect == (f[2].i == 1)
	}
	if len(f) < 3 || f[1].kind != 'm' && f[1].kind != 'n' {
		return false
	}
	switch g := m.(type) {
	case invocationMessage:
		if typ != 1 && typ != 4 || g.Type != typ || len(f) < 5 || !vIsText(f[2], g.InvocationID) || !vIsText(f[3], g.Target) {
			return false
		}
		if f[4].kind != 'a' && f[4].kind != 'n' || len(f[4].sub) != len(g.Arguments) {
			return false
		}
		for i, a := range f[4].sub {
			if vRaw(g.Arguments[i]) != string(a.raw) {
				return false
			}
		}
		if count == 5 {
			return len(g.StreamIds) == 0
		}
		if len(f) < 6 || f[5].kind != 'a' && f[5].kind != 'n' || len(f[5].sub) != len(g.StreamIds) {
			return false
		}
		for i, s := range f[5].sub {
			if !vIsText(s, g.StreamIds[i]) {
				return false
			}
		}
		return true
	case streamItemMessage:
		return typ == 2 && g.Type == 2 && count == 4 && len(f) == 4 && vIsText(f[2], g.InvocationID) && vRaw(g.Item) == string(f[3].raw)
	case completionMessage:
		if typ != 3 || g.Type != 3 || len(f) < 4 || !vIsText(f[2], g.InvocationID) || f[3].kind != 'i' {
			return false
		}
		switch f[3].i {
		case 1:
			return len(f) > 4 && vIsText(f[4], g.Error) && g.Result == nil
		case 2:
			return g.Error == "" && g.Result == nil
		case 3:
			return len(f) > 4 && g.Error == "" && vRaw(g.Result) == string(f[4].raw)
		}
		return false
	case cancelInvocationMessage:
		return typ == 5 && g.Type == 5 && count == 3 && vIsText(f[2], g.InvocationID)
	}
	return false
}

// vMPValid says whether the frame is a message as the protocol defines it.
func vMPValid(b []byte) bool {
	count, f, _, whole := vMPFields(b)
	if !whole || count == 0 || f[0].kind != 'i' {
		return false
	}
	if f[0].i == 6 {
		return count == 1
	}
	if f[0].i == 7 {
		return (count == 2 || count == 3 && f[2].kind == 'b') && (f[1].kind == 's' || f[1].kind == 'n')
	}
	if count < 3 || f[1].kind != 'm' {
		return false
	}
	for i := 0; i < len(f[1].sub); i += 2 {
		if f[1].sub[i].kind != 's' {
			return false
		}
	}
	switch f[0].i {
	case 1, 4:
		if count != 5 && count != 6 || f[2].kind != 's' && f[2].kind != 'n' || f[3].kind != 's' || f[4].kind != 'a' {
			return false
		}
		if count == 6 {
			if f[5].kind != 'a' {
				return false
			}
			for _, s := range f[5].sub {
				if s.kind != 's' {
					return false
				}
			}
		}
		return true
	case 2:
		return count == 4 && f[2].kind == 's'
	case 3:
		return f[2].kind == 's' && count >= 4 && f[3].kind == 'i' &&
			(f[3].i == 2 && count == 4 || f[3].i == 3 && count == 5 || f[3].i == 1 && count == 5 && f[4].kind == 's')
	case 5:
		return count == 3 && f[2].kind == 's'
	}
	return false
}

var vMPTemplates = []string{
	"\x96\x01\x80\xa11\xa1T\x92\x01\xa1a\x91\xa12",
	"\x95\x04\x81\xa1k\xa1v\xc0\xa1T\x91\x92\x01\x81\xa1q\xc3",
	"\x94\x02\x80\xa11\xc4\x02\x1e\x00",
	"\x95\x03\x80\xa11\x03\xca\x00\x00\x00\x00",
	"\x95\x03\x80\xa11\x01\xd9\x02no",
	"\x94\x03\x80\xa11\x02",
	"\x93\x05\x80\xa11",
	"\x91\x06",
	"\x93\x07\xa1e\xc3",
	"\x92\x07\xc0",
	"\x93\x07\x80\xa1e\xc3",
	"\x93\x05\x81\xa1k\xa1v\xa11",
}

// ZC06MP feeds an arbitrary frame to the MessagePack protocol.
func ZC06MP() {
	vWarm(1)
	var b []byte
	if n := vParam("n"); n > 0 {
		b = vBytes("b", n)
	} else {
		t := vMPTemplates[vPick("template", len(vMPTemplates))]
		w := vBytes("w", vParam("w"))
		i := vConcrete(vInt("at", 0, len(t)))
		// the window replaces that many bytes, or is inserted
		j := i + vConcrete(vInt("gap", 0, vParam("gap")))
		if j > len(t) {
			j = len(t)
		}
		b = append(append([]byte(t[:i]), w...), t[j:]...)
	}
	p := vProtocol(1, 0)
	rd := &vReader{data: vFrame(1, b), cuts: []int{len(b) + 1}}
	var rest bytes.Buffer
	msgs, err := p.ParseMessages(rd, &rest)
	vAssert(err != nil || len(msgs) == 1, "neither a message nor an error")
	if err == nil {
		vAssert(vMPJustified(b, msgs[0]), "a message with invented content is delivered")
		vReach("delivered")
	} else {
		vAssert(len(msgs) == 0, "a message is delivered for an invalid frame")
		vAssert(!vMPValid(b), "a valid message is refused")
		vReach("refused")
	}
	if inv, ok := vFirst(msgs).(invocationMessage); ok {
		for _, a := range inv.Arguments {
			vDecodeArg(p, a)
		}
	}
	vReach("c06-end")
}

func vFirst(m []interface{}) interface{} {
	if len(m) == 0 {
		return nil
	}
	return m[0]
}

// vDecodeArg decodes an argument into parameters of several types; whatever it is, this ends with a value or an error.
func vDecodeArg(p hubProtocol, a interface{}) {
	switch vChoose("param", 6) {
	case 0:
		var d interface{}
		_ = p.UnmarshalArgument(a, &d)
	case 1:
		var d int
		_ = p.UnmarshalArgument(a, &d)
	case 2:
		var d []string
		_ = p.UnmarshalArgument(a, &d)
	case 3:
		var d map[interface{}]interface{}
		_ = p.UnmarshalArgument(a, &d)
	case 4:
		var d vArgStruct
		_ = p.UnmarshalArgument(a, &d)
	case 5:
		var d *[]byte
		_ = p.UnmarshalArgument(a, &d)
	}
}

// vPick is the parameter of that name minus one, or any value in [0, n) when it is not given.
// vPickN is the k-th choice of that name. A parameter of the name with the number fixes it.
func vPickN(name string, k int, n int) int {
	if p := vParam(name + string(rune('0'+k))); p > 0 {
		return p - 1
	}
	return vPick(name, n)
}

func vPick(name string, n int) int {
	if p := vParam(name); p > 0 {
		return p - 1
	}
	return vChoose(name, n)
}

var vJSONTemplates = []string{
	"{\"type\":1,\"target\":\"T\",\"invocationId\":\"1\",\"arguments\":[1,\"a\"],\"streamIds\":[\"2\"]}",
	"{\"type\":4,\"target\":\"T\",\"arguments\":[{\"q\":[true]}]}",
	"{\"type\":2,\"invocationId\":\"1\",\"item\":\"a\"}",
	"{\"type\":3,\"invocationId\":\"1\",\"result\":0.5}",
	"{\"type\":3,\"invocationId\":\"1\",\"error\":\"no\"}",
	"{\"type\":5,\"invocationId\":\"1\"}",
	"{\"type\":6}",
	"{\"type\":7,\"error\":\"e\",\"allowReconnect\":true}",
}

// vField gives the value of a field; unique is false when there are several fields that could be meant.
func vField(m map[string]json.RawMessage, name string) (raw json.RawMessage, unique bool) {
	n := 0
	for k, v := range m {
		if strings.EqualFold(k, name) {
			raw = v
			n++
		}
	}
	return raw, n < 2
}

// vIsJSONText says whether the field, if it is unique, has the string as its value.
func vIsJSONText(m map[string]json.RawMessage, name, got string) bool {
	raw, unique := vField(m, name)
	if !unique {
		return true
	}
	if raw == nil || string(raw) == "null" {
		return got == ""
	}
	var v interface{}
	if json.Unmarshal(raw, &v) != nil {
		return false
	}
	s, ok := v.(string)
	return ok && s == got
}

// vJSONJustified says whether a delivered message has the contents of the record.
func vJSONJustified(b []byte, m interface{}) bool {
	if string(bytes.TrimSpace(b)) == "null" {
		// a record without any field
		h, ok := m.(hubMessage)
		return ok && h.Type == 0
	}
	var f map[string]json.RawMessage
	if json.Unmarshal(b, &f) != nil {
		return false
	}
	typ := 0
	raw, unique := vField(f, "type")
	if !unique {
		return true
	}
	if raw != nil && json.Unmarshal(raw, &typ) != nil {
		return false
	}
	list := func(name string) []json.RawMessage {
		var l []json.RawMessage
		raw, unique := vField(f, name)
		if !unique {
			return nil
		}
		_ = json.Unmarshal(raw, &l)
		return l
	}
	switch g := m.(type) {
	case hubMessage:
		return g.Type == typ && (typ < 1 || typ > 7 || typ == 6)
	case invocationMessage:
		if typ != 1 && typ != 4 || g.Type != typ || !vIsJSONText(f, "target", g.Target) || !vIsJSONText(f, "invocationId", g.InvocationID) {
			return false
		}
		if l := list("arguments"); l != nil {
			if len(l) != len(g.Arguments) {
				return false
			}
			for i := range l {
				if vRaw(g.Arguments[i]) != string(l[i]) {
					return false
				}
			}
		}
		if l := list("streamIds"); l != nil {
			if len(l) != len(g.StreamIds) {
				return false
			}
			for i := range l {
				var id string
				if json.Unmarshal(l[i], &id) != nil || id != g.StreamIds[i] {
					return false
				}
			}
		}
		return true
	case streamItemMessage:
		raw, unique := vField(f, "item")
		return typ == 2 && g.Type == 2 && vIsJSONText(f, "invocationId", g.InvocationID) && (!unique || vRaw(g.Item) == string(raw))
	case completionMessage:
		raw, unique := vField(f, "result")
		return typ == 3 && g.Type == 3 && vIsJSONText(f, "invocationId", g.InvocationID) && vIsJSONText(f, "error", g.Error) &&
			(!unique || raw == nil && g.Result == nil || raw != nil && vRaw(g.Result) == string(raw))
	case cancelInvocationMessage:
		return typ == 5 && g.Type == 5 && vIsJSONText(f, "invocationId", g.InvocationID)
	case closeMessage:
		var allow bool
		raw, unique := vField(f, "allowReconnect")
		if unique && raw != nil && (json.Unmarshal(raw, &allow) != nil || allow != g.AllowReconnect) {
			return false
		}
		return typ == 7 && g.Type == 7 && vIsJSONText(f, "error", g.Error)
	}
	return false
}

// ZC06JSON feeds an arbitrary record to the JSON protocol.
func ZC06JSON() {
	vWarm(0)
	var b []byte
	if n := vParam("n"); n > 0 {
		b = vBytes("b", n)
	} else {
		t := vJSONTemplates[vPick("template", len(vJSONTemplates))]
		w := vBytes("w", vParam("w"))
		i := vConcrete(vInt("at", 0, len(t)))
		j := i + vConcrete(vInt("gap", 0, vParam("gap")))
		if j > len(t) {
			j = len(t)
		}
		b = append(append([]byte(t[:i]), w...), t[j:]...)
	}
	for _, c := range b {
		vAssume(c != 0x1e)
	}
	p := vProtocol(0, 0)
	rd := &vReader{data: vFrame(0, b), cuts: []int{len(b) + 1}}
	var rest bytes.Buffer
	msgs, err := p.ParseMessages(rd, &rest)
	vAssert(err != nil || len(msgs) == 1, "neither a message nor an error")
	if err == nil {
		vAssert(vJSONJustified(b, msgs[0]), "a message with invented content is delivered")
		vReach("delivered")
	} else {
		vAssert(len(msgs) == 0, "a message is delivered for an invalid record")
		vReach("refused")
	}
	if inv, ok := vFirst(msgs).(invocationMessage); ok {
		for _, a := range inv.Arguments {
			vDecodeArg(p, a)
		}
	}
	vReach("c06-end")
}

var vJSONFields = [][]string{
	{"type", "target", "invocationId", "arguments", "streamIds"},
	{"type", "invocationId", "item"},
	{"type", "invocationId", "result"},
	{"type", "invocationId", "error"},
	{"type", "invocationId"},
	{"type"},
	{"type", "error", "allowReconnect"},
}

// vJSONOK says which kind of value a field has: s text, n number, b bool, l list, t list of text, v anything.
var vJSONOK = map[string]byte{"type": 'n', "target": 's', "invocationId": 's', "arguments": 'l', "streamIds": 't', "error": 's', "allowReconnect": 'b', "item": 'v', "result": 'v'}

var vJSONDefault = map[string]string{"target": "\"T\"", "invocationId": "\"1\"", "arguments": "[7]", "streamIds": "[\"2\"]", "error": "\"e\"",
	"allowReconnect": "true", "item": "5", "result": "[6]"}

var vJSONValues = []string{"null", "5", "-1.5", "\"x\"", "true", "{}", "[]", "[null]", "[1,\"a\"]", "[\"k\"]", "{\"type\":3}", "\"\"", "[{},[]]"}

// vJSONFits says whether the value is one the field may have; null stands for a missing value.
func vJSONFits(kind byte, v string) bool {
	if v == "null" || kind == 'v' {
		return true
	}
	switch kind {
	case 's':
		return v[0] == '"'
	case 'n':
		return v == "5"
	case 'b':
		return v == "true"
	case 't':
		return v == "[]" || v == "[\"k\"]" || v == "[null]"
	}
	return v[0] == '['
}

// ZJSONFields parses a message of every kind in which one field is missing or has any of several values of all types, right
// or wrong.
func ZJSONFields() {
	vWarm(0)
	k := vPick("kind", 8)
	typ := []string{"1", "2", "3", "3", "5", "6", "7", "4"}[k]
	fields := vJSONFields[k%7]
	at := vChoose("field", len(fields))
	also := vChoose("also", len(fields)) // another field may be missing
	ok := true
	b := "{"
	for i, f := range fields {
		v := vJSONDefault[f]
		if f == "type" {
			v = typ
		}
		if i == at {
			v = vJSONValues[vChoose("value", len(vJSONValues))]
			ok = ok && vJSONFits(vJSONOK[f], v)
		} else if i == also {
			continue
		}
		if len(b) > 1 {
			b += ","
		}
		b += "\"" + f + "\":" + v
	}
	b += "}"
	p := vProtocol(0, 0)
	var rest bytes.Buffer
	msgs, err := p.ParseMessages(bytes.NewBuffer(vFrame(0, []byte(b))), &rest)
	vAssert(err != nil || len(msgs) == 1, "neither a message nor an error")
	if err == nil {
		vAssert(vJSONJustified([]byte(b), msgs[0]), "a message is delivered with other content than received")
		vAssert(ok || at != 0, "a message with an invalid type is delivered")
		vReach("delivered")
	} else {
		vAssert(len(msgs) == 0, "a message is delivered for an invalid record")
		vAssert(!ok, "a valid message is refused")
		vReach("refused")
	}
	vReach("fields-end")
}

var vMPValues = []string{"\xc0", "\x05", "\xd1\xff\x00", "\xa1x", "\xa0", "\xc3", "\x80", "\x90", "\x91\xc0", "\x92\x01\xa1a", "\x91\xa1k", "\xc4\x01z", "\xcb\x00\x00\x00\x00\x00\x00\x00\x00", "\x81\xa1k\xa1v"}

var vMPMessages = [][]string{
	{"\x01", "\x80", "\xa11", "\xa1T", "\x91\x07", "\x91\xa12"},
	{"\x04", "\x80", "\xc0", "\xa1T", "\x90"},
	{"\x02", "\x80", "\xa11", "\x05"},
	{"\x03", "\x80", "\xa11", "\x03", "\x91\x06"},
	{"\x03", "\x80", "\xa11", "\x01", "\xa1e"},
	{"\x03", "\x80", "\xa11", "\x02"},
	{"\x05", "\x80", "\xa11"},
	{"\x06"},
	{"\x07", "\xa1e", "\xc3"},
}

// ZMPFields parses a message of every kind in which one field has any of several values of all types, right or wrong, and
// fields are missing at the end or added.
func ZMPFields() {
	vWarm(1)
	m := append([]string(nil), vMPMessages[vPick("kind", len(vMPMessages))]...)
	i := vChoose("field", len(m)+1)
	if i < len(m) {
		m[i] = vMPValues[vChoose("value", len(vMPValues))]
	}
	switch vChoose("size", 3) {
	case 1:
		m = m[:len(m)-1]
	case 2:
		m = append(m, vMPValues[vChoose("more", len(vMPValues))])
	}
	b := []byte{0x90 | byte(len(m))}
	for _, f := range m {
		b = append(b, f...)
	}
	p := vProtocol(1, 0)
	var rest bytes.Buffer
	msgs, err := p.ParseMessages(bytes.NewBuffer(vFrame(1, b)), &rest)
	vAssert(err != nil || len(msgs) == 1, "neither a message nor an error")
	if err == nil {
		vAssert(vMPJustified(b, msgs[0]), "a message is delivered with other content than received")
		vReach("delivered")
	} else {
		vAssert(len(msgs) == 0, "a message is delivered for an invalid frame")
		vAssert(!vMPValid(b), "a valid message is refused")
		vReach("refused")
	}
	vReach("fields-end")
}

// ZMPLen writes messages of all sizes around the boundaries of the length prefix and reads them back.
func ZMPLen() {
	vWarm(1)
	lo := []int{100, 16384 - 30, 0}[vPick("range", 3)]
	n := lo + vChoose("n", vParam("span"))
	c := vPlain("c")
	s := make([]byte, n)
	for i := range s {
		s[i] = c
	}
	var m interface{}
	switch vChoose("kind", 4) {
	case 0:
		m = invocationMessage{Type: 1, Target: "T", InvocationID: "1", Arguments: []interface{}{string(s)}}
	case 1:
		m = streamItemMessage{Type: 2, InvocationID: "1", Item: string(s)}
	case 2:
		m = completionMessage{Type: 3, InvocationID: "1", Result: string(s)}
	case 3:
		m = closeMessage{Type: 7, Error: string(s)}
	}
	p, r := vTransfer(1, m)
	var got string
	switch x := r.(type) {
	case invocationMessage:
		vAssert(len(x.Arguments) == 1 && p.UnmarshalArgument(x.Arguments[0], &got) == nil, "the argument is lost")
	case streamItemMessage:
		vAssert(p.UnmarshalArgument(x.Item, &got) == nil, "the item is lost")
	case completionMessage:
		vAssert(p.UnmarshalArgument(x.Result, &got) == nil, "the result is lost")
	case closeMessage:
		got = x.Error
	}
	vAssert(got == string(s), "the content is changed")
	vReach("len-end")
}
