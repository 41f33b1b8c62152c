package signalr

import (
	"bufio"
	"net"
)

// vHijack is the response to a request for a WebSocket.
type vHijack struct {
	vWriter
	conn     *vNetConn
	hijacked int
	dup      *vDuplex
	took     chan struct{}
}

func (w *vHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	w.hijacked++
	if w.dup != nil {
		close(w.took)
		return w.dup, bufio.NewReadWriter(bufio.NewReader(w.dup), bufio.NewWriter(w.dup)), nil
	}
	return w.conn, bufio.NewReadWriter(bufio.NewReader(w.conn), bufio.NewWriter(w.conn)), nil
}

// vWSFrame is a WebSocket frame from a client.
func vWSFrame(op byte, data string) []byte {
	b := []byte{0x80 | op, 0x80 | byte(len(data)), 1, 2, 3, 4}
	for i := 0; i < len(data); i++ {
		b = append(b, data[i]^byte(i%4+1))
	}
	return b
}
