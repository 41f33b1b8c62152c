From a514d449ff20aa9874634878a3f0f414495cf664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 01/54] fix: a JSON record without type must not inherit the
 type of the record before it

---
 jsonhubprotocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index ce1e7bd..1c2006f 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -70,9 +70,9 @@ func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffe
 	if err != nil {
 		return nil, err
 	}
-	message := hubMessage{}
 	messages = make([]interface{}, 0)
 	for _, frame := range frames {
+		message := hubMessage{}
 		err = json.Unmarshal(frame, &message)
 		_ = j.dbg.Log(evt, "read", msg, string(frame))
 		if err != nil {
-- 
2.43.0


From 912d36262ba93d7d5b4e205051715c2507c67947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 02/54] fix: deliver the messages received before an invalid
 one

---
 hubconnection.go          | 19 +++++++++----------
 hubprotocol.go            |  3 ++-
 jsonhubprotocol.go        |  7 ++++---
 messagepackhubprotocol.go |  3 ++-
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 8c60f85..b7b9b7a 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -142,6 +142,15 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 				break loop
 			default:
 				messages, err := c.protocol.ParseMessages(reader, &remainBuf)
+				for _, message := range messages {
+					select {
+					case recvChan <- receiveResult{message: message}:
+					case <-ctx.Done():
+						break loop
+					case <-writerDone:
+						break loop
+					}
+				}
 				if err != nil {
 					select {
 					case recvChan <- receiveResult{err: err}:
@@ -150,16 +159,6 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 					case <-writerDone:
 						break loop
 					}
-				} else {
-					for _, message := range messages {
-						select {
-						case recvChan <- receiveResult{message: message}:
-						case <-ctx.Done():
-							break loop
-						case <-writerDone:
-							break loop
-						}
-					}
 				}
 			}
 		}
diff --git a/hubprotocol.go b/hubprotocol.go
index 3d3d1e1..43ddf73 100644
--- a/hubprotocol.go
+++ b/hubprotocol.go
@@ -7,7 +7,8 @@ import (
 
 // hubProtocol interface
 // ParseMessages() parses messages from an io.Reader and stores unparsed bytes in remainBuf.
-// If buf does not contain the whole message, it returns a nil message and complete false
+// If buf does not contain the whole message, it returns a nil message and complete false.
+// If it returns an error, the messages returned with it were received before the error occurred.
 // WriteMessage writes a message to the specified writer
 // UnmarshalArgument() unmarshals a raw message depending of the specified value type into a destination value
 type hubProtocol interface {
diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index 1c2006f..80705f3 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -64,7 +64,8 @@ func (j *jsonHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) er
 	return nil
 }
 
-// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf
+// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf.
+// When a message is invalid, the valid messages before it are returned together with the error.
 func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffer) (messages []interface{}, err error) {
 	frames, err := readJSONFrames(reader, remainBuf, int(j.maximumReceiveMessageSize))
 	if err != nil {
@@ -76,11 +77,11 @@ func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffe
 		err = json.Unmarshal(frame, &message)
 		_ = j.dbg.Log(evt, "read", msg, string(frame))
 		if err != nil {
-			return nil, &jsonError{string(frame), err}
+			return messages, &jsonError{string(frame), err}
 		}
 		typedMessage, err := j.parseMessage(message.Type, frame)
 		if err != nil {
-			return nil, err
+			return messages, err
 		}
 		// No specific type (aka Ping), use hubMessage
 		if typedMessage == nil {
diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 8b26358..7d68f54 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -25,7 +25,8 @@ func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *byte
 	for _, frame := range frames {
 		message, err := m.parseMessage(bytes.NewBuffer(frame))
 		if err != nil {
-			return nil, err
+			// The valid messages before the invalid one are returned together with the error
+			return messages, err
 		}
 		messages = append(messages, message)
 	}
-- 
2.43.0


From c5d1976c270799846fe75e6972ff746feaff18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 03/54] fix: MessagePack frames are delivered when they are
 complete, whatever the transport's reads look like

---
 messagepackhubprotocol.go | 99 ++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 53 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 7d68f54..0e2f677 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -33,69 +33,62 @@ func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *byte
 	return messages, nil
 }
 
+// readFrames returns all complete frames from remainBuf. If there are none, it reads from the reader until at least one
+// frame is complete. The bytes of an incomplete frame are kept in remainBuf.
 func (m *messagePackHubProtocol) readFrames(reader io.Reader, remainBuf *bytes.Buffer) ([][]byte, error) {
-	frames := make([][]byte, 0)
+	p := make([]byte, 1<<15)
 	for {
-		// Try to get the frame length
-		frameLenBuf := make([]byte, binary.MaxVarintLen32)
-		n1, err := remainBuf.Read(frameLenBuf)
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
-			return nil, err
+		frames, err := m.splitFrames(remainBuf)
+		if err != nil || len(frames) > 0 {
+			return frames, err
+		}
+		n, err := reader.Read(p)
+		_, _ = remainBuf.Write(p[:n])
+		if n == 0 && errors.Is(err, io.EOF) {
+			// Let the caller come here again later
+			return frames, nil
 		}
-		n2, err := reader.Read(frameLenBuf[n1:])
 		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
 			return nil, err
 		}
-		frameLen, lenLen := binary.Uvarint(frameLenBuf[:n1+n2])
-		if lenLen == 0 {
-			// reader could not supply enough bytes to decode the Uvarint
-			// Store the already read bytes in the remainBuf for next iteration
-			_, _ = remainBuf.Write(frameLenBuf[:n1+n2])
+	}
+}
+
+// splitFrames removes all complete frames from buf and returns them. When an invalid frame follows valid ones,
+// the valid ones are returned first and the error is returned by the next call.
+func (m *messagePackHubProtocol) splitFrames(buf *bytes.Buffer) ([][]byte, error) {
+	frames := make([][]byte, 0)
+	for {
+		data := buf.Bytes()
+		if len(data) > binary.MaxVarintLen32 {
+			data = data[:binary.MaxVarintLen32]
+		}
+		frameLen, lenLen := binary.Uvarint(data)
+		if lenLen == 0 && len(data) < binary.MaxVarintLen32 {
+			// Not enough bytes to decode the frame length
 			return frames, nil
 		}
-		if lenLen < 0 {
-			return nil, fmt.Errorf("messagepack frame length to large")
-		}
-		// Still wondering why this happens, but it happens!
-		if frameLen == 0 {
-			// Store the overread bytes for the next iteration
-			_, _ = remainBuf.Write(frameLenBuf[lenLen:])
-			continue
-		}
-		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
-			return nil, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
-		}
-		// Try getting data until at least one frame is available
-		readBuf := make([]byte, frameLen)
-		frameBuf := &bytes.Buffer{}
-		// Did we read too many bytes when detecting the frameLen?
-		_, _ = frameBuf.Write(frameLenBuf[lenLen:])
-		// Read the rest of the bytes from the last iteration
-		_, _ = frameBuf.ReadFrom(remainBuf)
-		for {
-			n, err := reader.Read(readBuf)
-			if errors.Is(err, io.EOF) {
-				// Less than frameLen. Let the caller parse the already read frames and come here again later
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				return frames, nil
-			}
-			if err != nil {
-				return nil, err
-			}
-			_, _ = frameBuf.Write(readBuf[:n])
-			if frameBuf.Len() == int(frameLen) {
-				// Frame completely read. Return it to the caller
-				frames = append(frames, frameBuf.Next(int(frameLen)))
+		var err error
+		if lenLen <= 0 {
+			err = fmt.Errorf("messagepack frame length to large")
+		} else if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
+			err = fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
+		}
+		if err != nil {
+			if len(frames) > 0 {
 				return frames, nil
 			}
-			if frameBuf.Len() > int(frameLen) {
-				// More than frameLen. Append the current frame to the result and start reading the next frame
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				break
-			}
+			return nil, err
+		}
+		if uint64(buf.Len()-lenLen) < frameLen {
+			// Frame is not complete
+			return frames, nil
+		}
+		_ = buf.Next(lenLen)
+		// Empty frames are ignored
+		if frameLen > 0 {
+			// The buffer reuses its bytes, so the frame needs a copy
+			frames = append(frames, append([]byte(nil), buf.Next(int(frameLen))...))
 		}
 	}
 }
-- 
2.43.0


From d4fe39a5c441580f5723f7bbcc1d9d7949d416ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 04/54] fix: the maximum receive message size is a limit for
 each JSON record, and a reader at its end does not spin the parser

---
 jsonhubprotocol.go | 59 +++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index 80705f3..025df43 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -154,51 +154,50 @@ func (j *jsonHubProtocol) parseMessage(messageType int, text []byte) (message in
 	}
 }
 
-// readJSONFrames reads all complete frames (delimited by 0x1e) from the reader and puts the remaining bytes into remainBuf.
-// maxSize is the maximum number of bytes that may accumulate before a delimiter; 0 means unlimited.
+// readJSONFrames returns all complete frames (delimited by 0x1e) from remainBuf. If there are none, it reads from the
+// reader until at least one frame is complete. The bytes of an incomplete frame are kept in remainBuf.
+// maxSize is the maximum number of bytes of one frame, including the delimiter; 0 means unlimited.
 func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][]byte, error) {
 	p := make([]byte, 1<<15)
-	buf := &bytes.Buffer{}
-	_, _ = buf.ReadFrom(remainBuf)
 	// Try getting data until at least one frame is available
 	for {
+		frames, err := parseJSONFrames(remainBuf, maxSize)
+		if err != nil || len(frames) > 0 {
+			return frames, err
+		}
 		n, err := reader.Read(p)
-		// Some reader implementations return io.EOF additionally to n=0 if no data could be read
-		if err != nil && !errors.Is(err, io.EOF) {
+		_, _ = remainBuf.Write(p[:n])
+		// Some reader implementations return io.EOF additionally to n>0
+		if err != nil && (n == 0 || !errors.Is(err, io.EOF)) {
 			return nil, err
 		}
-		if n > 0 {
-			_, _ = buf.Write(p[:n])
-			if maxSize > 0 && buf.Len() > maxSize {
-				return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
-			}
-			frames, err := parseJSONFrames(buf)
-			if err != nil {
-				return nil, err
-			}
-			if len(frames) > 0 {
-				_, _ = remainBuf.ReadFrom(buf)
-				return frames, nil
-			}
-		}
 	}
 }
 
-func parseJSONFrames(buf *bytes.Buffer) ([][]byte, error) {
+// parseJSONFrames removes all complete frames from buf and returns them. When a frame that is too large follows
+// others, the others are returned first and the error is returned by the next call.
+func parseJSONFrames(buf *bytes.Buffer, maxSize int) ([][]byte, error) {
 	frames := make([][]byte, 0)
 	for {
-		frame, err := buf.ReadBytes(0x1e)
-		if errors.Is(err, io.EOF) {
-			// Restore incomplete frame in buffer
-			_, _ = buf.Write(frame)
-			break
+		end := bytes.IndexByte(buf.Bytes(), 0x1e)
+		size := end + 1
+		if end < 0 {
+			size = buf.Len()
 		}
-		if err != nil {
-			return nil, err
+		if maxSize > 0 && size > maxSize {
+			if len(frames) > 0 {
+				return frames, nil
+			}
+			return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
+		}
+		if end < 0 {
+			// Keep the incomplete frame in the buffer
+			return frames, nil
 		}
-		frames = append(frames, frame[:len(frame)-1])
+		frame := make([]byte, end)
+		copy(frame, buf.Next(size))
+		frames = append(frames, frame)
 	}
-	return frames, nil
 }
 
 // WriteMessage writes a message as JSON to the specified writer
-- 
2.43.0


From b984c2b74b078977d184bf451270938794dbd64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 05/54] fix: messages received together with the handshake are
 not lost

---
 client.go          | 47 +++++++++++++++++++++++-----------------------
 hubconnection.go   |  2 ++
 jsonhubprotocol.go | 23 +++++++++++++++++++++++
 loop.go            |  6 +++++-
 server.go          | 33 ++++++++++++++++----------------
 5 files changed, 70 insertions(+), 41 deletions(-)

diff --git a/client.go b/client.go
index 1baf2b7..e58bfe6 100644
--- a/client.go
+++ b/client.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -234,12 +233,12 @@ func (c *client) Stop() {
 
 func (c *client) run() error {
 	// negotiate and so on
-	protocol, err := c.setupConnectionAndProtocol()
+	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
 		return err
 	}
 
-	loop := newLoop(c, c.conn, protocol)
+	loop := newLoop(c, c.conn, protocol, received)
 	c.mx.Lock()
 	c.loop = loop
 	c.mx.Unlock()
@@ -284,31 +283,31 @@ func (c *client) shouldClientEnd() bool {
 	return false
 }
 
-func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
-	return func() (hubProtocol, error) {
+func (c *client) setupConnectionAndProtocol() (hubProtocol, []byte, error) {
+	return func() (hubProtocol, []byte, error) {
 		c.mx.Lock()
 		defer c.mx.Unlock()
 
 		if c.conn == nil {
 			if c.connectionFactory == nil {
-				return nil, ErrUnableToConnect
+				return nil, nil, ErrUnableToConnect
 			}
 			var err error
 			c.conn, err = c.connectionFactory()
 			if err != nil {
-				return nil, err
+				return nil, nil, err
 			}
 		}
 		// Pass maximum receive message size to a potential websocket connection
 		if wsConn, ok := c.conn.(*webSocketConnection); ok {
 			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
 		}
-		protocol, err := c.processHandshake()
+		protocol, received, err := c.processHandshake()
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 
-		return protocol, nil
+		return protocol, received, nil
 	}()
 }
 
@@ -571,9 +570,10 @@ func (c *client) prefixLoggers(connectionID string) (info StructuredLogger, dbg
 			"hub", t)
 }
 
-func (c *client) processHandshake() (hubProtocol, error) {
+// processHandshake returns the protocol and the bytes which were received behind the handshake response
+func (c *client) processHandshake() (hubProtocol, []byte, error) {
 	if err := c.sendHandshakeRequest(); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	return c.receiveHandshakeResponse()
 }
@@ -595,31 +595,30 @@ func (c *client) sendHandshakeRequest() error {
 	return nil
 }
 
-func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
+func (c *client) receiveHandshakeResponse() (hubProtocol, []byte, error) {
 	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
 	readJSONFramesChan := make(chan []interface{}, 1)
 	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(c.conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
+		rawHandshake, received, err := readHandshakeFrame(c.conn, int(c.maximumReceiveMessageSize()))
+		readJSONFramesChan <- []interface{}{rawHandshake, err, received}
 	}()
 	select {
 	case result := <-readJSONFramesChan:
 		if result[1] != nil {
-			return nil, result[1].(error)
+			return nil, nil, result[1].(error)
 		}
-		rawHandshake := result[0].([][]byte)
+		rawHandshake := result[0].([]byte)
 		response := handshakeResponse{}
-		if err := json.Unmarshal(rawHandshake[0], &response); err != nil {
+		if err := json.Unmarshal(rawHandshake, &response); err != nil {
 			// Malformed handshake
-			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake[0]), "error", err)
-			return nil, err
+			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake), "error", err)
+			return nil, nil, err
 		} else {
 			if response.Error != "" {
 				_ = info.Log(evt, "handshake received", "error", response.Error)
-				return nil, errors.New(response.Error)
+				return nil, nil, errors.New(response.Error)
 			}
 			_ = dbg.Log(evt, "handshake received", "msg", fmtMsg(response))
 			var protocol hubProtocol
@@ -633,9 +632,9 @@ func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
 				_, pDbg := c.loggers()
 				protocol.setDebugLogger(pDbg)
 			}
-			return protocol, nil
+			return protocol, result[2].([]byte), nil
 		}
 	case <-ctx.Done():
-		return nil, ctx.Err()
+		return nil, nil, ctx.Err()
 	}
 }
diff --git a/hubconnection.go b/hubconnection.go
index b7b9b7a..13a24eb 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -59,6 +59,7 @@ type defaultHubConnection struct {
 	maximumReceiveMessageSize uint
 	items                     *sync.Map
 	lastWriteStamp            time.Time
+	received                  []byte // Bytes which were received together with the handshake
 	info                      StructuredLogger
 }
 
@@ -133,6 +134,7 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	// parse
 	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult, writerDone <-chan struct{}) {
 		remainBuf := bytes.Buffer{}
+		_, _ = remainBuf.Write(c.received)
 	loop:
 		for {
 			select {
diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index 025df43..b6a035f 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -174,6 +174,29 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 	}
 }
 
+// readHandshakeFrame reads one frame (delimited by 0x1e) from the reader. It returns the frame and the bytes which
+// were received behind it. maxSize is the maximum number of bytes of the frame, including the delimiter; 0 means unlimited.
+func readHandshakeFrame(reader io.Reader, maxSize int) (frame []byte, received []byte, err error) {
+	var buf bytes.Buffer
+	p := make([]byte, 1<<15)
+	for {
+		n, err := reader.Read(p)
+		_, _ = buf.Write(p[:n])
+		end := bytes.IndexByte(buf.Bytes(), 0x1e)
+		if maxSize > 0 && (end >= maxSize || end < 0 && buf.Len() > maxSize) {
+			return nil, nil, fmt.Errorf("handshake exceeded maximum receive message size %d", maxSize)
+		}
+		if end >= 0 {
+			frame = buf.Next(end + 1)
+			return frame[:end], buf.Bytes(), nil
+		}
+		// Some reader implementations return io.EOF additionally to n>0
+		if err != nil && (n == 0 || !errors.Is(err, io.EOF)) {
+			return nil, nil, err
+		}
+	}
+}
+
 // parseJSONFrames removes all complete frames from buf and returns them. When a frame that is too large follows
 // others, the others are returned first and the error is returned by the next call.
 func parseJSONFrames(buf *bytes.Buffer, maxSize int) ([][]byte, error) {
diff --git a/loop.go b/loop.go
index 3d413d0..d32a7d0 100644
--- a/loop.go
+++ b/loop.go
@@ -24,13 +24,17 @@ type loop struct {
 	closeMessage *closeMessage
 }
 
-func newLoop(p Party, conn Connection, protocol hubProtocol) *loop {
+// newLoop creates the loop for a connection. received are the bytes which were received behind the handshake.
+func newLoop(p Party, conn Connection, protocol hubProtocol, received []byte) *loop {
 	protocol = reflect.New(reflect.ValueOf(protocol).Elem().Type()).Interface().(hubProtocol)
 	_, dbg := p.loggers()
 	protocol.setDebugLogger(dbg)
 	protocol.setMaxReceiveMessageSize(p.maximumReceiveMessageSize())
 	pInfo, pDbg := p.prefixLoggers(conn.ConnectionID())
 	hubConn := newHubConnection(conn, protocol, p.maximumReceiveMessageSize(), pInfo)
+	if c, ok := hubConn.(*defaultHubConnection); ok {
+		c.received = received
+	}
 	return &loop{
 		party:        p,
 		protocol:     protocol,
diff --git a/server.go b/server.go
index 7989887..2730671 100644
--- a/server.go
+++ b/server.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -127,14 +126,14 @@ func (s *server) MapHTTP(routerFactory func() MappableRouter, path string) {
 // or the servers' context is canceled.
 func (s *server) Serve(conn Connection) error {
 
-	protocol, err := s.processHandshake(conn)
+	protocol, received, err := s.processHandshake(conn)
 	if err != nil {
 		info, _ := s.prefixLoggers("")
 		_ = info.Log(evt, "processHandshake", "connectionId", conn.ConnectionID(), "error", err, react, "do not connect")
 		return err
 	}
 
-	return newLoop(s, conn, protocol).Run(make(chan struct{}, 1))
+	return newLoop(s, conn, protocol, received).Run(make(chan struct{}, 1))
 }
 
 func (s *server) HubClients() HubClients {
@@ -246,35 +245,37 @@ func (s *server) newConnectionHubContext(hubConn HubConnection) HubContext {
 	}
 }
 
-func (s *server) processHandshake(conn Connection) (hubProtocol, error) {
-	if request, err := s.receiveHandshakeRequest(conn); err != nil {
-		return nil, err
+// processHandshake returns the protocol and the bytes which were received behind the handshake request
+func (s *server) processHandshake(conn Connection) (hubProtocol, []byte, error) {
+	if request, received, err := s.receiveHandshakeRequest(conn); err != nil {
+		return nil, nil, err
 	} else {
-		return s.sendHandshakeResponse(conn, request)
+		protocol, err := s.sendHandshakeResponse(conn, request)
+		return protocol, received, err
 	}
 }
 
-func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, error) {
+func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, []byte, error) {
 	_, dbg := s.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(s.Context(), s.HandshakeTimeout())
 	defer cancelRead()
 	readJSONFramesChan := make(chan []interface{}, 1)
 	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
+		rawHandshake, received, err := readHandshakeFrame(conn, int(s.maximumReceiveMessageSize()))
+		readJSONFramesChan <- []interface{}{rawHandshake, err, received}
 	}()
 	request := handshakeRequest{}
 	select {
 	case result := <-readJSONFramesChan:
 		if result[1] != nil {
-			return request, result[1].(error)
+			return request, nil, result[1].(error)
 		}
-		rawHandshake := result[0].([][]byte)
-		_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake[0]))
-		return request, json.Unmarshal(rawHandshake[0], &request)
+		rawHandshake := result[0].([]byte)
+		_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake))
+		err := json.Unmarshal(rawHandshake, &request)
+		return request, result[2].([]byte), err
 	case <-ctx.Done():
-		return request, ctx.Err()
+		return request, nil, ctx.Err()
 	}
 }
 
-- 
2.43.0


From a8ff32f188f0f2a96030b833cd14512cc8fb3fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 06/54] fix: invalid MessagePack messages can not crash the
 parser and are not delivered as something else

---
 messagepackhubprotocol.go | 56 +++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 0e2f677..ab12af0 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/go-kit/log"
 	"github.com/vmihailenco/msgpack/v5"
+	"github.com/vmihailenco/msgpack/v5/msgpcode"
 )
 
 type messagePackHubProtocol struct {
@@ -95,10 +96,6 @@ func (m *messagePackHubProtocol) splitFrames(buf *bytes.Buffer) ([][]byte, error
 
 func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, error) {
 	decoder := msgpack.NewDecoder(buf)
-	// Default map decoding expects all maps to have string keys
-	decoder.SetMapDecoder(func(decoder *msgpack.Decoder) (interface{}, error) {
-		return decoder.DecodeUntypedMap()
-	})
 	msgLen, err := decoder.DecodeArrayLen()
 	if err != nil {
 		return nil, err
@@ -110,8 +107,7 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	// Ignore Header for all messages, except ping message that has no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
 	if msgType != 6 {
-		_, err = decoder.DecodeMap()
-		if err != nil {
+		if err = m.skipHeader(decoder); err != nil {
 			return nil, err
 		}
 	}
@@ -144,7 +140,7 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 			invocationMessage.Arguments = append(invocationMessage.Arguments, argument)
 		}
 		// StreamIds seem to be optional
-		if msgLen == 6 {
+		if msgLen >= 6 {
 			streamIDLen, err := decoder.DecodeArrayLen()
 			if err != nil {
 				return nil, err
@@ -181,7 +177,7 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 		if err != nil {
 			return nil, err
 		}
-		resultKind, err := decoder.DecodeInt8()
+		resultKind, err := decoder.DecodeInt()
 		if err != nil {
 			return nil, err
 		}
@@ -239,24 +235,38 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 		}
 		return closeMessage, nil
 	}
-	return msg, nil
+	// Unknown types are up to the caller
+	return hubMessage{Type: msgType}, nil
+}
+
+// skipHeader skips the header map without allocating it, as its announced size might be invalid
+func (m *messagePackHubProtocol) skipHeader(decoder *msgpack.Decoder) error {
+	headerLen, err := decoder.DecodeMapLen()
+	if err != nil {
+		return err
+	}
+	for i := 0; i < headerLen; i++ {
+		if _, err = decoder.DecodeString(); err != nil {
+			return err
+		}
+		if err = decoder.Skip(); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (string, error) {
-	rawID, err := decoder.DecodeInterface()
+	code, err := decoder.PeekCode()
 	if err != nil {
 		return "", err
 	}
-	// nil is ok
-	if rawID == nil {
-		return "", nil
-	}
-	// Otherwise, it must be string
-	invocationID, ok := rawID.(string)
-	if !ok {
-		return "", fmt.Errorf("invalid InvocationID %#v", rawID)
+	// nil is ok. Otherwise, it must be string
+	if code != msgpcode.Nil && !msgpcode.IsString(code) {
+		return "", fmt.Errorf("invalid InvocationID with code %x", code)
 	}
-	return invocationID, nil
+	// For nil, this is the empty string
+	return decoder.DecodeString()
 }
 
 func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Writer) error {
@@ -403,7 +413,13 @@ func (m *messagePackHubProtocol) setMaxReceiveMessageSize(size uint) {
 }
 
 // UnmarshalArgument unmarshals raw bytes to a destination value. dst is the pointer to the destination value.
-func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) error {
+func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) (err error) {
+	// The decoder panics on map keys which are not hashable
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("invalid argument: %v", e)
+		}
+	}()
 	rawSrc, ok := src.(msgpack.RawMessage)
 	if !ok {
 		return fmt.Errorf("invalid source %#v for UnmarshalArgument", src)
-- 
2.43.0


From af9179bdcf77d87075982aeffd5c925fcc086bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 07/54] fix: the handshake error response is valid JSON
 whatever protocol was requested

---
 server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 2730671..6a698d1 100644
--- a/server.go
+++ b/server.go
@@ -300,8 +300,12 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 		_ = info.Log(evt, "protocol requested", "error", err)
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
-				const errorHandshakeResponse = "{\"error\":\"%s\"}\u001e"
-				return fmt.Fprintf(conn, errorHandshakeResponse, err)
+				// The protocol name comes from the peer, so it needs to be escaped
+				response, jsonErr := json.Marshal(handshakeResponse{Error: err.Error()})
+				if jsonErr != nil {
+					return 0, jsonErr
+				}
+				return conn.Write(append(response, 0x1e))
 			}, func() {}); respErr != nil {
 			_ = dbg.Log(evt, "handshake sent", "error", respErr)
 			err = respErr
-- 
2.43.0


From 555f1c262beeef49a8c910d10b6e383b882d1835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 08/54] fix: a MessagePack message without fields is invalid

---
 messagepackhubprotocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index ab12af0..8cccbc8 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -100,6 +100,9 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	if err != nil {
 		return nil, err
 	}
+	if msgLen < 1 {
+		return nil, fmt.Errorf("invalid message length %v", msgLen)
+	}
 	msgType, err := decoder.DecodeInt()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From eb8f103c1a4444c0d358ee06ab80f7f1677cecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 09/54] fix: the MessagePack close message has no header, as
 the protocol defines it

---
 messagepackhubprotocol.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 8cccbc8..bcf7260 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -107,9 +107,9 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	if err != nil {
 		return nil, err
 	}
-	// Ignore Header for all messages, except ping message that has no header
+	// Ignore Header for all messages, except ping and close message that have no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
-	if msgType != 6 {
+	if msgType != 6 && msgType != 7 {
 		if err = m.skipHeader(decoder); err != nil {
 			return nil, err
 		}
@@ -226,6 +226,16 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 			return nil, fmt.Errorf("invalid closeMessage length %v", msgLen)
 		}
 		closeMessage := closeMessage{Type: 7}
+		// Former versions of this library sent an empty header, which was not counted in msgLen
+		code, err := decoder.PeekCode()
+		if err != nil {
+			return nil, err
+		}
+		if msgLen == 3 && code == msgpcode.FixedMapLow {
+			if err = decoder.Skip(); err != nil {
+				return nil, err
+			}
+		}
 		closeMessage.Error, err = decoder.DecodeString()
 		if err != nil {
 			return nil, err
@@ -366,7 +376,11 @@ func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Wri
 			return err
 		}
 	case closeMessage:
-		if err := encodeMsgHeader(encoder, 3, msg.Type); err != nil {
+		// The close message has no header
+		if err := encoder.EncodeArrayLen(3); err != nil {
+			return err
+		}
+		if err := encoder.EncodeInt(int64(msg.Type)); err != nil {
 			return err
 		}
 		if err := encoder.EncodeString(msg.Error); err != nil {
-- 
2.43.0


From 6bf7d920d3ec0cf52a8a7d3107817b4d5d6c383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 10/54] fix: an invocation without id is never answered

---
 loop.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/loop.go b/loop.go
index d32a7d0..d31f877 100644
--- a/loop.go
+++ b/loop.go
@@ -205,17 +205,16 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	if method, ok := getMethod(l.party.invocationTarget(l.hubConn), methodName); !ok {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("Unknown method %s", invocation.Target))
+		l.sendError(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
 	} else if in, err := buildMethodArguments(method, invocation, l.streamClient, l.protocol); err != nil {
 		// argument build failed
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, err.Error())
+		l.sendError(invocation, err.Error())
 	} else {
 		// Stream invocation is only allowed when the method has only one return value
 		// We allow no channel return values, because a client can receive as stream with only one item
 		if invocation.Type == 4 && method.Type().NumOut() != 1 {
-			_ = l.hubConn.Completion(invocation.InvocationID, nil,
-				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
+			l.sendError(invocation, fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
 			// hub method might take a long time
 			go func() {
@@ -229,6 +228,13 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	}
 }
 
+// sendError answers an invocation with an error. No invocation id, no completion
+func (l *loop) sendError(invocation invocationMessage, errorText string) {
+	if invocation.InvocationID != "" {
+		_ = l.hubConn.Completion(invocation.InvocationID, nil, errorText)
+	}
+}
+
 func (l *loop) returnInvocationResult(invocation invocationMessage, result []reflect.Value) {
 	// No invocation id, no completion
 	if invocation.InvocationID != "" {
-- 
2.43.0


From e93fb7dac81a510095b9f280b43283d9fd3ae9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 11/54] fix: stream ids for parameters which are no channels do
 not crash the process

---
 loop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/loop.go b/loop.go
index d31f877..b3e496b 100644
--- a/loop.go
+++ b/loop.go
@@ -371,6 +371,10 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 			arguments[i] = arg
 		} else {
 			// it is not, so do the normal thing
+			if i-chanCount >= len(invocation.Arguments) {
+				// StreamIds for parameters which are no channels
+				return arguments, fmt.Errorf("to many StreamIds for channel parameters of method %v", invocation.Target)
+			}
 			arg := reflect.New(t)
 			if err := protocol.UnmarshalArgument(invocation.Arguments[i-chanCount], arg.Interface()); err != nil {
 				return arguments, err
-- 
2.43.0


From f43b67c1d63c0eaada5b509cc0cf3b35f89dbb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 12/54] fix: Invoke yields the answer and never an empty result
 before it, and a completion can not race with a failing send

---
 invokeclient.go | 82 +++++++++++++++++--------------------------------
 loop.go         |  2 +-
 2 files changed, 29 insertions(+), 55 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index 126f7da..7080118 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -4,22 +4,19 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"time"
 )
 
 type invokeClient struct {
-	mx                 sync.Mutex
-	resultChans        map[string]invocationResultChans
-	protocol           hubProtocol
-	chanReceiveTimeout time.Duration
+	mx          sync.Mutex
+	resultChans map[string]invocationResultChans
+	protocol    hubProtocol
 }
 
-func newInvokeClient(protocol hubProtocol, chanReceiveTimeout time.Duration) *invokeClient {
+func newInvokeClient(protocol hubProtocol) *invokeClient {
 	return &invokeClient{
-		mx:                 sync.Mutex{},
-		resultChans:        make(map[string]invocationResultChans),
-		protocol:           protocol,
-		chanReceiveTimeout: chanReceiveTimeout,
+		mx:          sync.Mutex{},
+		resultChans: make(map[string]invocationResultChans),
+		protocol:    protocol,
 	}
 }
 
@@ -53,10 +50,8 @@ func (i *invokeClient) cancelAllInvokes() {
 	i.mx.Lock()
 	for _, r := range i.resultChans {
 		close(r.resultChan)
-		go func(errChan chan error) {
-			errChan <- errors.New("message loop ended")
-			close(errChan)
-		}(r.errChan)
+		r.errChan <- errors.New("message loop ended")
+		close(r.errChan)
 	}
 	// Clear map
 	i.resultChans = make(map[string]invocationResultChans)
@@ -70,48 +65,27 @@ func (i *invokeClient) handlesInvocationID(invocationID string) bool {
 	return ok
 }
 
+// receiveCompletionItem hands the answer to the caller. As this is the only value ever sent on the (buffered) channels
+// of the invocation, it does not block. The lock prevents that the channels are closed meanwhile.
 func (i *invokeClient) receiveCompletionItem(completion completionMessage) error {
-	defer i.deleteInvocation(completion.InvocationID)
 	i.mx.Lock()
-	ir, ok := i.resultChans[completion.InvocationID]
-	i.mx.Unlock()
-	if ok {
-		if completion.Error != "" {
-			done := make(chan struct{})
-			go func() {
-				ir.errChan <- errors.New(completion.Error)
-				done <- struct{}{}
-			}()
-			select {
-			case <-done:
-				return nil
-			case <-time.After(i.chanReceiveTimeout):
-				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent error", i.chanReceiveTimeout)}
-			}
-		}
-		if completion.Result != nil {
-			var result interface{}
-			if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
-				return err
-			}
-			done := make(chan struct{})
-			go func() {
-				ir.resultChan <- result
-				if completion.Error != "" {
-					ir.errChan <- errors.New(completion.Error)
-				} else {
-					ir.errChan <- nil
-				}
-				close(done)
-			}()
-			select {
-			case <-done:
-				return nil
-			case <-time.After(i.chanReceiveTimeout):
-				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent value", i.chanReceiveTimeout)}
-			}
+	defer i.mx.Unlock()
+	r, ok := i.resultChans[completion.InvocationID]
+	if !ok {
+		return fmt.Errorf(`unknown completion id "%v"`, completion.InvocationID)
+	}
+	delete(i.resultChans, completion.InvocationID)
+	defer close(r.resultChan)
+	defer close(r.errChan)
+	if completion.Error != "" {
+		r.errChan <- errors.New(completion.Error)
+	} else if completion.Result != nil {
+		var result interface{}
+		if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
+			r.errChan <- err
+			return err
 		}
-		return nil
+		r.resultChan <- result
 	}
-	return fmt.Errorf(`unknown completion id "%v"`, completion.InvocationID)
+	return nil
 }
diff --git a/loop.go b/loop.go
index b3e496b..05a16aa 100644
--- a/loop.go
+++ b/loop.go
@@ -39,7 +39,7 @@ func newLoop(p Party, conn Connection, protocol hubProtocol, received []byte) *l
 		party:        p,
 		protocol:     protocol,
 		hubConn:      hubConn,
-		invokeClient: newInvokeClient(protocol, p.chanReceiveTimeout()),
+		invokeClient: newInvokeClient(protocol),
 		streamer:     &streamer{conn: hubConn, maxCancels: p.maxConcurrentStreams()},
 		streamClient: newStreamClient(protocol, p.chanReceiveTimeout(), p.streamBufferCapacity(), p.maxConcurrentStreams()),
 		info:         pInfo,
-- 
2.43.0


From fdfceaa3d092045860c01e4f16017e7afd3c81b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 13/54] fix: the completion of a stream whose invocation could
 not be sent does not close its channel twice

---
 streamclient.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/streamclient.go b/streamclient.go
index 1ee7781..56361c9 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -61,6 +61,7 @@ func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 	if upChan, ok := c.upstreamChannels[invocationID]; ok {
 		upChan.Close()
 		delete(c.upstreamChannels, invocationID)
+		delete(c.runningStreams, invocationID)
 	}
 	c.mx.Unlock()
 }
@@ -117,7 +118,7 @@ func (c *streamClient) handlesInvocationID(invocationID string) bool {
 
 func (c *streamClient) receiveCompletionItem(completion completionMessage, invokeClient *invokeClient) error {
 	c.mx.Lock()
-	channel, ok := c.upstreamChannels[completion.InvocationID]
+	_, ok := c.upstreamChannels[completion.InvocationID]
 	c.mx.Unlock()
 	if ok {
 		var err error
@@ -141,13 +142,10 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 				}
 			}
 		}
-		channel.Close()
+		// Close the channel, if PullStream has not closed it meanwhile because it could not send the invocation
+		c.deleteUpstreamChannel(completion.InvocationID)
 		// Close error channel
 		invokeClient.deleteInvocation(completion.InvocationID)
-		c.mx.Lock()
-		delete(c.upstreamChannels, completion.InvocationID)
-		delete(c.runningStreams, completion.InvocationID)
-		c.mx.Unlock()
 		return err
 	}
 	return fmt.Errorf("received completion with unknown id %v", completion.InvocationID)
-- 
2.43.0


From fcb922c85b7ee593d3817c8c6f3eafa3c41290b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 14/54] fix: calls which are pending when the connection ends
 get an error and do not spin

---
 Invokeresult.go | 43 +++++++++++--------------------------------
 client.go       |  6 +++---
 invokeclient.go |  7 +++++--
 loop.go         | 11 +++++++----
 4 files changed, 26 insertions(+), 41 deletions(-)

diff --git a/Invokeresult.go b/Invokeresult.go
index a602ae1..582f655 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -1,9 +1,5 @@
 package signalr
 
-import (
-	"context"
-)
-
 // InvokeResult is the combined value/error result for async invocations. Used as channel type.
 type InvokeResult struct {
 	Value interface{}
@@ -11,35 +7,18 @@ type InvokeResult struct {
 }
 
 // newInvokeResultChan combines a value result and an error result channel into one InvokeResult channel
-// The InvokeResult channel is automatically closed when both input channels are closed.
-func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, errChan <-chan error) <-chan InvokeResult {
+// The InvokeResult channel is automatically closed when both input channels are closed. They are closed at latest
+// when the message loop ends.
+func newInvokeResultChan(resultChan <-chan interface{}, errChan <-chan error) <-chan InvokeResult {
 	ch := make(chan InvokeResult, 1)
-	go func(ctx context.Context, ch chan InvokeResult, resultChan <-chan interface{}, errChan <-chan error) {
-		var resultChanClosed, errChanClosed bool
-	loop:
-		for !resultChanClosed || !errChanClosed {
-			select {
-			case <-ctx.Done():
-				break loop
-			case value, ok := <-resultChan:
-				if !ok {
-					resultChanClosed = true
-				} else {
-					ch <- InvokeResult{
-						Value: value,
-					}
-				}
-			case err, ok := <-errChan:
-				if !ok {
-					errChanClosed = true
-				} else {
-					ch <- InvokeResult{
-						Error: err,
-					}
-				}
-			}
+	go func() {
+		defer close(ch)
+		for value := range resultChan {
+			ch <- InvokeResult{Value: value}
+		}
+		for err := range errChan {
+			ch <- InvokeResult{Error: err}
 		}
-		close(ch)
-	}(ctx, ch, resultChan, errChan)
+	}()
 	return ch
 }
diff --git a/client.go b/client.go
index e58bfe6..55646c9 100644
--- a/client.go
+++ b/client.go
@@ -433,7 +433,7 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 		}
 		id := c.loop.GetNewID()
 		resultCh, errCh := c.loop.invokeClient.newInvocation(id)
-		irCh := newInvokeResultChan(c.Context(), resultCh, errCh)
+		irCh := newInvokeResultChan(resultCh, errCh)
 		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
 			c.loop.invokeClient.deleteInvocation(id)
 			ch <- InvokeResult{Error: err}
@@ -526,11 +526,11 @@ func (c *client) waitForConnected() <-chan error {
 	return c.WaitForState(context.Background(), ClientConnected)
 }
 
-func createResultChansWithError(ctx context.Context, err error) (<-chan InvokeResult, chan error) {
+func createResultChansWithError(err error) (<-chan InvokeResult, chan error) {
 	resultCh := make(chan interface{}, 1)
 	errCh := make(chan error, 1)
 	errCh <- err
-	invokeResultChan := newInvokeResultChan(ctx, resultCh, errCh)
+	invokeResultChan := newInvokeResultChan(resultCh, errCh)
 	close(errCh)
 	close(resultCh)
 	return invokeResultChan, errCh
diff --git a/invokeclient.go b/invokeclient.go
index 7080118..499c0b1 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -46,9 +46,11 @@ func (i *invokeClient) deleteInvocation(id string) {
 	i.mx.Unlock()
 }
 
-func (i *invokeClient) cancelAllInvokes() {
+// cancelAllInvokes ends all invocations with an error and returns their ids
+func (i *invokeClient) cancelAllInvokes() (ids []string) {
 	i.mx.Lock()
-	for _, r := range i.resultChans {
+	for id, r := range i.resultChans {
+		ids = append(ids, id)
 		close(r.resultChan)
 		r.errChan <- errors.New("message loop ended")
 		close(r.errChan)
@@ -56,6 +58,7 @@ func (i *invokeClient) cancelAllInvokes() {
 	// Clear map
 	i.resultChans = make(map[string]invocationResultChans)
 	i.mx.Unlock()
+	return ids
 }
 
 func (i *invokeClient) handlesInvocationID(invocationID string) bool {
diff --git a/loop.go b/loop.go
index 05a16aa..8bdee07 100644
--- a/loop.go
+++ b/loop.go
@@ -146,19 +146,22 @@ msgLoop:
 		_ = l.hubConn.Close(fmt.Sprintf("%v", err), l.party.allowReconnect())
 	}
 	_ = l.dbg.Log(evt, "message loop ended")
-	l.invokeClient.cancelAllInvokes()
+	// Abort first: calls which are started after their cancellation fail to send
 	l.hubConn.Abort()
+	for _, id := range l.invokeClient.cancelAllInvokes() {
+		l.streamClient.deleteUpstreamChannel(id)
+	}
 	return err
 }
 
 func (l *loop) PullStream(method, id string, arguments ...interface{}) <-chan InvokeResult {
 	_, errChan := l.invokeClient.newInvocation(id)
 	upChan := l.streamClient.newUpstreamChannel(id)
-	ch := newInvokeResultChan(l.party.Context(), upChan, errChan)
+	ch := newInvokeResultChan(upChan, errChan)
 	if err := l.hubConn.SendStreamInvocation(id, method, arguments); err != nil {
 		// When we get an error here, the loop is closed and the errChan might be already closed
 		// We create a new one to deliver our error
-		ch, _ = createResultChansWithError(l.party.Context(), err)
+		ch, _ = createResultChansWithError(err)
 		l.streamClient.deleteUpstreamChannel(id)
 		l.invokeClient.deleteInvocation(id)
 	}
@@ -167,7 +170,7 @@ func (l *loop) PullStream(method, id string, arguments ...interface{}) <-chan In
 
 func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan InvokeResult, error) {
 	resultCh, errCh := l.invokeClient.newInvocation(id)
-	irCh := newInvokeResultChan(l.party.Context(), resultCh, errCh)
+	irCh := newInvokeResultChan(resultCh, errCh)
 	invokeArgs := make([]interface{}, 0)
 	reflectedChannels := make([]reflect.Value, 0)
 	streamIds := make([]string, 0)
-- 
2.43.0


From 6fa6d201ea7b210c40f7e4c9e03f8f03a7c4692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 15/54] fix: ids of concurrently started invocations are unique

---
 loop.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 8bdee07..9389b9f 100644
--- a/loop.go
+++ b/loop.go
@@ -197,8 +197,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 
 // GetNewID returns a new, connection-unique id for invocations and streams
 func (l *loop) GetNewID() string {
-	atomic.AddUint64(&l.lastID, 1)
-	return fmt.Sprint(atomic.LoadUint64(&l.lastID))
+	return fmt.Sprint(atomic.AddUint64(&l.lastID, 1))
 }
 
 func (l *loop) handleInvocationMessage(invocation invocationMessage) {
-- 
2.43.0


From 6168e888682b34253e25953c4c21cea0dda3887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 16/54] fix: a call uses the same connection from begin to end

---
 client.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 55646c9..438300f 100644
--- a/client.go
+++ b/client.go
@@ -276,7 +276,7 @@ func (c *client) shouldClientEnd() bool {
 		return true
 	}
 	// Reconnecting not allowed
-	if c.loop != nil && c.loop.closeMessage != nil && !c.loop.closeMessage.AllowReconnect {
+	if loop := c.currentLoop(); loop != nil && loop.closeMessage != nil && !loop.closeMessage.AllowReconnect {
 		c.setState(ClientClosed)
 		return true
 	}
@@ -431,11 +431,12 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 			close(ch)
 			return
 		}
-		id := c.loop.GetNewID()
-		resultCh, errCh := c.loop.invokeClient.newInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		resultCh, errCh := loop.invokeClient.newInvocation(id)
 		irCh := newInvokeResultChan(resultCh, errCh)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			ch <- InvokeResult{Error: err}
 			close(ch)
 			return
@@ -458,10 +459,11 @@ func (c *client) Send(method string, arguments ...interface{}) <-chan error {
 			close(errCh)
 			return
 		}
-		id := c.loop.GetNewID()
-		_, sendErrCh := c.loop.invokeClient.newInvocation(id)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		_, sendErrCh := loop.invokeClient.newInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			errCh <- err
 			close(errCh)
 			return
@@ -484,7 +486,8 @@ func (c *client) PullStream(method string, arguments ...interface{}) <-chan Invo
 			close(irCh)
 			return
 		}
-		pullCh := c.loop.PullStream(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pullCh := loop.PullStream(method, loop.GetNewID(), arguments...)
 		go func() {
 			for ir := range pullCh {
 				irCh <- ir
@@ -506,7 +509,8 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 			close(irCh)
 			return
 		}
-		pushCh, err := c.loop.PushStreams(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pushCh, err := loop.PushStreams(method, loop.GetNewID(), arguments...)
 		if err != nil {
 			irCh <- InvokeResult{Error: err}
 			close(irCh)
@@ -522,6 +526,14 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 	return irCh
 }
 
+// currentLoop returns the loop of the current connection. A call has to use the same one from begin to end, as
+// the client might reconnect meanwhile.
+func (c *client) currentLoop() *loop {
+	c.mx.RLock()
+	defer c.mx.RUnlock()
+	return c.loop
+}
+
 func (c *client) waitForConnected() <-chan error {
 	return c.WaitForState(context.Background(), ClientConnected)
 }
-- 
2.43.0


From 626a34f7fae32a63dbaf7680d38154924684b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 17/54] fix: a peer which does not take messages is
 disconnected by the timeout

---
 hubconnection.go | 38 +++++++++++++++++++++++++++-----------
 loop.go          |  1 +
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 13a24eb..d092bae 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -60,6 +60,7 @@ type defaultHubConnection struct {
 	items                     *sync.Map
 	lastWriteStamp            time.Time
 	received                  []byte // Bytes which were received together with the handshake
+	writeTimeout              time.Duration
 	info                      StructuredLogger
 }
 
@@ -73,7 +74,7 @@ func (c *defaultHubConnection) Close(errorText string, allowReconnect bool) erro
 		Error:          errorText,
 		AllowReconnect: allowReconnect,
 	}
-	return c.protocol.WriteMessage(closeMessage, c.connection)
+	return c.writeInTime(closeMessage, nil)
 }
 
 func (c *defaultHubConnection) ConnectionID() string {
@@ -245,20 +246,35 @@ func (c *defaultHubConnection) writeMessage(message interface{}) error {
 		if c.ctx.Err() != nil {
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
 		}
-		e := make(chan error, 1)
-		go func() { e <- c.protocol.WriteMessage(message, c.connection) }()
-		select {
-		case <-c.ctx.Done():
-			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
-		case err := <-e:
-			if err != nil {
-				c.Abort()
-			}
-			return err
+		err := c.writeInTime(message, c.ctx.Done())
+		if err != nil {
+			c.Abort()
 		}
+		return err
 	}()
 	if err != nil {
 		_ = c.info.Log(evt, msgSend, "message", fmtMsg(message), "error", err)
 	}
 	return err
 }
+
+// writeInTime writes the message. A peer which does not take it within the writeTimeout is treated as lost, it must not
+// block the message loop forever.
+func (c *defaultHubConnection) writeInTime(message interface{}, canceled <-chan struct{}) error {
+	e := make(chan error, 1)
+	go func() { e <- c.protocol.WriteMessage(message, c.connection) }()
+	var expired <-chan time.Time
+	if c.writeTimeout > 0 {
+		timer := time.NewTimer(c.writeTimeout)
+		defer timer.Stop()
+		expired = timer.C
+	}
+	select {
+	case <-canceled:
+		return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
+	case <-expired:
+		return fmt.Errorf("timeout interval elapsed (%v) while sending", c.writeTimeout)
+	case err := <-e:
+		return err
+	}
+}
diff --git a/loop.go b/loop.go
index 9389b9f..95b9cb8 100644
--- a/loop.go
+++ b/loop.go
@@ -34,6 +34,7 @@ func newLoop(p Party, conn Connection, protocol hubProtocol, received []byte) *l
 	hubConn := newHubConnection(conn, protocol, p.maximumReceiveMessageSize(), pInfo)
 	if c, ok := hubConn.(*defaultHubConnection); ok {
 		c.received = received
+		c.writeTimeout = p.timeout()
 	}
 	return &loop{
 		party:        p,
-- 
2.43.0


From 84a7f52a90ef4ce45913eedf73a896c61dbd8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:46 +0000
Subject: [PATCH 18/54] fix: keep cancellations of running streams apart from
 the capped ones of unknown streams

---
 streamer.go | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/streamer.go b/streamer.go
index faf8486..e1a9df7 100644
--- a/streamer.go
+++ b/streamer.go
@@ -7,20 +7,27 @@ import (
 )
 
 type streamer struct {
-	cancels     sync.Map
-	cancelCount int64 // atomic; tracks entries in cancels for the cap check
+	mx          sync.Mutex
+	running     map[string]*streamState
+	cancels     sync.Map // cancellations of streams which are not running (yet)
+	cancelCount int64    // atomic; tracks entries in cancels for the cap check
 	maxCancels  uint
 	conn        HubConnection
 }
 
+type streamState struct {
+	canceled int32 // atomic
+}
+
 func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
+	state := s.begin(invocationID)
 	go func() {
+		defer s.end(invocationID, state)
 	loop:
 		for {
 			// Waits for channel, so might hang
 			if chanResult, ok := reflectedChannel.Recv(); ok {
-				if _, ok := s.cancels.Load(invocationID); ok {
-					s.cancels.Delete(invocationID)
+				if atomic.LoadInt32(&state.canceled) != 0 {
 					_ = s.conn.Completion(invocationID, nil, "")
 					break loop
 				}
@@ -38,7 +45,38 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 	}()
 }
 
+// begin registers a running stream. It might have been canceled already.
+func (s *streamer) begin(invocationID string) *streamState {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	state := &streamState{}
+	if _, ok := s.cancels.LoadAndDelete(invocationID); ok {
+		atomic.AddInt64(&s.cancelCount, -1)
+		state.canceled = 1
+	}
+	if s.running == nil {
+		s.running = make(map[string]*streamState)
+	}
+	s.running[invocationID] = state
+	return state
+}
+
+func (s *streamer) end(invocationID string, state *streamState) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	if s.running[invocationID] == state {
+		delete(s.running, invocationID)
+	}
+}
+
 func (s *streamer) Stop(invocationID string) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	// Running streams can always be canceled
+	if state, ok := s.running[invocationID]; ok {
+		atomic.StoreInt32(&state.canceled, 1)
+		return
+	}
 	if s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
 		return
 	}
-- 
2.43.0


From b44e301c6087665fd1fd80343df8e9620c66ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 19/54] fix: a refused invocation leaves no upload streams
 behind

---
 loop.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/loop.go b/loop.go
index 95b9cb8..244150d 100644
--- a/loop.go
+++ b/loop.go
@@ -209,25 +209,23 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
 		l.sendError(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
+	} else if invocation.Type == 4 && method.Type().NumOut() != 1 {
+		// Stream invocation is only allowed when the method has only one return value
+		// We allow no channel return values, because a client can receive as stream with only one item
+		l.sendError(invocation, fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 	} else if in, err := buildMethodArguments(method, invocation, l.streamClient, l.protocol); err != nil {
 		// argument build failed
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
 		l.sendError(invocation, err.Error())
 	} else {
-		// Stream invocation is only allowed when the method has only one return value
-		// We allow no channel return values, because a client can receive as stream with only one item
-		if invocation.Type == 4 && method.Type().NumOut() != 1 {
-			l.sendError(invocation, fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
-		} else {
-			// hub method might take a long time
-			go func() {
-				result := func() []reflect.Value {
-					defer l.recoverInvocationPanic(invocation)
-					return method.Call(in)
-				}()
-				l.returnInvocationResult(invocation, result)
+		// hub method might take a long time
+		go func() {
+			result := func() []reflect.Value {
+				defer l.recoverInvocationPanic(invocation)
+				return method.Call(in)
 			}()
-		}
+			l.returnInvocationResult(invocation, result)
+		}()
 	}
 }
 
@@ -362,6 +360,14 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 	}
 	arguments = make([]reflect.Value, method.Type().NumIn())
 	chanCount := 0
+	defer func() {
+		if err != nil {
+			// The method will not be called, so nobody would receive from the channels
+			for _, streamID := range invocation.StreamIds[:chanCount] {
+				streamClient.deleteUpstreamChannel(streamID)
+			}
+		}
+	}()
 	for i := 0; i < method.Type().NumIn(); i++ {
 		t := method.Type().In(i)
 		// Is it a channel for client streaming?
-- 
2.43.0


From 310ea12d093b01f3bf371ac9e64edcfc3f736609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 20/54] fix: refuse an invocation which reuses the id of an
 open upload stream

---
 streamclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamclient.go b/streamclient.go
index 56361c9..f37782f 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -35,6 +35,9 @@ func (c *streamClient) buildChannelArgument(invocation invocationMessage, argTyp
 	if argType.Kind() != reflect.Chan || argType.ChanDir() == reflect.SendDir {
 		return reflect.Value{}, false, nil
 	} else if len(invocation.StreamIds) > chanCount {
+		if _, ok := c.upstreamChannels[invocation.StreamIds[chanCount]]; ok {
+			return reflect.Value{}, true, fmt.Errorf("stream id %q is already in use", invocation.StreamIds[chanCount])
+		}
 		if c.maxConcurrentStreams > 0 && uint(len(c.upstreamChannels)) >= c.maxConcurrentStreams {
 			return reflect.Value{}, true, fmt.Errorf("maximum concurrent streams (%d) reached", c.maxConcurrentStreams)
 		}
-- 
2.43.0


From 7e1ad7b752165d20d38625544229fa3e0a2513f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:35 +0000
Subject: [PATCH 21/54] fix: an observer which does not read must not block the
 client, states are announced in order

---
 client.go | 85 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 57 insertions(+), 28 deletions(-)

diff --git a/client.go b/client.go
index 438300f..fd8793a 100644
--- a/client.go
+++ b/client.go
@@ -121,13 +121,12 @@ func NewClient(ctx context.Context, options ...func(Party) error) (Client, error
 	ctx, cancelFunc = context.WithCancel(ctx)
 	info, dbg := buildInfoDebugLogger(log.NewLogfmtLogger(os.Stderr), true)
 	c := &client{
-		state:            ClientCreated,
-		stateChangeChans: make([]chan ClientState, 0),
-		format:           "json",
-		partyBase:        newPartyBase(ctx, info, dbg),
-		lastID:           -1,
-		backoffFactory:   func() backoff.BackOff { return backoff.NewExponentialBackOff() },
-		cancelFunc:       cancelFunc,
+		state:          ClientCreated,
+		format:         "json",
+		partyBase:      newPartyBase(ctx, info, dbg),
+		lastID:         -1,
+		backoffFactory: func() backoff.BackOff { return backoff.NewExponentialBackOff() },
+		cancelFunc:     cancelFunc,
 	}
 	for _, option := range options {
 		if option != nil {
@@ -154,7 +153,7 @@ type client struct {
 	conn              Connection
 	connectionFactory func() (Connection, error)
 	state             ClientState
-	stateChangeChans  []chan ClientState
+	stateObservers    []*stateObserver
 	err               error
 	format            string
 	loop              *loop
@@ -324,20 +323,46 @@ func (c *client) setState(state ClientState) {
 	c.state = state
 	_ = c.dbg.Log("state", state)
 
-	for _, ch := range c.stateChangeChans {
-		go func(ch chan ClientState, state ClientState) {
-			c.mx.Lock()
-			defer c.mx.Unlock()
+	for _, o := range c.stateObservers {
+		o.pending = append(o.pending, state)
+		if !o.pushing {
+			o.pushing = true
+			go c.pushStates(o)
+		}
+	}
+}
 
-			for _, cch := range c.stateChangeChans {
-				if cch == ch {
-					select {
-					case ch <- state:
-					case <-c.ctx.Done():
-					}
-				}
-			}
-		}(ch, state)
+// stateObserver is a channel which gets all states of the client in order. Its fields are guarded by client.mx
+type stateObserver struct {
+	ch      chan ClientState
+	pending []ClientState
+	pushing bool          // pushStates is running, only this sends to and closes ch
+	done    chan struct{} // is closed when the observation is canceled
+}
+
+// pushStates pushes the pending states. The client is not locked while the observer is slow.
+func (c *client) pushStates(o *stateObserver) {
+	for {
+		c.mx.Lock()
+		select {
+		case <-o.done:
+			close(o.ch)
+			c.mx.Unlock()
+			return
+		default:
+		}
+		if len(o.pending) == 0 {
+			o.pushing = false
+			c.mx.Unlock()
+			return
+		}
+		state := o.pending[0]
+		o.pending = o.pending[1:]
+		c.mx.Unlock()
+		select {
+		case o.ch <- state:
+		case <-o.done:
+		}
 	}
 }
 
@@ -345,20 +370,24 @@ func (c *client) ObserveStateChanged(ch chan ClientState) context.CancelFunc {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	c.stateChangeChans = append(c.stateChangeChans, ch)
+	o := &stateObserver{ch: ch, done: make(chan struct{})}
+	c.stateObservers = append(c.stateObservers, o)
 
 	return func() {
-		c.cancelObserveStateChanged(ch)
+		c.cancelObserveStateChanged(o)
 	}
 }
 
-func (c *client) cancelObserveStateChanged(ch chan ClientState) {
+func (c *client) cancelObserveStateChanged(o *stateObserver) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-	for i, cch := range c.stateChangeChans {
-		if cch == ch {
-			c.stateChangeChans = append(c.stateChangeChans[:i], c.stateChangeChans[i+1:]...)
-			close(ch)
+	for i, observer := range c.stateObservers {
+		if observer == o {
+			c.stateObservers = append(c.stateObservers[:i], c.stateObservers[i+1:]...)
+			close(o.done)
+			if !o.pushing {
+				close(o.ch)
+			}
 			break
 		}
 	}
-- 
2.43.0


From 3f51c601c57e35191105924ffcc41d788202f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:57 +0000
Subject: [PATCH 22/54] fix: a client canceled while waiting for the backoff is
 closed, its error is set before its state

---
 client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index fd8793a..b77a831 100644
--- a/client.go
+++ b/client.go
@@ -207,13 +207,15 @@ func (c *client) Start() {
 			nextBackoff := boff.NextBackOff()
 			// Check for exceeded backoff
 			if nextBackoff == backoff.Stop {
-				c.setState(ClientClosed)
 				c.setErr(errors.New("backoff exceeded"))
+				c.setState(ClientClosed)
 				return
 			}
 			select {
 			case <-time.After(nextBackoff):
 			case <-c.ctx.Done():
+				c.setErr(c.ctx.Err())
+				c.setState(ClientClosed)
 				return
 			}
 			c.setState(ClientConnecting)
-- 
2.43.0


From c9c49dbb0178bb2855317ca1734eba965b3f29a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 23/54] fix: a client which lost its connection is connecting,
 not connected, while waiting for the backoff

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index b77a831..07c863f 100644
--- a/client.go
+++ b/client.go
@@ -211,6 +211,7 @@ func (c *client) Start() {
 				c.setState(ClientClosed)
 				return
 			}
+			c.setState(ClientConnecting)
 			select {
 			case <-time.After(nextBackoff):
 			case <-c.ctx.Done():
@@ -218,7 +219,6 @@ func (c *client) Start() {
 				c.setState(ClientClosed)
 				return
 			}
-			c.setState(ClientConnecting)
 		}
 	}()
 }
-- 
2.43.0


From 2a7a2869965883714040ea097d8b1c5bbbbdbeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 24/54] fix: do not lock the client while it is connecting

---
 client.go | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/client.go b/client.go
index 07c863f..7c0e67c 100644
--- a/client.go
+++ b/client.go
@@ -257,9 +257,7 @@ func (c *client) run() error {
 	}
 
 	// Reset conn to allow reconnecting
-	c.mx.Lock()
 	c.conn = nil
-	c.mx.Unlock()
 
 	return err
 }
@@ -284,32 +282,24 @@ func (c *client) shouldClientEnd() bool {
 	return false
 }
 
+// setupConnectionAndProtocol connects and does the handshake. As this takes time, it does not lock the client.
+// c.conn is only used by the goroutine which runs the client.
 func (c *client) setupConnectionAndProtocol() (hubProtocol, []byte, error) {
-	return func() (hubProtocol, []byte, error) {
-		c.mx.Lock()
-		defer c.mx.Unlock()
-
-		if c.conn == nil {
-			if c.connectionFactory == nil {
-				return nil, nil, ErrUnableToConnect
-			}
-			var err error
-			c.conn, err = c.connectionFactory()
-			if err != nil {
-				return nil, nil, err
-			}
-		}
-		// Pass maximum receive message size to a potential websocket connection
-		if wsConn, ok := c.conn.(*webSocketConnection); ok {
-			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
+	if c.conn == nil {
+		if c.connectionFactory == nil {
+			return nil, nil, ErrUnableToConnect
 		}
-		protocol, received, err := c.processHandshake()
+		var err error
+		c.conn, err = c.connectionFactory()
 		if err != nil {
 			return nil, nil, err
 		}
-
-		return protocol, received, nil
-	}()
+	}
+	// Pass maximum receive message size to a potential websocket connection
+	if wsConn, ok := c.conn.(*webSocketConnection); ok {
+		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
+	}
+	return c.processHandshake()
 }
 
 func (c *client) State() ClientState {
-- 
2.43.0


From 1ad087b7c807331ed41cfa69f18b2d876860fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 25/54] fix: do not reuse the connection of a failed handshake

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 7c0e67c..44b69d9 100644
--- a/client.go
+++ b/client.go
@@ -236,6 +236,10 @@ func (c *client) run() error {
 	// negotiate and so on
 	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
+		// The next attempt needs a new connection
+		if c.connectionFactory != nil {
+			c.conn = nil
+		}
 		return err
 	}
 
-- 
2.43.0


From 5841079bfb59540f8e164fbc11402788c812a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 26/54] fix: the state connected must not overtake the states
 which follow it

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 44b69d9..15b2d07 100644
--- a/client.go
+++ b/client.go
@@ -249,12 +249,16 @@ func (c *client) run() error {
 	c.mx.Unlock()
 	// Broadcast when loop is connected
 	isLoopConnected := make(chan struct{}, 1)
+	connected := make(chan struct{})
 	go func() {
+		defer close(connected)
 		<-isLoopConnected
 		c.setState(ClientConnected)
 	}()
 	// Run the loop
 	err = loop.Run(isLoopConnected)
+	// The states which follow must not be overtaken
+	<-connected
 
 	if err == nil {
 		err = loop.hubConn.Close("", false) // allowReconnect value is ignored as servers never initiate a connection
-- 
2.43.0


From a65ff4484a424040d21e9a694f0b3d84fa9f98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 27/54] fix: the backoff of a client which was connected is
 always reset

---
 client.go | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/client.go b/client.go
index 15b2d07..7f50698 100644
--- a/client.go
+++ b/client.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"reflect"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/cenkalti/backoff/v4"
@@ -174,33 +173,18 @@ func (c *client) Start() {
 
 		for {
 			c.setErr(nil)
-			// Listen for state change to ClientConnected and signal backoff Reset then.
-			stateChangeChan := make(chan ClientState, 1)
-			var connected atomic.Value
-			connected.Store(false)
-			cancelObserve := c.ObserveStateChanged(stateChangeChan)
-			go func() {
-				for range stateChangeChan {
-					if c.State() == ClientConnected {
-						connected.Store(true)
-						return
-					}
-				}
-			}()
 			// RUN!
-			err := c.run()
+			connected, err := c.run()
 			if err != nil {
 				_ = c.info.Log("connect", fmt.Sprintf("%v", err))
 				c.setErr(err)
 			}
-			shouldEnd := c.shouldClientEnd()
-			cancelObserve()
-			if shouldEnd {
+			if c.shouldClientEnd() {
 				return
 			}
 
 			// When the client has connected, BackOff should be reset
-			if connected.Load().(bool) {
+			if connected {
 				boff.Reset()
 			}
 			// Reconnect after BackOff
@@ -232,7 +216,8 @@ func (c *client) Stop() {
 	}
 }
 
-func (c *client) run() error {
+// run connects and runs the loop. It returns if the connection was established and the error which ended it.
+func (c *client) run() (bool, error) {
 	// negotiate and so on
 	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
@@ -240,7 +225,7 @@ func (c *client) run() error {
 		if c.connectionFactory != nil {
 			c.conn = nil
 		}
-		return err
+		return false, err
 	}
 
 	loop := newLoop(c, c.conn, protocol, received)
@@ -267,7 +252,7 @@ func (c *client) run() error {
 	// Reset conn to allow reconnecting
 	c.conn = nil
 
-	return err
+	return true, err
 }
 
 func (c *client) shouldClientEnd() bool {
-- 
2.43.0


From 313f89ed88558d63e0ce85f10caad3a80c616b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 28/54] fix: the close message of an earlier connection must
 not end a client which was started again

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 7f50698..ad5e64d 100644
--- a/client.go
+++ b/client.go
@@ -160,6 +160,7 @@ type client struct {
 	lastID            int64
 	backoffFactory    func() backoff.BackOff
 	cancelFunc        context.CancelFunc
+	closeMessage      *closeMessage // of the last connection
 }
 
 func (c *client) Start() {
@@ -218,6 +219,7 @@ func (c *client) Stop() {
 
 // run connects and runs the loop. It returns if the connection was established and the error which ended it.
 func (c *client) run() (bool, error) {
+	c.closeMessage = nil
 	// negotiate and so on
 	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
@@ -244,6 +246,7 @@ func (c *client) run() (bool, error) {
 	err = loop.Run(isLoopConnected)
 	// The states which follow must not be overtaken
 	<-connected
+	c.closeMessage = loop.closeMessage
 
 	if err == nil {
 		err = loop.hubConn.Close("", false) // allowReconnect value is ignored as servers never initiate a connection
@@ -268,7 +271,7 @@ func (c *client) shouldClientEnd() bool {
 		return true
 	}
 	// Reconnecting not allowed
-	if loop := c.currentLoop(); loop != nil && loop.closeMessage != nil && !loop.closeMessage.AllowReconnect {
+	if c.closeMessage != nil && !c.closeMessage.AllowReconnect {
 		c.setState(ClientClosed)
 		return true
 	}
-- 
2.43.0


From 0ea786e94333ea26da2f4b68c44584df60a55511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 29/54] fix: Do not disconnect a peer whose message is waiting
 when the timeout elapses

---
 loop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/loop.go b/loop.go
index 244150d..5c0dc6e 100644
--- a/loop.go
+++ b/loop.go
@@ -128,6 +128,10 @@ msgLoop:
 				}
 				// Don't break the pingLoop when keepAlive is over, it exists for this case
 			case <-timeoutTicker.C:
+				if len(ch) > 0 {
+					// The peer is not silent, its message is waiting because the loop was busy
+					continue
+				}
 				err = fmt.Errorf("timeout interval elapsed (%v)", l.party.timeout())
 				break pingLoop
 			case <-l.hubConn.Context().Done():
-- 
2.43.0


From 556e81fbf8d1219cbf7438e3e734d513d9e14c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 30/54] fix: Create the hub of a connection only once and not
 after its end

---
 server.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index 6a698d1..1d8012e 100644
--- a/server.go
+++ b/server.go
@@ -150,23 +150,37 @@ func (s *server) availableTransports() []TransportType {
 
 func (s *server) onConnected(hc HubConnection) {
 	s.lifetimeManager.OnConnected(hc)
+	hub, ok := s.lifeCycleTarget(hc)
+	if !ok {
+		return
+	}
 	go func() {
 		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnConnected(hc.ConnectionID())
+		hub.OnConnected(hc.ConnectionID())
 	}()
 }
 
 func (s *server) onDisconnected(hc HubConnection) {
-	go func() {
-		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnDisconnected(hc.ConnectionID())
-	}()
+	if hub, ok := s.lifeCycleTarget(hc); ok {
+		go func() {
+			defer s.recoverHubLifeCyclePanic()
+			hub.OnDisconnected(hc.ConnectionID())
+		}()
+	}
 	s.lifetimeManager.OnDisconnected(hc)
 
 	// Clean up the connection hub
 	s.removeConnectionHub(hc.ConnectionID())
 }
 
+// lifeCycleTarget returns the hub for the life cycle callbacks. It needs to be called in the goroutine of the message
+// loop: the hub of a connection must not be created by several goroutines, nor after the connection has ended.
+func (s *server) lifeCycleTarget(hc HubConnection) (hub HubInterface, ok bool) {
+	defer s.recoverHubLifeCyclePanic()
+	hub, ok = s.invocationTarget(hc).(HubInterface)
+	return hub, ok
+}
+
 func (s *server) invocationTarget(conn HubConnection) interface{} {
 	if s.perConnectionHubFactory != nil {
 		// Use per-connection hub factory
-- 
2.43.0


From a9cbe69647f9b05c8dd5a549a1f942afe5b7b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:32 +0000
Subject: [PATCH 31/54] fix: Do not call the per connection hub factory for
 logging

---
 server.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/server.go b/server.go
index 1d8012e..144c9d7 100644
--- a/server.go
+++ b/server.go
@@ -219,20 +219,17 @@ func (s *server) recoverHubLifeCyclePanic() {
 }
 
 func (s *server) prefixLoggers(connectionID string) (info StructuredLogger, dbg StructuredLogger) {
-	hubType := reflect.TypeOf(nil)
+	var hubType interface{}
 	if s.perConnectionHubFactory != nil {
-		// Create a temporary hub to get the type for logging
-		tempHub := s.perConnectionHubFactory(connectionID)
-		hubValue := reflect.ValueOf(tempHub)
-		if hubValue.Kind() == reflect.Ptr {
-			hubType = hubValue.Elem().Type()
-		}
-		
+		// The factory is called once per connection, not for logging. Log the type of the hub when it exists
+		hubType = log.Valuer(func() interface{} {
+			if hub, ok := s.getConnectionHub(connectionID); ok {
+				return hubElemType(hub)
+			}
+			return nil
+		})
 	} else if s.newHub != nil {
-		hubValue := reflect.ValueOf(s.newHub())
-		if hubValue.Kind() == reflect.Ptr {
-			hubType = hubValue.Elem().Type()
-		}
+		hubType = hubElemType(s.newHub())
 	}
 
 	return log.WithPrefix(s.info, "ts", log.DefaultTimestampUTC,
@@ -245,6 +242,14 @@ func (s *server) prefixLoggers(connectionID string) (info StructuredLogger, dbg
 			"hub", hubType)
 }
 
+// hubElemType returns the type of the hub for logging
+func hubElemType(hub HubInterface) interface{} {
+	if hubValue := reflect.ValueOf(hub); hubValue.Kind() == reflect.Ptr {
+		return hubValue.Elem().Type()
+	}
+	return nil
+}
+
 func (s *server) newConnectionHubContext(hubConn HubConnection) HubContext {
 	return &connectionHubContext{
 		abort: hubConn.Abort,
-- 
2.43.0


From 09547961dd9f74c2a98bf1b7e6316f88b1548aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 32/54] fix: Do not add a connection to a group which has
 disconnected meanwhile

---
 hublifetimemanager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hublifetimemanager.go b/hublifetimemanager.go
index 7f3f4a2..a94ea25 100644
--- a/hublifetimemanager.go
+++ b/hublifetimemanager.go
@@ -111,6 +111,10 @@ func (d *defaultHubLifetimeManager) AddToGroup(groupName string, connectionID st
 	if client, ok := d.clients.Load(connectionID); ok {
 		gm, _ := d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
 		gm.(*groupMap).add(connectionID, client.(HubConnection))
+		// The client might have disconnected meanwhile. Then OnDisconnected has perhaps not seen it in the group
+		if _, ok := d.clients.Load(connectionID); !ok {
+			gm.(*groupMap).remove(connectionID)
+		}
 	}
 }
 
-- 
2.43.0


From ec6cfea95aa210982877fddce116b0e390436deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 33/54] fix: Start only one connection for a negotiated id

Checking that a negotiated connection is not started yet and starting it was not one step, so concurrent requests with
the same id or token could start several connections. The token of version 1 was still valid after a WebSocket was
started with it, server sent events connections used the token instead of the connection id, and their response did not
end when the connection was not served anymore.
---
 httpmux.go | 157 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 90 insertions(+), 67 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 9d21116..f3c45f6 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -42,7 +42,7 @@ func (h *httpMux) reaperLoop() {
 		case now := <-ticker.C:
 			h.mx.Lock()
 			for key, c := range h.connectionMap {
-				if nc, ok := c.(*negotiateConnection); ok && now.Sub(nc.createdAt) > ttl {
+				if nc, ok := c.(*negotiateConnection); ok && !nc.claimed && now.Sub(nc.createdAt) > ttl {
 					delete(h.connectionMap, key)
 				}
 			}
@@ -127,51 +127,48 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 		writer.WriteHeader(http.StatusBadRequest)
 		return
 	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionIDorToken]
-	h.mx.RUnlock()
-	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
-			if err != nil {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
-			flusher, ok := writer.(http.Flusher)
-			if !ok {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
-			// Connection is negotiated but not initiated
-			// We compose http and send it over sse
-			writer.Header().Set("Content-Type", "text/event-stream")
-			writer.Header().Set("Connection", "keep-alive")
-			writer.Header().Set("Cache-Control", "no-cache")
-			writer.WriteHeader(http.StatusOK)
-			// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
-			_, _ = fmt.Fprint(writer, ":\r\n\r\n")
-			writer.(http.Flusher).Flush()
-			go func() {
-				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
-				_ = h.serveConnection(sseConn)
-			}()
-			// Loop for write jobs from the sseServerConnection
-			for buf := range jobChan {
-				n, err := writer.Write(buf)
-				if err == nil {
-					flusher.Flush()
-				}
-				jobResultChan <- RWJobResult{n: n, err: err}
-			}
-			close(jobResultChan)
-		} else {
-			// connectionID in use
-			writer.WriteHeader(http.StatusConflict)
+	flusher, ok := writer.(http.Flusher)
+	if !ok {
+		writer.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+	c, status := h.claim(connectionIDorToken)
+	if c == nil {
+		writer.WriteHeader(status)
+		return
+	}
+	// Connection is negotiated but not initiated
+	ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
+	defer cancel()
+	sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, c.ConnectionID())
+	if err != nil {
+		h.remove(connectionIDorToken)
+		writer.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+	// We compose http and send it over sse
+	writer.Header().Set("Content-Type", "text/event-stream")
+	writer.Header().Set("Connection", "keep-alive")
+	writer.Header().Set("Cache-Control", "no-cache")
+	writer.WriteHeader(http.StatusOK)
+	// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
+	_, _ = fmt.Fprint(writer, ":\r\n\r\n")
+	flusher.Flush()
+	go func() {
+		// When the connection is not served anymore, the response has to end
+		defer cancel()
+		// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
+		_ = h.serveConnection(connectionIDorToken, sseConn)
+	}()
+	// Loop for write jobs from the sseServerConnection
+	for buf := range jobChan {
+		n, err := writer.Write(buf)
+		if err == nil {
+			flusher.Flush()
 		}
-	} else {
-		writer.WriteHeader(http.StatusNotFound)
+		jobResultChan <- RWJobResult{n: n, err: err}
 	}
+	close(jobResultChan)
 }
 
 func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Request) {
@@ -189,32 +186,34 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 	}
 	websocketConn.SetReadLimit(int64(h.server.maximumReceiveMessageSize()))
 	connectionMapKey := request.URL.Query().Get("id")
+	var c *negotiateConnection
+	var status int
 	if connectionMapKey == "" {
 		// Support websocket connection without negotiate
 		connectionMapKey = newConnectionID()
-		h.mx.Lock()
-		h.connectionMap[connectionMapKey] = &negotiateConnection{
+		c = &negotiateConnection{
 			ConnectionBase: ConnectionBase{connectionID: connectionMapKey},
 			createdAt:      time.Now(),
+			claimed:        true,
 		}
+		h.mx.Lock()
+		h.connectionMap[connectionMapKey] = c
 		h.mx.Unlock()
+	} else {
+		c, status = h.claim(connectionMapKey)
 	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionMapKey]
-	h.mx.RUnlock()
-	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
-			// Connection is negotiated but not initiated
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			err = h.serveConnection(newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
-			if err != nil {
-				_ = websocketConn.Close(1005, err.Error())
-			}
-		} else {
-			// Already initiated
-			_ = websocketConn.Close(1002, "Bad request")
+	switch {
+	case c != nil:
+		// Connection is negotiated but not initiated
+		ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+		err = h.serveConnection(connectionMapKey, newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
+		if err != nil {
+			_ = websocketConn.Close(1005, err.Error())
 		}
-	} else {
+	case status == http.StatusConflict:
+		// Already initiated
+		_ = websocketConn.Close(1002, "Bad request")
+	default:
 		// Not negotiated
 		_ = websocketConn.Close(1002, "Not found")
 	}
@@ -254,7 +253,7 @@ func (h *httpMux) negotiate(w http.ResponseWriter, req *http.Request) {
 		if max := h.server.maxNegotiationConnections(); max > 0 {
 			var pending int
 			for _, c := range h.connectionMap {
-				if _, ok := c.(*negotiateConnection); ok {
+				if nc, ok := c.(*negotiateConnection); ok && !nc.claimed {
 					pending++
 				}
 			}
@@ -299,15 +298,38 @@ func (h *httpMux) negotiate(w http.ResponseWriter, req *http.Request) {
 	}
 }
 
-func (h *httpMux) serveConnection(c Connection) error {
+// claim reserves the negotiated connection which is stored under key for the caller, who is the only one allowed to
+// start it. If there is none, claim returns nil and the HTTP status which tells why.
+func (h *httpMux) claim(key string) (*negotiateConnection, int) {
+	h.mx.Lock()
+	defer h.mx.Unlock()
+	c, ok := h.connectionMap[key]
+	if !ok {
+		return nil, http.StatusNotFound
+	}
+	nc, ok := c.(*negotiateConnection)
+	if !ok || nc.claimed {
+		// connection is already started
+		return nil, http.StatusConflict
+	}
+	nc.claimed = true
+	return nc, http.StatusOK
+}
+
+func (h *httpMux) remove(key string) {
 	h.mx.Lock()
-	h.connectionMap[c.ConnectionID()] = c
+	delete(h.connectionMap, key)
 	h.mx.Unlock()
-	err := h.server.Serve(c)
+}
+
+// serveConnection serves a connection which is known to the clients by key.
+// (The connection token for negotiate version 1, else the connectionID)
+func (h *httpMux) serveConnection(key string, c Connection) error {
 	h.mx.Lock()
-	delete(h.connectionMap, c.ConnectionID())
+	h.connectionMap[key] = c
 	h.mx.Unlock()
-	return err
+	defer h.remove(key)
+	return h.server.Serve(c)
 }
 
 func newConnectionID() string {
@@ -321,6 +343,7 @@ func newConnectionID() string {
 type negotiateConnection struct {
 	ConnectionBase
 	createdAt time.Time
+	claimed   bool // a request has started the connection. Guarded by the mutex of the httpMux
 }
 
 func (n *negotiateConnection) Read([]byte) (int, error) {
-- 
2.43.0


From 1d4fb0873ca77ca5db43432ef7166cca841a2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 34/54] fix: Do not block server sent events connections
 forever

After a POST which could not be read all others were refused. A write kept the mutex locked when the context was done,
or blocked with the mutex locked, and concurrent writes could get the results of each other. POSTs blocked forever when
the connection ended before they were read.
---
 serversseconnection.go | 57 +++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/serversseconnection.go b/serversseconnection.go
index 665d696..6332580 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -14,8 +14,9 @@ type serverSSEConnection struct {
 	ConnectionBase
 	mx            sync.Mutex
 	postWriting   bool
-	postWriter    io.Writer
-	postReader    io.Reader
+	postWriter    *io.PipeWriter
+	postReader    *io.PipeReader
+	writeMx       sync.Mutex // held while a job is written, so only one job is on its way
 	jobChan       chan []byte
 	jobResultChan chan RWJobResult
 }
@@ -29,9 +30,12 @@ func newServerSSEConnection(ctx context.Context, connectionID string) (*serverSS
 	s.postReader, s.postWriter = io.Pipe()
 	go func() {
 		<-s.Context().Done()
-		s.mx.Lock()
+		// Nobody will read anymore, unblock all requests which still write
+		_ = s.postReader.CloseWithError(s.Context().Err())
+		// Write does not use jobChan anymore when it sees that the context is done
+		s.writeMx.Lock()
 		close(s.jobChan)
-		s.mx.Unlock()
+		s.writeMx.Unlock()
 	}()
 	return &s, s.jobChan, s.jobResultChan, nil
 }
@@ -47,26 +51,38 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 	}
 	s.postWriting = true
 	s.mx.Unlock()
+	status := s.post(request)
+	s.mx.Lock()
+	s.postWriting = false
+	s.mx.Unlock()
+	if status == http.StatusOK {
+		<-time.After(50 * time.Millisecond)
+	}
+	return status
+}
+
+// post forwards the body of the request to Read
+func (s *serverSSEConnection) post(request *http.Request) int {
 	defer func() {
 		_ = request.Body.Close()
 	}()
 	body, err := io.ReadAll(request.Body)
 	if err != nil {
 		return http.StatusBadRequest // 400
-	} else if _, err := s.postWriter.Write(body); err != nil {
+	}
+	if _, err := s.postWriter.Write(body); err != nil {
+		if s.Context().Err() != nil {
+			return http.StatusGone // 410
+		}
 		return http.StatusInternalServerError // 500
 	}
-	s.mx.Lock()
-	s.postWriting = false
-	s.mx.Unlock()
-	<-time.After(50 * time.Millisecond)
 	return http.StatusOK // 200
 }
 
 func (s *serverSSEConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(s.Context(),
 		func() (int, error) { return s.postReader.Read(p) },
-		func() { _, _ = s.postWriter.Write([]byte("\n")) })
+		func() { _ = s.postReader.CloseWithError(s.Context().Err()) })
 	if err != nil {
 		err = fmt.Errorf("%T: %w", s, err)
 	}
@@ -81,19 +97,24 @@ func (s *serverSSEConnection) Write(p []byte) (n int, err error) {
 	for _, line := range strings.Split(strings.TrimRight(string(p), "\n"), "\n") {
 		payload = payload + "data: " + line + "\n"
 	}
-	// prevent race with goroutine closing the jobChan
-	s.mx.Lock()
-	if s.Context().Err() == nil {
-		s.jobChan <- []byte(payload + "\n")
-	} else {
+	// prevent race with goroutine closing the jobChan and mixing up the results of concurrent writes
+	s.writeMx.Lock()
+	defer s.writeMx.Unlock()
+	if err := s.Context().Err(); err != nil {
+		return 0, fmt.Errorf("%T: %w", s, err)
+	}
+	select {
+	case <-s.Context().Done():
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
+	case s.jobChan <- []byte(payload + "\n"):
 	}
-	s.mx.Unlock()
 	select {
 	case <-s.Context().Done():
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
 	case r := <-s.jobResultChan:
-		return r.n, r.err
+		if r.err != nil {
+			return 0, r.err
+		}
+		return len(p), nil
 	}
-
 }
-- 
2.43.0


From d93e0a685c994a3064ee6e4b755b61ccb3b6ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:51 +0000
Subject: [PATCH 35/54] fix: Read server sent events independent from the parts
 in which they are received

Lines which were received in more than one part were dropped, the end of the event stream did not end Read, the POSTs of
a connection with negotiate version 1 did not use the token, and a refused request for events was not noticed.
---
 clientsseconnection.go | 68 ++++++++++++++++++++++++++----------------
 httpconnection.go      | 10 ++++++-
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 1ca613c..725582a 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -1,13 +1,13 @@
 package signalr
 
 import (
+	"bufio"
 	"bytes"
 	"context"
 	"fmt"
 	"io"
 	"net/http"
 	"net/url"
-	"strings"
 )
 
 type clientSSEConnection struct {
@@ -15,7 +15,6 @@ type clientSSEConnection struct {
 	client    Doer
 	reqURL    string
 	sseReader io.Reader
-	sseWriter io.Writer
 }
 
 func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
@@ -35,36 +34,55 @@ func newClientSSEConnection(address string, connectionID string, body io.ReadClo
 		client: client,
 		reqURL: reqURL.String(),
 	}
-	c.sseReader, c.sseWriter = io.Pipe()
+	var sseWriter *io.PipeWriter
+	c.sseReader, sseWriter = io.Pipe()
 	go func() {
 		defer func() { closeResponseBody(body) }()
-		p := make([]byte, 1<<15)
-	loop:
-		for {
-			n, err := body.Read(p)
-			if err != nil {
-				break loop
-			}
-			lines := strings.Split(string(p[:n]), "\n")
-			for _, line := range lines {
-				line = strings.Trim(line, "\r\t ")
-				// Ignore everything but data
-				if strings.Index(line, "data:") != 0 {
-					continue
-				}
-				json := strings.Replace(strings.Trim(line, "\r"), "data:", "", 1)
+		_ = sseWriter.CloseWithError(copyEventData(sseWriter, body))
+	}()
+	return &c, nil
+}
+
+// copyEventData copies the data of the server sent events in body to writer. It ends with an error in any case,
+// this is io.EOF at the end of body.
+func copyEventData(writer io.Writer, body io.Reader) error {
+	reader := bufio.NewReaderSize(body, 1<<15)
+	lineStart, dataLine, eventHasData := true, false, false
+	for {
+		// A line might come in several parts, independent from the parts in which body is received
+		line, isPrefix, err := reader.ReadLine()
+		if err != nil {
+			return err
+		}
+		if lineStart {
+			// Ignore everything but data
+			dataLine = bytes.HasPrefix(line, []byte("data:"))
+			switch {
+			case dataLine:
+				line = line[len("data:"):]
 				// Spec says: If it starts with Space, remove it
-				if len(json) > 0 && json[0] == ' ' {
-					json = json[1:]
+				if len(line) > 0 && line[0] == ' ' {
+					line = line[1:]
 				}
-				_, err = c.sseWriter.Write([]byte(json))
-				if err != nil {
-					break loop
+				// Spec says: The data lines of one event are joined with line feeds
+				if eventHasData {
+					if _, err = writer.Write([]byte{'\n'}); err != nil {
+						return err
+					}
 				}
+				eventHasData = true
+			case len(line) == 0:
+				// The event has ended
+				eventHasData = false
 			}
 		}
-	}()
-	return &c, nil
+		if dataLine && len(line) > 0 {
+			if _, err = writer.Write(line); err != nil {
+				return err
+			}
+		}
+		lineStart = !isPrefix
+	}
 }
 
 func (c *clientSSEConnection) Read(p []byte) (n int, err error) {
diff --git a/httpconnection.go b/httpconnection.go
index 629d8c1..f765589 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -208,10 +208,18 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		conn, err = newClientSSEConnection(address, negotiateResponse.ConnectionID, resp.Body, httpConn.client)
+		if resp.StatusCode != 200 {
+			closeResponseBody(resp.Body)
+			return nil, fmt.Errorf("%v %v -> %v", req.Method, req.URL.String(), resp.Status)
+		}
+
+		// Like the GET, the POSTs need the connection token instead of the connectionID when negotiateVersion is 1
+		sseConn, err := newClientSSEConnection(address, q.Get("id"), resp.Body, httpConn.client)
 		if err != nil {
 			return nil, err
 		}
+		sseConn.SetConnectionID(negotiateResponse.ConnectionID)
+		conn = sseConn
 
 	default:
 		return nil, fmt.Errorf("transport not configured or unknown negotiation transports: %v", negotiateResponse.AvailableTransports)
-- 
2.43.0


From f7c6ab2f7606d243101e85ea26846b07e8dca4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:56 +0000
Subject: [PATCH 36/54] fix: Do not change the options of the caller in
 HttpConnectionFactory

After the first connection, WithHttpConnection reconnected with other transports or with missing options, because removing
and appending the WithTransports options was done in the slice of the caller. nil options panicked.
---
 clientoptions.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/clientoptions.go b/clientoptions.go
index 4aed5e5..3c22ae5 100644
--- a/clientoptions.go
+++ b/clientoptions.go
@@ -42,16 +42,16 @@ func WithConnector(connectionFactory func() (Connection, error)) func(Party) err
 // with WebSockets (if it is allowed by the HttpConnection options) and if this fails, falls back to a SSE based connection.
 func HttpConnectionFactory(ctx context.Context, address string, options ...func(*httpConnection) error) (Connection, error) {
 	conn := &httpConnection{}
-	for i, option := range options {
-		if err := option(conn); err != nil {
-			return nil, err
-		}
-		if conn.transports != nil {
-			// Remove the WithTransports option
-			options = append(options[:i], options[i+1:]...)
-			break
+	for _, option := range options {
+		if option != nil {
+			if err := option(conn); err != nil {
+				return nil, err
+			}
 		}
 	}
+	// The WithTransports options appended below override the ones in options. They must not be written to the slice of
+	// the caller, the next connection might be created with the same options.
+	options = options[:len(options):len(options)]
 	// If no WithTransports was given, NewHTTPConnection fallbacks to both
 	if conn.transports == nil {
 		conn.transports = []TransportType{TransportWebSockets, TransportServerSentEvents}
-- 
2.43.0


From af16a9885d196f5c80632400472ebb1ab027ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 37/54] fix: The last hub option is the one in effect

---
 serveroptions.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serveroptions.go b/serveroptions.go
index 420ad9b..e1f92dd 100644
--- a/serveroptions.go
+++ b/serveroptions.go
@@ -10,6 +10,7 @@ import (
 func UseHub(hub HubInterface) func(Party) error {
 	return func(p Party) error {
 		if s, ok := p.(*server); ok {
+			s.perConnectionHubFactory = nil
 			s.newHub = func() HubInterface { return hub }
 			return nil
 		}
@@ -24,6 +25,7 @@ func UseHub(hub HubInterface) func(Party) error {
 func HubFactory(factory func() HubInterface) func(Party) error {
 	return func(p Party) error {
 		if s, ok := p.(*server); ok {
+			s.perConnectionHubFactory = nil
 			s.newHub = factory
 			return nil
 		}
-- 
2.43.0


From 6735c10ea6209e1f960e09d5a75676be618517b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 38/54] fix: Refuse intervals which can not be used for a
 ticker

---
 options.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/options.go b/options.go
index e02ed6d..8e1921a 100644
--- a/options.go
+++ b/options.go
@@ -15,6 +15,9 @@ import (
 // Default is 30 seconds.
 func TimeoutInterval(timeout time.Duration) func(Party) error {
 	return func(p Party) error {
+		if timeout <= 0 {
+			return fmt.Errorf("unsupported TimeoutInterval %v", timeout)
+		}
 		p.setTimeout(timeout)
 		return nil
 	}
@@ -27,6 +30,9 @@ func TimeoutInterval(timeout time.Duration) func(Party) error {
 // see https://github.com/dotnet/aspnetcore/blob/master/src/SignalR/docs/specs/HubProtocol.md
 func HandshakeTimeout(timeout time.Duration) func(Party) error {
 	return func(p Party) error {
+		if timeout <= 0 {
+			return fmt.Errorf("unsupported HandshakeTimeout %v", timeout)
+		}
 		p.setHandshakeTimeout(timeout)
 		return nil
 	}
@@ -39,6 +45,9 @@ func HandshakeTimeout(timeout time.Duration) func(Party) error {
 // Default is 15 seconds.
 func KeepAliveInterval(interval time.Duration) func(Party) error {
 	return func(p Party) error {
+		if interval <= 0 {
+			return fmt.Errorf("unsupported KeepAliveInterval %v", interval)
+		}
 		p.setKeepAliveInterval(interval)
 		return nil
 	}
-- 
2.43.0


From 8790a6de473e5a053d289d4be7db47f824f1e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 39/54] fix: Receive all hub messages of a WebSocket message

---
 client.go              |  4 ----
 httpmux.go             |  1 -
 websocketconnection.go | 30 ++++++++++++++++++++++++------
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index ad5e64d..9261327 100644
--- a/client.go
+++ b/client.go
@@ -291,10 +291,6 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, []byte, error) {
 			return nil, nil, err
 		}
 	}
-	// Pass maximum receive message size to a potential websocket connection
-	if wsConn, ok := c.conn.(*webSocketConnection); ok {
-		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
-	}
 	return c.processHandshake()
 }
 
diff --git a/httpmux.go b/httpmux.go
index f3c45f6..fb62276 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -184,7 +184,6 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		// don't need to write an error header here as websocket.Accept has already used http.Error
 		return
 	}
-	websocketConn.SetReadLimit(int64(h.server.maximumReceiveMessageSize()))
 	connectionMapKey := request.URL.Query().Get("id")
 	var c *negotiateConnection
 	var status int
diff --git a/websocketconnection.go b/websocketconnection.go
index e6ec983..5bc7994 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -1,9 +1,9 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"fmt"
+	"io"
 	"net/http"
 	"net/url"
 	"github.com/coder/websocket"
@@ -22,9 +22,13 @@ type webSocketConnection struct {
 	ConnectionBase
 	conn         *websocket.Conn
 	transferMode TransferMode
+	message      io.Reader // the WebSocket message which is currently read
 }
 
 func newWebSocketConnection(ctx context.Context, connectionID string, conn *websocket.Conn) *webSocketConnection {
+	// The maximum receive message size limits the hub messages, not the WebSocket messages which contain them. As they
+	// are read in parts, their size does not matter.
+	conn.SetReadLimit(-1)
 	w := &webSocketConnection{
 		conn:           conn,
 		ConnectionBase: *NewConnectionBase(ctx, connectionID),
@@ -56,11 +60,7 @@ func (w *webSocketConnection) Write(p []byte) (n int, err error) {
 func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(w.Context(),
 		func() (int, error) {
-			_, data, err := w.conn.Read(w.Context())
-			if err != nil {
-				return 0, err
-			}
-			return bytes.NewReader(data).Read(p)
+			return w.readMessage(p)
 		},
 		func() {})
 	if err != nil {
@@ -70,6 +70,24 @@ func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	return n, err
 }
 
+// readMessage reads the next part of the current WebSocket message. A WebSocket message might contain several hub
+// messages and be larger than p, what does not fit into p is read by the next calls.
+func (w *webSocketConnection) readMessage(p []byte) (n int, err error) {
+	for n == 0 && err == nil && len(p) > 0 {
+		if w.message == nil {
+			if _, w.message, err = w.conn.Reader(w.Context()); err != nil {
+				return 0, err
+			}
+		}
+		n, err = w.message.Read(p)
+		if err == io.EOF {
+			// The message has ended, but not the connection
+			w.message, err = nil, nil
+		}
+	}
+	return n, err
+}
+
 func (w *webSocketConnection) TransferMode() TransferMode {
 	return w.transferMode
 }
-- 
2.43.0


From 9be585181dc98c5def47ffd4ae35447f73b5b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 40/54] fix: let the Redis lifetime manager reach the
 connections of the sending server

---
 ext/redishublifetimemnager.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 2be652b..d67852a 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -132,12 +132,18 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 		return
 	}
 
-	// CRITICAL: Skip messages from this instance to prevent infinite loops
+	// CRITICAL: Skip messages from this instance to prevent infinite loops.
+	// The local connections have been served when the message was published.
 	if invocation.SourceInstance == r.instanceID {
 		level.Debug(r.logger).Log("event", "skipped_self_message", "sourceInstance", invocation.SourceInstance, "target", invocation.Target)
 		return
 	}
 
+	r.dispatch(msg.Channel, invocation)
+}
+
+// dispatch sends an invocation which is published on channel to the local connections it is addressed to
+func (r *redisHubLifetimeManager) dispatch(channel string, invocation redisInvocation) {
 	// Create exclusion map for faster lookup
 	excludedMap := make(map[string]struct{}, len(invocation.ExcludedIDs))
 	for _, id := range invocation.ExcludedIDs {
@@ -176,7 +182,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	}
 
 	// 2. Message for a group (sent via InvokeGroup)
-	if invocation.GroupName != "" && strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
+	if invocation.GroupName != "" && strings.HasPrefix(channel, redisGroupChannelPrefix) {
 		groupName := invocation.GroupName // Group name is in the payload
 		level.Debug(r.logger).Log("event", "processing_group_message", "group", groupName, "method", invocation.Target)
 
@@ -223,7 +229,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	}
 
 	// 3. Message for all clients (sent via InvokeAll)
-	if invocation.ConnectionID == "" && invocation.GroupName == "" && msg.Channel == redisAllChannel {
+	if invocation.ConnectionID == "" && invocation.GroupName == "" && channel == redisAllChannel {
 		level.Debug(r.logger).Log("event", "processing_all_message", "method", invocation.Target)
 		// Iterate through all local connections
 		r.clients.Range(func(key, value interface{}) bool {
@@ -254,7 +260,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	}
 
 	// If none of the above matched, log it.
-	level.Warn(r.logger).Log("event", "unhandled_redis_message", "channel", msg.Channel, "payload", msg.Payload)
+	level.Warn(r.logger).Log("event", "unhandled_redis_message", "channel", channel, "target", invocation.Target)
 }
 
 // --- HubLifetimeManager Interface Implementation ---
@@ -321,6 +327,7 @@ func (r *redisHubLifetimeManager) InvokeAll(target string, args []interface{}) {
 		level.Error(r.logger).Log("event", "json_marshal_failed", "target", "all", "method", target, "err", err)
 		return
 	}
+	r.dispatch(redisAllChannel, msg)
 	err = r.redisClient.Publish(r.ctx, redisAllChannel, payload).Err()
 	if err != nil {
 		level.Error(r.logger).Log("event", "redis_publish_failed", "channel", redisAllChannel, "err", err)
@@ -350,6 +357,7 @@ func (r *redisHubLifetimeManager) InvokeClient(connectionID string, target strin
 	}
 
 	// Publish to the 'all' channel. handleRedisMessage will filter by ConnectionID.
+	r.dispatch(redisAllChannel, msg)
 	err = r.redisClient.Publish(r.ctx, redisAllChannel, payload).Err()
 	if err != nil {
 		level.Error(r.logger).Log("event", "redis_publish_failed", "channel", redisAllChannel, "targetConnection", connectionID, "err", err)
@@ -371,6 +379,7 @@ func (r *redisHubLifetimeManager) InvokeGroup(groupName string, target string, a
 		return
 	}
 
+	r.dispatch(channel, msg)
 	err = r.redisClient.Publish(r.ctx, channel, payload).Err()
 	if err != nil {
 		level.Error(r.logger).Log("event", "redis_publish_failed", "channel", channel, "err", err)
@@ -387,6 +396,7 @@ func (r *redisHubLifetimeManager) InvokeAllExcept(target string, args []interfac
 		level.Error(r.logger).Log("event", "json_marshal_failed", "target", "all_except", "method", target, "err", err)
 		return
 	}
+	r.dispatch(redisAllChannel, msg)
 	err = r.redisClient.Publish(r.ctx, redisAllChannel, payload).Err()
 	if err != nil {
 		level.Error(r.logger).Log("event", "redis_publish_failed", "channel", redisAllChannel, "err", err)
@@ -405,6 +415,7 @@ func (r *redisHubLifetimeManager) InvokeGroupExcept(groupName string, target str
 		return
 	}
 
+	r.dispatch(channel, msg)
 	err = r.redisClient.Publish(r.ctx, channel, payload).Err()
 	if err != nil {
 		level.Error(r.logger).Log("event", "redis_publish_failed", "channel", channel, "err", err)
-- 
2.43.0


From 1789d2133bfb5e522a46ca317eeb8bc84190def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 41/54] fix: do not ask for completions of messages sent to all
 connections or a group over Redis

---
 ext/redishublifetimemnager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index d67852a..2688f2f 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -210,7 +210,7 @@ func (r *redisHubLifetimeManager) dispatch(channel string, invocation redisInvoc
 				// Send the invocation asynchronously
 				go func(conn signalr.HubConnection, connID string) {
 					// Timeout removed as per request
-					err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+					err := conn.SendInvocation("", invocation.Target, invocation.Args)
 					if err != nil {
 						level.Error(r.logger).Log("event", "send_invocation_failed", "target", "group", "groupName", groupName, "connectionId", connID, "err", err)
 					} else {
@@ -246,7 +246,7 @@ func (r *redisHubLifetimeManager) dispatch(channel string, invocation redisInvoc
 			go func(conn signalr.HubConnection, connID string) {
 				_, cancel := context.WithTimeout(r.ctx, 5*time.Second)
 				defer cancel()
-				err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+				err := conn.SendInvocation("", invocation.Target, invocation.Args)
 				if err != nil {
 					level.Error(r.logger).Log("event", "send_invocation_failed", "target", "all", "connectionId", connID, "err", err)
 				} else {
-- 
2.43.0


From 5104d1651492680aafa22fee266e27c512983376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:32 +0000
Subject: [PATCH 42/54] fix: address the empty group and no connection without
 an id over Redis

---
 ext/redishublifetimemnager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 2688f2f..509dc82 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -182,7 +182,7 @@ func (r *redisHubLifetimeManager) dispatch(channel string, invocation redisInvoc
 	}
 
 	// 2. Message for a group (sent via InvokeGroup)
-	if invocation.GroupName != "" && strings.HasPrefix(channel, redisGroupChannelPrefix) {
+	if strings.HasPrefix(channel, redisGroupChannelPrefix) {
 		groupName := invocation.GroupName // Group name is in the payload
 		level.Debug(r.logger).Log("event", "processing_group_message", "group", groupName, "method", invocation.Target)
 
@@ -349,6 +349,9 @@ func (r *redisHubLifetimeManager) InvokeClient(connectionID string, target strin
 	//   // Let's stick to the Redis publish model for simplicity and consistency.
 	// }
 
+	if connectionID == "" {
+		return // There is no such connection, and without a ConnectionID the message would address all connections
+	}
 	msg := redisInvocation{Target: target, Args: args, ConnectionID: connectionID, SourceInstance: r.instanceID}
 	payload, err := json.Marshal(msg)
 	if err != nil {
-- 
2.43.0


From b8283f9736cd4cf29a9573a955ae9e72cd9adb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:12 +0000
Subject: [PATCH 43/54] fix: guard the group cache of the Redis lifetime
 manager against concurrent access

---
 ext/redishublifetimemnager.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 509dc82..ab29d8d 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -49,6 +49,8 @@ type redisHubLifetimeManager struct {
 	ctx              context.Context
 	cancel           context.CancelFunc
 	// protocol         signalr.hubProtocol // Needed for serialization if args are complex (though JSON handles basic types)
+
+	groupsMx sync.Mutex // Guards the sets in connectionGroups
 }
 
 // newRedisHubLifetimeManager creates a new Redis-backed HubLifetimeManager
@@ -286,13 +288,20 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 			return // Cannot proceed if cache is corrupt
 		}
 
-		if len(groupSet) > 0 {
+		r.groupsMx.Lock()
+		groupNames := make([]string, 0, len(groupSet))
+		for groupName := range groupSet {
+			groupNames = append(groupNames, groupName)
+		}
+		r.groupsMx.Unlock()
+
+		if len(groupNames) > 0 {
 			// Use a pipeline for efficiency if removing from multiple groups
 			pipe := r.redisClient.Pipeline()
 			ctx, cancel := context.WithTimeout(r.ctx, 5*time.Second) // Timeout for Redis operation
 			defer cancel()
 
-			for groupName := range groupSet {
+			for _, groupName := range groupNames {
 				redisKey := r.groupMembershipKey(groupName)
 				pipe.SRem(ctx, redisKey, connectionID)
 				level.Debug(r.logger).Log("event", "queueing_redis_srem", "group", groupName, "connectionId", connectionID)
@@ -303,7 +312,7 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 				level.Error(r.logger).Log("event", "redis_srem_pipeline_failed", "connectionId", connectionID, "err", err)
 				// Log the error, but the connection is already considered disconnected locally.
 			} else if err == nil {
-				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupSet))
+				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupNames))
 			}
 		}
 	} else {
@@ -430,6 +439,7 @@ func (r *redisHubLifetimeManager) InvokeGroupExcept(groupName string, target str
 // AddToGroup adds the connection to the local cache and the Redis Set.
 func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID string) {
 	// Add to local cache first
+	r.groupsMx.Lock()
 	groupsRaw, loaded := r.connectionGroups.Load(connectionID)
 	if !loaded {
 		// This might happen if OnConnected hasn't finished or connection disconnected rapidly.
@@ -442,11 +452,13 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 
 	groupSet, castOK := groupsRaw.(map[string]struct{})
 	if !castOK {
+		r.groupsMx.Unlock()
 		level.Error(r.logger).Log("event", "invalid_group_cache_type_on_add", "connectionId", connectionID)
 		// Don't proceed with Redis if local cache is bad.
 		return
 	}
 	groupSet[groupName] = struct{}{} // Add to the local set
+	r.groupsMx.Unlock()
 
 	// Add connection ID to the Redis Set for the group
 	redisKey := r.groupMembershipKey(groupName)
@@ -459,7 +471,9 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 		// For simplicity, we leave it in the local cache. If Redis fails,
 		// the connection might not receive group messages, but disconnect
 		// will still try to clean up the (potentially non-existent) Redis entry.
+		r.groupsMx.Lock()
 		delete(groupSet, groupName) // Rollback local add on Redis failure
+		r.groupsMx.Unlock()
 	} else {
 		level.Debug(r.logger).Log("event", "added_to_redis_group", "group", groupName, "connectionId", connectionID)
 	}
@@ -471,6 +485,7 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID string) {
 	// Remove from local cache
 	removedLocally := false
+	r.groupsMx.Lock()
 	if groupsRaw, ok := r.connectionGroups.Load(connectionID); ok {
 		groupSet, castOK := groupsRaw.(map[string]struct{})
 		if castOK {
@@ -486,6 +501,7 @@ func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID
 	} else {
 		level.Warn(r.logger).Log("event", "group_cache_not_found_on_remove", "connectionId", connectionID, "group", groupName)
 	}
+	r.groupsMx.Unlock()
 
 	// Remove connection ID from the Redis Set for the group
 	redisKey := r.groupMembershipKey(groupName)
-- 
2.43.0


From 84d18d59889ce521a61afd9dc0a6dadd52b772e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:51 +0000
Subject: [PATCH 44/54] fix: do not access the client's connection field from
 handshake goroutines which outlive the handshake

---
 client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 9261327..80e2479 100644
--- a/client.go
+++ b/client.go
@@ -608,9 +608,11 @@ func (c *client) sendHandshakeRequest() error {
 	request := fmt.Sprintf("{\"protocol\":\"%v\",\"version\":1}\u001e", c.format)
 	ctx, cancelWrite := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelWrite()
+	// When the handshake fails, c.conn might be replaced while its last write is still running
+	conn := c.conn
 	_, err := ReadWriteWithContext(ctx,
 		func() (int, error) {
-			return c.conn.Write([]byte(request))
+			return conn.Write([]byte(request))
 		}, func() {})
 	if err != nil {
 		_ = info.Log(evt, "handshake sent", "msg", request, "error", err)
@@ -625,8 +627,10 @@ func (c *client) receiveHandshakeResponse() (hubProtocol, []byte, error) {
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
 	readJSONFramesChan := make(chan []interface{}, 1)
+	// When the handshake fails, c.conn might be replaced while its last read is still running
+	conn := c.conn
 	go func() {
-		rawHandshake, received, err := readHandshakeFrame(c.conn, int(c.maximumReceiveMessageSize()))
+		rawHandshake, received, err := readHandshakeFrame(conn, int(c.maximumReceiveMessageSize()))
 		readJSONFramesChan <- []interface{}{rawHandshake, err, received}
 	}()
 	select {
-- 
2.43.0


From a4aee50d1786c665ab388c954f6cd74b9e1e6aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:10 +0000
Subject: [PATCH 45/54] fix: a panic in a hub callback raced with the message
 loops on the reconnect permission

---
 server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 144c9d7..9588029 100644
--- a/server.go
+++ b/server.go
@@ -10,6 +10,7 @@ import (
 	"reflect"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 
 	"github.com/go-kit/log"
 )
@@ -47,7 +48,7 @@ type server struct {
 	lifetimeManager         HubLifetimeManager
 	defaultHubClients       *defaultHubClients
 	groupManager            GroupManager
-	reconnectAllowed           bool
+	reconnectForbidden         atomic.Bool // is set by a goroutine of a hub callback
 	transports                 []TransportType
 	negotiationConnectionLimit int
 }
@@ -62,7 +63,6 @@ func NewServer(ctx context.Context, options ...func(Party) error) (Server, error
 		connectionHubs:            make(map[string]HubInterface),
 		// Do NOT initialize defaultHubClients or groupManager yet
 		partyBase:                  newPartyBase(ctx, info, dbg),
-		reconnectAllowed:           true,
 		negotiationConnectionLimit: 1000,
 	}
 	// apply any option including lifetime manager, logger, etc.
@@ -205,12 +205,12 @@ func (s *server) invocationTarget(conn HubConnection) interface{} {
 }
 
 func (s *server) allowReconnect() bool {
-	return s.reconnectAllowed
+	return !s.reconnectForbidden.Load()
 }
 
 func (s *server) recoverHubLifeCyclePanic() {
 	if err := recover(); err != nil {
-		s.reconnectAllowed = false
+		s.reconnectForbidden.Store(true)
 		info, dbg := s.prefixLoggers("")
 		_ = info.Log(evt, "panic in hub lifecycle", "error", err, react, "close connection, allow no reconnect")
 		_ = dbg.Log(evt, "panic in hub lifecycle", "error", err, react, "close connection, allow no reconnect", "stack", string(debug.Stack()))
-- 
2.43.0


From dbdc6c5e758c3aa741ca68373605e53279c79c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:20 +0000
Subject: [PATCH 46/54] fix: do not leak a goroutine for each stream item which
 was not received in time

---
 streamclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamclient.go b/streamclient.go
index f37782f..3479a25 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -86,7 +86,8 @@ func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 }
 
 func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Value) error {
-	done := make(chan error)
+	// Buffered: after the timeout nobody receives from it
+	done := make(chan error, 1)
 	go func() {
 		defer func() {
 			if r := recover(); r != nil {
-- 
2.43.0


From b24db61caab20303286864383ef8caa3d3fa1603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:04 +0000
Subject: [PATCH 47/54] fix: close the channels of uploads which are not
 completed when the connection ends

---
 loop.go         |  2 ++
 streamclient.go | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/loop.go b/loop.go
index 5c0dc6e..b1557b3 100644
--- a/loop.go
+++ b/loop.go
@@ -156,6 +156,8 @@ msgLoop:
 	for _, id := range l.invokeClient.cancelAllInvokes() {
 		l.streamClient.deleteUpstreamChannel(id)
 	}
+	// Nobody will complete the streams anymore, do not let the methods which receive them wait forever
+	l.streamClient.closeUpstreamChannels()
 	return err
 }
 
diff --git a/streamclient.go b/streamclient.go
index 3479a25..3ecbe50 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -69,6 +69,17 @@ func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 	c.mx.Unlock()
 }
 
+// closeUpstreamChannels closes the channels of all streams which are not completed.
+func (c *streamClient) closeUpstreamChannels() {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+	for id, upChan := range c.upstreamChannels {
+		upChan.Close()
+		delete(c.upstreamChannels, id)
+		delete(c.runningStreams, id)
+	}
+}
+
 func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-- 
2.43.0


From cf748a40daf2850a50f9e508be0a2e2a9c33fb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:40 +0000
Subject: [PATCH 48/54] fix: do not leak a goroutine when a pulled stream can
 not be sent after its first item arrived

---
 loop.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/loop.go b/loop.go
index b1557b3..75fbd6b 100644
--- a/loop.go
+++ b/loop.go
@@ -164,15 +164,16 @@ msgLoop:
 func (l *loop) PullStream(method, id string, arguments ...interface{}) <-chan InvokeResult {
 	_, errChan := l.invokeClient.newInvocation(id)
 	upChan := l.streamClient.newUpstreamChannel(id)
-	ch := newInvokeResultChan(upChan, errChan)
 	if err := l.hubConn.SendStreamInvocation(id, method, arguments); err != nil {
 		// When we get an error here, the loop is closed and the errChan might be already closed
 		// We create a new one to deliver our error
-		ch, _ = createResultChansWithError(err)
+		ch, _ := createResultChansWithError(err)
 		l.streamClient.deleteUpstreamChannel(id)
 		l.invokeClient.deleteInvocation(id)
+		return ch
 	}
-	return ch
+	// Not before sending: nobody would receive from the channel when that fails, its goroutine would wait forever
+	return newInvokeResultChan(upChan, errChan)
 }
 
 func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan InvokeResult, error) {
-- 
2.43.0


From 7a339979f656b034ce9d71bf1878f4b92294eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:37 +0000
Subject: [PATCH 49/54] fix: send the client's headers with the POST requests
 of SSE connections and leave the given header unchanged

---
 clientsseconnection.go |  4 ++++
 httpconnection.go      | 26 +++++++++++++++-----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 725582a..a81164b 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -13,6 +13,7 @@ import (
 type clientSSEConnection struct {
 	ConnectionBase
 	client    Doer
+	headers   func() http.Header // of the requests, might be nil
 	reqURL    string
 	sseReader io.Reader
 }
@@ -94,6 +95,9 @@ func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
 	if err != nil {
 		return 0, err
 	}
+	if c.headers != nil {
+		req.Header = c.headers()
+	}
 	resp, err := c.client.Do(req)
 	if err != nil {
 		return 0, err
diff --git a/httpconnection.go b/httpconnection.go
index f765589..6fa96c4 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -106,9 +106,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		return nil, err
 	}
 
-	if httpConn.headers != nil {
-		req.Header = httpConn.headers()
-	}
+	req.Header = httpConn.requestHeaders()
 
 	resp, err := httpConn.client.Do(req)
 	if err != nil {
@@ -174,11 +172,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			opts.HTTPClient = c
 		}
 
-		if httpConn.headers != nil {
-			opts.HTTPHeader = httpConn.headers()
-		} else {
-			opts.HTTPHeader = http.Header{}
-		}
+		opts.HTTPHeader = httpConn.requestHeaders()
 
 		for _, cookie := range resp.Cookies() {
 			opts.HTTPHeader.Add("Cookie", cookie.String())
@@ -198,9 +192,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		if httpConn.headers != nil {
-			req.Header = httpConn.headers()
-		}
+		req.Header = httpConn.requestHeaders()
 		req.Header.Set("Accept", "text/event-stream")
 
 		resp, err := httpConn.client.Do(req)
@@ -219,6 +211,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 		sseConn.SetConnectionID(negotiateResponse.ConnectionID)
+		sseConn.headers = httpConn.requestHeaders
 		conn = sseConn
 
 	default:
@@ -228,6 +221,17 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 	return conn, nil
 }
 
+// requestHeaders returns the headers for a new request. They are a copy, as some are added which only belong to this
+// request and the caller might return the same ones for each request.
+func (h *httpConnection) requestHeaders() http.Header {
+	if h.headers != nil {
+		if headers := h.headers(); headers != nil {
+			return headers.Clone()
+		}
+	}
+	return http.Header{}
+}
+
 // closeResponseBody reads a http response body to the end and closes it
 // See https://blog.cubieserver.de/2022/http-connection-reuse-in-go-clients/
 // The body needs to be fully read and closed, otherwise the connection will not be reused
-- 
2.43.0


From f1936c1b4f963a507ed45bc04494f5775e683f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:51 +0000
Subject: [PATCH 50/54] fix: the error of a lost connection must not overtake
 the messages received before

---
 hubconnection.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index d092bae..d7ec0ae 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -27,6 +27,12 @@ type HubConnection interface {
 	Abort()
 }
 
+// connectionReadError is the error of a read from the connection on its way to the goroutine which parses the read data.
+// It does not wrap the error, because that might be io.EOF, which is no error for parsers.
+type connectionReadError struct{ err error }
+
+func (e *connectionReadError) Error() string { return e.err.Error() }
+
 type receiveResult struct {
 	message interface{}
 	err     error
@@ -102,23 +108,16 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	}()
 
 	p := make([]byte, c.maximumReceiveMessageSize)
-	go func(ctx context.Context, connection io.Reader, writer io.Writer, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
+	go func(ctx context.Context, connection io.Reader, writer *io.PipeWriter, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
 	loop:
 		for {
 			select {
 			case <-ctx.Done():
 				break loop
 			default:
-				n, err := connection.Read(p)
-				if err != nil {
-					select {
-					case recvChan <- receiveResult{err: err}:
-					case <-ctx.Done():
-						break loop
-					}
-				}
+				n, readErr := connection.Read(p)
 				if n > 0 {
-					_, err = writer.Write(p[:n])
+					_, err := writer.Write(p[:n])
 					if err != nil {
 						select {
 						case recvChan <- receiveResult{err: err}:
@@ -127,6 +126,12 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 						}
 					}
 				}
+				if readErr != nil {
+					// The error must not overtake the messages which were read before
+					_ = writer.CloseWithError(&connectionReadError{readErr})
+					<-ctx.Done()
+					break loop
+				}
 			}
 		}
 		// The pipe writer is done
@@ -155,6 +160,10 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 					}
 				}
 				if err != nil {
+					readErr, connectionLost := err.(*connectionReadError)
+					if connectionLost {
+						err = readErr.err
+					}
 					select {
 					case recvChan <- receiveResult{err: err}:
 					case <-ctx.Done():
@@ -162,6 +171,9 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 					case <-writerDone:
 						break loop
 					}
+					if connectionLost {
+						break loop
+					}
 				}
 			}
 		}
-- 
2.43.0


From 38c9c19533a59ad9f972edaff3c75c98baea6ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:30 +0000
Subject: [PATCH 51/54] fix: stopping the client waits for the end of the
 parsing, which logged after Stop returned

---
 hubconnection.go | 16 +++++++---------
 loop.go          |  3 +++
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index d7ec0ae..8f92852 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -108,7 +108,7 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	}()
 
 	p := make([]byte, c.maximumReceiveMessageSize)
-	go func(ctx context.Context, connection io.Reader, writer *io.PipeWriter, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
+	go func(ctx context.Context, connection io.Reader, writer *io.PipeWriter, writerDone chan<- struct{}) {
 	loop:
 		for {
 			select {
@@ -117,13 +117,9 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 			default:
 				n, readErr := connection.Read(p)
 				if n > 0 {
-					_, err := writer.Write(p[:n])
-					if err != nil {
-						select {
-						case recvChan <- receiveResult{err: err}:
-						case <-ctx.Done():
-							break loop
-						}
+					if _, err := writer.Write(p[:n]); err != nil {
+						// The pipe is only closed when the context is canceled
+						break loop
 					}
 				}
 				if readErr != nil {
@@ -136,9 +132,11 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 		}
 		// The pipe writer is done
 		close(writerDone)
-	}(c.ctx, c.connection, writer, recvChan, writerDone)
+	}(c.ctx, c.connection, writer, writerDone)
 	// parse
 	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult, writerDone <-chan struct{}) {
+		// Tell the receiver that nothing is parsed anymore
+		defer close(recvChan)
 		remainBuf := bytes.Buffer{}
 		_, _ = remainBuf.Write(c.received)
 	loop:
diff --git a/loop.go b/loop.go
index 75fbd6b..c7a56e6 100644
--- a/loop.go
+++ b/loop.go
@@ -77,6 +77,9 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 				break loop
 			}
 		}
+		// Wait for the end of the parsing
+		for range recv {
+		}
 	}()
 	timeoutTicker := time.NewTicker(l.party.timeout())
 	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
-- 
2.43.0


From 19eb5aa07deff6a2bf0dd751942bf6f755a30851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:03 +0000
Subject: [PATCH 52/54] fix: messages are not encoded and logged anymore after
 sending them was canceled

---
 hubconnection.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hubconnection.go b/hubconnection.go
index 8f92852..f7a5980 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -271,8 +271,16 @@ func (c *defaultHubConnection) writeMessage(message interface{}) error {
 // writeInTime writes the message. A peer which does not take it within the writeTimeout is treated as lost, it must not
 // block the message loop forever.
 func (c *defaultHubConnection) writeInTime(message interface{}, canceled <-chan struct{}) error {
+	// Encode before, the goroutine might still be running when the caller changes the arguments or has been stopped
+	buf := bytes.Buffer{}
+	if err := c.protocol.WriteMessage(message, &buf); err != nil {
+		return err
+	}
 	e := make(chan error, 1)
-	go func() { e <- c.protocol.WriteMessage(message, c.connection) }()
+	go func() {
+		_, err := c.connection.Write(buf.Bytes())
+		e <- err
+	}()
 	var expired <-chan time.Time
 	if c.writeTimeout > 0 {
 		timer := time.NewTimer(c.writeTimeout)
-- 
2.43.0


From 206d58f34b4a65c4053d279860b664d24a0bb940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:22 +0000
Subject: [PATCH 53/54] fix: HTTPTransports sets the list of transports, given
 again it added to it

---
 serveroptions.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serveroptions.go b/serveroptions.go
index e1f92dd..7535187 100644
--- a/serveroptions.go
+++ b/serveroptions.go
@@ -47,14 +47,17 @@ func SimpleHubFactory(hubProto HubInterface) func(Party) error {
 func HTTPTransports(transports ...TransportType) func(Party) error {
 	return func(p Party) error {
 		if s, ok := p.(*server); ok {
+			var list []TransportType
 			for _, transport := range transports {
 				switch transport {
 				case TransportWebSockets, TransportServerSentEvents:
-					s.transports = append(s.transports, transport)
+					list = append(list, transport)
 				default:
 					return fmt.Errorf("unsupported transport: %v", transport)
 				}
 			}
+			// It sets the list, it does not add to the transports of an option before
+			s.transports = list
 			return nil
 		}
 		return errors.New("option Transports is server only")
-- 
2.43.0


From cd2c6a133a1350c756d27391ff4eafd8cdd674d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:33 +0000
Subject: [PATCH 54/54] fix: PushStreams panicked for nil arguments

---
 loop.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index c7a56e6..7964b4a 100644
--- a/loop.go
+++ b/loop.go
@@ -187,7 +187,8 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	streamIds := make([]string, 0)
 	// Parse arguments for channels and other kind of arguments
 	for _, arg := range arguments {
-		if reflect.TypeOf(arg).Kind() == reflect.Chan {
+		// ValueOf has a kind for nil, too
+		if reflect.ValueOf(arg).Kind() == reflect.Chan {
 			reflectedChannels = append(reflectedChannels, reflect.ValueOf(arg))
 			streamIds = append(streamIds, l.GetNewID())
 		} else {
-- 
2.43.0

