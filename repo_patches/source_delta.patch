From 63343e6b04d52746ad258ee3fb6d32fc191ae372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 01/24] fix: decode polling payloads exactly and refuse
 malformed ones

Packet data was read with a single Read, so data beyond one buffer, or
arriving in pieces, was replaced by zero bytes; base64 padding was not
removed; truncated bodies were accepted; zero and huge length fields
panicked or allocated what they announced.
---
 engine/payload.go | 69 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/engine/payload.go b/engine/payload.go
index b75aeee..0c596a3 100644
--- a/engine/payload.go
+++ b/engine/payload.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"errors"
 	"io"
@@ -140,23 +141,52 @@ func (p *Packet) WriteTo(w io.Writer) (n int64, err error) {
 
 func (p *Packet) decode(pr byteReader) (int, error) {
 	n, l, err := p.decodeHead(pr)
+	if err != nil {
+		return n, unexpectedEOF(n, err)
+	}
+	p.data, err = readData(pr, l)
+	n += len(p.data)
 	if err != nil {
 		return n, err
 	}
-	var rd io.Reader = pr
-	n += l
 	if p.msgType == MessageTypeBinary {
-		rd = base64.NewDecoder(base64.StdEncoding, pr /*io.LimitReader(pr, int64(l))*/)
-		l = base64.StdEncoding.DecodedLen(l)
-	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+		data := make([]byte, base64.StdEncoding.DecodedLen(l))
+		l, err = base64.StdEncoding.Decode(data, p.data)
+		p.data = data[:l]
 	}
-	_, err = rd.Read(p.data)
 	return n, err
 }
 
+// unexpectedEOF turns an EOF in the middle of a packet, i.e. after n > 0 bytes, into an error
+func unexpectedEOF(n int, err error) error {
+	if n > 0 && err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
+// readData reads exactly length bytes from r; it allocates according to what is received
+func readData(r io.Reader, length int) ([]byte, error) {
+	if length < 0 {
+		return nil, ErrInvalidPayload
+	}
+	var buf bytes.Buffer
+	n, err := io.CopyN(&buf, r, int64(length))
+	if err == io.EOF && n < int64(length) {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
+}
+
+// appendDigit appends a decimal digit to a length header, reporting failure when it overflows
+func appendDigit(length int, digit byte) (int, bool) {
+	const maxInt = int(^uint(0) >> 1)
+	if length > (maxInt-int(digit))/10 {
+		return 0, false
+	}
+	return length*10 + int(digit), true
+}
+
 func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 	for {
 		b, err := r.ReadByte()
@@ -170,7 +200,10 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		if b < '0' || b > '9' {
 			return n, 0, ErrInvalidPayload
 		}
-		length = length*10 + int(b-'0')
+		var ok bool
+		if length, ok = appendDigit(length, b-'0'); !ok {
+			return n, 0, ErrInvalidPayload
+		}
 	}
 	b, err := r.ReadByte()
 	if err != nil {
@@ -253,7 +286,11 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 			err = ErrInvalidPayload
 			return
 		}
-		length = length*10 + int(b)
+		var ok bool
+		if length, ok = appendDigit(length, b); !ok {
+			err = ErrInvalidPayload
+			return
+		}
 	}
 	b, err = r.ReadByte()
 	if err != nil {
@@ -271,12 +308,8 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 func (p *packet2) decode(pr byteReader) (int, error) {
 	n, l, err := p.decodeHead(pr)
 	if err != nil {
-		return n, err
-	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+		return n, unexpectedEOF(n, err)
 	}
-	nn, err := pr.Read(p.data)
-	return n + nn, err
+	p.data, err = readData(pr, l)
+	return n + len(p.data), err
 }
-- 
2.43.0


From d0c0fe615f03be534a5b5543499cbb944ae9378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 02/24] fix: label poll responses with the content type of
 their encoding

The status line was written before the Content-Type header was set, so the
header was dropped and net/http sniffed one from the payload.
---
 engine/polling.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/engine/polling.go b/engine/polling.go
index b753e32..1608956 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -211,7 +211,6 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusNotFound)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		q := r.URL.Query()
 		b64 := q.Get(queryBase64)
 		if jsonp := q.Get(queryJSONP); jsonp != "" {
-- 
2.43.0


From 7f75a5c12700687d4b9b4dfc659afa6c723f3467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 03/24] fix: write valid JavaScript in JSONP responses

The payload was quoted twice and followed by a line break inside the
string, so no client could evaluate the response.
---
 engine/polling.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/engine/polling.go b/engine/polling.go
index 1608956..fafe89c 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -303,13 +303,11 @@ func writeJSONP(w http.ResponseWriter, jsonp string, wt io.WriterTo) error {
 	if _, err := wt.WriteTo(&buf); err != nil {
 		return err
 	}
-	s := buf.String()
-	buf.Reset()
-	err := json.NewEncoder(&buf).Encode(s)
+	s, err := json.Marshal(buf.String())
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Fprintf(w, `___eio[%s]("%s");`, jsonp, buf.String())
+	_, err = fmt.Fprintf(w, `___eio[%s](%s);`, jsonp, s)
 	return err
 }
 
-- 
2.43.0


From b79fb0b36d726389f0e7ad14b315fd7e9d5a1154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 04/24] fix: refuse JSONP polls whose index is not a number

The index was copied into the script as it came, so the response was a
script of the requester's choosing.
---
 engine/polling.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/engine/polling.go b/engine/polling.go
index fafe89c..6762ee1 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -206,14 +206,19 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 	switch r.Method {
 	case "GET":
+		q := r.URL.Query()
+		jsonp := q.Get(queryJSONP)
+		if strings.Trim(jsonp, "0123456789") != "" {
+			http.Error(w, "invalid jsonp index", http.StatusBadRequest)
+			return
+		}
 		pkt, err := p.ReadPacketOut(r.Context())
 		if err != nil {
 			http.Error(w, err.Error(), http.StatusNotFound)
 			return
 		}
-		q := r.URL.Query()
 		b64 := q.Get(queryBase64)
-		if jsonp := q.Get(queryJSONP); jsonp != "" {
+		if jsonp != "" {
 			err = writeJSONP(w, jsonp, pkt)
 		} else if b64 == "1" {
 			err = writeXHR(w, pkt)
-- 
2.43.0


From a5604e2bfba98466e652a504f8dec60655604b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 05/24] fix: start sessions independently and end each exactly
 once

One goroutine ran every open callback in turn, so a callback that had not
returned kept all other clients from connecting; a close packet fired the close
event twice; a session accepted while the server was closing was never ended;
and packets were dispatched before the open callback had run.
---
 engine/server.go | 94 ++++++++++++++++++++++--------------------------
 engine/socket.go | 19 +++++++---
 2 files changed, 58 insertions(+), 55 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index 63485de..2f66ddf 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -11,7 +11,7 @@ import (
 type Server struct {
 	pingInterval       time.Duration
 	pingTimeout        time.Duration
-	ßchan              chan *Socket
+	onOpen             func(*Socket)
 	done               chan struct{}
 	once               sync.Once
 	websocketTransport websocketTransport
@@ -22,12 +22,11 @@ type Server struct {
 
 // NewServer creates a enine.io server instance
 func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...OriginChecker) (*Server, error) {
-	done := make(chan struct{})
 	s := &Server{
 		pingInterval:   interval,
 		pingTimeout:    timeout,
-		ßchan:          make(chan *Socket, 1),
-		done:           done,
+		onOpen:         onOpen,
+		done:           make(chan struct{}),
 		sessionManager: newSessionManager(),
 		eventHandlers:  newEventHandlers(),
 	}
@@ -41,55 +40,46 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 	}
 	s.websocketTransport.Upgrader.CheckOrigin = checkOrigin
 	s.pollingTransport.CheckOrigin = checkOrigin
-	go func() {
-		for {
-			select {
-			case <-done:
-				return
-			case ß, ok := <-s.ßchan:
-				if !ok {
-					return
-				}
-				ß.Emit(EventOpen, MessageTypeString, &Parameters{
-					SID:          ß.id,
-					Upgrades:     []string{"websocket"},
-					PingInterval: int(interval / time.Millisecond),
-					PingTimeout:  int(timeout / time.Millisecond),
-				})
-				go func() {
-					defer ß.Close()
-					defer s.sessionManager.Remove(ß.id)
-					var p *Packet
-					var err error
-					for {
-						if p, err = ß.Read(); err != nil {
-							if err == ErrPollingConnPaused {
-								ß.barrier.Wait()
-								continue
-							}
-							log.Println("handle:", err.Error())
-							s.fire(ß, EventClose, MessageTypeString, nil)
-							return
-						}
-						if err = s.handle(ß, p); err != nil {
-							log.Println("handle:", err.Error())
-						}
-					}
-				}()
-
-				onOpen(ß)
+	return s, nil
+}
+
+// serve runs a session until its connection fails or either side closes it.
+func (s *Server) serve(ß *Socket) {
+	ß.Emit(EventOpen, MessageTypeString, &Parameters{
+		SID:          ß.id,
+		Upgrades:     []string{"websocket"},
+		PingInterval: int(s.pingInterval / time.Millisecond),
+		PingTimeout:  int(s.pingTimeout / time.Millisecond),
+	})
+	s.onOpen(ß)
+
+	msgType, data := MessageTypeString, []byte(nil)
+	for {
+		p, err := ß.Read()
+		if err != nil {
+			if err == ErrPollingConnPaused {
+				ß.barrier.Wait()
+				continue
 			}
+			log.Println("handle:", err.Error())
+			break
 		}
-	}()
-	return s, nil
+		if p.pktType == PacketTypeClose {
+			msgType, data = p.msgType, p.data
+			break
+		}
+		if err = s.handle(ß, p); err != nil {
+			log.Println("handle:", err.Error())
+		}
+	}
+	s.sessionManager.Remove(ß.id)
+	ß.abort()
+	s.fire(ß, EventClose, msgType, data)
 }
 
 func (s *Server) handle(ß *Socket, p *Packet) (err error) {
 	switch p.pktType {
 	case PacketTypeOpen:
-	case PacketTypeClose:
-		s.fire(ß, EventClose, p.msgType, p.data)
-		return ß.Close()
 	case PacketTypePing:
 		err = ß.Emit(EventPong, p.msgType, p.data)
 		s.fire(ß, EventPing, p.msgType, p.data)
@@ -138,17 +128,19 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if sid := query.Get(querySession); sid == "" {
+		select {
+		case <-s.done:
+			http.Error(w, "server closed", http.StatusServiceUnavailable)
+			return
+		default:
+		}
 		conn, err := transport.Accept(w, r)
 		if err != nil {
 			return
 		}
 		ß := s.NewSession(conn, s.pingTimeout+s.pingInterval, s.pingTimeout)
 		ß.transportName = transport.Name()
-		select {
-		case <-s.done:
-			return
-		case s.ßchan <- ß:
-		}
+		go s.serve(ß)
 		ß.ServeHTTP(w, r)
 	} else {
 		ß, exists := s.sessionManager.Get(sid)
diff --git a/engine/socket.go b/engine/socket.go
index d8ac152..975dfe6 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -33,9 +33,7 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 
 // Read returns a Packet upon success or error on failure
 func (s *Socket) Read() (p *Packet, err error) {
-	s.RLock()
-	conn := s.Conn
-	s.RUnlock()
+	conn := s.conn()
 	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err != nil {
 		return
 	}
@@ -47,11 +45,24 @@ func (s *Socket) Read() (p *Packet, err error) {
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
 		s.emitter.close()
-		err = s.Conn.Close()
+		err = s.conn().Close()
 	})
 	return
 }
 
+// abort closes the connection without waiting for pending packets to be written
+func (s *Socket) abort() error {
+	s.conn().Close()
+	return s.Close()
+}
+
+// conn returns the connection currently in use
+func (s *Socket) conn() Conn {
+	s.RLock()
+	defer s.RUnlock()
+	return s.Conn
+}
+
 // Emit sends event data to remote peer
 func (s *Socket) Emit(event event, msgType MessageType, args interface{}) (err error) {
 	var pktType PacketType
-- 
2.43.0


From 06fbd81c17c1f79705bfb5d1953d483890f2b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 06/24] fix: do not lose packets that could not be written

The emitter ignored every write error: a packet that hit a paused or full
connection was dropped and the session went on without it. Write it again after
a pause, and end the session when the connection does not take it.
---
 engine/emitter.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 618b2c8..8f6d2be 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -59,11 +59,27 @@ func (e *emitter) loop() {
 		case <-e.done:
 			return
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
+		}
+	}
+}
+
+// write sends p, again if the connection is paused meanwhile. A connection that fails to
+// take p is closed, for it must not go on with p missing.
+func (e *emitter) write(p *Packet) {
+	for {
+		e.so.barrier.Wait()
+		conn := e.so.conn()
+		err := conn.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
+		if err == nil {
+			err = conn.WritePacket(p)
+		}
+		if err == nil {
+			return
+		}
+		if err != ErrPollingConnPaused {
+			conn.Close()
+			return
 		}
 	}
 }
@@ -72,11 +88,7 @@ func (e *emitter) flush() {
 	for {
 		select {
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
 		default:
 			return
 		}
-- 
2.43.0


From 46329a1c50d47f8eda7adda0c82fb9ccffdfb83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 07/24] fix: upgrade without losing, reordering or disturbing
 anything

The upgrade stopped the session from the moment the request arrived, so a
silent attempt froze it; ran handlers concurrently with the session's own; lost
packets that were about to be written; deadlocked with posts larger than the
queue and with a session that ended meanwhile; served the hijacked request
again; and accepted transports a session cannot change to.
---
 engine/emitter.go   | 14 +++-------
 engine/polling.go   |  1 +
 engine/server.go    | 67 +++++++++++++++++++++++++++++++--------------
 engine/socket.go    | 50 +++++++++++++++++++++++++++++++--
 engine/transport.go |  1 +
 engine/websocket.go |  1 +
 6 files changed, 101 insertions(+), 33 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 8f6d2be..423b1cb 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -3,7 +3,6 @@ package engine
 import (
 	"errors"
 	"sync"
-	"time"
 )
 
 var (
@@ -64,21 +63,16 @@ func (e *emitter) loop() {
 	}
 }
 
-// write sends p, again if the connection is paused meanwhile. A connection that fails to
-// take p is closed, for it must not go on with p missing.
+// write sends p, again if the connection is paused meanwhile. A session that cannot
+// send p is ended, for it must not go on with p missing.
 func (e *emitter) write(p *Packet) {
 	for {
-		e.so.barrier.Wait()
-		conn := e.so.conn()
-		err := conn.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-		if err == nil {
-			err = conn.WritePacket(p)
-		}
+		err := e.so.write(p)
 		if err == nil {
 			return
 		}
 		if err != ErrPollingConnPaused {
-			conn.Close()
+			go e.so.abort()
 			return
 		}
 	}
diff --git a/engine/polling.go b/engine/polling.go
index 6762ee1..dbec804 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -70,6 +70,7 @@ func (p *pollingConn) LocalAddr() net.Addr { return p.localAddr }
 // RemoteAddr returns the remote network address.
 func (p *pollingConn) RemoteAddr() net.Addr { return p.remoteAddr }
 
+func (p *pollingConn) incoming() <-chan *Packet { return p.in }
 func (p *pollingConn) httpHeader() http.Header  { return p.header }
 func (p *pollingConn) copyHeaderFrom(conn Conn) { copyHeaderFrom(p.header, conn) }
 
diff --git a/engine/server.go b/engine/server.go
index 2f66ddf..178cc02 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -58,7 +58,6 @@ func (s *Server) serve(ß *Socket) {
 		p, err := ß.Read()
 		if err != nil {
 			if err == ErrPollingConnPaused {
-				ß.barrier.Wait()
 				continue
 			}
 			log.Println("handle:", err.Error())
@@ -88,6 +87,9 @@ func (s *Server) handle(ß *Socket, p *Packet) (err error) {
 	case PacketTypeMessage:
 		s.fire(ß, EventMessage, p.msgType, p.data)
 	case PacketTypeUpgrade:
+		if ß.isUpgrade(p) {
+			s.fire(ß, EventUpgrade, p.msgType, p.data)
+		}
 	case PacketTypeNoop:
 	default:
 		return ErrInvalidPayload
@@ -148,20 +150,32 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, "invalid session", http.StatusBadRequest)
 			return
 		}
-		if transportName := transport.Name(); ß.transportName != transportName {
+		if transportName := transport.Name(); ß.transport() != transportName {
+			if transportName != transportWebsocket {
+				http.Error(w, "invalid transport", http.StatusBadRequest)
+				return
+			}
 			conn, err := transport.Accept(w, r)
 			if err != nil {
 				return
 			}
 			s.upgrade(ß, transportName, conn)
+			return
 		}
 		ß.ServeHTTP(w, r)
 	}
 }
 
 func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
-	ß.barrier.Pause()
-	defer ß.barrier.Resume()
+	finished := make(chan struct{})
+	defer close(finished)
+	go func() {
+		select {
+		case <-ß.emitter.done: // the session ends
+			newConn.Close()
+		case <-finished:
+		}
+	}()
 
 	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
 	p, err := newConn.ReadPacket()
@@ -180,23 +194,34 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
-	ß.RLock()
-	conn := ß.Conn
-	ß.RUnlock()
-
+	ß.upgrading.Lock()
+	defer ß.upgrading.Unlock()
+	conn := ß.conn()
 	if err := conn.Pause(); err != nil {
 		newConn.Close()
 		return
 	}
+	ß.barrier.Pause()
+	defer ß.barrier.Resume()
 
-	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
-	p, err = newConn.ReadPacket()
-	if err != nil {
-		newConn.Close()
-		conn.Resume()
-		return
+	// what was posted before the confirmation is delivered before what follows it
+	confirm := make(chan *Packet, 1)
+	go func() {
+		defer close(confirm)
+		newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
+		if p, err := newConn.ReadPacket(); err == nil {
+			confirm <- p
+		}
+	}()
+	for waiting := true; waiting; {
+		select {
+		case packet := <-conn.incoming():
+			ß.pending = append(ß.pending, packet)
+		case p = <-confirm:
+			waiting = false
+		}
 	}
-	if p.pktType != PacketTypeUpgrade {
+	if p == nil || p.pktType != PacketTypeUpgrade {
 		newConn.Close()
 		conn.Resume()
 		return
@@ -206,17 +231,19 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 
 	for _, packet := range conn.FlushOut() {
 		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
-		newConn.WritePacket(packet)
+		if err = newConn.WritePacket(packet); err != nil {
+			newConn.Close()
+			break
+		}
 	}
 
 	ß.Lock()
 	ß.Conn = newConn
 	ß.transportName = transportName
 	ß.Conn.copyHeaderFrom(conn)
+	ß.upgraded = p
 	ß.Unlock()
 
-	for _, packet := range conn.FlushIn() {
-		s.handle(ß, packet)
-	}
-	s.fire(ß, EventUpgrade, p.msgType, p.data)
+	ß.pending = append(ß.pending, conn.FlushIn()...)
+	ß.pending = append(ß.pending, p)
 }
diff --git a/engine/socket.go b/engine/socket.go
index 975dfe6..16e1fc9 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"encoding/json"
+	"net"
 	"net/http"
 	"sync"
 	"time"
@@ -14,7 +15,10 @@ type Socket struct {
 	writeTimeout  time.Duration
 	transportName string
 	id            string
-	barrier       Barrier
+	barrier       *lockBarrier // read-locked while conn is read or written
+	upgrading     sync.Mutex   // held by the upgrade that has paused conn
+	pending       []*Packet    // received before conn, left behind by an upgrade
+	upgraded      *Packet      // the confirmation of the upgrade
 	emitter       *emitter
 	once          sync.Once
 	sync.RWMutex
@@ -26,13 +30,19 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 		readTimeout:  readTimeout,
 		writeTimeout: writeTimeout,
 		id:           id,
-		barrier:      newLockBarrier()}
+		barrier:      &lockBarrier{}}
 	so.emitter = newEmitter(so, 8)
 	return so
 }
 
 // Read returns a Packet upon success or error on failure
 func (s *Socket) Read() (p *Packet, err error) {
+	s.barrier.RLock()
+	defer s.barrier.RUnlock()
+	if len(s.pending) > 0 {
+		p, s.pending = s.pending[0], s.pending[1:]
+		return
+	}
 	conn := s.conn()
 	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err != nil {
 		return
@@ -41,6 +51,16 @@ func (s *Socket) Read() (p *Packet, err error) {
 	return
 }
 
+func (s *Socket) write(p *Packet) (err error) {
+	s.barrier.RLock()
+	defer s.barrier.RUnlock()
+	conn := s.conn()
+	if err = conn.SetWriteDeadline(time.Now().Add(s.writeTimeout)); err != nil {
+		return
+	}
+	return conn.WritePacket(p)
+}
+
 // Close closes underlying connection and background emitter
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
@@ -104,11 +124,35 @@ func (s *Socket) Send(args interface{}) (err error) {
 
 // ServeHTTP implements http.Handler
 func (s *Socket) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if handler, ok := s.Conn.(http.Handler); ok {
+	if handler, ok := s.conn().(http.Handler); ok {
 		handler.ServeHTTP(w, r)
 	}
 }
 
+// LocalAddr returns the local network address.
+func (s *Socket) LocalAddr() net.Addr {
+	return s.conn().LocalAddr()
+}
+
+// RemoteAddr returns the remote network address.
+func (s *Socket) RemoteAddr() net.Addr {
+	return s.conn().RemoteAddr()
+}
+
+// isUpgrade tells whether p confirmed the upgrade of this session
+func (s *Socket) isUpgrade(p *Packet) bool {
+	s.RLock()
+	defer s.RUnlock()
+	return p == s.upgraded
+}
+
+// transport returns the name of the transport currently in use
+func (s *Socket) transport() string {
+	s.RLock()
+	defer s.RUnlock()
+	return s.transportName
+}
+
 // Sid returns socket session id, assigned by server.
 func (s *Socket) Sid() string {
 	return s.id
diff --git a/engine/transport.go b/engine/transport.go
index 5711544..bf182f9 100644
--- a/engine/transport.go
+++ b/engine/transport.go
@@ -47,6 +47,7 @@ type Conn interface {
 	RemoteAddr() net.Addr
 
 	// private
+	incoming() <-chan *Packet
 	httpHeader() http.Header
 	copyHeaderFrom(conn Conn)
 }
diff --git a/engine/websocket.go b/engine/websocket.go
index 34081aa..f03f988 100644
--- a/engine/websocket.go
+++ b/engine/websocket.go
@@ -21,6 +21,7 @@ func (w *websocketConn) LocalAddr() net.Addr { return w.conn.LocalAddr() }
 // RemoteAddr returns the remote network address.
 func (w *websocketConn) RemoteAddr() net.Addr { return w.conn.RemoteAddr() }
 
+func (*websocketConn) incoming() <-chan *Packet   { return nil }
 func (w *websocketConn) httpHeader() http.Header  { return w.header }
 func (w *websocketConn) copyHeaderFrom(conn Conn) { copyHeaderFrom(w.header, conn) }
 
-- 
2.43.0


From 729d444cf898250bc9198306c3ec3a4490138145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 08/24] fix: keep a session's header values across an upgrade

The values of the upgrade request replaced those of the handshake and those set
by the application.
---
 engine/transport.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/engine/transport.go b/engine/transport.go
index bf182f9..642fe42 100644
--- a/engine/transport.go
+++ b/engine/transport.go
@@ -118,11 +118,9 @@ func (t *websocketTransport) Dial(rawurl string, requestHeader http.Header) (Con
 
 func copyHeaderFrom(header http.Header, conn Conn) {
 	for k, vv := range conn.httpHeader() {
-		if _, ok := header[k]; !ok {
-			vv2 := make([]string, len(vv))
-			copy(vv2, vv)
-			header[k] = vv2
-		}
+		vv2 := make([]string, len(vv))
+		copy(vv2, vv)
+		header[k] = vv2
 	}
 }
 
-- 
2.43.0


From b985ff33848d6906779c7798ae9a9d616e55b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 09/24] fix: end a client session exactly once, whatever ends
 it

A client whose server disappeared never fired its close event, kept pinging for
an interval and, when closed by its owner, went on accepting packets. Dial left
the connection open when it failed, and packets that followed the handshake
closely were processed before any handler could be registered.
---
 engine/client.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/engine/client.go b/engine/client.go
index 4fab733..66bdd5f 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -18,10 +18,21 @@ type Client struct {
 
 // Dial connects to a engine.io server represented by `rawurl` and create Client instance on success.
 func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, err error) {
+	return DialWith(rawurl, requestHeader, dialer, nil)
+}
+
+// DialWith is Dial with a function that is called with the new Client before any packet that follows
+// the handshake is processed, so that the handlers it registers miss none.
+func DialWith(rawurl string, requestHeader http.Header, dialer Dialer, setup func(*Client)) (c *Client, err error) {
 	conn, err := dialer.Dial(rawurl, requestHeader)
 	if err != nil {
 		return
 	}
+	defer func() {
+		if err != nil {
+			conn.Close()
+		}
+	}()
 	p, err := conn.ReadPacket()
 	if err != nil {
 		return
@@ -44,6 +55,9 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		eventHandlers: newEventHandlers(),
 		closeChan:     closeChan,
 	}
+	if setup != nil {
+		setup(c)
+	}
 
 	go func() {
 		var err error
@@ -51,6 +65,8 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 			select {
 			case <-closeChan:
 				return
+			case <-ß.emitter.done:
+				return
 			case <-time.After(pingInterval):
 			}
 			if err = ß.Emit(EventPing, MessageTypeString, nil); err != nil {
@@ -60,23 +76,23 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		}
 	}()
 	go func() {
-		defer ß.Close()
-		var p *Packet
-		var err error
+		msgType, data := MessageTypeString, []byte(nil)
 		for {
-			select {
-			case <-closeChan:
-				return
-			default:
-			}
-			if p, err = ß.Read(); err != nil {
+			p, err := ß.Read()
+			if err != nil {
 				log.Println("read:", err.Error())
-				return
+				break
+			}
+			if p.pktType == PacketTypeClose {
+				msgType, data = p.msgType, p.data
+				break
 			}
 			if err = c.handle(ß, p); err != nil {
 				log.Println("handle:", err.Error())
 			}
 		}
+		ß.abort()
+		c.fire(ß, EventClose, msgType, data)
 	}()
 
 	return
@@ -85,9 +101,6 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 	switch p.pktType {
 	case PacketTypeOpen:
-	case PacketTypeClose:
-		c.fire(ß, EventClose, p.msgType, p.data)
-		return ß.Close()
 	case PacketTypePing:
 	case PacketTypePong:
 	case PacketTypeMessage:
@@ -104,7 +117,7 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 func (c *Client) Close() (err error) {
 	c.once.Do(func() {
 		close(c.closeChan)
-		err = c.Conn.Close()
+		err = c.Socket.Close()
 	})
 	return
 }
-- 
2.43.0


From 6ba8d1f33b7a2d6e6f34a17641dcd46ec27a97d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 10/24] fix: run connect and disconnect handlers once per join

A disconnect handler ran for a namespace the client was not in, a repeated
connect packet ran the connect handler again and forgot pending acks, and on the
loss of a connection disconnect handlers ran under the lock their own emits
need. The root namespace was created in a shared map by each new connection.
---
 client.go |  6 ++----
 server.go | 16 ++++++++--------
 socket.go | 20 ++++++++++++++------
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/client.go b/client.go
index 440f251..bbf10e5 100644
--- a/client.go
+++ b/client.go
@@ -95,13 +95,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
-		if nsp.onConnect != nil {
+		if sock.attachnsp(p.Namespace) && nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
-		if nsp.onDisconnect != nil {
+		if sock.detachnsp(p.Namespace) && nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
diff --git a/server.go b/server.go
index 2d4fa96..e7e3afb 100644
--- a/server.go
+++ b/server.go
@@ -22,7 +22,10 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 	e, err := engine.NewServer(interval, timeout, func(ß *engine.Socket) {
 		socket := newSocket(ß, parser)
 		socket.attachnsp("/")
-		nsp := server.creatensp("/")
+		nsp, _ := server.getnsp("/")
+		server.sockLock.Lock()
+		server.sockets[ß] = socket
+		server.sockLock.Unlock()
 		if err := socket.emitPacket(&Packet{
 			Type:      PacketTypeConnect,
 			Namespace: "/",
@@ -31,9 +34,6 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 				nsp.onError(socket, err)
 			}
 		}
-		server.sockLock.Lock()
-		server.sockets[ß] = socket
-		server.sockLock.Unlock()
 		if nsp.onConnect != nil {
 			nsp.onConnect(socket)
 		}
@@ -42,6 +42,7 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 		return
 	}
 	server = &Server{engine: e, sockets: make(map[*engine.Socket]*socket), nsps: make(map[string]*namespace)}
+	server.creatensp("/")
 
 	e.On(engine.EventMessage, engine.Callback(func(ß *engine.Socket, msgType engine.MessageType, data []byte) {
 		server.sockLock.RLock()
@@ -117,7 +118,7 @@ func (s *Server) process(sock *socket, p *Packet) {
 	}
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
+		joined := sock.attachnsp(p.Namespace)
 		if err := sock.emitPacket(&Packet{
 			Type:      PacketTypeConnect,
 			Namespace: p.Namespace,
@@ -126,12 +127,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 				nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
 			}
 		}
-		if nsp.onConnect != nil {
+		if joined && nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
-		if nsp.onDisconnect != nil {
+		if sock.detachnsp(p.Namespace) && nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
diff --git a/socket.go b/socket.go
index 0cdf2e5..fb25577 100644
--- a/socket.go
+++ b/socket.go
@@ -63,19 +63,26 @@ func newSocket(ß *engine.Socket, parser Parser) *socket {
 	}
 }
 
-func (s *socket) attachnsp(nsp string) {
+// attachnsp joins nsp; it returns false if nsp was joined before
+func (s *socket) attachnsp(nsp string) bool {
 	s.mutex.Lock()
-	s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
+	_, ok := s.acks[nsp]
+	if !ok {
+		s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
+	}
 	s.mutex.Unlock()
+	return !ok
 }
 
-func (s *socket) detachnsp(nsp string) {
+// detachnsp leaves nsp; it returns false if nsp was not joined
+func (s *socket) detachnsp(nsp string) bool {
 	s.mutex.Lock()
 	_, ok := s.acks[nsp]
 	if ok {
 		delete(s.acks, nsp)
 	}
 	s.mutex.Unlock()
+	return ok
 }
 
 type nspStore interface {
@@ -84,15 +91,16 @@ type nspStore interface {
 
 func detachall(s nspStore, sock *socket) {
 	sock.mutex.Lock()
-	for k := range sock.acks {
-		delete(sock.acks, k)
+	joined := sock.acks
+	sock.acks = make(map[string]*ackHandle)
+	sock.mutex.Unlock()
+	for k := range joined {
 		if nsp, ok := s.getnsp(k); ok {
 			if nsp.onDisconnect != nil {
 				nsp.onDisconnect(&nspSock{socket: sock, name: k})
 			}
 		}
 	}
-	sock.mutex.Unlock()
 }
 
 func (s *socket) fireAck(nsp string, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-- 
2.43.0


From 606cb208b8a8e741ad880c2172691afd3ef987fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 11/24] fix: run event handlers of joined namespaces only

---
 client.go | 5 ++++-
 server.go | 5 ++++-
 socket.go | 8 ++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index bbf10e5..1656d4b 100644
--- a/client.go
+++ b/client.go
@@ -103,6 +103,9 @@ func (c *Client) process(sock *socket, p *Packet) {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
+		if !sock.joined(p.Namespace) {
+			return
+		}
 		event, data, bin, err := sock.decoder.ParseData(p)
 		if err != nil {
 			if nsp.onError != nil {
@@ -136,7 +139,7 @@ func (c *Client) process(sock *socket, p *Packet) {
 			}
 		}
 	case PacketTypeAck, PacketTypeBinaryAck:
-		if p.ID != nil {
+		if p.ID != nil && sock.joined(p.Namespace) {
 			_, data, bin, err := sock.decoder.ParseData(p)
 			if err != nil {
 				if nsp.onError != nil {
diff --git a/server.go b/server.go
index e7e3afb..9839a1a 100644
--- a/server.go
+++ b/server.go
@@ -135,6 +135,9 @@ func (s *Server) process(sock *socket, p *Packet) {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
+		if !sock.joined(p.Namespace) {
+			return
+		}
 		event, data, bin, err := sock.decoder.ParseData(p)
 		if err != nil {
 			if nsp.onError != nil {
@@ -168,7 +171,7 @@ func (s *Server) process(sock *socket, p *Packet) {
 			}
 		}
 	case PacketTypeAck, PacketTypeBinaryAck:
-		if p.ID != nil {
+		if p.ID != nil && sock.joined(p.Namespace) {
 			_, data, bin, err := sock.decoder.ParseData(p)
 			if err != nil {
 				if nsp.onError != nil {
diff --git a/socket.go b/socket.go
index fb25577..ed4efab 100644
--- a/socket.go
+++ b/socket.go
@@ -85,6 +85,14 @@ func (s *socket) detachnsp(nsp string) bool {
 	return ok
 }
 
+// joined tells whether nsp is joined
+func (s *socket) joined(nsp string) bool {
+	s.mutex.RLock()
+	_, ok := s.acks[nsp]
+	s.mutex.RUnlock()
+	return ok
+}
+
 type nspStore interface {
 	getnsp(nsp string) (n *namespace, ok bool)
 }
-- 
2.43.0


From 918a3071a614974ec2efe427078e5ae8f19543ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 12/24] fix: acknowledge once, completely and to the right
 callback

An ack of a handler without results had no argument list, which not even this
package can decode, and repeated the attachments of the event; ids started over
when a namespace was joined again, so that a late ack ran another callback; an
ack whose arguments did not fit its callback went unreported.
---
 client.go | 18 +++++++++---------
 handle.go | 12 +++++-------
 server.go | 18 +++++++++---------
 socket.go |  9 +++++----
 4 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/client.go b/client.go
index 1656d4b..c0ec7cb 100644
--- a/client.go
+++ b/client.go
@@ -124,15 +124,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
-			if err = sock.ack(p); err != nil {
+			if err = sock.ack(p.Namespace, *p.ID, d); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
 				}
@@ -147,7 +143,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder); err != nil {
+				if nsp.onError != nil {
+					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+				}
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
diff --git a/handle.go b/handle.go
index 491bd76..8611e3a 100644
--- a/handle.go
+++ b/handle.go
@@ -53,26 +53,24 @@ func (e *namespace) fireEvent(so Socket, event string, args []byte, buffer [][]b
 }
 
 type ackHandle struct {
-	id     uint64
+	id     *uint64
 	ackmap map[uint64]*callback
 	mutex  sync.RWMutex
 }
 
 func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-	a.mutex.RLock()
+	a.mutex.Lock()
 	fn, ok := a.ackmap[id]
-	a.mutex.RUnlock()
+	delete(a.ackmap, id)
+	a.mutex.Unlock()
 	if ok {
-		a.mutex.Lock()
-		delete(a.ackmap, id)
-		a.mutex.Unlock()
 		_, err = fn.Call(so, au, data, buffer)
 	}
 	return
 }
 
 func (a *ackHandle) onAck(callback interface{}) uint64 {
-	id := atomic.AddUint64(&a.id, 1)
+	id := atomic.AddUint64(a.id, 1)
 	a.mutex.Lock()
 	a.ackmap[id] = newCallback(callback)
 	a.mutex.Unlock()
diff --git a/server.go b/server.go
index 9839a1a..4d4a6bc 100644
--- a/server.go
+++ b/server.go
@@ -156,15 +156,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
-			if err = sock.ack(p); err != nil {
+			if err = sock.ack(p.Namespace, *p.ID, d); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
 				}
@@ -179,7 +175,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder); err != nil {
+				if nsp.onError != nil {
+					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+				}
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
diff --git a/socket.go b/socket.go
index ed4efab..740c421 100644
--- a/socket.go
+++ b/socket.go
@@ -52,6 +52,7 @@ type socket struct {
 	decoder Decoder
 	acks    map[string]*ackHandle
 	mutex   sync.RWMutex
+	ackid   *uint64 // the last ack id used, of all namespaces joined so far
 }
 
 func newSocket(ß *engine.Socket, parser Parser) *socket {
@@ -60,6 +61,7 @@ func newSocket(ß *engine.Socket, parser Parser) *socket {
 		encoder: parser.Encoder(),
 		decoder: parser.Decoder(),
 		acks:    make(map[string]*ackHandle),
+		ackid:   new(uint64),
 	}
 }
 
@@ -68,7 +70,7 @@ func (s *socket) attachnsp(nsp string) bool {
 	s.mutex.Lock()
 	_, ok := s.acks[nsp]
 	if !ok {
-		s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
+		s.acks[nsp] = &ackHandle{id: s.ackid, ackmap: make(map[uint64]*callback)}
 	}
 	s.mutex.Unlock()
 	return !ok
@@ -161,9 +163,8 @@ func (s *socket) emitError(nsp string, arg interface{}) (err error) {
 	return s.emitPacket(p)
 }
 
-func (s *socket) ack(p *Packet) (err error) {
-	p.Type = PacketTypeAck
-	return s.emitPacket(p)
+func (s *socket) ack(nsp string, id uint64, data []interface{}) (err error) {
+	return s.emitPacket(&Packet{Type: PacketTypeAck, Namespace: nsp, ID: newid(id), Data: data})
 }
 
 func (s *socket) emitPacket(p *Packet) (err error) {
-- 
2.43.0


From 835c3ff54a7d71280fa948541c937498cd403f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 13/24] fix: fail emits with an error and without effect

An emit panicked on nil, on nil pointers to binary arguments and on callbacks
that cannot be called, sent an empty attachment when a marshaler failed, and
left the callback of a failed emit registered.
---
 callback.go       | 15 ++++++++++++---
 client.go         |  2 +-
 handle.go         | 11 +++++++++--
 parser_default.go | 12 +++++++++---
 server.go         |  2 +-
 socket.go         | 30 +++++++++++++++++++++++++-----
 6 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/callback.go b/callback.go
index 6f7eaeb..24a454d 100644
--- a/callback.go
+++ b/callback.go
@@ -1,6 +1,7 @@
 package socketio
 
 import (
+	"errors"
 	"reflect"
 )
 
@@ -10,20 +11,28 @@ type callback struct {
 }
 
 func newCallback(fn interface{}) *callback {
+	cb, err := makeCallback(fn)
+	if err != nil {
+		panic(err.Error())
+	}
+	return cb
+}
+
+func makeCallback(fn interface{}) (*callback, error) {
 	v := reflect.ValueOf(fn)
 	if v.Kind() != reflect.Func {
-		panic("invalid callback function")
+		return nil, errors.New("invalid callback function")
 	}
 	t := v.Type()
 	args := make([]reflect.Type, t.NumIn())
 	for i := 0; i < t.NumIn(); i++ {
 		switch t.In(i).Kind() {
 		case reflect.Invalid, reflect.Chan, reflect.Func, reflect.UnsafePointer:
-			panic("invalid callback argument " + t.In(i).String())
+			return nil, errors.New("invalid callback argument " + t.In(i).String())
 		}
 		args[i] = t.In(i)
 	}
-	return &callback{fn: v, args: args}
+	return &callback{fn: v, args: args}, nil
 }
 
 func (e *callback) Call(so Socket, au ArgsUnmarshaler, data []byte, buffer [][]byte) ([]reflect.Value, error) {
diff --git a/client.go b/client.go
index c0ec7cb..515b817 100644
--- a/client.go
+++ b/client.go
@@ -126,7 +126,7 @@ func (c *Client) process(sock *socket, p *Packet) {
 		if p.ID != nil {
 			d := make([]interface{}, len(v))
 			for i := range d {
-				d[i] = v[i].Interface()
+				d[i] = argument(v[i].Interface())
 			}
 			if err = sock.ack(p.Namespace, *p.ID, d); err != nil {
 				if nsp.onError != nil {
diff --git a/handle.go b/handle.go
index 8611e3a..d072e52 100644
--- a/handle.go
+++ b/handle.go
@@ -69,10 +69,17 @@ func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte,
 	return
 }
 
-func (a *ackHandle) onAck(callback interface{}) uint64 {
+func (a *ackHandle) onAck(callback *callback) uint64 {
 	id := atomic.AddUint64(a.id, 1)
 	a.mutex.Lock()
-	a.ackmap[id] = newCallback(callback)
+	a.ackmap[id] = callback
 	a.mutex.Unlock()
 	return id
 }
+
+// forget drops the callback registered as id
+func (a *ackHandle) forget(id uint64) {
+	a.mutex.Lock()
+	delete(a.ackmap, id)
+	a.mutex.Unlock()
+}
diff --git a/parser_default.go b/parser_default.go
index 09349ad..75a7d3d 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -32,7 +32,7 @@ func (d defaultEncoder) Encode(p *Packet) ([]byte, [][]byte, error) {
 	return buf.Bytes(), p.buffer, nil
 }
 
-func (defaultEncoder) preprocess(p *Packet) {
+func (defaultEncoder) preprocess(p *Packet) error {
 	if p.Namespace != "" && p.Namespace[0] != '/' {
 		p.Namespace = "/" + p.Namespace
 	}
@@ -41,9 +41,12 @@ func (defaultEncoder) preprocess(p *Packet) {
 		p.buffer = make([][]byte, 0, len(d))
 		for i := range d {
 			if b, ok := d[i].(encoding.BinaryMarshaler); ok {
+				bb, err := b.MarshalBinary()
+				if err != nil {
+					return err
+				}
 				d[i] = &placeholder{num: p.attachments}
 				p.attachments++
-				bb, _ := b.MarshalBinary()
 				p.buffer = append(p.buffer, bb)
 			}
 		}
@@ -56,10 +59,13 @@ func (defaultEncoder) preprocess(p *Packet) {
 			p.Type = PacketTypeBinaryAck
 		}
 	}
+	return nil
 }
 
 func (d defaultEncoder) encodeTo(w üWriter, p *Packet) (err error) {
-	d.preprocess(p)
+	if err = d.preprocess(p); err != nil {
+		return
+	}
 
 	if err = w.WriteByte(byte(p.Type) + '0'); err != nil {
 		return
diff --git a/server.go b/server.go
index 4d4a6bc..74f92c2 100644
--- a/server.go
+++ b/server.go
@@ -158,7 +158,7 @@ func (s *Server) process(sock *socket, p *Packet) {
 		if p.ID != nil {
 			d := make([]interface{}, len(v))
 			for i := range d {
-				d[i] = v[i].Interface()
+				d[i] = argument(v[i].Interface())
 			}
 			if err = sock.ack(p.Namespace, *p.ID, d); err != nil {
 				if nsp.onError != nil {
diff --git a/socket.go b/socket.go
index 740c421..a6e1c34 100644
--- a/socket.go
+++ b/socket.go
@@ -143,15 +143,35 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 	}
 	data := []interface{}{event}
 	p := &Packet{Type: PacketTypeEvent, Namespace: nsp}
+	var cb *callback
 	for i := range args {
-		if t := reflect.TypeOf(args[i]); t.Kind() == reflect.Func {
-			p.ID = newid(ack.onAck(args[i]))
-		} else {
-			data = append(data, args[i])
+		switch v := reflect.ValueOf(args[i]); {
+		case v.Kind() == reflect.Func && v.IsNil():
+		case v.Kind() == reflect.Func:
+			if cb, err = makeCallback(args[i]); err != nil {
+				return
+			}
+		default:
+			data = append(data, argument(args[i]))
 		}
 	}
 	p.Data = data
-	return s.emitPacket(p)
+	if cb == nil {
+		return s.emitPacket(p)
+	}
+	p.ID = newid(ack.onAck(cb))
+	if err = s.emitPacket(p); err != nil {
+		ack.forget(*p.ID)
+	}
+	return
+}
+
+// argument returns v as it is encoded: a nil pointer is nil, whatever methods its type has
+func argument(v interface{}) interface{} {
+	if r := reflect.ValueOf(v); r.Kind() == reflect.Ptr && r.IsNil() {
+		return nil
+	}
+	return v
 }
 
 func (s *socket) emitError(nsp string, arg interface{}) (err error) {
-- 
2.43.0


From c05693ff79f20396f11332ce56d5949b48e885c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 14/24] fix: keep the frames of a packet together

---
 socket.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index a6e1c34..00f4838 100644
--- a/socket.go
+++ b/socket.go
@@ -52,7 +52,9 @@ type socket struct {
 	decoder Decoder
 	acks    map[string]*ackHandle
 	mutex   sync.RWMutex
-	ackid   *uint64 // the last ack id used, of all namespaces joined so far
+
+	emitting sync.Mutex // held while the frames of one packet are queued
+	ackid    *uint64    // the last ack id used, of all namespaces joined so far
 }
 
 func newSocket(ß *engine.Socket, parser Parser) *socket {
@@ -192,6 +194,8 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	if err != nil {
 		return
 	}
+	s.emitting.Lock()
+	defer s.emitting.Unlock()
 	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
 		return
 	}
-- 
2.43.0


From 6d617d72123bcd2c239ee1836879c352f97e80ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 15/24] fix: send no empty message before a msgpack packet

---
 socket.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/socket.go b/socket.go
index 00f4838..5681627 100644
--- a/socket.go
+++ b/socket.go
@@ -196,8 +196,10 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	}
 	s.emitting.Lock()
 	defer s.emitting.Unlock()
-	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
-		return
+	if b != nil {
+		if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
+			return
+		}
 	}
 	for _, d := range bin {
 		if err = s.ß.Emit(engine.EventMessage, MessageTypeBinary, d); err != nil {
-- 
2.43.0


From 1601df62d0a62b63fbd34ae8be29d5a2396cacf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 16/24] fix: miss no packet that follows the client's handshake

---
 client.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/client.go b/client.go
index 515b817..5279554 100644
--- a/client.go
+++ b/client.go
@@ -21,10 +21,11 @@ func NewClient() (c *Client) {
 
 // Dial connects to a socket.io server represented by `rawurl` and create Client instance on success.
 func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Dialer, parser Parser) (err error) {
-	e, err := engine.Dial(rawurl, requestHeader, dialer)
-	if err != nil {
-		return
-	}
+	_, err = engine.DialWith(rawurl, requestHeader, dialer, func(e *engine.Client) { c.attach(e, parser) })
+	return
+}
+
+func (c *Client) attach(e *engine.Client, parser Parser) {
 	socket := newSocket(e.Socket, parser)
 	c.engine = e
 	c.socket = socket
@@ -49,7 +50,6 @@ func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Di
 		socket.Close()
 		detachall(c, socket)
 	}))
-	return
 }
 
 // Emit send event messages to namespace `nsp`
-- 
2.43.0


From 099d6a497b45fb6cbcd2d279ba69e5ebf6e71b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 17/24] fix: decode every packet the protocol allows, and stay
 in sync after others

The default decoder refused event names with escapes and acks whose first
argument is binary, rewrote namespaces as URLs, let ids and attachment counts
wrap around, and gave the attachments of a refused packet to an older one.
---
 parser_default.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 75a7d3d..827c52e 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -6,10 +6,11 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"net/url"
+	"math"
 	"reflect"
 	"regexp"
 	"strconv"
+	"strings"
 )
 
 type defaultParser struct{}
@@ -182,6 +183,7 @@ func (d *defaultDecoder) Add(msgType MessageType, data []byte) error {
 		d.lastp.buffer[i] = data
 		d.lastp.attachments--
 	} else {
+		d.lastp = nil // incomplete, if any
 		p, err := d.decode(data)
 		if err != nil {
 			return err
@@ -230,7 +232,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			if s[j] < '0' || s[j] > '9' {
 				return nil, ErrUnknownPacket
 			}
-			p.attachments = p.attachments*10 + int(s[j]-'0')
+			if p.attachments = p.attachments*10 + int(s[j]-'0'); p.attachments > len(s) {
+				return nil, ErrUnknownPacket
+			}
 		}
 		i = j + 1
 		if i >= len(s) {
@@ -246,11 +250,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			}
 		}
 		p.Namespace = string(s[i:j])
-		u, err := url.Parse(p.Namespace)
-		if err != nil {
-			return nil, fmt.Errorf("failed to parse namespace from %q", p.Namespace)
+		if k := strings.IndexByte(p.Namespace, '?'); k >= 0 {
+			p.Namespace = p.Namespace[:k]
 		}
-		p.Namespace = u.Path
 
 		i = j + 1
 		if i >= len(s) {
@@ -263,7 +265,11 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 		var id = uint64(s[i] - '0')
 		for ; j < len(s); j++ {
 			if s[j] >= '0' && s[j] <= '9' {
-				id = id*10 + uint64(s[j]-'0')
+				digit := uint64(s[j] - '0')
+				if id > (math.MaxUint64-digit)/10 {
+					return nil, ErrUnknownPacket
+				}
+				id = id*10 + digit
 			} else {
 				break
 			}
@@ -304,9 +310,8 @@ func newid(id uint64) *uint64 {
 
 func extractEvent(b []byte) (event string, left []byte, match bool) {
 	if sub := eventExp.FindSubmatch(b); sub != nil {
-		event = string(sub[1])
 		left = eventExp.ReplaceAll(b, []byte{'['})
-		match = true
+		match = json.Unmarshal(sub[1], &event) == nil
 	}
 	return
 }
@@ -316,11 +321,16 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 		buffer = make([][]byte, len(m))
 	}
 	left = placeholderExp.ReplaceAllLiteral(b, nil)
+	if m := leadingExp.FindSubmatch(left); m != nil { // the first argument of an ack
+		buffer = append(buffer, nil)
+		left = leadingExp.ReplaceAll(left, []byte{'['})
+	}
 	return
 }
 
 var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
-var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
+var leadingExp = regexp.MustCompile(`^\[\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*,?`)
+var eventExp = regexp.MustCompile(`^\[\s*(?P<event>"(?:[^"\\]|\\.)+")\s*,?`)
 
 type placeholder struct {
 	num int
-- 
2.43.0


From 0c73ceb667823477c30b47c3a6b71af0b93b0200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 18/24] fix: survive hostile msgpack

A deeply nested packet overflowed the stack, an array or map header could ask
for gigabytes, and a map parameter with a named key type panicked.
---
 parser_msgp.go | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index 407d9ca..49542dc 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -123,6 +123,9 @@ func msgpUnmashalArg(i reflect.Value, data []byte) ([]byte, error) {
 		if err != nil {
 			return data, err
 		}
+		if int64(sz) > int64(len(data)) {
+			return data, msgp.ErrShortBytes
+		}
 		slice := reflect.MakeSlice(ie.Type(), int(sz), int(sz))
 		for i := 0; i < int(sz); i++ {
 			data, err = msgpUnmashalArg(slice.Index(i).Addr(), data)
@@ -188,6 +191,10 @@ func msgpReadMap(b []byte, mapType reflect.Type) (v reflect.Value, o []byte, err
 	if sz, o, err = msgp.ReadMapHeaderBytes(o); err != nil {
 		return
 	}
+	if int64(sz) > int64(len(o)) {
+		err = msgp.ErrShortBytes
+		return
+	}
 	v = reflect.MakeMapWithSize(mapType, int(sz))
 	valType := mapType.Elem()
 	for z := uint32(0); z < sz; z++ {
@@ -205,7 +212,7 @@ func msgpReadMap(b []byte, mapType reflect.Type) (v reflect.Value, o []byte, err
 		if err != nil {
 			return
 		}
-		v.SetMapIndex(reflect.ValueOf(string(key)), val.Elem())
+		v.SetMapIndex(reflect.ValueOf(string(key)).Convert(mapType.Key()), val.Elem())
 	}
 	return
 }
@@ -286,13 +293,48 @@ func (msgpackDecoder) ParseData(p *Packet) (event string, data []byte, bin [][]b
 	return
 }
 
+const msgpMaxDepth = 10000
+
+// msgpCheck refuses what is nested too deeply for the recursive functions of msgp
+func msgpCheck(b []byte) (err error) {
+	var left []uint64 // objects to come, of each object that has been entered
+	for {
+		var sz uint32
+		objects := uint64(0)
+		switch msgp.NextType(b) {
+		case msgp.MapType:
+			sz, b, err = msgp.ReadMapHeaderBytes(b)
+			objects = 2 * uint64(sz)
+		case msgp.ArrayType:
+			sz, b, err = msgp.ReadArrayHeaderBytes(b)
+			objects = uint64(sz)
+		default:
+			b, err = msgp.Skip(b)
+		}
+		if err != nil {
+			return
+		}
+		if left = append(left, objects); len(left) > msgpMaxDepth {
+			return fmt.Errorf("nested more than %d levels", msgpMaxDepth)
+		}
+		for left[len(left)-1] == 0 {
+			if left = left[:len(left)-1]; len(left) == 0 {
+				return
+			}
+		}
+		left[len(left)-1]--
+	}
+}
+
 func (m *msgpackDecoder) Add(msgType MessageType, data []byte) (err error) {
 	var p Packet
 	switch msgType {
 	case MessageTypeString:
 		err = json.Unmarshal(data, &p)
 	case MessageTypeBinary:
-		_, err = p.UnmarshalMsg(data)
+		if err = msgpCheck(data); err == nil {
+			_, err = p.UnmarshalMsg(data)
+		}
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 018312e58353c8f3a161044235ffe2802b18557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 19/24] fix: a post in progress when polling ends is refused or
 delivered, not accepted and dropped

---
 engine/polling.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/engine/polling.go b/engine/polling.go
index dbec804..dc68d3b 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -38,6 +38,7 @@ type pollingConn struct {
 	readDeadline  atomic.Value
 	writeDeadline atomic.Value
 	paused        atomic.Value
+	posting       sync.RWMutex // read-locked while packets of a request are put into in
 	localAddr     netAddr
 	remoteAddr    netAddr
 	header        http.Header
@@ -118,6 +119,10 @@ func (p *pollingConn) FlushOut() (packets []*Packet) {
 }
 
 func (p *pollingConn) FlushIn() (packets []*Packet) {
+	if p.isClosed() { // nothing follows once requests in progress have finished
+		p.posting.Lock()
+		defer p.posting.Unlock()
+	}
 	for {
 		select {
 		case pkt := <-p.in:
@@ -253,6 +258,12 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusInternalServerError)
 			return
 		}
+		p.posting.RLock()
+		defer p.posting.RUnlock()
+		if p.isClosed() {
+			http.Error(w, "closed", http.StatusNotFound)
+			return
+		}
 		for i := range payload.packets {
 			select {
 			case <-p.closed:
-- 
2.43.0


From 4e44ea0ee8b3347687d6844439dcb9a09765c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 20/24] fix: a request that reaches a session after its upgrade
 is refused, not answered with an empty 200

---
 engine/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index 178cc02..8a522c5 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -162,7 +162,12 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			s.upgrade(ß, transportName, conn)
 			return
 		}
-		ß.ServeHTTP(w, r)
+		handler, ok := ß.conn().(http.Handler)
+		if !ok { // the session does not use requests, or no longer
+			http.Error(w, "invalid transport", http.StatusBadRequest)
+			return
+		}
+		handler.ServeHTTP(w, r)
 	}
 }
 
-- 
2.43.0


From 8f1f19145f335b354760adffd2988a9e964239eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 21/24] fix: a session closed while its upgrade completes does
 not leave the new connection open

---
 engine/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/server.go b/engine/server.go
index 8a522c5..de6975c 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -248,6 +248,11 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	ß.Conn.copyHeaderFrom(conn)
 	ß.upgraded = p
 	ß.Unlock()
+	select {
+	case <-ß.emitter.done: // the session may have closed the connection replaced
+		newConn.Close()
+	default:
+	}
 
 	ß.pending = append(ß.pending, conn.FlushIn()...)
 	ß.pending = append(ß.pending, p)
-- 
2.43.0


From d5ccc6d3cc43437695d619e2026c110f5382d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 22/24] fix: nothing is sent after a packet that could not be
 sent

A write that failed (a client that takes nothing for too long) ends the session in the background; until it
had ended the next packets were still written, and a client polling at that moment received them with one
missing in front.
---
 engine/emitter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 423b1cb..c687321 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -13,6 +13,7 @@ type emitter struct {
 	so      *Socket
 	packets chan *Packet
 	done    chan struct{}
+	failed  bool // used by the goroutine of loop only
 	wg      sync.WaitGroup
 }
 
@@ -64,16 +65,16 @@ func (e *emitter) loop() {
 }
 
 // write sends p, again if the connection is paused meanwhile. A session that cannot
-// send p is ended, for it must not go on with p missing.
+// send p is ended, for it must not go on with p missing; nothing that follows is sent.
 func (e *emitter) write(p *Packet) {
-	for {
+	for !e.failed {
 		err := e.so.write(p)
 		if err == nil {
 			return
 		}
 		if err != ErrPollingConnPaused {
+			e.failed = true
 			go e.so.abort()
-			return
 		}
 	}
 }
-- 
2.43.0


From ce339a2a182ce757345cff023ddd9bf22c7bf8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:48 +0000
Subject: [PATCH 23/24] fix: binary data in the arguments of an error packet
 corrupted its frame

---
 parser_default.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_default.go b/parser_default.go
index 827c52e..b74479e 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -38,6 +38,11 @@ func (defaultEncoder) preprocess(p *Packet) error {
 		p.Namespace = "/" + p.Namespace
 	}
 	p.attachments = 0
+	switch p.Type {
+	case PacketTypeEvent, PacketTypeAck, PacketTypeBinaryEvent, PacketTypeBinaryAck:
+	default: // has no attachments
+		return nil
+	}
 	if d, ok := p.Data.([]interface{}); ok {
 		p.buffer = make([][]byte, 0, len(d))
 		for i := range d {
-- 
2.43.0


From 4c6b956c8affe04b1910b590b72f87109b390e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:03 +0000
Subject: [PATCH 24/24] fix: encoding a packet changed it, so that it could not
 be encoded again

---
 parser_default.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index b74479e..f19cbea 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -27,10 +27,11 @@ type defaultEncoder struct{}
 
 func (d defaultEncoder) Encode(p *Packet) ([]byte, [][]byte, error) {
 	var buf bytes.Buffer
-	if err := d.encodeTo(&buf, p); err != nil {
+	q := *p // left as it is
+	if err := d.encodeTo(&buf, &q); err != nil {
 		return nil, nil, err
 	}
-	return buf.Bytes(), p.buffer, nil
+	return buf.Bytes(), q.buffer, nil
 }
 
 func (defaultEncoder) preprocess(p *Packet) error {
@@ -44,6 +45,8 @@ func (defaultEncoder) preprocess(p *Packet) error {
 		return nil
 	}
 	if d, ok := p.Data.([]interface{}); ok {
+		d = append([]interface{}{}, d...)
+		p.Data = d
 		p.buffer = make([][]byte, 0, len(d))
 		for i := range d {
 			if b, ok := d[i].(encoding.BinaryMarshaler); ok {
-- 
2.43.0

