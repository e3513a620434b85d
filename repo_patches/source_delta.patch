From bc8d456879b159cb0e2c08a9e97f4a8db47941e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 01/31] fix: read polling payload packets completely and refuse
 malformed lengths

A packet was read with a single Read, so anything beyond the reader's buffer
(4096 bytes, 768 for base64) came out as zeros; base64 padding was kept as
extra zero bytes and the decoder read past the packet; a zero or negative
length panicked; a truncated packet was accepted.
---
 engine/payload.go | 73 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 19 deletions(-)

diff --git a/engine/payload.go b/engine/payload.go
index b75aeee..95fffd2 100644
--- a/engine/payload.go
+++ b/engine/payload.go
@@ -2,9 +2,11 @@ package engine
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"errors"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -143,24 +145,55 @@ func (p *Packet) decode(pr byteReader) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	var rd io.Reader = pr
-	n += l
+	data, err := readData(pr, l)
+	n += len(data)
+	if err != nil {
+		return n, err
+	}
 	if p.msgType == MessageTypeBinary {
-		rd = base64.NewDecoder(base64.StdEncoding, pr /*io.LimitReader(pr, int64(l))*/)
-		l = base64.StdEncoding.DecodedLen(l)
+		l, err = base64.StdEncoding.Decode(data, data)
+		if err != nil {
+			return n, ErrInvalidPayload
+		}
+		data = data[:l]
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+	p.data = data
+	return n, nil
+}
+
+// readData reads exactly l bytes; the buffer grows with the data actually present, not with the announced length.
+func readData(r io.Reader, l int) ([]byte, error) {
+	if l < 0 {
+		return nil, ErrInvalidPayload
 	}
-	_, err = rd.Read(p.data)
-	return n, err
+	buf := bytes.NewBuffer([]byte{})
+	_, err := io.CopyN(buf, r, int64(l))
+	return buf.Bytes(), unexpectedEOF(err)
+}
+
+// unexpectedEOF is for use where a packet has begun: running out of data there is not a regular end of payload.
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
+// appendDigit appends a decimal digit to a length, refusing lengths no payload can have.
+func appendDigit(length int, digit byte) (int, error) {
+	if length > math.MaxInt32/10-1 {
+		return 0, ErrInvalidPayload
+	}
+	return length*10 + int(digit), nil
 }
 
 func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 	for {
 		b, err := r.ReadByte()
 		if err != nil {
+			if n > 0 {
+				err = unexpectedEOF(err)
+			}
 			return n, 0, err
 		}
 		n++
@@ -170,18 +203,20 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		if b < '0' || b > '9' {
 			return n, 0, ErrInvalidPayload
 		}
-		length = length*10 + int(b-'0')
+		if length, err = appendDigit(length, b-'0'); err != nil {
+			return n, 0, err
+		}
 	}
 	b, err := r.ReadByte()
 	if err != nil {
-		return
+		return n, 0, unexpectedEOF(err)
 	}
 	n++
 	if b == 'b' {
 		length--
 		b, err = r.ReadByte()
 		if err != nil {
-			return
+			return n, 0, unexpectedEOF(err)
 		}
 		n++
 		p.msgType = MessageTypeBinary
@@ -243,6 +278,7 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 	for {
 		b, err = r.ReadByte()
 		if err != nil {
+			err = unexpectedEOF(err)
 			return
 		}
 		n++
@@ -253,10 +289,13 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 			err = ErrInvalidPayload
 			return
 		}
-		length = length*10 + int(b)
+		if length, err = appendDigit(length, b); err != nil {
+			return
+		}
 	}
 	b, err = r.ReadByte()
 	if err != nil {
+		err = unexpectedEOF(err)
 		return
 	}
 	n++
@@ -273,10 +312,6 @@ func (p *packet2) decode(pr byteReader) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
-	}
-	nn, err := pr.Read(p.data)
-	return n + nn, err
+	p.data, err = readData(pr, l)
+	return n + len(p.data), err
 }
-- 
2.43.0


From a33a0b6665c0ee73691bc6252fc833c9b94eb1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 02/31] fix: answer polls with the content type of their mode
 and valid JSONP

The status line was written before the content type was set, so the type was
guessed from the data; a JSONP response put an already quoted string between
quotes, which is not JavaScript, and echoed the callback index unchecked.
---
 engine/polling.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/engine/polling.go b/engine/polling.go
index b753e32..4b0e32c 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -206,15 +206,19 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 	switch r.Method {
 	case "GET":
+		q := r.URL.Query()
+		b64 := q.Get(queryBase64)
+		jsonp := q.Get(queryJSONP)
+		if strings.Trim(jsonp, "0123456789") != "" {
+			http.Error(w, "invalid jsonp index", http.StatusBadRequest)
+			return
+		}
 		pkt, err := p.ReadPacketOut(r.Context())
 		if err != nil {
 			http.Error(w, err.Error(), http.StatusNotFound)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
-		q := r.URL.Query()
-		b64 := q.Get(queryBase64)
-		if jsonp := q.Get(queryJSONP); jsonp != "" {
+		if jsonp != "" {
 			err = writeJSONP(w, jsonp, pkt)
 		} else if b64 == "1" {
 			err = writeXHR(w, pkt)
@@ -304,13 +308,11 @@ func writeJSONP(w http.ResponseWriter, jsonp string, wt io.WriterTo) error {
 	if _, err := wt.WriteTo(&buf); err != nil {
 		return err
 	}
-	s := buf.String()
-	buf.Reset()
-	err := json.NewEncoder(&buf).Encode(s)
+	s, err := json.Marshal(buf.String())
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Fprintf(w, `___eio[%s]("%s");`, jsonp, buf.String())
+	_, err = fmt.Fprintf(w, `___eio[%s](%s);`, jsonp, s)
 	return err
 }
 
-- 
2.43.0


From ddfe054e94ce4074a703b653315104f8eb44ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 03/31] fix: do not let a failed upgrade request take messages
 of the session

After an upgrade attempt that failed, its request went on to be served as a
poll: it consumed the next packet and wrote it to the hijacked connection.
---
 engine/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/server.go b/engine/server.go
index 63485de..e50c7a6 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -162,6 +162,7 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 				return
 			}
 			s.upgrade(ß, transportName, conn)
+			return
 		}
 		ß.ServeHTTP(w, r)
 	}
-- 
2.43.0


From a036474461f3359f7aaf98402933b46a9728ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 04/31] fix: refuse polling requests on a session that has been
 upgraded

Such a request was taken for an upgrade back to polling: it waited for a probe
that could not come and held up all messages of the session for the whole read
timeout.
---
 engine/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index e50c7a6..0e3f006 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -156,7 +156,14 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, "invalid session", http.StatusBadRequest)
 			return
 		}
-		if transportName := transport.Name(); ß.transportName != transportName {
+		ß.RLock()
+		current := ß.transportName
+		ß.RUnlock()
+		if transportName := transport.Name(); current != transportName {
+			if current != transportPolling {
+				http.Error(w, "invalid transport", http.StatusBadRequest)
+				return
+			}
 			conn, err := transport.Accept(w, r)
 			if err != nil {
 				return
-- 
2.43.0


From 5a3ec14a241355458eeec3ee47ee37e718d9e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 05/31] fix: neither lose, reorder nor overlap messages during
 an upgrade

---
 engine/emitter.go | 28 +++++++++++------
 engine/server.go  | 28 ++++-------------
 engine/socket.go  | 80 +++++++++++++++++++++++++++++++++++++++++------
 3 files changed, 94 insertions(+), 42 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 618b2c8..b326297 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -15,6 +15,7 @@ type emitter struct {
 	packets chan *Packet
 	done    chan struct{}
 	wg      sync.WaitGroup
+	mutex   sync.Mutex // held while writing to, replacing or closing the connection
 }
 
 func newEmitter(so *Socket, bufSize int) *emitter {
@@ -59,11 +60,7 @@ func (e *emitter) loop() {
 		case <-e.done:
 			return
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
 		}
 	}
 }
@@ -72,13 +69,24 @@ func (e *emitter) flush() {
 	for {
 		select {
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
 		default:
 			return
 		}
 	}
 }
+
+// write hands p to the connection of the socket. A write interrupted by an upgrade is repeated once that is decided.
+func (e *emitter) write(p *Packet) {
+	for {
+		e.so.barrier.Wait()
+		e.mutex.Lock()
+		conn := e.so.conn()
+		conn.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
+		err := conn.WritePacket(p)
+		e.mutex.Unlock()
+		if err != ErrPollingConnPaused {
+			return
+		}
+	}
+}
diff --git a/engine/server.go b/engine/server.go
index 0e3f006..7254399 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -176,9 +176,6 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 }
 
 func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
-	ß.barrier.Pause()
-	defer ß.barrier.Resume()
-
 	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
 	p, err := newConn.ReadPacket()
 	if err != nil {
@@ -196,10 +193,10 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
-	ß.RLock()
-	conn := ß.Conn
-	ß.RUnlock()
+	ß.barrier.Pause()
+	defer ß.barrier.Resume()
 
+	conn := ß.conn()
 	if err := conn.Pause(); err != nil {
 		newConn.Close()
 		return
@@ -218,21 +215,8 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
-	conn.Close()
-
-	for _, packet := range conn.FlushOut() {
-		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
-		newConn.WritePacket(packet)
-	}
-
-	ß.Lock()
-	ß.Conn = newConn
-	ß.transportName = transportName
-	ß.Conn.copyHeaderFrom(conn)
-	ß.Unlock()
-
-	for _, packet := range conn.FlushIn() {
-		s.handle(ß, packet)
+	if !ß.replace(newConn, transportName, func() { s.fire(ß, EventUpgrade, p.msgType, p.data) }) {
+		newConn.Close()
+		conn.Resume()
 	}
-	s.fire(ß, EventUpgrade, p.msgType, p.data)
 }
diff --git a/engine/socket.go b/engine/socket.go
index d8ac152..8f1ce44 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -17,6 +17,10 @@ type Socket struct {
 	barrier       Barrier
 	emitter       *emitter
 	once          sync.Once
+	closed        bool      // guarded by emitter.mutex
+	previous      Conn      // replaced by an upgrade, may still hold packets to read
+	announce      func()    // to be called once the packets of previous have been read
+	pending       []*Packet // read from previous; only used by Read
 	sync.RWMutex
 }
 
@@ -31,23 +35,79 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 	return so
 }
 
-// Read returns a Packet upon success or error on failure
-func (s *Socket) Read() (p *Packet, err error) {
+func (s *Socket) conn() Conn {
 	s.RLock()
-	conn := s.Conn
-	s.RUnlock()
-	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err != nil {
-		return
+	defer s.RUnlock()
+	return s.Conn
+}
+
+// Read returns a Packet upon success or error on failure. It should not be called concurrently.
+func (s *Socket) Read() (p *Packet, err error) {
+	for {
+		s.Lock()
+		conn := s.Conn
+		if s.previous != nil {
+			s.pending = append(s.pending, s.previous.FlushIn()...)
+			s.previous = nil
+		}
+		var announce func()
+		if len(s.pending) == 0 {
+			announce, s.announce = s.announce, nil
+		}
+		s.Unlock()
+		if len(s.pending) > 0 {
+			p, s.pending = s.pending[0], s.pending[1:]
+			return p, nil
+		}
+		if announce != nil {
+			announce()
+		}
+		if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err == nil {
+			if p, err = conn.ReadPacket(); err == nil {
+				return
+			}
+		}
+		if conn == s.conn() {
+			return
+		}
 	}
-	p, err = conn.ReadPacket()
-	return
+}
+
+// replace makes conn the connection of the socket and closes the previous one, from which Read takes what is left
+// before it calls announce. It reports false if the socket is closed already.
+func (s *Socket) replace(conn Conn, transportName string, announce func()) bool {
+	s.emitter.mutex.Lock()
+	defer s.emitter.mutex.Unlock()
+	if s.closed {
+		return false
+	}
+	s.Lock()
+	previous := s.Conn
+	previous.Close()
+	conn.copyHeaderFrom(previous)
+	s.Conn = conn
+	s.transportName = transportName
+	s.previous = previous
+	s.announce = announce
+	s.Unlock()
+	for _, packet := range previous.FlushOut() {
+		conn.SetWriteDeadline(time.Now().Add(s.writeTimeout))
+		if err := conn.WritePacket(packet); err != nil {
+			conn.Close()
+			break
+		}
+	}
+	return true
 }
 
 // Close closes underlying connection and background emitter
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
 		s.emitter.close()
-		err = s.Conn.Close()
+		s.emitter.mutex.Lock()
+		s.closed = true
+		err = s.conn().Close()
+		s.emitter.mutex.Unlock()
 	})
 	return
 }
@@ -93,7 +153,7 @@ func (s *Socket) Send(args interface{}) (err error) {
 
 // ServeHTTP implements http.Handler
 func (s *Socket) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if handler, ok := s.Conn.(http.Handler); ok {
+	if handler, ok := s.conn().(http.Handler); ok {
 		handler.ServeHTTP(w, r)
 	}
 }
-- 
2.43.0


From 4e212557a7185db4d7950ff1a7fa3ca11bc01add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 06/31] fix: close a connection whose write failed instead of
 skipping the message

---
 engine/emitter.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index b326297..ae51e2b 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -76,7 +76,8 @@ func (e *emitter) flush() {
 	}
 }
 
-// write hands p to the connection of the socket. A write interrupted by an upgrade is repeated once that is decided.
+// write hands p to the connection of the socket. A write interrupted by an upgrade is repeated once that is decided;
+// any other failure is fatal for the connection, since going on would leave a gap in what the peer receives.
 func (e *emitter) write(p *Packet) {
 	for {
 		e.so.barrier.Wait()
@@ -85,8 +86,13 @@ func (e *emitter) write(p *Packet) {
 		conn.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
 		err := conn.WritePacket(p)
 		e.mutex.Unlock()
-		if err != ErrPollingConnPaused {
-			return
+		switch err {
+		case ErrPollingConnPaused:
+			continue
+		case nil, ErrInvalidPayload:
+		default:
+			conn.Close()
 		}
+		return
 	}
 }
-- 
2.43.0


From 7d6ef7f44931191a8079640886ff34e285ebd759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 07/31] fix: open each session on its own, before its first
 packet is read

---
 engine/server.go |  3 +--
 server.go        | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index 7254399..a60c635 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -61,6 +61,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 					defer s.sessionManager.Remove(ß.id)
 					var p *Packet
 					var err error
+					onOpen(ß)
 					for {
 						if p, err = ß.Read(); err != nil {
 							if err == ErrPollingConnPaused {
@@ -76,8 +77,6 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 						}
 					}
 				}()
-
-				onOpen(ß)
 			}
 		}
 	}()
diff --git a/server.go b/server.go
index 2d4fa96..c999025 100644
--- a/server.go
+++ b/server.go
@@ -15,6 +15,7 @@ type Server struct {
 	sockLock sync.RWMutex
 	onError  func(err error)
 	nsps     map[string]*namespace
+	nspLock  sync.RWMutex
 }
 
 // NewServer creates a socket.io server instance upon underlying engine.io transport
@@ -23,6 +24,9 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 		socket := newSocket(ß, parser)
 		socket.attachnsp("/")
 		nsp := server.creatensp("/")
+		server.sockLock.Lock()
+		server.sockets[ß] = socket
+		server.sockLock.Unlock()
 		if err := socket.emitPacket(&Packet{
 			Type:      PacketTypeConnect,
 			Namespace: "/",
@@ -31,9 +35,6 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 				nsp.onError(socket, err)
 			}
 		}
-		server.sockLock.Lock()
-		server.sockets[ß] = socket
-		server.sockLock.Unlock()
 		if nsp.onConnect != nil {
 			nsp.onConnect(socket)
 		}
@@ -87,6 +88,8 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 func (s *Server) Namespace(nsp string) Namespace { return s.creatensp(nsp) }
 
 func (s *Server) creatensp(nsp string) *namespace {
+	s.nspLock.Lock()
+	defer s.nspLock.Unlock()
 	n, ok := s.nsps[nsp]
 	if !ok {
 		n = &namespace{callbacks: make(map[string]*callback)}
@@ -95,7 +98,12 @@ func (s *Server) creatensp(nsp string) *namespace {
 	return n
 }
 
-func (s *Server) getnsp(nsp string) (n *namespace, ok bool) { n, ok = s.nsps[nsp]; return }
+func (s *Server) getnsp(nsp string) (n *namespace, ok bool) {
+	s.nspLock.RLock()
+	n, ok = s.nsps[nsp]
+	s.nspLock.RUnlock()
+	return
+}
 
 // ServeHTTP implements http.Handler interface
 func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) { s.engine.ServeHTTP(w, r) }
-- 
2.43.0


From 636e6344660b0214df34bd59de2a222ebbb9ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 08/31] fix: report the end of a session once when the client
 closes it

---
 engine/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/server.go b/engine/server.go
index a60c635..7cd6d2a 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -75,6 +75,9 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 						if err = s.handle(ß, p); err != nil {
 							log.Println("handle:", err.Error())
 						}
+						if p.pktType == PacketTypeClose {
+							return
+						}
 					}
 				}()
 			}
-- 
2.43.0


From 237a6414652b2ef7f995fd90ae44b86d6cc204c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 09/31] fix: let a client deliver what it sent before closing
 and report every end of its connection

---
 engine/client.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/engine/client.go b/engine/client.go
index 4fab733..8f91bf2 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -60,22 +60,21 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		}
 	}()
 	go func() {
-		defer ß.Close()
+		defer c.Close()
 		var p *Packet
 		var err error
 		for {
-			select {
-			case <-closeChan:
-				return
-			default:
-			}
 			if p, err = ß.Read(); err != nil {
 				log.Println("read:", err.Error())
+				c.fire(ß, EventClose, MessageTypeString, nil)
 				return
 			}
 			if err = c.handle(ß, p); err != nil {
 				log.Println("handle:", err.Error())
 			}
+			if p.pktType == PacketTypeClose {
+				return
+			}
 		}
 	}()
 
@@ -104,7 +103,7 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 func (c *Client) Close() (err error) {
 	c.once.Do(func() {
 		close(c.closeChan)
-		err = c.Conn.Close()
+		err = c.Socket.Close()
 	})
 	return
 }
-- 
2.43.0


From ccc85d94d32eb282a0c39cc6b2a10a48e8ec66a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 10/31] fix: let a client miss no packet that follows the
 handshake

---
 client.go        | 11 ++++++-----
 engine/client.go | 11 ++++++++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/client.go b/client.go
index 440f251..7265f31 100644
--- a/client.go
+++ b/client.go
@@ -21,10 +21,12 @@ func NewClient() (c *Client) {
 
 // Dial connects to a socket.io server represented by `rawurl` and create Client instance on success.
 func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Dialer, parser Parser) (err error) {
-	e, err := engine.Dial(rawurl, requestHeader, dialer)
-	if err != nil {
-		return
-	}
+	_, err = engine.Dial(rawurl, requestHeader, dialer, func(e *engine.Client) { c.setup(e, parser) })
+	return
+}
+
+// setup prepares c for the packets e receives
+func (c *Client) setup(e *engine.Client, parser Parser) {
 	socket := newSocket(e.Socket, parser)
 	c.engine = e
 	c.socket = socket
@@ -49,7 +51,6 @@ func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Di
 		socket.Close()
 		detachall(c, socket)
 	}))
-	return
 }
 
 // Emit send event messages to namespace `nsp`
diff --git a/engine/client.go b/engine/client.go
index 8f91bf2..1e83fba 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -17,11 +17,17 @@ type Client struct {
 }
 
 // Dial connects to a engine.io server represented by `rawurl` and create Client instance on success.
-func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, err error) {
+// Event handlers registered by `setup` miss nothing: they are in place before the first packet is handled.
+func Dial(rawurl string, requestHeader http.Header, dialer Dialer, setup ...func(*Client)) (c *Client, err error) {
 	conn, err := dialer.Dial(rawurl, requestHeader)
 	if err != nil {
 		return
 	}
+	defer func() {
+		if err != nil {
+			conn.Close()
+		}
+	}()
 	p, err := conn.ReadPacket()
 	if err != nil {
 		return
@@ -44,6 +50,9 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		eventHandlers: newEventHandlers(),
 		closeChan:     closeChan,
 	}
+	for _, fn := range setup {
+		fn(c)
+	}
 
 	go func() {
 		var err error
-- 
2.43.0


From 9bd88c50f68470947b86f92b417b3158b13435bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 11/31] fix: refuse handshakes once the server is closed

---
 engine/server.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index 7cd6d2a..8c5554c 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -26,7 +26,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 	s := &Server{
 		pingInterval:   interval,
 		pingTimeout:    timeout,
-		ßchan:          make(chan *Socket, 1),
+		ßchan:          make(chan *Socket),
 		done:           done,
 		sessionManager: newSessionManager(),
 		eventHandlers:  newEventHandlers(),
@@ -140,6 +140,12 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if sid := query.Get(querySession); sid == "" {
+		select {
+		case <-s.done:
+			http.Error(w, "server closed", http.StatusServiceUnavailable)
+			return
+		default:
+		}
 		conn, err := transport.Accept(w, r)
 		if err != nil {
 			return
@@ -148,6 +154,11 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		ß.transportName = transport.Name()
 		select {
 		case <-s.done:
+			s.sessionManager.Remove(ß.id)
+			ß.Close()
+			if transport.Name() == transportPolling {
+				http.Error(w, "server closed", http.StatusServiceUnavailable)
+			}
 			return
 		case s.ßchan <- ß:
 		}
-- 
2.43.0


From 293867b0c8be8f8b8bc9631adb042edb96fdda2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 12/31] fix: open no session for requests that cannot be
 answered with OPEN

---
 engine/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/server.go b/engine/server.go
index 8c5554c..b9ecd40 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -146,6 +146,10 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			return
 		default:
 		}
+		if r.Method != http.MethodGet {
+			http.Error(w, "bad handshake method", http.StatusBadRequest)
+			return
+		}
 		conn, err := transport.Accept(w, r)
 		if err != nil {
 			return
-- 
2.43.0


From bd887008405bb8380e60da8605ed3273107e3421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 13/31] fix: call disconnect callbacks without holding the lock
 of the socket

---
 socket.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/socket.go b/socket.go
index 0cdf2e5..4b2355d 100644
--- a/socket.go
+++ b/socket.go
@@ -84,15 +84,16 @@ type nspStore interface {
 
 func detachall(s nspStore, sock *socket) {
 	sock.mutex.Lock()
-	for k := range sock.acks {
-		delete(sock.acks, k)
+	acks := sock.acks
+	sock.acks = make(map[string]*ackHandle)
+	sock.mutex.Unlock() // callbacks may use the socket
+	for k := range acks {
 		if nsp, ok := s.getnsp(k); ok {
 			if nsp.onDisconnect != nil {
 				nsp.onDisconnect(&nspSock{socket: sock, name: k})
 			}
 		}
 	}
-	sock.mutex.Unlock()
 }
 
 func (s *socket) fireAck(nsp string, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-- 
2.43.0


From 7c3a13b5ee8419bf2bb2cdd596a62c8554752289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 14/31] fix: send no empty message before a msgpack frame

---
 socket.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/socket.go b/socket.go
index 4b2355d..94476c0 100644
--- a/socket.go
+++ b/socket.go
@@ -156,8 +156,10 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	if err != nil {
 		return
 	}
-	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
-		return
+	if b != nil { // there is no text with MsgpackParser
+		if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
+			return
+		}
 	}
 	for _, d := range bin {
 		if err = s.ß.Emit(engine.EventMessage, MessageTypeBinary, d); err != nil {
-- 
2.43.0


From dc23441d362033421f5a423b9d8202653f520858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 15/31] fix: keep attachments next to their packet when several
 goroutines emit

---
 socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket.go b/socket.go
index 94476c0..fb0aec5 100644
--- a/socket.go
+++ b/socket.go
@@ -52,6 +52,7 @@ type socket struct {
 	decoder Decoder
 	acks    map[string]*ackHandle
 	mutex   sync.RWMutex
+	sending sync.Mutex // held while a packet is being emitted, keeps attachments next to their header
 }
 
 func newSocket(ß *engine.Socket, parser Parser) *socket {
@@ -156,6 +157,8 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	if err != nil {
 		return
 	}
+	s.sending.Lock()
+	defer s.sending.Unlock()
 	if b != nil { // there is no text with MsgpackParser
 		if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
 			return
-- 
2.43.0


From 6726f1ae54b5aa73adf4f2ba8cada10a4f341ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 16/31] fix: allow nil among the arguments of Emit

---
 socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index fb0aec5..016c7e1 100644
--- a/socket.go
+++ b/socket.go
@@ -128,7 +128,7 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 	data := []interface{}{event}
 	p := &Packet{Type: PacketTypeEvent, Namespace: nsp}
 	for i := range args {
-		if t := reflect.TypeOf(args[i]); t.Kind() == reflect.Func {
+		if t := reflect.TypeOf(args[i]); t != nil && t.Kind() == reflect.Func {
 			p.ID = newid(ack.onAck(args[i]))
 		} else {
 			data = append(data, args[i])
-- 
2.43.0


From 793fcd52bd8015275facd7bde3d9113702bd4a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 17/31] fix: send the bytes given to Emit even if the caller
 reuses the slice

---
 engine/socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/socket.go b/engine/socket.go
index 8f1ce44..dbadf42 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -133,7 +133,7 @@ func (s *Socket) Emit(event event, msgType MessageType, args interface{}) (err e
 	}
 	var data []byte
 	if d, ok := args.([]byte); ok {
-		data = d
+		data = append(data, d...) // sent later, while the caller may reuse d
 	} else if s, ok := args.(string); ok {
 		data = []byte(s)
 	} else {
-- 
2.43.0


From df14d14b7198e83e2212252a7f948b9984601881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 18/31] fix: decode event names as JSON strings

---
 parser_default.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 09349ad..09a3ce9 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -297,12 +297,15 @@ func newid(id uint64) *uint64 {
 }
 
 func extractEvent(b []byte) (event string, left []byte, match bool) {
-	if sub := eventExp.FindSubmatch(b); sub != nil {
-		event = string(sub[1])
-		left = eventExp.ReplaceAll(b, []byte{'['})
-		match = true
+	sub := eventExp.FindSubmatchIndex(b)
+	if sub == nil || json.Unmarshal(b[sub[2]:sub[3]], &event) != nil {
+		return "", nil, false
 	}
-	return
+	rest := b[sub[1]:]
+	if last := bytes.HasPrefix(rest, []byte{']'}); last == (sub[4] >= 0) {
+		return "", nil, false // the list must end here if, and only if, no comma follows the name
+	}
+	return event, append([]byte{'['}, rest...), true
 }
 
 func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
@@ -314,7 +317,7 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 }
 
 var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
-var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
+var eventExp = regexp.MustCompile(`^\[\s*("(?:[^"\\]|\\.)+")\s*(?:(,)\s*)?`)
 
 type placeholder struct {
 	num int
-- 
2.43.0


From a23296dc1330f4960319b41c0f91626d42ab6bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 19/31] fix: decode acknowledgements whose first argument is
 binary

---
 parser_default.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_default.go b/parser_default.go
index 09a3ce9..6a89038 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -313,10 +313,15 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 		buffer = make([][]byte, len(m))
 	}
 	left = placeholderExp.ReplaceAllLiteral(b, nil)
+	if m := leadingPlaceholderExp.FindIndex(left); m != nil { // only possible in acknowledgements
+		buffer = append(buffer, nil)
+		left = append([]byte{'['}, left[m[1]:]...)
+	}
 	return
 }
 
 var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
+var leadingPlaceholderExp = regexp.MustCompile(`^\[\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*,?`)
 var eventExp = regexp.MustCompile(`^\[\s*("(?:[^"\\]|\\.)+")\s*(?:(,)\s*)?`)
 
 type placeholder struct {
-- 
2.43.0


From fa78fa3c03059d30b649a9d0577999bcd8e01b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 20/31] fix: acknowledge with exactly the results of the
 handler, if only an empty list

---
 client.go | 12 ++++--------
 server.go | 12 ++++--------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/client.go b/client.go
index 7265f31..29343b9 100644
--- a/client.go
+++ b/client.go
@@ -124,15 +124,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
-			if err = sock.ack(p); err != nil {
+			if err = sock.ack(&Packet{Namespace: p.Namespace, ID: p.ID, Data: d}); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
 				}
diff --git a/server.go b/server.go
index c999025..3ed87c3 100644
--- a/server.go
+++ b/server.go
@@ -161,15 +161,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
-			if err = sock.ack(p); err != nil {
+			if err = sock.ack(&Packet{Namespace: p.Namespace, ID: p.ID, Data: d}); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
 				}
-- 
2.43.0


From 01b02d451a75bf4594ac7e02f0b41130a18e1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 21/31] fix: report acknowledgements whose arguments cannot be
 converted

---
 client.go | 6 +++++-
 server.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 29343b9..f425b3f 100644
--- a/client.go
+++ b/client.go
@@ -143,7 +143,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder); err != nil {
+				if nsp.onError != nil {
+					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+				}
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
diff --git a/server.go b/server.go
index 3ed87c3..267d697 100644
--- a/server.go
+++ b/server.go
@@ -180,7 +180,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder); err != nil {
+				if nsp.onError != nil {
+					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+				}
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
-- 
2.43.0


From acdfd832902a8ab60b88f215d1f1e6f849a55bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 22/31] fix: pair connect and disconnect callbacks and run
 events only in between

---
 client.go | 10 ++++++----
 server.go | 10 ++++++----
 socket.go | 20 +++++++++++++++++---
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index f425b3f..d229b4a 100644
--- a/client.go
+++ b/client.go
@@ -96,16 +96,18 @@ func (c *Client) process(sock *socket, p *Packet) {
 
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
-		if nsp.onConnect != nil {
+		connected := sock.attachnsp(p.Namespace)
+		if connected && nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
-		if nsp.onDisconnect != nil {
+		if sock.detachnsp(p.Namespace) && nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
+		if !sock.attached(p.Namespace) {
+			return
+		}
 		event, data, bin, err := sock.decoder.ParseData(p)
 		if err != nil {
 			if nsp.onError != nil {
diff --git a/server.go b/server.go
index 267d697..245e2f4 100644
--- a/server.go
+++ b/server.go
@@ -125,7 +125,7 @@ func (s *Server) process(sock *socket, p *Packet) {
 	}
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
+		connected := sock.attachnsp(p.Namespace)
 		if err := sock.emitPacket(&Packet{
 			Type:      PacketTypeConnect,
 			Namespace: p.Namespace,
@@ -134,15 +134,17 @@ func (s *Server) process(sock *socket, p *Packet) {
 				nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
 			}
 		}
-		if nsp.onConnect != nil {
+		if connected && nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
-		if nsp.onDisconnect != nil {
+		if sock.detachnsp(p.Namespace) && nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
+		if !sock.attached(p.Namespace) {
+			return
+		}
 		event, data, bin, err := sock.decoder.ParseData(p)
 		if err != nil {
 			if nsp.onError != nil {
diff --git a/socket.go b/socket.go
index 016c7e1..6a0f878 100644
--- a/socket.go
+++ b/socket.go
@@ -64,19 +64,33 @@ func newSocket(ß *engine.Socket, parser Parser) *socket {
 	}
 }
 
-func (s *socket) attachnsp(nsp string) {
+// attachnsp reports whether nsp was not attached before
+func (s *socket) attachnsp(nsp string) bool {
 	s.mutex.Lock()
-	s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
+	_, ok := s.acks[nsp]
+	if !ok {
+		s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
+	}
 	s.mutex.Unlock()
+	return !ok
 }
 
-func (s *socket) detachnsp(nsp string) {
+// detachnsp reports whether nsp was attached before
+func (s *socket) detachnsp(nsp string) bool {
 	s.mutex.Lock()
 	_, ok := s.acks[nsp]
 	if ok {
 		delete(s.acks, nsp)
 	}
 	s.mutex.Unlock()
+	return ok
+}
+
+func (s *socket) attached(nsp string) bool {
+	s.mutex.RLock()
+	_, ok := s.acks[nsp]
+	s.mutex.RUnlock()
+	return ok
 }
 
 type nspStore interface {
-- 
2.43.0


From 24273e171d55594f1dd696f3d2cbb110716eac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 23/31] fix: decode namespaces as they are encoded

---
 parser_default.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 6a89038..f63df73 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -6,10 +6,10 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"net/url"
 	"reflect"
 	"regexp"
 	"strconv"
+	"strings"
 )
 
 type defaultParser struct{}
@@ -240,11 +240,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			}
 		}
 		p.Namespace = string(s[i:j])
-		u, err := url.Parse(p.Namespace)
-		if err != nil {
-			return nil, fmt.Errorf("failed to parse namespace from %q", p.Namespace)
+		if k := strings.IndexByte(p.Namespace, '?'); k >= 0 {
+			p.Namespace = p.Namespace[:k]
 		}
-		p.Namespace = u.Path
 
 		i = j + 1
 		if i >= len(s) {
-- 
2.43.0


From edf48a391ea00dfbf1af597c57faad77afe429a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 24/31] fix: decode msgpack maps whose key is a named string
 type

---
 parser_msgp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index 407d9ca..154881b 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -205,7 +205,7 @@ func msgpReadMap(b []byte, mapType reflect.Type) (v reflect.Value, o []byte, err
 		if err != nil {
 			return
 		}
-		v.SetMapIndex(reflect.ValueOf(string(key)), val.Elem())
+		v.SetMapIndex(reflect.ValueOf(string(key)).Convert(mapType.Key()), val.Elem())
 	}
 	return
 }
-- 
2.43.0


From 6767888d2ba8329ae0532738abb55e9973bb911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 25/31] fix: refuse msgpack data nested so deep that decoding
 it overflows the stack

---
 parser_msgp.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index 154881b..ff38008 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -2,6 +2,7 @@ package socketio
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"reflect"
 	"time"
@@ -9,6 +10,8 @@ import (
 	"github.com/tinylib/msgp/msgp"
 )
 
+var errMsgpTooDeep = errors.New("msgpack data nested too deep")
+
 type msgpackParser struct{}
 type msgpackEncoder struct{}
 type msgpackDecoder struct{ packets chan *Packet }
@@ -31,6 +34,40 @@ func newMsgpackDecoder(size int) *msgpackDecoder {
 	return &msgpackDecoder{packets: make(chan *Packet, size)}
 }
 
+// msgpMaxDepth is how deep maps and lists may be nested, as in encoding/json
+const msgpMaxDepth = 10000
+
+// msgpCheckDepth refuses data nested so deep that decoding it, which is recursive, would exhaust the stack
+func msgpCheckDepth(data []byte) (err error) {
+	left := []uint64{1} // number of objects to come on each level
+	for len(left) > 0 {
+		top := len(left) - 1
+		if left[top] == 0 {
+			left = left[:top]
+			continue
+		}
+		left[top]--
+		var sz uint32
+		switch msgp.NextType(data) {
+		case msgp.ArrayType:
+			sz, data, err = msgp.ReadArrayHeaderBytes(data)
+			left = append(left, uint64(sz))
+		case msgp.MapType:
+			sz, data, err = msgp.ReadMapHeaderBytes(data)
+			left = append(left, 2*uint64(sz))
+		default:
+			data, err = msgp.Skip(data)
+		}
+		if err != nil {
+			return
+		}
+		if len(left) > msgpMaxDepth {
+			return errMsgpTooDeep
+		}
+	}
+	return
+}
+
 func msgpUnmashalArg(i reflect.Value, data []byte) ([]byte, error) {
 	var err error
 	switch t := i.Interface().(type) {
@@ -292,7 +329,9 @@ func (m *msgpackDecoder) Add(msgType MessageType, data []byte) (err error) {
 	case MessageTypeString:
 		err = json.Unmarshal(data, &p)
 	case MessageTypeBinary:
-		_, err = p.UnmarshalMsg(data)
+		if err = msgpCheckDepth(data); err == nil {
+			_, err = p.UnmarshalMsg(data)
+		}
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From c98d4d2607c4592029563811db088d81911c42f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 26/31] verif: scheduling points, compiled in with build tag
 verif only

---
 engine/emitter.go   |  2 ++
 engine/polling.go   |  4 ++++
 engine/server.go    |  3 +++
 engine/socket.go    |  3 +++
 engine/verif_off.go |  6 ++++++
 engine/verif_on.go  | 16 ++++++++++++++++
 handle.go           |  2 ++
 socket.go           |  1 +
 verif_off.go        |  6 ++++++
 verif_on.go         | 16 ++++++++++++++++
 10 files changed, 59 insertions(+)
 create mode 100644 engine/verif_off.go
 create mode 100644 engine/verif_on.go
 create mode 100644 verif_off.go
 create mode 100644 verif_on.go

diff --git a/engine/emitter.go b/engine/emitter.go
index ae51e2b..cd3f033 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -39,6 +39,7 @@ func (e *emitter) submit(p *Packet) error {
 		return errEmitterClosed
 	default:
 	}
+	verifPoint("emitter.submit")
 	select {
 	case <-e.done:
 		return errEmitterClosed
@@ -83,6 +84,7 @@ func (e *emitter) write(p *Packet) {
 		e.so.barrier.Wait()
 		e.mutex.Lock()
 		conn := e.so.conn()
+		verifPoint("emitter.write")
 		conn.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
 		err := conn.WritePacket(p)
 		e.mutex.Unlock()
diff --git a/engine/polling.go b/engine/polling.go
index 4b0e32c..a24c3bf 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -90,6 +90,7 @@ func (p *pollingConn) ReadPacket() (*Packet, error) {
 			}
 		}
 	}
+	verifPoint("polling.read")
 	select {
 	case <-p.closed:
 		return nil, ErrPollingConnClosed
@@ -131,6 +132,7 @@ func (p *pollingConn) ReadPacketOut(ctx context.Context) (*Packet, error) {
 	if p.isClosed() {
 		return nil, ErrPollingConnClosed
 	}
+	verifPoint("polling.poll")
 	select {
 	case <-p.closed:
 		return nil, ErrPollingConnClosed
@@ -163,6 +165,7 @@ func (p *pollingConn) WritePacket(pkt *Packet) error {
 			}
 		}
 	}
+	verifPoint("polling.write")
 	select {
 	case <-p.closed:
 		return ErrPollingConnClosed
@@ -253,6 +256,7 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 		for i := range payload.packets {
+			verifPoint("polling.post")
 			select {
 			case <-p.closed:
 				http.Error(w, "closed", http.StatusNotFound)
diff --git a/engine/server.go b/engine/server.go
index b9ecd40..905ceea 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -156,6 +156,7 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		}
 		ß := s.NewSession(conn, s.pingTimeout+s.pingInterval, s.pingTimeout)
 		ß.transportName = transport.Name()
+		verifPoint("server.open")
 		select {
 		case <-s.done:
 			s.sessionManager.Remove(ß.id)
@@ -210,6 +211,7 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
+	verifPoint("upgrade.pause")
 	ß.barrier.Pause()
 	defer ß.barrier.Resume()
 
@@ -232,6 +234,7 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
+	verifPoint("upgrade.replace")
 	if !ß.replace(newConn, transportName, func() { s.fire(ß, EventUpgrade, p.msgType, p.data) }) {
 		newConn.Close()
 		conn.Resume()
diff --git a/engine/socket.go b/engine/socket.go
index dbadf42..b588b64 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -62,11 +62,13 @@ func (s *Socket) Read() (p *Packet, err error) {
 		if announce != nil {
 			announce()
 		}
+		verifPoint("socket.read")
 		if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err == nil {
 			if p, err = conn.ReadPacket(); err == nil {
 				return
 			}
 		}
+		verifPoint("socket.readfailed")
 		if conn == s.conn() {
 			return
 		}
@@ -90,6 +92,7 @@ func (s *Socket) replace(conn Conn, transportName string, announce func()) bool
 	s.previous = previous
 	s.announce = announce
 	s.Unlock()
+	verifPoint("socket.replaced")
 	for _, packet := range previous.FlushOut() {
 		conn.SetWriteDeadline(time.Now().Add(s.writeTimeout))
 		if err := conn.WritePacket(packet); err != nil {
diff --git a/engine/verif_off.go b/engine/verif_off.go
new file mode 100644
index 0000000..e0b6466
--- /dev/null
+++ b/engine/verif_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package engine
+
+// verifPoint marks a scheduling point for the verification harness; it does nothing unless built with tag verif.
+func verifPoint(string) {}
diff --git a/engine/verif_on.go b/engine/verif_on.go
new file mode 100644
index 0000000..9d2430e
--- /dev/null
+++ b/engine/verif_on.go
@@ -0,0 +1,16 @@
+//go:build verif
+
+package engine
+
+import "sync/atomic"
+
+var verifHook atomic.Value
+
+// VerifSetHook installs fn to be called at the scheduling points of this package; it may only yield or delay.
+func VerifSetHook(fn func(point string)) { verifHook.Store(fn) }
+
+func verifPoint(point string) {
+	if fn, ok := verifHook.Load().(func(string)); ok && fn != nil {
+		fn(point)
+	}
+}
diff --git a/handle.go b/handle.go
index 491bd76..7491212 100644
--- a/handle.go
+++ b/handle.go
@@ -63,6 +63,7 @@ func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte,
 	fn, ok := a.ackmap[id]
 	a.mutex.RUnlock()
 	if ok {
+		verifPoint("ack.fire")
 		a.mutex.Lock()
 		delete(a.ackmap, id)
 		a.mutex.Unlock()
@@ -73,6 +74,7 @@ func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte,
 
 func (a *ackHandle) onAck(callback interface{}) uint64 {
 	id := atomic.AddUint64(&a.id, 1)
+	verifPoint("ack.register")
 	a.mutex.Lock()
 	a.ackmap[id] = newCallback(callback)
 	a.mutex.Unlock()
diff --git a/socket.go b/socket.go
index 6a0f878..e630b52 100644
--- a/socket.go
+++ b/socket.go
@@ -179,6 +179,7 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 		}
 	}
 	for _, d := range bin {
+		verifPoint("socket.attachment")
 		if err = s.ß.Emit(engine.EventMessage, MessageTypeBinary, d); err != nil {
 			return
 		}
diff --git a/verif_off.go b/verif_off.go
new file mode 100644
index 0000000..9a8494e
--- /dev/null
+++ b/verif_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package socketio
+
+// verifPoint marks a scheduling point for the verification harness; it does nothing unless built with tag verif.
+func verifPoint(string) {}
diff --git a/verif_on.go b/verif_on.go
new file mode 100644
index 0000000..dabc0bf
--- /dev/null
+++ b/verif_on.go
@@ -0,0 +1,16 @@
+//go:build verif
+
+package socketio
+
+import "sync/atomic"
+
+var verifHook atomic.Value
+
+// VerifSetHook installs fn to be called at the scheduling points of this package; it may only yield or delay.
+func VerifSetHook(fn func(point string)) { verifHook.Store(fn) }
+
+func verifPoint(point string) {
+	if fn, ok := verifHook.Load().(func(string)); ok && fn != nil {
+		fn(point)
+	}
+}
-- 
2.43.0


From 688cfb43540808fb123577d43774bd7246d9fe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 27/31] fix: read what the peer sent before it closed even if
 writing fails

---
 engine/emitter.go | 16 +++++++++++-----
 engine/socket.go  |  4 +++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index cd3f033..8ef6c69 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"errors"
+	"net"
 	"sync"
 	"time"
 )
@@ -78,7 +79,8 @@ func (e *emitter) flush() {
 }
 
 // write hands p to the connection of the socket. A write interrupted by an upgrade is repeated once that is decided;
-// any other failure is fatal for the connection, since going on would leave a gap in what the peer receives.
+// after one that timed out the connection is closed, since going on would leave a gap in what the peer receives. Where
+// writing fails because the connection has ended, it is left to Read, which first takes what the peer sent before.
 func (e *emitter) write(p *Packet) {
 	for {
 		e.so.barrier.Wait()
@@ -88,13 +90,17 @@ func (e *emitter) write(p *Packet) {
 		conn.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
 		err := conn.WritePacket(p)
 		e.mutex.Unlock()
-		switch err {
-		case ErrPollingConnPaused:
+		if err == ErrPollingConnPaused {
 			continue
-		case nil, ErrInvalidPayload:
-		default:
+		}
+		if isTimeout(err) {
 			conn.Close()
 		}
 		return
 	}
 }
+
+func isTimeout(err error) bool {
+	ne, ok := err.(net.Error)
+	return err == ErrPollingConnWriteTimeout || ok && ne.Timeout()
+}
diff --git a/engine/socket.go b/engine/socket.go
index b588b64..83370d4 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -96,7 +96,9 @@ func (s *Socket) replace(conn Conn, transportName string, announce func()) bool
 	for _, packet := range previous.FlushOut() {
 		conn.SetWriteDeadline(time.Now().Add(s.writeTimeout))
 		if err := conn.WritePacket(packet); err != nil {
-			conn.Close()
+			if isTimeout(err) {
+				conn.Close()
+			}
 			break
 		}
 	}
-- 
2.43.0


From 0491346d435fbc26354fbc8cfd53c39a113e1074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 28/31] fix: refuse requests for a session that its connection
 cannot serve

---
 engine/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index 905ceea..16ef8fa 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -189,7 +189,12 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			s.upgrade(ß, transportName, conn)
 			return
 		}
-		ß.ServeHTTP(w, r)
+		handler, ok := ß.conn().(http.Handler)
+		if !ok {
+			http.Error(w, "invalid transport", http.StatusBadRequest)
+			return
+		}
+		handler.ServeHTTP(w, r)
 	}
 }
 
-- 
2.43.0


From 110e7b856e1caac94c4089599998ed9e57261edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 29/31] fix: refuse attachment counts and ids that do not fit
 instead of wrapping them

---
 parser_default.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index f63df73..e4dc53a 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"regexp"
 	"strconv"
@@ -221,7 +222,7 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			if s[j] == '-' {
 				break
 			}
-			if s[j] < '0' || s[j] > '9' {
+			if s[j] < '0' || s[j] > '9' || p.attachments > math.MaxInt32/10-1 {
 				return nil, ErrUnknownPacket
 			}
 			p.attachments = p.attachments*10 + int(s[j]-'0')
@@ -252,14 +253,15 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 
 	if s[i] >= '0' && s[i] <= '9' { // decode id
 		j := i + 1
-		var id = uint64(s[i] - '0')
 		for ; j < len(s); j++ {
-			if s[j] >= '0' && s[j] <= '9' {
-				id = id*10 + uint64(s[j]-'0')
-			} else {
+			if s[j] < '0' || s[j] > '9' {
 				break
 			}
 		}
+		var id uint64
+		if id, err = strconv.ParseUint(string(s[i:j]), 10, 64); err != nil {
+			return nil, err
+		}
 		p.ID = newid(id)
 		i = j
 		if i >= len(s) {
-- 
2.43.0


From e797b372088641aaeab0296a6e7576ce289c7500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 30/31] fix: refuse msgpack frames that hold no packet type or
 more than a packet

---
 parser_msgp.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index ff38008..6eabfe8 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -324,18 +324,24 @@ func (msgpackDecoder) ParseData(p *Packet) (event string, data []byte, bin [][]b
 }
 
 func (m *msgpackDecoder) Add(msgType MessageType, data []byte) (err error) {
-	var p Packet
+	p := Packet{Type: PacketTypeBinaryAck + 1} // no packet has this type
 	switch msgType {
 	case MessageTypeString:
 		err = json.Unmarshal(data, &p)
 	case MessageTypeBinary:
 		if err = msgpCheckDepth(data); err == nil {
-			_, err = p.UnmarshalMsg(data)
+			data, err = p.UnmarshalMsg(data)
+			if err == nil && len(data) > 0 {
+				err = ErrUnknownPacket
+			}
 		}
 	}
 	if err != nil {
 		return err
 	}
+	if p.Type > PacketTypeBinaryAck {
+		return ErrUnknownPacket
+	}
 	if p.Namespace == "" {
 		p.Namespace = "/"
 	}
-- 
2.43.0


From 7bcfe1772dc6d13f7488baf231d2e92a7942fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:40 +0000
Subject: [PATCH 31/31] fix: refuse binary events whose list begins with an
 attachment instead of a name

---
 parser_default.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_default.go b/parser_default.go
index e4dc53a..d98b05f 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -281,6 +281,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			err = fmt.Errorf("data should be a list of arguments but got %c", s[i])
 			return
 		}
+		if p.Type == PacketTypeBinaryEvent && leadingPlaceholderExp.Match(s[i:]) {
+			return nil, ErrUnknownPacket // the list of an event begins with its name
+		}
 		p.Data = s[i:]
 		p.buffer, p.Data = extractAttachments(s[i:])
 	default:
-- 
2.43.0

