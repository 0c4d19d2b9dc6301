From 9f30b5203348dcf6d0cc26437d6c01f8a089fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 01/44] fix: an unknown peer socket type is incompatible, not a
 panic

The Socket-Type a peer announces reaches IsCompatible unchecked, so a
remote peer could crash the process during the handshake.
---
 go.sum          | 2 ++
 socket_types.go | 2 --
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/go.sum b/go.sum
index e8c51f4..9c3737a 100644
--- a/go.sum
+++ b/go.sum
@@ -1,5 +1,7 @@
 github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc h1:U9qPSI2PIWSS1VwoXQT9A3Wy9MM3WgvqSxFWenqJduM=
 github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc/go.mod h1:J7Y8YcW2NihsgmVo/mv3lAwl/skON4iLHjSsI+c5H38=
+github.com/luxfi/czmq/v4 v4.2.2 h1:D4QDl99OfGoi8Gk3RI8GZ6pqt+040rolj+h36scSj2M=
+github.com/luxfi/czmq/v4 v4.2.2/go.mod h1:WFY9ldUbeU900P8bcIRr7Jim23veOhJL5A5zSpTogdU=
 github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2 h1:Jamvg5psRIccs7FGNTlIRMkT8wgtp5eCXdBlqhYGL6U=
 github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2/go.mod h1:iKH77koFhYxTK1pcRnkKkqfTogsbg7gZNVY4sRDYZ/4=
 github.com/stretchr/testify v1.11.1 h1:7s2iGBzp5EwR7/aIZr8ao5+dra3wiQyKjjFuvgVKu7U=
diff --git a/socket_types.go b/socket_types.go
index d149de2..f755a02 100644
--- a/socket_types.go
+++ b/socket_types.go
@@ -86,8 +86,6 @@ func (sck SocketType) IsCompatible(peer SocketType) bool {
 		if peer == Stream {
 			return true
 		}
-	default:
-		panic("unknown socket-type: \"" + string(sck) + "\"")
 	}
 
 	return false
-- 
2.43.0


From 509968613e327b9f38eb2e7fb45aa7a4ff870658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 02/44] fix: bound-check metadata properties when decoding and
 encoding

Property.Write indexed past the data of a truncated property, so a peer's
READY could panic the process; Property.Read truncated names longer than
255 bytes and panicked when the buffer was too small, which MarshalZMTP hit
for values over 512 bytes.
---
 protocol.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/protocol.go b/protocol.go
index 82262af..f0b28ac 100644
--- a/protocol.go
+++ b/protocol.go
@@ -163,6 +163,9 @@ func (g *greeting) validate(ref [2]uint8) bool {
 const (
 	sysSockType = "Socket-Type"
 	sysSockID   = "Identity"
+
+	maxPropNameLen  = 255       // property names have a 1-octet length
+	maxPropValueLen = 1<<31 - 1 // property values have a 31-bit length
 )
 
 // Metadata is describing a Conn's metadata information.
@@ -186,11 +189,11 @@ func (md Metadata) MarshalZMTP() ([]byte, error) {
 		keys[key] = struct{}{}
 		switch k {
 		case sysSockID, sysSockType:
-			if _, err := io.Copy(buf, Property{K: k, V: v}); err != nil {
+			if err := (Property{K: k, V: v}).appendTo(buf); err != nil {
 				return nil, err
 			}
 		default:
-			if _, err := io.Copy(buf, Property{K: "X-" + key, V: v}); err != nil {
+			if err := (Property{K: "X-" + key, V: v}).appendTo(buf); err != nil {
 				return nil, err
 			}
 		}
@@ -224,15 +227,32 @@ type Property struct {
 	V string
 }
 
+// appendTo appends the on-wire representation of the property to buf.
+func (prop Property) appendTo(buf *bytes.Buffer) error {
+	data := make([]byte, 1+len(toTitle(prop.K))+4+len(prop.V))
+	n, err := prop.Read(data)
+	if err != io.EOF {
+		return err
+	}
+	buf.Write(data[:n])
+	return nil
+}
+
 func (prop Property) Read(data []byte) (n int, err error) {
-	klen := len(prop.K)
+	key := toTitle(prop.K)
+	klen := len(key)
 	vlen := len(prop.V)
 	size := 1 + klen + 4 + vlen
-	_ = data[:size] // help with bound check elision
+	if klen > maxPropNameLen || vlen > maxPropValueLen {
+		return 0, ErrBadProperty
+	}
+	if len(data) < size {
+		return 0, io.ErrShortBuffer
+	}
 
 	data[n] = byte(klen)
 	n++
-	n += copy(data[n:n+klen], toTitle(prop.K))
+	n += copy(data[n:n+klen], key)
 	binary.BigEndian.PutUint32(data[n:n+4], uint32(vlen))
 	n += 4
 	n += copy(data[n:n+vlen], prop.V)
@@ -240,9 +260,12 @@ func (prop Property) Read(data []byte) (n int, err error) {
 }
 
 func (prop *Property) Write(data []byte) (n int, err error) {
+	if len(data) < 1 {
+		return 0, io.ErrUnexpectedEOF
+	}
 	klen := int(data[n])
 	n++
-	if klen > len(data) {
+	if n+klen+4 > len(data) {
 		return n, io.ErrUnexpectedEOF
 	}
 
@@ -256,7 +279,7 @@ func (prop *Property) Write(data []byte) (n int, err error) {
 	}
 
 	vlen := int(v)
-	if n+vlen > len(data) {
+	if vlen > len(data)-n {
 		return n, io.ErrUnexpectedEOF
 	}
 
-- 
2.43.0


From 537930bdeec04d4357a164a9da00dad41bd42b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 03/44] fix: metadata property names are case-insensitive

A peer announcing SOCKET-TYPE was treated as announcing no socket type.
---
 protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol.go b/protocol.go
index f0b28ac..66d4fb1 100644
--- a/protocol.go
+++ b/protocol.go
@@ -212,7 +212,7 @@ func (md *Metadata) UnmarshalZMTP(p []byte) error {
 		}
 		i += n
 
-		name := toTitle(kv.K)
+		name := toTitle(strings.ToLower(kv.K)) // names are case-insensitive
 		(*md)[name] = kv.V
 	}
 	return nil
-- 
2.43.0


From 2867ea26f8ecebef97667472245ae86a9740c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 04/44] fix: announce the server role in the greeting

---
 conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index 0524ae6..f7124cd 100644
--- a/conn.go
+++ b/conn.go
@@ -139,6 +139,10 @@ func (conn *Conn) greet(server bool) error {
 		return errSecMech
 	}
 	copy(send.Mechanism[:], kind)
+	if server && conn.sec.Type() != NullSecurity {
+		// as-server must be zero for mechanisms without client/server roles.
+		send.Server = 1
+	}
 
 	err = send.write(conn.rw)
 	if err != nil {
-- 
2.43.0


From 36964eca4d6a269ff5005d821d322f501263266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 05/44] fix: do not allocate a frame body on the peer's word

---
 conn.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index f7124cd..99712c0 100644
--- a/conn.go
+++ b/conn.go
@@ -431,6 +431,25 @@ func (c *Conn) readStream() Msg {
 	return msg
 }
 
+// readBody reads the size bytes of a frame body. Memory is committed as
+// data arrives and not in proportion to the length a peer merely announced.
+func readBody(r io.Reader, size uint64) ([]byte, error) {
+	const chunk = 1 << 20
+	if size <= chunk {
+		body := make([]byte, size)
+		_, err := io.ReadFull(r, body)
+		return body, err
+	}
+
+	var buf bytes.Buffer
+	buf.Grow(chunk)
+	_, err := io.CopyN(&buf, r, int64(size))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
+}
+
 // read returns the isCommand flag, the body of the message, and optionally an error
 func (c *Conn) read() Msg {
 	// STREAM sockets handle raw TCP data differently
@@ -483,8 +502,8 @@ func (c *Conn) read() Msg {
 			return msg
 		}
 
-		body := make([]byte, size)
-		_, msg.err = io.ReadFull(c.rw, body)
+		var body []byte
+		body, msg.err = readBody(c.rw, size)
 		if msg.err != nil {
 			c.checkIO(msg.err)
 			return msg
-- 
2.43.0


From 5ab0818e9f7a228831bfebc1382778b7192e4372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 06/44] fix: a stream cut inside a frame closes the connection

---
 conn.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 99712c0..2bc075b 100644
--- a/conn.go
+++ b/conn.go
@@ -571,9 +571,11 @@ func (conn *Conn) checkIO(err error) {
 		return
 	}
 
-	if err == io.EOF || errors.Is(err, io.EOF) {
-		conn.SetClosed()
-		return
+	for _, e := range []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe} {
+		if errors.Is(err, e) {
+			conn.SetClosed()
+			return
+		}
 	}
 
 	var e net.Error
-- 
2.43.0


From c79e6dcb4b3f2555924e678a844f6fcd1f87ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 07/44] fix: PLAIN server requires INITIATE as the client's
 second command

---
 security/plain/plain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 6a8d87d..46b5ba7 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -65,6 +65,11 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 			return fmt.Errorf("security/plain: could not receive INITIATE from client: %w", err)
 		}
 
+		if cmd.Name != zmq4.CmdInitiate {
+			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid")) // FIXME(sbinet) correct ERROR reason
+			return fmt.Errorf("security/plain: expected INITIATE command")
+		}
+
 		err = conn.Peer.Meta.UnmarshalZMTP(cmd.Body)
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
-- 
2.43.0


From af5146ddedd58aecee4fd164ed1a491f9fdd2fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 08/44] fix: PLAIN server rejects a malformed HELLO

---
 security/plain/plain.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 46b5ba7..3a2cdd7 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -148,15 +148,18 @@ func (security) Decrypt(w io.Writer, data []byte) (int, error) {
 	return w.Write(data)
 }
 
-// validateHello validates the user/passwd credentials.
+// validateHello validates the form of the user/passwd credentials.
 func validateHello(body []byte) error {
-	//	n := int(body[0])
-	//	user := body[1 : 1+n]
-	//	body = body[1+n:]
-	//	n = int(body[0])
-	//	pass := body[1 : 1+n]
-	//	body = body[1+n:]
-	//	log.Printf("user=%q, pass=%q, body=%q", user, pass, body)
+	// HELLO carries exactly two length-prefixed strings.
+	for range 2 {
+		if len(body) < 1 || len(body)-1 < int(body[0]) {
+			return fmt.Errorf("security/plain: truncated HELLO command")
+		}
+		body = body[1+int(body[0]):]
+	}
+	if len(body) != 0 {
+		return fmt.Errorf("security/plain: malformed HELLO command")
+	}
 	return nil
 }
 
-- 
2.43.0


From 562ab404486b34560eb9f068724d4f7eeb6286c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 09/44] fix: PLAIN client refuses credentials that do not fit
 HELLO

---
 security/plain/plain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 3a2cdd7..c880efe 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -87,6 +87,9 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		}
 
 	case !server:
+		if len(sec.user) > 255 || len(sec.pass) > 255 {
+			return fmt.Errorf("security/plain: user name or password too long")
+		}
 		hello := make([]byte, 0, len(sec.user)+len(sec.pass)+2)
 		hello = append(hello, byte(len(sec.user)))
 		hello = append(hello, sec.user...)
-- 
2.43.0


From 36fbf7fa1324817ee35173336198a1b304f4eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 10/44] fix: PLAIN credentials stay available for later
 connections

---
 security/plain/plain.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index c880efe..25f25fa 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -134,9 +134,6 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
 		}
-
-		sec.user = nil
-		sec.pass = nil
 	}
 	return nil
 }
-- 
2.43.0


From 1bbc17f78cd8d5ea02679087ecf4808fa39f80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 11/44] fix: in-process connections are byte streams

---
 internal/inproc/conn.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/internal/inproc/conn.go b/internal/inproc/conn.go
index 52a1aa0..51f67ae 100644
--- a/internal/inproc/conn.go
+++ b/internal/inproc/conn.go
@@ -24,6 +24,9 @@ type conn struct {
 	localDone  chan struct{}
 	remoteDone <-chan struct{}
 
+	rmu  sync.Mutex
+	rest []byte // received but not yet read
+
 	rdeadline pipeDeadline
 	wdeadline pipeDeadline
 }
@@ -46,6 +49,8 @@ func (c *conn) write(data []byte) (int, error) {
 		return 0, timeoutError{}
 	}
 
+	data = append([]byte(nil), data...) // the caller may reuse its buffer
+
 	var n int
 	select {
 	case c.w <- data:
@@ -69,25 +74,38 @@ func (c *conn) Read(data []byte) (int, error) {
 }
 
 func (c *conn) read(data []byte) (int, error) {
+	c.rmu.Lock()
+	defer c.rmu.Unlock()
+
 	switch {
 	case isClosedChan(c.localDone):
 		return 0, io.ErrClosedPipe
-	case isClosedChan(c.remoteDone):
-		return 0, io.EOF
 	case isClosedChan(c.rdeadline.wait()):
 		return 0, timeoutError{}
+	case len(data) == 0:
+		return 0, nil
 	}
 
-	select {
-	case bw := <-c.r:
-		nr := copy(data, bw)
-		if len(data) < len(bw) {
-			return nr, io.ErrShortBuffer
+	for len(c.rest) == 0 {
+		select {
+		case c.rest = <-c.r:
+		case <-c.localDone:
+			return 0, io.ErrClosedPipe
+		case <-c.remoteDone:
+			// what was written before the remote end closed is still to be read
+			select {
+			case c.rest = <-c.r:
+			default:
+				return 0, io.EOF
+			}
+		case <-c.rdeadline.wait():
+			return 0, timeoutError{}
 		}
-		return nr, nil
-	case <-c.rdeadline.wait():
-		return 0, timeoutError{}
 	}
+
+	n := copy(data, c.rest)
+	c.rest = c.rest[n:]
+	return n, nil
 }
 
 func (c *conn) LocalAddr() net.Addr  { return c.addr }
-- 
2.43.0


From ce1dcf4b0c2bd3b235d5f8557b616097ad94733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 12/44] fix: closing an in-process listener refuses waiting
 dials

---
 internal/inproc/inproc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/inproc/inproc.go b/internal/inproc/inproc.go
index 8b0d6eb..dc3cecc 100644
--- a/internal/inproc/inproc.go
+++ b/internal/inproc/inproc.go
@@ -132,6 +132,7 @@ func (l *Listener) Close() error {
 	}
 	l.closed = true
 	delete(mgr.db, string(l.addr))
+	mgr.cv.Broadcast() // refuse pending dials
 	return err
 }
 
-- 
2.43.0


From 593257e779b5418f73a34174b46fefd330da09a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 13/44] fix: REP splits a request at its first empty delimiter

---
 rep.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rep.go b/rep.go
index d9a1a78..8aa12db 100644
--- a/rep.go
+++ b/rep.go
@@ -196,6 +196,7 @@ func splitReq(envelope Msg) (preamble [][]byte, msg Msg) {
 		if i+1 < len(envelope.Frames) {
 			msg = NewMsgFrom(envelope.Frames[i+1:]...)
 		}
+		break
 	}
 	return
 }
-- 
2.43.0


From fef4ec1a1c9e8582b708b715922ccae8d75309d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 14/44] fix: REQ takes its peers in turn when one fails

---
 req.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/req.go b/req.go
index 2b99aed..a835692 100644
--- a/req.go
+++ b/req.go
@@ -110,11 +110,11 @@ func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	defer r.mu.Unlock()
 	var err error
 	for i := 0; i < len(r.conns); i++ {
-		cur := i + r.nextConn%len(r.conns)
+		cur := (r.nextConn + i) % len(r.conns)
 		conn := r.conns[cur]
 		err = conn.SendMsg(msg)
 		if err == nil {
-			r.nextConn = cur + 1%len(r.conns)
+			r.nextConn = (cur + 1) % len(r.conns)
 			r.state.Set(conn)
 			return nil
 		}
-- 
2.43.0


From c081a26c847ba230201a134015d5d6053e360e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 15/44] fix: a message is written to a connection in one piece

---
 conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conn.go b/conn.go
index 2bc075b..e336c92 100644
--- a/conn.go
+++ b/conn.go
@@ -35,6 +35,8 @@ type Conn struct {
 	mu     sync.RWMutex
 	topics map[string]struct{} // set of subscribed topics
 
+	wmu sync.Mutex // held while a message or command is written
+
 	closed         int32
 	onCloseErrorCB func(c *Conn)
 }
@@ -180,6 +182,8 @@ func (c *Conn) SendCmd(name string, body []byte) error {
 	if err != nil {
 		return err
 	}
+	c.wmu.Lock()
+	defer c.wmu.Unlock()
 	return c.send(true, buf, 0)
 }
 
@@ -189,6 +193,10 @@ func (c *Conn) SendMsg(msg Msg) error {
 		return ErrClosedConn
 	}
 
+	// Frames of concurrently sent messages must not interleave.
+	c.wmu.Lock()
+	defer c.wmu.Unlock()
+
 	// STREAM sockets handle raw TCP data differently
 	if c.typ == Stream {
 		return c.sendStream(msg)
-- 
2.43.0


From 1a63ff922555640ea78be47b6f8cf4e2194aff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 16/44] fix: reconnect dialled connections only, each to its
 own endpoint

---
 conn.go   | 2 ++
 socket.go | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index e336c92..120fbdc 100644
--- a/conn.go
+++ b/conn.go
@@ -37,6 +37,8 @@ type Conn struct {
 
 	wmu sync.Mutex // held while a message or command is written
 
+	ep string // endpoint that was dialled, empty for an accepted connection
+
 	closed         int32
 	onCloseErrorCB func(c *Conn)
 }
diff --git a/socket.go b/socket.go
index 338062c..12058a9 100644
--- a/socket.go
+++ b/socket.go
@@ -330,6 +330,7 @@ connect:
 	if zconn == nil {
 		return fmt.Errorf("zmq4: got a nil ZMTP connection to %q", endpoint)
 	}
+	zconn.ep = endpoint
 
 	if !sck.reaperStarted {
 		sck.reaperCond.L.Lock()
@@ -401,8 +402,9 @@ func (sck *socket) scheduleRmConn(c *Conn) {
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
 
-	if sck.autoReconnect {
-		sck.Dial(sck.ep)
+	if sck.autoReconnect && c.ep != "" {
+		// not from here: the caller may hold locks that Dial needs.
+		go sck.Dial(c.ep)
 	}
 }
 
-- 
2.43.0


From a6feb494fbf90d002b64e3efd82d66c0baddb33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:46 +0000
Subject: [PATCH 17/44] fix: closing a socket ends its handshakes, retries and
 late connections

---
 socket.go | 89 +++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 64 insertions(+), 25 deletions(-)

diff --git a/socket.go b/socket.go
index 12058a9..51e97bc 100644
--- a/socket.go
+++ b/socket.go
@@ -243,15 +243,22 @@ func (sck *socket) Listen(endpoint string) error {
 	}
 
 	sck.mu.Lock()
-	sck.listener = l
+	switch {
+	case sck.isClosed:
+		err = fmt.Errorf("zmq4: socket is closed")
+	case sck.listener != nil:
+		err = fmt.Errorf("zmq4: socket already listening on %q", sck.ep)
+	default:
+		sck.listener = l
+	}
 	sck.mu.Unlock()
+	if err != nil {
+		l.Close()
+		return err
+	}
 
 	go sck.accept()
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
+	sck.startReaper()
 
 	return nil
 }
@@ -271,18 +278,35 @@ func (sck *socket) accept() {
 				continue
 			}
 
-			zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, sck.scheduleRmConn)
-			if err != nil {
-				// FIXME(sbinet): maybe bubble up this error to application code?
-				sck.log.Printf("could not open a ZMTP connection with %q: %+v", sck.ep, err)
-				continue
-			}
-
-			sck.addConn(zconn)
+			// A peer that is slow to shake hands must not keep the others waiting.
+			go func() {
+				zconn, err := sck.open(conn, true)
+				if err != nil {
+					// FIXME(sbinet): maybe bubble up this error to application code?
+					sck.log.Printf("could not open a ZMTP connection with %q: %+v", conn.LocalAddr(), err)
+					return
+				}
+
+				sck.addConn(zconn)
+			}()
 		}
 	}
 }
 
+// open opens a ZMTP connection over conn, and gives up when the socket is closed.
+// It closes conn unless it succeeds.
+func (sck *socket) open(conn net.Conn, server bool) (*Conn, error) {
+	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
+	defer stop()
+
+	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, server, sck.scheduleRmConn)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+	return zconn, nil
+}
+
 // Dial connects a remote endpoint to the Socket.
 func (sck *socket) Dial(endpoint string) error {
 	sck.mu.Lock()
@@ -313,8 +337,11 @@ connect:
 		// retry if retry count is lower than maximum retry count and context has not been canceled
 		if (sck.maxRetries == -1 || retries < sck.maxRetries) && sck.ctx.Err() == nil {
 			retries++
-			time.Sleep(sck.retry)
-			goto connect
+			select {
+			case <-time.After(sck.retry):
+				goto connect
+			case <-sck.ctx.Done():
+			}
 		}
 		return fmt.Errorf("zmq4: could not dial to %q (retry=%v): %w", endpoint, sck.retry, err)
 	}
@@ -323,7 +350,7 @@ connect:
 		return fmt.Errorf("zmq4: got a nil dial-conn to %q", endpoint)
 	}
 
-	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, sck.scheduleRmConn)
+	zconn, err := sck.open(conn, false)
 	if err != nil {
 		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
 	}
@@ -332,17 +359,17 @@ connect:
 	}
 	zconn.ep = endpoint
 
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
-	sck.addConn(zconn)
-	return nil
+	sck.startReaper()
+	return sck.addConn(zconn)
 }
 
-func (sck *socket) addConn(c *Conn) {
+func (sck *socket) addConn(c *Conn) error {
 	sck.mu.Lock()
+	if sck.isClosed {
+		sck.mu.Unlock()
+		c.Close()
+		return fmt.Errorf("zmq4: socket is closed")
+	}
 	sck.conns = append(sck.conns, c)
 	if len(c.Peer.Meta[sysSockID]) == 0 {
 		switch c.typ {
@@ -369,6 +396,7 @@ func (sck *socket) addConn(c *Conn) {
 	for _, topic := range topics {
 		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
 	}
+	return nil
 }
 
 func (sck *socket) rmConn(c *Conn) {
@@ -442,6 +470,17 @@ func (sck *socket) Timeout() time.Duration {
 	return sck.timeout
 }
 
+// startReaper starts the connReaper unless it is running already.
+func (sck *socket) startReaper() {
+	sck.reaperCond.L.Lock()
+	if sck.reaperStarted {
+		sck.reaperCond.L.Unlock()
+		return
+	}
+	sck.reaperStarted = true
+	go sck.connReaper()
+}
+
 func (sck *socket) connReaper() {
 	// We are not locking here sck.reaperCond.L.Lock()
 	// as it should be locked prior starting connReaper as goroutine
-- 
2.43.0


From 1858e941913e8b5b56f1021bfa033c2dc59d86a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:20 +0000
Subject: [PATCH 18/44] fix: sending waits for a peer, keeps its deadline and
 leaves the peer list unlocked

---
 msgio.go  | 47 +++++++++++++++++++++++++++++++++++++++--------
 router.go | 22 +++++++++++++---------
 2 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/msgio.go b/msgio.go
index 41abc20..7bcfa8c 100644
--- a/msgio.go
+++ b/msgio.go
@@ -163,25 +163,45 @@ func (mw *mwriter) rmConn(w *Conn) {
 	}
 	if cur >= 0 {
 		mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)
+		if len(mw.ws) == 0 {
+			mw.sem.disable()
+		}
 	}
 }
 
 func (w *mwriter) write(ctx context.Context, msg Msg) error {
-	w.sem.lock(ctx)
-	grp, _ := errgrp.WithContext(ctx)
+	for {
+		w.sem.lock(ctx)
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+		if ws := w.conns(); len(ws) > 0 {
+			return broadcast(ctx, ws, msg)
+		}
+	}
+}
+
+// conns returns the current connections.
+func (w *mwriter) conns() []*Conn {
 	w.mu.Lock()
-	for i := range w.ws {
-		ww := w.ws[i]
+	defer w.mu.Unlock()
+	return append([]*Conn(nil), w.ws...)
+}
+
+// broadcast sends msg to all the connections ws.
+func broadcast(ctx context.Context, ws []*Conn, msg Msg) error {
+	grp, _ := errgrp.WithContext(ctx)
+	for i := range ws {
+		ww := ws[i]
 		grp.Go(func() error {
 			return ww.SendMsg(msg)
 		})
 	}
-	err := grp.Wait()
-	w.mu.Unlock()
-	return err
+	return grp.Wait()
 }
 
 type semaphore struct {
+	mu    sync.Mutex
 	ready chan struct{}
 }
 
@@ -190,6 +210,8 @@ func newSemaphore() *semaphore {
 }
 
 func (sem *semaphore) enable() {
+	sem.mu.Lock()
+	defer sem.mu.Unlock()
 	select {
 	case _, ok := <-sem.ready:
 		if ok {
@@ -200,10 +222,19 @@ func (sem *semaphore) enable() {
 	}
 }
 
+func (sem *semaphore) disable() {
+	sem.mu.Lock()
+	defer sem.mu.Unlock()
+	sem.ready = make(chan struct{})
+}
+
 func (sem *semaphore) lock(ctx context.Context) {
+	sem.mu.Lock()
+	ready := sem.ready
+	sem.mu.Unlock()
 	select {
 	case <-ctx.Done():
-	case <-sem.ready:
+	case <-ready:
 	}
 }
 
diff --git a/router.go b/router.go
index aebb14a..5928b3f 100644
--- a/router.go
+++ b/router.go
@@ -7,12 +7,13 @@ package zmq4
 import (
 	"bytes"
 	"context"
+	"errors"
 	"net"
 	"sync"
-
-	"golang.org/x/sync/errgroup"
 )
 
+var errNoRoute = errors.New("zmq4: ROUTER message without an identity frame")
+
 // NewRouter returns a new ROUTER ZeroMQ socket.
 // The returned socket value is initially unbound.
 func NewRouter(ctx context.Context, opts ...Option) Socket {
@@ -224,24 +225,27 @@ func (mw *routerMWriter) rmConn(w *Conn) {
 }
 
 func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
+	if len(msg.Frames) == 0 {
+		return errNoRoute
+	}
 	w.sem.lock(ctx)
-	grp, _ := errgroup.WithContext(ctx)
-	w.mu.Lock()
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	id := msg.Frames[0]
 	dmsg := NewMsgFrom(msg.Frames[1:]...)
+	var ws []*Conn
+	w.mu.Lock()
 	for i := range w.ws {
 		ww := w.ws[i]
 		pid := []byte(ww.Peer.Meta[sysSockID])
 		if !bytes.Equal(pid, id) {
 			continue
 		}
-		grp.Go(func() error {
-			return ww.SendMsg(dmsg)
-		})
+		ws = append(ws, ww)
 	}
-	err := grp.Wait()
 	w.mu.Unlock()
-	return err
+	return broadcast(ctx, ws, dmsg)
 }
 
 var (
-- 
2.43.0


From e4b5f3f8c601ba30c76ec01f060468d1cb1502a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 19/44] fix: connection readers end when their socket is closed

---
 msgio.go  | 3 +--
 pub.go    | 6 +++++-
 rep.go    | 6 +++++-
 router.go | 6 +++++-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/msgio.go b/msgio.go
index 7bcfa8c..6cea2a5 100644
--- a/msgio.go
+++ b/msgio.go
@@ -106,8 +106,7 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 		select {
 		case <-ctx.Done():
 			return
-		default:
-			q.c <- msg
+		case q.c <- msg:
 			if msg.err != nil {
 				return
 			}
diff --git a/pub.go b/pub.go
index 7dffb59..4775be7 100644
--- a/pub.go
+++ b/pub.go
@@ -201,7 +201,11 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 			case q.topic(msg):
 				r.subscribe(msg)
 			default:
-				q.c <- msg
+				select {
+				case <-ctx.Done():
+					return
+				case q.c <- msg:
+				}
 			}
 		}
 	}
diff --git a/rep.go b/rep.go
index 8aa12db..bb07b87 100644
--- a/rep.go
+++ b/rep.go
@@ -167,7 +167,11 @@ func (r *repReader) listen(ctx context.Context, conn *Conn) {
 			if msg.err != nil {
 				return
 			}
-			r.msgCh <- repMsg{conn, msg}
+			select {
+			case <-ctx.Done():
+				return
+			case r.msgCh <- repMsg{conn, msg}:
+			}
 		}
 	}
 }
diff --git a/router.go b/router.go
index 5928b3f..15c6858 100644
--- a/router.go
+++ b/router.go
@@ -168,7 +168,11 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 				return
 			}
 			msg.Frames = append([][]byte{id}, msg.Frames...)
-			q.c <- msg
+			select {
+			case <-ctx.Done():
+				return
+			case q.c <- msg:
+			}
 		}
 	}
 }
-- 
2.43.0


From 86d2d425647db0d529c76fe5e7b6f2827ad3790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 20/44] fix: messages sent to a PUB socket do not clog its
 subscription readers

---
 pub.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pub.go b/pub.go
index 4775be7..9d585bb 100644
--- a/pub.go
+++ b/pub.go
@@ -27,7 +27,9 @@ type Topics interface {
 func NewPub(ctx context.Context, opts ...Option) Socket {
 	pub := &pubSocket{sck: newSocket(ctx, Pub, opts...)}
 	pub.sck.w = newPubMWriter(pub.sck.ctx)
-	pub.sck.r = newPubQReader(pub.sck.ctx)
+	r := newPubQReader(pub.sck.ctx)
+	r.discard = true
+	pub.sck.r = r
 	return pub
 }
 
@@ -125,6 +127,8 @@ type pubQReader struct {
 	rs []*Conn
 	c  chan Msg
 
+	discard bool // drop what is not a subscription
+
 	sem *semaphore // ready when a connection is live.
 }
 
@@ -200,6 +204,8 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 			switch {
 			case q.topic(msg):
 				r.subscribe(msg)
+			case q.discard:
+				// nobody receives from a PUB socket.
 			default:
 				select {
 				case <-ctx.Done():
-- 
2.43.0


From b7280b0fe4ec342e85a7b0a65f08c8dbbf12389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 21/44] fix: PUB, XPUB and REP calls fail and their goroutines
 end once closed

---
 pub.go | 16 ++++++++++++++--
 rep.go |  6 ++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pub.go b/pub.go
index 9d585bb..c0b3f2d 100644
--- a/pub.go
+++ b/pub.go
@@ -183,6 +183,7 @@ func (q *pubQReader) read(ctx context.Context, msg *Msg) error {
 	q.sem.lock(ctx)
 	select {
 	case <-ctx.Done():
+		return ctx.Err()
 	case *msg = <-q.c:
 	}
 	return msg.err
@@ -266,9 +267,17 @@ func (mw *pubMWriter) addConn(w *Conn) {
 	mw.subscribers[w] = c
 	go func() {
 		for {
-			msg, ok := <-c
+			var (
+				msg Msg
+				ok  bool
+			)
+			select {
+			case <-mw.ctx.Done():
+				return
+			case msg, ok = <-c:
+			}
 			if !ok {
-				break
+				return
 			}
 			topic := string(msg.Frames[0])
 			if w.subscribed(topic) {
@@ -293,6 +302,9 @@ func (w *pubMWriter) write(ctx context.Context, msg Msg) error {
 	w.mu.RLock()
 	defer w.mu.RUnlock()
 
+	if err := w.ctx.Err(); err != nil {
+		return err
+	}
 	for _, channel := range w.subscribers {
 		select {
 		case <-ctx.Done():
diff --git a/rep.go b/rep.go
index bb07b87..f93e487 100644
--- a/rep.go
+++ b/rep.go
@@ -137,6 +137,9 @@ func (r *repReader) rmConn(conn *Conn) {
 }
 
 func (r *repReader) read(ctx context.Context, msg *Msg) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
@@ -262,6 +265,9 @@ func (r *repWriter) rmConn(conn *Conn) {
 
 func (r *repWriter) write(ctx context.Context, msg Msg) error {
 	conn, preamble := r.state.Get()
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
-- 
2.43.0


From 12e3c7a282f63bff5140fb573efbcfd8f2e7d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:52 +0000
Subject: [PATCH 22/44] fix: publishing a message without frames is an error,
 not a panic

---
 pub.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pub.go b/pub.go
index c0b3f2d..5cd224b 100644
--- a/pub.go
+++ b/pub.go
@@ -6,6 +6,7 @@ package zmq4
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"net"
 	"sync"
@@ -16,6 +17,8 @@ const (
 	DefaultSendHwm = 1000
 )
 
+var errNoTopic = errors.New("zmq4: PUB message without a frame")
+
 // Topics is an interface that wraps the basic Topics method.
 type Topics interface {
 	// Topics returns the sorted list of topics a socket is subscribed to.
@@ -299,6 +302,9 @@ func (mw *pubMWriter) rmConn(w *Conn) {
 }
 
 func (w *pubMWriter) write(ctx context.Context, msg Msg) error {
+	if len(msg.Frames) == 0 {
+		return errNoTopic
+	}
 	w.mu.RLock()
 	defer w.mu.RUnlock()
 
-- 
2.43.0


From c577bde4b1f983661cd3a9ee41102a3f3355660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:52 +0000
Subject: [PATCH 23/44] fix: refuse a negative high-water mark

---
 pub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pub.go b/pub.go
index 5cd224b..26afe44 100644
--- a/pub.go
+++ b/pub.go
@@ -108,7 +108,7 @@ func (pub *pubSocket) SetOption(name string, value interface{}) error {
 	}
 
 	hwm, ok := value.(int)
-	if !ok {
+	if !ok || hwm < 0 {
 		return ErrBadProperty
 	}
 
-- 
2.43.0


From 2bd5e6b743b5bb2d48195debe46934c9a015e0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:40 +0000
Subject: [PATCH 24/44] fix: a SUB socket's subscription changes and replays do
 not overtake each other

---
 socket.go | 21 ++++++++++++++-------
 sub.go    | 10 ++++------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/socket.go b/socket.go
index 51e97bc..a7f6eab 100644
--- a/socket.go
+++ b/socket.go
@@ -42,6 +42,7 @@ type socket struct {
 	sec           Security
 	log           *log.Logger
 	subTopics     func() []string
+	subMu         sync.Mutex // orders changes of the subscriptions and their replay to new connections
 	autoReconnect bool
 	timeout       time.Duration
 
@@ -385,20 +386,26 @@ func (sck *socket) addConn(c *Conn) error {
 	if sck.r != nil {
 		sck.r.addConn(c)
 	}
-	// Get topics to resend while holding the lock
-	var topics []string
-	if sck.subTopics != nil {
-		topics = sck.subTopics()
-	}
 	sck.mu.Unlock()
 
 	// resend subscriptions for topics if there are any (without holding the lock)
-	for _, topic := range topics {
-		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
+	if sck.subTopics != nil {
+		sck.subMu.Lock()
+		for _, topic := range sck.subTopics() {
+			_ = sck.announce([]*Conn{c}, NewMsg(append([]byte{1}, topic...)))
+		}
+		sck.subMu.Unlock()
 	}
 	return nil
 }
 
+// announce sends a subscription message to the connections ws.
+func (sck *socket) announce(ws []*Conn, msg Msg) error {
+	ctx, cancel := context.WithTimeout(sck.ctx, sck.Timeout())
+	defer cancel()
+	return broadcast(ctx, ws, msg)
+}
+
 func (sck *socket) rmConn(c *Conn) {
 	sck.mu.Lock()
 	defer sck.mu.Unlock()
diff --git a/sub.go b/sub.go
index 008d6b1..7d453b1 100644
--- a/sub.go
+++ b/sub.go
@@ -93,6 +93,9 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 		topic []byte
 	)
 
+	sub.sck.subMu.Lock()
+	defer sub.sck.subMu.Unlock()
+
 	switch name {
 	case OptionSubscribe:
 		k := value.(string)
@@ -108,12 +111,7 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 		return ErrBadProperty
 	}
 
-	sub.sck.mu.RLock()
-	if len(sub.sck.conns) > 0 {
-		err = sub.Send(NewMsg(topic))
-	}
-	sub.sck.mu.RUnlock()
-	return err
+	return sub.sck.announce(sub.sck.w.(*mwriter).conns(), NewMsg(topic))
 }
 
 // Topics returns the sorted list of topics a socket is subscribed to.
-- 
2.43.0


From eb03c233c65e7f0723e25bd01a35e583f36061c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:40 +0000
Subject: [PATCH 25/44] fix: closing a socket whose peer has left is no error

---
 socket.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index a7f6eab..f6b7711 100644
--- a/socket.go
+++ b/socket.go
@@ -151,7 +151,8 @@ func (sck *socket) Close() error {
 	var err error
 	for _, conn := range sck.conns {
 		e := conn.Close()
-		if e != nil && err == nil {
+		// its reader closes a connection that failed.
+		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
 			err = e
 		}
 	}
-- 
2.43.0


From 6f0eaa57c8fac80b2dbaa9cd40611adace134083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 26/44] fix: REP refuses to reply when there is no request

---
 rep.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rep.go b/rep.go
index f93e487..38bd6d5 100644
--- a/rep.go
+++ b/rep.go
@@ -268,6 +268,9 @@ func (r *repWriter) write(ctx context.Context, msg Msg) error {
 	if err := ctx.Err(); err != nil {
 		return err
 	}
+	if conn == nil {
+		return fmt.Errorf("zmq4: no request to reply to")
+	}
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
-- 
2.43.0


From a58908ae346de64b56eb77d906082c8f65866872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 27/44] fix: an in-process listener accepts only connections
 that were dialled

---
 internal/inproc/inproc.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/inproc/inproc.go b/internal/inproc/inproc.go
index dc3cecc..c612ff1 100644
--- a/internal/inproc/inproc.go
+++ b/internal/inproc/inproc.go
@@ -48,6 +48,8 @@ type Listener struct {
 type pipe struct {
 	p1 *conn
 	p2 *conn
+
+	dialled bool
 }
 
 func newPipe(addr Addr) *pipe {
@@ -75,7 +77,7 @@ func newPipe(addr Addr) *pipe {
 		rdeadline:  makePipeDeadline(),
 		wdeadline:  makePipeDeadline(),
 	}
-	return &pipe{p1, p2}
+	return &pipe{p1: p1, p2: p2}
 }
 
 func (p *pipe) Close() error {
@@ -139,14 +141,19 @@ func (l *Listener) Close() error {
 // Accept waits for and returns the next connection to the listener.
 func (l *Listener) Accept() (net.Conn, error) {
 	mgr.mu.Lock()
+	defer mgr.mu.Unlock()
+
+	if l.closed {
+		return nil, ErrClosed
+	}
 	p := newPipe(l.addr)
 	l.pipes = append(l.pipes, p)
-	closed := l.closed
 	mgr.cv.Broadcast()
-	mgr.mu.Unlock()
-
-	if closed {
-		return nil, ErrClosed
+	for !p.dialled {
+		if l.closed {
+			return nil, ErrClosed
+		}
+		mgr.cv.Wait()
 	}
 	return p.p1, nil
 }
@@ -167,6 +174,8 @@ func Dial(addr string) (net.Conn, error) {
 		if n := len(l.pipes); n != 0 {
 			p := l.pipes[n-1]
 			l.pipes = l.pipes[:n-1]
+			p.dialled = true
+			mgr.cv.Broadcast()
 			mgr.mu.Unlock()
 			return p.p2, nil
 		}
-- 
2.43.0


From 2bc1c23f0de67b709a9e35ffc44ffe352adad3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:08 +0000
Subject: [PATCH 28/44] fix: REQ keeps its peers' turn when one is removed

---
 req.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/req.go b/req.go
index a835692..bbfd2a7 100644
--- a/req.go
+++ b/req.go
@@ -141,6 +141,9 @@ func (r *reqWriter) rmConn(conn *Conn) {
 	}
 	if cur >= 0 {
 		r.conns = append(r.conns[:cur], r.conns[cur+1:]...)
+		if cur < r.nextConn {
+			r.nextConn-- // still the same peer's turn
+		}
 	}
 
 	r.state.Reset(conn)
-- 
2.43.0


From 295e15f1880b5ceb6493c966849c76ffb92dc813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 29/44] fix: REP does not hold its peer list while a reply is
 being written

A stalled asker kept the list locked, so that a new connection and then Close
waited for it without end.
---
 rep.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/rep.go b/rep.go
index 38bd6d5..ada9bc4 100644
--- a/rep.go
+++ b/rep.go
@@ -296,16 +296,23 @@ func (r *repWriter) run() {
 }
 
 func (r *repWriter) sendPayload(payload repSendPayload) {
+	if !r.has(payload.conn) {
+		return
+	}
+	// not much we can do if it fails. Perhaps log the error?
+	_ = payload.conn.SendMsg(payload.buildReplyMsg())
+}
+
+// has reports whether conn is a current connection.
+func (r *repWriter) has(conn *Conn) bool {
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	for _, conn := range r.conns {
-		if conn == payload.conn {
-			reply := payload.buildReplyMsg()
-			// not much we can do at this point. Perhaps log the error?
-			_ = conn.SendMsg(reply)
-			return
+	for _, c := range r.conns {
+		if c == conn {
+			return true
 		}
 	}
+	return false
 }
 
 func (r *repWriter) Close() error {
-- 
2.43.0


From f9cdc8969a36d17496c51c0f085dedaca6cac362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 30/44] fix: REQ keeps its send deadline and leaves the peer
 list unlocked

A stalled peer kept a request from timing out, and new connections and Close
waiting.
---
 req.go | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/req.go b/req.go
index bbfd2a7..88aa661 100644
--- a/req.go
+++ b/req.go
@@ -106,20 +106,50 @@ func newReqWriter(ctx context.Context, state *reqState) *reqWriter {
 func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	msg.Frames = append([][]byte{nil}, msg.Frames...)
 
+	var (
+		err   error
+		tried = make(map[*Conn]bool)
+	)
+	for {
+		conn := r.next(tried)
+		if conn == nil {
+			return fmt.Errorf("zmq4: no connections available: %w", err)
+		}
+		tried[conn] = true
+		err = broadcast(ctx, []*Conn{conn}, msg)
+		if err == nil {
+			r.asked(conn)
+			return nil
+		}
+		if ctx.Err() != nil {
+			return err
+		}
+	}
+}
+
+// next returns the peer whose turn it is among those not tried yet.
+func (r *reqWriter) next(tried map[*Conn]bool) *Conn {
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	var err error
-	for i := 0; i < len(r.conns); i++ {
+	for i := range r.conns {
 		cur := (r.nextConn + i) % len(r.conns)
-		conn := r.conns[cur]
-		err = conn.SendMsg(msg)
-		if err == nil {
+		if conn := r.conns[cur]; !tried[conn] {
 			r.nextConn = (cur + 1) % len(r.conns)
+			return conn
+		}
+	}
+	return nil
+}
+
+// asked records that conn got the request, unless it has gone since.
+func (r *reqWriter) asked(conn *Conn) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	for _, c := range r.conns {
+		if c == conn {
 			r.state.Set(conn)
-			return nil
 		}
 	}
-	return fmt.Errorf("zmq4: no connections available: %w", err)
 }
 
 func (r *reqWriter) addConn(c *Conn) {
-- 
2.43.0


From 496333ac8ffb362c0da5ccf900b101d9e3e844ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 31/44] fix: a connection whose peer breaks the framing is
 dropped

---
 conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn.go b/conn.go
index 120fbdc..80f56a5 100644
--- a/conn.go
+++ b/conn.go
@@ -509,6 +509,7 @@ func (c *Conn) read() Msg {
 
 		if size > uint64(maxInt64) {
 			msg.err = errOverflow
+			c.SetClosed() // what follows cannot be told apart
 			return msg
 		}
 
@@ -528,6 +529,7 @@ func (c *Conn) read() Msg {
 
 		buf := new(bytes.Buffer)
 		if _, msg.err = c.sec.Decrypt(buf, body); msg.err != nil {
+			c.SetClosed()
 			return msg
 		}
 		msg.Frames = append(msg.Frames, buf.Bytes())
-- 
2.43.0


From 5d9ac8e846e1ba49b719b89dee7a5ee0fb3fe259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 32/44] fix: a failed connection is closed, and not before what
 it received is read

---
 msgio.go  | 1 +
 pub.go    | 3 ++-
 rep.go    | 1 +
 req.go    | 1 +
 router.go | 1 +
 socket.go | 4 ++++
 6 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/msgio.go b/msgio.go
index 6cea2a5..6f0894e 100644
--- a/msgio.go
+++ b/msgio.go
@@ -100,6 +100,7 @@ func (q *qreader) read(ctx context.Context, msg *Msg) error {
 func (q *qreader) listen(ctx context.Context, r *Conn) {
 	defer q.rmConn(r)
 	defer r.Close()
+	defer context.AfterFunc(ctx, func() { r.Close() })()
 
 	for {
 		msg := r.read()
diff --git a/pub.go b/pub.go
index 26afe44..a4f8750 100644
--- a/pub.go
+++ b/pub.go
@@ -195,6 +195,7 @@ func (q *pubQReader) read(ctx context.Context, msg *Msg) error {
 func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 	defer q.rmConn(r)
 	defer r.Close()
+	defer context.AfterFunc(ctx, func() { r.Close() })()
 
 	for {
 		msg := r.read()
@@ -295,7 +296,7 @@ func (mw *pubMWriter) rmConn(w *Conn) {
 	defer mw.mu.Unlock()
 
 	if channel, ok := mw.subscribers[w]; ok {
-		_ = w.Close()
+		// its reader closes it once it has read what had arrived.
 		delete(mw.subscribers, w)
 		close(channel)
 	}
diff --git a/rep.go b/rep.go
index ada9bc4..13bdb99 100644
--- a/rep.go
+++ b/rep.go
@@ -160,6 +160,7 @@ func (r *repReader) read(ctx context.Context, msg *Msg) error {
 func (r *repReader) listen(ctx context.Context, conn *Conn) {
 	defer r.rmConn(conn)
 	defer conn.Close()
+	defer context.AfterFunc(ctx, func() { conn.Close() })()
 
 	for {
 		msg := conn.read()
diff --git a/req.go b/req.go
index 88aa661..fdf6e80 100644
--- a/req.go
+++ b/req.go
@@ -177,6 +177,7 @@ func (r *reqWriter) rmConn(conn *Conn) {
 	}
 
 	r.state.Reset(conn)
+	conn.Close()
 }
 
 func (r *reqWriter) Close() error {
diff --git a/router.go b/router.go
index 15c6858..c516cfd 100644
--- a/router.go
+++ b/router.go
@@ -156,6 +156,7 @@ func (q *routerQReader) read(ctx context.Context, msg *Msg) error {
 func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 	defer q.rmConn(r)
 	defer r.Close()
+	defer context.AfterFunc(ctx, func() { r.Close() })()
 
 	id := []byte(r.Peer.Meta[sysSockID])
 	for {
diff --git a/socket.go b/socket.go
index f6b7711..8d7feeb 100644
--- a/socket.go
+++ b/socket.go
@@ -430,6 +430,10 @@ func (sck *socket) rmConn(c *Conn) {
 	if sck.w != nil {
 		sck.w.rmConn(c)
 	}
+	if sck.r == nil {
+		// no reader will close it.
+		c.Close()
+	}
 }
 
 func (sck *socket) scheduleRmConn(c *Conn) {
-- 
2.43.0


From 077adf983695eecc7c8de1b901c3ab29644eb28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 33/44] fix: a reconnection survives a failed handshake

---
 socket.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/socket.go b/socket.go
index 8d7feeb..272bf38 100644
--- a/socket.go
+++ b/socket.go
@@ -354,7 +354,7 @@ connect:
 
 	zconn, err := sck.open(conn, false)
 	if err != nil {
-		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
+		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", handshakeError{err})
 	}
 	if zconn == nil {
 		return fmt.Errorf("zmq4: got a nil ZMTP connection to %q", endpoint)
@@ -444,10 +444,32 @@ func (sck *socket) scheduleRmConn(c *Conn) {
 
 	if sck.autoReconnect && c.ep != "" {
 		// not from here: the caller may hold locks that Dial needs.
-		go sck.Dial(c.ep)
+		go sck.redial(c.ep)
 	}
 }
 
+// redial re-establishes a lost connection with endpoint. Whoever accepts there
+// may be about to go as well, so a failed handshake is not the end of it.
+func (sck *socket) redial(endpoint string) {
+	for {
+		var bad handshakeError
+		if err := sck.Dial(endpoint); !errors.As(err, &bad) {
+			return
+		}
+		select {
+		case <-time.After(sck.retry):
+		case <-sck.ctx.Done():
+			return
+		}
+	}
+}
+
+// handshakeError is why a ZMTP connection could not be opened.
+type handshakeError struct{ err error }
+
+func (e handshakeError) Error() string { return e.err.Error() }
+func (e handshakeError) Unwrap() error { return e.err }
+
 // Type returns the type of this Socket (PUB, SUB, ...)
 func (sck *socket) Type() SocketType {
 	return sck.typ
-- 
2.43.0


From 8d4149288638cb6d71f2e5e0bb37e6c4056ece20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 34/44] fix: disconnecting from an unknown peer is no panic
 when there are no peers

---
 networking/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/networking/transport.go b/networking/transport.go
index 6dad206..4f18e14 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -206,7 +206,7 @@ func (t *Transport) DisconnectPeer(peerID string) {
 	}
 
 	// Remove from peers list
-	newPeers := make([]string, 0, len(t.peers)-1)
+	newPeers := make([]string, 0, len(t.peers))
 	for _, p := range t.peers {
 		if p != peerID {
 			newPeers = append(newPeers, p)
-- 
2.43.0


From 87cb3bc13c2095efd75e466025e1928085a83b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 35/44] fix: the networking transport can be stopped twice

---
 networking/transport.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 4f18e14..335cfd1 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -36,8 +36,9 @@ type Transport struct {
 	msgReceived atomic.Uint64
 	msgDropped  atomic.Uint64
 
-	stopCh chan struct{}
-	wg     sync.WaitGroup
+	stopCh   chan struct{}
+	stopOnce sync.Once
+	wg       sync.WaitGroup
 }
 
 // Config holds transport configuration
@@ -134,6 +135,10 @@ func (t *Transport) Start() error {
 
 // Stop gracefully shuts down the transport
 func (t *Transport) Stop() {
+	t.stopOnce.Do(t.stop)
+}
+
+func (t *Transport) stop() {
 	close(t.stopCh)
 	t.cancel()
 	t.wg.Wait()
-- 
2.43.0


From 39fd1bfb692a76bc903aab3a0adcc5a20e620207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 36/44] fix: a message that could not be sent is not counted as
 sent

---
 networking/transport.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 335cfd1..1420235 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -230,8 +230,11 @@ func (t *Transport) Broadcast(msg *Message) error {
 		return fmt.Errorf("failed to marshal message: %w", err)
 	}
 
+	if err := t.pub.Send(zmq4.NewMsg(data)); err != nil {
+		return err
+	}
 	t.msgSent.Add(1)
-	return t.pub.Send(zmq4.NewMsg(data))
+	return nil
 }
 
 // Send sends a direct message to a specific peer
@@ -253,8 +256,11 @@ func (t *Transport) Send(peerID string, msg *Message) error {
 		return fmt.Errorf("failed to marshal message: %w", err)
 	}
 
+	if err := dealer.Send(zmq4.NewMsg(data)); err != nil {
+		return err
+	}
 	t.msgSent.Add(1)
-	return dealer.Send(zmq4.NewMsg(data))
+	return nil
 }
 
 // SendWithRetry sends a message with retry logic
-- 
2.43.0


From 364fd48e5f5d8d3e22543fc258665b28e66e2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 37/44] fix: a disconnected peer's broadcasts are no longer
 received, nor twice once it is back

---
 networking/transport.go | 55 +++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 1420235..7ae96fc 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -22,8 +22,8 @@ type Transport struct {
 	ctx     context.Context
 	cancel  context.CancelFunc
 	pub     zmq4.Socket
-	sub     zmq4.Socket
 	router  zmq4.Socket
+	subs    map[string]context.CancelFunc
 	dealers map[string]zmq4.Socket
 	config  Config
 
@@ -101,6 +101,7 @@ func New(ctx context.Context, config Config) *Transport {
 		cancel:   cancel,
 		config:   config,
 		handlers: make(map[string]MessageHandler),
+		subs:     make(map[string]context.CancelFunc),
 		dealers:  make(map[string]zmq4.Socket),
 		stopCh:   make(chan struct{}),
 	}
@@ -115,10 +116,6 @@ func (t *Transport) Start() error {
 		return fmt.Errorf("failed to bind pub socket on %s: %w", pubAddr, err)
 	}
 
-	// SUB socket for receiving broadcasts
-	t.sub = zmq4.NewSub(t.ctx)
-	t.sub.SetOption(zmq4.OptionSubscribe, "")
-
 	// ROUTER socket for direct messages
 	t.router = zmq4.NewRouter(t.ctx)
 	routerAddr := fmt.Sprintf("tcp://%s:%d", t.config.BindAddress, t.config.BasePort+1000)
@@ -126,8 +123,7 @@ func (t *Transport) Start() error {
 		return fmt.Errorf("failed to bind router socket on %s: %w", routerAddr, err)
 	}
 
-	t.wg.Add(2)
-	go t.subLoop()
+	t.wg.Add(1)
 	go t.routerLoop()
 
 	return nil
@@ -141,15 +137,15 @@ func (t *Transport) Stop() {
 func (t *Transport) stop() {
 	close(t.stopCh)
 	t.cancel()
+	// Once the lock is taken, no peer is being connected: none will be later.
+	t.mu.Lock()
+	t.mu.Unlock()
 	t.wg.Wait()
 
 	// Close sockets
 	if t.pub != nil {
 		t.pub.Close()
 	}
-	if t.sub != nil {
-		t.sub.Close()
-	}
 	if t.router != nil {
 		t.router.Close()
 	}
@@ -179,9 +175,15 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 		}
 	}
 
-	// Subscribe to peer's broadcasts
+	// Subscribe to peer's broadcasts, on a socket that goes with the peer
+	subCtx, cancel := context.WithCancel(t.ctx)
+	sub := zmq4.NewSub(subCtx)
+	sub.SetOption(zmq4.OptionSubscribe, "")
+
 	subAddr := fmt.Sprintf("tcp://%s:%d", address, port)
-	if err := t.sub.Dial(subAddr); err != nil {
+	if err := sub.Dial(subAddr); err != nil {
+		cancel()
+		sub.Close()
 		return fmt.Errorf("failed to connect sub to %s at %s: %w", peerID, subAddr, err)
 	}
 
@@ -190,9 +192,23 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 
 	routerAddr := fmt.Sprintf("tcp://%s:%d", address, port+1000)
 	if err := dealer.Dial(routerAddr); err != nil {
+		dealer.Close()
+		cancel()
+		sub.Close()
 		return fmt.Errorf("failed to connect dealer to %s at %s: %w", peerID, routerAddr, err)
 	}
 
+	if err := t.ctx.Err(); err != nil {
+		dealer.Close()
+		cancel()
+		sub.Close()
+		return fmt.Errorf("failed to connect to %s: %w", peerID, err)
+	}
+
+	t.wg.Add(1)
+	go t.subLoop(subCtx, sub)
+
+	t.subs[peerID] = cancel
 	t.dealers[peerID] = dealer
 	t.peers = append(t.peers, peerID)
 
@@ -204,6 +220,12 @@ func (t *Transport) DisconnectPeer(peerID string) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
+	// Stop listening to the peer's broadcasts
+	if cancel, ok := t.subs[peerID]; ok {
+		cancel()
+		delete(t.subs, peerID)
+	}
+
 	// Close and remove dealer
 	if dealer, ok := t.dealers[peerID]; ok {
 		dealer.Close()
@@ -332,18 +354,19 @@ func (t *Transport) GetMetrics() (sent, received, dropped uint64) {
 	return t.msgSent.Load(), t.msgReceived.Load(), t.msgDropped.Load()
 }
 
-// subLoop processes broadcast messages
-func (t *Transport) subLoop() {
+// subLoop processes the broadcast messages of a peer until ctx is done
+func (t *Transport) subLoop(ctx context.Context, sub zmq4.Socket) {
 	defer t.wg.Done()
+	defer sub.Close()
 
 	for {
 		select {
 		case <-t.stopCh:
 			return
-		case <-t.ctx.Done():
+		case <-ctx.Done():
 			return
 		default:
-			msg, err := t.sub.Recv()
+			msg, err := sub.Recv()
 			if err != nil {
 				if err == context.Canceled || err == context.DeadlineExceeded {
 					return
-- 
2.43.0


From 8c93e57c404944fe18743b37ca45651ff5e4a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 38/44] fix: closing a socket removes the ipc file it listens
 on, and no other

---
 socket.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/socket.go b/socket.go
index 272bf38..1d7c9d0 100644
--- a/socket.go
+++ b/socket.go
@@ -34,7 +34,7 @@ type socketMonitor struct{}
 
 // socket implements the ZeroMQ socket interface
 type socket struct {
-	ep            string // socket end-point
+	ep            string // end-point the socket listens on
 	typ           SocketType
 	id            SocketIdentity
 	retry         time.Duration
@@ -227,7 +227,6 @@ func (sck *socket) Listen(endpoint string) error {
 		sck.mu.Unlock()
 		return fmt.Errorf("zmq4: socket already listening on %q", sck.ep)
 	}
-	sck.ep = endpoint
 	sck.mu.Unlock()
 	network, addr, err := splitAddr(endpoint)
 	if err != nil {
@@ -252,6 +251,7 @@ func (sck *socket) Listen(endpoint string) error {
 		err = fmt.Errorf("zmq4: socket already listening on %q", sck.ep)
 	default:
 		sck.listener = l
+		sck.ep = endpoint
 	}
 	sck.mu.Unlock()
 	if err != nil {
@@ -316,7 +316,6 @@ func (sck *socket) Dial(endpoint string) error {
 		sck.mu.Unlock()
 		return fmt.Errorf("zmq4: socket is closed")
 	}
-	sck.ep = endpoint
 	sck.mu.Unlock()
 
 	network, addr, err := splitAddr(endpoint)
-- 
2.43.0


From 202b75eab5368dafdaa529bfdb11513cac8ee33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 39/44] fix: a subscription that is no string is an error, not
 a panic

---
 sub.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sub.go b/sub.go
index 7d453b1..d88b8eb 100644
--- a/sub.go
+++ b/sub.go
@@ -93,17 +93,20 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 		topic []byte
 	)
 
+	k, ok := value.(string)
+	if !ok {
+		return ErrBadProperty
+	}
+
 	sub.sck.subMu.Lock()
 	defer sub.sck.subMu.Unlock()
 
 	switch name {
 	case OptionSubscribe:
-		k := value.(string)
 		sub.subscribe(k, 1)
 		topic = append([]byte{1}, k...)
 
 	case OptionUnsubscribe:
-		k := value.(string)
 		topic = append([]byte{0}, k...)
 		sub.subscribe(k, 0)
 
-- 
2.43.0


From 04554e97b521630f65becafb199db8fc8d10d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 40/44] fix: options can be set and read concurrently

---
 socket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/socket.go b/socket.go
index 1d7c9d0..99bd8dd 100644
--- a/socket.go
+++ b/socket.go
@@ -485,7 +485,9 @@ func (sck *socket) Addr() net.Addr {
 
 // GetOption is used to retrieve an option for a socket.
 func (sck *socket) GetOption(name string) (interface{}, error) {
+	sck.mu.RLock()
 	v, ok := sck.props[name]
+	sck.mu.RUnlock()
 	if !ok {
 		return nil, ErrBadProperty
 	}
@@ -495,7 +497,9 @@ func (sck *socket) GetOption(name string) (interface{}, error) {
 // SetOption is used to set an option for a socket.
 func (sck *socket) SetOption(name string, value interface{}) error {
 	// FIXME(sbinet) different socket types support different options.
+	sck.mu.Lock()
 	sck.props[name] = value
+	sck.mu.Unlock()
 	return nil
 }
 
-- 
2.43.0


From fea51f66cf302726dcf36681f51db2970346c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 41/44] fix: Addr reads the listener under the lock that Listen
 sets it under

---
 socket.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socket.go b/socket.go
index 99bd8dd..cc5a816 100644
--- a/socket.go
+++ b/socket.go
@@ -477,6 +477,8 @@ func (sck *socket) Type() SocketType {
 // Addr returns the listener's address.
 // Addr returns nil if the socket isn't a listener.
 func (sck *socket) Addr() net.Addr {
+	sck.mu.RLock()
+	defer sck.mu.RUnlock()
 	if sck.listener == nil {
 		return nil
 	}
-- 
2.43.0


From eb95fa49d46668cd4eb07cff36b3d8382230889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 42/44] fix: messages a ROUTER received from one peer shared
 their id frame

---
 router.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index c516cfd..1cd0fb2 100644
--- a/router.go
+++ b/router.go
@@ -158,7 +158,6 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 	defer r.Close()
 	defer context.AfterFunc(ctx, func() { r.Close() })()
 
-	id := []byte(r.Peer.Meta[sysSockID])
 	for {
 		msg := r.read()
 		select {
@@ -168,6 +167,9 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 			if msg.err != nil {
 				return
 			}
+			// every message gets an id frame of its own: the application may
+			// modify the messages it received.
+			id := []byte(r.Peer.Meta[sysSockID])
 			msg.Frames = append([][]byte{id}, msg.Frames...)
 			select {
 			case <-ctx.Done():
-- 
2.43.0


From 6d1f92039da8d6221e4db77149096b3b9a8fdd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 43/44] fix: PUB and SUB kept an option value they had refused

---
 pub.go | 10 +++++-----
 sub.go | 17 +++++++++--------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/pub.go b/pub.go
index a4f8750..f973b75 100644
--- a/pub.go
+++ b/pub.go
@@ -98,11 +98,6 @@ func (pub *pubSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (pub *pubSocket) SetOption(name string, value interface{}) error {
-	err := pub.sck.SetOption(name, value)
-	if err != nil {
-		return err
-	}
-
 	if name != OptionHWM {
 		return ErrBadProperty
 	}
@@ -112,6 +107,11 @@ func (pub *pubSocket) SetOption(name string, value interface{}) error {
 		return ErrBadProperty
 	}
 
+	err := pub.sck.SetOption(name, value)
+	if err != nil {
+		return err
+	}
+
 	w := pub.sck.w.(*pubMWriter)
 	w.hwm.Store(int64(hwm))
 	return nil
diff --git a/sub.go b/sub.go
index d88b8eb..186fe4a 100644
--- a/sub.go
+++ b/sub.go
@@ -84,6 +84,15 @@ func (sub *subSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (sub *subSocket) SetOption(name string, value interface{}) error {
+	if name != OptionSubscribe && name != OptionUnsubscribe {
+		return ErrBadProperty
+	}
+
+	k, ok := value.(string)
+	if !ok {
+		return ErrBadProperty
+	}
+
 	err := sub.sck.SetOption(name, value)
 	if err != nil {
 		return err
@@ -93,11 +102,6 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 		topic []byte
 	)
 
-	k, ok := value.(string)
-	if !ok {
-		return ErrBadProperty
-	}
-
 	sub.sck.subMu.Lock()
 	defer sub.sck.subMu.Unlock()
 
@@ -109,9 +113,6 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 	case OptionUnsubscribe:
 		topic = append([]byte{0}, k...)
 		sub.subscribe(k, 0)
-
-	default:
-		return ErrBadProperty
 	}
 
 	return sub.sck.announce(sub.sck.w.(*mwriter).conns(), NewMsg(topic))
-- 
2.43.0


From 7c9ee367d32be314a0800640e6161df59425b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 44/44] fix: cloning a message lost its type

---
 msg.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msg.go b/msg.go
index a908b95..3cbef94 100644
--- a/msg.go
+++ b/msg.go
@@ -84,7 +84,8 @@ func (msg Msg) String() string {
 }
 
 func (msg Msg) Clone() Msg {
-	o := Msg{Frames: make([][]byte, len(msg.Frames))}
+	o := msg
+	o.Frames = make([][]byte, len(msg.Frames))
 	for i, frame := range msg.Frames {
 		o.Frames[i] = make([]byte, len(frame))
 		copy(o.Frames[i], frame)
-- 
2.43.0

