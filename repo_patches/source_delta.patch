From 8b3e77b3dc7aa422dd06e1cd23b6d7fe8ea34598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 01/27] fix: draw AEAD nonces from crypto/rand

Nonces for AES-GCM came from math/rand's global source. An application that
seeds that source makes nonces predictable and repeats them under one key.
---
 aead.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aead.go b/aead.go
index a9699c4..45f9ac4 100644
--- a/aead.go
+++ b/aead.go
@@ -2,8 +2,8 @@ package noise
 
 import (
 	"crypto/cipher"
+	"crypto/rand"
 	"io"
-	"math/rand"
 )
 
 func extendFront(buf []byte, n int) []byte {
-- 
2.43.0


From d6fc61eaae47a5b04ffbcbf3e2aac876f3090f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 02/27] fix: do not deadlock when a full connection pool evicts
 a client

The pool waited for the evicted client to shut down while holding the pool's
lock, which that client needs to remove itself. The late removal could also
drop the entry of a newer client under the same address.
---
 client.go |  4 ++--
 map.go    | 21 ++++++++++++++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index 85f9b9c..56c1e32 100644
--- a/client.go
+++ b/client.go
@@ -210,7 +210,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	c.side = clientSideInbound
 
 	defer func() {
-		c.node.outbound.remove(addr)
+		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
@@ -251,7 +251,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	c.side = clientSideOutbound
 
 	defer func() {
-		c.node.inbound.remove(addr)
+		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
diff --git a/map.go b/map.go
index 58c9c12..12fa992 100644
--- a/map.go
+++ b/map.go
@@ -29,6 +29,18 @@ func newClientMap(cap uint) *clientMap {
 }
 
 func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
+	client, evicted, exists := c.getOrCreate(n, addr)
+
+	// An evicted client removes itself from this map while it shuts down, so it must not be closed under the lock.
+
+	if evicted != nil {
+		evicted.close()
+	}
+
+	return client, exists
+}
+
+func (c *clientMap) getOrCreate(n *Node, addr string) (client *Client, evictedClient *Client, exists bool) {
 	c.Lock()
 	defer c.Unlock()
 
@@ -41,8 +53,7 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 			e := c.entries[evicted]
 			delete(c.entries, evicted)
 
-			e.client.close()
-			e.client.waitUntilClosed()
+			evictedClient = e.client
 		}
 
 		entry.el = c.order.PushFront(addr)
@@ -53,15 +64,15 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 		c.order.MoveToFront(entry.el)
 	}
 
-	return entry.client, exists
+	return entry.client, evictedClient, exists
 }
 
-func (c *clientMap) remove(addr string) {
+func (c *clientMap) remove(addr string, client *Client) {
 	c.Lock()
 	defer c.Unlock()
 
 	entry, exists := c.entries[addr]
-	if !exists {
+	if !exists || entry.client != client {
 		return
 	}
 
-- 
2.43.0


From 50612bf1831e8d174561718c657b32080ca6396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 03/27] fix: fail pending requests when the connection drops

Nothing ever closed the pending requests of a client, so a Request whose
connection dropped blocked until its context expired, possibly for ever.
---
 client.go | 2 ++
 map.go    | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/client.go b/client.go
index 56c1e32..fa46023 100644
--- a/client.go
+++ b/client.go
@@ -210,6 +210,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	c.side = clientSideInbound
 
 	defer func() {
+		c.requests.close()
 		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
 	}()
@@ -251,6 +252,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	c.side = clientSideOutbound
 
 	defer func() {
+		c.requests.close()
 		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
 	}()
diff --git a/map.go b/map.go
index 12fa992..8ec5748 100644
--- a/map.go
+++ b/map.go
@@ -3,6 +3,7 @@ package noise
 import (
 	"container/list"
 	"errors"
+	"io"
 	"math"
 	"sync"
 )
@@ -111,6 +112,7 @@ type requestMap struct {
 	sync.Mutex
 	entries map[uint64]chan message
 	nonce   uint64
+	closed  bool
 }
 
 func newRequestMap() *requestMap {
@@ -121,6 +123,10 @@ func (r *requestMap) nextNonce() (<-chan message, uint64, error) {
 	r.Lock()
 	defer r.Unlock()
 
+	if r.closed {
+		return nil, 0, io.EOF
+	}
+
 	if r.nonce == math.MaxUint64 {
 		r.nonce = 0
 	}
@@ -162,6 +168,8 @@ func (r *requestMap) close() {
 	r.Lock()
 	defer r.Unlock()
 
+	r.closed = true
+
 	for nonce := range r.entries {
 		close(r.entries[nonce])
 		delete(r.entries, nonce)
-- 
2.43.0


From 809508b36f4f5179b3bc5fec93a15324a7aa0d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 04/27] fix: report an error when sending on a closed
 connection

Send is documented to return an error if the connection is closed, but the
message was queued behind a writer that had stopped and silently lost.
---
 client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index fa46023..0a0b1f2 100644
--- a/client.go
+++ b/client.go
@@ -341,9 +341,14 @@ func (c *Client) write(data []byte) error {
 
 func (c *Client) send(nonce uint64, data []byte) error {
 	c.writerCond.L.Lock()
+	defer c.writerCond.L.Unlock()
+
+	if c.writerClosed {
+		return io.ErrClosedPipe
+	}
+
 	c.writerBuf = append(c.writerBuf, message{nonce: nonce, data: data})
 	c.writerCond.Signal()
-	c.writerCond.L.Unlock()
 
 	return nil
 }
-- 
2.43.0


From fd6d6d991a61182bc291993ae4b37d57b240cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 05/27] fix: do not panic on received frames when the message
 size limit is disabled

With the limit set to zero the receive buffer held only the 4 byte header, so
the first frame crashed the process; a limit close to the maximum overflowed.
---
 client.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 0a0b1f2..d94f2a1 100644
--- a/client.go
+++ b/client.go
@@ -91,7 +91,7 @@ func newClient(node *Node) *Client {
 
 		requests: newRequestMap(),
 
-		readerBuf: make([]byte, 4+node.maxRecvMessageSize),
+		readerBuf: make([]byte, 4+int(node.maxRecvMessageSize)),
 
 		ready:      make(chan struct{}),
 		readerDone: make(chan struct{}),
@@ -298,15 +298,21 @@ func (c *Client) read() ([]byte, error) {
 		return nil, fmt.Errorf("got %d bytes, but limit is set to %d: %w", size, c.node.maxRecvMessageSize, ErrMessageTooLarge)
 	}
 
-	if _, err := io.ReadFull(c.reader, c.readerBuf[4:size+4]); err != nil {
+	end := 4 + int(size)
+
+	if end > len(c.readerBuf) { // Only possible if there is no limit.
+		c.readerBuf = append(c.readerBuf, make([]byte, end-len(c.readerBuf))...)
+	}
+
+	if _, err := io.ReadFull(c.reader, c.readerBuf[4:end]); err != nil {
 		return nil, err
 	}
 
 	if c.suite == nil {
-		return c.readerBuf[4 : size+4], nil
+		return c.readerBuf[4:end], nil
 	}
 
-	buf, err := decryptAEAD(c.suite, c.readerBuf[4:size+4])
+	buf, err := decryptAEAD(c.suite, c.readerBuf[4:end])
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1c1ec2ee9e1e0cd84ff37c4b0588d66b05463e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 06/27] fix: keep workers alive after a handler returns an
 error

A handler error is documented to close the connection, but it also ended the
worker for good; as many errors as workers stopped the node from serving.
---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 634410e..64f6d65 100644
--- a/node.go
+++ b/node.go
@@ -189,7 +189,7 @@ func (n *Node) Listen() error {
 						ctx.client.reportError(err)
 						ctx.client.close()
 
-						return
+						break
 					}
 				}
 			}
-- 
2.43.0


From e57bdc1a39420a18c279f8ff05005d3939f4f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 07/27] fix: stop an outbound connection whose handshake failed

Only the inbound side stopped after a failed handshake. The dialing side went
on to read, so an unauthenticated peer could send plaintext frames straight to
the handlers, and was reported as disconnected without ever being connected.
---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index d94f2a1..812b942 100644
--- a/client.go
+++ b/client.go
@@ -232,6 +232,13 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 
 	c.handshake()
 
+	if c.Error() != nil {
+		c.close()
+		close(c.writerDone)
+		close(c.readerDone)
+		return
+	}
+
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
-- 
2.43.0


From 532964f25de046cef1c97460aef8b4ad25414471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 08/27] fix: close the connection of a client closed before it
 was established

Closing a client whose connection was still being dialed or accepted had no
effect on that connection: it was established afterwards and never closed, and
waiting for the client to be closed blocked until the peer hung up.
---
 client.go | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index 812b942..3e9b043 100644
--- a/client.go
+++ b/client.go
@@ -76,6 +76,7 @@ type Client struct {
 	readerDone chan struct{}
 	writerDone chan struct{}
 	clientDone chan struct{}
+	closing    chan struct{}
 
 	err struct {
 		sync.Mutex
@@ -98,6 +99,7 @@ func newClient(node *Node) *Client {
 		writerDone: make(chan struct{}),
 
 		clientDone: make(chan struct{}),
+		closing:    make(chan struct{}),
 	}
 
 	c.writerCond.L = &sync.Mutex{}
@@ -188,15 +190,35 @@ func (c *Client) close() {
 	c.closeOnce.Do(func() {
 		c.writerCond.L.Lock()
 		c.writerClosed = true
+		conn := c.conn
 		c.writerCond.Signal()
 		c.writerCond.L.Unlock()
 
-		if c.conn != nil {
-			c.conn.Close()
+		close(c.closing)
+
+		if conn != nil {
+			conn.Close()
 		}
 	})
 }
 
+// attach hands conn over to this client. It returns false and closes conn should this client already be closed.
+func (c *Client) attach(conn net.Conn) bool {
+	c.writerCond.L.Lock()
+	defer c.writerCond.L.Unlock()
+
+	if c.writerClosed {
+		conn.Close()
+		return false
+	}
+
+	c.reader = bufio.NewReader(conn)
+	c.writer = bufio.NewWriter(conn)
+	c.conn = conn
+
+	return true
+}
+
 func (c *Client) waitUntilReady() {
 	<-c.ready
 }
@@ -215,9 +237,13 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 		close(c.clientDone)
 	}()
 
-	var dialer net.Dialer
+	dialer := net.Dialer{Cancel: c.closing}
 
 	conn, err := dialer.DialContext(ctx, "tcp", addr)
+	if err == nil && !c.attach(conn) {
+		err = io.ErrClosedPipe
+	}
+
 	if err != nil {
 		c.reportError(err)
 		close(c.ready)
@@ -226,10 +252,6 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 		return
 	}
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
-
 	c.handshake()
 
 	if c.Error() != nil {
@@ -264,9 +286,11 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 		close(c.clientDone)
 	}()
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
+	if !c.attach(conn) {
+		c.reportError(io.ErrClosedPipe)
+		close(c.ready)
+		return
+	}
 
 	c.handshake()
 
-- 
2.43.0


From af53e36023057f5509e390af59da322d958cb117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 09/27] fix: do not hang when closing a node that is not, or
 only just, listening

Close waited for a listener that was never started (Listen not called, or
failed), and missed a listener whose goroutine had not been scheduled yet.
---
 node.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 64f6d65..6cf7611 100644
--- a/node.go
+++ b/node.go
@@ -43,6 +43,7 @@ type Node struct {
 
 	listener  net.Listener
 	listening atomic.Bool
+	started   atomic.Bool
 
 	outbound *clientMap
 	inbound  *clientMap
@@ -196,9 +197,10 @@ func (n *Node) Listen() error {
 		}()
 	}
 
-	go func() {
-		n.listening.Store(true)
+	n.started.Store(true)
+	n.listening.Store(true)
 
+	go func() {
 		defer func() {
 			n.inbound.release()
 
@@ -382,6 +384,10 @@ func (n *Node) Close() error {
 		}
 	}
 
+	if !n.started.Load() {
+		return nil
+	}
+
 	<-n.listenerDone
 
 	return nil
-- 
2.43.0


From 943ac33e4cbb2605bfcfa93ceed6798e881ffff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 10/27] fix: close outbound connections when a node is closed

Close is documented to stop all live inbound and outbound connections, but
left the outbound ones open until the remote side hung up.
---
 node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node.go b/node.go
index 6cf7611..ae1016a 100644
--- a/node.go
+++ b/node.go
@@ -203,6 +203,7 @@ func (n *Node) Listen() error {
 	go func() {
 		defer func() {
 			n.inbound.release()
+			n.outbound.release()
 
 			close(n.work)
 			n.workers.Wait()
@@ -385,6 +386,7 @@ func (n *Node) Close() error {
 	}
 
 	if !n.started.Load() {
+		n.outbound.release()
 		return nil
 	}
 
-- 
2.43.0


From 8a0572df17386ab415deb15b4bac65e08a7c7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 11/27] fix: never send on a closed work queue, nor block for
 ever on one

A message arriving on an outbound connection while or after the node was
closed crashed the process (send on closed channel). On a node that was not
listening, or whose workers were all busy, the reader blocked on the queue even
after its client was closed.
---
 client.go |  8 +++++++-
 node.go   | 38 +++++++++++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index 3e9b043..4bb87ab 100644
--- a/client.go
+++ b/client.go
@@ -589,7 +589,13 @@ func (c *Client) recvLoop() {
 			continue
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg}
+		select {
+		case c.node.work <- HandlerContext{client: c, msg: msg}:
+		case <-c.closing:
+			continue
+		case <-c.node.done:
+			continue
+		}
 
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
diff --git a/node.go b/node.go
index ae1016a..0c65b35 100644
--- a/node.go
+++ b/node.go
@@ -54,6 +54,7 @@ type Node struct {
 
 	workers sync.WaitGroup
 	work    chan HandlerContext
+	done    chan struct{}
 
 	listenerDone chan error
 }
@@ -62,6 +63,7 @@ type Node struct {
 // Default values for some non-specified options are instantiated as well, which may yield an error.
 func NewNode(opts ...NodeOption) (*Node, error) {
 	n := &Node{
+		done:         make(chan struct{}),
 		listenerDone: make(chan error, 1),
 
 		maxDialAttempts:        3,
@@ -183,15 +185,21 @@ func (n *Node) Listen() error {
 		go func() {
 			defer n.workers.Done()
 
-			for ctx := range n.work {
-				for _, handler := range n.handlers {
-					if err := handler(ctx); err != nil {
-						ctx.client.Logger().Warn("Got an error executing a message handler.", zap.Error(err))
-						ctx.client.reportError(err)
-						ctx.client.close()
+			for {
+				select {
+				case ctx := <-n.work:
+					n.handle(ctx)
+					continue
+				case <-n.done:
+				}
 
-						break
-					}
+				// Handle what was received before the node was closed.
+
+				select {
+				case ctx := <-n.work:
+					n.handle(ctx)
+				default:
+					return
 				}
 			}
 		}()
@@ -205,7 +213,7 @@ func (n *Node) Listen() error {
 			n.inbound.release()
 			n.outbound.release()
 
-			close(n.work)
+			close(n.done)
 			n.workers.Wait()
 
 			n.listening.Store(false)
@@ -238,6 +246,18 @@ func (n *Node) Listen() error {
 	return nil
 }
 
+func (n *Node) handle(ctx HandlerContext) {
+	for _, handler := range n.handlers {
+		if err := handler(ctx); err != nil {
+			ctx.client.Logger().Warn("Got an error executing a message handler.", zap.Error(err))
+			ctx.client.reportError(err)
+			ctx.client.close()
+
+			break
+		}
+	}
+}
+
 // RegisterMessage registers a Go type T that implements the Serializable interface with an associated deserialize
 // function whose signature comprises of func([]byte) (T, error). RegisterMessage should be called in the following
 // manner:
-- 
2.43.0


From 519c788da54a48cbd58e9207f2ab402411066180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 12/27] fix: allow a single response to a request across all
 handlers

Handlers receive the context by value, so each of them had its own copy of the
flag that guards against responding twice. The surplus response reached the
requester as if it were a new request.
---
 client.go | 3 ++-
 msg.go    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 4bb87ab..2fa121e 100644
--- a/client.go
+++ b/client.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"go.uber.org/atomic"
 	"go.uber.org/zap"
 	"io"
 	"net"
@@ -590,7 +591,7 @@ func (c *Client) recvLoop() {
 		}
 
 		select {
-		case c.node.work <- HandlerContext{client: c, msg: msg}:
+		case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
 		case <-c.closing:
 			continue
 		case <-c.node.done:
diff --git a/msg.go b/msg.go
index 7d25d28..ca3625e 100644
--- a/msg.go
+++ b/msg.go
@@ -37,7 +37,7 @@ func unmarshalMessage(data []byte) (message, error) {
 type HandlerContext struct {
 	client *Client
 	msg    message
-	sent   atomic.Bool
+	sent   *atomic.Bool
 }
 
 // ID returns the ID of the inbound/outbound peer that sent you the data that is currently being handled.
-- 
2.43.0


From 068a30e2c788d8355496bf1e97f40a5d6dbe86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 13/27] fix: serialize the 4-byte form of IPv4 hosts in an ID
 correctly

A 4-byte host was copied into the front of the 16-byte field and came out of
UnmarshalID as an unrelated IPv6 address.
---
 id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id.go b/id.go
index b3c0afa..82f36ee 100644
--- a/id.go
+++ b/id.go
@@ -53,7 +53,7 @@ func (e ID) Marshal() []byte {
 	buf := make([]byte, e.Size())
 
 	copy(buf[:len(e.ID)], e.ID[:])
-	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host)
+	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host.To16())
 	binary.BigEndian.PutUint16(buf[len(e.ID)+net.IPv6len:len(e.ID)+net.IPv6len+2], e.Port)
 
 	return buf
-- 
2.43.0


From 147ca87752034d8c3e7616d015042ae6f99e19dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 14/27] fix: reject a handshake that is reflected back to its
 sender

A peer that echoes everything it receives passed the handshake, and was
authenticated as the very node that had dialed it.
---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index 2fa121e..ad657e9 100644
--- a/client.go
+++ b/client.go
@@ -462,6 +462,13 @@ func (c *Client) handshake() {
 	var peerPublicKey PublicKey
 	copy(peerPublicKey[:], data[:SizePublicKey])
 
+	// Our own public key can only come from a peer reflecting what we send back to us.
+
+	if peerPublicKey == pub {
+		c.reportError(errors.New("session handshake was reflected back to us"))
+		return
+	}
+
 	// Verify ownership of our peers Ed25519 public key by verifying the signature they sent.
 
 	if !peerPublicKey.Verify([]byte(".__noise_handshake"), UnmarshalSignature(data[SizePublicKey:SizePublicKey+SizeSignature])) {
-- 
2.43.0


From 5b596d4997bcb405c73313adcb3b40974fd43d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 15/27] fix: do not log the private key of a node nor the keys
 of its sessions

---
 client.go | 2 --
 node.go   | 1 -
 2 files changed, 3 deletions(-)

diff --git a/client.go b/client.go
index ad657e9..2927085 100644
--- a/client.go
+++ b/client.go
@@ -6,7 +6,6 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"encoding/binary"
-	"encoding/hex"
 	"errors"
 	"fmt"
 	"go.uber.org/atomic"
@@ -552,7 +551,6 @@ func (c *Client) handshake() {
 		zap.String("peer_id", id.ID.String()),
 		zap.String("peer_addr", id.Address),
 		zap.String("remote_addr", c.conn.RemoteAddr().String()),
-		zap.String("session_key", hex.EncodeToString(shared[:])),
 	))
 
 	c.Logger().Debug("Peer connection opened.")
diff --git a/node.go b/node.go
index 0c65b35..c0f9ff1 100644
--- a/node.go
+++ b/node.go
@@ -224,7 +224,6 @@ func (n *Node) Listen() error {
 			zap.String("bind_addr", addr.String()),
 			zap.String("id_addr", n.id.Address),
 			zap.String("public_key", n.publicKey.String()),
-			zap.String("private_key", n.privateKey.String()),
 		)
 
 		for {
-- 
2.43.0


From b5876d49239a92412a35143bcf353d2f663355a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 16/27] fix: arm the write deadline when there is something to
 write

The deadline was armed before waiting for a message, so the first write after
waiting for longer than the idle timeout failed on a connection in use.
---
 client.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 2927085..facafee 100644
--- a/client.go
+++ b/client.go
@@ -629,17 +629,6 @@ Write:
 		default:
 		}
 
-		if c.node.idleTimeout > 0 {
-			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
-				if !isEOF(err) {
-					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
-				}
-				c.reportError(err)
-
-				break Write
-			}
-		}
-
 		c.writerCond.L.Lock()
 		for len(c.writerBuf) == 0 && !c.writerClosed {
 			c.writerCond.Wait()
@@ -652,6 +641,17 @@ Write:
 			break Write
 		}
 
+		if c.node.idleTimeout > 0 {
+			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
+				if !isEOF(err) {
+					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
+				}
+				c.reportError(err)
+
+				break Write
+			}
+		}
+
 		for _, msg := range writerBuf {
 			buf = buf[:0]
 			buf = msg.marshal(buf)
-- 
2.43.0


From 5fff4dd1be9909f954927fc3702040830878798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 17/27] fix: call OnMessageRecv for responses

It is documented to be called whenever a message or response is received.
---
 client.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index facafee..79b5812 100644
--- a/client.go
+++ b/client.go
@@ -591,16 +591,14 @@ func (c *Client) recvLoop() {
 		if ch := c.requests.findRequest(msg.nonce); ch != nil {
 			ch <- msg
 			close(ch)
-
-			continue
-		}
-
-		select {
-		case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
-		case <-c.closing:
-			continue
-		case <-c.node.done:
-			continue
+		} else {
+			select {
+			case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
+			case <-c.closing:
+				continue
+			case <-c.node.done:
+				continue
+			}
 		}
 
 		for _, protocol := range c.node.protocols {
-- 
2.43.0


From d7af0e9ccd31f9f14ad364437de2f992e11bc50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 18/27] fix: do not leak an accepted connection whose address
 is still registered

---
 node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index c0f9ff1..c944477 100644
--- a/node.go
+++ b/node.go
@@ -236,9 +236,12 @@ func (n *Node) Listen() error {
 			addr := conn.RemoteAddr().String()
 
 			client, exists := n.inbound.get(n, addr)
-			if !exists {
-				go client.inbound(conn, addr)
+			if exists {
+				conn.Close()
+				continue
 			}
+
+			go client.inbound(conn, addr)
 		}
 	}()
 
-- 
2.43.0


From 1423efef2df504e7c73562b262aad944d5ca3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 19/27] fix: close a connection whose writer failed

The reader kept the connection open, so messages continued to be accepted and
were never sent, and pending requests were left waiting.
---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index 79b5812..baeaca4 100644
--- a/client.go
+++ b/client.go
@@ -613,6 +613,7 @@ func (c *Client) recvLoop() {
 
 func (c *Client) writeLoop() {
 	defer close(c.writerDone)
+	defer c.close()
 
 	header := make([]byte, 4)
 	buf := make([]byte, 0, 1024)
-- 
2.43.0


From a01dfd2f32518af601ce67227f7ae5bba09ae93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 20/27] fix: have FindClosest consider every peer of the
 routing table

Buckets were visited in rings around the target's and the search stopped once k
peers were found, though buckets further along may hold closer peers.
---
 kademlia/table.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/kademlia/table.go b/kademlia/table.go
index 1ea256f..e1bd5d3 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -172,18 +172,8 @@ func (t *Table) FindClosest(target noise.PublicKey, k int) []noise.ID {
 	t.RLock()
 	defer t.RUnlock()
 
-	idx := t.getBucketIndex(target)
-
-	f(t.entries[idx])
-
-	for i := 1; len(closest) < k && (idx-i >= 0 || idx+i < len(t.entries)); i++ {
-		if idx-i >= 0 {
-			f(t.entries[idx-i])
-		}
-
-		if idx+i < len(t.entries) {
-			f(t.entries[idx+i])
-		}
+	for _, bucket := range t.entries {
+		f(bucket)
 	}
 
 	closest = SortByDistance(target, closest)
-- 
2.43.0


From 1763d7029490bd457ee7d60c85171b7a344d34e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 21/27] fix: do not panic when asked for the last peer of an
 empty bucket

---
 kademlia/table.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kademlia/table.go b/kademlia/table.go
index e1bd5d3..0772087 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -37,12 +37,17 @@ func (t *Table) Self() noise.ID {
 	return t.self
 }
 
-// Last returns the last id of the bucket where target resides within.
+// Last returns the last id of the bucket where target resides within, or a zero-value ID if the bucket is empty.
 func (t *Table) Last(target noise.PublicKey) noise.ID {
 	t.RLock()
 	defer t.RUnlock()
 
-	return t.entries[t.getBucketIndex(target)].Back().Value.(noise.ID)
+	last := t.entries[t.getBucketIndex(target)].Back()
+	if last == nil {
+		return noise.ID{}
+	}
+
+	return last.Value.(noise.ID)
 }
 
 // Bucket returns all entries of a bucket where target reside within.
-- 
2.43.0


From abc64cf50282df8e7a38f885eda160e0071749df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 22/27] fix: do not report the eviction of a peer that was
 never admitted

A peer turned away because its bucket is full of live peers was never in the
routing table, and cannot be evicted from it.
---
 kademlia/protocol.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index c0eb3ad..3840be3 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -144,10 +144,6 @@ func (p *Protocol) Ack(id noise.ID) {
 			zap.String("peer_addr", id.Address),
 		)
 
-		if p.events.OnPeerEvicted != nil {
-			p.events.OnPeerEvicted(id)
-		}
-
 		return
 	}
 }
-- 
2.43.0


From 53fe1c069c62b0bea5d5ff49d569c532295cd977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 23/27] fix: look up the target of the search, not the peer
 being asked

Every peer was asked for the neighbours of its own ID, so a search did not find
the peers close to its target that the peers it asked knew about.
---
 kademlia/iterator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index 9b0f3ca..e64339a 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -17,6 +17,7 @@ type Iterator struct {
 	table  *Table
 	logger *zap.Logger
 
+	target  noise.PublicKey
 	visited map[noise.PublicKey]struct{}
 	results chan noise.ID
 	buckets [][]noise.ID
@@ -72,6 +73,7 @@ func (it *Iterator) Find(target noise.PublicKey) []noise.ID {
 }
 
 func (it *Iterator) init(target noise.PublicKey) {
+	it.target = target
 	it.results = make(chan noise.ID, 1)
 
 	it.visited = map[noise.PublicKey]struct{}{
@@ -162,7 +164,7 @@ func (it *Iterator) lookupRequest(id noise.ID, out chan<- []noise.ID) {
 	ctx, cancel := context.WithTimeout(context.Background(), it.lookupTimeout)
 	defer cancel()
 
-	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: id.ID})
+	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: it.target})
 	if err != nil {
 		out <- nil
 		return
-- 
2.43.0


From 935250ba24e9c12f95404992dc15735a11c8b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 24/27] fix: recognise gossip of 64KB and more as already seen

The cache silently ignores keys of that size, and the message was part of the
key, so large messages were delivered and pushed back and forth for ever.
---
 gossip/protocol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index c5ae995..fdbbed9 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -4,6 +4,7 @@ package gossip
 
 import (
 	"context"
+	"crypto/sha256"
 	"github.com/VictoriaMetrics/fastcache"
 	"github.com/perlin-network/noise"
 	"github.com/perlin-network/noise/kademlia"
@@ -125,5 +126,6 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 }
 
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
-	return append(id.ID[:], data...)
+	sum := sha256.Sum256(append(id.ID[:], data...))
+	return sum[:]
 }
-- 
2.43.0


From 13ba884e7dd8868d8245143b2d5a12423fb25595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 25/27] fix: deliver gossip once when copies of it arrive at
 the same time

Checking whether a message was seen and marking it were two separate steps, so
workers handling copies from several peers each delivered it.
---
 gossip/protocol.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index fdbbed9..9dadb8b 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -19,6 +19,7 @@ type Protocol struct {
 	events  Events
 
 	seen *fastcache.Cache
+	mark sync.Mutex
 }
 
 // New returns a new instance of a gossip protocol with 32MB of in-memory cache instantiated.
@@ -108,12 +109,10 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 
 	self := p.hash(p.node.ID(), msg)
 
-	if p.seen.Has(self) {
+	if !p.markSeen(self) { // Mark that we already have this data.
 		return nil
 	}
 
-	p.seen.Set(self, nil) // Mark that we already have this data.
-
 	if p.events.OnGossipReceived != nil {
 		if err := p.events.OnGossipReceived(ctx.ID(), msg); err != nil {
 			return err
@@ -125,6 +124,20 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 	return nil
 }
 
+// markSeen marks key as seen, and returns false if it already was.
+func (p *Protocol) markSeen(key []byte) bool {
+	p.mark.Lock()
+	defer p.mark.Unlock()
+
+	if p.seen.Has(key) {
+		return false
+	}
+
+	p.seen.Set(key, nil)
+
+	return true
+}
+
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
 	sum := sha256.Sum256(append(id.ID[:], data...))
 	return sum[:]
-- 
2.43.0


From 2efea3925ba367a1c6883e5a1ab3b45e49d07652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 26/27] fix: do not panic when a request fails while its
 connection drops

---
 map.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 8ec5748..d6f3d79 100644
--- a/map.go
+++ b/map.go
@@ -148,7 +148,12 @@ func (r *requestMap) markRequestFailed(nonce uint64) {
 	r.Lock()
 	defer r.Unlock()
 
-	close(r.entries[nonce])
+	ch, exists := r.entries[nonce]
+	if !exists {
+		return
+	}
+
+	close(ch)
 	delete(r.entries, nonce)
 }
 
-- 
2.43.0


From 189fa2f4093af9bbca1d0b4097ab0426e3f69245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:01 +0000
Subject: [PATCH 27/27] fix: lose no handler or protocol registered
 concurrently

Bind and Handle may be called concurrently according to their documentation,
but each appended to its list without any synchronization, so that of two
concurrent calls one could overwrite what the other had added.
---
 node.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index c944477..7e0c3b6 100644
--- a/node.go
+++ b/node.go
@@ -51,6 +51,7 @@ type Node struct {
 	codec     *codec
 	protocols []Protocol
 	handlers  []Handler
+	registry  sync.RWMutex // Held while adding to protocols or handlers.
 
 	workers sync.WaitGroup
 	work    chan HandlerContext
@@ -249,7 +250,11 @@ func (n *Node) Listen() error {
 }
 
 func (n *Node) handle(ctx HandlerContext) {
-	for _, handler := range n.handlers {
+	n.registry.RLock()
+	handlers := n.handlers
+	n.registry.RUnlock()
+
+	for _, handler := range handlers {
 		if err := handler(ctx); err != nil {
 			ctx.client.Logger().Warn("Got an error executing a message handler.", zap.Error(err))
 			ctx.client.reportError(err)
@@ -477,6 +482,9 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 //
 // Bind may be called concurrently.
 func (n *Node) Bind(protocols ...Protocol) {
+	n.registry.Lock()
+	defer n.registry.Unlock()
+
 	if n.listening.Load() {
 		return
 	}
@@ -491,6 +499,9 @@ func (n *Node) Bind(protocols ...Protocol) {
 //
 // Handle may be called concurrently.
 func (n *Node) Handle(handlers ...Handler) {
+	n.registry.Lock()
+	defer n.registry.Unlock()
+
 	if n.listening.Load() {
 		return
 	}
-- 
2.43.0

