package noise

// Demonstrations of the defects recorded in DESIGN.md / FINDINGS.txt. They are NOT part of any
// check (the checks are static); they only document that each repaired defect was real.

import (
	"context"
	"encoding/binary"
	"errors"
	"io"
	mrand "math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zaptest/observer"
)

type fakeAEAD struct{ nonces [][]byte }

func (f *fakeAEAD) NonceSize() int { return 12 }
func (f *fakeAEAD) Overhead() int  { return 16 }
func (f *fakeAEAD) Seal(dst, nonce, pt, ad []byte) []byte {
	f.nonces = append(f.nonces, append([]byte{}, nonce...))
	return append(dst, append(append([]byte{}, pt...), make([]byte, 16)...)...)
}
func (f *fakeAEAD) Open(dst, nonce, ct, ad []byte) ([]byte, error) { return ct, nil }

func within(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("timed out: %s", what)
	}
}

func node(t *testing.T, opts ...NodeOption) *Node {
	t.Helper()
	n, err := NewNode(opts...)
	if err != nil {
		t.Fatal(err)
	}
	return n
}

func listen(t *testing.T, n *Node) {
	t.Helper()
	if err := n.Listen(); err != nil {
		t.Fatal(err)
	}
}

// F01: AEAD nonces come from math/rand; an application that seeds math/rand gets repeated GCM nonces.
func TestF01NoncePredictable(t *testing.T) {
	f := &fakeAEAD{}
	mrand.Seed(1)
	_, _ = encryptAEAD(f, []byte("hello"))
	mrand.Seed(1)
	_, _ = encryptAEAD(f, []byte("hello"))
	if string(f.nonces[0]) == string(f.nonces[1]) {
		t.Fatal("nonce reuse")
	}
}

// F02: exceeding the inbound limit deadlocks the pool.
func TestF02EvictionDeadlock(t *testing.T) {
	a := node(t, WithNodeMaxInboundConnections(1))
	listen(t, a)
	b, c := node(t), node(t)
	listen(t, b)
	listen(t, c)
	within(t, 5*time.Second, "second inbound connection", func() {
		if _, err := b.Ping(context.Background(), a.Addr()); err != nil {
			t.Error(err)
		}
		if _, err := c.Ping(context.Background(), a.Addr()); err != nil {
			t.Error(err)
		}
	})
	if n := len(a.Inbound()); n != 1 {
		t.Errorf("inbound pool has %d", n)
	}
}

// F02b: an evicted/closing client must not remove the entry of its successor.
func TestF02bRemoveStale(t *testing.T) {
	a := node(t, WithNodeMaxInboundConnections(1), WithNodeMaxOutboundConnections(1))
	listen(t, a)
	defer a.Close()
	b, c := node(t), node(t)
	listen(t, b)
	listen(t, c)
	defer b.Close()
	defer c.Close()
	for i := 0; i < 50; i++ {
		for _, p := range []*Node{b, c} {
			var err error
			within(t, 5*time.Second, "ping", func() { _, err = a.Ping(context.Background(), p.Addr()) })
			if err != nil {
				continue
			}
			if len(a.Outbound()) > 1 {
				t.Fatal("too many")
			}
		}
	}
}

// F03: a pending request must fail when the connection drops.
func TestF03PendingRequestHangs(t *testing.T) {
	a, b := node(t), node(t)
	b.Handle(func(ctx HandlerContext) error { return errors.New("drop") })
	listen(t, a)
	listen(t, b)
	defer a.Close()
	defer b.Close()
	within(t, 3*time.Second, "request on a dropped connection", func() {
		if _, err := a.Request(context.Background(), b.Addr(), []byte("x")); err == nil {
			t.Error("expected an error")
		}
	})
}

// F04: sending on a closed client must not succeed silently.
func TestF04SendAfterClose(t *testing.T) {
	a, b := node(t), node(t)
	listen(t, a)
	listen(t, b)
	defer a.Close()
	defer b.Close()
	c, err := a.Ping(context.Background(), b.Addr())
	if err != nil {
		t.Fatal(err)
	}
	c.Close()
	c.WaitUntilClosed()
	if err := c.send(0, []byte("x")); err == nil {
		t.Fatal("send on a closed connection reported success")
	}
}

// F05: limit disabled -> panic on first frame.
func TestF05ZeroLimitPanics(t *testing.T) {
	for _, lim := range []uint32{0, ^uint32(0)} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("limit %d: panic %v", lim, r)
				}
			}()
			if lim != 0 {
				t.Skip("allocates 4GiB when fixed naively; covered by reading")
			}
			p, q := net.Pipe()
			n := node(t, WithNodeMaxRecvMessageSize(lim))
			c := newClient(n)
			c.conn = p
			c.reader = newReader(p)
			go func() {
				var h [4]byte
				binary.BigEndian.PutUint32(h[:], 5)
				q.Write(append(h[:], "hello"...))
			}()
			buf, err := c.read()
			if err != nil || string(buf) != "hello" {
				t.Errorf("limit %d: %q %v", lim, buf, err)
			}
		}()
	}
}

// F06: one handler error permanently kills a worker.
func TestF06WorkerDies(t *testing.T) {
	a := node(t, WithNodeNumWorkers(1))
	var served int32
	a.Handle(func(ctx HandlerContext) error {
		if string(ctx.Data()) == "bad" {
			return errors.New("bad")
		}
		atomic.AddInt32(&served, 1)
		return ctx.Send([]byte("ok"))
	})
	listen(t, a)
	evil, good := node(t), node(t)
	listen(t, evil)
	listen(t, good)
	_ = evil.Send(context.Background(), a.Addr(), []byte("bad"))
	time.Sleep(200 * time.Millisecond)
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	if _, err := good.Request(ctx, a.Addr(), []byte("good")); err != nil {
		t.Fatal("node stopped serving after one handler error:", err)
	}
}

// F07: Close leaves outbound connections open.
func TestF07CloseLeavesOutbound(t *testing.T) {
	a, b := node(t), node(t)
	listen(t, a)
	listen(t, b)
	defer b.Close()
	if _, err := a.Ping(context.Background(), b.Addr()); err != nil {
		t.Fatal(err)
	}
	a.Close()
	time.Sleep(300 * time.Millisecond)
	if n := len(a.Outbound()); n != 0 {
		t.Fatalf("%d outbound connections survive Close", n)
	}
}

// F08: a message arriving on an outbound connection after Close panics (send on closed channel).
func TestF08SendOnClosedWork(t *testing.T) {
	a, b := node(t), node(t)
	listen(t, a)
	listen(t, b)
	defer b.Close()
	if _, err := a.Ping(context.Background(), b.Addr()); err != nil {
		t.Fatal(err)
	}
	a.Close()
	time.Sleep(200 * time.Millisecond)
	// The node is not reused; it is the remote peer that keeps talking.
	for _, c := range b.Inbound() {
		_ = c.send(0, []byte("late"))
	}
	time.Sleep(300 * time.Millisecond)
}

// F09: Close right after Listen, and Close of a node that never listened, hang.
func TestF09CloseHangs(t *testing.T) {
	for i := 0; i < 200; i++ {
		n := node(t)
		listen(t, n)
		within(t, 2*time.Second, "Close right after Listen", func() { n.Close() })
	}
}

func TestF09bCloseNeverListened(t *testing.T) {
	n := node(t)
	within(t, 2*time.Second, "Close without Listen", func() { n.Close() })
	m := node(t)
	m.Bind(Protocol{Bind: func(*Node) error { return errors.New("no") }})
	if m.Listen() == nil {
		t.Fatal("expected")
	}
	within(t, 2*time.Second, "Close after failed Listen", func() { m.Close() })
}

// F10: an outbound connection whose handshake failed still dispatches frames to the handlers.
func TestF10UnauthenticatedDispatch(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			frame := func(b []byte) []byte {
				h := make([]byte, 4)
				binary.BigEndian.PutUint32(h, uint32(len(b)))
				return append(h, b...)
			}
			var out []byte
			out = append(out, frame([]byte("garbage handshake"))...)
			for i := 0; i < 64; i++ {
				out = append(out, frame(append(make([]byte, 8), "evil"...))...)
			}
			conn.Write(out)
		}
	}()
	var got, disc int32
	a := node(t)
	a.Handle(func(ctx HandlerContext) error { atomic.AddInt32(&got, 1); return nil })
	a.Bind(Protocol{OnPeerDisconnected: func(*Client) { atomic.AddInt32(&disc, 1) }})
	listen(t, a)
	defer a.Close()
	for i := 0; i < 20; i++ {
		a.Ping(context.Background(), ln.Addr().String())
	}
	time.Sleep(100 * time.Millisecond)
	if got != 0 || disc != 0 {
		t.Fatalf("%d unauthenticated messages reached the handlers, %d disconnect events for peers never connected", got, disc)
	}
}

// F11: several handlers may each answer one request.
func TestF11DoubleResponse(t *testing.T) {
	a, b := node(t), node(t)
	var stray int32
	a.Handle(func(ctx HandlerContext) error { atomic.AddInt32(&stray, 1); return nil })
	var errs [2]error
	done := make(chan struct{}, 2)
	for i := 0; i < 2; i++ {
		i := i
		b.Handle(func(ctx HandlerContext) error { errs[i] = ctx.Send([]byte("r")); done <- struct{}{}; return nil })
	}
	listen(t, a)
	listen(t, b)
	defer a.Close()
	defer b.Close()
	a.Request(context.Background(), b.Addr(), []byte("q"))
	<-done
	<-done
	time.Sleep(100 * time.Millisecond)
	if errs[0] == nil && errs[1] == nil || stray != 0 {
		t.Fatalf("two responses to one request: %v, stray=%d", errs, stray)
	}
}

// F12: an ID with a 4-byte IPv4 host does not survive the wire.
func TestF12IDv4(t *testing.T) {
	id := NewID(PublicKey{1}, net.IPv4(10, 1, 2, 3).To4(), 80)
	got, err := UnmarshalID(id.Marshal())
	if err != nil || got.Address != id.Address {
		t.Fatalf("%s -> %s (%v)", id.Address, got.Address, err)
	}
}

// F13: reflecting a node's own handshake back authenticates the attacker as the node itself.
func TestF13Reflection(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go io.Copy(conn, conn)
		}
	}()
	a := node(t)
	listen(t, a)
	defer a.Close()
	c, err := a.Ping(context.Background(), ln.Addr().String())
	if err == nil {
		t.Fatalf("an echo server was authenticated as %s", c.ID())
	}
}

// F14: the node's private key and session keys are written to the log.
func TestF14SecretsLogged(t *testing.T) {
	core, logs := observer.New(zap.DebugLevel)
	a := node(t, WithNodeLogger(zap.New(core)))
	listen(t, a)
	b := node(t)
	listen(t, b)
	if _, err := a.Ping(context.Background(), b.Addr()); err != nil {
		t.Fatal(err)
	}
	a.Close()
	b.Close()
	time.Sleep(100 * time.Millisecond)
	for _, e := range logs.All() {
		for k, v := range e.ContextMap() {
			if s, ok := v.(string); ok && (strings.Contains(s, a.privateKey.String()) || k == "session_key") {
				t.Errorf("log %q leaks %s", e.Message, k)
			}
		}
	}
}

// F15: with an idle timeout, a connection that keeps receiving is torn down on its first late write.
func TestF15StaleWriteDeadline(t *testing.T) {
	a := node(t, WithNodeIdleTimeout(150*time.Millisecond))
	b := node(t)
	listen(t, a)
	listen(t, b)
	defer a.Close()
	defer b.Close()
	c, err := a.Ping(context.Background(), b.Addr())
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(20 * time.Millisecond)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(20 * time.Millisecond):
				for _, x := range b.Inbound() {
					_ = x.send(0, []byte("keepalive"))
				}
			}
		}
	}()
	time.Sleep(400 * time.Millisecond)
	_ = c.send(0, []byte("late write"))
	time.Sleep(100 * time.Millisecond)
	close(stop)
	wg.Wait()
	if c.Error() != nil {
		t.Fatal("active connection died:", c.Error())
	}
}

// F16: Close racing with connection establishment leaves the connection open for ever.
func TestF16CloseDuringDial(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0") // accepts, never answers
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	a := node(t)
	c := newClient(a)
	c.close()
	go c.outbound(context.Background(), ln.Addr().String())
	within(t, 2*time.Second, "client closed before its connection was established", c.waitUntilClosed)
}

// F17: OnMessageRecv is documented to be called for responses too.
func TestF17OnMessageRecvResponse(t *testing.T) {
	var n int32
	a, b := node(t), node(t)
	a.Bind(Protocol{OnMessageRecv: func(*Client) { atomic.AddInt32(&n, 1) }})
	b.Handle(func(ctx HandlerContext) error { return ctx.Send(nil) })
	listen(t, a)
	listen(t, b)
	defer a.Close()
	defer b.Close()
	if _, err := a.Request(context.Background(), b.Addr(), []byte("q")); err != nil {
		t.Fatal(err)
	}
	time.Sleep(50 * time.Millisecond)
	if n != 1 {
		t.Fatalf("OnMessageRecv called %d times", n)
	}
}

// F18: a node that only dials (never listens) must not get its reader stuck on an unsolicited message.
func TestF18DialOnlyNodeStuck(t *testing.T) {
	id := NewID(PublicKey{}, net.IPv4(127, 0, 0, 1), 9)
	_ = id
	a := node(t, WithNodeBindHost(net.IPv4(127, 0, 0, 1)), WithNodeBindPort(9999)) // gets an ID without listening
	b := node(t)
	b.Handle(func(ctx HandlerContext) error { return ctx.Send([]byte("pong")) })
	listen(t, b)
	defer b.Close()
	c, err := a.Ping(context.Background(), b.Addr())
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(50 * time.Millisecond)
	for _, x := range b.Inbound() {
		_ = x.send(0, []byte("hi"))
	}
	time.Sleep(50 * time.Millisecond)
	c.Close()
	within(t, 2*time.Second, "closing a dial-only client", c.WaitUntilClosed)
}

// F19: the outbound limit is not enforced (the inbound limit is used for both pools).
func TestF19OutboundLimit(t *testing.T) {
	a := node(t, WithNodeMaxOutboundConnections(1))
	listen(t, a)
	defer a.Close()
	for i := 0; i < 3; i++ {
		b := node(t)
		listen(t, b)
		defer b.Close()
		if _, err := a.Ping(context.Background(), b.Addr()); err != nil {
			t.Fatal(err)
		}
	}
	if n := len(a.Outbound()); n > 1 {
		t.Fatalf("%d outbound connections with a limit of 1", n)
	}
}

// F20: a second dialer's cancelled context must not block on / kill somebody else's dial for ever.
func TestF20SecondDialerCancel(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	a := node(t)
	go a.Ping(context.Background(), ln.Addr().String())
	time.Sleep(50 * time.Millisecond)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	within(t, 2*time.Second, "cancelled ping", func() { a.Ping(ctx, ln.Addr().String()) })
}

type brokenConn struct{ net.Conn }

func (b brokenConn) Write([]byte) (int, error) { return 0, errors.New("broken") }

// F21: a connection whose writer failed is left open, and accepts messages it can never send.
func TestF21WriterFailure(t *testing.T) {
	p, _ := net.Pipe()
	c := newClient(node(t))
	c.attach(brokenConn{p})
	go c.writeLoop()
	_ = c.send(0, []byte("x"))
	time.Sleep(50 * time.Millisecond)
	if err := c.send(0, []byte("y")); err == nil {
		t.Fatal("a connection whose writer has failed still accepts messages")
	}
}

// F22: a request that could not be sent because its connection dropped panicked should the teardown of the
// connection have already failed it (close of a nil channel).
func TestF22(t *testing.T) {
	r := newRequestMap()
	ch, nonce, err := r.nextNonce()
	if err != nil {
		t.Fatal(err)
	}
	r.close()
	r.markRequestFailed(nonce)
	if msg := <-ch; msg.nonce != 0 {
		t.Fatal("request must have failed")
	}
}

// Registering from several goroutines at once, which the documentation allows, lost handlers and protocols.
func TestF38ConcurrentRegistration(t *testing.T) {
	for round := 0; round < 200; round++ {
		n, err := NewNode()
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 32; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				n.Handle(func(HandlerContext) error { return nil })
				n.Bind(Protocol{})
			}()
		}
		close(start)
		wg.Wait()
		if len(n.handlers) != 32 || len(n.protocols) != 32 {
			t.Fatalf("registered 32 handlers and protocols, %d and %d are left", len(n.handlers), len(n.protocols))
		}
	}
}

// KNOWN: a node told to listen at a loopback address listens at every address.
func TestF37LoopbackBind(t *testing.T) {
	n, err := NewNode(WithNodeBindHost(net.IPv4(127, 0, 0, 1)))
	if err != nil {
		t.Fatal(err)
	}
	if err := n.Listen(); err != nil {
		t.Fatal(err)
	}
	defer n.Close()
	if got := n.listener.Addr().(*net.TCPAddr).IP; !got.IsLoopback() {
		t.Fatalf("told to listen at 127.0.0.1, listens at %s", got)
	}
}

// KNOWN: the idle timeout is documented to be 3 seconds by default, and is disabled.
func TestF36IdleTimeoutDefault(t *testing.T) {
	n, err := NewNode()
	if err != nil {
		t.Fatal(err)
	}
	if n.idleTimeout != 3*time.Second {
		t.Fatalf("default idle timeout is %s", n.idleTimeout)
	}
}
