package noise

import (
	"bufio"
	"context"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"io"
	"net"
	"testing"
	"time"
)

var _ = context.Background

// rawPeer speaks the wire protocol by hand.
type rawPeer struct {
	net.Conn
	r      *bufio.Reader
	suite  cipher.AEAD
	shared []byte
	pub    PublicKey // session key
	sec    PrivateKey
	n      *Node // identity
}

func (p *rawPeer) frame(b []byte) {
	h := make([]byte, 4)
	binary.BigEndian.PutUint32(h, uint32(len(b)))
	p.Write(append(h, b...))
}

func (p *rawPeer) recv(d time.Duration) ([]byte, error) {
	p.SetReadDeadline(time.Now().Add(d))
	h := make([]byte, 4)
	if _, err := io.ReadFull(p.r, h); err != nil {
		return nil, err
	}
	b := make([]byte, binary.BigEndian.Uint32(h))
	_, err := io.ReadFull(p.r, b)
	return b, err
}

func (p *rawPeer) seal(b []byte) []byte {
	c, err := encryptAEAD(p.suite, b)
	if err != nil {
		panic(err)
	}
	return c
}

// session does the first, unencrypted part of the handshake.
func (p *rawPeer) session(t *testing.T) {
	t.Helper()
	var err error
	p.pub, p.sec, err = GenerateKeys(nil)
	if err != nil {
		t.Fatal(err)
	}
	sig := p.sec.Sign([]byte(".__noise_handshake"))
	p.frame(append(append([]byte{}, p.pub[:]...), sig[:]...))
	b, err := p.recv(3 * time.Second)
	if err != nil || len(b) != SizePublicKey+SizeSignature {
		t.Fatal("session handshake: ", err)
	}
	var peer PublicKey
	copy(peer[:], b)
	p.shared, err = ECDH(p.sec, peer)
	if err != nil {
		t.Fatal(err)
	}
	core, _ := aes.NewCipher(p.shared)
	p.suite, _ = cipher.NewGCM(core)
}

// overlay does the second part: both sides prove their identity.
func (p *rawPeer) overlay(t *testing.T) {
	t.Helper()
	if _, err := p.recv(3 * time.Second); err != nil {
		t.Fatal("overlay handshake: ", err)
	}
	id := p.n.id.Marshal()
	sig := p.n.Sign(append(append([]byte{}, id...), p.shared...))
	p.frame(p.seal(append(append([]byte{}, id...), sig[:]...)))
}

// message is an encrypted application message.
func (p *rawPeer) message(nonce uint64, data []byte) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, nonce)
	return p.seal(append(b, data...))
}

func rawDial(t *testing.T, addr string) *rawPeer {
	t.Helper()
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	return rawWrap(t, c)
}

func rawWrap(t *testing.T, c net.Conn) *rawPeer {
	t.Helper()
	n, err := NewNode(WithNodeBindHost(net.IPv4(127, 0, 0, 1)), WithNodeBindPort(4321))
	if err != nil {
		t.Fatal(err)
	}
	return &rawPeer{Conn: c, r: bufio.NewReader(c), n: n}
}

func seedNode(t *testing.T, opts ...NodeOption) *Node {
	t.Helper()
	n, err := NewNode(append([]NodeOption{WithNodeBindHost(net.IPv4(127, 0, 0, 1))}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	return n
}

func seedListen(t *testing.T, n *Node) {
	t.Helper()
	if err := n.Listen(); err != nil {
		t.Fatal(err)
	}
}

func inTime(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatal("did not finish: " + what)
	}
}

func inbound1(t *testing.T, n *Node) *Client {
	t.Helper()
	for i := 0; i < 300; i++ {
		if l := n.Inbound(); len(l) > 0 {
			return l[0]
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("no inbound connection")
	return nil
}
