package gossip

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
)

func pair(t *testing.T, cb func(int, []byte)) [2]*Protocol {
	var hubs [2]*Protocol
	var nodes [2]*noise.Node
	for i := range hubs {
		i := i
		n, err := noise.NewNode()
		if err != nil {
			t.Fatal(err)
		}
		ov := kademlia.New()
		hubs[i] = New(ov, WithEvents(Events{OnGossipReceived: func(_ noise.ID, data []byte) error { cb(i, data); return nil }}))
		n.Bind(ov.Protocol(), hubs[i].Protocol())
		if err := n.Listen(); err != nil {
			t.Fatal(err)
		}
		t.Cleanup(func() { n.Close() })
		nodes[i] = n
	}
	if _, err := nodes[0].Ping(context.Background(), nodes[1].Addr()); err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond)
	return hubs
}

// G01: gossip of 64KB and more is never recorded as seen, so it bounces for ever.
func TestG01BigGossipStorm(t *testing.T) {
	var n int32
	hubs := pair(t, func(int, []byte) { atomic.AddInt32(&n, 1) })
	hubs[0].Push(context.Background(), make([]byte, 70<<10))
	time.Sleep(500 * time.Millisecond)
	if n != 1 {
		t.Fatalf("delivered %d times", n)
	}
}

// G02: the seen-check and the mark are not atomic: concurrent copies are delivered twice.
func TestG02DoubleDelivery(t *testing.T) {
	var n int32
	hubs := pair(t, func(i int, _ []byte) {
		if i == 1 {
			atomic.AddInt32(&n, 1)
		}
	})
	rounds := 3000
	for i := 0; i < rounds; i++ {
		msg := Message{byte(i), byte(i >> 8)}
		data, _ := hubs[0].node.EncodeMessage(msg)
		for _, c := range hubs[0].node.Outbound() {
			_ = c
		}
		for j := 0; j < 6; j++ {
			_ = hubs[0].node.Send(context.Background(), hubs[1].node.Addr(), data)
		}
	}
	time.Sleep(time.Second)
	if int(n) != rounds {
		t.Fatalf("%d deliveries of %d messages", n, rounds)
	}
}
