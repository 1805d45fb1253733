package kademlia

import (
	"bytes"
	"context"
	"math/rand"
	"net"
	"sort"
	"testing"

	"github.com/perlin-network/noise"
)

func rid(r *rand.Rand) noise.ID {
	var pk noise.PublicKey
	r.Read(pk[:])
	return noise.NewID(pk, net.IPv4(1, 2, 3, 4), 1)
}

// K01: FindClosest does not return the closest peers.
func TestK01FindClosest(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for round := 0; round < 200; round++ {
		self := rid(r)
		tab := NewTable(self)
		for i := 0; i < 300; i++ {
			id := rid(r)
			// Spread over the buckets by copying a prefix of self.
			n := r.Intn(8)
			copy(id.ID[:n], self.ID[:n])
			tab.Update(id)
		}
		target := rid(r)
		n := r.Intn(4)
		copy(target.ID[:n], self.ID[:n])
		got := tab.FindClosest(target.ID, BucketSize)
		all := tab.Entries()
		sort.Slice(all, func(i, j int) bool {
			return bytes.Compare(XOR(all[i].ID[:], target.ID[:]), XOR(all[j].ID[:], target.ID[:])) < 0
		})
		for i := range got {
			if got[i].ID != all[i].ID {
				t.Fatalf("round %d: entry %d is not the closest", round, i)
			}
		}
	}
}

// K02: Last panics on an empty bucket.
func TestK02LastEmpty(t *testing.T) {
	tab := NewTable(rid(rand.New(rand.NewSource(2))))
	tab.Last(rid(rand.New(rand.NewSource(3))).ID)
}

// K03: OnPeerEvicted fires for a peer that was never admitted.
func TestK03EvictedNeverAdmitted(t *testing.T) {
	leader, _ := noise.NewNode()
	defer leader.Close()
	admitted := map[noise.PublicKey]bool{}
	bad := false
	overlay := New(WithProtocolEvents(Events{
		OnPeerAdmitted: func(id noise.ID) { admitted[id.ID] = true },
		OnPeerEvicted: func(id noise.ID) {
			if !admitted[id.ID] {
				bad = true
			}
		},
	}))
	leader.Bind(overlay.Protocol())
	if err := leader.Listen(); err != nil {
		t.Fatal(err)
	}
	live, _ := noise.NewNode()
	live.Bind(New().Protocol())
	if err := live.Listen(); err != nil {
		t.Fatal(err)
	}
	defer live.Close()
	pk := live.ID().ID
	lid := live.ID()
	// Fill live's bucket with live at the tail and unknown peers in front of it.
	overlay.Ack(lid)
	for i := 0; i < BucketSize-1; i++ {
		o := pk
		o[31] ^= byte(i + 1)
		overlay.Ack(noise.NewID(o, net.IPv4(127, 0, 0, 1), uint16(i+1)))
	}
	n := pk
	n[31] ^= 0x80
	if got := overlay.Table().Last(n); got.ID != pk {
		t.Fatal("setup", got)
	}
	overlay.Ack(noise.NewID(n, net.IPv4(127, 0, 0, 1), 1))
	if bad {
		t.Fatal("OnPeerEvicted for a peer that was never admitted")
	}
	_ = context.Background
}

// K04: lookups ask every peer for the neighbours of that peer, not of the target.
func TestK04LookupTarget(t *testing.T) {
	mk := func() (*noise.Node, *Protocol) {
		n, _ := noise.NewNode()
		p := New(WithProtocolPingTimeout(100e6))
		n.Bind(p.Protocol())
		if err := n.Listen(); err != nil {
			t.Fatal(err)
		}
		t.Cleanup(func() { n.Close() })
		return n, p
	}
	a, ka := mk()
	b, kb := mk()
	c, _ := mk()
	// B knows C, and 16 unreachable peers that are closer to B than C is.
	aid, bid, cid := a.ID().ID, b.ID().ID, c.ID().ID
	_ = aid
	for i := 0; i < BucketSize; i++ {
		o := bid
		o[31] ^= byte(i + 1)
		kb.Table().Update(noise.NewID(o, net.IPv4(127, 0, 0, 1), uint16(i+1)))
	}
	kb.Table().Update(c.ID())
	ka.Table().Update(b.ID())
	target := cid
	target[31] ^= 1
	for _, id := range ka.Find(target) {
		if id.ID == cid {
			return
		}
	}
	t.Fatal("the peer closest to the target was not found")
}
