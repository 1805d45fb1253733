package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about what travels on a connection.

func init() {
	register("C08", c08)
}

// putLength recognises a number of four bytes being encoded for the wire: where to and which.
func putLength(ev *Event) (dst region, val *V, ok bool) {
	if ev.Kind == EvCall && isCall(ev, "bigEndian).PutUint32", "littleEndian).PutUint32") && len(ev.Args) == 2 {
		return regionOf(ev.Args[0]), unconv(ev.Args[1]), true
	}
	return
}

// sameSpot: the two regions begin at the same byte.
func sameSpot(st *State, a, b region) bool {
	return a.known && b.known && a.base == b.base && st.entailsEq(a.off, b.off)
}

func c08(c *Check) {
	A := c.A
	c.rule("frame-length", 4, "every frame is preceded by the number of the bytes that follow it")
	c.rule("frame-whole", 4, "the bytes of a frame follow one another: nothing else is written, nothing flushed for good and no message taken before the announced number of bytes was written")
	c.rule("not-held-back", 2, "the writer does not go to sleep, and the handshake does not wait for the peer, while written bytes are still buffered")
	c.rule("one-writer", 2, "a connection is written to by its handshake until its one writer is started, and by its writer afterwards")
	c.rule("queued-last", 1, "a message is put at the end of the queue, which is otherwise only emptied by the writer under the lock of the queue")
	c.rule("in-order", 2, "the writer sends the messages it takes from the queue each once and in their order")

	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		w := socketWrite(st, ev)
		if ci == nil {
			if w != nil {
				c.bad("one-writer", at(ev), x, st, ev.Pos, "something is written to a connection by a goroutine that is neither its handshake nor its writer")
			}
			return
		}
		dir := ci.dir()
		if ci.writer {
			dir += " writer"
		}
		if dst, val, ok := putLength(ev); ok && dst.known {
			st.mon["hdr"], st.mon["hdrval"] = ev.Args[0], val
		}
		for _, a := range w {
			if !ci.writer && st.flag("writing") {
				c.bad("one-writer", dir+" overlap", x, st, ev.Pos, "the handshake goroutine writes to the connection after the writer was started")
			}
			n := lenOf(a)
			st.setFlag("buffered", true)
			if rest := st.mon["rest"]; rest != nil {
				// the announced bytes
				if st.entailsEq(n, linOf(rest)) {
					c.ok("frame-length", dir, ev.Pos)
					delete(st.mon, "rest")
				} else {
					c.bad("frame-length", dir, x, st, ev.Pos, "the number of bytes written is not the number that was announced")
					delete(st.mon, "rest")
				}
				continue
			}
			hv := st.mon["hdrval"]
			if hv == nil || !sameSpot(st, regionOf(a), regionOf(st.mon["hdr"])) {
				c.bad("frame-length", dir, x, st, ev.Pos, "something is written that does not begin with the length of what follows")
				continue
			}
			delete(st.mon, "hdrval")
			switch {
			case st.entailsEq(n, newLin(4)):
				st.mon["rest"] = hv
			case st.entailsEq(n, linOf(hv).add(newLin(4), 1)):
				c.ok("frame-length", dir, ev.Pos)
			default:
				c.bad("frame-length", dir, x, st, ev.Pos, "the number of bytes written is not the number that was announced")
			}
		}
		switch ev.Kind {
		case EvCall:
			if strings.HasSuffix(ev.Name, "bufio.Writer).Flush") {
				if errOf(ev.Res) != nil {
					st.setFlag("buffered", false)
				}
			}
			if ev.Name == "(*sync.Cond).Wait" || connWaits(ev) {
				c.check(st.mon["rest"] == nil, "frame-whole", dir, x, st, ev.Pos, "the rest of a frame is not written")
				c.check(!st.flag("buffered"), "not-held-back", dir, x, st, ev.Pos, "what was written may stay in the buffer while the goroutine waits")
			}
		case EvGo:
			if A.startsWriter(ev) && !ci.writer {
				c.check(!st.flag("writing") && st.mon["rest"] == nil, "one-writer", dir, x, st, ev.Pos, "a second writer is started, or one in the middle of a frame")
				st.setFlag("writing", true)
			}
		case EvLoad:
			if A.Queue.match(ev.Addr) != nil {
				st.mon["queue"] = ev.Val
			}
		case EvUnlock:
			delete(st.mon, "queue")
		case EvStore:
			if b := A.Queue.match(ev.Addr); b != nil {
				c.queueStore(x, st, ev, ci.writer)
			}
		}
	}
	c.connWorld(false, mon)
	api := func(x *Exec, st *State, ev *Event) {
		if socketWrite(st, ev) != nil {
			c.bad("one-writer", at(ev), x, st, ev.Pos, "something is written to a connection by a goroutine that is neither its handshake nor its writer")
		}
		switch ev.Kind {
		case EvLoad:
			if A.Queue.match(ev.Addr) != nil {
				st.mon["queue"] = ev.Val
			}
		case EvUnlock:
			delete(st.mon, "queue")
		case EvStore:
			if A.Queue.match(ev.Addr) != nil {
				c.queueStore(x, st, ev, false)
			}
		}
	}
	var fns []*ssa.Function
	for _, f := range c.P.exported("") {
		fns = append(fns, f)
	}
	c.run(World{Name: "the interface", Fns: fns, Mons: []MonitorFunc{api}, NoContent: true, OnGo: func(x *Exec, st *State, ev *Event, r *Root) bool { return false }})
	c.order()
}

// connWaits: the handshake waits for the peer.
func connWaits(ev *Event) bool {
	n, _ := connRead(ev)
	return n != nil
}

// queueStore: what happens to the queue of outgoing messages.
func (c *Check) queueStore(x *Exec, st *State, ev *Event, writer bool) {
	base, _ := addrRef(ev.Addr)
	if base.Op == OAlloc && !st.isShared(base) {
		return
	}
	_, old, msg := c.enqueue(st, ev)
	held := heldWrite(st)
	q := st.mon["queue"]
	if msg != nil {
		c.check(held && q != nil && old == q, "queued-last", at(ev), x, st, ev.Pos, "a message is not put at the end of the queue as it is, under its lock")
		return
	}
	c.check(writer && held && q != nil, "queued-last", at(ev), x, st, ev.Pos, "the queue is changed other than by the writer that takes messages from it under its lock")
}

// order: two messages are queued; the writer has to send both, each once, in their order.
func (c *Check) order() {
	A := c.A
	seed := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || !ci.writer {
			return
		}
		switch ev.Kind {
		case EvLoad:
			if A.Queue.match(ev.Addr) == nil || st.nilness(ev.Val) > 0 || st.flag("seeded") {
				return
			}
			st.setFlag("seeded", true)
			ev.Val = seedSlice(st, "queue", A.Msg, 2, func(i int) *V { return c.seedMsg(fmt.Sprintf("queued:%d", i)) })
			st.store(ev.Addr, ev.Val, 0)
			st.setFlag("aliased", false)
		case EvStore:
			if A.Queue.match(ev.Addr) == nil {
				return
			}
			v := ev.Val
			st.setFlag("aliased", false)
			taken := int64(2)
			if st.nilness(v) <= 0 && !st.entailsEq(capOf(v), newLin(0)) {
				r := regionOf(v)
				lo := int64(-1)
				if r.known && r.base.Op == OAlloc && r.base.Str == "seed:queue" {
					for k := int64(0); k <= 2; k++ {
						if st.entailsEq(r.off, newLin(k)) {
							lo = k
						}
					}
					if st.entailsEq(r.len, newLin(0)) {
						st.setFlag("aliased", true)
					} else if lo >= 0 && st.entailsEq(r.len, newLin(2-lo)) {
						taken = lo
					} else {
						c.bad("in-order", "taken", x, st, ev.Pos, "it is not known which messages are taken from the queue")
						return
					}
				} else {
					c.bad("in-order", "taken", x, st, ev.Pos, "the queue is replaced by something else")
					return
				}
			}
			c.check(st.count("sent") == st.count("taken"), "in-order", "taken", x, st, ev.Pos, "messages are taken from the queue although %d of the %d taken before were not sent", st.count("taken")-st.count("sent"), st.count("taken"))
			st.setCount("taken", taken)
			st.setCount("sent", 0)
		case EvUnlock:
			st.setFlag("seeded", false)
			if st.flag("aliased") {
				// another goroutine may put its messages there now
				seedSlice(st, "queue", A.Msg, 2, func(i int) *V { return c.seedMsg("queued:later") })
			}
		case EvCall:
			if ev.Name == "(*sync.Cond).Wait" && st.count("taken") > 0 {
				c.check(st.count("sent") == st.count("taken"), "in-order", "wait", x, st, ev.Pos, "the writer waits although it did not send all messages it took from the queue")
			}
		}
		if dst, _, ok := putLength(ev); ok && dst.known {
			return
		}
		carried := sealedBytes(ev)
		sealed := len(carried) > 0
		if !sealed {
			carried = socketWrite(st, ev)
		}
		for _, a := range carried {
			i, all := c.queuedIn(st, a)
			if i < 0 && !sealed {
				continue
			}
			want := st.count("sent")
			c.check(len(all) == 1 && int64(i) == want && want < st.count("taken"), "in-order", "sent", x, st, ev.Pos, "what is sent as message %d of %d taken from the queue is made of %s", want, st.count("taken"), strings.Join(all, ", "))
			st.setCount("sent", want+1)
		}
	}
	c.connWorld(false, seed)
}

// seedMsg is a message whose number and data carry a name.
func (c *Check) seedMsg(name string) *V {
	s := structOf(c.A.Msg)
	var fs []*V
	for k := 0; k < s.NumFields(); k++ {
		fs = append(fs, mk(V{Op: OOpaque, Str: "src:" + name + ":" + s.Field(k).Name(), Typ: s.Field(k).Type()}))
	}
	return mk(V{Op: OStruct, Args: fs, Typ: c.A.Msg})
}

// sealedBytes are the bytes that are sealed.
func sealedBytes(ev *Event) []*V {
	if isCall(ev, srcSeal) && len(ev.Args) == 4 {
		return ev.Args[2:3]
	}
	return nil
}

// queuedIn: which of the seeded messages the bytes of v come from.
func (c *Check) queuedIn(st *State, v *V) (int, []string) {
	seen := map[string]int{}
	for k := range st.from(v) {
		if strings.HasPrefix(k, "queued:") {
			if j := strings.LastIndexByte(k, ':'); j > 7 {
				k = k[:j]
			}
			seen[k]++
		} else if strings.HasSuffix(k, srcSeal) || strings.HasPrefix(k, "field:") || fromNetwork(map[string]*V{k: nil}) {
			seen["what came before ("+k+")"]++
		}
	}
	l := sortedKeys(seen)
	i := -1
	if len(l) == 1 && seen[l[0]] == structOf(c.A.Msg).NumFields() {
		fmt.Sscanf(l[0], "queued:%d", &i)
	}
	return i, l
}

func init() { register("C09", c09) }

// ownMemory is the allocation v lies in, if v is known to lie in memory made for it.
func ownMemory(v *V) *V {
	b := backing(unconv(v))
	if b != nil && b.Op == OExtract {
		b = b.Args[0]
	}
	if b == nil {
		return nil
	}
	switch b.Op {
	case OMakeSlice, OAppend, OAlloc:
		return b
	case OCall:
		switch {
		case nameIs(b.Str, "bytes.Clone", "slices.Clone", "io.ReadAll", "ioutil.ReadAll", "bytes.Join", "bytes.Repeat"):
			return b
		case strings.HasSuffix(b.Str, srcOpen) && len(b.Args) > 1:
			if freshBase(b.Args[1]) {
				return b
			}
			return ownMemory(b.Args[1]) // what is decrypted is appended to it
		}
	}
	return nil
}

func nameIs(name string, suffixes ...string) bool {
	for _, s := range suffixes {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

func c09(c *Check) {
	A := c.A
	c.rule("delivered-own", 4, "the data of a received message that is handed on lies in memory made for this message")
	c.rule("identity-own", 2, "the identity of the peer lies in memory of its own")
	c.rule("not-overwritten", 2, "nothing is received into the memory of a message that was handed on, or of the identity of the peer")
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || ci.writer {
			return
		}
		switch ev.Kind {
		case EvMake, EvAppend:
			if st.mon["given"] == ev.Val {
				delete(st.mon, "given") // other memory from now on
			}
		case EvCall:
			if st.mon["given"] == ev.Res && ev.Res != nil {
				delete(st.mon, "given")
			}
			var dst *V
			if l, _ := connRead(ev); l != nil && isCall(ev, "io.ReadFull", "io.ReadAtLeast") {
				dst = ev.Args[1]
			} else if isCall(ev, srcOpen) && len(ev.Args) > 0 && !freshBase(ev.Args[0]) {
				dst = ev.Args[0]
			}
			if dst == nil {
				return
			}
			b := backing(unconv(dst))
			for _, k := range []string{"given", "identity"} {
				c.check(st.mon[k] == nil || b != st.mon[k], "not-overwritten", ci.dir(), x, st, ev.Pos, "what is received overwrites memory that was handed on")
			}
		case EvSend, EvSelect:
			if ev.Kind == EvSelect && !ev.Send || ev.Chan == nil || !(A.is(st, ev.Chan, A.Work) != nil || c.isMsgChan(chanType(ev))) {
				return
			}
			m, where := ev.Val, "request"
			if sameNamed(m.Typ, A.HCtx) {
				m, where = vField(m, A.HCtx, A.MsgRef), "handler"
			}
			b := ownMemory(vField(m, A.Msg, A.MsgData))
			c.check(b != nil && b != st.mon["given"], "delivered-own", ci.dir()+" "+where, x, st, ev.Pos, "the data handed on lies in memory that what is received later may overwrite")
			if b != nil {
				st.mon["given"] = b
			}
		case EvStore:
			if A.ID.match(rootField(ev.Addr, A.ID)) == ci.client {
				for _, v := range byteParts(st, ev.Val) {
					b := ownMemory(v)
					c.check(b != nil, "identity-own", ci.dir(), x, st, ev.Pos, "the identity of the peer lies in memory that what is received later may overwrite")
					if b != nil {
						st.mon["identity"] = b
					}
				}
			}
		}
	}
	c.connWorld(false, mon)
}

// byteParts are the byte slices in a value.
func byteParts(st *State, v *V) []*V {
	var out []*V
	var walk func(v *V, n int)
	walk = func(v *V, n int) {
		if v == nil || n > 4 {
			return
		}
		if v.Typ != nil && isBytes(v.Typ) {
			out = append(out, v)
			return
		}
		if s := structOf(v.Typ); s != nil {
			for i, f := range structFields(st, v, v.Typ) {
				_ = i
				walk(f, n+1)
			}
		}
	}
	walk(v, 0)
	return out
}
