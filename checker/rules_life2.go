package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", c16)
	register("C19", c19)
	register("C21", c21)
}

// closeFacts: what closing a connection does, found by looking at Client.Close.
type closeFacts struct {
	flag   *fref           // set under a lock
	locks  map[string]bool // the locks held when it is set
	closes []*fref         // channels closed
	gates  map[string]bool // calls on fields of the connection by which closing happens once
}

func (c *Check) closeFacts() *closeFacts {
	cf := &closeFacts{locks: map[string]bool{}, gates: map[string]bool{}}
	A := c.A
	probe(c.P, c.P.method("", "Client", "Close"), func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvCall:
			if k := gateCall(ev, A.Client); k != "" {
				cf.gates[k] = true
			}
		case EvStore:
			if f := refFrom(ev.Addr, A.Client); f != nil && ev.Val == vTrue {
				cf.flag = f
				for _, h := range st.locks {
					if h.write {
						cf.locks[c.lockRole(h.addr)] = true
					}
				}
			}
		case EvClose:
			if _, f := A.holder(st, ev.Chan, A.Client); f != nil {
				cf.closes = append(cf.closes, f)
			}
		}
	})
	return cf
}

// gateCall names a call of a sync.Once or an atomic that is a field of the connection.
func gateCall(ev *Event, client types.Type) string {
	if ev.Recv == nil || !strings.Contains(ev.Name, "sync.Once)") && !strings.Contains(ev.Name, "atomic.") {
		return ""
	}
	f := refFrom(ev.Recv, client)
	if f == nil {
		if u := unconv(ev.Recv); u.Op == OInit {
			f = refFrom(u.Args[0], client)
		}
	}
	if f == nil {
		return ""
	}
	return ev.Name + " " + f.String()
}

// interesting instructions to be interrupted at
func interruptible(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.Call, *ssa.Select, *ssa.RunDefers, *ssa.Go, *ssa.Send:
		return true
	case *ssa.UnOp:
		return i.Op.String() == "<-"
	}
	return false
}

// injectClose lets another goroutine close the connection once, at any point of the goroutine that runs it.
func (c *Check) injectClose() func(x *Exec, st *State, ev *Event) []func(st *State) []*State {
	A := c.A
	closeFn := c.P.method("", "Client", "Close")
	return func(x *Exec, st *State, ev *Event) []func(st *State) []*State {
		ci := A.conn(x, st)
		if ci == nil || ci.writer || st.flag("injected") || len(st.locks) > 0 || !interruptible(ev.Instr) {
			return nil
		}
		for _, f := range st.frames {
			if f.fn == closeFn {
				return nil
			}
		}
		instr := ev.Instr
		return []func(st *State) []*State{func(s *State) []*State {
			s.setFlag("injected", true)
			s.setFlag("injecting", true)
			s.note(instr.Pos(), "another goroutine closes the connection")
			outs := x.callFn(s, closeFn, []*V{ci.client}, nil, instr, x.siteSub(s.top().ctx, instr, "injected close"))
			for _, o := range outs {
				o.ret = nil
				o.setFlag("injecting", false)
			}
			return outs
		}}
	}
}

func netRead(name string) bool {
	return name == "io.ReadFull" || name == "io.ReadAtLeast" || strings.HasPrefix(name, "(*bufio.Reader).Read") || name == "(net.Conn).Read" || name == "(io.Reader).Read" ||
		strings.HasPrefix(name, "(*bufio.Reader).Peek")
}

func netWrite(name string) bool {
	return name == "(*bufio.Writer).Flush" || strings.HasPrefix(name, "(*bufio.Writer).Write") || name == "(net.Conn).Write" || name == "(io.Writer).Write"
}

func c16(c *Check) {
	A := c.A
	cf := c.closeFacts()
	c.rule("closed-anytime", 2, "when the connection is closed by another goroutine at any point, its socket is closed by the time its goroutine ends")
	c.rule("no-io-after-close", 2, "once the connection was closed its goroutine does not wait for network data on a socket that is still open")
	c.rule("dial-cancelled", 1, "a dial in progress is given up when the connection is closed")
	c.rule("close-marks", 1, "closing marks the connection as closed under a lock and gives a signal")
	c.rule("close-idempotent", 1, "closing twice, also concurrently, closes no channel twice")
	c.rule("writer-woken", 1, "what a waiting writer waits for is changed under its lock and followed by a wake-up")
	c.rule("writer-checks", 1, "the writer goes to sleep only after seeing, under its lock, that the connection is not closed and nothing is queued")
	c.rule("writer-stops", 1, "a writer that sees the connection closed stops")
	c.rule("writer-ends", 2, "a writer that ends has closed the connection, or saw that it is closed or ending")
	c.check(cf.flag != nil && len(cf.locks) > 0, "close-marks", "Client.Close", nil, nil, c.P.method("", "Client", "Close").Pos(),
		"closing does not mark the connection as closed under a lock")
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || ci.writer {
			return
		}
		switch ev.Kind {
		case EvCall:
			if isDial(ev.Name) {
				c.check(c.dialCancelled(st, ev, cf), "dial-cancelled", ci.dir(), x, st, ev.Pos, "a dial in progress is not given up when the connection is closed")
			}
			if st.flag("injected") && !st.flag("injecting") && netRead(ev.Name) {
				c.check(st.flag("sockclosed"), "no-io-after-close", ci.dir(), x, st, ev.Pos, "after the connection was closed its goroutine waits for data on a socket that is still open")
			}
		case EvReturn:
			if st.flag("injected") && c.ownsSock(st, ci, x) {
				c.check(st.flag("sockclosed"), "closed-anytime", ci.dir(), x, st, ev.Pos, "the connection was closed by another goroutine but its socket stays open")
			}
		}
	}
	P := c.P
	c.run(World{Name: "closing at any time", Fns: []*ssa.Function{P.method("", "Node", "Listen"), P.method("", "Node", "Ping")},
		Mons: []MonitorFunc{c.trackDial(), c.trackSock(), mon}, NoContent: true, OnGo: c.freshMon, Interfere: c.injectClose()})

	// Close against itself
	closeFn := P.method("", "Client", "Close")
	dbl := func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvClose {
			_, f := A.holder(st, ev.Chan, A.Client)
			k := "closed:" + ev.Chan.String()
			if f != nil {
				k = "closed:" + f.String()
			}
			c.check(!st.flag(k), "close-idempotent", k, x, st, ev.Pos, "closing the connection a second time closes a channel again")
			st.setFlag(k, true)
		}
	}
	c.run(World{Name: "closing twice", Fns: []*ssa.Function{closeFn}, Mons: []MonitorFunc{dbl}, NoContent: true, OnGo: c.freshMon,
		Interfere: func(x *Exec, st *State, ev *Event) []func(st *State) []*State {
			if st.flag("injected") || len(st.locks) > 0 {
				return nil
			}
			instr := ev.Instr
			cl := x.Root.Args[0]
			return []func(st *State) []*State{func(s *State) []*State {
				s.setFlag("injected", true)
				outs := x.callFn(s, closeFn, []*V{cl}, nil, instr, x.siteSub(s.top().ctx, instr, "injected close"))
				for _, o := range outs {
					o.ret = nil
				}
				return outs
			}}
		}})
	c.wakeRules(cf, "writer-woken", "writer-checks", "writer-stops")
	c.writerEnds(cf)
}

// writerEnds: a connection whose writer has ended does not stay open.
func (c *Check) writerEnds(cf *closeFacts) {
	A := c.A
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || !ci.writer {
			return
		}
		switch ev.Kind {
		case EvLoad:
			if f := refFrom(ev.Addr, A.Client); f != nil && f.same(cf.flag) {
				st.mon["lastflag"] = ev.Val
			}
		case EvBranch:
			if fl := st.mon["lastflag"]; fl != nil && st.truth(fl) > 0 {
				st.setFlag("over", true)
			}
		case EvClose:
			for _, f := range cf.closes {
				if A.is(st, ev.Chan, f) == ci.client {
					st.setFlag("over", true)
				}
			}
		case EvCall:
			if k := gateCall(ev, A.Client); k != "" && cf.gates[k] {
				st.setFlag("over", true)
			}
		case EvRecv, EvSelect:
			if ev.Chan == nil || ev.Kind == EvSelect && ev.Send {
				return
			}
			if b, f := A.holder(st, ev.Chan, A.Client); f != nil && b == ci.client {
				st.setFlag("over", true)
			}
		case EvReturn:
			c.check(st.flag("over"), "writer-ends", ci.dir(), x, st, ev.Pos, "the writer ends but the connection stays open: what is queued on it is never sent")
		}
	}
	c.connWorld(true, mon)
}

// wakeRules: no wake-up of the writer is lost.
func (c *Check) wakeRules(cf *closeFacts, woken, checks, stops string) {
	A, P := c.A, c.P
	pred := func(f *fref) bool { return f != nil && (f.same(A.Queue) || f.same(cf.flag)) }
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		writer := ci != nil && ci.writer
		switch ev.Kind {
		case EvLoad:
			if f := refFrom(ev.Addr, A.Client); f != nil {
				if f.same(cf.flag) {
					st.mon["lastflag"] = ev.Val
				}
				if f.same(A.Queue) {
					st.mon["lastqueue"] = ev.Val
				}
			}
		case EvStore:
			f := refFrom(ev.Addr, A.Client)
			if !pred(f) || writer {
				return
			}
			base, _ := addrRef(ev.Addr)
			if base.Op == OAlloc && !st.isShared(base) {
				return
			}
			held := false
			for _, h := range st.locks {
				if h.write && cf.locks[c.lockRole(h.addr)] {
					held = true
				}
			}
			if !c.check(held, woken, at(ev)+" "+f.String(), x, st, ev.Pos, "%s is changed without the lock the writer holds while it decides to sleep", f) {
				return
			}
			if !st.flag("signalled") {
				st.mon["needwake"] = vTrue
			}
		case EvUnlock:
			st.setFlag("signalled", false)
			delete(st.mon, "lastflag")
			delete(st.mon, "lastqueue")
		case EvCall:
			switch ev.Name {
			case "(*sync.Cond).Signal", "(*sync.Cond).Broadcast":
				delete(st.mon, "needwake")
				if len(st.locks) > 0 {
					st.setFlag("signalled", true)
				}
			case "(*sync.Cond).Wait":
				if writer {
					fl, q := st.mon["lastflag"], st.mon["lastqueue"]
					okF := fl != nil && st.truth(fl) < 0
					okQ := q != nil && (st.nilness(q) > 0 || st.entailsEq(lenOf(q), newLin(0)))
					c.check(okF && okQ, checks, "writer", x, st, ev.Pos, "the writer may go to sleep although the connection is closed (seen open: %v) or a message is queued (seen empty: %v)", okF, okQ)
					delete(st.mon, "lastflag")
					delete(st.mon, "lastqueue")
				}
			}
			if writer && netWrite(ev.Name) {
				fl := st.mon["seenclosed"]
				c.check(fl != vTrue, stops, "writer", x, st, ev.Pos, "the writer goes on although it saw the connection closed")
			}
		case EvBranch:
			if writer {
				if fl := st.mon["lastflag"]; fl != nil && st.truth(fl) > 0 {
					st.mon["seenclosed"] = vTrue
				}
			}
		case EvReturn:
			if st.mon["needwake"] != nil {
				c.bad(woken, at(ev), x, st, ev.Pos, "the writer is not woken after what it waits for changed")
			}
		}
	}
	c.run(World{Name: "waking the writer", Fns: []*ssa.Function{P.method("", "Node", "Send"), P.method("", "Client", "Close"), P.method("", "HandlerContext", "Send"), P.method("", "Node", "Request")},
		Mons: []MonitorFunc{mon}, NoContent: true, OnGo: c.freshMon})
}

// dialCancelled: the dialer watches a channel that closing the connection closes.
func (c *Check) dialCancelled(st *State, ev *Event, cf *closeFacts) bool {
	if ev.Recv == nil {
		return false
	}
	d := ev.Recv
	t := deref(d.Typ)
	s := structOf(t)
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != "Cancel" {
			continue
		}
		v := unconv(st.load(vFieldAddr(d, t, i), s.Field(i).Type()))
		dbg("cancel", v, cf.closes)
		for _, f := range cf.closes {
			if c.A.is(st, v, f) != nil {
				return true
			}
		}
	}
	return false
}

func c19(c *Check) {
	A := c.A
	c.rule("announce-all", 2, "a connection is announced as connected to every protocol exactly once, or to none")
	c.rule("announce-pair", 2, "a connection is announced as disconnected, exactly once, to exactly the protocols it was announced to as connected")
	c.rule("announce-own", 4, "the connection announced is the one the goroutine runs")
	c.rule("no-announce-failed", 2, "a connection whose establishment failed is not announced")
	c.rule("announce-first", 4, "a connection is announced before anything received on it is delivered and before its writer starts")
	c.rule("disconnect-last", 2, "a connection is announced as disconnected after its socket was closed and before its closed signal")
	c.rule("nil-callback", 2, "only callbacks that are set are called")
	for _, kinds := range []string{"ff", "zf"} {
		kinds := kinds
		full := func(f func(i int)) {
			for i, k := range kinds {
				if k == 'f' {
					f(i)
				}
			}
		}
		all := func(st *State, k string, n int64) bool {
			ok := true
			full(func(i int) {
				if st.count(fmt.Sprintf("%s%d", k, i)) != n {
					ok = false
				}
			})
			return ok
		}
		mon := func(x *Exec, st *State, ev *Event) {
			ci := A.conn(x, st)
			if ev.Kind == EvCall && ev.FnVal != nil {
				dbg("fnval", ev.FnVal, c.P.pos(ev.Pos))
			}
			if ev.Kind == EvCall && ev.FnVal != nil && (ev.FnVal.Op == OZero || ev.FnVal == vNil) {
				c.bad("nil-callback", at(ev), x, st, ev.Pos, "a callback that is not set is called")
			}
			if i, name, ok := callback(ev); ok {
				c.ok("nil-callback", name, ev.Pos)
				switch name {
				case "OnPeerConnected", "OnPeerDisconnected":
					if ci == nil || ci.writer {
						c.bad("announce-own", at(ev), x, st, ev.Pos, "%s is called outside the goroutine of a connection", name)
						return
					}
					c.check(len(ev.Args) == 1 && ev.Args[0] == ci.client, "announce-own", ci.dir()+" "+name, x, st, ev.Pos, "another connection is announced")
					k := map[string]string{"OnPeerConnected": "con", "OnPeerDisconnected": "dis"}[name]
					n := st.count(fmt.Sprintf("%s%d", k, i)) + 1
					if n > 2 {
						n = 2
					}
					st.setCount(fmt.Sprintf("%s%d", k, i), n)
					if k == "con" {
						c.check(!st.flag("reported"), "no-announce-failed", ci.dir(), x, st, ev.Pos, "a connection that failed is announced as connected")
						c.check(!st.flag("done"), "announce-all", ci.dir(), x, st, ev.Pos, "announced after the closed signal")
					} else {
						c.check(st.flag("sockclosed") && !st.flag("done"), "disconnect-last", ci.dir(), x, st, ev.Pos,
							"the disconnection is announced before the socket was closed or after the closed signal")
					}
				case "OnMessageRecv":
					if ci != nil && !ci.writer {
						c.check(all(st, "con", 1), "announce-first", ci.dir()+" recv", x, st, ev.Pos, "a message is announced before the connection was")
					}
				}
			}
			if ci == nil || ci.writer {
				return
			}
			switch ev.Kind {
			case EvSend, EvSelect:
				if A.is(st, ev.Chan, A.Work) != nil && (ev.Kind == EvSend || ev.Send) {
					c.check(all(st, "con", 1), "announce-first", ci.dir()+" delivery", x, st, ev.Pos, "a message is delivered before the connection was announced")
				}
			case EvGo:
				c.check(all(st, "con", 1), "announce-first", ci.dir()+" writer", x, st, ev.Pos, "the writer is started before the connection was announced")
			case EvClose:
				if A.is(st, ev.Chan, A.Done) == ci.client {
					st.setFlag("done", true)
				}
			case EvReturn:
				c.check(all(st, "con", 1) || all(st, "con", 0), "announce-all", ci.dir(), x, st, ev.Pos, "the connection is announced to some protocols only, or more than once")
				ok := true
				full(func(i int) {
					if st.count(fmt.Sprintf("con%d", i)) != st.count(fmt.Sprintf("dis%d", i)) {
						ok = false
					}
				})
				c.check(ok, "announce-pair", ci.dir(), x, st, ev.Pos, "the connection is announced as connected but not as disconnected, or the other way round")
			}
		}
		c.connWorld(true, c.seedProtocols(kinds), c.trackErr(), c.trackSock(), mon)
	}
}

// enqueue recognises a message being put into the outgoing queue: the connection, the queue before, and the message.
func (c *Check) enqueue(st *State, ev *Event) (client *V, old, msg *V) {
	if ev.Kind != EvStore {
		return
	}
	b := c.A.Queue.match(ev.Addr)
	if b == nil || ev.Val.Op != OAppend {
		return
	}
	v := ev.Val
	for i := 1; i < len(v.Args); i++ {
		if v.Args[i] != nil {
			msg = v.Args[i]
			break
		}
	}
	if msg != nil && msg.Op == OSlice && msg.Args[0].Op == OAlloc {
		if arr, ok := deref(msg.Args[0].Typ).Underlying().(*types.Array); ok && arr.Len() == 1 {
			a := vIndexAddr(msg.Args[0], vInt(0), types.NewPointer(arr.Elem()))
			msg = st.load(a, arr.Elem())
		}
	}
	return b, v.Args[0], msg
}

func c21(c *Check) {
	A, P := c.A, c.P
	cf := c.closeFacts()
	c.rule("refuse-closed", 1, "a message is queued only under the lock under which closing marks the connection, after seeing there that it is not closed")
	c.rule("closed-under-lock", 1, "closing marks the connection under a lock")
	c.rule("nil-means-queued", 3, "sending returns no error only if the message was queued exactly once")
	c.rule("error-means-not", 3, "sending returns an error if the message was not queued")
	c.check(cf.flag != nil && len(cf.locks) > 0, "closed-under-lock", "Client.Close", nil, nil, P.method("", "Client", "Close").Pos(), "closing does not mark the connection under a lock")
	fns := []*ssa.Function{P.method("", "Node", "Send"), P.method("", "Node", "SendMessage"), P.method("", "HandlerContext", "Send"), P.method("", "HandlerContext", "SendMessage"), P.method("", "Node", "Request")}
	mon := func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvLoad:
			if f := refFrom(ev.Addr, A.Client); f.same(cf.flag) {
				st.mon["lastflag"] = ev.Val
			}
		case EvUnlock:
			delete(st.mon, "lastflag")
		case EvStore:
			b, _, _ := c.enqueue(st, ev)
			if b == nil {
				return
			}
			held := false
			for _, h := range st.locks {
				if h.write && cf.locks[c.lockRole(h.addr)] {
					held = true
				}
			}
			fl := st.mon["lastflag"]
			c.check(held && fl != nil && st.truth(fl) < 0, "refuse-closed", at(ev), x, st, ev.Pos, "a message may be queued on a closed connection, where nothing ever sends it")
			n := st.count("queued") + 1
			if n > 2 {
				n = 2
			}
			st.setCount("queued", n)
		case EvReturn:
			if len(x.Root.parents) > 0 {
				return
			}
			res := ev.Res
			if res.Op == OTuple {
				res = res.Args[len(res.Args)-1]
			}
			k := fnName(x.Root.Fn)
			q := st.count("queued")
			n := st.nilness(res)
			if n >= 0 {
				c.check(q == 1, "nil-means-queued", k, x, st, ev.Pos, "%s may return no error although the message was queued %d times", k, q)
			}
			if q == 0 {
				c.check(n < 0, "error-means-not", k, x, st, ev.Pos, "%s may return no error although the message was not queued", k)
			}
		}
	}
	c.run(World{Name: "sending", Fns: fns, Mons: []MonitorFunc{mon}, NoContent: true, OnGo: func(x *Exec, st *State, ev *Event, r *Root) bool { return false }})
	_ = types.Typ
}
