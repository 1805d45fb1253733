package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the life of a connection.

func init() {
	register("C14", c14)
}

// trackErr keeps the flag "reported": the connection has recorded an error.
func (c *Check) trackErr() MonitorFunc {
	A := c.A
	return func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvLoad:
			if A.Err.match(ev.Addr) != nil && !st.flag("reported") {
				st.mon["errval"] = ev.Val
			}
		case EvStore:
			if A.Err.match(ev.Addr) != nil {
				if st.nilness(ev.Val) < 0 {
					st.setFlag("reported", true)
				}
				delete(st.mon, "errval")
			}
		case EvUnlock, EvClose:
			if v := st.mon["errval"]; v != nil {
				if st.nilness(v) < 0 {
					st.setFlag("reported", true)
				}
				delete(st.mon, "errval")
			}
		}
	}
}

func c14(c *Check) {
	A := c.A
	c.rule("ready-once", 2, "on every path of the goroutine of a connection the ready signal is given exactly once")
	c.rule("closed-once", 2, "on every path of the goroutine of a connection the closed signal is given exactly once, as its last signal")
	c.rule("ready-outcome", 2, "when the ready signal is given, either an error was recorded or the identity of the peer was stored")
	c.rule("outcome-fixed", 2, "the identity of the peer is not stored after the ready signal")
	c.rule("no-double-close", 4, "no channel of a connection is closed twice by its goroutine")
	c.rule("ready-foreign", 0, "no other goroutine gives the ready or closed signal")
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		switch ev.Kind {
		case EvClose:
			b, f := A.holder(st, ev.Chan, A.Client)
			if b == nil {
				return
			}
			if ci == nil || ci.writer || b != ci.client {
				if f.same(A.Ready) || f.same(A.Done) {
					c.bad("ready-foreign", at(ev), x, st, ev.Pos, "%s is closed outside the goroutine of the connection", f)
				}
				return
			}
			k := "closed:" + f.String()
			c.check(!st.flag(k), "no-double-close", ci.dir()+" "+f.String(), x, st, ev.Pos, "%s is closed a second time on one path", f)
			if f.same(A.Ready) || f.same(A.Done) || true {
				st.setFlag(k, true)
			}
			if f.same(A.Ready) {
				c.check(st.flag("reported") || st.flag("idset"), "ready-outcome", ci.dir(), x, st, ev.Pos,
					"the ready signal is given although neither an error was recorded nor the peer's identity stored")
			}
		case EvStore:
			if ci != nil && A.ID.match(rootField(ev.Addr, A.ID)) == ci.client {
				c.check(!st.flag("closed:"+A.Ready.String()), "outcome-fixed", ci.dir(), x, st, ev.Pos, "the peer's identity is stored after the ready signal")
				st.setFlag("idset", true)
			}
		case EvReturn:
			if ci == nil || ci.writer {
				return
			}
			c.check(st.flag("closed:"+A.Ready.String()), "ready-once", ci.dir(), x, st, ev.Pos, "the goroutine ends without the ready signal")
			c.check(st.flag("closed:"+A.Done.String()), "closed-once", ci.dir(), x, st, ev.Pos, "the goroutine ends without the closed signal")
		}
	}
	c.connWorld(true, c.trackErr(), mon)
}

// rootField cuts an address below field f down to the address of f.
func rootField(a *V, f *fref) *V {
	for a != nil {
		if f.match(a) != nil {
			return a
		}
		if a.Op != OFieldAddr && a.Op != OIndexAddr {
			return nil
		}
		a = a.Args[0]
	}
	return nil
}

func init() {
	register("C15", c15)
	register("C20", c20)
}

const netConnClose = "(net.Conn).Close"

// sock recognises the socket of the connection a goroutine runs.
func (c *Check) isSock(st *State, ci *connInfo, v *V) bool {
	A := c.A
	v = unconv(unold(v))
	if v == nil {
		return false
	}
	if a := initOf(v); a != nil && A.Conn.match(a) == ci.client {
		return true
	}
	if st.load(A.Conn.of(ci.client), A.Conn.ftype()) == v {
		return true
	}
	return typeName(v.Typ) == "net.Conn" || v.Op == OExtract && v.Args[0].Op == OCall && strings.Contains(v.Args[0].Str, "Dial")
}

// trackSock keeps the flags "sock" (this goroutine owns a socket) and "sockclosed".
func (c *Check) trackSock() MonitorFunc {
	A := c.A
	return func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || ci.writer {
			return
		}
		switch ev.Kind {
		case EvCall:
			if ev.Name == netConnClose && c.isSock(st, ci, ev.Recv) {
				st.setFlag("sockclosed", true)
			}
		case EvBranch, EvReturn:
			// a dial that succeeded
		}
	}
}

// ownsSock: on this path the goroutine was given a socket or its dial succeeded.
func (c *Check) ownsSock(st *State, ci *connInfo, x *Exec) bool {
	if ci.in {
		return true
	}
	d := st.mon["dial"]
	return d != nil && st.nilness(vExtract(d, 1, nil)) >= 0
}

func (c *Check) trackDial() MonitorFunc {
	return func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvCall && isDial(ev.Name) {
			if ci := c.A.conn(x, st); ci != nil && !ci.writer {
				st.mon["dial"] = ev.Res
			}
		}
	}
}

func isDial(name string) bool {
	switch name {
	case "(*net.Dialer).DialContext", "(*net.Dialer).Dial", "net.Dial", "net.DialTimeout":
		return true
	}
	return false
}

func c15(c *Check) {
	A := c.A
	c.rule("dial", 1, "the goroutine of an outbound connection dials the peer")
	c.rule("socket-closed", 2, "when the closed signal is given, the socket of the connection has been closed")
	c.rule("slot-released", 2, "when the closed signal is given, the connection is not in its pool any more: it removed its entry, or saw under the lock of the pool that it has none")
	c.rule("own-pool", 2, "the entry removed is one of the pool the connection was registered in")
	c.rule("late-connect", 0, "the closed signal is the last thing: the goroutine uses neither the socket nor a callback after it")
	released := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || ci.writer {
			return
		}
		switch ev.Kind {
		case EvMapGet:
			if p := c.poolOf(st, ev.Map); p != nil {
				st.mon["poolget"] = ev.Val
				st.mon["poolok"] = boolV(ev.OK)
				if p.in != nil {
					st.mon["poolin"] = boolV(*p.in)
				}
			}
		case EvMapDel:
			if p := c.poolOf(st, ev.Map); p != nil && p.in != nil {
				if c.check(*p.in == ci.in, "own-pool", ci.dir(), x, st, ev.Pos, "an %s connection removes an entry of the other pool", ci.dir()) {
					st.setFlag("released", true)
				}
			}
		case EvUnlock:
			if v := st.mon["poolget"]; v != nil {
				if in := st.mon["poolin"]; in == boolV(ci.in) && (st.mon["poolok"] == vFalse || c.entryNotOwn(st, v, ci.client)) {
					st.setFlag("released", true)
				}
				delete(st.mon, "poolget")
				delete(st.mon, "poolok")
				delete(st.mon, "poolin")
			}
		}
	}
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || ci.writer {
			return
		}
		switch ev.Kind {
		case EvClose:
			if A.is(st, ev.Chan, A.Done) != ci.client {
				return
			}
			st.setFlag("done", true)
			if c.ownsSock(st, ci, x) {
				c.check(st.flag("sockclosed"), "socket-closed", ci.dir(), x, st, ev.Pos, "the closed signal is given while the socket is still open")
			}
			c.check(st.flag("released"), "slot-released", ci.dir(), x, st, ev.Pos, "the closed signal is given while the connection may still be in its pool")
		case EvCall:
			if isDial(ev.Name) {
				c.ok("dial", ci.dir(), ev.Pos)
			}
			if st.flag("done") && (ev.FnVal != nil || strings.HasPrefix(ev.Name, "(net.Conn)") || strings.HasPrefix(ev.Name, "(*bufio.")) {
				c.bad("late-connect", at(ev), x, st, ev.Pos, "the goroutine calls %s after the closed signal", ev.Name)
			}
		}
	}
	c.connWorld(true, c.trackDial(), c.trackSock(), released, mon)
}

func boolV(b bool) *V {
	if b {
		return vTrue
	}
	return vFalse
}

type poolRef struct {
	in   *bool
	pool *V // the pool object
}

// poolOf recognises the table of entries of a pool and which pool of the node it is.
func (c *Check) poolOf(st *State, m *V) *poolRef {
	A := c.A
	var a *V
	if i := initOf(m); i != nil {
		a = i
	} else if b, f := A.holder(st, m, A.PoolType); f != nil {
		return c.poolDir(st, b)
	} else {
		return nil
	}
	base, path := addrRef(a)
	if len(path) == 0 || !sameNamed(base.Typ, A.PoolType) {
		return nil
	}
	return c.poolDir(st, base)
}

func (c *Check) poolDir(st *State, base *V) *poolRef {
	A := c.A
	p := &poolRef{pool: base}
	t, f := true, false
	if i := initOf(base); i != nil {
		if A.In.match(i) != nil {
			p.in = &t
		} else if A.Out.match(i) != nil {
			p.in = &f
		}
	} else if A.is(st, base, A.In) != nil {
		p.in = &t
	} else if A.is(st, base, A.Out) != nil {
		p.in = &f
	}
	return p
}

// entryNotOwn: the entry found is known to belong to another connection.
func (c *Check) entryNotOwn(st *State, v *V, client *V) bool {
	found := false
	for f, truth := range st.facts {
		if f.Op == OBin && f.Str == "==" && !truth {
			a, b := f.Args[0], f.Args[1]
			if a == client && contains(b, v) || b == client && contains(a, v) {
				found = true
			}
		}
	}
	return found
}

func (c *Check) entryOwn(st *State, v *V, client *V) bool {
	for f, truth := range st.facts {
		if f.Op == OBin && f.Str == "==" && truth {
			a, b := f.Args[0], f.Args[1]
			if a == client && contains(b, v) || b == client && contains(a, v) {
				return true
			}
		}
	}
	return false
}

func c20(c *Check) {
	A := c.A
	c.rule("first-wins", 2, "the error of a connection is stored only after seeing, under the same lock, that none is stored yet")
	c.rule("store-locked", 2, "the error of a connection is stored under a lock that its reader takes")
	c.rule("end-reported", 2, "the goroutine of a connection does not end without an error having been recorded")
	c.rule("handler-error-recorded", 1, "the error a message handler returns is recorded and the connection is closed")
	c.rule("write-error-recorded", 1, "a writer that stops because of a failed operation has recorded an error")
	errLocks := map[string]bool{}
	probe(c.P, c.P.method("", "Client", "Error"), func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvLoad && A.Err.match(ev.Addr) != nil {
			for _, h := range st.locks {
				errLocks[c.lockRole(h.addr)] = true
			}
		}
	})
	if len(errLocks) == 0 {
		c.bad("store-locked", "Client.Error", nil, nil, c.P.method("", "Client", "Error").Pos(), "the error is read without a lock")
	}
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		switch ev.Kind {
		case EvLoad:
			if A.Err.match(ev.Addr) != nil {
				st.mon["lasterr"] = ev.Val
			}
		case EvStore:
			if b := A.Err.match(ev.Addr); b != nil {
				if b.Op == OAlloc && !st.isShared(b) && st.nilness(ev.Val) > 0 {
					return
				}
				l := st.mon["lasterr"]
				c.check(l != nil && st.nilness(l) > 0, "first-wins", storeKind(x, ci), x, st, ev.Pos, "an error recorded earlier may be overwritten")
				held := false
				for _, h := range st.locks {
					if errLocks[c.lockRole(h.addr)] && h.write {
						held = true
					}
				}
				c.check(held, "store-locked", storeKind(x, ci), x, st, ev.Pos, "the error is stored without the lock its reader takes")
				delete(st.mon, "lasterr")
				st.setFlag("rep", true)
			}
		case EvUnlock:
			if l := st.mon["lasterr"]; l != nil && st.nilness(l) < 0 {
				st.setFlag("rep", true)
			}
			if A.holdsNoErrLock(c, st, ev.Addr, errLocks) {
				delete(st.mon, "lasterr")
			}
		case EvReturn:
			if ci != nil && !ci.writer {
				c.check(st.flag("reported"), "end-reported", ci.dir(), x, st, ev.Pos, "the connection ends on a path that records no error")
			}
			if ci != nil && ci.writer && st.mon["failed"] != nil {
				c.check(st.flag("reported"), "write-error-recorded", "writer "+ci.dir(), x, st, ev.Pos,
					"the writer stops after a failed operation without recording an error")
			}
		}
	}
	// operations of the writer that failed
	wr := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || !ci.writer {
			return
		}
		switch ev.Kind {
		case EvCall:
			if ev.Res != nil && ev.Res.Typ != nil && st.mon["failed"] == nil {
				if isErrorType(ev.Res.Typ) && (strings.HasPrefix(ev.Name, "(*bufio.Writer)") || strings.HasPrefix(ev.Name, "(net.Conn)")) && !strings.HasSuffix(ev.Name, ".Close") {
					st.mon["try"] = ev.Res
				} else if t, ok := ev.Res.Typ.(*types.Tuple); ok && t.Len() == 2 && isErrorType(t.At(1).Type()) && (strings.HasPrefix(ev.Name, "(*bufio.Writer)") || strings.HasPrefix(ev.Name, "(net.Conn)")) {
					st.mon["try"] = vExtract(ev.Res, 1, t.At(1).Type())
				}
			}
		case EvBranch:
			if t := st.mon["try"]; t != nil {
				if n := st.nilness(t); n < 0 {
					st.setFlag("failed", true)
					delete(st.mon, "try")
				} else if n > 0 {
					delete(st.mon, "try")
				}
			}
		}
	}
	// handlers
	hd := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci != nil {
			return
		}
		switch ev.Kind {
		case EvCall:
			if ev.FnVal != nil && c.isHandlerCall(ev) {
				c.handlerSettled(x, st, ev)
				st.mon["hres"] = ev.Res
				st.mon["hctx"] = ev.Args[0]
				delete(st.mon, "hclosed")
				st.setFlag("reported", false)
			}
		case EvBranch:
			if h := st.mon["hres"]; h != nil && h != vTrue {
				if n := st.nilness(h); n > 0 {
					delete(st.mon, "hres")
				} else if n < 0 {
					st.mon["hres"] = vTrue
				}
			}
		case EvClose:
			if b, _ := A.holder(st, ev.Chan, A.Client); b != nil {
				st.setFlag("hclosed", true)
			}
		case EvRecv, EvSelect, EvReturn:
			c.handlerSettled(x, st, ev)
		}
	}
	c.connWorld(true, c.trackErr(), mon, wr, hd)
}

func storeKind(x *Exec, ci *connInfo) string {
	switch {
	case ci == nil:
		return "other goroutine"
	case ci.writer:
		return "writer " + ci.dir()
	}
	return ci.dir()
}

func (A *Anchors) holdsNoErrLock(c *Check, st *State, released *V, errLocks map[string]bool) bool {
	return errLocks[c.lockRole(released)]
}

// handlerSettled: after a handler returned an error, the error was recorded and the connection closed.
func (c *Check) handlerSettled(x *Exec, st *State, ev *Event) {
	h := st.mon["hres"]
	if h == nil {
		return
	}
	delete(st.mon, "hres")
	delete(st.mon, "hctx")
	if h != vTrue {
		c.bad("handler-error-recorded", "worker", x, st, ev.Pos, "what a handler returned is not looked at")
		return
	}
	c.check(st.flag("reported") && st.flag("hclosed"), "handler-error-recorded", "worker", x, st, ev.Pos,
		"a handler returned an error but the error was not recorded or the connection not closed")
}

// isHandlerCall: the call of a function value of the Handler type.
func (c *Check) isHandlerCall(ev *Event) bool {
	if len(ev.Args) != 1 || ev.FnVal == nil {
		return false
	}
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	sig := ci.Common().Signature()
	return sig.Params().Len() == 1 && sig.Results().Len() == 1 && types.Identical(sig.Params().At(0).Type(), c.A.HCtx) && isErrorType(sig.Results().At(0).Type())
}

// lockRole names a lock by the field it is.
func (c *Check) lockRole(a *V) string {
	if i := initOf(a); i != nil {
		a = i
	}
	base, path := addrRef(a)
	if len(path) == 0 || base.Typ == nil {
		return a.String()
	}
	f := &fref{typ: deref(base.Typ), path: path}
	return f.String()
}
