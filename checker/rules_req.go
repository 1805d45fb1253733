package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about requests, responses and the handling of messages.

func init() {
	register("C10", c10)
	register("C11", c11)
	register("C12", c12)
	register("C13", c13)
}

// mapTypeOf is the type of the map an event is about.
func mapTypeOf(ev *Event) *types.Map {
	var t types.Type
	switch i := ev.Instr.(type) {
	case *ssa.MapUpdate:
		t = i.Map.Type()
	case *ssa.Lookup:
		t = i.X.Type()
	case *ssa.Next:
		if r, ok := i.Iter.(*ssa.Range); ok {
			t = r.X.Type()
		}
	case ssa.CallInstruction:
		if len(i.Common().Args) > 0 {
			t = i.Common().Args[0].Type()
		}
	}
	if t == nil {
		return nil
	}
	m, _ := t.Underlying().(*types.Map)
	return m
}

// isPending: the event is about a table from numbers to channels of messages: the requests waiting for a response.
func (c *Check) isPending(ev *Event) bool {
	switch ev.Kind {
	case EvMapGet, EvMapSet, EvMapDel, EvRange:
	default:
		return false
	}
	m := mapTypeOf(ev)
	if m == nil {
		return false
	}
	if b, ok := m.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	return c.isMsgChan(m.Elem())
}

func (c *Check) isMsgChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && types.Identical(ch.Elem(), c.A.Msg)
}

// nonZero: the number v is known not to be 0.
func (st *State) nonZero(v *V) bool {
	v = unconv(v)
	if n, ok := v.intConst(); ok {
		return n != 0
	}
	if v.Op == OConst && v.Const != nil && v.Const.Kind() == constant.Int {
		return constant.Sign(v.Const) != 0
	}
	z := false
	for f, truth := range st.facts {
		if f.Op == OBin && f.Str == "==" && !truth {
			for i := 0; i < 2; i++ {
				if unconv(f.Args[i]) == v {
					if n, ok := f.Args[1-i].intConst(); ok && n == 0 {
						z = true
					}
				}
			}
		}
	}
	if z || st.ge(linOf(v), newLin(1)) {
		return true
	}
	if v.Op == OBin && v.Str == "+" {
		for i := 0; i < 2; i++ {
			if n, ok := v.Args[i].intConst(); ok && n == 1 {
				x := v.Args[1-i]
				if _, isC := x.intConst(); isC {
					return st.nonZero(x)
				}
				for f, truth := range st.facts {
					if f.Op == OBin && (f.Str == "==" && !truth || f.Str == "<" && truth) {
						for k := 0; k < 2; k++ {
							if unconv(f.Args[k]) == x && f.Args[1-k].Op == OConst && f.Args[1-k].Const != nil {
								u, exact := constant.Uint64Val(constant.ToInt(f.Args[1-k].Const))
								if exact && u == 1<<64-1 && (f.Str == "==" || k == 0) {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (c *Check) msgNonce(m *V) *V { return vField(m, c.A.Msg, c.A.MsgNonce) }

func heldWrite(st *State) bool {
	for _, h := range st.locks {
		if h.write {
			return true
		}
	}
	return false
}

// freshChan: a channel made here with room for at least n elements.
func freshChan(st *State, v *V, n int64) bool {
	v = unconv(v)
	if v.Op != OMakeChan {
		return false
	}
	if n == 0 {
		return true
	}
	if len(v.Args) == 0 || v.Args[0] == nil {
		return false
	}
	return st.ge(linOf(v.Args[0]), newLin(n))
}

func c10(c *Check) {
	A, P := c.A, c.P
	c.rule("own-number", 1, "a request is registered under a number that is not 0 and that no waiting request of the connection has, seen under one lock")
	c.rule("own-channel", 1, "every request waits on a channel of its own that can take the response at once")
	c.rule("registered-first", 1, "a request is sent under the number it was registered under, and after it was registered")
	c.rule("answer-is-own", 1, "what a request returns is what was received on the channel it registered")
	c.rule("deliver-own", 1, "a received message goes to the waiting request whose number it carries")
	c.rule("deliver-once", 1, "a waiting request is forgotten, under the lock under which it was found, when its response is delivered")
	c.rule("unsolicited", 1, "a message that answers no waiting request goes to the handlers, one that does goes to its request only")
	c.rule("answers-carry-number", 1, "a response carries the number of the request it answers")
	c.rule("plain-carries-none", 1, "a plain message carries the number 0")

	// requests
	mon := func(x *Exec, st *State, ev *Event) {
		switch {
		case c.isPending(ev) && ev.Kind == EvMapGet:
			if !ev.OK && ev.Val != nil {
				st.mon["absent"] = ev.Key
			} else {
				delete(st.mon, "absent")
			}
		case c.isPending(ev) && ev.Kind == EvMapSet:
			k := ev.Key
			dbg("mapset", k, st.mon["absent"], ev.Val)
			c.check(heldWrite(st) && st.mon["absent"] == k && st.nonZero(k), "own-number", at(ev), x, st, ev.Pos,
				"the number may be 0 or the number of another waiting request (locked: %v, seen unused: %v, not 0: %v)", heldWrite(st), st.mon["absent"] == k, st.nonZero(k))
			c.check(freshChan(st, ev.Val, 1), "own-channel", at(ev), x, st, ev.Pos, "the channel is shared with another request or cannot take a response at once")
			st.mon["reg"], st.mon["regch"] = k, unconv(ev.Val)
		case c.isPending(ev) && ev.Kind == EvMapDel:
			if st.mon["reg"] == ev.Key {
				st.setFlag("unreg", true)
			}
		case ev.Kind == EvUnlock:
			delete(st.mon, "absent")
		case ev.Kind == EvStore:
			b, _, m := c.enqueue(st, ev)
			if b == nil || m == nil {
				return
			}
			dbg("enq", m, m.Op, c.msgNonce(m), st.mon["reg"])
			c.check(st.mon["reg"] != nil && !st.flag("unreg") && c.msgNonce(m) == st.mon["reg"], "registered-first", at(ev), x, st, ev.Pos,
				"the request is sent before it was registered or with another number")
		case ev.Kind == EvSelect || ev.Kind == EvRecv:
			if ev.Chan != nil && unconv(ev.Chan) == st.mon["regch"] && ev.Val != nil {
				st.mon["answer"] = ev.Val
			}
		case ev.Kind == EvReturn && len(x.Root.parents) == 0:
			if ev.Res.Op == OTuple && st.nilness(ev.Res.Args[1]) >= 0 {
				a := st.mon["answer"]
				dbg("ret", ev.Res.Args[0], a, st.mon["regch"])
				c.check(a != nil && contains(ev.Res.Args[0], a), "answer-is-own", fnName(x.Root.Fn), x, st, ev.Pos, "what is returned is not what was received for this request")
			}
		}
	}
	noGo := func(x *Exec, st *State, ev *Event, r *Root) bool { return false }
	c.run(World{Name: "requests", Fns: []*ssa.Function{P.method("", "Node", "Request")}, Mons: []MonitorFunc{mon}, NoContent: true, OnGo: noGo})

	// plain messages and responses
	c.run(World{Name: "plain", Fns: []*ssa.Function{P.method("", "Node", "Send"), P.method("", "Node", "SendMessage")}, NoContent: true, OnGo: noGo,
		Mons: []MonitorFunc{func(x *Exec, st *State, ev *Event) {
			if b, _, m := c.enqueue(st, ev); b != nil && m != nil {
				n, ok := c.msgNonce(m).intConst()
				c.check(ok && n == 0, "plain-carries-none", fnName(x.Root.Fn), x, st, ev.Pos, "a plain message is sent as if it were a request or a response")
			}
		}}})
	c.run(World{Name: "responses", Fns: []*ssa.Function{P.method("", "HandlerContext", "Send"), P.method("", "HandlerContext", "SendMessage")}, NoContent: true, OnGo: noGo,
		Mons: []MonitorFunc{func(x *Exec, st *State, ev *Event) {
			if b, _, m := c.enqueue(st, ev); b != nil && m != nil {
				own := false
				if f := refFrom(initOf(c.msgNonce(m)), A.HCtx); f != nil && len(f.path) == 2 && f.path[0] == A.MsgRef && f.path[1] == A.MsgNonce {
					own = true
				}
				// the connection it goes to is the one the request came from
				if A.CtxClient.match(initOf(b)) == nil {
					own = false
				}
				c.check(own, "answers-carry-number", fnName(x.Root.Fn), x, st, ev.Pos, "a response does not carry the number of its request, or goes to another connection")
			}
		}}})

	// deliveries
	del := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || ci.writer {
			return
		}
		switch {
		case c.isPending(ev) && ev.Kind == EvMapGet:
			st.mon["look"] = ev.Key
			st.setFlag("taken", false)
			delete(st.mon, "found")
			if ev.Val == nil {
				st.mon["found"] = mapCell(ev.Map, ev.Key, mapTypeOf(ev).Elem())
			} else if ev.OK {
				st.mon["found"] = unconv(ev.Val)
			}
			st.setFlag("looklocked", heldWrite(st))
		case c.isPending(ev) && ev.Kind == EvMapDel:
			if st.mon["look"] == ev.Key && st.flag("looklocked") && heldWrite(st) {
				st.setFlag("taken", true)
			}
		case ev.Kind == EvUnlock:
			st.setFlag("looklocked", false)
		case ev.Kind == EvBranch:
			// what is registered is a channel (own-channel)
			if f := st.mon["found"]; f != nil && st.nilness(f) > 0 {
				ev.Kill = true
			}
		case ev.Kind == EvSend || ev.Kind == EvSelect && ev.Send:
			if A.is(st, ev.Chan, A.Work) != nil {
				m := ev.Val
				if sameNamed(m.Typ, A.HCtx) || m.Op == OStruct {
					m = vField(m, A.HCtx, A.MsgRef)
				}
				n := c.msgNonce(m)
				seen := st.mon["look"] == n || st.mon["look"] == nil && st.truth(mk(V{Op: OBin, Str: "==", Args: []*V{n, vInt(0)}, Typ: types.Typ[types.Bool]})) > 0
				dbg("work", n == st.mon["look"], m == nil, st.mon["look"] == nil, "found", st.mon["found"], st.locks)
				c.check(seen && st.mon["found"] == nil, "unsolicited", ci.dir(), x, st, ev.Pos, "a message may go to the handlers although a request waits for it")
				return
			}
			if !c.isMsgChan(chanType(ev)) {
				return
			}
			f := st.mon["found"]
			c.check(f != nil && unconv(ev.Chan) == f && c.msgNonce(ev.Val) == st.mon["look"], "deliver-own", ci.dir(), x, st, ev.Pos,
				"a response is delivered to a request whose number it does not carry")
			c.check(st.flag("taken"), "deliver-once", ci.dir(), x, st, ev.Pos, "the request a response is delivered to stays registered, or was not removed under the lock it was found under")
			st.setFlag("taken", false)
		}
	}
	c.connWorld(true, del)
}

// chanType is the type of the channel of a send or receive event.
func chanType(ev *Event) types.Type {
	switch i := ev.Instr.(type) {
	case *ssa.Send:
		return i.Chan.Type()
	case *ssa.Select:
		for k, s := range i.States {
			if k < len(ev.Cases) && ev.Cases[k].Chan == ev.Chan {
				return s.Chan.Type()
			}
		}
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			return i.X.Type()
		}
	}
	if ev.Chan != nil && ev.Chan.Typ != nil {
		return ev.Chan.Typ
	}
	return types.NewChan(types.SendRecv, types.Typ[types.Int])
}

// pendingOwner: only the one who removed a waiting request from the table, under the lock it was found under, may use its channel.
func (c *Check) pendingOwner(owner, nopanic string) MonitorFunc {
	return func(x *Exec, st *State, ev *Event) {
		switch {
		case c.isPending(ev) && (ev.Kind == EvMapGet || ev.Kind == EvRange):
			if ev.Kind == EvRange && !ev.OK {
				return
			}
			delete(st.mon, "ownch")
			st.setFlag("owntaken", false)
			st.setFlag("ownused", false)
			st.mon["ownkey"] = ev.Key
			delete(st.mon, "ownok")
			if ev.Val == nil {
				st.mon["ownok"] = ev.Res
				st.mon["ownch"] = st.load(mapCell(ev.Map, ev.Key, mapTypeOf(ev).Elem()), mapTypeOf(ev).Elem())
			} else if ev.OK {
				st.mon["ownch"] = unconv(ev.Val)
			}
			st.setFlag("ownlocked", heldWrite(st))
		case c.isPending(ev) && ev.Kind == EvMapDel:
			if st.mon["ownkey"] == ev.Key && st.flag("ownlocked") {
				st.setFlag("owntaken", true)
				st.setFlag("needdel", false)
			}
		case ev.Kind == EvStore:
			// the whole table is replaced
			if ev.Val.Op == OMakeMap || ev.Val == vNil || ev.Val.Op == OZero {
				if m, ok := typeUnder(deref(ev.Addr.Typ)).(*types.Map); ok && c.isMsgChan(m.Elem()) {
					st.setFlag("needdel", false)
					st.setFlag("swapped", true)
				}
			}
		case ev.Kind == EvUnlock:
			if st.flag("needdel") {
				c.bad(owner, at(ev), x, st, ev.Pos, "the channel of a waiting request is closed but the request stays registered: it will be used again")
				st.setFlag("needdel", false)
			}
			st.setFlag("ownlocked", false)
		case ev.Kind == EvClose || ev.Kind == EvSend || ev.Kind == EvSelect && ev.Send:
			if ev.Kind == EvClose {
				b := ev.Chan
				if b.Op == OMakeChan && st.mon["ownch"] != b {
					return // a channel not looked up: judged elsewhere
				}
				if !c.isMsgChan(closedType(ev)) {
					return
				}
			} else if !c.isMsgChan(chanType(ev)) {
				return
			}
			ch := unconv(ev.Chan)
			there := ch.Op != OZero && ch != vNil && st.nilness(ch) <= 0
			if k := st.mon["ownok"]; k != nil && st.truth(k) <= 0 && st.nilness(ch) >= 0 {
				there = false
			}
			c.check(there, nopanic, at(ev), x, st, ev.Pos, "the channel of a request that is not there is used")
			own := st.mon["ownch"] == ch && (st.flag("owntaken") || st.flag("ownlocked") || st.flag("swapped"))
			c.check(own && !st.flag("ownused"), owner, at(ev), x, st, ev.Pos, "the channel of a waiting request is used by one who did not remove the request from the table under the lock it was found under")
			if own && !st.flag("owntaken") && !st.flag("swapped") {
				st.setFlag("needdel", true)
			}
			if ev.Kind == EvClose {
				st.setFlag("ownused", true)
			}
		}
	}
}

func closedType(ev *Event) types.Type {
	if i, ok := ev.Instr.(ssa.CallInstruction); ok && len(i.Common().Args) == 1 {
		return i.Common().Args[0].Type()
	}
	if ev.Chan != nil && ev.Chan.Typ != nil {
		return ev.Chan.Typ
	}
	return types.Typ[types.Invalid]
}

func c11(c *Check) {
	A, P := c.A, c.P
	c.rule("drained", 2, "before a connection gives its closed signal, every waiting request was released and further requests are refused, decided under the lock of the table of waiting requests")
	c.rule("each", 1, "every waiting request of a dropped connection is released")
	c.rule("refused", 1, "a request is registered only after seeing, under the same lock, that the connection was not dropped")
	c.rule("waits-for-both", 1, "a request waits for its response and for its context at the same time")
	c.rule("failure-is-error", 1, "a request returns without an error only with a response that was received")
	c.rule("unsent-forgotten", 1, "a request that could not be sent is not left waiting")
	c.rule("owner", 3, "a waiting request is released or answered only by the one who removed it from the table, under the lock it was found under")
	c.rule("no-panic", 3, "only the channel of a request that was found is used")

	var seal *fref
	isTable := func(t types.Type) bool {
		s := structOf(t)
		if s == nil {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && c.isMsgChan(m.Elem()) {
				return true
			}
		}
		return false
	}
	drain := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || ci.writer {
			return
		}
		switch {
		case ev.Kind == EvStore && ev.Val == vTrue:
			if base, path := addrRef(ev.Addr); len(path) > 0 && base.Typ != nil && isTable(deref(base.Typ)) && heldWrite(st) {
				f := &fref{typ: deref(base.Typ), path: path}
				if seal == nil || seal.same(f) {
					seal = f
					st.setFlag("sealed", true)
				}
			}
		case c.isPending(ev) && ev.Kind == EvRange:
			if st.mon["elem"] != nil {
				c.bad("each", at(ev), x, st, ev.Pos, "a waiting request is skipped when the connection drops")
				delete(st.mon, "elem")
			}
			if ev.OK {
				st.mon["elem"], st.mon["elemch"] = ev.Key, unconv(ev.Val)
			} else {
				c.ok("each", at(ev), ev.Pos)
				if heldWrite(st) || st.flag("sealed") {
					st.setFlag("drained", true)
				}
			}
		case ev.Kind == EvClose:
			if st.mon["elem"] != nil && unconv(ev.Chan) == st.mon["elemch"] {
				delete(st.mon, "elem")
				delete(st.mon, "elemch")
			}
			if A.is(st, ev.Chan, A.Done) == ci.client {
				c.check(st.flag("drained") && st.flag("sealed"), "drained", ci.dir(), x, st, ev.Pos,
					"the closed signal is given while requests may still be waiting (released: %v) or be registered (refused: %v)", st.flag("drained"), st.flag("sealed"))
			}
		case ev.Kind == EvUnlock:
			if st.flag("drained") && !st.flag("sealed") {
				st.setFlag("drained", false)
			}
		}
	}
	c.connWorld(true, drain, c.pendingOwner("owner", "no-panic"))

	mon := func(x *Exec, st *State, ev *Event) {
		switch {
		case ev.Kind == EvLoad && seal.match0(ev.Addr):
			st.mon["seal"] = ev.Val
		case ev.Kind == EvUnlock:
			delete(st.mon, "seal")
		case c.isPending(ev) && ev.Kind == EvMapSet:
			s := st.mon["seal"]
			c.check(heldWrite(st) && s != nil && st.truth(s) < 0, "refused", at(ev), x, st, ev.Pos, "a request may be registered on a connection that was dropped: nothing ever releases it")
			st.mon["reg"], st.mon["regch"] = ev.Key, unconv(ev.Val)
			st.setFlag("waiting", true)
		case c.isPending(ev) && ev.Kind == EvMapDel:
			if st.mon["reg"] == ev.Key {
				st.setFlag("waiting", false)
			}
		case c.isPending(ev) && ev.Kind == EvMapGet:
			if !ev.OK && ev.Val != nil && st.mon["reg"] == ev.Key {
				st.setFlag("waiting", false)
			}
		case ev.Kind == EvStore:
			if b, _, _ := c.enqueue(st, ev); b != nil {
				st.setFlag("queued", true)
			}
		case ev.Kind == EvSelect:
			own, ctx := false, false
			for _, k := range ev.Cases {
				if k.Send {
					continue
				}
				ch := unconv(k.Chan)
				if ch != nil && ch == st.mon["regch"] {
					own = true
				}
				if ch != nil && ch.Op == OCall && ch.Str == "(context.Context).Done" && contains(ch, x.Root.Args[1]) {
					ctx = true
				}
			}
			if own {
				c.check(ctx, "waits-for-both", at(ev), x, st, ev.Pos, "a request goes on waiting although its context ended")
				if ev.Chan != nil && unconv(ev.Chan) == st.mon["regch"] {
					st.mon["answer"], st.mon["ansok"] = ev.Val, ev.Res
				}
			}
		case ev.Kind == EvRecv:
			if ev.Chan != nil && unconv(ev.Chan) == st.mon["regch"] {
				c.bad("waits-for-both", at(ev), x, st, ev.Pos, "a request goes on waiting although its context ended")
			}
		case ev.Kind == EvReturn && len(x.Root.parents) == 0:
			if ev.Res.Op != OTuple {
				return
			}
			n := st.nilness(ev.Res.Args[1])
			if n >= 0 {
				a, ok := st.mon["answer"], st.mon["ansok"]
				c.check(a != nil && (st.nonZero(c.msgNonce(a)) || ok != nil && st.truth(ok) > 0), "failure-is-error", fnName(x.Root.Fn), x, st, ev.Pos,
					"a request may return without an error although no response was received")
			}
			if !st.flag("queued") {
				c.check(!st.flag("waiting"), "unsent-forgotten", fnName(x.Root.Fn), x, st, ev.Pos, "a request that was not sent stays registered")
			}
		}
	}
	c.run(World{Name: "requests", Fns: []*ssa.Function{P.method("", "Node", "Request")}, Mons: []MonitorFunc{c.pendingOwner("owner", "no-panic"), mon}, NoContent: true,
		OnGo: func(x *Exec, st *State, ev *Event, r *Root) bool { return false }})
}

// match0 reports whether a is the address of f.
func (f *fref) match0(a *V) bool { return f.match(a) != nil }

func c12(c *Check) {
	A, P := c.A, c.P
	c.rule("one-response", 2, "a response to a request is queued only by the one who atomically claimed the right to respond")
	c.rule("claim-shared", 1, "all copies of a handler context share the right to respond")
	c.rule("claim-per-message", 2, "every received message comes with its own right to respond, not yet used")
	var claim []int // path of the field of HandlerContext the claim is made on
	mon := func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvCall:
			target := ev.Recv
			args := ev.Args
			var won *V
			switch {
			case ev.Res == nil:
			case atomicOp(ev.Name, "CAS"), atomicOp(ev.Name, "CompareAndSwap"):
				if target == nil && len(args) == 3 {
					target, args = args[0], args[1:]
				}
				if len(args) == 2 && isFalse(args[0]) && !isFalse(args[1]) && args[1].isConst() {
					won = ev.Res
				}
			case atomicOp(ev.Name, "Swap"):
				if target == nil && len(args) == 2 {
					target, args = args[0], args[1:]
				}
				if len(args) == 1 && args[0].isConst() && !isFalse(args[0]) {
					if isBoolType2(ev.Res.Typ) {
						won = vNot(ev.Res)
					}
				}
			}
			if won == nil {
				return
			}
			f := refFrom(initOf(target), A.HCtx)
			if c.check(f != nil, "claim-shared", at(ev), x, st, ev.Pos, "the right to respond is kept in the handler context itself, of which every copy has its own") {
				claim = f.path
				st.mon["won"] = won
			}
		case EvBranch:
			if w := st.mon["won"]; w != nil && st.truth(w) > 0 {
				st.setFlag("may", true)
			}
			if n := c.ctxNonce(x); n != nil && st.entailsEq(linOf(n), newLin(0)) {
				st.setFlag("plain", true)
			}
		case EvStore:
			if b, _, _ := c.enqueue(st, ev); b != nil {
				c.check((st.flag("may") || st.flag("plain")) && !st.flag("responded"), "one-response", fnName(x.Root.Fn), x, st, ev.Pos, "a second response to the same request may be queued")
				st.setFlag("responded", true)
			}
		}
	}
	c.run(World{Name: "responses", Fns: []*ssa.Function{P.method("", "HandlerContext", "Send"), P.method("", "HandlerContext", "SendMessage")}, NoContent: true, Mons: []MonitorFunc{mon},
		OnGo: func(x *Exec, st *State, ev *Event, r *Root) bool { return false }})
	if claim == nil {
		return
	}
	per := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || ev.Kind != EvSend && !(ev.Kind == EvSelect && ev.Send) || A.is(st, ev.Chan, A.Work) == nil {
			return
		}
		v := ev.Val
		t := A.HCtx
		for _, i := range claim {
			v = vField(v, t, i)
			t = structOf(t).Field(i).Type()
		}
		fresh := v.Op == OAlloc && !st.flagged("prevclaim", v)
		if v.Op == OCall && len(v.Args) <= 1 && atomicOp(v.Str, "New") {
			fresh = len(v.Args) == 0 || isFalse(v.Args[0])
		}
		if v.Op == OAlloc {
			z := st.load(v, deref(v.Typ))
			fresh = fresh && (z.Op == OZero || isFalse(z) || z.Op == OStruct)
		}
		c.check(fresh && st.mon["prevclaim"] != v, "claim-per-message", ci.dir(), x, st, ev.Pos, "a received message does not come with a right to respond of its own")
		st.mon["prevclaim"] = v
	}
	c.connWorld(true, per)
}

func (st *State) flagged(k string, v *V) bool { return st.mon[k] == v }

// atomicOp: an atomic operation whose name starts with op.
func atomicOp(name, op string) bool {
	i := strings.LastIndexByte(name, '.')
	return i > 0 && (strings.Contains(name[:i], "sync/atomic") || strings.Contains(name[:i], "go.uber.org/atomic")) && strings.HasPrefix(name[i+1:], op)
}

func isFalse(v *V) bool {
	v = unconv(v)
	if n, ok := v.intConst(); ok {
		return n == 0
	}
	return v == vFalse || v.Op == OZero
}

// ctxNonce is the number in the handler context the root works on.
func (c *Check) ctxNonce(x *Exec) *V {
	if x.Root == nil || len(x.Root.Args) == 0 || !sameNamed(x.Root.Args[0].Typ, c.A.HCtx) {
		return nil
	}
	f := &fref{typ: c.A.HCtx, path: []int{c.A.MsgRef, c.A.MsgNonce}}
	a := f.of(x.Root.Args[0])
	return mk(V{Op: OInit, Args: []*V{a}, Typ: f.ftype()})
}

// workerKind: the goroutine takes messages from the work queue.
func c13(c *Check) {
	A, P := c.A, c.P
	c.rule("in-order", 2, "every handler gets a received message in the order of registration, the next one only after the one before it returned no error")
	c.rule("same-message", 2, "a handler gets the message that was taken from the queue")
	c.rule("all-handlers", 1, "a worker does not turn to the next message before every handler had this one, or one returned an error")
	c.rule("worker-survives", 1, "a worker ends only when the node is closing and nothing is left in the queue")
	c.rule("workers", 1, "as many workers are started as configured")
	c.rule("queue-open", 2, "messages are put into the queue by sends that do not panic: the queue is never closed")
	c.rule("received-delivered", 2, "a message received is delivered to its request or to the handlers, unless the connection or the node is closing or the connection records an error")
	const nh = 2
	work := func(x *Exec, st *State, ev *Event) {
		settle := func() {
			if st.mon["msg"] == nil {
				return
			}
			h := st.mon["hres"]
			ok := st.count("h") == nh || h == vTrue
			c.check(ok, "all-handlers", at(ev), x, st, ev.Pos, "a worker goes on after %d of %d handlers although none returned an error", st.count("h"), nh)
			delete(st.mon, "msg")
			delete(st.mon, "hres")
			st.setCount("h", 0)
		}
		switch ev.Kind {
		case EvClose:
			if A.is(st, ev.Chan, A.Work) != nil {
				c.bad("queue-open", at(ev), x, st, ev.Pos, "the queue of messages is closed while connections may still put messages into it")
			}
		case EvSend, EvSelect, EvRecv:
			if len(x.Root.parents) == 0 {
				return
			}
			isWork := ev.Chan != nil && A.is(st, ev.Chan, A.Work) != nil
			if ev.Kind == EvSend || ev.Kind == EvSelect && ev.Send {
				if isWork {
					c.ok("queue-open", at(ev)+" "+strings.TrimPrefix(x.Root.Name, modPath), ev.Pos)
				}
				return
			}
			worker := isWork
			for _, k := range ev.Cases {
				if !k.Send && A.is(st, k.Chan, A.Work) != nil {
					worker = true
				}
			}
			if worker {
				st.setFlag("worker", true)
			}
			if !st.flag("worker") {
				return
			}
			settle()
			st.setFlag("empty", false)
			if isWork {
				st.mon["msg"] = ev.Val
				st.setCount("h", 0)
			} else if ev.Kind == EvSelect && ev.Chan == nil && worker {
				st.setFlag("empty", true)
			} else if ev.Chan != nil {
				if _, f := A.holder(st, ev.Chan, A.Node); f != nil {
					st.setFlag("closing", true)
				}
			}
		case EvCall:
			i, name, ok := callback(ev)
			if !ok || name != "handler" {
				return
			}
			m := st.mon["msg"]
			c.check(m != nil && len(ev.Args) == 1 && (ev.Args[0] == m), "same-message", fmt.Sprint("handler ", i), x, st, ev.Pos, "a handler is given another message than the one taken from the queue")
			c.check(st.count("h") == int64(i) && st.mon["hres"] == nil, "in-order", fmt.Sprint("handler ", i), x, st, ev.Pos,
				"a handler is called out of order, or although the one before it returned an error")
			st.setCount("h", int64(i)+1)
			st.mon["hres"] = ev.Res
		case EvBranch:
			if h := st.mon["hres"]; h != nil && h != vTrue {
				if n := st.nilness(h); n > 0 {
					delete(st.mon, "hres")
				} else if n < 0 {
					st.mon["hres"] = vTrue
				}
			}
		case EvPanic:
			if st.flag("worker") {
				c.bad("worker-survives", at(ev), x, st, ev.Pos, "a worker panics")
			}
		case EvReturn:
			if st.flag("worker") {
				settle()
				c.check(st.flag("closing") && st.flag("empty"), "worker-survives", at(ev), x, st, ev.Pos, "a worker ends although the node is not closing or messages are left in the queue")
			}
		}
	}
	recv := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || ci.writer {
			return
		}
		settle := func() {
			if st.mon["rxerr"] == nil {
				return
			}
			c.check(st.mon["rxerr"] != vTrue || st.flag("reported"), "received-delivered", ci.dir(), x, st, ev.Pos, "a message that was received is dropped")
			delete(st.mon, "rxerr")
		}
		switch ev.Kind {
		case EvCall:
			if netRead(ev.Name) {
				settle()
			}
			if strings.HasSuffix(ev.Name, "cipher.AEAD).Open") {
				settle()
				st.mon["rxerr"] = vExtract(ev.Res, 1, types.Universe.Lookup("error").Type())
			}
		case EvBranch:
			if e := st.mon["rxerr"]; e != nil && e != vTrue {
				if n := st.nilness(e); n < 0 {
					delete(st.mon, "rxerr")
				} else if n > 0 {
					st.mon["rxerr"] = vTrue
				}
			}
		case EvSend, EvSelect, EvRecv:
			if ev.Chan != nil {
				if ev.Send && A.is(st, ev.Chan, A.Work) != nil || c.isMsgChan(chanType(ev)) && (ev.Send || ev.Kind == EvSend) {
					delete(st.mon, "rxerr")
				} else if ev.Kind == EvSend && A.is(st, ev.Chan, A.Work) != nil {
					delete(st.mon, "rxerr")
				} else if ev.Kind != EvSend && !ev.Send {
					delete(st.mon, "rxerr") // the connection or the node is closing
				}
			}
		case EvClose:
			if A.is(st, ev.Chan, A.Ready) == ci.client {
				delete(st.mon, "rxerr")
			}
		case EvReturn:
			settle()
		}
	}
	c.connWorld(true, c.seedHandlers(nh), c.trackErr(), work, recv)

	// the number of workers
	nw := A.Opt["NumWorkers"]
	if nw == nil {
		c.bad("workers", "option", nil, nil, 0, "the option for the number of workers stores nothing")
		return
	}
	const want = 2
	isWorker := map[*ssa.Function]bool{}
	var done []map[string]int64
	cnt := func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvLoad:
			if nw.match(ev.Addr) != nil {
				ev.Val = mk(V{Op: OConst, Const: constant.MakeInt64(want), Str: fmt.Sprint(want), Typ: nw.ftype()})
			}
		case EvGo:
			if ev.Sfn != nil && len(x.Root.parents) == 0 {
				k := "go:" + ev.Sfn.String()
				if n := st.count(k); n <= want {
					st.setCount(k, n+1)
				}
			}
		case EvRecv, EvSelect:
			if len(x.Root.parents) > 0 {
				cases := ev.Cases
				if ev.Kind == EvRecv {
					cases = []SelCase{{Chan: ev.Chan}}
				}
				for _, k := range cases {
					if k.Chan != nil && !k.Send && A.is(st, k.Chan, A.Work) != nil {
						isWorker[x.Root.Fn] = true
					}
				}
			}
		case EvReturn:
			if len(x.Root.parents) == 0 && st.nilness(ev.Res) >= 0 {
				m := map[string]int64{}
				for k := range st.mon {
					if strings.HasPrefix(k, "go:") {
						m[k] = st.count(k)
					}
				}
				done = append(done, m)
			}
		}
	}
	c.run(World{Name: "workers", Fns: []*ssa.Function{P.method("", "Node", "Listen")}, Mons: []MonitorFunc{cnt}, NoContent: true, MaxLen: 4, OnGo: c.freshMon})
	pos := P.method("", "Node", "Listen").Pos()
	for fn := range isWorker {
		for _, m := range done {
			n := m["go:"+fn.String()]
			c.check(n == want, "workers", fnName(fn), nil, nil, pos, "with %d workers configured, %d are started", want, n)
		}
	}
}
