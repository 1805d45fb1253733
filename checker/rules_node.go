package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the life of a node.

func init() {
	register("C17", c17)
	register("C18", c18)
}

const netListenerClose = "(net.Listener).Close"

// atomicStore recognises a flag of a node being set.
func (c *Check) atomicStore(ev *Event) (f *fref, val *V, ok bool) {
	if ev.Kind != EvCall || ev.Recv == nil || len(ev.Args) == 0 || !strings.HasSuffix(ev.Name, "Bool).Store") {
		return
	}
	if f = refFrom(ev.Recv, c.A.Node); f == nil {
		return
	}
	return f, ev.Args[0], true
}

func c17(c *Check) {
	A, P := c.A, c.P
	cf := c.closeFacts()
	closeFn, listen := P.method("", "Node", "Close"), P.method("", "Node", "Listen")
	c.rule("listener-closed", 1, "closing a listening node closes its listener, once, and reports the error of doing so")
	c.rule("listener-gate", 1, "only one of several closers closes the listener: the flag that lets it is tested and cleared in one step")
	c.rule("waits-for-end", 1, "closing a node that was started waits until the goroutine that accepts connections gives its end signal")
	c.rule("dialer-released", 1, "closing a node that was never started closes all its outbound connections and waits for nothing but them")
	c.rule("accept-ends", 1, "the goroutine that accepts connections ends when accepting fails")
	c.rule("release-all", 2, "the goroutine that accepts connections ends only after every connection of both pools was closed and has ended")
	c.rule("end-signals", 2, "the goroutine that accepts connections gives the stop signal of the workers and, as its last act, the end signal, each exactly once; nobody else gives them")
	c.rule("no-block", 0, "the goroutine that accepts connections sends nothing that could block its end")
	c.rule("workers-ended", 1, "the end signal is given only after the workers were told to stop and have ended")
	c.rule("workers-counted", 1, "every worker counts itself out when it ends, and is counted in before it starts")

	// the channel Close waits on
	var endSig, stopSig *fref
	probe(P, closeFn, func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvRecv || ev.Kind == EvSelect && !ev.Send {
			if _, f := A.holder(st, ev.Chan, A.Node); f != nil {
				endSig = f
			}
		}
	})
	if endSig == nil {
		c.bad("waits-for-end", "Node.Close", nil, nil, closeFn.Pos(), "closing a node waits for no signal")
		return
	}
	capOf := map[string]int64{}
	probe(P, P.function("", "NewNode"), func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvStore {
			if f := refFrom(ev.Addr, A.Node); f != nil && ev.Val.Op == OMakeChan && len(ev.Val.Args) > 0 {
				if n, ok := ev.Val.Args[0].intConst(); ok {
					capOf[f.String()] = n
				}
			}
		}
	})

	isAccepting := func(x *Exec) bool {
		return len(x.Root.parents) == 1 && x.Root.parents[0] == listen && reaches(x.Root.Fn, "Listener).Accept")
	}
	isWorker := func(x *Exec) bool { return len(x.Root.parents) == 1 && x.Root.parents[0] == listen && !isAccepting(x) }

	// what the workers wait for to end
	c.run(World{Name: "the workers", Fns: []*ssa.Function{listen}, NoContent: true, OnGo: c.freshMon, Mons: []MonitorFunc{func(x *Exec, st *State, ev *Event) {
		if !isWorker(x) {
			return
		}
		switch ev.Kind {
		case EvRecv, EvSelect:
			for _, cs := range ev.Cases {
				if _, f := A.holder(st, cs.Chan, A.Node); f != nil && !cs.Send && !f.same(A.Work) {
					stopSig = f
				}
			}
			if ev.Chan != nil {
				if _, f := A.holder(st, ev.Chan, A.Node); f != nil && !ev.Send && !f.same(A.Work) {
					stopSig = f
				}
			}
		case EvCall:
			if ev.Name == "(*sync.WaitGroup).Done" {
				if st.flag("counted") {
					c.bad("workers-counted", "worker twice", x, st, ev.Pos, "a worker counts itself out twice")
				}
				st.setFlag("counted", true)
			}
		case EvReturn:
			c.check(st.flag("counted"), "workers-counted", "worker", x, st, ev.Pos, "a worker ends without counting itself out, so closing the node never ends")
		}
	}}})
	if stopSig == nil {
		c.bad("end-signals", "workers", nil, nil, listen.Pos(), "the workers wait for no signal of the node to stop")
		return
	}

	stepDone := func(st *State) {
		if st.mon["rc"] == nil {
			return
		}
		for _, k := range []string{"closed", "waited"} {
			if !st.flag("r:" + k) {
				st.setFlag("l:"+k, false)
			}
			st.setFlag("r:"+k, false)
		}
		delete(st.mon, "rc")
	}
	released := func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvRange:
			p := c.poolOf(st, ev.Map)
			dbg("range", ev.Map, p)
			if p == nil || p.in == nil {
				return
			}
			dir := dirName(*p.in)
			if st.mon["lmap"] != ev.Map {
				st.mon["lmap"] = ev.Map
				st.setFlag("l:closed", true)
				st.setFlag("l:waited", true)
				delete(st.mon, "rc")
			}
			stepDone(st)
			if ev.OK {
				st.mon["rc"] = c.entryClient(ev.Val)
				return
			}
			if st.flag("l:closed") {
				st.setFlag("closedall:"+dir, true)
			}
			if st.flag("l:waited") {
				st.setFlag("waitedall:"+dir, true)
			}
			delete(st.mon, "lmap")
			st.setFlag("l:closed", false)
			st.setFlag("l:waited", false)
		case EvStore:
			if f := refFrom(ev.Addr, A.Client); f != nil && f.same(cf.flag) && ev.Val == vTrue {
				if b, _ := addrRef(ev.Addr); b == st.mon["rc"] {
					st.setFlag("r:closed", true)
				}
			}
		case EvRecv:
			if b := A.is(st, ev.Chan, A.Done); b != nil && b == st.mon["rc"] {
				st.setFlag("r:waited", true)
			}
		}
	}
	all := func(st *State, dir string) bool { return st.flag("closedall:"+dir) && st.flag("waitedall:"+dir) }

	acc := func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvClose {
			if _, f := A.holder(st, ev.Chan, A.Node); f != nil && !isAccepting(x) && (f.same(endSig) || f.same(stopSig)) {
				c.bad("end-signals", at(ev), x, st, ev.Pos, "%s is closed outside the goroutine that accepts connections", f)
			}
		}
		if !isAccepting(x) {
			return
		}
		switch ev.Kind {
		case EvCall:
			switch {
			case strings.HasSuffix(ev.Name, "Listener).Accept"):
				c.check(!st.flag("acceptfailed"), "accept-ends", "accept", x, st, ev.Pos, "after accepting failed it is tried again: a closed node goes on for ever")
				st.mon["acc"] = ev.Res
			case ev.Name == "(*sync.WaitGroup).Wait":
				c.check(st.flag("sig:"+stopSig.String()), "workers-ended", "order", x, st, ev.Pos, "the workers are waited for before they are told to stop")
				st.setFlag("workersended", true)
			}
		case EvBranch:
			if r := st.mon["acc"]; r != nil {
				if e := errOf(r); e != nil {
					if n := st.nilness(e); n != 0 {
						st.setFlag("acceptfailed", n < 0)
						delete(st.mon, "acc")
					}
				}
			}
		case EvClose:
			_, f := A.holder(st, ev.Chan, A.Node)
			if f == nil {
				return
			}
			k := "sig:" + f.String()
			c.check(!st.flag(k), "end-signals", f.String(), x, st, ev.Pos, "%s is closed twice", f)
			st.setFlag(k, true)
			if f.same(endSig) {
				for _, d := range []string{"inbound", "outbound"} {
					c.check(all(st, d), "release-all", d, x, st, ev.Pos, "the end of the node is signalled although not every %s connection was closed and has ended", d)
				}
				c.check(st.flag("workersended"), "workers-ended", "end", x, st, ev.Pos, "the end of the node is signalled before the workers have ended")
			}
		case EvSend:
			if _, f := A.holder(st, ev.Chan, A.Node); f != nil {
				k := "sent:" + f.String()
				c.check(!st.flag(k) && capOf[f.String()] >= 1, "no-block", f.String(), x, st, ev.Pos, "sending on %s may block the end of the node", f)
				st.setFlag(k, true)
			}
		case EvReturn:
			for _, f := range []*fref{endSig, stopSig} {
				c.check(st.flag("sig:"+f.String()), "end-signals", f.String(), x, st, ev.Pos, "the goroutine that accepts connections ends without closing %s", f)
			}
		}
	}
	c.run(World{Name: "the node", Fns: []*ssa.Function{listen}, NoContent: true, OnGo: c.freshMon, Mons: []MonitorFunc{released, acc}, Skip: func(fn *ssa.Function) bool {
		// what connections do by themselves is of no interest here
		return false
	}})

	// Close itself
	clo := func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvCall:
			switch {
			case strings.HasSuffix(ev.Name, "Bool).CAS") || strings.HasSuffix(ev.Name, "Bool).CompareAndSwap") || strings.HasSuffix(ev.Name, "Bool).Swap"):
				if refFrom(ev.Recv, A.Node) != nil {
					st.mon["gate"] = ev.Res
				}
			case ev.Name == netListenerClose:
				g := st.mon["gate"]
				c.check(g != nil && st.truth(g) > 0, "listener-gate", "Node.Close", x, st, ev.Pos, "the listener may be closed by several closers, or without the node listening")
				c.check(!st.flag("lclosed"), "listener-closed", "once", x, st, ev.Pos, "the listener is closed twice")
				st.setFlag("lclosed", true)
				st.mon["lerr"] = ev.Res
			}
		case EvBranch:
			if g := st.mon["gate"]; g != nil && st.truth(g) > 0 {
				st.setFlag("gateopen", true)
			}
			if e := st.mon["lerr"]; e != nil {
				if n := st.nilness(e); n != 0 {
					st.setFlag("lfailed", n < 0)
					delete(st.mon, "lerr")
				}
			}
		case EvRecv:
			if A.is(st, ev.Chan, endSig) != nil {
				st.setFlag("waited", true)
			}
		case EvReturn:
			if st.flag("gateopen") {
				c.check(st.flag("lclosed"), "listener-closed", "Node.Close", x, st, ev.Pos, "a listening node is closed without closing its listener")
			}
			n := st.nilness(ev.Res)
			if e := st.mon["lerr"]; e != nil && ev.Res != e {
				c.bad("listener-closed", "error", x, st, ev.Pos, "the error of closing the listener is not looked at")
				return
			}
			if n < 0 || st.flag("lfailed") {
				c.check(n < 0 && st.flag("lfailed") || !st.flag("lfailed") && n <= 0, "listener-closed", "error", x, st, ev.Pos, "the error of closing the listener is not reported")
				return
			}
			if st.flag("waited") {
				c.ok("waits-for-end", "Node.Close", ev.Pos)
				return
			}
			c.check(all(st, "outbound"), "dialer-released", "Node.Close", x, st, ev.Pos, "closing the node returns without waiting for its end or closing the connections it has dialed")
		}
	}
	c.run(World{Name: "Node.Close", Fns: []*ssa.Function{closeFn}, NoContent: true, OnGo: c.freshMon, Mons: []MonitorFunc{released, clo}})

	// a node that is started has a goroutine that accepts: Close waits only if it was started
	c.startedGate(closeFn, listen, endSig)
}

// reaches: a function whose own instructions, or those of the functions and closures it calls directly, call name.
func reaches(fn *ssa.Function, suffix string) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function, d int) bool
	rec = func(f *ssa.Function, d int) bool {
		if f == nil || seen[f] || d > 6 {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				cm := ci.Common()
				if cm.IsInvoke() && strings.HasSuffix(cm.Method.FullName(), suffix) {
					return true
				}
				if s := cm.StaticCallee(); s != nil && (strings.HasSuffix(s.String(), suffix) || rec(s, d+1)) {
					return true
				}
			}
		}
		return false
	}
	return rec(fn, 0)
}

// startedGate: closing waits for the end signal only after seeing a flag that is set only when the goroutine that gives the
// signal is started, and closing a node that was started cannot skip the wait.
func (c *Check) startedGate(closeFn, listen *ssa.Function, endSig *fref) {
	A := c.A
	c.rule("started-gate", 2, "closing waits for the end signal exactly if the goroutine that gives it was started")
	var gate *fref
	mon := func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvCall:
			if strings.HasSuffix(ev.Name, "Bool).Load") && refFrom(ev.Recv, A.Node) != nil {
				st.mon["flag"] = ev.Res
				gate = refFrom(ev.Recv, A.Node)
			}
		case EvRecv:
			if A.is(st, ev.Chan, endSig) != nil {
				f := st.mon["flag"]
				c.check(f != nil && st.truth(f) > 0, "started-gate", "Node.Close", x, st, ev.Pos, "closing a node that was never started waits for a signal nobody gives")
				st.setFlag("waited", true)
			}
		}
	}
	c.run(World{Name: "Node.Close", Fns: []*ssa.Function{closeFn}, NoContent: true, OnGo: c.freshMon, Mons: []MonitorFunc{mon}})
	if gate == nil {
		return
	}
	mon2 := func(x *Exec, st *State, ev *Event) {
		if x.Root.Fn != listen {
			if f, v, ok := c.atomicStore(ev); ok && f.same(gate) {
				c.bad("started-gate", at(ev), x, st, ev.Pos, "the mark of a started node is changed to %v elsewhere", v)
			}
			return
		}
		if f, v, ok := c.atomicStore(ev); ok && f.same(gate) {
			st.setFlag("started", v == vTrue)
		}
		if ev.Kind == EvCall && ev.Name == "(*sync.WaitGroup).Add" {
			st.mon["add"] = unconv(ev.Args[0])
			st.setFlag("spent", false)
		}
		switch ev.Kind {
		case EvGo:
			fn := startedFn(ev)
			if fn == nil {
				return
			}
			if reaches(fn, "Listener).Accept") {
				st.setFlag("accepting", true)
			} else if reaches(fn, "WaitGroup).Done") {
				c.counted(x, st, ev)
			}
		case EvReturn:
			c.check(st.flag("started") == st.flag("accepting"), "started-gate", "Node.Listen", x, st, ev.Pos, "the node is marked as started although nothing accepts connections, or the other way round")
		}
	}
	c.run(World{Name: "Node.Listen", Fns: []*ssa.Function{listen}, NoContent: true, OnGo: func(*Exec, *State, *Event, *Root) bool { return false }, Mons: []MonitorFunc{mon2}})
}

// counted: the workers started are as many as were counted in: either each by itself, or all by the bound of the loop that
// starts them.
func (c *Check) counted(x *Exec, st *State, ev *Event) {
	add := st.mon["add"]
	if add == nil {
		c.bad("workers-counted", "before", x, st, ev.Pos, "a worker is started before it is counted in")
		return
	}
	if add == vInt(1) {
		c.check(!st.flag("spent"), "workers-counted", "before", x, st, ev.Pos, "a worker is started without being counted in")
		st.setFlag("spent", true)
		return
	}
	if st.flag("firstworker") {
		return
	}
	st.setFlag("firstworker", true)
	ok := false
	for f, t := range st.facts {
		if f.Op != OBin || f.Str != "<" {
			continue
		}
		a, b := unconv(f.Args[0]), unconv(f.Args[1])
		if t && a == vInt(0) && b == add || !t && a == add && b == vInt(1) {
			ok = true
		}
	}
	c.check(ok, "workers-counted", "before", x, st, ev.Pos, "the number of workers started is not the number counted in")
}

// startedFn is the function a go statement starts.
func startedFn(ev *Event) *ssa.Function {
	if ev.Sfn != nil {
		return ev.Sfn
	}
	if ev.FnVal != nil && (ev.FnVal.Op == OFunc || ev.FnVal.Op == OClosure) {
		return ev.FnVal.Fn
	}
	return nil
}

func c18(c *Check) {
	A, P := c.A, c.P
	listen := P.method("", "Node", "Listen")
	c.rule("refused-twice", 1, "a node that is listening is not made to listen again: nothing is opened before seeing that it is not")
	c.rule("failed-closes", 1, "when listening fails after the listener was opened, the listener is closed")
	c.rule("failed-quiet", 1, "when listening fails, no goroutine was started and the node is not marked as listening")
	c.rule("listening", 1, "listening succeeds only with an open listener, the node marked as listening and a goroutine accepting connections")
	c.rule("bound-all", 1, "listening succeeds only after every protocol that wants to was bound, exactly once, without an error")
	c.rule("bound-before", 2, "protocols are bound before any goroutine of the node is started and after the node's identity was set")
	c.rule("own-identity", 1, "the identity a listening node announces holds its own public key")
	for _, kinds := range []string{"ff", "zf"} {
		kinds := kinds
		mon := func(x *Exec, st *State, ev *Event) {
			if x.Root.Fn != listen || len(x.Root.parents) > 0 {
				return
			}
			if i, name, ok := callback(ev); ok && name == "Bind" {
				k := "bind" + string(rune('0'+i))
				c.check(!st.flag(k) && !st.flag("bindfailed"), "bound-all", "again", x, st, ev.Pos, "a protocol is bound twice, or after another one failed")
				c.check(!st.flag("going"), "bound-before", "goroutines", x, st, ev.Pos, "a protocol is bound after goroutines of the node were started")
				c.check(st.flag("idset"), "bound-before", "identity", x, st, ev.Pos, "a protocol is bound before the identity of the node is set")
				st.setFlag(k, true)
				st.mon["berr"] = ev.Res
			}
			switch ev.Kind {
			case EvCall:
				switch {
				case ev.Name == "net.Listen" || strings.HasSuffix(ev.Name, "ListenConfig).Listen") || ev.Name == "net.ListenTCP":
					l := st.mon["listening"]
					c.check(l != nil && st.truth(l) < 0, "refused-twice", "Node.Listen", x, st, ev.Pos, "a listener is opened although the node may be listening already")
					st.mon["lis"] = ev.Res
				case ev.Name == netListenerClose:
					st.setFlag("lclosed", true)
				case strings.HasSuffix(ev.Name, "Bool).Load") && refFrom(ev.Recv, A.Node) != nil && st.mon["listening"] == nil:
					st.mon["listening"] = ev.Res
					st.mon["lf"] = ev.Recv
				}
				if _, v, ok := c.atomicStore(ev); ok && ev.Recv == st.mon["lf"] {
					st.setFlag("marked", v == vTrue)
				}
			case EvBranch:
				if r := st.mon["lis"]; r != nil {
					if n := st.nilness(errOf(r)); n != 0 {
						st.setFlag("opened", n > 0)
						delete(st.mon, "lis")
					}
				}
				if e := st.mon["berr"]; e != nil {
					if n := st.nilness(e); n != 0 {
						st.setFlag("bindfailed", n < 0)
						delete(st.mon, "berr")
					}
				}
			case EvStore:
				if A.NodeID.match(rootField(ev.Addr, A.NodeID)) != nil {
					st.setFlag("idset", true)
				}
			case EvGo:
				st.setFlag("going", true)
				if fn := startedFn(ev); fn != nil && reaches(fn, "Listener).Accept") {
					st.setFlag("accepting", true)
				}
			case EvReturn:
				n := st.nilness(ev.Res)
				if n <= 0 {
					if st.mon["lis"] != nil || st.flag("opened") {
						c.check(st.flag("lclosed"), "failed-closes", at(ev), x, st, ev.Pos, "listening fails but the listener stays open")
					}
					c.check(!st.flag("going") && !st.flag("marked"), "failed-quiet", at(ev), x, st, ev.Pos, "listening fails although goroutines were started or the node is marked as listening")
				}
				if n >= 0 {
					c.check(st.flag("opened") && !st.flag("lclosed") && st.flag("marked") && st.flag("accepting"), "listening", at(ev), x, st, ev.Pos,
						"listening succeeds without an open listener, the mark of a listening node, or a goroutine that accepts connections")
					ok := !st.flag("bindfailed") && st.mon["berr"] == nil
					for i, k := range kinds {
						if k == 'f' && !st.flag("bind"+string(rune('0'+i))) {
							ok = false
						}
					}
					c.check(ok, "bound-all", at(ev), x, st, ev.Pos, "listening succeeds although a protocol was not bound or failed to be")
					node := x.Root.Args[0]
					id := st.load(A.NodeID.of(node), A.NodeID.ftype())
					key := st.load(A.PubKey.of(node), A.PubKey.ftype())
					has := false
					if s := structOf(A.NodeID.ftype()); s != nil {
						for i := 0; i < s.NumFields(); i++ {
							if types.Identical(s.Field(i).Type(), A.PubKey.ftype()) && vField(id, A.NodeID.ftype(), i) == key {
								has = true
							}
						}
					}
					c.check(has, "own-identity", at(ev), x, st, ev.Pos, "the identity of the node does not hold its public key")
				}
			}
		}
		c.run(World{Name: "Node.Listen " + kinds, Fns: []*ssa.Function{listen}, NoContent: true, OnGo: func(*Exec, *State, *Event, *Root) bool { return false }, Mons: []MonitorFunc{c.seedProtocols(kinds), mon}})
	}
}
