package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the pools of connections.

func init() {
	register("C22", c22)
	register("C23", c23)
}

// ofElem reads the part of type t of an entry of a pool.
func partOf(v *V, t types.Type) *V {
	if v == nil || v.Typ == nil {
		return nil
	}
	if types.Identical(v.Typ, t) {
		return v
	}
	if isPointer(v.Typ) {
		return nil
	}
	s := structOf(v.Typ)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), t) {
			return vField(v, v.Typ, i)
		}
	}
	return nil
}

func (c *Check) entryClient(v *V) *V { return partOf(v, types.NewPointer(c.A.Client)) }

// poolEntry reads the entry of key k.
func poolEntry(st *State, ev *Event) *V {
	mt, ok := ev.Map.Typ.Underlying().(*types.Map)
	if !ok {
		return nil
	}
	return st.load(mapCell(ev.Map, ev.Key, mt.Elem()), mt.Elem())
}

// isPoolLock: the lock of a pool of connections.
func (c *Check) isPoolLock(a *V) bool {
	base, _ := addrRef(a)
	return base != nil && base.Typ != nil && sameNamed(base.Typ, c.A.PoolType)
}

// poolLimits: the fields in which a pool keeps the limit given for its direction, and the one of the other direction.
func (c *Check) poolLimits() (own, other map[string]*fref) {
	A := c.A
	own, other = map[string]*fref{}, map[string]*fref{}
	notOwn, notOther := map[string]bool{}, map[string]bool{} // on some path it is another number
	given := map[string]*V{}
	opts := map[string]*fref{"inbound": A.Opt["MaxInboundConnections"], "outbound": A.Opt["MaxOutboundConnections"]}
	for o, f := range opts {
		given[o] = vParam("limit:"+o, f.ftype())
	}
	probe(c.P, c.P.function("", "NewNode"), func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvLoad {
			for o, f := range opts {
				if f.match(ev.Addr) != nil {
					ev.Val = given[o]
				}
			}
		}
		if ev.Kind != EvStore {
			return
		}
		for dir, f := range map[string]*fref{"inbound": A.In, "outbound": A.Out} {
			if f.match(ev.Addr) == nil {
				continue
			}
			t := deref(A.PoolType)
			s := structOf(t)
			if s == nil {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if b := basicOf(s.Field(i).Type()); b == nil || b.Info()&types.IsInteger == 0 {
					continue
				}
				v := unconv(st.load(vFieldAddr(ev.Val, t, i), s.Field(i).Type()))
				for _, o := range []string{"inbound", "outbound"} {
					m, no := own, notOwn
					if o != dir {
						m, no = other, notOther
					}
					if v == given[o] {
						m[dir] = &fref{typ: t, path: []int{i}}
					} else {
						no[dir] = true
					}
				}
			}
		}
	})
	for d := range notOwn {
		delete(own, d)
	}
	for d := range notOther {
		delete(other, d)
	}
	dbg("limits", own, other)
	return
}

func dirName(in bool) string {
	if in {
		return "inbound"
	}
	return "outbound"
}

func isListOp(ev *Event, names ...string) bool {
	for _, n := range names {
		if ev.Name == "(*container/list.List)."+n {
			return true
		}
	}
	return false
}

func c22(c *Check) {
	A := c.A
	cf := c.closeFacts()
	own, other := c.poolLimits()
	c.rule("bounded", 2, "a connection is put into a pool only if, under the lock of the pool, fewer connections than the limit of its direction were seen in it or one was taken out before")
	c.rule("limit-fixed", 0, "the limits are not changed once the node exists")
	c.rule("least-recent", 1, "the connection taken out to make room is the one at the end of the order of use opposite to the one at which new connections are put")
	c.rule("use-recorded", 2, "finding a connection in its pool and putting one into it move it to the recent end of the order of use")
	c.rule("order-agrees", 2, "the order of use and the table of a pool name the same connections: they are changed together, under one hold of the lock")
	c.rule("evicted-closed", 1, "the connection taken out to make room is closed before its remover waits for anything, and not under the lock of the pool")

	ends := map[string]map[string]bool{"in": {}, "out": {}}
	use := func(k, e string) {
		ends[k][e] = true
	}
	listElem := func(v *V) *V {
		if v == nil || v.Typ == nil {
			return nil
		}
		s := structOf(v.Typ)
		if isPointer(v.Typ) || s == nil {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if typeName(s.Field(i).Type()) == "*container/list.Element" {
				return vField(v, v.Typ, i)
			}
		}
		return nil
	}
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci != nil && ci.writer {
			return
		}
		reset := func() {
			for k := range st.mon {
				if strings.HasPrefix(k, "s:") {
					delete(st.mon, k)
				}
			}
		}
		settled := func() {
			if st.mon["evicted"] != nil {
				c.bad("evicted-closed", "wait", x, st, ev.Pos, "a connection was taken out of its pool to make room but is not closed")
				delete(st.mon, "evicted")
			}
		}
		switch ev.Kind {
		case EvLock:
			if c.isPoolLock(ev.Addr) {
				reset()
			}
		case EvUnlock:
			if !c.isPoolLock(ev.Addr) {
				return
			}
			dir := "other"
			if st.flag("s:in") {
				dir = "inbound"
			} else if st.flag("s:out") {
				dir = "outbound"
			}
			if ci != nil {
				dir += " end"
			}
			if st.flag("s:hit") && ci == nil && !st.flag("s:removed") {
				c.check(st.flag("s:moved"), "use-recorded", dir+" found", x, st, ev.Pos, "a connection found in its pool is not moved to the recent end of the order of use")
			}
			if st.flag("s:new") {
				c.check(st.flag("s:pushed"), "use-recorded", dir+" new", x, st, ev.Pos, "a new connection is not put at the recent end of the order of use")
			}
			if st.flag("s:new") || st.flag("s:pushed") || st.flag("s:removed") || st.flag("s:unlisted") || st.flag("s:swapped") || st.flag("s:emptied") {
				c.check(st.flag("s:new") == st.flag("s:pushed") && st.flag("s:removed") == st.flag("s:unlisted") && st.flag("s:swapped") == st.flag("s:emptied"), "order-agrees", dir, x, st, ev.Pos,
					"the table of a pool and its order of use do not name the same connections when the lock is released")
			}
			reset()
		case EvLoad:
			for k, f := range map[string]*fref{"s:limin": A.Opt["MaxInboundConnections"], "s:limout": A.Opt["MaxOutboundConnections"]} {
				if f.match(ev.Addr) != nil && len(st.locks) > 0 {
					st.mon[k] = ev.Val
				}
			}
			for k, l := range map[string]map[string]*fref{"s:own": own, "s:other": other} {
				for dir, f := range l {
					if f.match(ev.Addr) != nil && len(st.locks) > 0 {
						st.mon[k+dir] = ev.Val
					}
				}
			}
		case EvMapGet:
			p := c.poolOf(st, ev.Map)
			if p == nil || p.in == nil {
				return
			}
			if ev.Val != nil && (st.mon["s:ok"] != vFalse || st.mon["s:key"] == ev.Key) {
				st.mon["s:map"], st.mon["s:key"], st.mon["s:ok"] = ev.Map, ev.Key, boolV(ev.OK)
				st.setFlag("s:in", *p.in)
				st.setFlag("s:out", !*p.in)
				if ev.OK {
					st.mon["s:val"] = ev.Val
					st.setFlag("s:hit", true)
				}
			}
		case EvBranch:
			if e := st.mon["evicted"]; e != nil && st.nilness(e) > 0 {
				delete(st.mon, "evicted") // there was none: the order of use names existing entries only
			}
			m := st.mon["s:map"]
			if m == nil || st.mon["s:ok"] != vFalse {
				return
			}
			n := st.mapLen(m)
			in := st.flag("s:in")
			room := func(l *V) bool {
				if l == nil {
					return false
				}
				if st.ge(linOf(unconv(l)), linOf(n).add(newLin(1), 1)) {
					return true
				}
				for f, t := range st.facts {
					if f.Op == OBin && f.Str == "==" && !t {
						a, b := unconv(f.Args[0]), unconv(f.Args[1])
						if a == n && b == unconv(l) || b == n && a == unconv(l) {
							return true
						}
					}
				}
				return false
			}
			lo, lx := st.mon["s:limin"], st.mon["s:limout"]
			if !in {
				lo, lx = lx, lo
			}
			if room(lo) || room(st.mon["s:own"+dirName(in)]) {
				st.setFlag("s:room", true)
			}
			if room(lx) || room(st.mon["s:other"+dirName(in)]) {
				st.setFlag("s:wrongroom", true)
			}
		case EvMapSet:
			p := c.poolOf(st, ev.Map)
			if p == nil {
				return
			}
			if p.in == nil {
				c.bad("bounded", at(ev), x, st, ev.Pos, "a connection is put into a pool that is neither of the two of the node")
				return
			}
			if st.mon["s:ok"] == vTrue && st.mon["s:key"] == ev.Key {
				return // an entry that exists
			}
			dir := dirName(*p.in)
			st.setFlag("s:in", *p.in)
			st.setFlag("s:out", !*p.in)
			st.setFlag("s:new", true)
			switch {
			case st.flag("s:room") || st.flag("s:removed"):
				c.ok("bounded", dir, ev.Pos)
				c.ok("bounded", dir+" limit", ev.Pos)
			case st.flag("s:wrongroom"):
				c.bad("bounded", dir+" limit", x, st, ev.Pos, "the number of %s connections is compared with the limit for the other direction", dir)
			default:
				c.bad("bounded", dir, x, st, ev.Pos, "a connection is put into the %s pool although the pool may hold as many as its limit allows", dir)
			}
			if el := listElem(ev.Val); el != nil {
				c.check(st.mon["s:pushed"] == nil || el == st.mon["s:el"], "order-agrees", dir+" element", x, st, ev.Pos, "the entry does not keep its own place in the order of use")
			}
			if k := st.mon["s:pushkey"]; k != nil {
				c.check(k == unconv(ev.Key), "order-agrees", dir+" key", x, st, ev.Pos, "the order of use keeps another address than the table")
			}
			// neither the room nor the removal serves for another one
			st.setFlag("s:room", false)
			st.setFlag("s:wrongroom", false)
		case EvMapDel:
			p := c.poolOf(st, ev.Map)
			if p == nil || p.in == nil || ev.Key == nil {
				return
			}
			dir := dirName(*p.in)
			e := poolEntry(st, ev)
			st.setFlag("s:removed", true)
			st.setFlag("s:in", *p.in)
			st.setFlag("s:out", !*p.in)
			if ci != nil {
				return
			}
			b := walkGet(ev.Key, func(v *V) bool {
				return v.Op == OCall && (strings.HasSuffix(v.Str, "list.List).Back") || strings.HasSuffix(v.Str, "list.List).Front"))
			})
			step := walkGet(ev.Key, func(v *V) bool {
				return v.Op == OCall && (strings.HasSuffix(v.Str, "list.Element).Prev") || strings.HasSuffix(v.Str, "list.Element).Next"))
			})
			dbg("evict", ev.Key, e)
			if b == nil || step != nil {
				c.bad("least-recent", dir, x, st, ev.Pos, "the connection taken out of the %s pool is not the one at the end of the order of use", dir)
			} else if strings.HasSuffix(b.Str, "Back") {
				use("out", "back")
			} else {
				use("out", "front")
			}
			if mt, ok := ev.Map.Typ.Underlying().(*types.Map); ok && st.truth(mk(V{Op: OMapOK, Args: []*V{mapCell(ev.Map, ev.Key, mt.Elem())}, Typ: types.Typ[types.Bool]})) < 0 {
				return // there was none: the order of use names existing entries only
			}
			if cl := c.entryClient(e); cl != nil {
				st.mon["evicted"] = cl
			} else {
				c.bad("evicted-closed", dir, x, st, ev.Pos, "the connection taken out of the pool cannot be told")
			}
		case EvStore:
			if f := refFrom(ev.Addr, A.Client); f != nil && f.same(cf.flag) && ev.Val == vTrue {
				if b, _ := addrRef(ev.Addr); b == st.mon["evicted"] {
					held := false
					for _, h := range st.locks {
						held = held || c.isPoolLock(h.addr)
					}
					c.check(!held, "evicted-closed", "closed", x, st, ev.Pos, "a connection is closed under the lock of its pool")
					delete(st.mon, "evicted")
				}
			}
			if f := refFrom(ev.Addr, A.PoolType); f != nil {
				if _, ok := f.ftype().Underlying().(*types.Map); ok {
					if b, _ := addrRef(ev.Addr); b.Op != OAlloc || st.isShared(b) {
						st.setFlag("s:swapped", true)
					}
				}
				if typeName(f.ftype()) == "*container/list.List" {
					st.setFlag("s:emptied", true)
				}
			}
			for _, f := range []*fref{A.Opt["MaxInboundConnections"], A.Opt["MaxOutboundConnections"], own["inbound"], own["outbound"]} {
				if f == nil || f.match(ev.Addr) == nil {
					continue
				}
				if b, _ := addrRef(ev.Addr); b.Op != OAlloc || st.isShared(b) {
					c.bad("limit-fixed", at(ev), x, st, ev.Pos, "a limit is changed")
				}
			}
		case EvCall:
			switch {
			case isListOp(ev, "PushFront", "PushBack"):
				use("in", strings.ToLower(strings.TrimPrefix(ev.Name, "(*container/list.List).Push")))
				st.setFlag("s:pushed", true)
				st.mon["s:el"] = ev.Res
				st.mon["s:pushkey"] = unconv(ev.Args[0])
			case isListOp(ev, "MoveToFront", "MoveToBack"):
				use("in", strings.ToLower(strings.TrimPrefix(ev.Name, "(*container/list.List).MoveTo")))
				if el := listElem(st.mon["s:val"]); el != nil && el == ev.Args[0] {
					st.setFlag("s:moved", true)
				}
			case isListOp(ev, "Remove"):
				st.setFlag("s:unlisted", true)
				if el := listElem(st.mon["s:val"]); ci != nil {
					c.check(el == ev.Args[0], "order-agrees", ci.dir()+" end element", x, st, ev.Pos, "a connection that ends takes another one out of the order of use")
				}
			case isListOp(ev, "Init"):
				st.setFlag("s:emptied", true)
			case strings.HasSuffix(ev.Name, "Listener).Accept"):
				settled()
			}
		case EvRecv, EvSend, EvReturn:
			settled()
		case EvSelect:
			settled()
		case EvGo:
			// `go evicted.Close()` would do as well
			for _, a := range ev.Args {
				if a == st.mon["evicted"] && len(ev.Args) == 1 && ev.Sfn != nil && c.closesClient(ev.Sfn) {
					delete(st.mon, "evicted")
				}
			}
		}
	}
	var fns []*ssa.Function
	for _, f := range c.P.exported("") {
		fns = append(fns, f)
	}
	c.connWorld(true, mon)
	c.run(World{Name: "the interface", Fns: fns, Mons: []MonitorFunc{mon}, NoContent: true, OnGo: func(x *Exec, st *State, ev *Event, r *Root) bool { return false }})
	pos := c.P.method("", "Node", "Ping").Pos()
	opp := map[string]string{"front": "back", "back": "front"}
	okEnds := len(ends["in"]) == 1 && len(ends["out"]) == 1
	for e := range ends["in"] {
		okEnds = okEnds && ends["out"][opp[e]]
	}
	c.check(okEnds, "least-recent", "ends", nil, nil, pos, "new and used connections are moved to %v and removed from %v", sortedKeys(ends["in"]), sortedKeys(ends["out"]))
}

// closesClient: Client.Close or what it directly is.
func (c *Check) closesClient(fn *ssa.Function) bool {
	cl := c.P.method("", "Client", "Close")
	if fn == cl {
		return true
	}
	for _, b := range cl.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

func c23(c *Check) {
	A, P := c.A, c.P
	c.rule("absent-seen", 2, "a connection is put into a pool only after seeing, under the same hold of the lock, that the pool has none for its address")
	c.rule("one-goroutine", 2, "every connection put into a pool gets exactly one goroutine that runs it, before anybody waits for it")
	c.rule("not-rerun", 0, "no goroutine is started to run a connection found in a pool")
	c.rule("accepted-settled", 1, "a socket accepted from a peer is either handed to the goroutine of a new connection or closed, exactly one of the two")
	c.rule("own-entry", 2, "a connection that ends takes nothing but its own entry out of its pool, under the address it was put there")
	c.rule("right-peer", 3, "the connection used for an address is the one its pool has under that address, and the address dialed is that one")

	strParam := func(x *Exec) *V {
		r := x.Root
		for len(r.Args) > 0 {
			for i, p := range r.Fn.Params {
				if b := basicOf(p.Type()); b != nil && b.Kind() == types.String && i < len(r.Args) {
					return r.Args[i]
				}
			}
			break
		}
		return nil
	}
	onGo := func(x *Exec, st *State, ev *Event, r *Root) bool {
		r.State.mon = map[string]*V{}
		cl := A.clientArg(r.State, r)
		if cl == nil {
			return true
		}
		ci := A.conn(x, st)
		if ci != nil {
			return true
		}
		if cl == st.mon["new"] {
			r.State.mon["key"] = st.mon["newkey"]
			c.ok("one-goroutine", map[bool]string{true: "accepted", false: "dialed"}[st.mon["conn"] != nil], ev.Pos)
			st.mon["run"] = cl
			delete(st.mon, "new")
			delete(st.mon, "newkey")
		} else {
			r.State.setFlag("stale", true)
		}
		if s := st.mon["conn"]; s != nil {
			given := false
			for _, v := range append(append([]*V{}, r.Args...), r.Binds...) {
				if v == nil {
					continue
				}
				if contains(v, s) || isPointer(v.Typ) && r.State.load(v, deref(v.Typ)) == s {
					given = true
				}
			}
			if given {
				c.check(!st.flag("connclosed") && !st.flag("conngiven"), "accepted-settled", "given", x, st, ev.Pos, "a socket is handed to a connection although it was closed or handed over before")
				st.setFlag("conngiven", true)
			}
		}
		return true
	}
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci != nil && ci.writer {
			return
		}
		waits := func() {
			if ci == nil && st.mon["new"] != nil {
				c.bad("one-goroutine", "wait", x, st, ev.Pos, "a connection was put into a pool but no goroutine runs it")
				delete(st.mon, "new")
			}
		}
		acceptDone := func() {
			if st.mon["conn"] != nil {
				c.check(st.flag("connclosed") || st.flag("conngiven"), "accepted-settled", "kept", x, st, ev.Pos, "an accepted socket is neither handed to a connection nor closed")
				delete(st.mon, "conn")
				st.setFlag("connclosed", false)
				st.setFlag("conngiven", false)
			}
		}
		switch ev.Kind {
		case EvUnlock:
			if c.isPoolLock(ev.Addr) {
				for k := range st.mon {
					if strings.HasPrefix(k, "absent:") {
						delete(st.mon, k)
					}
				}
				delete(st.mon, "own")
			}
		case EvMapGet:
			p := c.poolOf(st, ev.Map)
			if p == nil || ev.Val == nil {
				return
			}
			st.setFlag("absent:"+ev.Key.String(), !ev.OK)
			if ev.OK {
				st.mon["own"] = ev.Val
				if cl := c.entryClient(ev.Val); cl != nil {
					st.mon["use"], st.mon["usekey"] = cl, ev.Key
				}
			}
		case EvMapSet:
			p := c.poolOf(st, ev.Map)
			if p == nil {
				return
			}
			dir := "other"
			if p.in != nil {
				dir = dirName(*p.in)
			}
			c.check(st.flag("absent:"+ev.Key.String()), "absent-seen", dir, x, st, ev.Pos, "a connection is put into the %s pool without seeing under the same lock that there is none for its address", dir)
			cl := c.entryClient(ev.Val)
			if cl == nil {
				c.bad("one-goroutine", dir, x, st, ev.Pos, "the connection put into the pool cannot be told")
				return
			}
			waits()
			if s := st.mon["conn"]; s != nil && ci == nil {
				k := unconv(ev.Key)
				whole := k.Op == OCall && (strings.HasSuffix(k.Str, "Addr).String") || strings.HasPrefix(k.Str, "fmt.Sprint"))
				c.check(whole && contains(k, s), "right-peer", "accepted", x, st, ev.Pos, "an accepted connection is not pooled under the whole address of its peer")
			}
			st.mon["new"], st.mon["newkey"] = cl, ev.Key
			st.mon["use"], st.mon["usekey"] = cl, ev.Key
		case EvMapDel:
			p := c.poolOf(st, ev.Map)
			if p == nil || ci == nil {
				return
			}
			v := st.mon["own"]
			c.check(v != nil && c.entryOwn(st, v, ci.client), "own-entry", ci.dir(), x, st, ev.Pos, "a connection that ends may take the entry of another one out of the pool")
			c.check(st.mon["key"] != nil && ev.Key == st.mon["key"], "own-entry", ci.dir()+" key", x, st, ev.Pos, "a connection is taken out of its pool under another address than it was put there")
		case EvSelect, EvRecv:
			waits()
		case EvClose:
			if ci != nil && st.flag("stale") && (A.is(st, ev.Chan, A.Ready) != nil || A.is(st, ev.Chan, A.Done) != nil) {
				c.bad("not-rerun", ci.dir(), x, st, ev.Pos, "a goroutine is started to run a connection that was found in its pool")
			}
		case EvBranch:
			if r := st.mon["accept"]; r != nil {
				if e := errOf(r); e != nil {
					if n := st.nilness(e); n > 0 {
						st.mon["conn"] = vExtract(r, 0, A.Conn.ftype())
						delete(st.mon, "accept")
					} else if n < 0 {
						delete(st.mon, "accept")
					}
				}
			}
		case EvCall:
			switch {
			case strings.HasSuffix(ev.Name, "Listener).Accept"):
				waits()
				acceptDone()
				st.mon["accept"] = ev.Res
			case ev.Name == netConnClose && ci == nil && ev.Recv == st.mon["conn"] && ev.Recv != nil:
				c.check(!st.flag("conngiven"), "accepted-settled", "closed", x, st, ev.Pos, "an accepted socket is closed although a connection was started for it")
				st.setFlag("connclosed", true)
			case isDial(ev.Name):
				a := ev.Args[len(ev.Args)-1]
				c.check(st.mon["key"] != nil && a == st.mon["key"], "right-peer", "dial", x, st, ev.Pos, "the address dialed is not the one the connection is pooled under")
			}
		case EvStore:
			if b, _, _ := c.enqueue(st, ev); b != nil && ci == nil {
				switch x.Root.Fn {
				case P.method("", "Node", "Send"), P.method("", "Node", "Request"):
					c.check(st.mon["use"] == b && st.mon["usekey"] == strParam(x) && b != nil, "right-peer", fnName(x.Root.Fn), x, st, ev.Pos, "the message is not put on the connection pooled under the address it is meant for")
				}
			}
		case EvReturn:
			waits()
			acceptDone()
			if x.Root.Fn == P.method("", "Node", "Ping") && len(x.Root.parents) == 0 && ev.Res != nil && ev.Res.Op == OTuple {
				cl, e := ev.Res.Args[0], ev.Res.Args[1]
				if st.nilness(e) >= 0 && st.nilness(cl) <= 0 {
					c.check(st.mon["use"] == cl && st.mon["usekey"] == strParam(x), "right-peer", "Node.Ping", x, st, ev.Pos, "the connection returned is not the one pooled under the address asked for")
				}
			}
		}
	}
	c.run(World{Name: "connections", Fns: []*ssa.Function{P.method("", "Node", "Listen"), P.method("", "Node", "Ping"), P.method("", "Node", "Send"), P.method("", "Node", "Request")},
		Mons: []MonitorFunc{mon}, NoContent: true, OnGo: onGo})
	_ = A
}
