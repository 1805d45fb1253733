package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rules about the overlay network and gossip.

func init() {
	register("C31", c31)
	register("C34", c34)
}

// hooks are the functions a protocol of a package registers with a node, by the name of the event.
func (c *Check) hooks(sub string) map[string]*V {
	out := map[string]*V{}
	probe(c.P, c.P.method(sub, "Protocol", "Protocol"), func(x *Exec, st *State, ev *Event) {
		if ev.Kind != EvReturn || ev.Res == nil {
			return
		}
		t := c.P.typ("", "Protocol")
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			if v := vField(ev.Res, t, i); v.Op == OClosure || v.Op == OFunc {
				out[s.Field(i).Name()] = v
			}
		}
	})
	return out
}

// handlers are the functions a protocol of a package registers for messages when it is bound to a node.
func (c *Check) handlers(sub string, bind *V) []*V {
	var out []*V
	handle := c.exportedMethod("", "Node", "Handle")
	for _, r := range []*Root{rootOfFunc("bind", bind)} {
		if r == nil {
			continue
		}
		c.run(World{Name: sub + " bind", Roots: []*Root{r}, NoContent: true, Skip: c.opaque, OnGo: func(*Exec, *State, *Event, *Root) bool { return false },
			Mons: []MonitorFunc{func(x *Exec, st *State, ev *Event) {
				if ev.Kind == EvCall && ev.Sfn != nil && ev.Sfn == handle {
					walkFind(mk(V{Op: OTuple, Args: ev.Args}), func(v *V) bool {
						if (v.Op == OClosure || v.Op == OFunc) && !hasV(out, v) {
							out = append(out, v)
						}
						return false
					})
				}
			}}})
	}
	return out
}

// rootOfFunc starts the function value v with unknown arguments.
func rootOfFunc(name string, v *V) *Root {
	if v == nil || v.Fn == nil {
		return nil
	}
	r := &Root{Name: name, Fn: v.Fn, State: newState()}
	if v.Op == OClosure {
		r.Binds = v.Args
	}
	for _, p := range v.Fn.Params {
		r.Args = append(r.Args, vParam(p.Name(), p.Type()))
	}
	return r
}

func noGo(*Exec, *State, *Event, *Root) bool { return false }

// extract is result i of a call.
func extract(res *V, i int) *V {
	if res == nil {
		return nil
	}
	if t, ok := res.Typ.(*types.Tuple); ok && i < t.Len() {
		return vExtract(res, i, t.At(i).Type())
	}
	return nil
}

// overlayEvent: a call of a callback of the user kept in a field of the struct of events.
func eventField(v *V, sub string) string {
	i := initOf(unold(v))
	if i == nil || i.Op != OFieldAddr {
		return ""
	}
	b := i.Args[0]
	if b.Typ == nil || typeName(deref(b.Typ)) != modPath+"/"+sub+".Events" {
		return ""
	}
	s := structOf(deref(b.Typ))
	return s.Field(i.Idx).Name()
}

// eventOf: the callback called by the event.
func eventOf(ev *Event, sub string) string {
	if ev.Kind != EvCall || ev.FnVal == nil {
		return ""
	}
	if ev.FnVal.Op == OField && ev.FnVal.Args[0].Typ != nil && typeName(ev.FnVal.Args[0].Typ) == modPath+"/"+sub+".Events" {
		return ev.FnVal.Str
	}
	return eventField(ev.FnVal, sub)
}

// noCallback notes which callbacks are known not to be set on this path.
func noCallbacks(st *State, sub string) {
	for f, t := range st.facts {
		if f.Op == OIsNil && t {
			n := eventField(f.Args[0], sub)
			if n == "" && f.Args[0].Op == OField && f.Args[0].Args[0].Typ != nil && typeName(f.Args[0].Args[0].Typ) == modPath+"/"+sub+".Events" {
				n = f.Args[0].Str
			}
			if n != "" {
				st.setFlag("unset "+n, true)
			}
		}
	}
}

func msgType(v *V) string {
	v = unold(v)
	for v != nil && v.Op == OConv {
		v = v.Args[0]
	}
	if v != nil && v.Op == OIface && v.Typ != nil {
		return typeName(v.Typ)
	}
	return ""
}

func c31(c *Check) {
	P := c.P
	const sub = "kademlia"
	kad := modPath + "/kademlia."
	c.rule("evict-unresponsive", 1, "a peer is taken out of the routing table only if it is the one a ping that just failed was sent to, or the one at an address that failed to be dialed")
	c.rule("ping-last", 1, "when a bucket is full, the peer at its end is pinged, at its own address, for a limited time")
	c.rule("evicted-reported", 2, "an eviction is reported exactly once, with the peer that was evicted, and only if one was")
	c.rule("admitted-reported", 2, "an admission, and activity of a peer that is recorded, is reported exactly once, with that peer")
	c.rule("retried", 1, "a peer that finds its bucket full is only left out if the peer at the end of the bucket answered")
	c.rule("peers-acknowledged", 3, "a peer that connects, is sent a message or sends one is put or moved to the front of its bucket")
	method := func(t, n string) *ssa.Function { return P.method(sub, t, n) }
	update, last, del, delAddr := method("Table", "Update"), method("Table", "Last"), method("Table", "Delete"), method("Table", "DeleteByAddress")
	request := P.method("", "Node", "RequestMessage")
	clientID := P.method("", "Client", "ID")
	hooks := c.hooks(sub)
	var roots []*Root
	for _, n := range []string{"OnPeerConnected", "OnPingFailed", "OnMessageSent", "OnMessageRecv"} {
		r := rootOfFunc(n, hooks[n])
		if r == nil {
			c.bad("peers-acknowledged", n, nil, nil, token.NoPos, "the protocol does not react to %s", n)
			continue
		}
		roots = append(roots, r)
	}
	acks := map[string]bool{"OnPeerConnected": true, "OnMessageSent": true, "OnMessageRecv": true}
	skip := func(f *ssa.Function) bool {
		if c.opaque(f) {
			return true
		}
		r := f.Signature.Recv()
		return r != nil && typeName(deref(r.Type())) == kad+"Table"
	}
	mon := func(x *Exec, st *State, ev *Event) {
		n := x.Root.Name
		if x.Root.Fn == method("Protocol", "Ack") {
			n = "Ack"
		}
		bad := func(ok bool, rule, what string) { c.check(ok, rule, n, x, st, ev.Pos, "%s: %s", n, what) }
		settle := func() { // what the last changes of the table require has happened
			if st.mon["upd"] != nil {
				switch {
				case st.flag("new"):
					bad(st.flag("told") || st.flag("unset OnPeerAdmitted"), "admitted-reported", "a peer was admitted and that is not reported")
				case st.flag("known"):
					bad(st.flag("told") || st.flag("unset OnPeerActivity"), "admitted-reported", "activity of a peer is not reported")
				}
			}
			if st.mon["del"] != nil && !st.flag("nodel") {
				bad(st.flag("deltold") || st.flag("unset OnPeerEvicted"), "evicted-reported", "a peer was evicted and that is not reported")
			}
		}
		switch ev.Kind {
		case EvBranch:
			noCallbacks(st, sub)
			if u := st.mon["upd"]; u != nil {
				err, ins := extract(u, 1), extract(u, 0)
				switch {
				case st.nilness(err) < 0:
					st.setFlag("full", true)
				case st.nilness(err) > 0 && st.truth(ins) > 0:
					st.setFlag("new", true)
				case st.nilness(err) > 0 && st.truth(ins) < 0:
					st.setFlag("known", true)
				}
			}
			if p := st.mon["ping"]; p != nil {
				obj, err := extract(p, 0), extract(p, 1)
				if st.nilness(err) < 0 {
					st.setFlag("dead", true)
				}
				if st.nilness(err) > 0 {
					is := mk(V{Op: OGhost, Str: "is " + kad + "Pong", Args: []*V{obj}, Typ: types.Typ[types.Bool]})
					if t := st.truth(is); t > 0 {
						st.setFlag("alive", true)
					} else if t < 0 {
						st.setFlag("dead", true)
					}
				}
			}
			if d := st.mon["del"]; d != nil && st.truth(extract(d, 1)) < 0 {
				st.setFlag("nodel", true)
			}
			if d := st.mon["del"]; d != nil && st.truth(extract(d, 1)) > 0 {
				st.setFlag("isdel", true)
			}
		case EvCall:
			switch ev.Sfn {
			case nil:
			case update:
				settle()
				for _, k := range []string{"new", "known", "full", "told", "dead", "alive", "nodel", "isdel", "deltold"} {
					st.setFlag(k, false)
				}
				delete(st.mon, "ping")
				delete(st.mon, "del")
				st.mon["upd"], st.mon["updid"] = ev.Res, ev.Args[len(ev.Args)-1]
				if acks[n] && len(x.Root.Args) > 0 {
					id := ev.Args[len(ev.Args)-1]
					if id.Op == OCall && ev.Sfn != nil && id.Str == fullName(clientID) && hasV(id.Args, x.Root.Args[len(x.Root.Args)-1]) {
						st.setFlag("acked", true)
					}
				}
				return
			case last:
				st.mon["last"] = ev.Res
				k := ev.Args[len(ev.Args)-1]
				u := st.mon["updid"]
				st.setFlag("lastok", u != nil && st.flag("full") && k == c.idPart(u, "ID"))
				return
			case request:
				l := st.mon["last"]
				a := ev.Args
				ok := l != nil && st.flag("lastok") && len(a) >= 3 && a[len(a)-2] == c.idPart(l, "Address") && msgType(a[len(a)-1]) == kad+"Ping"
				bad(ok, "ping-last", "what is pinged is not the peer at the end of the bucket of the peer to be admitted")
				bad(len(a) >= 3 && limitedContext(a[len(a)-3]), "ping-last", "a peer that does not answer is waited for without limit")
				st.mon["ping"] = ev.Res
				st.setFlag("dead", false)
				st.setFlag("alive", false)
				if !ok {
					delete(st.mon, "last")
				}
				return
			case del, delAddr:
				settle()
				key := ev.Args[len(ev.Args)-1]
				ok := false
				if ev.Sfn == del {
					l := st.mon["last"]
					ok = l != nil && st.mon["ping"] != nil && st.flag("dead") && key == c.idPart(l, "ID")
				} else {
					ok = n == "OnPingFailed" && len(x.Root.Args) > 0 && hasV(x.Root.Args, key)
				}
				bad(ok, "evict-unresponsive", "a peer is evicted that did not fail to answer a ping or to be dialed")
				st.mon["del"] = ev.Res
				st.setFlag("nodel", false)
				st.setFlag("isdel", false)
				st.setFlag("deltold", false)
				return
			}
			switch e := eventOf(ev, sub); e {
			case "OnPeerAdmitted", "OnPeerActivity":
				ok := st.mon["upd"] != nil && !st.flag("told") && len(ev.Args) == 1 && ev.Args[0] == st.mon["updid"] && st.flag(map[string]string{"OnPeerAdmitted": "new", "OnPeerActivity": "known"}[e])
				bad(ok, "admitted-reported", e+" is called although that did not happen, twice, or with another peer")
				st.setFlag("told", true)
			case "OnPeerEvicted":
				ok := st.mon["del"] != nil && st.flag("isdel") && !st.flag("deltold") && len(ev.Args) == 1 && ev.Args[0] == extract(st.mon["del"], 0)
				bad(ok, "evicted-reported", "OnPeerEvicted is called although no peer was evicted, twice, or with another peer")
				st.setFlag("deltold", true)
			}
		case EvReturn:
			settle()
			if st.mon["upd"] != nil {
				bad(st.flag("new") || st.flag("known") || st.flag("full") && st.flag("alive"), "retried",
					"a peer is left out of the routing table although the peer at the end of its bucket did not answer")
			}
			if acks[n] {
				bad(st.flag("acked"), "peers-acknowledged", "the peer is not put or moved to the front of its bucket")
			}
			if n == "OnPingFailed" {
				bad(st.mon["del"] != nil, "evict-unresponsive", "a peer that fails to be dialed stays in the routing table")
			}
		}
	}
	c.run(World{Name: "routing", Fns: []*ssa.Function{method("Protocol", "Ack")}, Roots: roots, Mons: []MonitorFunc{mon}, NoContent: true, Skip: skip, OnGo: noGo})
}

// limitedContext: the context ends by itself after some time.
func limitedContext(v *V) bool {
	return walkFind(v, func(u *V) bool {
		return u.Op == OCall && (u.Str == "context.WithTimeout" || u.Str == "context.WithDeadline")
	})
}

// fieldOf is the named field of a struct value.
func fieldOf(v *V, t types.Type, name string) *V {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return vField(v, t, i)
		}
	}
	return nil
}

func c34(c *Check) {
	P := c.P
	const sub = "kademlia"
	kad := modPath + "/kademlia."
	c.rule("ping-answered", 1, "a ping that was sent as a request is answered by exactly one pong")
	c.rule("find-answered", 1, "a request for the peers closest to a key is answered exactly once, by the peers of the own table closest to that key, as many as a bucket holds")
	c.rule("refused", 2, "a ping or a request for peers that was not sent as a request is not answered, and the handler reports it")
	c.rule("others-ignored", 2, "messages of other protocols, and ones that cannot be decoded, are neither answered nor reported as errors")
	c.rule("ping-means-pong", 2, "pinging an address sends it a ping as a request, and succeeds exactly if that was answered with a pong")
	c.pinging(sub)
	hooks := c.hooks(sub)
	hs := c.handlers(sub, hooks["Bind"])
	var roots []*Root
	for _, h := range hs {
		if r := rootOfFunc("the handler", h); r != nil {
			roots = append(roots, r)
		}
	}
	if len(roots) == 0 {
		c.bad("ping-answered", "the handler", nil, nil, token.NoPos, "the protocol does not handle messages")
		return
	}
	isRequest := c.exportedMethod("", "HandlerContext", "IsRequest")
	decode := c.exportedMethod("", "HandlerContext", "DecodeMessage")
	send := c.exportedMethod("", "HandlerContext", "SendMessage")
	raw := c.exportedMethod("", "HandlerContext", "Send")
	closest := c.exportedMethod(sub, "Table", "FindClosest")
	bucket, _ := c.intConstOf(sub, "BucketSize")
	skip := func(f *ssa.Function) bool {
		if c.opaque(f) {
			return true
		}
		r := f.Signature.Recv()
		if r == nil {
			return false
		}
		n := typeName(deref(r.Type()))
		return n == kad+"Table" || n == modPath+".HandlerContext" || n == modPath+".Node" || n == modPath+".Client"
	}
	mon := func(x *Exec, st *State, ev *Event) {
		obj := st.mon["obj"]
		is := func(t string) int {
			if obj == nil {
				return 0
			}
			return st.truth(mk(V{Op: OGhost, Str: "is " + kad + t, Args: []*V{obj}, Typ: types.Typ[types.Bool]}))
		}
		resolve := func() {
			if obj != nil {
				for _, t := range []string{"Ping", "FindNodeRequest"} {
					if k := is(t); k != 0 {
						st.setFlag(map[int]string{1: "is ", -1: "not "}[k]+t, true)
					}
				}
				if e := st.mon["decerr"]; e != nil && st.nilness(e) < 0 {
					st.setFlag("undecoded", true)
				}
			}
			if r := st.mon["req"]; r != nil {
				if k := st.truth(r); k != 0 {
					st.setFlag(map[int]string{1: "request", -1: "norequest"}[k], true)
				}
			}
		}
		resolve()
		switch ev.Kind {
		case EvCall:
			switch ev.Sfn {
			case nil:
			case isRequest:
				if r := st.mon["req"]; r != nil {
					ev.Res = r
				} else {
					st.mon["req"] = ev.Res
				}
			case decode:
				if st.mon["obj"] == nil {
					st.mon["obj"], st.mon["decerr"] = extract(ev.Res, 0), extract(ev.Res, 1)
				}
			case closest:
				a := ev.Args
				k, isK := a[len(a)-1].intConst()
				ok := isK && k == bucket && obj != nil && st.flag("is FindNodeRequest")
				t := a[len(a)-2]
				ok = ok && t.Op == OField && t.Str == "Target" && walkFind(t, func(v *V) bool { return v == obj })
				if ok {
					st.mon["closest"] = ev.Res
				}
			case send, raw:
				c.check(st.count("sent") == 0, "ping-answered", "once", x, st, ev.Pos, "a second answer is sent")
				st.setCount("sent", st.count("sent")+1)
				m := ev.Args[len(ev.Args)-1]
				c.check(ev.Sfn == send && st.flag("request"), "refused", "answer", x, st, ev.Pos, "something is sent although no request was received")
				switch {
				case st.flag("is Ping"):
					c.check(msgType(m) == kad+"Pong", "ping-answered", "pong", x, st, ev.Pos, "a ping is answered by something that is no pong")
				case st.flag("is FindNodeRequest"):
					r := unconv(m)
					if r.Op == OIface {
						r = r.Args[0]
					}
					t := P.typ(sub, "FindNodeResponse")
					ok := msgType(m) == kad+"FindNodeResponse" && st.mon["closest"] != nil && fieldOf(r, t, "Results") == st.mon["closest"]
					c.check(ok, "find-answered", "response", x, st, ev.Pos, "the answer is not the %d peers of the own table closest to the key that was asked for", bucket)
				default:
					c.bad("others-ignored", "answer", x, st, ev.Pos, "a message that is neither a ping nor a request for peers is answered")
				}
				st.mon["senderr"] = ev.Res
			}
		case EvReturn:
			res := ev.Res
			null := st.nilness(res)
			n := st.count("sent")
			if e := st.mon["senderr"]; n == 1 {
				what := map[bool]string{true: "ping-answered", false: "find-answered"}[st.flag("is Ping")]
				c.check(res == e || st.nilness(e) != 0 && st.nilness(e) == null, what, "error", x, st, ev.Pos, "an answer that could not be sent is not reported")
				return
			}
			switch {
			case st.flag("is Ping") || st.flag("is FindNodeRequest"):
				if st.flag("norequest") {
					c.check(null < 0, "refused", "error", x, st, ev.Pos, "a message that should have been a request is not refused")
				} else {
					what := map[bool]string{true: "ping-answered", false: "find-answered"}[st.flag("is Ping")]
					c.bad(what, "answered", x, st, ev.Pos, "a request is not answered")
				}
			case st.flag("undecoded"):
				c.check(null > 0, "others-ignored", "undecodable", x, st, ev.Pos, "a message of another protocol, which cannot be decoded here, is reported as an error")
			case st.flag("not Ping") && st.flag("not FindNodeRequest"):
				c.check(null > 0, "others-ignored", "other", x, st, ev.Pos, "a message of another protocol is reported as an error")
			default:
				c.bad("ping-answered", "looked at", x, st, ev.Pos, "the handler ends without looking whether the message is a ping or a request for peers")
			}
		}
	}
	c.run(World{Name: "overlay handler", Roots: roots, Mons: []MonitorFunc{mon}, NoContent: true, Skip: skip, OnGo: noGo})
}

// pinging: a ping succeeds exactly if it was answered with a pong.
func (c *Check) pinging(sub string) {
	kad := modPath + "/kademlia."
	ping := c.exportedMethod(sub, "Protocol", "Ping")
	request := c.exportedMethod("", "Node", "RequestMessage")
	skip := func(f *ssa.Function) bool {
		r := f.Signature.Recv()
		return c.opaque(f) || r != nil && typeName(deref(r.Type())) == modPath+".Node"
	}
	mon := func(x *Exec, st *State, ev *Event) {
		if p := st.mon["ping"]; p != nil {
			if e := extract(p, 1); st.nilness(e) < 0 {
				st.setFlag("dead", true)
			} else if st.nilness(e) > 0 {
				t := st.truth(mk(V{Op: OGhost, Str: "is " + kad + "Pong", Args: []*V{extract(p, 0)}, Typ: types.Typ[types.Bool]}))
				st.setFlag("alive", t > 0)
				st.setFlag("dead", t < 0)
			}
		}
		switch ev.Kind {
		case EvCall:
			if ev.Sfn != request {
				return
			}
			a := ev.Args
			ok := len(a) >= 3 && st.mon["ping"] == nil && msgType(a[len(a)-1]) == kad+"Ping" && hasV(x.Root.Args, unconv(a[len(a)-2])) && len(x.Root.Args) >= 3 && contains(a[len(a)-3], x.Root.Args[len(x.Root.Args)-2])
			c.check(ok, "ping-means-pong", "asked", x, st, ev.Pos, "what is sent is not one ping to the address that was given, within the context that was given")
			st.mon["ping"] = ev.Res
		case EvReturn:
			switch null := st.nilness(ev.Res); {
			case st.flag("alive"):
				c.check(null > 0, "ping-means-pong", "answered", x, st, ev.Pos, "a ping that was answered is reported as failed")
			default:
				c.check(null < 0, "ping-means-pong", "unanswered", x, st, ev.Pos, "a ping that was not answered with a pong may be reported as answered")
			}
		}
	}
	c.run(World{Name: "pinging", Fns: []*ssa.Function{ping}, Mons: []MonitorFunc{mon}, NoContent: true, Skip: skip, OnGo: noGo})
}
