package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C35", c35) }

// contentKey is the identity and the data the bytes of a key were computed from.
func contentKey(st *State, v *V) (id, data *V) {
	ps, ok := st.layout(v)
	if !ok || len(ps) != 1 || !st.ge(ps[0].n, newLin(16)) || ps[0].src.Op != OGhost || ps[0].src.Str != "key of" || len(ps[0].src.Args) != 2 {
		return nil, nil
	}
	if n, ok := ps[0].so.isConst(); !ok || n != 0 {
		return nil, nil
	}
	return ps[0].src.Args[0], ps[0].src.Args[1]
}

func c35(c *Check) {
	P := c.P
	const sub = "gossip"
	own := mk(V{Op: OGhost, Str: "own identity", Typ: P.typ("", "ID")})
	sender := mk(V{Op: OGhost, Str: "identity of the sender", Typ: P.typ("", "ID")})
	c.rule("key-covers", 4, "what is remembered about a peer and a message is told apart by the whole public key of the peer and the whole message")
	c.rule("not-to-known", 1, "a message is sent to a peer only if the peer is not known to have it")
	c.rule("known-after-sent", 1, "a peer is remembered to have a message exactly if it sent it, or sending it to the peer succeeded")
	c.rule("own-marked", 1, "a node remembers that it has a message before it sends it on")
	c.rule("once", 1, "a message is reported to the user and sent on only the first time it arrives, decided and remembered in one step")
	c.rule("to-all", 1, "a message is sent to every peer of the routing table that is not known to have it, once")
	c.rule("waited-for", 1, "pushing a message ends only after every transmission it started ended")
	c.rule("relayed", 1, "a message that is new is reported to the user once, with its sender, and sent on unless the user refuses it, which is reported")
	c.rule("only-gossip", 2, "requests, messages of other protocols and undecodable ones have no effect and are no errors")
	c.rule("own-variables", 0, "a goroutine does not use a variable its starter goes on changing")

	hooks := c.hooks(sub)
	hs := c.handlers(sub, hooks["Bind"])
	var roots []*Root
	for _, h := range hs {
		if r := rootOfFunc("handler", h); r != nil {
			roots = append(roots, r)
		}
	}
	if len(roots) == 0 {
		c.bad("relayed", "the handler", nil, nil, token.NoPos, "the protocol does not handle messages")
		return
	}
	push := c.exportedMethod(sub, "Protocol", "Push")
	nodeID := c.exportedMethod("", "Node", "ID")
	ctxID := c.exportedMethod("", "HandlerContext", "ID")
	isRequest := c.exportedMethod("", "HandlerContext", "IsRequest")
	decode := c.exportedMethod("", "HandlerContext", "DecodeMessage")
	send := c.exportedMethod("", "Node", "SendMessage")
	entries := c.exportedMethod("kademlia", "Table", "Entries")
	kinds := map[*Root]string{}
	for _, r := range roots {
		kinds[r] = "handler"
	}
	skip := func(f *ssa.Function) bool {
		return c.opaque(f) || f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/kademlia" || f == isRequest || f == decode || f == ctxID
	}
	isMsg := func(st *State, obj *V) int {
		if obj == nil {
			return 0
		}
		return st.truth(mk(V{Op: OGhost, Str: "is " + modPath + "/gossip.Message", Args: []*V{obj}, Typ: types.Typ[types.Bool]}))
	}
	mon := func(x *Exec, st *State, ev *Event) {
		n := "sender"
		switch {
		case kinds[x.Root] != "":
			n = "handler"
		case x.Root.Fn == push:
			n = "push"
		}
		bad := func(ok bool, rule, construct, what string) {
			c.check(ok, rule, n+" "+construct, x, st, ev.Pos, "%s", what)
		}
		// the data that is gossiped here
		data := func() *V {
			switch n {
			case "handler":
				return st.mon["obj"]
			case "push":
				return x.Root.Args[len(x.Root.Args)-1]
			}
			return nil
		}
		resolve := func() {
			noCallbacks(st, sub)
			if r := st.mon["req"]; r != nil && st.truth(r) != 0 {
				st.setFlag(map[int]string{1: "request", -1: "norequest"}[st.truth(r)], true)
			}
			if o := st.mon["obj"]; o != nil {
				if st.nilness(st.mon["decerr"]) < 0 {
					st.setFlag("foreign", true)
				}
				switch isMsg(st, o) {
				case 1:
					st.setFlag("gossip", true)
				case -1:
					st.setFlag("foreign", true)
				}
			}
			if h := st.mon["has"]; h != nil {
				switch st.truth(h) {
				case 1:
					st.setFlag("known", true)
				case -1:
					st.setFlag("unknown", true)
				}
			}
			if h := st.mon["hasown"]; h != nil {
				switch st.truth(h) {
				case 1:
					st.setFlag("ownknown", true)
				case -1:
					st.setFlag("ownunknown", true)
				}
			}
			if e := st.mon["senderr"]; e != nil {
				switch k := st.nilness(e); {
				case k < 0:
					st.setFlag("failed", true)
				case k > 0:
					st.setFlag("delivered", true)
				}
			}
			if e := st.mon["usererr"]; e != nil {
				switch k := st.nilness(e); {
				case k < 0:
					st.setFlag("refused", true)
				case k > 0:
					st.setFlag("accepted", true)
				}
			}
		}
		resolve()
		// a transmission, here or by a goroutine
		transmits := func() {
			bad(st.flag("marked own"), "own-marked", "mark", "a message is sent on before the node remembers that it has it")
			if n == "handler" {
				bad(st.flag("fresh"), "once", "relay", "a message is sent on although it may have arrived before")
				bad(st.flag("marked sender"), "known-after-sent", "sender", "a message is sent on before it is remembered that its sender has it")
				bad(st.flag("accepted") || st.flag("unset OnGossipReceived"), "relayed", "order", "a message is sent on that the user has not accepted")
			}
		}
		element := func(v *V) bool { // an element of the list of peers, the current one in a loop over it
			v = unconv(v)
			return v != nil && walkFind(v, func(u *V) bool {
				return u.Op == OCall && u.Instr != nil && u.Str == fullName(entries)
			})
		}
		done := func() { // the current peer was dealt with
			if st.flag("peers started") && n != "sender" {
				bad(st.flag("started") || st.flag("known"), "to-all", "each", "a peer of the routing table is passed over although it is not known to have the message")
			}
		}
		if n != "sender" {
			if ev.Kind == EvIndex && st.mon["peers seq"] != nil && unconv(ev.X) == st.mon["peers seq"] {
				before := st.clone()
				if walkStep(st, ev, "peers") {
					_ = before
					if before.flag("peers started") {
						bad(before.flag("started") || before.flag("known"), "to-all", "each", "a peer of the routing table is passed over although it is not known to have the message")
					}
					for _, f := range []string{"started", "known", "unknown", "failed", "delivered", "marked peer"} {
						st.setFlag(f, false)
					}
					for _, k := range []string{"has", "senderr", "hasid", "sentid"} {
						delete(st.mon, k)
					}
					st.setCount("add", 0)
				}
			} else {
				walkStep(st, ev, "peers")
			}
		}
		switch ev.Kind {
		case EvUnlock:
			delete(st.mon, "hasown")
			st.setFlag("ownunknown", false)
			st.setFlag("haslocked", false)
		case EvCall:
			name := ev.Name
			switch {
			case ev.Sfn == nil:
			case ev.Sfn == nodeID:
				ev.Res = own
			case ev.Sfn == ctxID:
				ev.Res = sender
			case ev.Sfn == isRequest:
				if r := st.mon["req"]; r != nil {
					ev.Res = r
				} else {
					st.mon["req"] = ev.Res
				}
			case ev.Sfn == decode:
				if st.mon["obj"] == nil {
					st.mon["obj"], st.mon["decerr"] = extract(ev.Res, 0), extract(ev.Res, 1)
				}
			case ev.Sfn == entries:
				walkBegin(st, "peers", ev.Res)
			case ev.Sfn == send:
				if len(ev.Args) < 2 {
					break
				}
				addr, msg := ev.Args[len(ev.Args)-2], unconv(ev.Args[len(ev.Args)-1])
				id := addr
				if addr.Op == OField && addr.Str == "Address" {
					id = addr.Args[0]
				}
				ok := st.flag("unknown") && id != addr && st.mon["hasid"] == c.idPart(id, "ID") && st.mon["hasdata"] == msg
				bad(ok, "not-to-known", "checked", "a message is sent to a peer without it being known that the peer does not have it")
				bad(msgType(ev.Args[len(ev.Args)-1]) == modPath+"/gossip.Message" && element(id) && (n == "sender" || msg == unconv(data())), "to-all", "what", "what is sent is not the message, or not to a peer of the routing table")
				bad(st.count("sends") == 0 || n != "sender", "to-all", "twice", "a message is sent to a peer twice")
				st.setCount("sends", 1)
				if n != "sender" {
					bad(!st.flag("started"), "to-all", "twice", "a message is sent to a peer twice")
					st.setFlag("started", true)
					transmits()
				}
				st.mon["senderr"], st.mon["sentid"], st.mon["sentdata"] = ev.Res, c.idPart(id, "ID"), msg
				return
			}
			if strings.Contains(name, "fastcache.Cache).") {
				op := name[strings.LastIndex(name, ".")+1:]
				if len(ev.Args) == 0 {
					break
				}
				id, dat := contentKey(st, ev.Args[0])
				if op == "Get" || op == "HasGet" {
					id, dat = contentKey(st, ev.Args[1])
				}
				bad(id != nil, "key-covers", op, "what a key is computed from is not the public key of a peer followed by a message")
				if id == nil {
					break
				}
				isOwn, isSender := id == c.idPart(own, "ID"), id == c.idPart(sender, "ID")
				if n != "sender" {
					bad(dat == unconv(data()), "key-covers", op+" data", "a key is computed from other data than the message")
				}
				switch op {
				case "Has", "HasGet":
					r := ev.Res
					if op == "HasGet" {
						r = extract(ev.Res, 1)
					}
					if isOwn {
						st.mon["hasown"] = r
						st.setFlag("haslocked", len(st.locks) > 0)
						st.setFlag("ownknown", false)
						st.setFlag("ownunknown", false)
					} else {
						st.mon["has"], st.mon["hasid"], st.mon["hasdata"] = r, id, dat
						st.setFlag("known", false)
						st.setFlag("unknown", false)
					}
				case "Set":
					switch {
					case isOwn:
						st.setFlag("marked own", true)
						if n == "handler" && !st.flag("fresh") {
							ok := st.flag("ownunknown") && st.flag("haslocked") && len(st.locks) > 0
							if st.flag("gossip") && ok {
								st.setFlag("fresh", true)
							}
							if !st.flag("ownknown") {
								bad(ok, "once", "mark", "whether a message has arrived before is not decided and remembered in one step under a lock")
							}
						}
					case isSender:
						bad(n == "handler" && st.flag("gossip") && !st.flag("request"), "known-after-sent", "sender mark", "something is remembered of a peer that did not send a message")
						st.setFlag("marked sender", true)
					default:
						ok := st.flag("delivered") && st.mon["sentid"] == id && st.mon["sentdata"] == dat
						bad(ok, "known-after-sent", "mark", "a peer is remembered to have a message although sending it did not succeed")
						st.setFlag("marked peer", true)
					}
				default:
					bad(false, "known-after-sent", op, "what is remembered is changed by "+op)
				}
			}
			switch name {
			case "crypto/sha256.Sum256", "crypto/sha512.Sum512", "crypto/sha512.Sum512_256", "golang.org/x/crypto/blake2b.Sum256", "golang.org/x/crypto/blake2b.Sum512", "golang.org/x/crypto/sha3.Sum256":
				ps, ok := st.layout(ev.Args[0])
				if !ok || len(ps) < 1 || len(ps) > 2 {
					break
				}
				parts := []*V{}
				whole := true
				for i, p := range ps {
					s := unconv(p.src)
					if i == 0 {
						whole = whole && s.Op == OField && s.Str == "ID" && sameLin(p.n, newLin(32))
					} else {
						whole = whole && st.entailsEq(p.n, lenOf(s))
					}
					z, isZ := p.so.isConst()
					whole = whole && isZ && z == 0
					parts = append(parts, s)
				}
				if whole && len(parts) == 2 {
					ev.Res = mk(V{Op: OGhost, Str: "key of", Args: parts, Typ: ev.Res.Typ})
				}
			case "(*sync.WaitGroup).Add":
				k := ev.Args[len(ev.Args)-1]
				if s := st.mon["peers seq"]; s != nil && st.entailsEq(linOf(k), lenOf(s)) {
					st.setFlag("added all", true)
				} else if st.entailsEq(linOf(k), newLin(1)) {
					st.setCount("add", st.count("add")+1)
				}
				if n == "sender" {
					bad(false, "waited-for", "add", "a goroutine that is to be waited for announces itself, perhaps too late")
				}
			case "(*sync.WaitGroup).Done":
				st.setCount("done", st.count("done")+1)
			case "(*sync.WaitGroup).Wait":
				st.setFlag("unwaited", false)
			}
			if eventOf(ev, sub) == "OnGossipReceived" {
				bad(n == "handler" && st.flag("fresh"), "once", "report", "a message is reported to the user although it may have arrived before")
				ok := len(ev.Args) == 2 && ev.Args[0] == sender && unconv(ev.Args[1]) == unconv(st.mon["obj"]) && st.mon["usererr"] == nil
				bad(ok, "relayed", "report", "what is reported to the user is not the message and its sender, or it is reported twice")
				st.mon["usererr"] = ev.Res
			}
		case EvGo:
			if n == "sender" {
				break
			}
			transmits()
			bad(!st.flag("started"), "to-all", "twice", "two goroutines are started for a peer")
			bad(st.flag("added all") || st.count("add") == 1, "waited-for", "add", "a goroutine is started that is not waited for")
			st.setFlag("started", true)
			st.setFlag("unwaited", true)
		case EvReturn:
			if n == "sender" {
				bad(st.flag("known") || st.flag("unknown") && st.count("sends") == 1, "to-all", "attempt", "a peer that is not known to have the message is not sent it")
				bad(st.count("done") == 1, "waited-for", "done", "the end of a transmission is not reported exactly once")
			}
			if st.flag("delivered") {
				bad(st.flag("marked peer"), "known-after-sent", "delivered", "a peer that was sent a message is not remembered to have it")
			}
			if n == "sender" {
				break
			}
			bad(!st.flag("unwaited"), "waited-for", "wait", "pushing a message ends before its transmissions have ended")
			if n == "push" {
				done()
				bad(walkedAll(st, "peers"), "to-all", "loop", "not every peer of the routing table is looked at")
				break
			}
			null := st.nilness(ev.Res)
			switch {
			case st.flag("request") || st.flag("foreign"):
				bad(null > 0 && !st.flag("marked own") && !st.flag("marked sender") && st.mon["usererr"] == nil, "only-gossip", "ignored", "a request, or a message of another protocol, has an effect or is reported as an error")
			case !st.flag("norequest") || !st.flag("gossip"):
				bad(false, "only-gossip", "looked at", "the handler ends without looking whether the message is gossip")
			default:
				bad(st.flag("marked sender"), "known-after-sent", "sender", "it is not remembered that the sender of a message has it")
				switch {
				case st.flag("ownknown") && !st.flag("fresh"):
					bad(null > 0, "only-gossip", "again", "a message that arrives again is reported as an error")
				case !st.flag("fresh"):
					bad(false, "once", "decided", "it is not decided whether the message has arrived before")
				case st.flag("refused"):
					bad(null < 0, "relayed", "refused", "it is not reported that the user refused a message")
				default:
					done()
					bad(st.mon["usererr"] != nil || st.flag("unset OnGossipReceived"), "relayed", "report", "a message that is new is not reported to the user")
					bad(walkedAll(st, "peers") && null > 0, "relayed", "relay", "a message that is new is not sent on")
				}
			}
		}
	}
	c.run(World{Name: "gossip", Layout: true, Fns: []*ssa.Function{push}, Roots: roots, Mons: []MonitorFunc{mon}, Skip: skip, OnGo: func(x *Exec, st *State, ev *Event, r *Root) bool {
		r.State.mon = map[string]*V{}
		if at := walkAt(st, "peers"); at != nil { // each element for itself
			r.State.mon["start"] = at
		}
		return true
	}})
	for _, f := range c.P.all {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/"+sub {
			c.capturedStores("own-variables", f)
		}
	}
}

// capturedStores: variables captured by a goroutine that its starter changes afterwards.
func (c *Check) capturedStores(rule string, f *ssa.Function) {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			for _, v := range mc.Bindings {
				al, ok := v.(*ssa.Alloc)
				if !ok || al.Parent() != f {
					continue
				}
				c.ok(rule, f.Name()+" "+al.Comment, in.Pos())
				// stores reachable before the variable is made anew
				seen := map[*ssa.BasicBlock]bool{}
				var visit func(b *ssa.BasicBlock, from int) bool
				visit = func(b *ssa.BasicBlock, from int) bool {
					for _, in := range b.Instrs[from:] {
						if in == ssa.Instruction(al) {
							return false
						}
						if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
							c.bad(rule, f.Name()+" "+al.Comment, nil, nil, s.Pos(), "the variable %s is changed here while a goroutine started before uses it", al.Comment)
							return true
						}
					}
					for _, s := range b.Succs {
						if !seen[s] {
							seen[s] = true
							if visit(s, 0) {
								return true
							}
						}
					}
					return false
				}
				visit(b, i+1)
			}
		}
	}
}
