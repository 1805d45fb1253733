package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C33", c33) }

// elemAt: v is the element of a slice or array at an index.
func elemAt(v *V) (list, idx *V) {
	v = unold(unconv(v))
	if v == nil {
		return nil, nil
	}
	switch v.Op {
	case OIndex:
		if len(v.Args) > 1 {
			return unconv(v.Args[0]), v.Args[1]
		}
	case OInit, OHavoc:
		if len(v.Args) > 0 && v.Args[0].Op == OIndexAddr {
			return unconv(v.Args[0].Args[0]), v.Args[0].Args[1]
		}
	}
	return nil, nil
}

// counterAdd adds k to a number that follows the loops of the function.
func counterAdd(st *State, name string, k *V) {
	v := st.mon["~"+name]
	if v == nil {
		return
	}
	if a, ok := v.intConst(); ok {
		if b, ok := k.intConst(); ok {
			if a+b > 12 {
				delete(st.mon, "~"+name) // nothing in the program counts along
				return
			}
			st.mon["~"+name] = vInt(a + b)
			return
		}
	}
	st.mon["~"+name] = mk(V{Op: OBin, Str: "+", Args: []*V{v, k}, Typ: types.Typ[types.Int]})
}

// counter is the number.
func counter(st *State, name string) lin {
	if v := st.mon["~"+name]; v != nil {
		return linOf(v)
	}
	return atomLin(mk(V{Op: OOpaque, Str: "lost count of " + name, Typ: types.Typ[types.Int]}))
}

// optionField is the field of type owner that an exported option sets.
func (c *Check) optionField(sub, option, owner string) string {
	f := c.P.function(sub, option)
	name := ""
	for _, a := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		for _, b := range a.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), c.P.typ(sub, owner)) {
					name = structOf(deref(fa.X.Type())).Field(fa.Field).Name()
				}
			}
		}
	}
	return name
}

func c33(c *Check) {
	P := c.P
	const sub = "kademlia"
	c.rule("asked-for", 2, "what is looked for is the key given, or for discovery the node's own, under the options given, and what is found is returned")
	c.rule("start", 2, "a lookup starts from every peer of the routing table, marked as seen, and the node itself and the key looked for are marked as seen as well")
	c.rule("all-queues", 1, "every list of peers to ask is worked on, by one goroutine")
	c.rule("once", 2, "a peer that an answer names is put on a list only the first time it is seen, decided and marked in one step under a lock")
	c.rule("all-learned", 1, "every peer that an answer names is put on a list, unless it was seen before")
	c.rule("all-asked", 2, "a peer taken off a list is asked, once, and lists are worked off to their end")
	c.rule("question", 1, "peers are asked for the peers closest to the key looked for, at their address and within the time limit")
	c.rule("answers-heard", 1, "every question asked is answered exactly once to the goroutine waiting for it, by the peers named if it succeeded")
	c.rule("only-answering", 1, "a peer is found exactly if it answered")
	c.rule("room", 1, "handing out work never blocks the goroutine that collects the answers")
	c.rule("waited-for", 3, "a goroutine ends, and channels are closed, only after the goroutines it started have ended, and each of those reports its end once, as the last thing")
	c.rule("ends", 1, "the channel of found peers is closed once, after the last peer was found, and the lookup waits for it")
	c.rule("best", 1, "every peer found is returned, nearest to the key looked for first, or the nearest ones, as many as configured, if there are more")
	c.rule("limits", 2, "as many peers are asked at a time as configured")
	c.rule("own-variables", 0, "a goroutine does not use a variable its starter goes on changing")

	find := c.exportedMethod(sub, "Iterator", "Find")
	sortF := P.function(sub, "SortByDistance")
	request := c.exportedMethod("", "Node", "RequestMessage")
	nodeID := c.exportedMethod("", "Node", "ID")
	selfM := c.exportedMethod(sub, "Table", "Self")
	peers := c.exportedMethod(sub, "Table", "Peers")
	maxF, timeF := c.optionField(sub, "WithIteratorMaxNumResults", "Iterator"), c.optionField(sub, "WithIteratorLookupTimeout", "Iterator")
	parF, reqF := c.optionField(sub, "WithIteratorNumParallelLookups", "Iterator"), c.optionField(sub, "WithIteratorNumParallelRequestsPerLookup", "Iterator")
	iterT := P.typ(sub, "Iterator")
	idT, keyT := P.typ("", "ID"), P.typ("", "PublicKey")
	isIDs := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), idT)
	}
	isIDs2 := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isIDs(s.Elem())
	}
	chanOf := func(v *V) types.Type {
		if v == nil || v.Typ == nil {
			return nil
		}
		if t, ok := v.Typ.Underlying().(*types.Chan); ok {
			return t.Elem()
		}
		return nil
	}
	own := mk(V{Op: OGhost, Str: "own identity", Typ: idT})
	skip := func(f *ssa.Function) bool {
		if f == sortF || c.opaque(f) {
			return true
		}
		r := f.Signature.Recv()
		return r != nil && types.Identical(deref(r.Type()), P.typ(sub, "Table"))
	}
	target := vParam(find.Params[1].Name(), find.Params[1].Type())
	field := func(v *V, name string) bool { // v was read from the named field of the iterator
		v = unold(unconv(v))
		return v != nil && name != "" && (v.Op == OInit || v.Op == OHavoc) && len(v.Args) > 0 && v.Args[0].Op == OFieldAddr && v.Args[0].Str == name && types.Identical(deref(v.Args[0].Args[0].Typ), iterT)
	}
	cells := map[*V]*V{} // shared variables set before the goroutines start
	var found *V         // the channel of found peers
	norm := func(v *V) *V {
		v = unold(unconv(v))
		if v != nil && (v.Op == OInit || v.Op == OHavoc) && len(v.Args) > 0 {
			if w := cells[v.Args[0]]; w != nil {
				return w
			}
		}
		return v
	}
	asks := modPath + "/kademlia.FindNodeRequest"
	reqT := P.typ(sub, "FindNodeRequest")
	mon := func(x *Exec, st *State, ev *Event) {
		isFind := x.Root.Fn == find
		if st.mon["~out"] == nil && !st.flag("counting") {
			st.setFlag("counting", true)
			for _, k := range []string{"~out", "~started", "~announced"} {
				st.mon[k] = vInt(0)
			}
		}
		bad := func(ok bool, rule, construct, what string) {
			c.check(ok, rule, construct, x, st, ev.Pos, "%s", what)
		}
		// what an answer said
		if o := st.mon["answer"]; o != nil {
			is := st.truth(mk(V{Op: OGhost, Str: "is " + modPath + "/kademlia.FindNodeResponse", Args: []*V{o}, Typ: types.Typ[types.Bool]}))
			null := st.nilness(st.mon["err"])
			if is > 0 && null > 0 {
				st.setFlag("answered", true)
			}
			if is < 0 || null < 0 {
				st.setFlag("unanswered", true)
			}
		}
		asked := func() { // the question being worked on is dealt with
			if st.mon["asking"] == nil {
				return
			}
			bad(st.flag("asked"), "all-asked", "question", "a peer is not asked")
			bad(st.count("told") == 1, "answers-heard", "told", "the outcome of a question is not reported exactly once")
			bad(st.flag("listed") || st.flag("unanswered"), "only-answering", "listed", "a peer that answered is not found")
		}
		learned := func(begun bool) { // the peer an answer names that is looked at
			if !begun {
				return
			}
			if st.flag("fresh") {
				bad(st.flag("marked"), "once", "marked", "a peer is not marked as seen when it is put on a list")
				bad(st.flag("added"), "all-learned", "added", "a peer that was not seen before is not put on a list")
			} else {
				bad(st.flag("seen"), "all-learned", "looked at", "a peer that an answer names is passed over")
			}
			for _, f := range []string{"fresh", "marked", "added", "seen", "locked"} {
				st.setFlag(f, false)
			}
		}
		allLearned := func() {
			if st.mon["names seq"] == nil {
				return
			}
			learned(st.flag("names started"))
			bad(walkedAll(st, "names"), "all-learned", "loop", "not all peers that an answer names are looked at")
			delete(st.mon, "names seq")
			st.setFlag("names started", false)
		}
		started := func(begun bool) { // the peer of the routing table that is looked at
			if begun {
				bad(st.flag("marked"), "start", "marked", "a peer of the routing table is not marked as seen")
				bad(st.flag("added"), "start", "added", "a peer of the routing table is not put on a list")
				st.setFlag("marked", false)
				st.setFlag("added", false)
			}
		}
		kept := func() { // a list that was changed was written back
			bad(!st.flag("dirty"), "all-asked", "written", "a changed list of peers to ask is not written back")
			st.setFlag("dirty", false)
			delete(st.mon, "~list")
			delete(st.mon, "list cell")
		}
		popped := func() {
			bad(st.mon["cut"] == nil, "all-asked", "dropped", "a peer is taken off a list and not asked")
			bad(st.mon["handed"] == nil, "all-asked", "twice", "a peer that is asked stays on the list")
			delete(st.mon, "cut")
			delete(st.mon, "handed")
		}
		match := func() {
			a, b := st.mon["cut"], st.mon["handed"]
			if a != nil && b != nil && a.Args[0] == b.Args[0] && st.entailsEq(linOf(a.Args[1]), linOf(b.Args[1])) {
				delete(st.mon, "cut")
				delete(st.mon, "handed")
			}
		}
		at := func(l, i *V) *V {
			for l.Op == OSlice {
				if lo := l.Args[1]; lo != nil {
					i = mk(V{Op: OBin, Str: "+", Args: []*V{lo, i}, Typ: types.Typ[types.Int]})
				}
				l = unconv(l.Args[0])
			}
			return mk(V{Op: OGhost, Str: "at", Args: []*V{l, i}, Typ: idT})
		}
		all := func() bool { return st.flag("all started") || st.ge(counter(st, "started"), counter(st, "announced")) }
		lists := func() (l []lin) { // the number of lists
			if v := st.mon["lists"]; v != nil {
				l = append(l, lenOf(v))
			}
			if v := st.mon["lookups"]; v != nil {
				l = append(l, linOf(v))
			}
			return
		}
		isFound := func(ch *V) bool { return found != nil && norm(ch) == found }
		ended := func() {
			bad(st.count("done") == 0, "waited-for", "last", "a goroutine goes on after it has reported its end")
		}

		switch ev.Kind {
		case EvStore:
			if v := ev.Val; v.Typ != nil && ev.Addr.Op == OFieldAddr {
				if isFind && (ev.Val == target || chanOf(v) != nil) && !st.flag("running") {
					cells[ev.Addr] = ev.Val
					if t := chanOf(v); t != nil && types.Identical(t, idT) {
						found = unconv(ev.Val)
					}
				} else if cells[ev.Addr] != nil && ev.Val != cells[ev.Addr] {
					bad(false, "question", "shared", "what is looked for, or where it is reported, is changed during the lookup")
				}
			}
			if isIDs(deref(ev.Addr.Typ)) {
				v := unconv(ev.Val)
				if st.flag("dirty") && ev.Addr == st.mon["list cell"] {
					// what was cut or extended is what is written back
					ok := v == st.mon["~list"] || v.Op == OPhi || v.Op == OHavoc || v.Op == OWiden
					bad(ok, "all-asked", "place", "what is written back is not the changed list of peers to ask")
					st.setFlag("dirty", false)
				} else if ev.Addr.Op == OIndexAddr && !isZeroList(v) && !x.Coarse {
					bad(v == st.mon["~list"], "all-asked", "place", "a list of peers to ask is replaced by another")
				}
				st.mon["~list"], st.mon["list cell"] = v, ev.Addr
				st.setFlag("empty", st.ge(newLin(0), lenOf(v)))
			}
		case EvLoad:
			if isIDs(deref(ev.Addr.Typ)) && !isFind || isIDs(deref(ev.Addr.Typ)) && ev.Addr.Op == OIndexAddr {
				if ev.Addr == st.mon["list cell"] {
					kept()
				}
				v := unconv(ev.Val)
				st.mon["~list"] = v
				st.setFlag("empty", st.ge(newLin(0), lenOf(v)))
				st.mon["list cell"] = ev.Addr
			}
			if field(ev.Val, reqF) {
				st.mon["width"] = ev.Val
			}
			if st.flag("closer") && field(ev.Val, parF) {
				st.mon["lookups"] = ev.Val
			}
			if st.flag("closer") && isIDs2(ev.Val.Typ) {
				st.mon["lists"] = ev.Val
			}
			if st.flag("wg") && ev.Addr.Op == OIndexAddr && isIDs(deref(ev.Addr.Typ)) {
				i := ev.Addr.Args[1]
				ok := false
				for _, a := range x.Root.Args {
					ok = ok || a == i
				}
				for _, b := range x.Root.Binds {
					ok = ok || (i.Op == OInit || i.Op == OHavoc) && i.Args[0] == b
				}
				bad(ok, "all-queues", "own", "a goroutine works on a list that is not its own")
			}
		case EvBranch:
			walkStep(st, ev, "names")
			walkStep(st, ev, "peers")
			if l := st.mon["~list"]; l != nil {
				if st.ge(newLin(0), lenOf(l)) {
					st.setFlag("empty", true)
				}
			}
			walkFind(ev.Val, func(u *V) bool {
				if u.Op == OCall && u.Str == "len of channel" && types.Identical(chanOf(u.Args[0]), idT) {
					q := u.Args[0]
					n, m := linOf(u), capOf(q)
					st.setFlag("room", st.ge(m, n.plus(1)))
					st.setFlag("full", st.ge(n, m))
				}
				return false
			})
			if st.ge(counter(st, "started"), counter(st, "announced")) {
				st.setFlag("all started", true)
			}
			if st.flag("closer") {
				for _, n := range lists() {
					if st.ge(counter(st, "started"), n) {
						st.setFlag("covered", true)
					}
				}
			}
		case EvIndex:
			if s := st.mon["names seq"]; s != nil && unconv(ev.X) == s {
				begun := st.flag("names started")
				if walkStep(st, ev, "names") {
					learned(begun)
				}
			}
			if s := st.mon["peers seq"]; s != nil && unconv(ev.X) == s {
				begun := st.flag("peers started")
				if walkStep(st, ev, "peers") {
					started(begun)
				}
			}
		case EvMake:
			if isIDs2(ev.Val.Typ) {
				bad(field(ev.Lo, parF), "limits", "lists", "the peers to ask are not divided among as many goroutines as configured")
			}
		case EvMapGet:
			if !types.Identical(ev.Map.Typ.Underlying().(*types.Map).Key(), keyT) {
				break
			}
			l, i := elemAt(whoseKey(ev.Key))
			if l == nil || l != st.mon["names seq"] || walkAt(st, "names") == nil || !sameLin(linOf(i), linOf(walkAt(st, "names"))) {
				break
			}
			st.setFlag("locked", len(st.locks) > 0)
			st.setFlag("fresh", !ev.OK)
			st.setFlag("seen", ev.OK)
		case EvMapDel:
			bad(false, "once", "forgotten", "a peer is forgotten to have been seen")
		case EvMapSet:
			if !types.Identical(ev.Map.Typ.Underlying().(*types.Map).Key(), keyT) {
				break
			}
			id := whoseKey(ev.Key)
			l, i := elemAt(id)
			switch {
			case isFind && id == own:
				st.setFlag("own", true)
			case isFind && ev.Key == target:
				st.setFlag("target", true)
			case isFind && l != nil && l == st.mon["peers seq"]:
				if p := walkAt(st, "peers"); p != nil && sameLin(linOf(i), linOf(p)) {
					st.setFlag("marked", true)
				}
			case l != nil && l == st.mon["names seq"] && walkAt(st, "names") != nil && sameLin(linOf(i), linOf(walkAt(st, "names"))):
				bad(st.flag("seen") || st.flag("fresh") && st.flag("locked") && len(st.locks) > 0, "once", "one step", "whether a peer was seen before is not decided and marked in one step under a lock")
				st.setFlag("marked", true)
			default:
				bad(false, "once", "mark", "something is marked as seen that is not a peer at hand")
			}
		case EvAppend:
			if !isIDs(ev.Val.Typ) {
				break
			}
			el := appended(st, ev)
			l, i := elemAt(el)
			isAt := func(key string) bool {
				p := walkAt(st, key)
				return l != nil && l == st.mon[key+" seq"] && p != nil && sameLin(linOf(i), linOf(p))
			}
			switch {
			case isFind && el != nil && el == st.mon["got"]:
				ok := ev.X.Op == OAppend || ev.X.Op == OWiden || ev.X.Op == OPhi || ev.X.Op == OHavoc || !st.flag("some")
				bad(ok, "best", "kept", "peers found before are dropped")
				st.setFlag("some", true)
				delete(st.mon, "got")
				st.mon["collected"] = ev.Val
				return
			case isFind && isAt("peers"):
				bad(!st.flag("added"), "start", "twice", "a peer of the routing table is put on a list twice")
				st.setFlag("added", true)
			case isAt("names"):
				bad(st.flag("fresh") && st.flag("locked") && len(st.locks) > 0, "once", "added", "a peer is put on a list although it may have been seen before")
				bad(!st.flag("added"), "once", "twice", "a peer is put on a list twice")
				st.setFlag("added", true)
			default:
				bad(false, "once", "append", "something is put on a list that is not the peer at hand")
			}
			if unconv(ev.X) == st.mon["~list"] && st.mon["list cell"] != nil {
				st.setFlag("dirty", true)
			} else {
				bad(ev.X.Op == OAppend || ev.X.Op == OWiden || ev.X.Op == OPhi, "all-asked", "append", "the peers on a list are dropped when another is added")
			}
			st.mon["~list"] = unconv(ev.Val)
			st.setFlag("empty", false)
		case EvSlice:
			if ev.X.Typ == nil || !isIDs(ev.X.Typ) || isFind {
				break
			}
			l := unconv(ev.X)
			lo := newLin(0)
			if ev.Lo != nil {
				lo = linOf(ev.Lo)
			}
			hi := lenOf(l)
			if ev.Hi != nil {
				hi = linOf(ev.Hi)
			}
			first := sameLin(lo, newLin(1)) && st.entailsEq(hi, lenOf(l))
			last := sameLin(lo, newLin(0)) && st.entailsEq(hi.plus(1), lenOf(l))
			if !first && !last {
				bad(sameLin(lo, newLin(0)) && st.entailsEq(hi, lenOf(l)), "all-asked", "cut", "more than the peer to be asked is taken off a list")
				break
			}
			if st.mon["cut"] != nil {
				dbg("cut", st.mon["cut"].str(8))
				popped()
			}
			idx := vInt(0)
			if last {
				idx = ev.Hi
			}
			st.mon["cut"] = at(l, idx)
			match()
			if l == st.mon["~list"] && st.mon["list cell"] != nil {
				st.setFlag("dirty", true)
			}
			st.mon["~list"] = unconv(ev.Val)
			st.setFlag("empty", false)
		case EvLock, EvUnlock:
			kept()
			if ev.Kind == EvUnlock {
				st.setFlag("locked", false)
				if st.flag("fresh") {
					bad(st.flag("marked"), "once", "marked", "a peer is not marked as seen while it is locked")
				}
			}
		case EvGo:
			kept()
			st.setFlag("all started", false)
			if sameLin(counter(st, "announced"), newLin(0)) && isFind {
				bad(!st.flag("running"), "ends", "one", "the lookup is started twice")
				bad(st.flag("own"), "start", "self", "the node itself is not marked as seen")
				bad(st.flag("target"), "start", "target", "the key looked for is not marked as seen")
				started(st.flag("peers started"))
				bad(walkedAll(st, "peers"), "start", "loop", "not every peer of the routing table is looked at")
				st.setFlag("running", true)
				break
			}
			if st.flag("closer") {
				ok := false
				idx := func(v *V) {
					if v != nil && isIntTerm(v) {
						ok = ok || sameLin(linOf(v), counter(st, "started"))
					}
				}
				for _, a := range ev.Args {
					idx(a)
				}
				if f := unconv(ev.FnVal); f != nil && f.Op == OClosure {
					for _, b := range f.Args {
						if t := deref(b.Typ); b.Op == OAlloc && types.Identical(t, types.Typ[types.Int]) {
							idx(st.load(b, t))
						}
						idx(b)
					}
				}
				bad(ok, "all-queues", "each", "the lists are not worked on one by one")
			}
			bad(st.ge(counter(st, "announced"), counter(st, "started").plus(1)), "waited-for", "announced", "a goroutine is started that is not waited for")
			counterAdd(st, "started", vInt(1))
			st.setFlag("unwaited", true)
		case EvSelect:
			if ev.Chan != nil && chanOf(ev.Chan) != nil {
				bad(false, "answers-heard", "select", "a channel is used in a select statement, which is not analysed")
			}
		case EvRecv:
			t := chanOf(ev.Chan)
			switch {
			case t == nil:
			case types.Identical(t, idT) && isFound(ev.Chan):
				bad(isFind, "best", "receiver", "found peers are received elsewhere than where they are collected")
				bad(st.mon["got"] == nil, "best", "dropped", "a peer that was found is dropped")
				if ev.OK {
					st.mon["got"] = ev.Val
				} else {
					st.setFlag("drained", true)
				}
			case types.Identical(t, idT):
				asked()
				delete(st.mon, "asking")
				delete(st.mon, "answer")
				delete(st.mon, "err")
				for _, f := range []string{"asked", "listed", "answered", "unanswered"} {
					st.setFlag(f, false)
				}
				st.setCount("told", 0)
				if ev.OK {
					st.mon["asking"] = ev.Val
				}
			case isIDs(t):
				kept()
				popped()
				allLearned()
				counterAdd(st, "out", vInt(-1))
				walkBegin(st, "names", unconv(ev.Val))
				for _, f := range []string{"fresh", "marked", "added", "seen", "empty", "full", "room"} {
					st.setFlag(f, false)
				}
			}
		case EvSend:
			t := chanOf(ev.Chan)
			if t == nil {
				break
			}
			ended()
			switch {
			case types.Identical(t, idT) && isFound(ev.Chan):
				bad(st.flag("answered") && ev.Val == st.mon["asking"], "only-answering", "who", "a peer is found that did not answer")
				bad(!st.flag("listed"), "only-answering", "twice", "a peer is found twice")
				st.setFlag("listed", true)
			case types.Identical(t, idT):
				if st.mon["handed"] != nil {
					dbg("handed", st.mon["handed"].str(8), st.mon["cut"].str(8))
					popped()
				}
				bad(st.flag("room"), "room", "send", "handing out work may block the goroutine that collects the answers")
				st.setFlag("room", false)
				l, i := elemAt(ev.Val)
				if l == nil {
					bad(false, "all-asked", "what", "what is handed out is not a peer taken off a list")
					break
				}
				st.mon["handed"] = at(l, i)
				match()
				counterAdd(st, "out", vInt(1))
				st.setFlag("hands out", true)
			case isIDs(t):
				bad(st.flag("asked") && (st.flag("answered") || st.flag("unanswered")), "answers-heard", "when", "an outcome is reported before there is one")
				v := unconv(ev.Val)
				if st.flag("answered") {
					o := st.mon["answer"]
					ok := v.Op == OField && walkFind(v, func(u *V) bool { return u == o })
					bad(ok, "answers-heard", "names", "the peers an answer names are not reported")
				} else if st.flag("unanswered") {
					bad(st.ge(newLin(0), lenOf(v)), "answers-heard", "none", "peers are reported although there was no answer")
				}
				st.setCount("told", min(st.count("told")+1, 2))
			}
		case EvClose:
			t := chanOf(ev.Chan)
			if t == nil {
				break
			}
			ended()
			switch {
			case types.Identical(t, idT) && isFound(ev.Chan):
				bad(!st.flag("unwaited") && st.flag("waited"), "ends", "closed", "the channel of found peers is closed while peers may still be found")
				bad(!st.flag("closed") && st.flag("closer"), "ends", "twice", "the channel of found peers may be closed twice")
				st.setFlag("closed", true)
			case types.Identical(t, idT):
				kept()
				popped()
				allLearned()
				bad(st.entailsEq(counter(st, "out"), newLin(0)), "answers-heard", "waited", "a lookup ends while answers are outstanding")
				bad(st.flag("empty") || st.flag("full"), "all-asked", "rest", "a lookup ends while there are peers left to ask")
				bad(!st.flag("queue closed"), "ends", "queue twice", "a channel may be closed twice")
				st.setFlag("queue closed", true)
			case isIDs(t):
				bad(!st.flag("unwaited"), "waited-for", "closed", "a channel is closed that others may still send to")
			}
		case EvCall:
			switch {
			case ev.Sfn == nil:
			case ev.Sfn == nodeID || ev.Sfn == selfM:
				ev.Res = own
			case ev.Sfn == peers:
				walkBegin(st, "peers", ev.Res)
			case ev.Sfn == request:
				ended()
				n := len(ev.Args)
				if n < 3 {
					break
				}
				ctx, addr, msg := ev.Args[n-3], ev.Args[n-2], ev.Args[n-1]
				a := st.mon["asking"]
				bad(a != nil && addr == c.idPart(a, "Address"), "question", "whom", "the peer asked is not the one at hand")
				bad(!st.flag("asked"), "question", "twice", "a peer is asked twice")
				bad(msgType(msg) == asks && norm(fieldOf(unconv(msg), reqT, "Target")) == target, "question", "what", "a peer is not asked for the peers closest to the key looked for")
				lim := walkFind(ctx, func(u *V) bool {
					return u.Op == OCall && u.Str == "context.WithTimeout" && len(u.Args) == 2 && field(u.Args[1], timeF)
				})
				bad(lim, "question", "limit", "a peer is asked without the configured time limit")
				st.setFlag("asked", true)
				st.mon["answer"], st.mon["err"] = extract(ev.Res, 0), extract(ev.Res, 1)
				return
			}
			switch ev.Name {
			case "(*sync.WaitGroup).Add":
				counterAdd(st, "announced", ev.Args[len(ev.Args)-1])
				st.setFlag("all started", false)
			case "(*sync.WaitGroup).Done":
				st.setCount("done", min(st.count("done")+1, 2))
			case "(*sync.WaitGroup).Wait":
				bad(all(), "waited-for", "reports", "more goroutines are waited for than were started")
				if st.flag("workers") || st.mon["width"] != nil {
					w := st.mon["width"]
					bad(w != nil && st.entailsEq(counter(st, "announced"), linOf(w)), "limits", "workers", "not as many peers are asked at a time as configured")
				}
				if st.flag("closer") {
					ok := st.flag("covered")
					for _, n := range lists() {
						ok = ok || st.entailsEq(counter(st, "announced"), n)
					}
					bad(ok, "all-queues", "count", "not as many goroutines are started as there are lists")
				}
				delete(st.mon, "width")
				st.setFlag("unwaited", false)
				st.setFlag("waited", true)
			}
		case EvReturn:
			kept()
			popped()
			asked()
			if st.mon["names seq"] != nil {
				allLearned()
			}
			bad(!st.flag("unwaited"), "waited-for", "return", "a goroutine ends before those it started")
			if st.flag("wg") {
				bad(st.count("done") == 1, "waited-for", "done", "the end of a goroutine is not reported exactly once")
			}
			if st.flag("closer") {
				bad(st.flag("closed"), "ends", "closed", "the channel of found peers is not closed in the end")
			}
			if st.flag("hands out") {
				bad(st.flag("queue closed"), "waited-for", "queue", "the goroutines that ask peers are not told to end")
			}
			if !isFind || x.Coarse {
				break
			}
			bad(st.flag("drained") && st.flag("running"), "ends", "drained", "a lookup returns before it has ended")
			bad(st.mon["got"] == nil, "best", "dropped", "a peer that was found is dropped")
			r := unconv(ev.Res)
			base := r
			n := lenOf(r)
			if r.Op == OSlice {
				base = unconv(r.Args[0])
				lo := r.Args[1]
				bad(lo == nil || sameLin(linOf(lo), newLin(0)), "best", "first", "the nearest peers are left out")
			}
			ok := base.Op == OCall && base.Str == fullName(sortF) && len(base.Args) == 2 && base.Args[0] == target
			if ok {
				l := unconv(base.Args[1])
				ok = l.Op == OAppend || l.Op == OPhi || l.Op == OWiden || l.Op == OHavoc || !st.flag("some")
			}
			n2 := n
			if ok {
				n2 = lenOf(unconv(base.Args[1]))
			}
			bad(ok, "best", "sorted", "what is returned is not the peers found, nearest to the key looked for first")
			m := st.mon["max"]
			bad(m != nil && st.ge(linOf(m), n) && (st.entailsEq(n, lenOf(base)) || st.entailsEq(n, n2) || st.entailsEq(n, linOf(m))), "best", "count", "what is returned is not all peers found, or as many as configured if there are more")
		}
		if ev.Kind == EvLoad && field(ev.Val, maxF) {
			st.mon["max"] = ev.Val
		}
	}
	c.run(World{Name: "result", Fns: []*ssa.Function{find}, Mons: []MonitorFunc{mon}, NoContent: true, Skip: skip, OnGo: noGo})
	c.run(World{Name: "lookup", Fns: []*ssa.Function{find}, Mons: []MonitorFunc{mon}, NoContent: true, Coarse: true, Skip: skip, OnGo: func(x *Exec, st *State, ev *Event, r *Root) bool {
		r.State.mon = map[string]*V{}
		r.State.setFlag("wg", x.Root.Fn != find)
		r.State.setFlag("closer", x.Root.Fn == find)
		return true
	}})
	for _, f := range c.P.all {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/"+sub {
			c.capturedStores("own-variables", f)
		}
	}
	c.lookupEntries(find, nodeID, selfM)
}

// lookupEntries: the exported ways to start a lookup.
func (c *Check) lookupEntries(find, nodeID, selfM *ssa.Function) {
	const sub = "kademlia"
	own := mk(V{Op: OGhost, Str: "own identity", Typ: c.P.typ("", "ID")})
	byKey, discover := c.exportedMethod(sub, "Protocol", "Find"), c.exportedMethod(sub, "Protocol", "Discover")
	optT := c.P.typ(sub, "IteratorOption")
	iterT := c.P.typ(sub, "Iterator")
	c.run(World{Name: "entries", Fns: []*ssa.Function{byKey, discover}, NoContent: true, OnGo: noGo, Skip: func(f *ssa.Function) bool { return f == find || c.opaque(f) }, Mons: []MonitorFunc{func(x *Exec, st *State, ev *Event) {
		fn := x.Root.Fn
		bad := func(ok bool, construct, what string) {
			c.check(ok, "asked-for", fn.Name()+" "+construct, x, st, ev.Pos, "%s", what)
		}
		var opts *V
		for _, p := range fn.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), optT) {
				opts = vParam(p.Name(), p.Type())
			}
		}
		if opts != nil && st.mon["opts seq"] == nil {
			walkBegin(st, "opts", opts)
		}
		each := func(begun bool) {
			bad(!begun || st.count("applied") == 1, "options", "an option is not applied exactly once")
			st.setCount("applied", 0)
		}
		switch ev.Kind {
		case EvIndex:
			if unconv(ev.X) == st.mon["opts seq"] {
				begun := st.flag("opts started")
				if walkStep(st, ev, "opts") {
					each(begun)
				}
			}
		case EvBranch:
			walkStep(st, ev, "opts")
		case EvCall:
			switch {
			case ev.Sfn == nodeID || ev.Sfn == selfM:
				ev.Res = own
			case ev.Sfn == find:
				each(st.flag("opts started"))
				bad(opts == nil || walkedAll(st, "opts"), "options", "not all options are applied")
				key := ev.Args[len(ev.Args)-1]
				want := c.idPart(own, "ID")
				if fn == byKey {
					want = vParam(fn.Params[1].Name(), fn.Params[1].Type())
				}
				bad(key == want, "key", "another key is looked for")
				bad(st.mon["found"] == nil, "once", "it is looked for twice")
				st.mon["found"] = ev.Res
			case ev.FnVal != nil && len(ev.Args) == 1 && types.Identical(deref(ev.Args[0].Typ), iterT):
				l, i := elemAt(ev.FnVal)
				p := walkAt(st, "opts")
				if l != nil && l == opts && p != nil && sameLin(linOf(i), linOf(p)) {
					st.setCount("applied", min(st.count("applied")+1, 2))
				}
			}
		case EvReturn:
			bad(st.mon["found"] != nil && unconv(ev.Res) == st.mon["found"], "result", "what is returned is not what was found")
		}
	}}})
}

// whoseKey is the identity whose public key v is.
func whoseKey(v *V) *V {
	v = unconv(v)
	switch {
	case v == nil:
	case v.Op == OField && v.Str == "ID":
		return v.Args[0]
	case (v.Op == OInit || v.Op == OHavoc) && len(v.Args) > 0 && v.Args[0].Op == OFieldAddr && v.Args[0].Str == "ID":
		return mk(V{Op: v.Op, Site: v.Site, Args: []*V{v.Args[0].Args[0]}, Typ: elemType(v.Args[0].Args[0])})
	}
	return nil
}

func isZeroList(v *V) bool { return v.Op == OZero || v.isConst() }
