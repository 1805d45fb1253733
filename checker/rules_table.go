package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C30", c30) }

// whole is the value of the array a slice of all of it points into.
func whole(st *State, v *V) *V {
	v = unconv(v)
	if v == nil || v.Op != OSlice && v.Op != OFieldAddr && v.Op != OAlloc {
		return nil
	}
	if v.Op == OSlice {
		for _, b := range v.Args[1:] {
			if b != nil && b != vNil {
				if n, ok := b.intConst(); !ok || n != 0 {
					return nil
				}
			}
		}
		v = v.Args[0]
	}
	t, ok := v.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	if _, ok := t.Elem().Underlying().(*types.Array); !ok {
		return nil
	}
	return st.load(v, t.Elem())
}

// pureDistance replaces the results of the exported functions of the distance metric by terms over their arguments.
func (c *Check) pureDistance(xor, prefix *ssa.Function) MonitorFunc {
	return func(x *Exec, st *State, ev *Event) {
		if ev.Kind != EvCall || ev.Sfn == nil {
			return
		}
		switch ev.Sfn {
		case xor:
			a, b := whole(st, ev.Args[0]), whole(st, ev.Args[1])
			if a != nil && b != nil {
				if a.id > b.id {
					a, b = b, a
				}
				ev.Res = mk(V{Op: OCall, Str: "distance", Args: []*V{a, b}, Typ: ev.Res.Typ})
			}
		case prefix:
			ev.Res = mk(V{Op: OCall, Str: "prefix", Args: []*V{ev.Args[0]}, Typ: ev.Res.Typ})
		}
	}
}

// tableWorld: the methods of the routing table.
func (c *Check) tableWorld(extra []*ssa.Function, mons ...MonitorFunc) *Exec {
	fns := append([]*ssa.Function{}, extra...)
	for _, f := range c.P.exported("kademlia") {
		if r := f.Signature.Recv(); r != nil && typeName(deref(r.Type())) == modPath+"/kademlia.Table" {
			fns = append(fns, f)
		}
	}
	xor, prefix := c.P.function("kademlia", "XOR"), c.P.function("kademlia", "PrefixLen")
	skip := func(f *ssa.Function) bool { return f == xor || f == prefix }
	return c.run(World{Name: "table", Fns: fns, Mons: append([]MonitorFunc{c.pureDistance(xor, prefix)}, mons...), NoContent: true, Skip: skip,
		OnGo: func(*Exec, *State, *Event, *Root) bool { return false }})
}

// elemOf is the list element whose value v is, or is a part of.
func elemOf(v *V) *V {
	for v != nil {
		switch v.Op {
		case OConv, OIface, OAssert, OField:
			v = v.Args[0]
			continue
		case OInit, OHavoc:
			if len(v.Args) > 0 && v.Args[0].Op == OFieldAddr && typeName(deref(v.Args[0].Args[0].Typ)) == "container/list.Element" {
				return v.Args[0].Args[0]
			}
		}
		return nil
	}
	return nil
}

// fieldPart: v is the named field of a peer identity x.
func (c *Check) idField(v *V, name string) *V {
	if v == nil || v.Op != OField || v.Str != name {
		return nil
	}
	return v.Args[0]
}

// idPart is the named field of the identity v.
func (c *Check) idPart(v *V, name string) *V {
	v = unconv(v)
	if v == nil {
		return nil
	}
	t := c.P.typ("", "ID")
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return vField(v, t, i)
		}
	}
	return nil
}

// compared: what the named field of the value of element e was compared with on this path, and found equal to (or not).
func (c *Check) compared(st *State, e *V, name string, equal bool) []*V {
	var out []*V
	for f, t := range st.facts {
		if f.Op != OBin || f.Str != "==" || t != equal {
			continue
		}
		for i := 0; i < 2; i++ {
			if x := c.idField(f.Args[i], name); x != nil && elemOf(x) == e {
				out = append(out, f.Args[1-i])
			}
		}
	}
	return out
}

// cmpElem: v says whether the identifier of a list element is key; the element.
func (c *Check) cmpElem(v, key *V) *V {
	if v != nil && v.Op == OBin && v.Str == "==" {
		for i := 0; i < 2; i++ {
			if x := c.idField(v.Args[i], "ID"); x != nil && v.Args[1-i] == key {
				return elemOf(x)
			}
		}
	}
	return nil
}

func hasV(l []*V, v *V) bool {
	for _, w := range l {
		if w == v {
			return true
		}
	}
	return false
}

// listIndex is the place of a list in the array (or slice) of lists it was read from.
func listIndex(l *V) (base, idx *V) {
	l = unold(l)
	if l == nil {
		return nil, nil
	}
	if l.Op == OIndex && len(l.Args) > 1 {
		if b := initOf(l.Args[0]); b != nil {
			return b, l.Args[1]
		}
		return l.Args[0], l.Args[1]
	}
	if (l.Op == OInit || l.Op == OHavoc) && len(l.Args) > 0 && l.Args[0].Op == OIndexAddr {
		return l.Args[0].Args[0], l.Args[0].Args[1]
	}
	return nil, nil
}

// keyIn is the identifier, other than the table's own, whose distance decides the place idx, and the table's own.
func keyIn(idx *V) (keys []*V) {
	walkFind(idx, func(u *V) bool {
		if u.Op == OCall && u.Str == "distance" {
			for _, a := range u.Args {
				if !hasV(keys, a) {
					keys = append(keys, a)
				}
			}
		}
		return false
	})
	return
}

// canonical writes a term with v replaced.
func canonical(u, v *V) string {
	if u == nil {
		return "_"
	}
	if u == v {
		return "KEY"
	}
	if u.Op == OCall && u.Str == "distance" && len(u.Args) == 2 {
		a, b := canonical(u.Args[0], v), canonical(u.Args[1], v)
		if a > b {
			a, b = b, a
		}
		return "distance(" + a + ")(" + b + ")"
	}
	s := fmt.Sprint(u.Op, u.Str, u.Idx)
	if len(u.Args) == 0 {
		s += u.String()
	}
	for _, a := range u.Args {
		s += "(" + canonical(a, v) + ")"
	}
	return s
}

// sentinel: v is read from the exported variable of the package.
func isGlobal(v *V, pkg, name string) bool {
	i := initOf(unconv(v))
	if i == nil {
		return false
	}
	return i.Str == pkg+"."+name || i.String() == pkg+"."+name
}

func (c *Check) intConstOf(sub, name string) (int64, bool) {
	p := c.P.pkg(sub)
	if p == nil {
		return 0, false
	}
	if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
		return constant.Int64Val(constant.ToInt(k.Val()))
	}
	return 0, false
}

// tableFlow follows how the lists of the table are walked. flags and values:
// walk: the list being walked, cur: the element reached, miss: the identifier all elements so far differ from,
// gap: an element was passed without being compared, over: the walk has come to the end
func (c *Check) tableFlow(x *Exec, st *State, ev *Event) {
	reset := func() {
		for _, k := range []string{"walk", "~cur", "~pend", "miss", "missaddr"} {
			delete(st.mon, k)
		}
		for _, k := range []string{"gap", "over", "addrgap", "taken", "left", "pend gap", "pend addrgap", "pend left"} {
			st.setFlag(k, false)
		}
	}
	// what the element e is known to be: compared with the identifier asked about, and different; likewise its address; collected, or the one asked about
	judge := func(e *V) (id, addr, kept bool) {
		for i, f := range [][2]string{{"ID", "miss"}, {"Address", "missaddr"}} {
			l := c.compared(st, e, f[0], false)
			ok := len(l) > 0 && (st.mon[f[1]] == nil || hasV(l, st.mon[f[1]]))
			if ok && st.mon[f[1]] == nil {
				st.mon[f[1]] = l[0]
				if k := c.tableKey(x); hasV(l, k) {
					st.mon[f[1]] = k
				}
			}
			if i == 0 {
				id = ok
			} else {
				addr = ok
			}
		}
		eq := c.compared(st, e, "ID", true)
		kept = x.Root.Fn.Name() != "Bucket" && (hasV(eq, c.tableKey(x)) || st.mon["self"] != nil && hasV(eq, st.mon["self"]))
		return
	}
	// the element before the one reached may be looked at later
	pending := func() {
		if e := st.mon["~pend"]; e != nil {
			id, addr, kept := judge(e)
			if id {
				st.setFlag("pend gap", false)
			}
			if addr {
				st.setFlag("pend addrgap", false)
			}
			if kept {
				st.setFlag("pend left", false)
			}
		}
	}
	promote := func() {
		pending()
		for _, f := range []string{"gap", "addrgap", "left"} {
			if st.flag("pend " + f) {
				st.setFlag(f, true)
				st.setFlag("pend "+f, false)
			}
		}
		delete(st.mon, "~pend")
	}
	switch ev.Kind {
	case EvLock:
		reset()
		delete(st.mon, "len")
		delete(st.mon, "dist")
		st.setCount("net", 0)
		st.setCount("size", 0)
		st.setFlag("room", false)
	case EvUnlock:
		reset()
		delete(st.mon, "len")
		st.setFlag("room", false)
	case EvBranch, EvReturn:
		for f := range st.facts {
			walkFind(f, func(u *V) bool {
				if u.Op == OCall && u.Str == "distance" {
					st.mon["dist"] = u
				}
				return false
			})
		}
		pending()
		if cur := st.mon["~cur"]; cur != nil && st.nilness(cur) > 0 {
			promote()
			delete(st.mon, "~cur")
			st.setFlag("over", true)
		}
		if k := c.tableKey(x); k != nil {
			for f, t := range st.facts {
				if f.Op == OBin && f.Str == "==" && (f.Args[0] == k || f.Args[1] == k) {
					o := f.Args[0]
					if o == k {
						o = f.Args[1]
					}
					if isGlobal(o, modPath, "ZeroPublicKey") || o.Op == OZero {
						st.setFlag("iszero", t)
						st.setFlag("notzero", !t)
					}
				}
			}
		}
	case EvCall:
		switch {
		case isListOp(ev, "Front", "Back"):
			reset()
			if isListOp(ev, "Back") {
				st.mon["last"] = ev.Res
			}
			st.mon["walk"], st.mon["~cur"] = ev.Recv, ev.Res
			st.setFlag("back", isListOp(ev, "Back"))
		case ev.Name == "(*container/list.Element).Next", ev.Name == "(*container/list.Element).Prev":
			cur := st.mon["~cur"]
			if cur == nil || ev.Recv != cur || st.flag("back") != (ev.Name == "(*container/list.Element).Prev") {
				st.setFlag("gap", true)
				st.setFlag("addrgap", true)
				st.setFlag("left", true)
			} else {
				promote()
				id, addr, kept := judge(cur)
				st.setFlag("pend gap", !id)
				st.setFlag("pend addrgap", !addr)
				st.setFlag("pend left", !kept && !st.flag("taken"))
				if !id || !addr || !kept && !st.flag("taken") {
					st.mon["~pend"] = cur
				}
			}
			st.setFlag("taken", false)
			st.mon["~cur"] = ev.Res
		case isListOp(ev, "Len"):
			st.mon["len"] = ev.Res
			st.mon["lenof"] = ev.Recv
		}
	case EvAppend:
		pending()
		delete(st.mon, "app")
		if v := appended(st, ev); v != nil {
			if e := elemOf(v); v.Op != OField && e != nil {
				switch e {
				case st.mon["~cur"]:
					st.setFlag("taken", true)
					st.mon["app"] = e
				case st.mon["~pend"]:
					st.setFlag("pend left", false)
					st.mon["app"] = e
				}
			}
		}
	}
}

// appended is the element that is appended, if it is one.
func appended(st *State, ev *Event) *V {
	if ev.Lo != nil && ev.Lo.Op == OSlice && ev.Lo.Args[0].Op == OAlloc {
		if arr, ok := deref(ev.Lo.Args[0].Typ).Underlying().(*types.Array); ok && arr.Len() == 1 {
			return st.load(vIndexAddr(ev.Lo.Args[0], vInt(0), types.NewPointer(arr.Elem())), arr.Elem())
		}
	}
	return nil
}

// tableKey is the identifier (or the address) a method of the table is asked about.
func (c *Check) tableKey(x *Exec) *V {
	n := 0
	if x.Root.Fn.Signature.Recv() != nil {
		n = 1
	}
	if len(x.Root.Args) <= n {
		return nil
	}
	k := x.Root.Args[n]
	if k.Typ != nil && types.Identical(k.Typ, c.P.typ("", "ID")) {
		return c.idPart(k, "ID")
	}
	return k
}

func (c *Check) absent(x *Exec, st *State, l *V) bool {
	return st.flag("over") && !st.flag("gap") && (st.mon["miss"] == nil || st.mon["miss"] == c.tableKey(x)) && st.mon["walk"] == l
}

func c30(c *Check) {
	P := c.P
	c.rule("one-place", 4, "every method that is asked about an identifier looks at one place of the table only, the same for all methods, computed from the distance of the identifier to the own one")
	c.rule("no-duplicates", 1, "a peer is put into the table only after all entries of its bucket were seen, under the same lock, to have another identifier")
	c.rule("capacity", 1, "a peer is put into a bucket only if it was seen, under the same lock, to hold less than its capacity")
	c.rule("no-zero", 1, "the zero identifier is never put into the table")
	c.rule("counted", 2, "the number of entries is changed together with the entries, by the same amount")
	c.rule("removes-asked", 2, "only the entry asked for is removed")
	c.rule("recency", 1, "a peer that is put in or updated becomes the first of its bucket")
	c.rule("answers", 6, "what a method returns is what it found or did: inserted, updated, full; removed or not; recorded or not")
	c.rule("own-fixed", 0, "the identity distances are measured from is not changed")
	size, okc := c.intConstOf("kademlia", "BucketSize")
	if !okc {
		c.bad("capacity", "BucketSize", nil, nil, token.NoPos, "the capacity of a bucket is not a constant")
		return
	}
	// what is counted
	var countF *fref
	probe(P, P.method("kademlia", "Table", "NumEntries"), func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvReturn && ev.Res != nil {
			if i := initOf(ev.Res); i != nil {
				countF = refFrom(i, P.typ("kademlia", "Table"))
			}
		}
	})
	places := map[string]map[string]bool{} // method -> canonical places
	where := map[string]*Event{}
	selfs := map[*V]bool{}
	place := func(x *Exec, st *State, ev *Event, l *V) bool {
		key := c.tableKey(x)
		m := x.Root.Fn.Name()
		_, idx := listIndex(l)
		if idx == nil || key == nil {
			return false
		}
		ks := keyIn(idx)
		if d := st.mon["dist"]; idx.isConst() && d != nil { // chosen because of the distance
			ks = keyIn(d)
		}
		if len(ks) != 2 || !hasV(ks, key) {
			c.bad("one-place", m, x, st, ev.Pos, "%s uses a bucket that is not the one of the identifier it is asked about", m)
			return false
		}
		for _, k := range ks {
			if k != key {
				selfs[k] = true
			}
		}
		if places[m] == nil {
			places[m] = map[string]bool{}
		}
		places[m][canonical(idx, key)] = true
		where[m] = ev
		return true
	}
	var fullErr = func(st *State, ev *Event) bool {
		ci, ok := ev.Instr.(ssa.CallInstruction)
		if !ok || ev.Name != "fmt.Errorf" {
			return false
		}
		if k, ok := ci.Common().Args[0].(*ssa.Const); !ok || k.Value == nil || !strings.Contains(constant.StringVal(k.Value), "%w") {
			return false
		}
		return walkFind(mk(V{Op: OTuple, Args: ev.Args[1:]}), func(v *V) bool { return isGlobal(v, modPath+"/kademlia", "ErrBucketFull") })
	}
	mon := func(x *Exec, st *State, ev *Event) {
		m := x.Root.Fn.Name()
		key := c.tableKey(x)
		byKey := key != nil && types.Identical(key.Typ, P.typ("", "PublicKey"))
		switch ev.Kind {
		case EvCall:
			if strings.HasPrefix(ev.Name, "(*container/list.List).") && byKey && m != "FindClosest" && x.Root.Fn.Signature.Recv() != nil {
				place(x, st, ev, ev.Recv)
			}
			switch {
			case isListOp(ev, "PushFront", "PushBack", "InsertBefore", "InsertAfter"):
				v := unconv(ev.Args[0])
				id := c.idPart(v, "ID")
				c.check(id == key && c.absent(x, st, ev.Recv), "no-duplicates", m, x, st, ev.Pos, "a peer is put into a bucket that may hold it already")
				room := st.flag("room")
				if l := st.mon["len"]; l != nil && st.mon["lenof"] == ev.Recv && st.ge(newLin(size-1), linOf(l)) {
					room = true
				}
				c.check(room && heldWrite(st), "capacity", m, x, st, ev.Pos, "a peer is put into a bucket that may be full")
				c.check(st.flag("notzero"), "no-zero", m, x, st, ev.Pos, "the zero identifier may be put into the table")
				c.check(isListOp(ev, "PushFront"), "recency", m, x, st, ev.Pos, "a peer that is put into its bucket does not become its first")
				st.setCount("net", st.count("net")+1)
				st.setFlag("room", false)
				delete(st.mon, "len")
				st.setFlag("pushed", true)
			case isListOp(ev, "Remove"):
				e := ev.Args[0]
				dbg("remove", e, "~cur", st.mon["~cur"], "walk", st.mon["walk"], ev.Recv, "key", key, c.compared(st, e, "ID", true))
				ok := (e == st.mon["~cur"] || e == st.mon["~pend"]) && st.mon["walk"] == ev.Recv && (hasV(c.compared(st, e, "ID", true), key) || key != nil && hasV(c.compared(st, e, "Address", true), key))
				c.check(ok, "removes-asked", m, x, st, ev.Pos, "an entry may be removed that is not the one asked for")
				st.setCount("net", st.count("net")-1)
				st.setFlag("room", true)
				delete(st.mon, "len")
				st.mon["removed"] = e
			case isListOp(ev, "MoveToFront"):
				e := ev.Args[0]
				if hasV(c.compared(st, e, "ID", true), key) {
					st.setFlag("moved", true)
				}
			case isListOp(ev, "Init", "MoveToBack", "PushBackList", "PushFrontList", "MoveBefore", "MoveAfter"):
				if m == "NewTable" {
					return
				}
				c.bad("recency", m, x, st, ev.Pos, "the order or the content of a bucket is changed in an unexpected way")
			case ev.Name == "fmt.Errorf":
				if fullErr(st, ev) {
					st.mon["fullerr"] = ev.Res
				}
			}
		case EvBranch:
			for _, n := range []string{"~cur", "~pend"} {
				if e := st.mon[n]; e != nil && hasV(c.compared(st, e, "ID", true), key) {
					st.mon["found"] = e
				}
			}
			if w := st.mon["walk"]; w != nil && c.absent(x, st, w) {
				st.setFlag("absent", true)
			}
			if l := st.mon["len"]; l != nil && st.ge(linOf(l), newLin(size)) && st.mon["lenof"] == st.mon["walk"] && c.absent(x, st, st.mon["walk"]) {
				st.setFlag("full", true)
			}
		case EvStore:
			if countF != nil && countF.match(ev.Addr) != nil {
				d := linOf(ev.Val).add(linOf(st.load(ev.Addr, countF.ftype())), -1)
				if len(d.m) > 0 {
					c.bad("counted", m, x, st, ev.Pos, "the number of entries is set to something that is not computed from it")
					return
				}
				st.setCount("size", st.count("size")+d.c)
			}
			b, path := addrRef(ev.Addr)
			if len(path) > 0 && b.Typ != nil && types.Identical(deref(b.Typ), P.typ("kademlia", "Table")) && m != "NewTable" {
				for s := range selfs {
					if i := initOf(s); i != nil {
						if _, p := addrRef(i); len(p) > 0 && p[0] == path[0] {
							c.bad("own-fixed", m, x, st, ev.Pos, "the identity distances are measured from is changed")
						}
					}
				}
			}
		case EvUnlock:
			if countF != nil {
				c.check(st.count("net") == st.count("size"), "counted", m, x, st, ev.Pos, "entries and their number are not changed by the same amount")
				st.setCount("net", 0)
				st.setCount("size", 0)
			} else {
				c.ok("counted", m, ev.Pos)
			}
		case EvReturn:
			c.tableAnswers(x, st, ev, m, key)
		}
	}
	c.tableWorld([]*ssa.Function{P.function("kademlia", "NewTable")}, c.tableFlow, mon)
	ref := ""
	for _, m := range sortedKeys(places) {
		dbg("place", m, sortedKeys(places[m]))
		s := strings.Join(sortedKeys(places[m]), " | ")
		if ref == "" {
			ref = s
		}
		c.check(s == ref, "one-place", m, nil, nil, where[m].Pos, "%s computes the bucket of an identifier in another way than other methods", m)
	}
	c.check(len(selfs) <= 1, "one-place", "own identity", nil, nil, token.NoPos, "distances are measured from different identities")
}

// tableAnswers: what the methods of the table return agrees with what they did.
func (c *Check) tableAnswers(x *Exec, st *State, ev *Event, m string, key *V) {
	res := []*V{ev.Res}
	if ev.Res != nil && ev.Res.Op == OTuple {
		res = ev.Res.Args
	}
	is := func(v *V, want bool) bool { t := st.truth(v); return want && t > 0 || !want && t < 0 }
	bad := func(ok bool, what string) { c.check(ok, "answers", m, x, st, ev.Pos, "%s %s", m, what) }
	switch m {
	case "Update":
		if len(res) != 2 {
			bad(false, "has another result")
			return
		}
		ins, err := res[0], res[1]
		switch {
		case st.flag("pushed"):
			bad(is(ins, true) && st.nilness(err) > 0, "inserts a peer and does not say so")
		case st.flag("moved"):
			bad(is(ins, false) && st.nilness(err) > 0, "finds a peer recorded and does not say so")
		case st.flag("iszero"):
			bad(is(ins, false), "says that it inserted the zero identifier")
		default:
			dbg("update", st.flag("full"), res, st.mon["fullerr"], st.flag("absent"), st.mon["found"], st.mon["len"])
			bad(st.flag("full") && is(ins, false) && (isGlobal(err, modPath+"/kademlia", "ErrBucketFull") || st.mon["fullerr"] != nil && st.mon["fullerr"] == err),
				"neither inserts a peer nor moves it to the front of its bucket although the bucket may have room, or does not say that the bucket is full")
		}
	case "Delete", "DeleteByAddress":
		if len(res) != 2 {
			bad(false, "has another result")
			return
		}
		if e := st.mon["removed"]; e != nil {
			own := elemOf(res[0]) == e && res[0].Op != OField
			if r := unconv(res[0]); r.Op == OCall && strings.HasSuffix(r.Str, "list.List).Remove") && hasV(r.Args, e) {
				own = true
			}
			bad(is(res[1], true) && own, "removes an entry and does not return it")
		} else {
			bad(is(res[1], false), "says that it removed an entry although it did not")
			if m == "Delete" {
				bad(st.flag("absent"), "may leave the entry it is asked to remove")
			}
		}
	case "Recorded":
		dbg("recorded", res[0], st.mon["found"], st.flag("absent"))
		switch t := st.truth(res[0]); {
		case t > 0:
			bad(st.mon["found"] != nil, "says that a peer is recorded that it did not find")
		case t < 0:
			bad(st.flag("absent") || st.flag("iszero"), "says that a peer is not recorded although it may be")
		default:
			// the comparison with the element it stopped at
			e := c.cmpElem(res[0], key)
			bad(e != nil && (e == st.mon["found"] || st.flag("absent")), "returns something it did not find out")
		}
	case "Last":
		b := st.mon["last"]
		ok := b != nil && (elemOf(res[0]) == b && res[0].Op != OField || st.nilness(b) > 0 && unconv(res[0]).Op == OZero)
		bad(ok, "does not return the entry at the end of the bucket")
	case "NumEntries", "Self":
		c.ok("answers", m, ev.Pos)
	}
}
