package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C32", c32) }

// sorting: a call of package sort that orders a slice by a function.
type sorting struct {
	root *ssa.Function // analysed
	at   *Event
	ids  *V
	less *V
	st   *State
	key  *V // the distances compared are those from key
}

// sortsBy: the event sorts a slice by a comparison given as a function.
func sortsBy(ev *Event) (ids, less *V, ok bool) {
	if ev.Kind != EvCall || len(ev.Args) < 2 {
		return nil, nil, false
	}
	switch ev.Name {
	case "sort.Slice", "sort.SliceStable":
		if l := unconv(ev.Args[1]); l != nil && (l.Op == OClosure || l.Op == OFunc) {
			return unconv(ev.Args[0]), l, true
		}
	}
	return nil, nil, false
}

// lessKey analyses a comparison of the elements of ids: it is by distance from the key that is returned, nearest first, or nil.
func (c *Check) lessKey(s *sorting, skip func(*ssa.Function) bool, pure MonitorFunc) (key *V, why string) {
	r := rootOfFunc("less", s.less)
	if r == nil {
		return nil, "the comparison is not known"
	}
	r.State = s.st.clone()
	r.State.frames, r.State.locks, r.State.ret, r.State.mon = nil, nil, nil, map[string]*V{}
	i, j := r.Args[0], r.Args[1]
	why = "the comparison never ends"
	bad := false
	elem := func(v *V) *V { // the index of the element of ids whose identifier v is
		v = unold(v)
		if v == nil || v.Op != OField && v.Op != OInit {
			return nil
		}
		var idx *V
		walkFind(v, func(u *V) bool {
			if (u.Op == OIndexAddr || u.Op == OIndex) && unconv(u.Args[0]) == s.ids {
				idx = u.Args[1]
				return true
			}
			return false
		})
		if idx == nil {
			return nil
		}
		if v.Op == OField && v.Str == "ID" || v.Op == OInit && v.Args[0].Op == OFieldAddr && v.Args[0].Str == "ID" {
			return idx
		}
		return nil
	}
	dist := func(v *V) (idx, k *V) {
		v = unconv(v)
		if v == nil || v.Op != OCall || v.Str != "distance" {
			return nil, nil
		}
		for n, a := range v.Args {
			if e := elem(a); e != nil {
				return e, v.Args[1-n]
			}
		}
		return nil, nil
	}
	c.run(World{Name: "comparison", Roots: []*Root{r}, Skip: skip, OnGo: noGo, Mons: []MonitorFunc{pure, func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvBranch {
			b, t := ev.Val, ev.OK
			for b.Op == ONot {
				b, t = b.Args[0], !t
			}
			if walkFind(b, func(u *V) bool { return u.Op == OCall && u.Str == "bytes.Compare" }) {
				st.mon["cmp"] = b
				st.setFlag("cmp true", t)
			}
		}
		if ev.Kind != EvReturn {
			return
		}
		fail := func(s string) { bad, why = true, s }
		res := ev.Res
		want := true
		truth := st.truth(res)
		var cmp *V
		if truth == 0 {
			cmp = res
		} else { // decided by a branch
			cmp, want = st.mon["cmp"], st.flag("cmp true") == (truth > 0)
		}
		if cmp == nil || cmp.Op != OBin && cmp.Op != ONot {
			fail("the order is not that of the distances")
			return
		}
		if cmp.Op == ONot {
			cmp, want = cmp.Args[0], !want
		}
		var call *V
		pos := 0
		for n, a := range cmp.Args {
			if a.Op == OCall && a.Str == "bytes.Compare" {
				call, pos = a, n
			}
		}
		if call == nil || !want {
			fail("the order is not that of the distances")
			return
		}
		k, isK := cmp.Args[1-pos].intConst()
		di, k1 := dist(call.Args[0])
		dj, k2 := dist(call.Args[1])
		less := isK && (cmp.Str == "==" && k == -1 || cmp.Str == "<" && pos == 0 && (k == 0)) // Compare(x, y) < 0
		more := isK && (cmp.Str == "==" && k == 1 || cmp.Str == "<" && pos == 1 && (k == 0))  // 0 < Compare(x, y)
		if di == nil || dj == nil || k1 != k2 {
			fail("what is compared is not the distances of two elements from the same key")
			return
		}
		if !(less && di == i && dj == j || more && di == j && dj == i) {
			fail("elements are not ordered by increasing distance")
			return
		}
		if key != nil && key != k1 {
			fail("distances from different keys are compared")
			return
		}
		key = k1
	}}})
	if bad {
		return nil, why
	}
	return key, why
}

func c32(c *Check) {
	P := c.P
	const sub = "kademlia"
	c.rule("all-buckets", 2, "a search of the whole routing table looks at every bucket")
	c.rule("all-entries", 3, "every entry of a bucket that is looked at is collected, except that of the key whose closest peers are asked for, and nothing else is")
	c.rule("nothing-lost", 3, "what was collected is kept until it is sorted or returned")
	c.rule("by-distance", 2, "peers are ordered by increasing distance from the key asked for")
	c.rule("closest-kept", 1, "of the ordered peers the first ones are returned, as many as asked for, or all if there are fewer")
	c.rule("own-closest", 1, "the peers closest to the node itself are as many as a bucket holds")
	c.rule("end-of-bucket", 1, "the last peer of a bucket is the one at its end, or none")
	c.rule("xor", 1, "the distance of two keys is the exclusive or of all their bytes")
	c.rule("prefix", 2, "the number of leading zero bits is counted over all bytes")

	xor, prefix := c.P.function(sub, "XOR"), c.P.function(sub, "PrefixLen")
	sortF := P.function(sub, "SortByDistance")
	skip := func(f *ssa.Function) bool { return f == xor || f == prefix }
	pure := c.pureDistance(xor, prefix)
	find, entries, bucketM := c.exportedMethod(sub, "Table", "FindClosest"), c.exportedMethod(sub, "Table", "Entries"), c.exportedMethod(sub, "Table", "Bucket")
	peers, last := c.exportedMethod(sub, "Table", "Peers"), c.exportedMethod(sub, "Table", "Last")
	size, _ := c.intConstOf(sub, "BucketSize")
	var sorts []*sorting
	idSlice := types.NewSlice(P.typ("", "ID"))
	isIDs := func(t types.Type) bool { return t != nil && types.Identical(t.Underlying(), idSlice) }
	mon := func(x *Exec, st *State, ev *Event) {
		fn := x.Root.Fn
		m := fn.Name()
		whole := fn == find || fn == entries || fn == peers
		bad := func(ok bool, rule, construct, what string) {
			c.check(ok, rule, m+" "+construct, x, st, ev.Pos, "%s: %s", m, what)
		}
		key := c.tableKey(x)
		if fn == peers {
			key = st.mon["self"]
		}
		if ids, less, ok := sortsBy(ev); ok && (fn == find || fn == peers || fn == sortF) {
			s := &sorting{root: fn, at: ev, ids: ids, less: less, st: st.clone()}
			for _, o := range sorts {
				if o.root == fn && o.ids == ids && o.less == less {
					s = nil
					break
				}
			}
			if s != nil {
				if len(sorts) < 64 {
					s.key = key
					sorts = append(sorts, s)
				} else {
					bad(false, "by-distance", "sorts", "too many ways to sort")
				}
			}
			st.mon["sorted"] = ids
			return
		}
		if fn == sortF {
			if ev.Kind == EvReturn {
				ids := fnArg(x, 1)
				bad(st.mon["sorted"] != nil && st.mon["sorted"] == unconv(ids) && unconv(ev.Res) == unconv(ids), "by-distance", "result", "what is returned is not the peers given, sorted")
			}
			return
		}
		if !whole && fn != bucketM && fn != last {
			return
		}
		walk := func() { // the list walked last is done with
			if st.mon["walk"] != nil {
				bad(st.flag("over") && !st.flag("left") && !st.flag("back"), "all-entries", "bucket", "not every entry of a bucket is collected")
			}
		}
		switch ev.Kind {
		case EvIndex:
			arr, ok := deref(ev.X.Typ).Underlying().(*types.Array)
			if !ok || typeName(deref(arr.Elem())) != "container/list.List" || !whole {
				break
			}
			if st.mon["buckets seq"] == nil {
				walkBegin(st, "buckets", unconv(ev.X))
			} else if at := walkAt(st, "buckets"); at != nil && !sameLin(linOf(at), linOf(ev.Lo)) {
				bad(st.mon["bucket"] != nil, "all-buckets", "each", "a bucket is passed over")
				walk()
				delete(st.mon, "walk")
			}
			if walkStep(st, ev, "buckets") {
				delete(st.mon, "bucket")
			}
		case EvLoad:
			if fn == peers && fieldIs(ev.Addr, P.typ(sub, "Table"), P.typ("", "ID")) {
				st.mon["self"] = c.idPart(ev.Val, "ID")
			} else if fn == peers && ev.Addr.Op == OFieldAddr && ev.Addr.Str == "ID" && fieldIs(ev.Addr.Args[0], P.typ(sub, "Table"), P.typ("", "ID")) {
				st.mon["self"] = ev.Val
			}
		case EvBranch:
			walkStep(st, ev, "buckets")
		case EvCall:
			if isListOp(ev, "Front") {
				st.mon["bucket"] = vTrue
			}
			if fn == bucketM && isListOp(ev, "Front", "Back") {
				st.setFlag("walked", true)
			}
		case EvAppend:
			if !isIDs(ev.Val.Typ) {
				break
			}
			bad(st.mon["sorted"] == nil, "nothing-lost", "sorted", "something is added after the peers were sorted")
			if st.flag("some") {
				b := ev.X
				ok := false
				switch b.Op {
				case OAppend, OWiden, OPhi, OHavoc, OOld:
					ok = true
				}
				bad(ok, "nothing-lost", "grows", "what was collected is dropped")
			}
			st.setFlag("some", true)
			e := st.mon["app"]
			bad(e != nil, "all-entries", "element", "something is collected that is not the entry reached")
			if fn == find {
				bad(e != nil && hasV(c.compared(st, e, "ID", false), key), "all-entries", "target", "the key asked about may be among its closest peers")
			}
			bad(!st.flag("twice"), "all-entries", "twice", "an entry is collected twice")
			st.setFlag("twice", true)
		case EvStore:
			if isIDs(ev.Val.Typ) && st.flag("some") && st.mon["sorted"] == nil {
				switch ev.Val.Op {
				case OAppend, OWiden, OPhi, OHavoc:
				default:
					bad(false, "nothing-lost", "store", "what was collected is dropped")
				}
			}
		case EvReturn:
			if fn == last {
				e := st.mon["last"]
				ok := e != nil && elemOf(ev.Res) == e && ev.Res.Op != OField
				if e == nil || st.nilness(e) > 0 {
					ok = e != nil && ev.Res != nil && ev.Res.Op == OZero
				}
				bad(ok, "end-of-bucket", "result", "what is returned is not the peer at the end of the bucket")
				break
			}
			if whole {
				bad(walkedAll(st, "buckets"), "all-buckets", "loop", "not every bucket is looked at")
				bad(st.mon["bucket"] != nil, "all-buckets", "each", "a bucket is passed over")
			} else {
				bad(st.flag("walked"), "all-entries", "bucket", "not every entry of a bucket is collected")
			}
			walk()
			r := unconv(ev.Res)
			if fn == entries || fn == bucketM {
				ok := r != nil && (r.Op == OAppend || r.Op == OWiden || r.Op == OPhi || r.Op == OHavoc || !st.flag("some"))
				bad(ok, "nothing-lost", "result", "what is returned is not what was collected")
				break
			}
			s := st.mon["sorted"]
			if s == nil {
				bad(false, "by-distance", "sorted", "the peers are not sorted")
				break
			}
			k := fnArg(x, 2)
			if fn == peers {
				k = vInt(size)
			}
			n := lenOf(r)
			base := r
			if r.Op == OSlice {
				base = unconv(r.Args[0])
				if lo := r.Args[1]; lo != nil {
					z, isZ := linOf(lo).isConst()
					bad(isZ && z == 0, "closest-kept", "first", "the closest peers are left out")
				}
			}
			ok := base == s && (st.ge(linOf(k), n) && (st.entailsEq(n, linOf(k)) || st.entailsEq(n, lenOf(s))))
			rule := "closest-kept"
			if fn == peers {
				rule = "own-closest"
			}
			bad(ok, rule, "count", "what is returned is not the closest peers, as many as asked for or all if there are fewer")
		}
		if ev.Kind == EvCall && (ev.Name == "(*container/list.Element).Next" || ev.Name == "(*container/list.Element).Prev") {
			st.setFlag("twice", false)
		}
	}
	before := func(x *Exec, st *State, ev *Event) { // the lock is given up: the walk has ended
		if ev.Kind == EvUnlock && st.mon["walk"] != nil && x.Root.Fn != last {
			m := x.Root.Fn.Name()
			c.check(st.flag("over") && !st.flag("left") && !st.flag("back"), "all-entries", m+" bucket", x, st, ev.Pos, "%s: not every entry of a bucket is collected", m)
		}
	}
	c.run(World{Name: "table", Fns: []*ssa.Function{find, entries, bucketM, peers, last, sortF}, Mons: []MonitorFunc{pure, before, c.tableFlow, mon}, NoContent: true, Skip: skip, OnGo: noGo})
	for _, s := range sorts {
		key, why := c.lessKey(s, skip, pure)
		want := s.key
		if s.root == sortF {
			want = vParam(sortF.Params[0].Name(), sortF.Params[0].Type())
		}
		if key == nil {
			c.bad("by-distance", s.root.Name()+" order", nil, nil, s.at.Pos, "%s", why)
			continue
		}
		c.check(want != nil && key == want, "by-distance", s.root.Name()+" key", nil, s.st, s.at.Pos, "the distances compared are not those from the key asked for")
	}
	c.distances(xor, prefix)
}

func fnArg(x *Exec, i int) *V {
	n := i
	if x.Root.Fn.Signature.Recv() == nil {
		n = i
	}
	if n < len(x.Root.Args) {
		return x.Root.Args[n]
	}
	return nil
}

// fieldIs: a is the address of a field, of type ft, of a struct of type t.
func fieldIs(a *V, t, ft types.Type) bool {
	return a != nil && a.Op == OFieldAddr && a.Args[0].Typ != nil && types.Identical(deref(a.Args[0].Typ), t) && types.Identical(deref(a.Typ), ft)
}

// distances: the arithmetic of keys.
func (c *Check) distances(xor, prefix *ssa.Function) {
	c.run(World{Name: "distance", Fns: []*ssa.Function{xor}, NoContent: true, OnGo: noGo, Mons: []MonitorFunc{func(x *Exec, st *State, ev *Event) {
		bad := func(ok bool, what string) { c.check(ok, "xor", "XOR", x, st, ev.Pos, "%s", what) }
		a, b := x.Root.Args[0], x.Root.Args[1]
		switch ev.Kind {
		case EvMake:
			if isBytes(ev.Val.Typ) {
				walkBegin(st, "out", ev.Val)
				st.setFlag("set", false)
			}
		case EvIndex:
			if seq := st.mon["out seq"]; seq != nil && unconv(ev.X) == seq {
				if st.flag("out started") && !st.flag("set") {
					if at := walkAt(st, "out"); at != nil && !sameLin(linOf(at), linOf(ev.Lo)) {
						bad(false, "a byte of the result is passed over")
					}
				}
				if walkStep(st, ev, "out") {
					st.setFlag("set", false)
				}
			}
		case EvBranch:
			walkStep(st, ev, "out")
		case EvStore:
			if ev.Addr.Op != OIndexAddr || unconv(ev.Addr.Args[0]) != st.mon["out seq"] {
				break
			}
			i := ev.Addr.Args[1]
			v := unconv(ev.Val)
			of := func(v, s *V) bool {
				v = unconv(v)
				var ad *V
				switch {
				case v.Op == OIndex:
					return unconv(v.Args[0]) == s && sameLin(linOf(v.Args[1]), linOf(i))
				case (v.Op == OInit || v.Op == OHavoc || v.Op == OOpaque && v.Str == "byte") && len(v.Args) > 0:
					ad = v.Args[0]
				}
				return ad != nil && ad.Op == OIndexAddr && unconv(ad.Args[0]) == s && sameLin(linOf(ad.Args[1]), linOf(i))
			}
			ok := v.Op == OBin && v.Str == "^" && (of(v.Args[0], a) && of(v.Args[1], b) || of(v.Args[0], b) && of(v.Args[1], a))
			bad(ok, "a byte of the result is not the exclusive or of the bytes at its place")
			st.setFlag("set", true)
		case EvReturn:
			r := unconv(ev.Res)
			if st.entailsEq(lenOf(a), lenOf(b)) {
				seq := st.mon["out seq"]
				ok := r != nil && r == seq && st.entailsEq(lenOf(r), lenOf(a)) && walkedAll(st, "out") && (st.flag("set") || !st.flag("out started"))
				bad(ok, "the result does not have all bytes of the keys")
			}
		}
	}}})
	c.run(World{Name: "prefix", Fns: []*ssa.Function{prefix}, NoContent: true, OnGo: noGo, Mons: []MonitorFunc{func(x *Exec, st *State, ev *Event) {
		a := x.Root.Args[0]
		bad := func(ok bool, construct, what string) { c.check(ok, "prefix", construct, x, st, ev.Pos, "%s", what) }
		zero := func() int { // the byte reached
			b := st.mon["byte"]
			if b == nil {
				return 0
			}
			if st.entailsEq(linOf(b), newLin(0)) {
				return 1
			}
			for f, t := range st.facts {
				if f.Op != OBin || f.Str != "==" {
					continue
				}
				for n, e := range f.Args {
					if k, ok := f.Args[1-n].intConst(); ok && k == 0 && unconv(e) == unconv(b) {
						if t {
							return 1
						}
						return -1
					}
				}
			}
			if st.ge(linOf(b), newLin(1)) {
				return -1
			}
			return 0
		}
		if st.mon["byte"] != nil && (ev.Kind == EvBranch || ev.Kind == EvIndex || ev.Kind == EvReturn) {
			if z := zero(); z != 0 {
				st.setFlag("zero", z > 0)
				st.setFlag("nonzero", z < 0)
			}
		}
		switch ev.Kind {
		case EvIndex:
			if st.mon["in seq"] == nil {
				walkBegin(st, "in", a)
			}
			before := st.flag("in started")
			wasZero := st.flag("zero")
			if walkStep(st, ev, "in") {
				bad(!before || wasZero, "zero bytes", "a byte is passed that may not be zero")
				if before && !st.flag("summed it") {
					st.setFlag("summed", true)
					delete(st.mon, "~sum")
				}
				st.setFlag("summed it", false)
				st.setFlag("zero", false)
				st.setFlag("nonzero", false)
				delete(st.mon, "byte")
			}
		case EvLoad:
			if ev.Addr.Op == OIndexAddr && unconv(ev.Addr.Args[0]) == a {
				st.mon["byte"] = ev.Val
			}
		case EvCall: // a running sum over the bytes
			if ev.Name == "math/bits.LeadingZeros8" && st.mon["byte"] != nil && unconv(ev.Args[0]) == unconv(st.mon["byte"]) {
				sum := newLin(0)
				if s := st.mon["~sum"]; s != nil {
					sum = linOf(s)
				}
				if st.mon["~sum"] != nil || !st.flag("summed") {
					st.mon["~sum"] = sum.add(linOf(ev.Res), 1).full()
				}
				st.setFlag("summed", true)
				st.setFlag("summed it", true)
			}
		case EvBranch:
			if st.mon["in seq"] == nil {
				walkBegin(st, "in", a)
			}
			walkStep(st, ev, "in")
		case EvReturn:
			r := linOf(ev.Res)
			if st.mon["in seq"] == nil {
				walkBegin(st, "in", a)
			}
			walkStep(st, &Event{Kind: EvBranch}, "in")
			if st.flag("nonzero") && !st.flag("in gap") {
				at := walkAt(st, "in")
				byteV := unconv(st.mon["byte"])
				ok := false
				walkFind(ev.Res, func(u *V) bool {
					if u.Op == OCall && len(u.Args) == 1 && unconv(u.Args[0]) == byteV && at != nil {
						p := newLin(0).add(linOf(at), 8)
						switch u.Str {
						case "math/bits.LeadingZeros8":
							ok = ok || st.entailsEq(r, p.add(linOf(u), 1))
						case "math/bits.Len8":
							ok = ok || st.entailsEq(r, p.plus(8).add(linOf(u), -1))
						}
					}
					return false
				})
				if s := st.mon["~sum"]; s != nil {
					ok = ok || st.entailsEq(r, linOf(s))
				}
				bad(ok, "first bit", "the result is not the place of the first bit that is set")
				return
			}
			ok := walkedAll(st, "in") && (st.flag("zero") || !st.flag("in started")) && (st.entailsEq(r, newLin(0).add(lenOf(a), 8)) || st.mon["~sum"] != nil && st.entailsEq(r, linOf(st.mon["~sum"])) || !st.flag("in started") && st.entailsEq(r, newLin(0)))
			bad(ok, "no bit", "the result is not the number of all bits although it was not seen that none is set")
		}
	}}})
	_ = token.NoPos
	_ = strings.Contains
}
