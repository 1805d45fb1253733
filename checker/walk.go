package main

import "go/types"

// A loop over the elements of a slice or array.

// walkBegin: the rule that uses key wants to know whether the elements of seq are visited one by one, from the first to the last.
func walkBegin(st *State, key string, seq *V) {
	st.mon[key+" seq"] = seq
	for _, k := range []string{"~" + key + " at", "~" + key + " next"} {
		delete(st.mon, k)
	}
	for _, k := range []string{"gap", "all", "started"} {
		st.setFlag(key+" "+k, false)
	}
}

// walkStep follows the loop; it reports whether the event is the first access to the next element.
func walkStep(st *State, ev *Event, key string) bool {
	seq := st.mon[key+" seq"]
	if seq == nil {
		return false
	}
	next := func() []lin {
		if !st.flag(key + " started") {
			return []lin{newLin(0)}
		}
		var out []lin
		if a := st.mon["~"+key+" at"]; a != nil {
			out = append(out, linOf(a).plus(1))
		}
		if a := st.mon["~"+key+" next"]; a != nil {
			out = append(out, linOf(a))
		}
		return out
	}
	switch ev.Kind {
	case EvIndex:
		if unconv(ev.X) != seq {
			return false
		}
		idx := ev.Lo
		if a := st.mon["~"+key+" at"]; a != nil && sameLin(linOf(a), linOf(idx)) {
			return false
		}
		ok := false
		for _, n := range next() {
			ok = ok || sameLin(n, linOf(idx))
		}
		st.setFlag(key+" gap", !ok || st.flag(key+" gap"))
		st.setFlag(key+" started", true)
		st.mon["~"+key+" at"] = idx
		st.mon["~"+key+" next"] = mk(V{Op: OBin, Str: "+", Args: []*V{idx, vInt(1)}, Typ: types.Typ[types.Int]})
		return true
	case EvBranch:
		for _, n := range next() {
			if st.ge(n, lenOf(seq)) {
				st.setFlag(key+" all", true)
			}
		}
	}
	return false
}

// walkAt is the place of the element visited last.
func walkAt(st *State, key string) *V { return st.mon["~"+key+" at"] }

// walkedAll: every element was visited.
func walkedAll(st *State, key string) bool {
	return st.flag(key+" all") && !st.flag(key+" gap")
}
