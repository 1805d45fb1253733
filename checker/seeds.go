package main

import (
	"fmt"
	"go/types"
)

// seedSlice is a slice of n representative elements.
func seedSlice(st *State, name string, elem types.Type, n int, f func(i int) *V) *V {
	arr := mk(V{Op: OAlloc, Str: "seed:" + name, Typ: types.NewPointer(types.NewArray(elem, int64(n)))})
	for i := 0; i < n; i++ {
		a := vIndexAddr(arr, vInt(int64(i)), types.NewPointer(elem))
		st.store(a, f(i), 0)
	}
	return mk(V{Op: OSlice, Args: []*V{arr, nil, nil}, Typ: types.NewSlice(elem)})
}

// fullProtocol is a protocol all of whose callbacks are set.
func (A *Anchors) fullProtocol(i int) *V {
	t := A.Protocols.ftype().Underlying().(*types.Slice).Elem()
	s := structOf(t)
	var fs []*V
	for k := 0; k < s.NumFields(); k++ {
		if _, ok := s.Field(k).Type().Underlying().(*types.Signature); ok {
			fs = append(fs, mk(V{Op: OOpaque, Str: fmt.Sprintf("cb:%d:%s", i, s.Field(k).Name()), Typ: s.Field(k).Type()}))
		} else {
			fs = append(fs, zeroOf(s.Field(k).Type()))
		}
	}
	return mk(V{Op: OStruct, Args: fs, Typ: t})
}

// seedProtocols makes every node have the given protocols: 'f' has all callbacks set, 'z' has none.
func (c *Check) seedProtocols(kinds string) MonitorFunc {
	A := c.A
	t := A.Protocols.ftype().Underlying().(*types.Slice).Elem()
	return func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvLoad && A.Protocols.match(ev.Addr) != nil {
			ev.Val = seedSlice(st, "protocols", t, len(kinds), func(i int) *V {
				if kinds[i] == 'f' {
					return A.fullProtocol(i)
				}
				return zeroOf(t)
			})
		}
	}
}

// seedHandlers makes every node have n handlers.
func (c *Check) seedHandlers(n int) MonitorFunc {
	A := c.A
	t := A.Handlers.ftype().Underlying().(*types.Slice).Elem()
	return func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvLoad && A.Handlers.match(ev.Addr) != nil {
			ev.Val = seedSlice(st, "handlers", t, n, func(i int) *V {
				return mk(V{Op: OOpaque, Str: fmt.Sprintf("cb:%d:handler", i), Typ: t})
			})
		}
	}
}

// callback recognises the call of a seeded callback.
func callback(ev *Event) (i int, name string, ok bool) {
	if ev.Kind != EvCall || ev.FnVal == nil || ev.FnVal.Op != OOpaque {
		return 0, "", false
	}
	if n, _ := fmt.Sscanf(ev.FnVal.Str, "cb:%d:%s", &i, &name); n == 2 {
		return i, name, true
	}
	return 0, "", false
}
