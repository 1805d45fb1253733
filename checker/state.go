package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Held struct {
	addr  *V
	write bool
}

type Deferred struct {
	instr *ssa.Defer
	fn    *V // callee value, nil for invoke/builtin/static
	args  []*V
	recv  *V
}

type Frame struct {
	fn     *ssa.Function
	ctx    int
	regs   map[ssa.Value]*V
	defers []Deferred
	call   ssa.Instruction // call site in the parent frame
	loop   bool            // the call site is inside a loop
	cached string
}

type Trace struct {
	prev *Trace
	pos  token.Pos
	note string
}

// State is one abstract state: what is known on one bundle of paths.
type State struct {
	frames []*Frame
	mem    map[*V]*V
	facts  map[*V]bool
	mon    map[string]*V
	locks  []Held
	ret    []*V
	trace  *Trace
}

func newState() *State {
	return &State{mem: map[*V]*V{}, facts: map[*V]bool{}, mon: map[string]*V{}}
}

func (st *State) clone() *State {
	n := &State{trace: st.trace, ret: st.ret}
	n.frames = append([]*Frame{}, st.frames...)
	if k := len(n.frames); k > 0 {
		n.frames[k-1] = n.frames[k-1].clone()
	}
	n.mem = make(map[*V]*V, len(st.mem)+4)
	for a, v := range st.mem {
		n.mem[a] = v
	}
	n.facts = make(map[*V]bool, len(st.facts)+4)
	for a, v := range st.facts {
		n.facts[a] = v
	}
	n.mon = make(map[string]*V, len(st.mon)+2)
	for a, v := range st.mon {
		n.mon[a] = v
	}
	n.locks = append([]Held{}, st.locks...)
	return n
}

func (f *Frame) clone() *Frame {
	n := *f
	n.cached = ""
	n.regs = make(map[ssa.Value]*V, len(f.regs)+4)
	for a, v := range f.regs {
		n.regs[a] = v
	}
	n.defers = append([]Deferred{}, f.defers...)
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) note(pos token.Pos, s string) {
	st.trace = &Trace{prev: st.trace, pos: pos, note: s}
}

// ---- monitor values

func (st *State) flag(k string) bool { return st.mon[k] == vTrue }
func (st *State) setFlag(k string, v bool) {
	if v {
		st.mon[k] = vTrue
	} else {
		delete(st.mon, k)
	}
}
func (st *State) count(k string) int64 {
	if v := st.mon[k]; v != nil {
		n, _ := v.intConst()
		return n
	}
	return 0
}
func (st *State) setCount(k string, n int64) {
	if n == 0 {
		delete(st.mon, k)
	} else {
		st.mon[k] = vInt(n)
	}
}

// ---- memory

func isDescendant(a, of *V) bool {
	for a != nil {
		if a == of {
			return true
		}
		if a.Op != OFieldAddr && a.Op != OIndexAddr {
			return false
		}
		a = a.Args[0]
	}
	return false
}

func elemType(a *V) types.Type {
	if a.Typ == nil {
		return nil
	}
	return deref(a.Typ)
}

// load reads the contents of address a, of type t.
func (st *State) load(a *V, t types.Type) *V {
	if v, ok := st.mem[a]; ok {
		if structOf(t) == nil || t == nil || isPointer(t) || !st.hasFields(a) {
			if v.Op == OZero && t != nil {
				return zeroOf(t)
			}
			return v
		}
	}
	// a struct some of whose fields are known
	if s := structOf(t); s != nil && t != nil {
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
			any := false
			for c := range st.mem {
				if c != a && isDescendant(c, a) {
					any = true
					break
				}
			}
			if any {
				args := make([]*V, s.NumFields())
				for i := range args {
					args[i] = st.load(vFieldAddr(a, t, i), s.Field(i).Type())
				}
				return mk(V{Op: OStruct, Args: args, Typ: t})
			}
		}
	}
	// the data pointer of a slice taken apart through package reflect, and what it points to
	if a.Op == OFieldAddr && a.Idx == 0 && a.Args[0].Typ != nil && types.TypeString(a.Args[0].Typ, nil) == "*reflect.SliceHeader" {
		if v := st.mem[unconv(a.Args[0])]; v != nil && v.Typ != nil {
			if _, ok := v.Typ.Underlying().(*types.Slice); ok {
				return mk(V{Op: OConv, Args: []*V{v}, Typ: t})
			}
		}
	}
	if a.Op == OConv && t != nil {
		if u := unconv(a); u.Typ != nil {
			_, isSlice := u.Typ.Underlying().(*types.Slice)
			_, isArray := t.Underlying().(*types.Array)
			if isSlice && isArray {
				args := []*V{u}
				if c := st.content(u); c != nil && !noContent {
					args = append(args, c)
				}
				return mk(V{Op: OOpaque, Str: "bytes", Args: args, Typ: t})
			}
		}
	}
	switch a.Op {
	case OFieldAddr:
		if p := st.parentValue(a.Args[0]); p != nil {
			return vField(p, elemTypeOr(a.Args[0], p), a.Idx)
		}
	case OIndexAddr:
		if p := st.parentValue(a.Args[0]); p != nil {
			if p.Op == OZero {
				if arr, ok := p.Typ.Underlying().(*types.Array); ok {
					return zeroOf(arr.Elem())
				}
			}
			return mk(V{Op: OIndex, Args: []*V{p, a.Args[1]}, Typ: t})
		}
	}
	return mk(V{Op: OInit, Args: []*V{a}, Typ: t})
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// hasFields: a part of the struct at a was stored after the whole.
func (st *State) hasFields(a *V) bool {
	for c := range st.mem {
		if c != a && isDescendant(c, a) {
			return true
		}
	}
	return false
}

func elemTypeOr(a, p *V) types.Type {
	if p.Typ != nil && structOf(p.Typ) != nil {
		return p.Typ
	}
	return elemType(a)
}

// parentValue is the value stored at a, or at an address enclosing it.
func (st *State) parentValue(a *V) *V {
	if v, ok := st.mem[a]; ok {
		return v
	}
	switch a.Op {
	case OFieldAddr:
		if p := st.parentValue(a.Args[0]); p != nil {
			return vField(p, elemTypeOr(a.Args[0], p), a.Idx)
		}
	case OIndexAddr:
		if p := st.parentValue(a.Args[0]); p != nil && p.Op != OPatch {
			return mk(V{Op: OIndex, Args: []*V{p, a.Args[1]}, Typ: elemType(a)})
		}
	}
	return nil
}

func (st *State) store(a, v *V, site int) {
	for c := range st.mem {
		if c != a && isDescendant(c, a) {
			delete(st.mem, c)
		}
	}
	// other addresses that may be the same
	if a.Op == OFieldAddr {
		r := rootOf(a)
		for c, old := range st.mem {
			if c != a && c.Op == OFieldAddr && c.Idx == a.Idx && sameStruct(c, a) && mayAlias(c.Args[0], a.Args[0]) && rootOf(c) != r {
				st.mem[c] = mk(V{Op: OHavoc, Args: []*V{c}, Site: site, Typ: old.Typ})
			}
		}
	}
	if a.Op == OIndexAddr && isByte(elemTypeOf(a)) {
		st.patch(backing(a.Args[0]), a, v, site)
		return
	}
	if a.Op == OIndexAddr {
		for c, old := range st.mem {
			if c != a && c.Op == OIndexAddr && c.Args[0] == a.Args[0] {
				_, k1 := c.Args[1].intConst()
				_, k2 := a.Args[1].intConst()
				if !(k1 && k2) {
					st.mem[c] = mk(V{Op: OHavoc, Args: []*V{c}, Site: site, Typ: old.Typ})
				}
			}
		}
		st.patch(backing(a.Args[0]), a, v, site)
	}
	if v.Op == OStruct && v.Typ != nil {
		delete(st.mem, a)
		for i := range v.Args {
			st.store(vFieldAddr(a, v.Typ, i), v.Args[i], site)
		}
		return
	}
	st.mem[a] = v
}

func elemTypeOf(a *V) types.Type {
	if a.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return deref(a.Typ)
}

func sameStruct(a, b *V) bool {
	return types.Identical(deref(a.Typ), deref(b.Typ)) && a.Str == b.Str
}

func mayAlias(a, b *V) bool {
	if a == b {
		return true
	}
	fresh := func(v *V) bool { return v.Op == OAlloc }
	if fresh(a) || fresh(b) {
		return false
	}
	if a.Op == OFieldAddr && b.Op == OFieldAddr {
		if a.Idx != b.Idx || a.Str != b.Str {
			return false
		}
		return mayAlias(a.Args[0], b.Args[0])
	}
	if a.Op == OFieldAddr || b.Op == OFieldAddr {
		return false
	}
	if a.Op == OIndexAddr && b.Op == OIndexAddr {
		x, y := a.Args[0], b.Args[0]
		if x == y {
			i, ok1 := a.Args[1].intConst()
			j, ok2 := b.Args[1].intConst()
			return !(ok1 && ok2 && i != j)
		}
		own := func(v *V) bool { return v.Op == OAlloc || v.Op == OMakeSlice || v.Op == OAppend && v.Args[0] == vNil }
		return !(own(x) && own(y))
	}
	return true
}

// patch records that memory behind base was overwritten at dst by src.
func (st *State) patch(base, dst, src *V, site int) {
	if base == nil {
		return
	}
	if noContent {
		st.mem[base] = mk(V{Op: OPatch, Args: []*V{mk(V{Op: OOpaque, Str: "bytes", Args: []*V{base}}), vNil, vNil}, Site: site})
		return
	}
	prev := st.mem[base]
	if prev == nil {
		prev = mk(V{Op: OInit, Args: []*V{base}})
	}
	prev = dropPatch(prev, site)
	st.mem[base] = mk(V{Op: OPatch, Args: []*V{prev, dst, src}, Site: site})
}

// noContent: the contents of byte slices are not tracked.
var noContent bool

func dropPatch(p *V, site int) *V {
	if p.Op != OPatch {
		return p
	}
	if p.Site == site {
		return p.Args[0]
	}
	q := dropPatch(p.Args[0], site)
	if q == p.Args[0] {
		return p
	}
	return mk(V{Op: OPatch, Args: []*V{q, p.Args[1], p.Args[2]}, Site: p.Site})
}

// content is what is known about the bytes behind a slice or array pointer.
func (st *State) content(v *V) *V {
	b := backing(unconv(v))
	if b == nil {
		return nil
	}
	return st.mem[b]
}

// ---- facts

// truth evaluates a boolean term: 1 true, -1 false, 0 unknown.
func (st *State) truth(c *V) int {
	switch c.Op {
	case OConst:
		if c == vTrue {
			return 1
		}
		if c == vFalse {
			return -1
		}
		return 0
	case ONot:
		return -st.truth(c.Args[0])
	}
	if t, ok := st.facts[c]; ok {
		if t {
			return 1
		}
		return -1
	}
	switch c.Op {
	case OIsNil:
		return st.nilness(c.Args[0])
	case OConv:
		return st.truth(c.Args[0])
	case OBin:
		a, b := c.Args[0], c.Args[1]
		switch c.Str {
		case "==":
			if a == b {
				return 1
			}
			if a.isConst() && b.isConst() {
				if a.Const != nil && b.Const != nil && a.Const.Kind() == b.Const.Kind() {
					if constant.Compare(a.Const, token.EQL, b.Const) {
						return 1
					}
					return -1
				}
			}
			if distinctAddrs(a, b) {
				return -1
			}
			if isIntTerm(a) && isIntTerm(b) {
				d := linOf(a).add(linOf(b), -1)
				if len(d.m) == 0 {
					if d.c == 0 {
						return 1
					}
					return -1
				}
				if st.entails(d.plus(1)) || st.entails(newLin(0).add(d, -1).plus(1)) {
					return -1
				}
				if st.entails(d) && st.entails(newLin(0).add(d, -1)) {
					return 1
				}
			}
		case "<":
			if isIntTerm(a) && isIntTerm(b) {
				d := linOf(a).add(linOf(b), -1)
				if len(d.m) == 0 {
					if d.c < 0 {
						return 1
					}
					return -1
				}
				if st.entails(d.plus(1)) {
					return 1
				}
				if st.entails(newLin(0).add(d, -1)) {
					return -1
				}
			}
		}
	}
	return 0
}

func distinctAddrs(a, b *V) bool {
	return a.Op == OAlloc && b.Op == OAlloc && a != b
}

// nilness: 1 nil, -1 not nil, 0 unknown.
func (st *State) nilness(x *V) int {
	switch x.Op {
	case OConst:
		if x == vNil {
			return 1
		}
		return -1
	case OAlloc, OFieldAddr, OIndexAddr, OFunc, OClosure, OIface, OMakeChan, OMakeMap, OMakeSlice, OGlobal:
		return -1
	case OZero:
		return 1
	case OCall:
		if nonNilCalls[x.Str] {
			return -1
		}
	case OOpaque:
		if strings.HasPrefix(x.Str, "error:") || strings.HasPrefix(x.Str, "cb:") {
			return -1
		}
	case OOld:
		return st.nilness0(x)
	case OConv:
		return st.nilness(x.Args[0])
	case OSlice:
		if n := st.nilness(x.Args[0]); n < 0 {
			return -1
		}
	case OInit:
		// package-level sentinel errors are never nil
		if x.Args[0].Op == OGlobal && x.Typ != nil && isErrorType(x.Typ) {
			return -1
		}
	}
	return st.nilness0(x)
}

func (st *State) nilness0(x *V) int {
	if t, ok := st.facts[vIsNil(x)]; ok {
		if t {
			return 1
		}
		return -1
	}
	return 0
}

var nonNilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "go.uber.org/zap.NewNop": true, "container/list.New": true,
	"time.NewTimer": true, "bufio.NewReader": true, "bufio.NewWriter": true, "bufio.NewReaderSize": true, "bufio.NewWriterSize": true,
	"go.uber.org/atomic.NewBool": true, "crypto/sha256.New": true, "crypto/sha512.New": true,
	"(*container/list.List).PushFront": true, "(*container/list.List).PushBack": true,
	"go.uber.org/atomic.NewUint32": true, "go.uber.org/atomic.NewInt32": true, "context.Background": true,
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// assume adds a condition; it returns false when it contradicts what is known.
func (st *State) assume(c *V, truth bool) bool {
	for c.Op == ONot {
		c, truth = c.Args[0], !truth
	}
	switch t := st.truth(c); {
	case t > 0:
		return truth
	case t < 0:
		return !truth
	}
	if c.Op == OConst {
		return true
	}
	st.facts[c] = truth
	if c.Op == OIsNil && truth {
		// (T, error): no error means there is a T
		x := c.Args[0]
		if x.Op == OExtract && isErrorType(x.Typ) && x.Args[0].Op == OCall {
			if tup, ok := x.Args[0].Typ.(*types.Tuple); ok {
				for i := 0; i < tup.Len(); i++ {
					if i == x.Idx {
						continue
					}
					switch tup.At(i).Type().Underlying().(type) {
					case *types.Pointer, *types.Interface, *types.Map, *types.Chan:
						st.facts[vIsNil(vExtract(x.Args[0], i, tup.At(i).Type()))] = false
					}
				}
			}
		}
	}
	return true
}

// ---- renaming of earlier instances

func (st *State) retire(t *V) {
	found := false
	check := func(v *V) {
		if !found && v != nil && contains(v, t) {
			found = true
		}
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			check(v)
		}
		for _, d := range f.defers {
			check(d.fn)
			check(d.recv)
			for _, a := range d.args {
				check(a)
			}
		}
	}
	for a, v := range st.mem {
		check(a)
		check(v)
	}
	for _, v := range st.mon {
		check(v)
	}
	for _, h := range st.locks {
		check(h.addr)
	}
	for a := range st.facts {
		check(a)
	}
	if !found {
		return
	}
	old := mk(V{Op: OOld, Args: []*V{t}, Typ: t.Typ})
	memo := map[*V]*V{}
	s := func(v *V) *V {
		if v == nil {
			return nil
		}
		return subst(v, t, old, memo)
	}
	// what was known of even earlier instances is dropped
	for a := range st.facts {
		if contains(a, old) {
			delete(st.facts, a)
		}
	}
	for i, f := range st.frames {
		hit := false
		for _, v := range f.regs {
			if v != nil && contains(v, t) {
				hit = true
			}
		}
		for _, d := range f.defers {
			for _, a := range append([]*V{d.fn, d.recv}, d.args...) {
				if a != nil && contains(a, t) {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		n := f.clone()
		for r, v := range n.regs {
			n.regs[r] = s(v)
		}
		for j := range n.defers {
			d := &n.defers[j]
			d.fn, d.recv = s(d.fn), s(d.recv)
			args := make([]*V, len(d.args))
			for k, a := range d.args {
				args[k] = s(a)
			}
			d.args = args
		}
		st.frames[i] = n
	}
	mem := make(map[*V]*V, len(st.mem))
	for a, v := range st.mem {
		na, nv := s(a), s(v)
		if na != a {
			if prev, dup := st.mem[na]; dup && prev != nv {
				nv = mk(V{Op: OHavoc, Args: []*V{na}, Site: t.Site, Typ: nv.Typ})
			}
		} else if _, clash := mem[na]; clash {
			continue
		}
		mem[na] = nv
	}
	st.mem = mem
	facts := make(map[*V]bool, len(st.facts))
	for a, v := range st.facts {
		facts[s(a)] = v
	}
	st.facts = facts
	for k, v := range st.mon {
		st.mon[k] = s(v)
	}
	for i := range st.locks {
		st.locks[i].addr = s(st.locks[i].addr)
	}
}

// ---- garbage collection and keys

func (st *State) gc(roots []*V) {
	marked := map[*V]bool{} // values whose memory can be reached
	known := map[*V]bool{}  // values facts may be about
	var know func(v *V)
	know = func(v *V) {
		if v == nil || known[v] {
			return
		}
		known[v] = true
		if v.Op == OCall {
			return
		}
		for _, a := range v.Args {
			know(a)
		}
	}
	var mark func(v *V)
	mark = func(v *V) {
		if v == nil || marked[v] {
			return
		}
		marked[v] = true
		known[v] = true
		switch v.Op {
		case OCall:
			return // a result does not lead back to the arguments
		case OAppend:
			mark(v.Args[0])
			know(v.Args[1])
			return
		case OBin, ONot, ONeg, OIsNil, OLen, OCap, OStrCat, OMapOK, OPatch, OOpaque:
			// contents do not lead back to where they were copied from
			for _, a := range v.Args {
				know(a)
			}
			return
		}
		for _, a := range v.Args {
			mark(a)
		}
	}
	for _, r := range roots {
		mark(r)
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			mark(v)
		}
		for _, d := range f.defers {
			mark(d.fn)
			mark(d.recv)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, v := range st.mon {
		mark(v)
	}
	for _, h := range st.locks {
		mark(h.addr)
	}
	for _, v := range st.ret {
		mark(v)
	}
	aliveMemo := map[*V]bool{}
	var alive func(v *V) bool
	alive = func(v *V) bool {
		if v == nil || known[v] {
			return true
		}
		if r, ok := aliveMemo[v]; ok {
			return r
		}
		aliveMemo[v] = true
		r := true
		switch v.Op {
		case OConst, OParam, OGlobal, OFunc, OZero:
		case OFieldAddr, OIndexAddr, OInit, OField, OIndex, OBin, ONot, ONeg, OIsNil, OConv, OIface, OLen, OCap, OSlice, OMapCell,
			OMapOK, OGhost, OStruct, OAppend, OAssert, OExtract, OTuple, OClosure, OHavoc:
			for _, a := range v.Args {
				if !alive(a) {
					r = false
				}
			}
			if v.Op == OHavoc {
				r = r && known[v]
			}
		case OCall:
			r = constantCall[v.Str]
			for _, a := range v.Args {
				if !alive(a) {
					r = false
				}
			}
		default:
			r = false
		}
		aliveMemo[v] = r
		return r
	}
	rootAlive := func(a *V) bool {
		r := a
		for r != nil && (r.Op == OFieldAddr || r.Op == OIndexAddr || r.Op == OMapCell || r.Op == OMapOK) {
			if r.Op == OMapCell && !alive(r.Args[1]) {
				return false
			}
			r = r.Args[0]
		}
		if r == nil {
			return false
		}
		switch r.Op {
		case OAlloc, OMakeSlice, OMakeMap, OMakeChan, OOld, OAppend:
			return marked[r]
		}
		return alive(r)
	}
	pend := make(map[*V]*V, len(st.mem))
	for a, v := range st.mem {
		pend[a] = v
	}
	for changed := true; changed; {
		changed = false
		for a, v := range pend {
			if rootAlive(a) {
				mark(v)
				mark(a)
				delete(pend, a)
				changed = true
				aliveMemo = map[*V]bool{}
			}
		}
	}
	for a := range pend {
		delete(st.mem, a)
	}
	for f := range st.facts {
		if !alive(f) {
			delete(st.facts, f)
		}
	}
}

// key identifies a state exactly.
func (st *State) key(withParents bool) string {
	var b strings.Builder
	fr := st.frames
	if !withParents && len(fr) > 0 {
		fr = fr[len(fr)-1:]
	}
	for _, f := range fr {
		b.WriteString(f.key(nil))
	}
	st.memKey(&b, false)
	b.WriteByte('F')
	fs := make([]int, 0, len(st.facts))
	for a, v := range st.facts {
		k := a.id * 2
		if v {
			k++
		}
		fs = append(fs, k)
	}
	sort.Ints(fs)
	for _, k := range fs {
		b.WriteString(strconv.Itoa(k))
		b.WriteByte(',')
	}
	return b.String()
}

// shape describes v up to what a join may forget: the identity of an error that is known to be one.
func (st *State) shape(v *V) string {
	if v == nil {
		return "_"
	}
	if coarse && v.Typ != nil {
		switch u := v.Typ.Underlying().(type) {
		case *types.Slice, *types.Struct, *types.Array:
			return "~"
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				return "~" + strconv.Itoa(st.truth(v))
			}
			return "~"
		}
	}
	switch v.Op {
	case OPatch:
		return "P"
	case OConst, OAlloc, OFunc, OClosure, OMakeChan, OMakeMap, OMakeSlice, OFieldAddr, OParam, OZero:
		return strconv.Itoa(v.id)
	}
	n := st.nilness(v)
	if n < 0 && isErrorType(v.Typ) {
		return "E"
	}
	if n == 0 && v.Typ != nil && isBoolType(v.Typ) {
		n = st.truth(v)
	}
	switch {
	case n < 0:
		return strconv.Itoa(v.id) + "-"
	case n > 0:
		return strconv.Itoa(v.id) + "+"
	}
	return strconv.Itoa(v.id)
}

// memShape: what is in memory is described more coarsely than what is at hand.
func (st *State) memShape(v *V) string {
	switch v.Op {
	case OHavoc:
		n := st.nilness(v)
		if n == 0 && v.Typ != nil && isBoolType(v.Typ) {
			n = st.truth(v)
		}
		return "H" + strconv.Itoa(n)
	case OAppend, OWiden, OMakeSlice:
		if b := backing(v); b != v || v.Op == OMakeSlice {
			return "S" + strconv.Itoa(b.id)
		}
	}
	return st.shape(v)
}

func (f *Frame) key(st *State) string {
	if st == nil && f.cached != "" {
		return f.cached
	}
	l := make([]string, 0, len(f.regs))
	for r, v := range f.regs {
		if st != nil {
			l = append(l, r.Name()+"="+st.shape(v))
		} else {
			l = append(l, r.Name()+"="+strconv.Itoa(v.id))
		}
	}
	sort.Strings(l)
	var b strings.Builder
	b.WriteString(strings.Join(l, ";"))
	b.WriteByte('#')
	for _, d := range f.defers {
		b.WriteString(strconv.Itoa(int(d.instr.Pos())))
		for _, a := range d.args {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
		if d.fn != nil {
			b.WriteByte(':')
			b.WriteString(strconv.Itoa(d.fn.id))
		}
		if d.recv != nil {
			b.WriteByte('.')
			b.WriteString(strconv.Itoa(d.recv.id))
		}
	}
	s := b.String()
	if st == nil {
		f.cached = s
	}
	return s
}

func (st *State) memKey(b *strings.Builder, shapes bool) {
	b.WriteByte('M')
	l := make([]string, 0, len(st.mem))
	for a, v := range st.mem {
		if shapes {
			l = append(l, strconv.Itoa(a.id)+"="+st.memShape(v))
		} else {
			l = append(l, strconv.Itoa(a.id)+"="+strconv.Itoa(v.id))
		}
	}
	sort.Strings(l)
	b.WriteString(strings.Join(l, ";"))
	b.WriteByte('m')
	ms := make([]string, 0, len(st.mon))
	for k, v := range st.mon {
		ms = append(ms, k+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ms)
	b.WriteString(strings.Join(ms, ";"))
	b.WriteByte('L')
	for _, h := range st.locks {
		b.WriteString(strconv.Itoa(h.addr.id))
		if h.write {
			b.WriteByte('w')
		}
		b.WriteByte(',')
	}
	b.WriteByte('R')
	for _, v := range st.ret {
		if shapes {
			b.WriteString(st.shape(v))
		} else {
			b.WriteString(strconv.Itoa(v.id))
		}
		b.WriteByte(',')
	}
}

// joinKey: states with the same key are joined; they differ in what is known of values other than those at hand.
func (st *State) joinKey() string {
	var b strings.Builder
	for i, f := range st.frames {
		if i == len(st.frames)-1 {
			b.WriteString(f.key(st))
		} else {
			b.WriteString(f.key(nil))
		}
		b.WriteByte('/')
	}
	if coarse {
		b.WriteString(st.rootKey())
		for _, h := range st.locks {
			b.WriteString(strconv.Itoa(h.addr.id))
			if h.write {
				b.WriteByte('w')
			}
			b.WriteByte(',')
		}
		for _, v := range st.ret {
			b.WriteString(st.shape(v) + ",")
		}
		return b.String()
	}
	st.memKey(&b, true)
	return b.String()
}

// home says of what rules count that it is the same as the content of a variable, so that states in which both differ in the
// same way are joined.
func (st *State) home(regs bool) {
	if !coarse {
		return
	}
	for k, m := range st.mon {
		if !strings.HasPrefix(k, "~") || m == nil || m.Op == OGhost || !isIntTerm(m) {
			continue
		}
		l := linOf(m)
		if n, ok := l.isConst(); ok && n > -4 && n < 4 {
			continue
		}
		dist := func(v *V) (int64, int64, bool) {
			d, ok := l.add(linOf(v), -1).isConst()
			if d < 0 {
				return d, -d, ok && d >= -2
			}
			return d, d, ok && d <= 2
		}
		var best *V
		var bestD, bestA int64
		for a, v := range st.mem {
			if a.Op != OAlloc || v == nil || !isIntTerm(v) {
				continue
			}
			if d, n, ok := dist(v); ok && (best == nil || n < bestA || n == bestA && a.id < best.id) {
				best, bestD, bestA = a, d, n
			}
		}
		if best != nil {
			st.mon[k] = mk(V{Op: OGhost, Str: "same as", Args: []*V{vInt(bestD), best}})
			continue
		}
		if !regs || len(st.frames) == 0 {
			continue
		}
		name := ""
		for r, v := range st.top().regs {
			if v == nil || !isIntTerm(v) {
				continue
			}
			if d, n, ok := dist(v); ok && (name == "" || n < bestA || n == bestA && newer(r.Name(), name)) {
				name, bestD, bestA = r.Name(), d, n
			}
		}
		if name != "" {
			st.mon[k] = mk(V{Op: OGhost, Str: "same as " + name, Args: []*V{vInt(bestD)}})
		}
	}
}

// newer: register a comes after b in the function.
func newer(a, b string) bool { return len(a) > len(b) || len(a) == len(b) && a > b }

// unhome gives what rules count its value back.
func (st *State) unhome() {
	if !coarse {
		return
	}
	for k, m := range st.mon {
		if m == nil || m.Op != OGhost || !strings.HasPrefix(m.Str, "same as") {
			continue
		}
		set := func(v *V) {
			if n, _ := m.Args[0].intConst(); n != 0 {
				if c, ok := v.intConst(); ok {
					v = vInt(c + n)
				} else {
					v = mk(V{Op: OBin, Str: "+", Args: []*V{v, m.Args[0]}, Typ: types.Typ[types.Int]})
				}
			}
			st.mon[k] = v
		}
		if len(m.Args) > 1 {
			set(st.load(m.Args[1], elemType(m.Args[1])))
			continue
		}
		for r, v := range st.top().regs {
			if "same as "+r.Name() == m.Str {
				set(v)
			}
		}
	}
}

// coarse: values other than pointers do not keep states apart.
var coarse bool

var joinRet string // names the results of the call being joined

// coarseJoin is join for states that are told apart by pointers, truths and monitors only.
func (st *State) coarseJoin(o *State) bool {
	type pair struct{ a, b, j *V }
	var pairs []pair
	merge := func(a, b *V, where string) *V {
		if a == b {
			return a
		}
		typ := a.Typ
		if typ == nil {
			typ = b.Typ
		}
		j := mk(V{Op: OHavoc, Args: []*V{mk(V{Op: OOpaque, Str: "join:" + where})}, Site: -1, Typ: typ})
		if isErrorType(a.Typ) {
			j = someError(where)
		}
		pairs = append(pairs, pair{a, b, j})
		return j
	}
	changed := false
	set := map[*V]bool{}
	var regs map[ssa.Value]*V
	var rets []*V
	if n := len(st.frames); n > 0 {
		f, g := st.frames[n-1], o.frames[n-1]
		regs = make(map[ssa.Value]*V, len(f.regs))
		for r, v := range f.regs {
			regs[r] = v
			if w := g.regs[r]; w != nil && w != v {
				regs[r] = merge(v, w, strconv.Itoa(f.ctx)+f.fn.Name()+"."+r.Name())
			}
		}
	}
	for i, v := range st.ret {
		rets = append(rets, merge(v, o.ret[i], joinRet+strconv.Itoa(i)))
	}
	truth := func(s *State, f *V, t bool) bool {
		if !t {
			f = vNot(f)
		}
		return s.truth(f) > 0
	}
	for _, p := range pairs {
		if p.a != p.j {
			st.boundJoined(o, p.a, p.b, p.j, set)
			continue
		}
		for f, t := range st.facts {
			if f.Op != OGhost && mentions(f, p.a) && truth(o, substNow(f, p.a, p.b), t) {
				set[f] = t
			}
		}
	}
	for f, t := range st.facts {
		if _, ok := set[f]; ok {
			continue
		}
		for _, p := range pairs {
			if mentions(f, p.j) {
				delete(st.facts, f)
				changed = true
			}
		}
		_ = t
	}
	if st.joinAllKeep(o, set) {
		changed = true
	}
	for f, t := range set {
		if _, ok := st.facts[f]; !ok {
			st.facts[f] = t
		}
	}
	for _, p := range pairs {
		if p.a != p.j {
			changed = true
		}
	}
	if n := len(st.frames); n > 0 && changed {
		f := st.frames[n-1].clone()
		f.regs = regs
		st.frames[n-1] = f
	}
	st.ret = rets
	return changed
}

func someError(where string) *V {
	return mk(V{Op: OOpaque, Str: "error:" + where, Typ: types.Universe.Lookup("error").Type()})
}

func isBoolType2(t types.Type) bool { return t != nil && isBoolType(t) }

// joinAll merges o into st whatever they know; only what monitors and one-time initialisers recorded has to agree.
func (st *State) joinAll(o *State) bool { return st.joinAllKeep(o, nil) }

func (st *State) joinAllKeep(o *State, keep map[*V]bool) bool {
	changed := false
	var joined [][2]*V
	bounds := map[*V]bool{} // what both sides know of numbers that differ
	for a := range o.mem {
		if _, ok := st.mem[a]; ok {
			continue
		}
		if a.Op == OGhost {
			st.mem[a] = o.mem[a]
			changed = true
			continue
		}
		if a.Op == OMapOK || a.Op == OMapCell || rootOf(a).Op == OMapCell {
			continue
		}
		st.mem[a] = st.load(a, elemType(a))
		changed = true
	}
	for a, v := range st.mem {
		w, ok := o.mem[a]
		if !ok {
			switch {
			case a.Op == OGhost:
				continue
			case a.Op == OMapOK, a.Op == OMapCell, rootOf(a).Op == OMapCell:
				delete(st.mem, a)
				changed = true
				continue
			}
			w = o.load(a, elemType(a))
		}
		if v == w {
			continue
		}
		typ := elemType(a)
		if typ == nil {
			typ = v.Typ
		}
		j := mk(V{Op: OHavoc, Args: []*V{a}, Site: -1, Typ: typ})
		if v.Op == OPatch || v.Op == OZero && w.Op == OPatch {
			j = mk(V{Op: OPatch, Args: []*V{mk(V{Op: OOpaque, Str: "bytes", Args: []*V{a}, Deps: labels(v, w)}), vNil, vNil}})
		}
		joined = append(joined, [2]*V{j, w})
		if v == j {
			continue
		}
		st.boundJoined(o, v, w, j, bounds)
		st.mem[a] = j
		if v.nonNilIn(st) && w.nonNilIn(o) {
			st.facts[vIsNil(j)] = false
		}
		changed = true
	}
	for f, t := range st.facts {
		if ot, ok := o.facts[f]; ok && ot == t {
			continue
		}
		if holdsFor(o, f, t, joined) {
			continue
		}
		if _, ok := keep[f]; ok {
			continue
		}
		c := f
		if !t {
			c = vNot(f)
		}
		if f.Op == OIsNil && f.Args[0].Op == OHavoc && f.Args[0].Site == -1 {
			if w := o.mem[f.Args[0].Args[0]]; w != nil && w.nonNilIn(o) == !t {
				continue
			}
		}
		if f.Op != OGhost && o.truth(c) > 0 {
			continue
		}
		delete(st.facts, f)
		changed = true
	}
	for f, t := range bounds {
		st.facts[f] = t
	}
	return changed
}

// thresholds are the constants tried as bounds of a number that may have one of two values.
var thresholds = []int64{0, 1, 2, 4, 7, 8, 16, 31, 32, 63, 64, 127, 128, 255, 256}

// boundJoined finds the bounds both v in st and w in o keep, as facts of j that stands for either.
func (st *State) boundJoined(o *State, v, w, j *V, out map[*V]bool) {
	carry := func(from, to *State, v, w *V) {
		for f, t := range from.facts {
			if f.Op == OGhost || !mentions(f, v) || v.isConst() {
				continue
			}
			g := substNow(f, v, w)
			if !t {
				g = vNot(g)
			}
			if to.truth(g) > 0 {
				out[substNow(f, v, j)] = t
			}
		}
	}
	carry(st, o, v, w)
	carry(o, st, w, v)
	if !isIntTerm(v) || !isIntTerm(w) {
		return
	}
	tried := map[*V]bool{}
	try := func(e *V) {
		if tried[e] || !e.isConst() && (mentions(e, v) || mentions(e, w)) || mentions(e, j) {
			return
		}
		tried[e] = true
		if l := linOf(e); e.isConst() && st.ge(l, linOf(v)) && o.ge(l, linOf(w)) {
			out[mk(V{Op: OBin, Str: "<", Args: []*V{e, j}, Typ: types.Typ[types.Bool]})] = false
		}
		if l := linOf(e); st.ge(linOf(v), l) && o.ge(linOf(w), l) {
			out[mk(V{Op: OBin, Str: "<", Args: []*V{j, e}, Typ: types.Typ[types.Bool]})] = false
		} else if st.ge(l, linOf(v).plus(1)) && o.ge(l, linOf(w).plus(1)) {
			out[mk(V{Op: OBin, Str: "<", Args: []*V{j, e}, Typ: types.Typ[types.Bool]})] = true
		}
	}
	for _, k := range thresholds {
		try(vInt(k))
	}
	for _, e := range []*V{v, w} {
		if e.isConst() {
			try(e)
		}
	}
	for _, facts := range []map[*V]bool{st.facts, o.facts} {
		for f := range facts {
			if f.Op == OBin && f.Str == "<" && isIntTerm(f.Args[0]) && isIntTerm(f.Args[1]) {
				if mentions(f, v) || mentions(f, w) {
					try(f.Args[0])
					try(f.Args[1])
				}
			}
		}
	}
}

// holdsFor: f, which is about values that were joined, is true in o of the values it has in their place.
func holdsFor(o *State, f *V, t bool, joined [][2]*V) bool {
	if f.Op != OBin {
		return false
	}
	g := f
	for _, p := range joined {
		if mentions(g, p[0]) {
			g = substNow(g, p[0], p[1])
		}
	}
	if g == f {
		return false
	}
	// what is read through a value that was put in
	for n := 0; n < 4; n++ {
		ld := walkGet(g, func(u *V) bool { return u.Op == OInit && u.Args[0].Op == OIndexAddr && o.load(u.Args[0], u.Typ) != u })
		if ld == nil {
			break
		}
		g = substNow(g, ld, o.load(ld.Args[0], ld.Typ))
	}
	if !t {
		g = vNot(g)
	}
	return o.truth(g) > 0
}

func (v *V) nonNilIn(st *State) bool { return st.nilness(v) < 0 }

// rootKey: goroutines with the same rootKey are analysed as one.
func (st *State) rootKey() string {
	var l []string
	for a, v := range st.mem {
		if a.Op == OGhost && a.Str == "once" {
			l = append(l, strconv.Itoa(a.id)+"="+strconv.Itoa(v.id))
		}
	}
	for k, v := range st.mon {
		if v == nil {
			panic("no value for " + k)
		}
		l = append(l, k+"="+strconv.Itoa(v.id))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// join merges o into st, which has the same joinKey; it reports whether st changed.
func (st *State) join(o *State) bool {
	if coarse {
		return st.coarseJoin(o)
	}
	changed := false
	pre := map[*V]map[*V]bool{} // what both sides know of the lengths of cells that differ
	for c, a := range st.mem {
		b := o.mem[c]
		if b != nil && a != b && a.Op == OHavoc && isBoolType2(a.Typ) {
			if t := st.truth(a); t != 0 && t == o.truth(b) {
				pre[c] = map[*V]bool{mk(V{Op: OHavoc, Args: []*V{c}, Site: -1, Typ: a.Typ}): t > 0}
			}
			continue
		}
		list := a.Op == OHavoc && b != nil && isSliceType(a.Typ)
		if a == b || a.Op != OAppend && a.Op != OWiden && a.Op != OMakeSlice && !list {
			continue
		}
		j := mk(V{Op: OWiden, Args: []*V{backing(a)}, Site: -c.id, Typ: a.Typ})
		if list {
			j = mk(V{Op: OHavoc, Args: []*V{c}, Site: -1, Typ: a.Typ})
		}
		keep := map[*V]bool{}
		for f, t := range st.facts {
			if f.Op == OBin && mentionsLen(f, a) {
				g := substNow(f, a, b)
				if !t {
					g = vNot(g)
				}
				if o.truth(g) > 0 {
					keep[substNow(f, a, j)] = t
				}
			}
		}
		if a != j {
			tried := map[*V]bool{j: true}
			for _, k := range thresholds {
				if k > 0 && st.ge(lenOf(a), newLin(k)) && o.ge(lenOf(b), newLin(k)) {
					keep[mk(V{Op: OBin, Str: "<", Args: []*V{vLen(j), vInt(k)}, Typ: types.Typ[types.Bool]})] = false
				}
			}
			for _, facts := range []map[*V]bool{st.facts, o.facts} {
				for f := range facts {
					if f.Op != OBin || f.Str != "<" || !isIntTerm(f.Args[0]) || !isIntTerm(f.Args[1]) {
						continue
					}
					for _, e := range f.Args {
						if tried[e] || mentions(e, j) || e.isConst() {
							continue
						}
						tried[e] = true
						if st.ge(lenOf(a), linOf(e)) && o.ge(lenOf(b), linOf(e)) {
							keep[mk(V{Op: OBin, Str: "<", Args: []*V{vLen(j), e}, Typ: types.Typ[types.Bool]})] = false
						}
					}
				}
			}
		}
		pre[c] = keep
	}
	kept := func(f *V) bool {
		for _, k := range pre {
			if _, ok := k[f]; ok {
				return true
			}
		}
		return false
	}
	for f, t := range st.facts {
		if ot, ok := o.facts[f]; ok && ot == t || kept(f) {
			continue
		}
		c := f
		if !t {
			c = vNot(f)
		}
		if f.Op != OGhost && o.truth(c) > 0 {
			continue
		}
		delete(st.facts, f)
		changed = true
	}
	merge := func(a, b *V, where string) *V {
		if a == b {
			return a
		}
		if a.Op == OPatch {
			var patches func(a, b *V) *V
			patches = func(a, b *V) *V {
				if a == b {
					return a
				}
				if a.Op == OPatch && b.Op == OPatch && a.Args[1] != vNil && a.Args[1] == b.Args[1] && a.Args[2] == b.Args[2] && a.Site == b.Site {
					return mk(V{Op: OPatch, Args: []*V{patches(a.Args[0], b.Args[0]), a.Args[1], a.Args[2]}, Site: a.Site})
				}
				return mk(V{Op: OPatch, Args: []*V{mk(V{Op: OOpaque, Str: "bytes:" + where, Deps: labels(a, b)}), vNil, vNil}})
			}
			j := patches(a, b)
			if j != a {
				changed = true
			}
			return j
		}
		e := someError(where)
		if a != e {
			changed = true
		}
		return e
	}
	memMerge := func(c, a, b *V) *V {
		if a == b {
			return a
		}
		var j *V
		switch a.Op {
		case OHavoc:
			j = mk(V{Op: OHavoc, Args: []*V{c}, Site: -1, Typ: a.Typ})
		case OAppend, OWiden, OMakeSlice:
			j = mk(V{Op: OWiden, Args: []*V{backing(a)}, Site: -c.id, Typ: a.Typ})
		default:
			return merge(a, b, strconv.Itoa(c.id))
		}
		if _, ok := pre[c]; ok {
			for f := range st.facts {
				if f.Op == OBin && mentionsLen(f, j) && !kept(f) {
					delete(st.facts, f)
					changed = true
				}
			}
		}
		if a != j {
			nn := st.nilness(a)
			changed = true
			for f := range st.facts {
				if mentions(f, j) {
					delete(st.facts, f)
				}
			}
			for f, t := range pre[c] {
				st.facts[f] = t
			}
			if nn != 0 {
				st.facts[vIsNil(j)] = nn > 0
			}
			if isBoolType2(a.Typ) {
				if t := st.truth(a); t != 0 {
					st.facts[j] = t > 0
				}
			}
		}
		return j
	}
	if n := len(st.frames); n > 0 {
		f, g := st.frames[n-1], o.frames[n-1]
		for r, v := range f.regs {
			if w := g.regs[r]; w != v {
				f.regs[r] = merge(v, w, r.Name())
			}
		}
	}
	for a, v := range st.mem {
		if w := o.mem[a]; w != v {
			st.mem[a] = memMerge(a, v, w)
		}
	}
	for i, v := range st.ret {
		if w := o.ret[i]; w != v {
			st.ret[i] = merge(v, w, "ret"+strconv.Itoa(i))
		}
	}
	return changed
}

// mentions: v speaks of x, other than by naming a call that was given x.
func mentions(v, x *V) bool {
	if v == nil {
		return false
	}
	if v == x {
		return true
	}
	if v.Op == OCall && v.Site != 0 {
		return false
	}
	for _, a := range v.Args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// substNow replaces x by y in v other than in the arguments of named calls.
func substNow(v, x, y *V) *V {
	memo := map[*V]*V{}
	var mark func(v *V)
	mark = func(v *V) {
		if v == nil {
			return
		}
		if v != x && v.Op == OCall && v.Site != 0 {
			memo[v] = v
			return
		}
		for _, a := range v.Args {
			mark(a)
		}
	}
	mark(v)
	return subst(v, x, y, memo)
}

// mentionsLen: f speaks of the length or capacity of v itself.
func mentionsLen(f, v *V) bool {
	return walkFind(f, func(g *V) bool { return (g.Op == OLen || g.Op == OCap) && g.Args[0] == v })
}

// labels names everything two contents come from; a join keeps that much of them.
func labels(vs ...*V) []*V {
	set := map[string]*V{}
	if noContent {
		return nil
	}
	for _, v := range vs {
		for k := range sources(v) {
			set[k] = nil
		}
	}
	var out []*V
	for _, k := range sortedKeys(set) {
		out = append(out, mk(V{Op: OOpaque, Str: "src:" + k}))
	}
	return out
}

// labelled reduces a description of bytes to the names of what they come from.
func labelled(v *V) *V {
	if v == nil || v.Op != OOpaque || v.Str != "bytes" && !strings.HasPrefix(v.Str, "bytes:") {
		return v
	}
	l := labels(v)
	if len(l) == 0 {
		return nil
	}
	return mk(V{Op: OOpaque, Str: "bytes", Deps: l})
}

var sourceMemo = map[*V]map[string]*V{}

// boundary: calls whose result says nothing about what went in.
func boundary(name string) bool {
	for _, s := range []string{"AEAD).Seal", "AEAD).Open", "AEAD).NonceSize", "AEAD).Overhead", "ed25519.Sign", "ed25519.Verify", ".X25519", "ed25519.GenerateKey", "rand.Read"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

// sources collects where a value comes from: calls, fields, parameters and received values in it. It does not look
// through cryptographic operations, nor through lengths.
func sources(v *V) map[string]*V {
	if m, ok := sourceMemo[v]; ok {
		return m
	}
	out := map[string]*V{}
	seen := map[*V]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v.Op {
		case OExtract:
			if isErrorType(v.Typ) && v.Args[0].Op == OCall {
				out["err:"+v.Args[0].Str] = v
				return
			}
			if c := v.Args[0]; c.Op == OCall && strings.HasSuffix(c.Str, "ed25519.GenerateKey") {
				if v.Idx == 1 {
					out["secret:GenerateKey"] = v
				} else {
					out["call:"+c.Str] = v
				}
				return
			}
		case OCall:
			out["call:"+v.Str] = v
			if strings.HasSuffix(v.Str, ".ReadFull") || strings.HasSuffix(v.Str, "rand.Int") {
				for _, a := range v.Args {
					if walkFind(a, func(g *V) bool { return g.Op == OGlobal && g.Str == "crypto/rand.Reader" }) {
						delete(out, "call:"+v.Str)
						out["call:crypto/rand.Read"] = v
						return
					}
				}
			}
			if boundary(v.Str) {
				return
			}
		case OInit, OHavoc:
			if base, path := addrRef(v.Args[0]); len(path) > 0 && base.Typ != nil {
				out["field:"+(&fref{typ: deref(base.Typ), path: path}).String()] = v
				return
			}
		case OParam:
			out["param:"+v.Str] = v
		case ORecv:
			out["recv"] = v
		case OLen, OCap, OFieldAddr:
			return
		case OGhost:
			if v.Str == "of" {
				return
			}
		case OOpaque:
			if strings.HasPrefix(v.Str, "src:") {
				out[v.Str[4:]] = v
			}
		}
		for _, a := range v.Args {
			walk(a)
		}
		for _, a := range v.Deps {
			walk(a)
		}
	}
	walk(v)
	sourceMemo[v] = out
	return out
}

// region is a part of the memory behind base.
type region struct {
	base     *V
	off, len lin
	known    bool
}

func regionOf(v *V) region {
	v = unconv(v)
	if v == nil {
		return region{}
	}
	switch v.Op {
	case OSlice:
		r := regionOf(v.Args[0])
		if !r.known {
			return r
		}
		lo := newLin(0)
		if v.Args[1] != nil {
			lo = linOf(v.Args[1])
		}
		if len(v.Args) > 2 && v.Args[2] != nil {
			r.len = linOf(v.Args[2])
		}
		r.len = r.len.add(lo, -1)
		r.off = r.off.add(lo, 1)
		return r
	case OAppend:
		if freshBase(v.Args[0]) {
			break
		}
		r := regionOf(v.Args[0])
		r.len = lenOf(v)
		return r
	case OWiden:
		return region{base: backing(v)}
	}
	if v.Typ != nil {
		if a, ok := deref(v.Typ).Underlying().(*types.Array); ok {
			return region{base: v, off: newLin(0), len: newLin(a.Len()), known: true}
		}
	}
	return region{base: v, off: newLin(0), len: lenOf(v), known: true}
}

func (st *State) disjoint(a, b region) bool {
	return a.known && b.known && (st.ge(a.off, b.off.add(b.len, 1)) || st.ge(b.off, a.off.add(a.len, 1)))
}

func (st *State) covers(a, b region) bool {
	return a.known && b.known && st.ge(b.off, a.off) && st.ge(a.off.add(a.len, 1), b.off.add(b.len, 1))
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isByte(u.Elem())
	case *types.Array:
		return isByte(u.Elem())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return isByte(a.Elem())
		}
	}
	return false
}

// bytesOf describes what the bytes of a slice, or of the array a pointer refers to, come from.
func (st *State) bytesOf(v *V) *V {
	if noContent {
		return nil
	}
	u := unconv(v)
	if u == nil || u.Typ == nil || !isBytes(u.Typ) && !isBytes(v.Typ) {
		return st.content(u)
	}
	if u.Op == OConst || u == vNil {
		return nil
	}
	out := []*V{mk(V{Op: OGhost, Str: "of", Args: []*V{u}})}
	out = append(out, st.parts(u, regionOf(u), 0)...)
	return mk(V{Op: OOpaque, Str: "bytes", Args: out})
}

// parts lists what the region r of the slice or array u was filled from.
func (st *State) parts(u *V, r region, depth int) []*V {
	if u == nil || depth > 8 {
		return nil
	}
	u = unconv(u)
	var out []*V
	b := backing(u)
	rest := []region{r}
	overlaps := func(d region) bool {
		for _, p := range rest {
			if d.base != p.base || !st.disjoint(d, p) {
				return true
			}
		}
		return false
	}
	fill := func(d region) {
		var keep []region
		for _, p := range rest {
			if !p.known || p.base != d.base || !st.ge(d.len, newLin(0)) {
				keep = append(keep, p)
				continue
			}
			pe, de := p.off.add(p.len, 1), d.off.add(d.len, 1)
			before, after := st.ge(p.off, d.off), st.ge(de, pe)
			switch {
			case before && after:
			case before && st.ge(de, p.off):
				keep = append(keep, region{base: p.base, off: de, len: pe.add(de, -1), known: true})
			case after && st.ge(pe, d.off):
				keep = append(keep, region{base: p.base, off: p.off, len: d.off.add(p.off, -1), known: true})
			default:
				keep = append(keep, p)
			}
		}
		rest = keep
	}
	if b != nil {
		c := st.mem[b]
		for c != nil && c.Op == OPatch && len(rest) > 0 {
			dst, src := c.Args[1], c.Args[2]
			if dst == nil || dst == vNil || src == nil {
				break
			}
			d := regionOf(dst)
			if d.base != b {
				d.known = false
			}
			if overlaps(d) {
				out = append(out, src)
				if d.known && st.fills(src, d) {
					fill(d)
				}
			}
			c = c.Args[0]
		}
		if len(rest) == 0 {
			return out
		}
		if c != nil {
			out = append(out, c)
		}
	}
	// what is below the known stores
	u = b
	if u == nil {
		return out
	}
	switch u.Op {
	case OAppend: // always fresh memory
		if len(u.Deps) > 0 {
			out = append(out, u.Deps[0])
		} else {
			out = append(out, u.Args[1])
		}
	case OMakeSlice, OAlloc:
	default:
		out = append(out, u)
	}
	return out
}

// fills: storing src fills the whole of the region d.
func (st *State) fills(src *V, d region) bool {
	switch {
	case src.Op == OCall && (strings.HasSuffix(src.Str, "AEAD).Seal") || strings.HasSuffix(src.Str, "AEAD).Open")):
		return false
	case src.Op == OCall && (strings.HasSuffix(src.Str, ".Read") && !strings.HasSuffix(src.Str, "rand.Read")):
		return false
	case src.Op == OCall || src.Typ != nil && isIntTerm(src):
		return true
	case src.Op == OOpaque && src.Str == "bytes" && len(src.Args) > 0 && src.Args[0].Op == OGhost:
		return st.ge(lenOf(src.Args[0].Args[0]), d.len)
	case src.Typ != nil && isBytes(src.Typ):
		return st.ge(lenOf(src), d.len)
	}
	return false
}

// from is sources, also looking at the contents of the memory values refer to.
func (st *State) from(vs ...*V) map[string]*V {
	out := map[string]*V{}
	var add func(v *V, depth int)
	add = func(v *V, depth int) {
		if v == nil {
			return
		}
		u := unconv(v)
		if u.Typ != nil && (isBytes(u.Typ) || isBytes(v.Typ)) && u.Op != OConst && u != vNil && !noContent {
			v, u = st.bytesOf(v), nil
		}
		for k, t := range sources(v) {
			out[k] = t
		}
		if u == nil {
			return
		}
		if u.Op == OTuple || u.Op == OStruct || u.Op == OIface {
			for _, a := range u.Args {
				if depth < 4 {
					add(a, depth+1)
				}
			}
			return
		}
		if c := st.bytesOf(v); c != nil {
			for k, t := range sources(c) {
				out[k] = t
			}
		}
	}
	for _, v := range vs {
		add(v, 0)
	}
	return out
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
