package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind uint8

const (
	EvCall   EvKind = iota // a call that is not inlined: external function, interface method, function value
	EvEnter                // a call of a function of the module, before it is inlined
	EvLeave                // its return
	EvStore                // *Addr = Val
	EvLoad                 // Val = *Addr
	EvMapSet               // Map[Key] = Val
	EvMapDel               // delete(Map, Key)
	EvMapGet               // Val, OK = Map[Key]
	EvSend                 // Chan <- Val
	EvRecv                 // Val = <-Chan
	EvClose                // close(Chan)
	EvSelect               // one case of a select was chosen (Chan, Val, Dir) or its default (Chan nil)
	EvGo                   // go Callee(Args...)
	EvReturn               // a root returns
	EvPanic
	EvSlice // Val = X[Lo:Hi:Max]
	EvIndex // element Lo of X is accessed
	EvMake  // make([]T, Lo, Hi)
	EvAssert
	EvRange // a range step over a map
	EvLock
	EvUnlock
	EvCopy   // copy(X, Val)
	EvAppend // Val = append(X, Lo...)
	EvBranch // a condition Val was assumed (OK = truth)
	EvLoop   // back edge
)

type Event struct {
	Kind  EvKind
	Instr ssa.Instruction
	Pos   token.Pos
	Fn    *ssa.Function // enclosing function
	Name  string        // full name of the callee, "" for a function value
	FnVal *V            // callee value of a dynamic call
	Sfn   *ssa.Function // callee with a body
	Recv  *V            // receiver (interface or method)
	Args  []*V          // arguments, without the receiver
	Res   *V
	Addr  *V
	Val   *V
	Chan  *V
	Map   *V
	Key   *V
	X     *V
	Lo    *V
	Hi    *V
	Max   *V
	OK    bool
	Block bool // select: blocking
	Send  bool
	Cases []SelCase
	Site  int
	Typ   types.Type
	Defer bool

	Kill bool // set by a monitor: the path is of no interest any more
}

type SelCase struct {
	Chan *V
	Send bool
	Val  *V
}

// Monitor observes the events of every path.
type Monitor interface {
	Event(x *Exec, st *State, ev *Event)
}

type MonitorFunc func(x *Exec, st *State, ev *Event)

func (f MonitorFunc) Event(x *Exec, st *State, ev *Event) { f(x, st, ev) }

type Root struct {
	Name  string
	Fn    *ssa.Function
	Args  []*V
	Binds []*V
	State *State
	GoPos token.Pos

	parents []*ssa.Function // goroutines (or API functions) this one was started from
}

// Exec runs the abstract semantics of the program from a set of roots.
type Exec struct {
	P   *Program
	Mon Monitor
	// OnGo decides whether a goroutine is analysed as a root of its own, and in which monitor state it starts.
	OnGo func(x *Exec, st *State, ev *Event, r *Root) bool
	// Interfere, when set, returns actions another goroutine may perform between any two steps.
	Interfere func(x *Exec, st *State, ev *Event) []func(st *State) []*State
	// Layout keeps track of the order of the bytes that are copied.
	Layout bool
	// Skip keeps a function of the module from being inlined; it is reported as an EvCall.
	Skip func(fn *ssa.Function) bool
	// Coarse joins states whatever values they hold.
	Coarse bool
	// SameGoroutine: goroutines that can never run next to root r on the same object.
	Root *Root

	MaxLen    int64 // loops whose counter is compared with a known bound of at most MaxLen are unrolled
	NoContent bool  // the contents of byte slices are of no interest

	sites     map[string]int
	siteOf    []siteInfo
	queue     []*Root
	rootState map[string]*State
	lastVal   map[siteVal]*V

	Steps     int
	States    int
	MaxSteps  int
	MaxBlock  int
	PerBlock  map[*ssa.BasicBlock]int
	Undecided string
	Funcs     map[*ssa.Function]bool
	Roots     []string
	Events    int
}

type siteInfo struct {
	ctx   int
	instr ssa.Instruction
}

func NewExec(p *Program, m Monitor) *Exec {
	return &Exec{P: p, Mon: m, sites: map[string]int{}, siteOf: []siteInfo{{}}, rootState: map[string]*State{}, lastVal: map[siteVal]*V{}, Funcs: map[*ssa.Function]bool{},
		MaxSteps: 5000000, MaxBlock: 3000, MaxLen: 4, PerBlock: map[*ssa.BasicBlock]int{}}
}

func (x *Exec) site(ctx int, instr ssa.Instruction) int { return x.siteSub(ctx, instr, "") }

func (x *Exec) siteSub(ctx int, instr ssa.Instruction, sub string) int {
	k := fmt.Sprintf("%d|%p|%s", ctx, instr, sub)
	if n, ok := x.sites[k]; ok {
		return n
	}
	n := x.P.siteSeq
	x.P.siteSeq++
	x.sites[k] = n
	return n
}

type siteVal struct {
	ctx int
	v   ssa.Value
}

type undecided struct{ msg string }

// Run analyses r and every goroutine started from it.
func (x *Exec) Run(roots ...*Root) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecided); ok {
				x.Undecided = u.msg
				return
			}
			panic(e)
		}
	}()
	noContent, coarse, wantLayout = x.NoContent, x.Coarse, x.Layout
	x.queue = append(x.queue, roots...)
	for len(x.queue) > 0 {
		r := x.queue[0]
		x.queue = x.queue[1:]
		k := r.Fn.String() + "|" + vkeys(r.Args) + "|" + vkeys(r.Binds) + "|" + r.State.rootKey()
		for i := 0; i < len(x.queue); i++ {
			q := x.queue[i]
			if k == q.Fn.String()+"|"+vkeys(q.Args)+"|"+vkeys(q.Binds)+"|"+q.State.rootKey() {
				r.State.joinAll(q.State)
				x.queue = append(x.queue[:i], x.queue[i+1:]...)
				i--
			}
		}
		if prev := x.rootState[k]; prev != nil {
			if !prev.joinAll(r.State) {
				continue
			}
			r.State = prev
		}
		x.rootState[k] = r.State.clone()
		x.Root = r
		x.Roots = append(x.Roots, r.Name)
		for _, st := range x.callFn(r.State.clone(), r.Fn, r.Args, r.Binds, nil, 0) {
			ev := &Event{Kind: EvReturn, Fn: r.Fn, Pos: r.Fn.Pos()}
			if len(st.ret) == 1 {
				ev.Res = st.ret[0]
			} else {
				ev.Res = mk(V{Op: OTuple, Args: st.ret})
			}
			x.emit(st, ev)
		}
	}
}

func vkeys(l []*V) string {
	var b strings.Builder
	for _, v := range l {
		b.WriteString(strconv.Itoa(v.id))
		b.WriteByte(',')
	}
	return b.String()
}

func (x *Exec) emit(st *State, ev *Event) bool {
	x.Events++
	if x.Mon != nil {
		x.Mon.Event(x, st, ev)
	}
	return !ev.Kill
}

// callFn inlines fn.
func (x *Exec) callFn(st *State, fn *ssa.Function, args, binds []*V, call ssa.Instruction, ctx int) []*State {
	f := &Frame{fn: fn, ctx: ctx, regs: map[ssa.Value]*V{}, call: call}
	if n := len(st.frames); n > 0 {
		p := st.top()
		f.loop = p.loop || call != nil && x.P.inLoop(call.Block())
	}
	for i, p := range fn.Params {
		if i < len(args) {
			f.regs[p] = args[i]
		}
	}
	for i, b := range fn.FreeVars {
		if i < len(binds) {
			f.regs[b] = binds[i]
		}
	}
	if len(st.frames) > 48 {
		panic(undecided{"inlining depth exceeded in " + fn.String()})
	}
	x.Funcs[fn] = true
	st.frames = append(append([]*Frame{}, st.frames...), f)
	depth := len(st.frames)

	info := x.P.info(fn)
	type entry struct {
		b      *ssa.BasicBlock
		st     *State
		queued bool
	}
	entries := map[string]*entry{}
	perBlock := map[*ssa.BasicBlock]int{}
	work := make([][]*entry, len(fn.Blocks)) // by position in reverse postorder
	low := 0
	enqueue := func(e *entry) {
		if e.queued {
			return
		}
		e.queued = true
		k := info.order[e.b]
		work[k] = append(work[k], e)
		if k < low {
			low = k
		}
	}
	arrive := func(b, pred *ssa.BasicBlock, s *State) {
		if pred != nil {
			x.phis(s, b, pred)
		}
		top := s.top()
		live := info.live[b]
		for r := range top.regs {
			if !live[r] {
				delete(top.regs, r)
			}
		}
		s.gc(nil)
		s.home(true)
		k := strconv.Itoa(b.Index) + "|" + s.joinKey()
		if pred != nil && x.P.shortCircuit(b) {
			// each outcome of a composed condition on its own: they differ in what they say about its parts
			k += "|" + strconv.Itoa(pred.Index)
		}
		if e := entries[k]; e != nil {
			m := e.st
			if m.join(s) {
				enqueue(e)
			}
			return
		}
		perBlock[b]++
		if debugFn == "max" && perBlock[b] > 300 {
			var prev *State
			n := 0
			for k2, e := range entries {
				if strings.HasPrefix(k2, strconv.Itoa(b.Index)+"|") {
					if prev != nil && n < 4 {
						fmt.Println("== diff", b.Parent(), b.Index, b.Comment)
						diffStates(prev, e.st)
						n++
					}
					prev = e.st
				}
			}
			panic(undecided{"debug"})
		}
		if perBlock[b] > x.MaxBlock {
			panic(undecided{"too many states in " + fn.String()})
		}
		e := &entry{b: b, st: s}
		entries[k] = e
		enqueue(e)
	}
	arrive(fn.Blocks[0], nil, st)
	outs := map[string]*State{}
	var outOrder []string
	for low < len(work) {
		if len(work[low]) == 0 {
			low++
			continue
		}
		n := len(work[low])
		e := work[low][n-1]
		work[low] = work[low][:n-1]
		e.queued = false
		x.States++
		if debugFn != "" && fn.Name() == debugFn {
			x.PerBlock[e.b]++
			if n := x.PerBlock[e.b]; n >= debugN && n < debugN+3 {
				fmt.Println("=== block", e.b.Index, e.b.Comment)
				e.st.dump()
			}
		}
		cur := e.st.clone()
		cur.unhome()
		for _, r := range x.block(cur, e.b, 0) {
			if len(r.st.frames) != depth {
				panic("frame mismatch in " + fn.String())
			}
			if r.next != nil {
				arrive(r.next, e.b, r.st)
				continue
			}
			o := r.st
			o.frames = o.frames[:depth-1]
			if n := len(o.frames); n > 0 {
				// the caller's frame may be shared with other states
				o.frames = append([]*Frame{}, o.frames...)
				o.frames[n-1] = o.frames[n-1].clone()
			}
			o.ret = append([]*V{}, o.ret...)
			o.gc(nil)
			o.home(false)
			k := o.joinKey()
			if m := outs[k]; m != nil {
				joinRet = strconv.Itoa(ctx) + fn.Name() + ".ret"
				m.join(o)
				continue
			}
			outs[k] = o
			outOrder = append(outOrder, k)
		}
	}
	var res []*State
	for _, k := range outOrder {
		outs[k].unhome()
		res = append(res, outs[k])
	}
	if debugProf != nil {
		p := debugProf[fn.String()]
		if p == nil {
			p = &prof{}
			debugProf[fn.String()] = p
		}
		p.calls++
		p.outs += len(res)
		if len(res) > p.max {
			p.max = len(res)
			p.maxOuts = res
		}
		p.entries += len(entries)
	}
	return res
}

// shortCircuit: b is reached by several branches of one condition.
func (P *Program) shortCircuit(b *ssa.BasicBlock) bool {
	if len(b.Preds) < 2 {
		return false
	}
	for _, p := range b.Preds {
		if _, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); !ok || P.isBackEdge(p, b) {
			return false
		}
	}
	return true
}

type blockOut struct {
	st   *State
	next *ssa.BasicBlock // nil: returned
}

func (x *Exec) val(st *State, v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		return vConst(v)
	case *ssa.Global:
		return mk(V{Op: OGlobal, Str: v.String(), Typ: v.Type()})
	case *ssa.Function:
		return mk(V{Op: OFunc, Fn: v, Str: v.String()})
	case *ssa.Builtin:
		return mk(V{Op: OOpaque, Str: "builtin " + v.Name()})
	}
	if r, ok := st.top().regs[v]; ok {
		return r
	}
	// not yet defined on this path (cannot happen in well-formed SSA)
	return mk(V{Op: OOpaque, Str: "undef:" + v.Name(), Typ: v.Type()})
}

// phis evaluates the phis of b on the edge from pred.
func (x *Exec) phis(st *State, b, pred *ssa.BasicBlock) {
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	back := x.P.isBackEdge(pred, b)
	top := st.top()
	type upd struct {
		phi *ssa.Phi
		v   *V
	}
	var us []upd
	// what rules follow around loops, and how far it is from the counter
	follows := map[*ssa.Phi]map[string]*V{}
	followed := map[string]bool{}
	if back {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := x.val(st, phi.Edges[idx])
			site := x.site(top.ctx, phi)
			follow := map[string]*V{}
			for k, m := range st.mon {
				if !strings.HasPrefix(k, "~") || m == nil || followed[k] {
					continue
				}
				if !isIntTerm(m) || !isIntTerm(v) {
					if m == v {
						follow[k] = vInt(0)
					}
					continue
				}
				d, isK := linOf(m).add(linOf(v), -1).isConst()
				before := st.mon["!"+k+"!"+strconv.Itoa(site)]
				if s := st.mon["+"+k+"+"+strconv.Itoa(site)]; s != nil && sameLin(linOf(s), linOf(m).add(linOf(v), 1)) {
					follow[k] = s // counts down
					continue
				}
				if !isK || before == nil && d != 0 || before != nil && before.Op == OConst && before != vInt(d) {
					continue
				}
				if _, fixed := linOf(m).isConst(); fixed && before != nil && before.Op != OConst {
					continue
				}
				follow[k] = vInt(d)
			}
			for k := range follow {
				followed[k] = true
			}
			follows[phi] = follow
		}
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := x.val(st, phi.Edges[idx])
		if back {
			top = st.top()
			cur := top.regs[phi]
			site := x.site(top.ctx, phi)
			follow := follows[phi]
			v = x.widen(st, phi, cur, v, site)
			if v.Op == OPhi && v == cur { // what is noted about the previous round
				for k, m := range st.mon {
					if strings.HasPrefix(k, "~") && m != nil && !followed[k] && contains(m, v) {
						delete(st.mon, k)
					}
				}
			}
			for k, d := range follow {
				if st.mon["+"+k+"+"+strconv.Itoa(site)] == d && isIntTerm(v) {
					st.mon[k] = linOf(d).add(linOf(v), -1).full()
					continue
				}
				st.mon[k] = v
				if n, _ := d.intConst(); n != 0 {
					st.mon[k] = mk(V{Op: OBin, Str: "+", Args: []*V{v, d}, Typ: types.Typ[types.Int]})
				}
			}
		} else if isIntTerm(v) {
			site := x.site(top.ctx, phi)
			for k, m := range st.mon {
				if strings.HasPrefix(k, "~") && m != nil && isIntTerm(m) {
					n := "!" + k + "!" + strconv.Itoa(site)
					if d, ok := linOf(m).add(linOf(v), -1).isConst(); ok && d >= -2 && d <= 2 {
						st.mon[n] = vInt(d)
					} else {
						st.setFlag(n, true)
						if countsDown(phi) {
							st.mon["+"+k+"+"+strconv.Itoa(site)] = linOf(m).add(linOf(v), 1).full()
						}
					}
				}
			}
		}
		us = append(us, upd{phi, v})
	}
	top = st.top() // widening may have replaced it
	for _, u := range us {
		top.regs[u.phi] = u.v
	}
}

// copyLoop: a loop that runs over all the bytes of an array and puts a byte of another place into each of them copies
// them all.
func (x *Exec) copyLoop(st *State, i *ssa.Store, a, v *V) {
	if !wantLayout || a.Op != OIndexAddr || !isByte(elemTypeOf(a)) || v.Op != OOpaque || v.Str != "byte" {
		return
	}
	ia, ok := i.Addr.(*ssa.IndexAddr)
	if !ok {
		return
	}
	b, src := backing(a.Args[0]), v.Args[0]
	if b == nil || src.Op != OIndexAddr {
		return
	}
	r := regionOf(a.Args[0])
	n, ok := r.len.isConst()
	k, same := linOf(src.Args[1]).add(linOf(a.Args[1]), -1).isConst()
	if !ok || !same || !r.known {
		return
	}
	index, start := ia.Index, int64(0)
	phi, ok := index.(*ssa.Phi)
	if add, isAdd := index.(*ssa.BinOp); isAdd && add.Op == token.ADD && isIntConst(add.Y, 1) {
		phi, ok = add.X.(*ssa.Phi)
		start = -1
	}
	if !ok {
		return
	}
	for j, e := range phi.Edges {
		if isIntConst(e, start) {
			continue
		}
		add, ok := e.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.X != ssa.Value(phi) || !isIntConst(add.Y, 1) || !i.Block().Dominates(phi.Block().Preds[j]) {
			return
		}
	}
	for _, instr := range phi.Block().Instrs {
		br, ok := instr.(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS || cmp.X != index {
			return
		}
		if end, ok := linOf(x.val(st, cmp.Y)).isConst(); !ok || end != n {
			return
		}
		from := mk(V{Op: OSlice, Args: []*V{src.Args[0], vInt(k), vInt(k + n)}, Typ: types.NewSlice(types.Typ[types.Byte])})
		if l := st.laid(from); l != nil {
			st.patch(b, mk(V{Op: OSlice, Args: []*V{a.Args[0], nil, nil}, Typ: from.Typ}), l, x.site(st.top().ctx, i))
		}
		return
	}
}

func isIntConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	m, ok := constant.Int64Val(c.Value)
	return ok && m == n
}

// countsDown says that a variable is made smaller around its loop.
func countsDown(phi *ssa.Phi) bool {
	for _, e := range phi.Edges {
		if b, ok := e.(*ssa.BinOp); ok && (b.X == ssa.Value(phi)) {
			k, ok := b.Y.(*ssa.Const)
			if !ok || k.Value == nil {
				continue
			}
			if n := constant.Sign(k.Value); b.Op == token.SUB && n > 0 || b.Op == token.ADD && n < 0 {
				return true
			}
		}
	}
	return false
}

func (x *Exec) widen(st *State, phi *ssa.Phi, cur, v *V, site int) *V {
	if cur == v {
		return v
	}
	if n, ok := v.intConst(); ok {
		if n <= x.MaxLen && n >= -x.MaxLen && x.bounded(st, phi) {
			return v
		}
	} else {
		if v.isConst() || cur == nil {
			return v
		}
		w := mk(V{Op: OPhi, Site: site, Typ: phi.Type(), Instr: phi})
		if v.depth < 40 && !contains(v, cur) && v.Op != OPhi && !contains(v, w) {
			return v
		}
	}
	// a value that grows around the loop
	w := mk(V{Op: OPhi, Site: site, Typ: phi.Type(), Instr: phi})
	newFacts := map[*V]bool{} // facts about the new value
	if isIntTerm(v) && cur != nil {
		// what the counter is compared with
		for _, r := range *phi.Referrers() {
			cmp, ok := r.(*ssa.BinOp)
			if !ok || cmp.X != ssa.Value(phi) && cmp.Y != ssa.Value(phi) {
				continue
			}
			switch cmp.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			o := cmp.X
			if o == ssa.Value(phi) {
				o = cmp.Y
			}
			e := x.lastVal[siteVal{st.top().ctx, o}]
			if k, ok := o.(*ssa.Const); ok {
				e = vConst(k)
			}
			if e == nil || !isIntTerm(e) || mentions(e, w) || mentions(e, cur) && !cur.isConst() {
				continue
			}
			if st.ge(linOf(e), linOf(v)) {
				newFacts[mk(V{Op: OBin, Str: "<", Args: []*V{e, w}, Typ: types.Typ[types.Bool]})] = false
			} else if st.ge(linOf(v), linOf(e)) {
				newFacts[mk(V{Op: OBin, Str: "<", Args: []*V{w, e}, Typ: types.Typ[types.Bool]})] = false
			}
		}
		for f := range st.facts {
			if f.Op != OBin || f.Str != "<" || !mentions(f, cur) && !mentions(f, v) || !isIntTerm(f.Args[0]) || !isIntTerm(f.Args[1]) {
				continue
			}
			for _, e := range f.Args {
				if e.isConst() || mentions(e, cur) && !cur.isConst() || mentions(e, v) && !v.isConst() || mentions(e, w) {
					continue
				}
				if st.ge(linOf(e), linOf(v).plus(1)) {
					newFacts[mk(V{Op: OBin, Str: "<", Args: []*V{w, e}, Typ: types.Typ[types.Bool]})] = true
				} else if st.ge(linOf(e), linOf(v)) {
					newFacts[mk(V{Op: OBin, Str: "<", Args: []*V{e, w}, Typ: types.Typ[types.Bool]})] = false
				} else if st.ge(linOf(v), linOf(e)) {
					newFacts[mk(V{Op: OBin, Str: "<", Args: []*V{w, e}, Typ: types.Typ[types.Bool]})] = false
				}
			}
		}
	}
	if cur != w {
		st.retire(w)
		for f := range st.facts {
			if contains(f, w) {
				delete(st.facts, f)
			}
		}
	}
	lower, upper := phiBounds(phi)
	if cur == w || contains(v, w) {
		// facts of the previous value do not carry over
		for f := range st.facts {
			if contains(f, w) {
				delete(st.facts, f)
			}
		}
	}
	if lower != nil {
		newFacts[mk(V{Op: OBin, Str: "<", Args: []*V{w, lower}, Typ: types.Typ[types.Bool]})] = false
	}
	if upper != nil {
		newFacts[mk(V{Op: OBin, Str: "<", Args: []*V{upper, w}, Typ: types.Typ[types.Bool]})] = false
	}
	for f, t := range newFacts {
		st.facts[f] = t
	}
	return w
}

// bounded: the loop counter phi is compared with a bound that is known and small.
func (x *Exec) bounded(st *State, phi *ssa.Phi) bool {
	for _, instr := range phi.Block().Instrs {
		br, ok := instr.(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		for _, o := range []ssa.Value{cmp.X, cmp.Y} {
			if o == ssa.Value(phi) {
				continue
			}
			if b, ok := o.(*ssa.BinOp); ok && (b.X == ssa.Value(phi) || b.Y == ssa.Value(phi)) {
				continue // the counter itself
			}
			ov := x.lastVal[siteVal{st.top().ctx, o}]
			if oi, ok := o.(ssa.Instruction); !ok || oi.Block() != phi.Block() || ov == nil {
				ov = x.val(st, o)
			}
			l := linOf(ov)
			if len(l.m) == 0 {
				return l.c <= x.MaxLen
			}
			for n := int64(0); n <= x.MaxLen; n++ {
				if st.entailsEq(l, newLin(n)) {
					return true
				}
			}
		}
		return false
	}
	return false
}

// phiBounds: a phi whose other edges only add a non-negative (non-positive) constant stays above (below) its start.
func phiBounds(phi *ssa.Phi) (lower, upper *V) {
	var start *int64
	up, down := true, true
	for _, e := range phi.Edges {
		if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(c.Value)
			if start == nil || n < *start {
				m := n
				start = &m
			}
			continue
		}
		if e == phi {
			continue
		}
		if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && b.X == phi {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				n, _ := constant.Int64Val(c.Value)
				if b.Op == token.SUB {
					n = -n
				}
				if n < 0 {
					up = false
				}
				if n > 0 {
					down = false
				}
				continue
			}
		}
		up, down = false, false
	}
	if start == nil {
		return nil, nil
	}
	if up {
		lower = vInt(*start)
	}
	if down {
		upper = vInt(*start)
	}
	return
}

// define sets the result of an instruction whose term is named after its site.
func (x *Exec) define(st *State, instr ssa.Instruction, v *V) {
	val, ok := instr.(ssa.Value)
	if !ok {
		return
	}
	st.top().regs[val] = v
}

// fresh prepares a new instance of the term t created at instr.
func (x *Exec) fresh(st *State, instr ssa.Instruction, t *V) {
	top := st.top()
	if top.loop || x.P.inLoop(instr.Block()) {
		st.retire(t)
	}
	for f := range st.facts {
		if contains(f, t) {
			delete(st.facts, f)
		}
	}
}

func (x *Exec) block(st *State, b *ssa.BasicBlock, i int) []blockOut {
	for ; i < len(b.Instrs); i++ {
		x.Steps++
		if x.Steps > x.MaxSteps {
			panic(undecided{"step limit exceeded in " + b.Parent().String()})
		}
		instr := b.Instrs[i]
		if _, ok := instr.(*ssa.Phi); ok {
			continue
		}
		switch instr := instr.(type) {
		case *ssa.Jump:
			return []blockOut{{st, b.Succs[0]}}
		case *ssa.If:
			c := x.val(st, instr.Cond)
			if cmp, ok := instr.Cond.(*ssa.BinOp); ok && x.P.inLoop(b) {
				for _, o := range []ssa.Value{cmp.X, cmp.Y} {
					if _, ok := o.(ssa.Instruction); ok {
						x.lastVal[siteVal{st.top().ctx, o}] = x.val(st, o)
					}
				}
			}
			var outs []blockOut
			t := st.truth(c)
			if t >= 0 {
				s := st
				if t == 0 {
					s = st.clone()
				}
				if s.assume(c, true) {
					if t == 0 {
						s.note(condPos(instr), "condition true")
					}
					if x.emit(s, &Event{Kind: EvBranch, Instr: instr, Fn: b.Parent(), Val: c, OK: true}) {
						outs = append(outs, blockOut{s, b.Succs[0]})
					}
				}
			}
			if t <= 0 {
				s := st
				if s.assume(c, false) {
					if t == 0 {
						s.note(condPos(instr), "condition false")
					}
					if x.emit(s, &Event{Kind: EvBranch, Instr: instr, Fn: b.Parent(), Val: c, OK: false}) {
						outs = append(outs, blockOut{s, b.Succs[1]})
					}
				}
			}
			return outs
		case *ssa.Return:
			var ret []*V
			for _, r := range instr.Results {
				ret = append(ret, x.val(st, r))
			}
			st.ret = ret
			return []blockOut{{st, nil}}
		case *ssa.Panic:
			x.emit(st, &Event{Kind: EvPanic, Instr: instr, Fn: b.Parent(), Pos: instr.Pos(), Val: x.val(st, instr.X)})
			return nil
		}
		var sts []*State
		if x.Interfere != nil {
			if acts := x.Interfere(x, st, &Event{Instr: instr, Fn: b.Parent()}); acts != nil {
				sts = append(sts, st.clone())
				for _, a := range acts {
					sts = append(sts, a(st.clone())...)
				}
			}
		}
		if sts == nil {
			sts = []*State{st}
		}
		var after []*State
		for _, s := range sts {
			after = append(after, x.step(s, instr)...)
		}
		if len(after) == 0 {
			return nil
		}
		if len(after) == 1 {
			st = after[0]
			continue
		}
		var outs []blockOut
		seen := map[string]bool{}
		for _, s := range after {
			if len(after) > 4 {
				s.gc(nil)
				k := s.key(false)
				if seen[k] {
					continue
				}
				seen[k] = true
			}
			outs = append(outs, x.block(s, b, i+1)...)
		}
		return outs
	}
	return nil
}

func condPos(i *ssa.If) token.Pos {
	if p := i.Cond.Pos(); p.IsValid() {
		return p
	}
	for _, in := range i.Block().Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

// step executes one instruction.
func (x *Exec) step(st *State, instr ssa.Instruction) []*State {
	top := st.top()
	fn := top.fn
	one := []*State{st}
	switch i := instr.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		t := mk(V{Op: OAlloc, Site: x.site(top.ctx, i), Typ: i.Type()})
		x.fresh(st, i, t)
		st.store(t, zeroOf(deref(i.Type())), 0)
		st.mem[t] = zeroOf(deref(i.Type()))
		x.define(st, i, t)
	case *ssa.BinOp:
		x.define(st, i, x.binop(st, i.Op, x.val(st, i.X), x.val(st, i.Y), i.X.Type(), i.Type()))
	case *ssa.UnOp:
		return x.unop(st, i)
	case *ssa.ChangeInterface:
		x.define(st, i, x.val(st, i.X))
	case *ssa.ChangeType:
		v := x.val(st, i.X)
		if v.Op == OFunc || v.Op == OClosure || v == vNil {
			x.define(st, i, v)
		} else {
			x.define(st, i, convTerm(v, i.Type()))
		}
	case *ssa.Convert:
		v := x.val(st, i.X)
		if n, ok := v.intConst(); ok {
			if bits, uns, ok := intBits(i.Type()); ok && fitsInt(n, bits, uns) {
				x.define(st, i, v)
				return one
			}
		}
		x.define(st, i, convTerm(v, i.Type()))
	case *ssa.MultiConvert:
		x.define(st, i, convTerm(x.val(st, i.X), i.Type()))
	case *ssa.SliceToArrayPointer:
		v := x.val(st, i.X)
		n := deref(i.Type()).Underlying().(*types.Array).Len()
		if !x.emit(st, &Event{Kind: EvSlice, Instr: i, Fn: fn, Pos: i.Pos(), X: v, Hi: vInt(n), Val: v, OK: true}) {
			return nil
		}
		x.define(st, i, convTerm(v, i.Type()))
	case *ssa.Extract:
		x.define(st, i, vExtract(x.val(st, i.Tuple), i.Index, i.Type()))
	case *ssa.Field:
		x.define(st, i, vField(x.val(st, i.X), i.X.Type(), i.Field))
	case *ssa.FieldAddr:
		x.define(st, i, vFieldAddr(x.val(st, i.X), i.X.Type(), i.Field))
	case *ssa.Index:
		a, idx := x.val(st, i.X), x.val(st, i.Index)
		if !x.emit(st, &Event{Kind: EvIndex, Instr: i, Fn: fn, Pos: i.Pos(), X: a, Lo: idx}) {
			return nil
		}
		x.define(st, i, mk(V{Op: OIndex, Args: []*V{a, idx}, Typ: i.Type()}))
	case *ssa.IndexAddr:
		a, idx := x.val(st, i.X), x.val(st, i.Index)
		if !x.emit(st, &Event{Kind: EvIndex, Instr: i, Fn: fn, Pos: i.Pos(), X: a, Lo: idx}) {
			return nil
		}
		x.define(st, i, vIndexAddr(a, idx, i.Type()))
	case *ssa.MakeInterface:
		v := x.val(st, i.X)
		x.define(st, i, mk(V{Op: OIface, Args: []*V{v}, Typ: i.X.Type()}))
	case *ssa.MakeClosure:
		var binds []*V
		for _, b := range i.Bindings {
			binds = append(binds, x.val(st, b))
		}
		x.define(st, i, mk(V{Op: OClosure, Fn: i.Fn.(*ssa.Function), Args: binds}))
	case *ssa.MakeChan:
		t := mk(V{Op: OMakeChan, Site: x.site(top.ctx, i), Args: []*V{x.val(st, i.Size)}, Typ: i.Type()})
		x.fresh(st, i, t)
		x.define(st, i, t)
	case *ssa.MakeMap:
		t := mk(V{Op: OMakeMap, Site: x.site(top.ctx, i), Typ: i.Type()})
		x.fresh(st, i, t)
		x.define(st, i, t)
	case *ssa.MakeSlice:
		l, c := x.val(st, i.Len), x.val(st, i.Cap)
		t := mk(V{Op: OMakeSlice, Site: x.site(top.ctx, i), Args: []*V{l, c}, Typ: i.Type()})
		if !x.emit(st, &Event{Kind: EvMake, Instr: i, Fn: fn, Pos: i.Pos(), Lo: l, Hi: c, Val: t, Typ: i.Type()}) {
			return nil
		}
		x.fresh(st, i, t)
		if !x.NoContent {
			st.mem[t] = mk(V{Op: OZero, Typ: i.Type()})
		}
		x.define(st, i, t)
	case *ssa.Slice:
		v := x.val(st, i.X)
		opt := func(e ssa.Value) *V {
			if e == nil {
				return nil
			}
			return x.val(st, e)
		}
		lo, hi, max := opt(i.Low), opt(i.High), opt(i.Max)
		from := lo
		if lo != nil {
			if n, ok := lo.intConst(); ok && n == 0 {
				from = nil
			}
		}
		args := []*V{v, from, hi}
		if max != nil {
			args = append(args, max)
		}
		res := mk(V{Op: OSlice, Args: args, Typ: i.Type()})
		if _, ok := i.X.Type().Underlying().(*types.Slice); ok && from == nil && hi == nil && max == nil {
			res = v
		}
		if !x.emit(st, &Event{Kind: EvSlice, Instr: i, Fn: fn, Pos: i.Pos(), X: v, Lo: lo, Hi: hi, Max: max, Val: res}) {
			return nil
		}
		x.define(st, i, res)
	case *ssa.Store:
		a, v := x.val(st, i.Addr), x.val(st, i.Val)
		if !x.emit(st, &Event{Kind: EvStore, Instr: i, Fn: fn, Pos: i.Pos(), Addr: a, Val: v}) {
			return nil
		}
		if n := 0; v.Op == OSlice { // a queue that is consumed from the front
			for w := v; w != nil && w.Op == OSlice; w = w.Args[0] {
				n++
			}
			if n > 2 {
				h := mk(V{Op: OHavoc, Args: []*V{a}, Site: x.site(top.ctx, i), Typ: v.Typ})
				st.retire(h)
				v = h
			}
		}
		st.store(a, v, x.site(top.ctx, i))
		x.copyLoop(st, i, a, v)
	case *ssa.MapUpdate:
		m, k, v := x.val(st, i.Map), x.val(st, i.Key), x.val(st, i.Value)
		if !x.emit(st, &Event{Kind: EvMapSet, Instr: i, Fn: fn, Pos: i.Pos(), Map: m, Key: k, Val: v}) {
			return nil
		}
		x.mapHavoc(st, m, k, x.site(top.ctx, i))
		cell := mapCell(m, k, i.Value.Type())
		st.store(cell, v, x.site(top.ctx, i))
		st.mem[mk(V{Op: OMapOK, Args: []*V{cell}})] = vTrue
		if m.Op != OMakeMap {
			x.share(st, v, "", 0)
		}
	case *ssa.Lookup:
		return x.lookup(st, i)
	case *ssa.Range:
		x.define(st, i, mk(V{Op: OOpaque, Str: "range", Args: []*V{x.val(st, i.X)}, Site: x.site(top.ctx, i)}))
	case *ssa.Next:
		return x.next(st, i)
	case *ssa.TypeAssert:
		return x.typeAssert(st, i)
	case *ssa.Send:
		c, v := x.val(st, i.Chan), x.val(st, i.X)
		if !x.emit(st, &Event{Kind: EvSend, Instr: i, Fn: fn, Pos: i.Pos(), Chan: c, Val: v, Block: true}) {
			return nil
		}
		x.shareSent(st, v, i.Chan.Type())
	case *ssa.Select:
		return x.selectStmt(st, i)
	case *ssa.Go:
		x.goStmt(st, i)
	case *ssa.Defer:
		d := Deferred{instr: i}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(st, a))
		}
		if i.Call.IsInvoke() {
			d.recv = x.val(st, i.Call.Value)
		} else {
			d.fn = x.val(st, i.Call.Value)
		}
		top.defers = append(top.defers, d)
	case *ssa.RunDefers:
		return x.runDefers(st)
	case *ssa.Call:
		var args []*V
		for _, a := range i.Call.Args {
			args = append(args, x.val(st, a))
		}
		return x.call(st, i, &i.Call, x.val(st, i.Call.Value), args, false)
	default:
		panic(undecided{fmt.Sprintf("instruction %T in %s", instr, fn)})
	}
	return one
}

func fitsInt(n int64, bits int, uns bool) bool {
	if uns {
		return n >= 0 && (bits >= 63 || n < int64(1)<<uint(bits))
	}
	return bits >= 64 || n >= -(int64(1)<<uint(bits-1)) && n < int64(1)<<uint(bits-1)
}

func convTerm(v *V, t types.Type) *V {
	if v == vNil {
		return v
	}
	if v.Typ != nil && types.Identical(v.Typ, t) {
		return v
	}
	if v.Op == OConst && v.Const != nil && v.Const.Kind() == constant.String {
		return mk(V{Op: OConv, Args: []*V{v}, Typ: t})
	}
	// a struct keeps its fields
	if v.Op == OStruct {
		return mk(V{Op: OStruct, Args: v.Args, Typ: t})
	}
	if v.Op == OZero {
		return zeroOf(t)
	}
	return mk(V{Op: OConv, Args: []*V{v}, Typ: t})
}

func vIndexAddr(a, idx *V, t types.Type) *V {
	// element of a whole-array slice
	for a.Op == OSlice && a.Args[1] == nil && a.Args[0].Typ != nil {
		if _, ok := deref(a.Args[0].Typ).Underlying().(*types.Array); ok || a.Args[0].Op == OSlice || true {
			a = a.Args[0]
			continue
		}
		break
	}
	return mk(V{Op: OIndexAddr, Args: []*V{a, idx}, Typ: t})
}

func mapCell(m, k *V, t types.Type) *V {
	return mk(V{Op: OMapCell, Args: []*V{m, k}, Typ: types.NewPointer(t)})
}

// mapLen is the number of entries the map has now.
func (st *State) mapLen(m *V) *V {
	if v := st.mem[vLen(m)]; v != nil {
		return v
	}
	return vLen(m)
}

// mapResized: the number of entries is not known to be the same any more.
func mapResized(st *State, m *V, site int) {
	h := mk(V{Op: OHavoc, Args: []*V{vLen(m)}, Site: site, Typ: types.Typ[types.Int]})
	if st.mem[vLen(m)] != nil {
		st.retire(h)
	}
	st.mem[vLen(m)] = h
}

func (x *Exec) mapHavoc(st *State, m, k *V, site int) {
	mapResized(st, m, site)
	for c := range st.mem {
		cell := c
		for cell != nil && (cell.Op == OFieldAddr || cell.Op == OMapOK) {
			cell = cell.Args[0]
		}
		if cell == nil || cell.Op != OMapCell || cell.Args[0] != m || cell.Args[1] == k {
			continue
		}
		if cell.Args[1].isConst() && k.isConst() {
			continue
		}
		delete(st.mem, c)
		if c.Op != OMapOK {
			st.mem[c] = mk(V{Op: OHavoc, Args: []*V{c}, Site: site, Typ: elemType(c)})
		}
	}
	for f := range st.facts {
		if f.Op == OMapOK && f.Args[0].Args[0] == m && f.Args[0].Args[1] != k {
			delete(st.facts, f)
		}
	}
}

func (x *Exec) lookup(st *State, i *ssa.Lookup) []*State {
	top := st.top()
	m, k := x.val(st, i.X), x.val(st, i.Index)
	if b := basicOf(i.X.Type()); b != nil { // string index
		if !x.emit(st, &Event{Kind: EvIndex, Instr: i, Fn: top.fn, Pos: i.Pos(), X: m, Lo: k}) {
			return nil
		}
		x.define(st, i, mk(V{Op: OIndex, Args: []*V{m, k}, Typ: i.Type()}))
		return []*State{st}
	}
	mt := i.X.Type().Underlying().(*types.Map)
	cell := mapCell(m, k, mt.Elem())
	ok := mk(V{Op: OMapOK, Args: []*V{cell}, Typ: types.Typ[types.Bool]})
	known := 0
	if v, has := st.mem[ok]; has {
		known = st.truth(v)
	} else {
		known = st.truth(ok)
	}
	nilable := false
	switch mt.Elem().Underlying().(type) {
	case *types.Chan, *types.Pointer, *types.Signature, *types.Interface, *types.Map:
		nilable = true
	}
	if !i.CommaOk && known == 0 && !nilable {
		if !x.emit(st, &Event{Kind: EvMapGet, Instr: i, Fn: top.fn, Pos: i.Pos(), Map: m, Key: k, Res: ok}) {
			return nil
		}
		x.define(st, i, st.load(cell, mt.Elem()))
		return []*State{st}
	}
	var outs []*State
	for _, t := range []bool{true, false} {
		if t && known < 0 || !t && known > 0 {
			continue
		}
		s := st.clone()
		if known == 0 {
			s.facts[ok] = t
			if t {
				s.note(i.Pos(), "entry present")
			} else {
				s.note(i.Pos(), "entry missing")
			}
		}
		v := zeroOf(mt.Elem())
		if t {
			v = s.load(cell, mt.Elem())
		}
		ev := &Event{Kind: EvMapGet, Instr: i, Fn: top.fn, Pos: i.Pos(), Map: m, Key: k, Val: v, OK: t, Res: ok}
		if !x.emit(s, ev) {
			continue
		}
		if i.CommaOk {
			b := vFalse
			if t {
				b = vTrue
			}
			x.define(s, i, mk(V{Op: OTuple, Args: []*V{v, b}}))
		} else {
			x.define(s, i, v)
		}
		outs = append(outs, s)
	}
	return outs
}

func (x *Exec) next(st *State, i *ssa.Next) []*State {
	top := st.top()
	site := x.site(top.ctx, i)
	t := mk(V{Op: OOpaque, Str: "next", Site: site, Args: []*V{x.val(st, i.Iter)}})
	x.fresh(st, i, t)
	tup := i.Type().(*types.Tuple)
	end := st.clone()
	var outs []*State
	key := vExtract(t, 1, tup.At(1).Type())
	var val *V
	rng := x.val(st, i.Iter)
	if rng.Op == OOpaque && len(rng.Args) == 1 && !i.IsString {
		cell := mapCell(rng.Args[0], key, tup.At(2).Type())
		if tup.At(2).Type() == types.Typ[types.Invalid] {
			if m, ok := typeUnder(i.Iter.(*ssa.Range).X.Type()).(*types.Map); ok {
				cell = mapCell(rng.Args[0], key, m.Elem())
			}
		}
		val = st.load(cell, elemType(cell))
		// the entry is there
		ok := mk(V{Op: OMapOK, Args: []*V{cell}, Typ: types.Typ[types.Bool]})
		if _, has := st.mem[ok]; !has {
			st.facts[ok] = true
		}
	} else {
		val = vExtract(t, 2, tup.At(2).Type())
	}
	st.note(i.Pos(), "next element")
	var m *V
	if len(rng.Args) == 1 {
		m = rng.Args[0]
	}
	if x.emit(st, &Event{Kind: EvRange, Instr: i, Fn: top.fn, Pos: i.Pos(), Map: m, Key: key, Val: val, OK: true}) {
		x.define(st, i, mk(V{Op: OTuple, Args: []*V{vTrue, key, val}}))
		outs = append(outs, st)
	}
	if x.emit(end, &Event{Kind: EvRange, Instr: i, Fn: top.fn, Pos: i.Pos(), Map: m, OK: false}) {
		x.define(end, i, mk(V{Op: OTuple, Args: []*V{vFalse, zeroOfOr(tup.At(1).Type()), zeroOfOr(tup.At(2).Type())}}))
		outs = append(outs, end)
	}
	return outs
}

func zeroOfOr(t types.Type) *V {
	if t == nil || t == types.Typ[types.Invalid] {
		return vNil
	}
	return zeroOf(t)
}

// resultType: functions that return an interface and what is always in it.
var resultType = map[string]string{
	"(github.com/oasislabs/ed25519.PrivateKey).Public": "github.com/oasislabs/ed25519.PublicKey",
	"(crypto/ed25519.PrivateKey).Public":               "crypto/ed25519.PublicKey",
}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) []*State {
	top := st.top()
	v := x.val(st, i.X)
	t := i.AssertedType
	var res *V
	known := 0
	if v.Op == OIface {
		if types.IsInterface(t) {
			if types.Implements(v.Typ, t.Underlying().(*types.Interface)) {
				known, res = 1, v
			} else {
				known = -1
			}
		} else if types.Identical(v.Typ, t) {
			known, res = 1, v.Args[0]
		} else {
			known = -1
		}
	} else if v == vNil {
		known = -1
	}
	if res == nil {
		res = mk(V{Op: OAssert, Args: []*V{v}, Typ: t})
		if types.IsInterface(t) {
			res = v
		}
	}
	is := mk(V{Op: OGhost, Str: "is " + types.TypeString(t, nil), Args: []*V{v}, Typ: types.Typ[types.Bool]})
	if known == 0 && v.Op == OCall && resultType[v.Str] == types.TypeString(t, nil) {
		known = 1
	}
	if known == 0 {
		known = st.truth(is)
	}
	if !x.emit(st, &Event{Kind: EvAssert, Instr: i, Fn: top.fn, Pos: i.Pos(), X: v, Typ: t, OK: i.CommaOk, Block: known != 1}) {
		return nil
	}
	if !i.CommaOk {
		if known < 0 {
			return nil // panics
		}
		x.define(st, i, res)
		return []*State{st}
	}
	var outs []*State
	if known >= 0 {
		s := st
		if known == 0 {
			s = st.clone()
			s.facts[is] = true
			s.facts[vIsNil(v)] = false
			s.note(i.Pos(), "is a "+types.TypeString(t, shortQual))
		}
		x.define(s, i, mk(V{Op: OTuple, Args: []*V{res, vTrue}}))
		outs = append(outs, s)
	}
	if known <= 0 {
		if known == 0 {
			st.facts[is] = false
			st.note(i.Pos(), "is not a "+types.TypeString(t, shortQual))
		}
		x.define(st, i, mk(V{Op: OTuple, Args: []*V{zeroOf(t), vFalse}}))
		outs = append(outs, st)
	}
	return outs
}

func shortQual(p *types.Package) string { return p.Name() }

func (x *Exec) binop(st *State, op token.Token, a, b *V, opTyp, resTyp types.Type) *V {
	bin := func(s string, a, b *V, t types.Type) *V { return mk(V{Op: OBin, Str: s, Args: []*V{a, b}, Typ: t}) }
	eval := func(c *V) *V {
		t := st.truth(c)
		f, ft := c, t > 0
		if f.Op == ONot {
			f, ft = f.Args[0], !ft
		}
		if t != 0 && f.Op == OBin && f.Str == "<" && (f.Args[0].Op == OLen || f.Args[1].Op == OLen) && !f.Args[0].isConst() && !f.Args[1].isConst() {
			st.facts[f] = ft // what it follows from may be lost at a join
		}
		switch t {
		case 1:
			return vTrue
		case -1:
			return vFalse
		}
		return c
	}
	switch op {
	case token.EQL, token.NEQ:
		var c *V
		switch {
		case a == vNil || b == vNil:
			if a == vNil {
				a = b
			}
			c = vIsNil(a)
		case isBoolType(opTyp) && (a == vTrue || a == vFalse || b == vTrue || b == vFalse):
			if a == vTrue || a == vFalse {
				a, b = b, a
			}
			c = a
			if b == vFalse {
				c = vNot(a)
			}
		default:
			if a.id > b.id {
				a, b = b, a
			}
			c = bin("==", a, b, types.Typ[types.Bool])
		}
		if op == token.NEQ {
			return eval(vNot(c))
		}
		return eval(c)
	case token.LSS:
		return eval(bin("<", a, b, types.Typ[types.Bool]))
	case token.GTR:
		return eval(bin("<", b, a, types.Typ[types.Bool]))
	case token.LEQ:
		return eval(vNot(bin("<", b, a, types.Typ[types.Bool])))
	case token.GEQ:
		return eval(vNot(bin("<", a, b, types.Typ[types.Bool])))
	}
	if op == token.ADD {
		if bt := basicOf(resTyp); bt != nil && bt.Info()&types.IsString != 0 {
			return mk(V{Op: OStrCat, Args: []*V{a, b}, Typ: resTyp})
		}
	}
	if a.isConst() && b.isConst() && a.Const != nil && b.Const != nil && a.Const.Kind() == constant.Int && b.Const.Kind() == constant.Int {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			r := constant.BinaryOp(a.Const, op, b.Const)
			if n, exact := constant.Int64Val(r); exact {
				if bits, uns, ok := intBits(resTyp); ok && fitsInt(n, bits, uns) {
					return vConstValue(r)
				}
			}
		}
	}
	return bin(op.String(), a, b, resTyp)
}

func isBoolType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func (x *Exec) unop(st *State, i *ssa.UnOp) []*State {
	top := st.top()
	v := x.val(st, i.X)
	switch i.Op {
	case token.MUL:
		var r *V
		if isCondL(v) {
			r = mk(V{Op: OInit, Args: []*V{v}, Typ: i.Type()})
		} else if v.Op == OIndexAddr && isByte(i.Type()) {
			r = mk(V{Op: OOpaque, Str: "byte", Args: []*V{v}, Site: x.site(top.ctx, i), Typ: i.Type()})
			x.fresh(st, i, r)
		} else {
			r = st.load(v, i.Type())
		}
		// a monitor may put a representative value in the place of the contents
		lev := &Event{Kind: EvLoad, Instr: i, Fn: top.fn, Pos: i.Pos(), Addr: v, Val: r}
		if !x.emit(st, lev) {
			return nil
		}
		x.define(st, i, lev.Val)
	case token.NOT:
		x.define(st, i, vNot(v))
	case token.ARROW:
		st.ctxDone(v)
		site := x.site(top.ctx, i)
		t := mk(V{Op: ORecv, Args: []*V{v}, Site: site, Typ: v.chanElem()})
		x.fresh(st, i, t)
		if i.CommaOk {
			closed := st.clone()
			var outs []*State
			if x.emit(st, &Event{Kind: EvRecv, Instr: i, Fn: top.fn, Pos: i.Pos(), Chan: v, Val: t, OK: true, Block: true}) {
				st.note(i.Pos(), "received a value")
				x.define(st, i, mk(V{Op: OTuple, Args: []*V{t, vTrue}}))
				outs = append(outs, st)
			}
			z := zeroOf(i.Type().(*types.Tuple).At(0).Type())
			if x.emit(closed, &Event{Kind: EvRecv, Instr: i, Fn: top.fn, Pos: i.Pos(), Chan: v, Val: z, OK: false, Block: true}) {
				closed.note(i.Pos(), "channel closed")
				x.define(closed, i, mk(V{Op: OTuple, Args: []*V{z, vFalse}}))
				outs = append(outs, closed)
			}
			return outs
		}
		if !x.emit(st, &Event{Kind: EvRecv, Instr: i, Fn: top.fn, Pos: i.Pos(), Chan: v, Val: t, OK: true, Block: true}) {
			return nil
		}
		x.define(st, i, t)
	case token.SUB:
		if n, ok := v.intConst(); ok {
			x.define(st, i, vInt(-n))
		} else {
			x.define(st, i, mk(V{Op: ONeg, Args: []*V{v}, Typ: i.Type()}))
		}
	default:
		x.define(st, i, mk(V{Op: OOpaque, Str: "un" + i.Op.String(), Args: []*V{v}, Typ: i.Type()}))
	}
	return []*State{st}
}

func (v *V) chanElem() types.Type {
	if v.Typ == nil {
		return nil
	}
	if c, ok := v.Typ.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

// isCondL: the address of the Locker of a sync.Cond, whose identity is the address itself.
func isCondL(a *V) bool {
	return a.Op == OFieldAddr && a.Str == "L" && a.Typ != nil && types.TypeString(deref(a.Typ), nil) == "sync.Locker"
}

func (x *Exec) selectStmt(st *State, i *ssa.Select) []*State {
	top := st.top()
	site := x.site(top.ctx, i)
	tup := i.Type().(*types.Tuple)
	var cases []SelCase
	for _, s := range i.States {
		c := SelCase{Chan: x.val(st, s.Chan), Send: s.Dir == types.SendOnly}
		if s.Send != nil {
			c.Val = x.val(st, s.Send)
		}
		cases = append(cases, c)
	}
	var outs []*State
	for k := -1; k < len(cases); k++ {
		if k < 0 && i.Blocking {
			continue
		}
		s := st.clone()
		res := []*V{vInt(int64(k)), nil}
		ev := &Event{Kind: EvSelect, Instr: i, Fn: top.fn, Pos: i.Pos(), Block: i.Blocking, Cases: cases, Site: site}
		recvIdx := 2
		for j, c := range cases {
			if c.Send {
				continue
			}
			t := mk(V{Op: ORecv, Args: []*V{c.Chan}, Site: x.siteSub(top.ctx, i, strconv.Itoa(j)), Typ: tup.At(recvIdx).Type()})
			if j == k {
				x.fresh(s, i, t)
				ev.Val = t
				res = append(res, t)
			} else {
				res = append(res, zeroOf(tup.At(recvIdx).Type()))
			}
			recvIdx++
		}
		if k >= 0 {
			ev.Chan = cases[k].Chan
			if cases[k].Send {
				ev.Send = true
				ev.Val = cases[k].Val
			}
			ev.Pos = i.States[k].Pos
		}
		okT := mk(V{Op: OOpaque, Str: "recvok", Site: x.siteSub(top.ctx, i, "ok"), Typ: types.Typ[types.Bool]})
		x.fresh(s, i, okT)
		res[1] = okT
		ev.Res = okT
		if k >= 0 && !cases[k].Send {
			s.ctxDone(cases[k].Chan)
		}
		s.note(ev.Pos, fmt.Sprintf("select case %d", k))
		if !x.emit(s, ev) {
			continue
		}
		if k >= 0 && cases[k].Send {
			x.shareSent(s, cases[k].Val, i.States[k].Chan.Type())
		}
		x.define(s, i, mk(V{Op: OTuple, Args: res}))
		outs = append(outs, s)
	}
	return outs
}

// share marks what is reachable from v as visible to other goroutines: published ("") or handed to a given one.
func (x *Exec) share(st *State, v *V, kind string, depth int) {
	if v == nil || depth > 4 {
		return
	}
	switch v.Op {
	case OConst, OZero, OFunc, OGlobal:
		return
	case OStruct, OTuple, OClosure, OIface, OConv:
		for _, a := range v.Args {
			x.share(st, a, kind, depth+1)
		}
		return
	case OFieldAddr, OIndexAddr:
		x.share(st, rootOf(v), kind, depth+1)
		return
	}
	k := kind
	if k == "" {
		k = "shared"
	}
	g := vGhost(k, v)
	if st.mem[g] == vTrue {
		return
	}
	st.mem[g] = vTrue
	if v.Op == OAlloc {
		if c, ok := st.mem[v]; ok {
			x.share(st, c, kind, depth+1)
		}
	}
}

func (x *Exec) shareSent(st *State, v *V, ct types.Type) {
	x.share(st, v, "", 0)
	if c, ok := ct.Underlying().(*types.Chan); ok {
		for _, g := range x.P.recvers[types.TypeString(c.Elem(), nil)] {
			x.share(st, v, "handed:"+g.String(), 0)
		}
	}
}

func (st *State) isShared(base *V) bool {
	b := base
	for {
		if st.mem[vGhost("shared", b)] == vTrue {
			return true
		}
		if b.Op == OFieldAddr || b.Op == OIndexAddr {
			b = b.Args[0]
			continue
		}
		return false
	}
}

func (x *Exec) goStmt(st *State, i *ssa.Go) {
	top := st.top()
	var args []*V
	for _, a := range i.Call.Args {
		args = append(args, x.val(st, a))
	}
	ev := &Event{Kind: EvGo, Instr: i, Fn: top.fn, Pos: i.Pos(), Args: args}
	var fnv *V
	var sfn *ssa.Function
	var binds []*V
	if i.Call.IsInvoke() {
		ev.Recv = x.val(st, i.Call.Value)
		ev.Name = i.Call.Method.FullName()
	} else {
		fnv = x.val(st, i.Call.Value)
		ev.FnVal = fnv
		switch fnv.Op {
		case OFunc:
			sfn = fnv.Fn
		case OClosure:
			sfn, binds = fnv.Fn, fnv.Args
		}
		if sfn != nil {
			ev.Sfn = sfn
			ev.Name = fullName(sfn)
		}
	}
	if !x.emit(st, ev) {
		return
	}
	base := st.clone()
	for _, a := range append(append([]*V{}, args...), binds...) {
		x.share(st, a, "", 0)
		x.share(base, a, "", 0)
		if sfn != nil {
			x.share(st, a, "handed:"+sfn.String(), 0)
		}
	}
	if sfn == nil || len(sfn.Blocks) == 0 {
		if fnv != nil && fnv.Op == OOpaque && strings.HasPrefix(fnv.Str, "builtin") {
			return
		}
		return
	}
	s := base
	s.frames = nil
	s.locks = nil
	s.ret = nil
	s.note(i.Pos(), "goroutine started")
	r := &Root{Name: "go " + sfn.String(), Fn: sfn, Args: args, Binds: binds, State: s, GoPos: i.Pos()}
	if x.Root != nil {
		r.parents = append(append([]*ssa.Function{}, x.Root.parents...), x.Root.Fn)
	}
	if x.OnGo != nil && !x.OnGo(x, st, ev, r) {
		return
	}
	if x.Coarse {
		// others may run before it
		for c, v := range s.mem {
			if c.Op == OFieldAddr && v.Op != OHavoc && rootOf(c).Op != OAlloc && s.isShared(rootOf(c)) {
				s.mem[c] = mk(V{Op: OHavoc, Args: []*V{c}, Site: -2, Typ: elemType(c)})
			}
		}
	}
	r.State.gc(append(append([]*V{}, args...), binds...))
	x.queue = append(x.queue, r)
}

func (x *Exec) runDefers(st *State) []*State {
	sts := []*State{st}
	for {
		var next []*State
		progress := false
		for _, s := range sts {
			top := s.top()
			n := len(top.defers)
			if n == 0 {
				next = append(next, s)
				continue
			}
			progress = true
			d := top.defers[n-1]
			nt := top.clone()
			nt.defers = nt.defers[:n-1]
			s.frames = append([]*Frame{}, s.frames...)
			s.frames[len(s.frames)-1] = nt
			val := d.fn
			if d.recv != nil {
				val = d.recv
			}
			next = append(next, x.call(s, d.instr, &d.instr.Call, val, d.args, true)...)
		}
		sts = next
		if !progress {
			return sts
		}
	}
}

// fullName of a function, as types.Func.FullName.
func fullName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	return fn.String()
}

// call executes a call; v is the callee value or, for an interface call, the receiver.
func (x *Exec) call(st *State, instr ssa.Instruction, common *ssa.CallCommon, v *V, args []*V, deferred bool) []*State {
	top := st.top()
	ev := &Event{Kind: EvCall, Instr: instr, Fn: top.fn, Pos: instr.Pos(), Args: args, Defer: deferred}
	if common.IsInvoke() {
		ev.Recv = v
		ev.Name = common.Method.FullName()
		u := v
		for u.Op == OConv {
			u = u.Args[0]
		}
		if u.Op == OIface && u.Typ != nil {
			if m := x.P.prog.LookupMethod(u.Typ, common.Method.Pkg(), common.Method.Name()); m != nil {
				if len(m.Blocks) > 0 && x.P.inModule(m) {
					return x.inline(st, instr, m, append([]*V{u.Args[0]}, args...), nil, ev)
				}
				ev.Name = fullName(m)
				ev.Recv = u.Args[0]
			}
		}
		return x.external(st, instr, common, ev)
	}
	if b, ok := common.Value.(*ssa.Builtin); ok {
		return x.builtin(st, instr, common, b.Name(), args)
	}
	var fn *ssa.Function
	var binds []*V
	switch v.Op {
	case OFunc:
		fn = v.Fn
	case OClosure:
		fn, binds = v.Fn, v.Args
	}
	if fn == nil {
		ev.FnVal = v
		return x.external(st, instr, common, ev)
	}
	ev.Sfn = fn
	ev.Name = fullName(fn)
	if fn.Signature.Recv() != nil && len(args) > 0 && fn.Parent() == nil && len(fn.FreeVars) == 0 {
		if !strings.HasSuffix(fn.Name(), "$thunk") {
			ev.Recv = args[0]
			ev.Args = args[1:]
		}
	}
	if len(fn.Blocks) > 0 && (x.P.inModule(fn) || fn.Synthetic != "" && !isExternalWrapper(x, fn)) {
		if ev.Recv != nil {
			return x.inline(st, instr, fn, args, binds, ev)
		}
		return x.inline(st, instr, fn, args, binds, ev)
	}
	return x.external(st, instr, common, ev)
}

func isExternalWrapper(x *Exec, fn *ssa.Function) bool { return false }

func (x *Exec) inline(st *State, instr ssa.Instruction, fn *ssa.Function, args, binds []*V, ev *Event) []*State {
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	ev.Sfn = fn
	if n >= 2 || x.Skip != nil && x.Skip(fn) {
		var common *ssa.CallCommon
		if ci, ok := instr.(ssa.CallInstruction); ok {
			common = ci.Common()
		}
		ev.Name = fullName(fn)
		return x.external(st, instr, common, ev)
	}
	top := st.top()
	ctx := x.site(top.ctx, instr)
	if binds != nil || fn.Parent() != nil {
		ctx = x.siteSub(top.ctx, instr, fn.String())
	}
	ev.Kind = EvEnter
	if !x.emit(st, ev) {
		return nil
	}
	st.note(instr.Pos(), "call "+fn.Name())
	outs := x.callFn(st, fn, args, binds, instr, ctx)
	var res []*State
	for _, s := range outs {
		ret := s.ret
		s.ret = nil
		var r *V
		switch {
		case len(ret) == 1:
			r = ret[0]
		case len(ret) > 1:
			r = mk(V{Op: OTuple, Args: ret})
		}
		lv := *ev
		lv.Kind = EvLeave
		lv.Kill = false
		lv.Res = r
		if !x.emit(s, &lv) {
			continue
		}
		if r != nil {
			if _, ok := instr.(*ssa.Call); ok {
				x.define(s, instr, r)
			}
		}
		res = append(res, s)
	}
	return res
}

func (x *Exec) builtin(st *State, instr ssa.Instruction, common *ssa.CallCommon, name string, args []*V) []*State {
	top := st.top()
	one := []*State{st}
	site := x.site(top.ctx, instr)
	switch name {
	case "len", "cap":
		if _, ok := common.Args[0].Type().Underlying().(*types.Chan); ok && name == "len" { // others send and receive meanwhile
			t := mk(V{Op: OCall, Str: "len of channel", Args: []*V{args[0]}, Site: x.site(top.ctx, instr), Typ: types.Typ[types.Int]})
			x.fresh(st, instr, t)
			x.define(st, instr, t)
			return one
		}
		l := lenOf(args[0])
		if name == "cap" {
			l = capOf(args[0])
		}
		if len(l.m) == 0 {
			x.define(st, instr, vInt(l.c))
			return one
		}
		if name == "cap" {
			x.define(st, instr, vCap(args[0]))
			return one
		}
		if _, ok := common.Args[0].Type().Underlying().(*types.Map); ok {
			x.define(st, instr, st.mapLen(args[0]))
			return one
		}
		x.define(st, instr, vLen(args[0]))
	case "append":
		y := vNil
		if len(args) > 1 {
			y = args[1]
		}
		// what the two parts consist of
		var deps, ydeps, bdeps []*V
		if c := labelled(st.bytesOf(y)); c != nil {
			ydeps = append(ydeps, c)
		}
		// append of listed elements: keep the elements
		if y.Op == OSlice && y.Args[0].Op == OAlloc {
			if arr, ok := deref(y.Args[0].Typ).Underlying().(*types.Array); ok && arr.Len() <= 8 {
				for k := int64(0); k < arr.Len(); k++ {
					ydeps = append(ydeps, st.load(vIndexAddr(y.Args[0], vInt(k), types.NewPointer(arr.Elem())), arr.Elem()))
				}
			}
		}
		base := args[0]
		bytes := isBytes(common.Args[0].Type())
		if !bytes && base.Op == OSlice && !noContent && st.entailsEq(lenOf(base), newLin(0)) {
			base = vNil // nothing of it is kept
		}
		if c := labelled(st.bytesOf(base)); c != nil {
			bdeps = append(bdeps, c)
		}
		if len(ydeps)+len(bdeps) > 0 {
			deps = []*V{mk(V{Op: OTuple, Args: ydeps}), mk(V{Op: OTuple, Args: bdeps})}
		}
		res := mk(V{Op: OAppend, Args: []*V{base, y}, Deps: deps, Typ: common.Args[0].Type(), Site: site})
		if walkFind(base, func(v *V) bool { return v.Op == OAppend && v.Site == site }) {
			inner := base
			for inner.Op != OWiden && inner.Op != OAppend {
				if len(inner.Args) == 0 {
					break
				}
				inner = inner.Args[0]
			}
			if inner.Op == OWiden {
				res = inner
			} else {
				res = mk(V{Op: OWiden, Args: []*V{inner}, Site: site, Typ: common.Args[0].Type()})
			}
		}
		total := lenOf(base).add(lenOf(y), 1)
		for f := range st.facts {
			if contains(f, res) {
				delete(st.facts, f)
			}
		}
		if res.Op == OWiden {
			// how long it is now
			if v := total.term(); v != nil && !contains(v, res) {
				st.facts[mk(V{Op: OBin, Str: "<", Args: []*V{vLen(res), v}, Typ: types.Typ[types.Bool]})] = false
				st.facts[mk(V{Op: OBin, Str: "<", Args: []*V{v, vLen(res)}, Typ: types.Typ[types.Bool]})] = false
			}
		}
		if nb, ny := lenOf(base), lenOf(y); !bytes && !noContent && res.Op == OAppend && len(nb.m)+len(ny.m) == 0 && nb.c+ny.c > 0 && nb.c+ny.c <= 4 {
			// few elements: keep each
			et := common.Args[0].Type().Underlying().(*types.Slice).Elem()
			pt := types.NewPointer(et)
			for i := int64(0); i < nb.c+ny.c; i++ {
				src := vIndexAddr(base, vInt(i), pt)
				if i >= nb.c {
					src = vIndexAddr(y, vInt(i-nb.c), pt)
				}
				st.store(vIndexAddr(res, vInt(i), pt), st.load(src, et), site)
			}
		}
		if !x.emit(st, &Event{Kind: EvAppend, Instr: instr, Fn: top.fn, Pos: instr.Pos(), X: args[0], Lo: y, Val: res}) {
			return nil
		}
		if isBytes(common.Args[0].Type()) && !noContent && !freshBase(base) && res.Op == OAppend {
			// the bytes appended lie behind those of the slice
			if b := backing(base); b != nil {
				src := mk(V{Op: OOpaque, Str: "bytes", Args: append([]*V{mk(V{Op: OGhost, Str: "of", Args: []*V{y}})}, ydeps...)})
				if l := st.laid(y); l != nil {
					src = l
				}
				st.patch(b, mk(V{Op: OSlice, Args: []*V{res, vLen(base), nil}, Typ: res.Typ}), src, site)
			}
		}
		if isBytes(common.Args[0].Type()) && freshBase(base) && res.Op == OAppend {
			if l := st.laid(y); l != nil {
				st.patch(res, mk(V{Op: OSlice, Args: []*V{res, nil, nil}, Typ: res.Typ}), l, site)
			}
		}
		x.define(st, instr, res)
	case "copy":
		src := args[1]
		if !x.emit(st, &Event{Kind: EvCopy, Instr: instr, Fn: top.fn, Pos: instr.Pos(), X: args[0], Val: src}) {
			return nil
		}
		v := src
		if c := st.bytesOf(src); c != nil {
			v = c
			if c.Op != OOpaque || c.Str != "bytes" {
				v = mk(V{Op: OOpaque, Str: "bytes", Args: []*V{src, c}})
			}
		}
		if l := st.laid(src); l != nil {
			v = l
		}
		if b := backing(args[0]); b != nil {
			for c := range st.mem {
				if c != b && isDescendant(c, b) {
					delete(st.mem, c)
				}
			}
			st.patch(b, args[0], v, site)
		}
		copied := mk(V{Op: OOpaque, Str: "copied", Args: []*V{vLen(args[0]), vLen(args[1])}, Site: site, Typ: types.Typ[types.Int]})
		switch to, from := lenOf(args[0]), lenOf(args[1]); {
		case st.ge(from, to):
			copied = to.full()
		case st.ge(to, from):
			copied = from.full()
		}
		x.define(st, instr, copied)
	case "delete":
		m, k := args[0], args[1]
		if !x.emit(st, &Event{Kind: EvMapDel, Instr: instr, Fn: top.fn, Pos: instr.Pos(), Map: m, Key: k}) {
			return nil
		}
		mt := common.Args[0].Type().Underlying().(*types.Map)
		x.mapHavoc(st, m, k, site)
		cell := mapCell(m, k, mt.Elem())
		st.store(cell, zeroOf(mt.Elem()), site)
		st.mem[mk(V{Op: OMapOK, Args: []*V{cell}})] = vFalse
	case "close":
		if !x.emit(st, &Event{Kind: EvClose, Instr: instr, Fn: top.fn, Pos: instr.Pos(), Chan: args[0]}) {
			return nil
		}
	case "panic":
		x.emit(st, &Event{Kind: EvPanic, Instr: instr, Fn: top.fn, Pos: instr.Pos(), Val: args[0]})
		return nil
	case "clear":
		if _, ok := common.Args[0].Type().Underlying().(*types.Map); ok {
			if !x.emit(st, &Event{Kind: EvMapDel, Instr: instr, Fn: top.fn, Pos: instr.Pos(), Map: args[0]}) {
				return nil
			}
			x.mapHavoc(st, args[0], nil, site)
		}
	case "min", "max":
		x.define(st, instr, mk(V{Op: OOpaque, Str: name, Args: args, Site: site, Typ: instr.(ssa.Value).Type()}))
	case "recover", "print", "println", "ssa:wrapnilchk":
		if name == "ssa:wrapnilchk" {
			x.define(st, instr, args[0])
		} else if v, ok := instr.(ssa.Value); ok {
			x.define(st, instr, mk(V{Op: OOpaque, Str: name, Site: site, Typ: v.Type()}))
		}
	default:
		if v, ok := instr.(ssa.Value); ok {
			x.define(st, instr, mk(V{Op: OOpaque, Str: name, Args: args, Site: site, Typ: v.Type()}))
		}
	}
	return one
}

// external executes a call that is not inlined.
func (x *Exec) external(st *State, instr ssa.Instruction, common *ssa.CallCommon, ev *Event) []*State {
	top := st.top()
	site := x.site(top.ctx, instr)
	ev.Site = site
	name := ev.Name

	// arguments: expand variadic literals, add the contents of slices and arrays
	args := append([]*V{}, ev.Args...)
	var deps []*V
	for i, a := range args {
		u := unconv(a)
		if u != nil && u.Op == OSlice && u.Args[0].Op == OAlloc {
			if arr, ok := deref(u.Args[0].Typ).Underlying().(*types.Array); ok && arr.Len() <= 16 && !isByte(arr.Elem()) {
				var el []*V
				for k := int64(0); k < arr.Len(); k++ {
					e := st.load(vIndexAddr(u.Args[0], vInt(k), types.NewPointer(arr.Elem())), arr.Elem())
					el = append(el, e)
					if c := labelled(st.bytesOf(e)); c != nil {
						deps = append(deps, c)
					}
				}
				args[i] = mk(V{Op: OTuple, Args: el})
				continue
			}
		}
		if outArg(name) == i {
			continue
		}
		if c := labelled(st.bytesOf(a)); c != nil {
			deps = append(deps, c)
		}
	}
	ev.Args = args

	switch name {
	case "(*sync.Once).Do":
		return x.onceDo(st, instr, ev)
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock", "(*sync.RWMutex).RLock":
		write := name != "(*sync.RWMutex).RLock"
		ev.Kind = EvLock
		ev.Addr = ev.Recv
		ev.OK = write
		if !x.emit(st, ev) {
			return nil
		}
		st.locks = append(st.locks, Held{ev.Recv, write})
		x.havocOnAcquire(st, ev.Recv, site)
		return []*State{st}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock", "(*sync.RWMutex).RUnlock":
		ev.Kind = EvUnlock
		ev.Addr = ev.Recv
		ev.OK = name != "(*sync.RWMutex).RUnlock"
		if !x.emit(st, ev) {
			return nil
		}
		x.dropMapCells(st, ev.Recv, site)
		for i := len(st.locks) - 1; i >= 0; i-- {
			if st.locks[i].addr == ev.Recv && st.locks[i].write == ev.OK {
				st.locks = append(append([]Held{}, st.locks[:i]...), st.locks[i+1:]...)
				break
			}
		}
		return []*State{st}
	}

	var typ types.Type
	if v, ok := instr.(*ssa.Call); ok {
		typ = v.Type()
	} else if common != nil {
		typ = common.Signature().Results()
		if t := typ.(*types.Tuple); t.Len() == 1 {
			typ = t.At(0).Type()
		}
	}
	targs := args
	if ev.Recv != nil {
		targs = append([]*V{ev.Recv}, args...)
		if isStateful(ev.Recv) {
			if c := st.mem[vGhost("ext", ev.Recv)]; c != nil {
				deps = append(deps, c)
			}
		}
	}
	if ev.FnVal != nil {
		targs = append([]*V{ev.FnVal}, args...)
	}
	for i, a := range targs {
		if a == nil {
			targs[i] = vNil
		}
	}
	if len(deps) > 6 {
		deps = deps[:6]
	}
	// a call of the same site among the contents its result depends on would grow for ever
	deps = pruneDeps(deps, site)
	if walkFind(mk(V{Op: OTuple, Args: targs}), func(v *V) bool { return v.Op == OCall && v.Site == site }) {
		na := make([]*V, len(targs))
		for i, a := range targs {
			na[i] = a
			if walkFind(a, func(v *V) bool { return v.Op == OCall && v.Site == site }) {
				na[i] = mk(V{Op: OOpaque, Str: "earlier", Site: site, Idx: i, Typ: a.Typ})
			}
		}
		targs = na
	}
	if errorCalls[name] {
		targs, deps = nil, nil
	}
	res := mk(V{Op: OCall, Str: name, Site: site, Args: targs, Deps: deps, Typ: typ, Instr: instr})
	if constantCall[name] {
		res = mk(V{Op: OCall, Str: name, Args: targs, Typ: typ})
	} else {
		x.fresh(st, instr, res)
	}
	ev.Res = res
	plain := res
	if name == "(context.Context).Err" && st.facts[vGhost("ctxdone", ev.Recv)] {
		st.facts[vIsNil(res)] = false
	}
	if !x.emit(st, ev) {
		return nil
	}
	if ev.Res != plain && ev.Res != nil { // a rule knows better
		res = ev.Res
	}
	if name == "(*sync.Cond).Wait" {
		// releases and reacquires the lock
		for _, h := range st.locks {
			x.havocOnAcquire(st, h.addr, site)
		}
	}
	x.externalEffects(st, ev, res, site)
	if name == "(crypto/cipher.AEAD).Seal" && !noContent && len(args) > 0 && unconv(args[0]) != vNil {
		// what is sealed is appended to the destination
		dst := args[0]
		if !st.ge(newLin(0), lenOf(dst)) && !walkFind(dst, func(v *V) bool { return v.Op == OAppend && v.Site == site }) {
			var d []*V
			if c := labelled(st.bytesOf(dst)); c != nil {
				d = append(d, c)
			}
			sealed := res
			res = mk(V{Op: OAppend, Args: []*V{dst, res}, Deps: []*V{mk(V{Op: OTuple, Args: []*V{res}}), mk(V{Op: OTuple, Args: d})}, Typ: typ, Site: site})
			if b := backing(dst); b != nil && wantLayout && !freshBase(dst) {
				st.patch(b, mk(V{Op: OSlice, Args: []*V{res, vLen(dst), nil}, Typ: typ}), sealed, site)
			}
		}
	}
	if _, ok := instr.(*ssa.Call); ok {
		x.define(st, instr, res)
	}
	return []*State{st}
}

// constantCall: methods that give the same result every time they are called on the same object.
var constantCall = map[string]bool{"(net.Conn).RemoteAddr": true, "(net.Conn).LocalAddr": true, "(net.Addr).String": true, "(crypto/cipher.AEAD).NonceSize": true, "(crypto/cipher.AEAD).Overhead": true}

// ctxDone: the channel a receive succeeded on may be that of a context, which has an error from then on.
func (st *State) ctxDone(ch *V) {
	if ch = unconv(ch); ch != nil && ch.Op == OCall && ch.Str == "(context.Context).Done" && len(ch.Args) > 0 {
		st.facts[vGhost("ctxdone", ch.Args[0])] = true
	}
}

// errorCalls: their results are only ever used as errors.
var errorCalls = map[string]bool{"errors.New": true, "fmt.Errorf": true}

func pruneDeps(deps []*V, site int) []*V {
	var out []*V
	for _, d := range deps {
		if d.depth > 30 {
			continue
		}
		if walkFind(d, func(v *V) bool { return v.Op == OCall && v.Site == site }) {
			continue
		}
		out = append(out, d)
	}
	return out
}

func isByte(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Kind() == types.Uint8
}

// outArg is the index of the slice argument a function fills, or -1.
func outArg(name string) int {
	switch name {
	case "io.ReadFull", "io.ReadAtLeast":
		return 1
	case "crypto/rand.Read", "math/rand.Read", "(io.Reader).Read", "(*bufio.Reader).Read", "(net.Conn).Read", "(*math/rand.Rand).Read":
		return 0
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64",
		"(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		return 0
	}
	return -1
}

func isStateful(v *V) bool {
	v = unold(v)
	if v.Typ == nil {
		return false
	}
	switch types.TypeString(v.Typ, nil) {
	case "hash.Hash", "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return false
}

func (x *Exec) externalEffects(st *State, ev *Event, res *V, site int) {
	if i := outArg(ev.Name); i >= 0 && i < len(ev.Args) {
		dst := ev.Args[i]
		src := res
		if strings.Contains(ev.Name, ".PutUint") {
			src = ev.Args[1]
			if n, _ := strconv.Atoi(ev.Name[strings.LastIndex(ev.Name, "PutUint")+7:]); n > 0 {
				dst = mk(V{Op: OSlice, Args: []*V{dst, nil, vInt(int64(n / 8))}, Typ: dst.Typ})
				if wantLayout && strings.Contains(ev.Name, "littleEndian") {
					src = mk(V{Op: OOpaque, Str: "little endian", Args: []*V{src}, Typ: src.Typ})
				}
			}
		}
		if b := backing(dst); b != nil {
			for c := range st.mem {
				if c != b && isDescendant(c, b) {
					delete(st.mem, c)
				}
			}
			st.patch(b, dst, src, site)
		}
		return
	}
	if ev.Recv != nil && isStateful(ev.Recv) && len(ev.Args) > 0 {
		g := vGhost("ext", ev.Recv)
		prev := st.mem[g]
		if prev == nil {
			prev = vNil
		}
		prev = dropPatch(prev, site)
		st.mem[g] = mk(V{Op: OPatch, Args: []*V{prev, vNil, res}, Site: site})
	}
	// pointers to local variables handed out
	for _, a := range ev.Args {
		u := unconv(a)
		if u == nil || u.Op != OAlloc {
			continue
		}
		switch deref(u.Typ).Underlying().(type) {
		case *types.Struct, *types.Array:
			continue
		}
		st.mem[u] = mk(V{Op: OHavoc, Args: []*V{u}, Site: site, Typ: deref(u.Typ)})
	}
	if (ev.Name == "(crypto/cipher.AEAD).Seal" || ev.Name == "(crypto/cipher.AEAD).Open") && len(ev.Args) > 0 {
		if b := backing(ev.Args[0]); b != nil && b != vNil {
			dst := unconv(ev.Args[0])
			if dst.Op == OSlice && len(dst.Args) > 2 && dst.Args[2] != nil {
				dst = mk(V{Op: OSlice, Args: []*V{dst.Args[0], dst.Args[2], nil}, Typ: dst.Typ})
			} else {
				dst = vNil
			}
			st.patch(b, dst, res, site)
		}
	}
}

// onceDo runs f the first time on this path.
func (x *Exec) onceDo(st *State, instr ssa.Instruction, ev *Event) []*State {
	done := vGhost("once", ev.Recv)
	if st.mem[done] == vTrue {
		return []*State{st}
	}
	ev.Kind = EvCall
	if !x.emit(st, ev) {
		return nil
	}
	f := ev.Args[0]
	var fn *ssa.Function
	var binds []*V
	switch f.Op {
	case OFunc:
		fn = f.Fn
	case OClosure:
		fn, binds = f.Fn, f.Args
	}
	st.mem[done] = vTrue
	if fn == nil || len(fn.Blocks) == 0 {
		return []*State{st}
	}
	e2 := &Event{Kind: EvEnter, Instr: instr, Fn: st.top().fn, Pos: instr.Pos(), Sfn: fn, Name: fullName(fn)}
	return x.inline(st, instr, fn, nil, binds, e2)
}

// dropMapCells: the entries of a map are known while its lock is held only.
func (x *Exec) dropMapCells(st *State, lock *V, site int) {
	base, fields := x.P.guardedBy(lock)
	if base == nil {
		return
	}
	for _, f := range fields {
		if _, ok := f.v.Type().Underlying().(*types.Map); !ok {
			continue
		}
		m := st.mem[vFieldAddr(base, f.owner, f.idx)]
		if m == nil {
			continue
		}
		mapResized(st, m, site)
		for c := range st.mem {
			r := c
			for r.Op == OMapOK || r.Op == OFieldAddr {
				r = r.Args[0]
			}
			if r.Op == OMapCell && r.Args[0] == m {
				delete(st.mem, c)
			}
		}
		for c := range st.facts {
			if c.Op == OMapOK && c.Args[0].Args[0] == m {
				delete(st.facts, c)
			}
		}
	}
}

// havocOnAcquire forgets the fields other goroutines may have changed while the lock at addr was free.
func (x *Exec) havocOnAcquire(st *State, lock *V, site int) {
	base, fields := x.P.guardedBy(lock)
	if base == nil {
		return
	}
	for _, f := range fields {
		if !x.P.othersStore(x, st, base, f) {
			continue
		}
		a := vFieldAddr(base, f.owner, f.idx)
		cur := st.load(a, f.v.Type())
		if f.monotone {
			if isBoolType(f.v.Type()) && cur == vTrue {
				continue
			}
			if st.nilness(cur) < 0 && !isBoolType(f.v.Type()) {
				continue
			}
		}
		h := mk(V{Op: OHavoc, Args: []*V{a}, Site: site, Typ: f.v.Type()})
		for k := range st.facts {
			if contains(k, h) {
				delete(st.facts, k)
			}
		}
		// map entries and elements behind the old value are forgotten with it
		for c := range st.mem {
			if c != a && (isDescendant(c, a)) {
				delete(st.mem, c)
			}
			if (c.Op == OMapCell || c.Op == OMapOK) && contains(c, cur) && cur.Op != OMakeMap {
				delete(st.mem, c)
			}
		}
		if cur != h {
			st.retire(h)
		}
		st.mem[a] = h
	}
}

// Stack renders the calls leading to the current point.
func (x *Exec) Stack(st *State, pos token.Pos) []string {
	var out []string
	for i, f := range st.frames {
		p := ""
		if i+1 < len(st.frames) && st.frames[i+1].call != nil {
			p = x.P.pos(st.frames[i+1].call.Pos())
		} else if i == len(st.frames)-1 {
			p = x.P.pos(pos)
		}
		out = append(out, fmt.Sprintf("%s (%s)", f.fn.String(), p))
	}
	return out
}

// Path renders the decisions that lead to the state.
func (x *Exec) Path(st *State) []string {
	var out []string
	for t := st.trace; t != nil && len(out) < 60; t = t.prev {
		out = append(out, x.P.pos(t.pos)+": "+t.note)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
