package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about locks.

func init() {
	register("C24", c24)
	register("C25", c25)
}

// sharedField finds the field, of a structure that has a lock, in which v is kept or from which it was read.
func (c *Check) sharedField(st *State, v *V) (base *V, f *fref) {
	cut := func(a *V) (*V, *fref) {
		for a != nil && (a.Op == OFieldAddr || a.Op == OIndexAddr) {
			if a.Op == OFieldAddr {
				b, path := addrRef(a)
				if len(path) > 0 && b.Typ != nil && c.hasLock(b.Typ) {
					t := deref(b.Typ)
					return b, &fref{typ: t, path: path[:1]}
				}
			}
			a = a.Args[0]
		}
		return nil, nil
	}
	if v == nil {
		return nil, nil
	}
	got := walkGet(v, func(u *V) bool {
		if u.Op != OInit && u.Op != OHavoc || len(u.Args) == 0 {
			return false
		}
		b, _ := cut(u.Args[0])
		return b != nil
	})
	if got != nil {
		return cut(got.Args[0])
	}
	for a, w := range st.mem {
		if w == v && a.Op == OFieldAddr {
			if b, f := cut(a); b != nil {
				return b, f
			}
		}
	}
	return nil, nil
}

// hasLock: the structure has a lock among its fields.
func (c *Check) hasLock(t types.Type) bool {
	s := structOf(deref(t))
	if s == nil || typeName(deref(t)) == "" {
		return false
	}
	if n, ok := deref(t).(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	var rec func(s *types.Struct) bool
	rec = func(s *types.Struct) bool {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isMutexType(ft) || typeName(ft) == "sync.Cond" {
				return true
			}
			if in, ok := ft.(*types.Struct); ok && rec(in) {
				return true
			}
		}
		return false
	}
	return rec(s)
}

// heldOn are the locks of object base held: role -> exclusively.
func (c *Check) heldOn(st *State, base *V) map[string]bool {
	out := map[string]bool{}
	for _, h := range st.locks {
		a := h.addr
		if i := initOf(a); i != nil {
			a = i
		}
		b, path := addrRef(a)
		if len(path) > 0 && b == base {
			r := c.lockRole(h.addr)
			out[r] = out[r] || h.write
		}
	}
	return out
}

type access struct {
	pos     token.Pos
	fn      string
	write   bool
	content bool
	locks   map[string]bool // nil until seen once
	stack   []string
	x       *Exec
	st      *State
}

// concurrently: the world in which every exported function and every goroutine runs.
func (c *Check) everything(mons ...MonitorFunc) {
	c.connWorld(true, mons...)
	c.run(World{Name: "the interface", Fns: c.P.exported(""), Mons: mons, NoContent: true, Coarse: true, OnGo: func(*Exec, *State, *Event, *Root) bool { return false }})
	c.subWorld("kademlia", true, mons...)
	c.subWorld("gossip", true, mons...)
}

func c24(c *Check) {
	c.rule("consistent", 8, "what is protected by a lock of its object is read and written only while that lock is held, and written only while it is held exclusively")
	c.rule("shared-tables", 4, "a table or list that is changed while others may use it is only used under a lock of the object it belongs to")
	acc := map[string]map[token.Pos]*access{}
	add := func(x *Exec, st *State, ev *Event, base *V, f *fref, write, content bool) {
		if base == nil || f == nil || isMutexType(f.ftype()) {
			return
		}
		switch typeName(f.ftype()) {
		case "sync.Cond", "sync.Once", "sync.WaitGroup":
			return
		}
		if !published(st, base, 0) {
			return // not published yet
		}
		k := f.String()
		if acc[k] == nil {
			acc[k] = map[token.Pos]*access{}
		}
		p := ev.Pos
		if !p.IsValid() {
			p = ev.Instr.Pos()
		}
		if content {
			p = -p
		}
		a := acc[k][p]
		held := c.heldOn(st, base)
		if a == nil {
			a = &access{pos: ev.Pos, fn: fnName(ev.Fn), write: write, content: content, locks: held, x: x, st: st.clone(), stack: x.Stack(st, ev.Pos)}
			acc[k][p] = a
			return
		}
		a.write = a.write || write
		for r, w := range a.locks {
			hw, ok := held[r]
			if !ok {
				delete(a.locks, r)
				a.x, a.st, a.stack = x, st.clone(), x.Stack(st, ev.Pos)
			} else if w && !hw {
				a.locks[r] = false
			}
		}
	}
	mon := func(x *Exec, st *State, ev *Event) {
		priv := func(m *V) string { return "private " + fmt.Sprint(m.id) }
		private := func(m *V) bool {
			return m == nil || m.Op == OMakeMap && len(x.Root.parents) == 0 && !st.flag("started") || st.flag(priv(m))
		}
		switch ev.Kind {
		case EvGo:
			st.setFlag("started", true)
		case EvLoad, EvStore:
			b, path := addrRef(ev.Addr)
			if len(path) == 0 || b.Typ == nil || !c.hasLock(b.Typ) {
				return
			}
			f := &fref{typ: deref(b.Typ), path: path}
			if len(path) > 1 && !isMutexType(f.ftype()) {
				f.path = path[:1]
				if s := structOf(f.ftype()); s == nil {
					return
				}
			}
			if ev.Kind == EvStore && ev.Val != nil && ev.Val.Op == OMakeMap && len(x.Root.parents) == 0 && x.Root.Fn.Signature.Recv() != nil && len(x.Root.Args) > 0 && x.Root.Args[0] == b && !st.flag("started") {
				return // the receiver is being set up
			}
			if ev.Kind == EvLoad && ev.Val != nil && ev.Val.Op == OMakeMap && private(ev.Val) {
				return
			}
			if ev.Kind == EvStore && len(c.heldOn(st, b)) > 0 {
				if _, ok := f.ftype().Underlying().(*types.Map); ok { // what was in the field is taken out of it
					if old := st.load(ev.Addr, f.ftype()); old != nil && old != ev.Val {
						st.setFlag(priv(old), true)
					}
				}
			}
			add(x, st, ev, b, f, ev.Kind == EvStore, false)
		case EvMapGet, EvMapSet, EvMapDel, EvRange:
			if private(ev.Map) {
				return
			}
			b, f := c.sharedField(st, ev.Map)
			if f != nil {
				if _, ok := f.ftype().Underlying().(*types.Map); ok {
					add(x, st, ev, b, f, ev.Kind == EvMapSet || ev.Kind == EvMapDel, true)
				}
			}
		case EvCall:
			if strings.HasPrefix(ev.Name, "(*container/list.") && ev.Recv != nil {
				b, f := c.sharedField(st, ev.Recv)
				w := strings.Contains(ev.Name, "Push") || strings.Contains(ev.Name, "Move") || strings.Contains(ev.Name, "Remove") || strings.Contains(ev.Name, "Insert") || strings.HasSuffix(ev.Name, "Init")
				add(x, st, ev, b, f, w, true)
			}
		}
	}
	c.everything(mon)
	c.judge(acc)
}

// published: others may reach the object.
func published(st *State, base *V, depth int) bool {
	if base.Op != OAlloc || st.isShared(base) {
		return true
	}
	if depth > 4 {
		return true
	}
	for a, w := range st.mem {
		if w == base && (a.Op == OFieldAddr || a.Op == OIndexAddr || a.Op == OAlloc) {
			if r := rootOf(a); r != base && (r.Op != OAlloc || structOf(deref(r.Typ)) != nil) && published(st, r, depth+1) {
				return true
			}
		}
	}
	return false
}

func (c *Check) judge(acc map[string]map[token.Pos]*access) {
	for _, k := range sortedKeys(acc) {
		var l []*access
		for _, a := range acc[k] {
			l = append(l, a)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].pos < l[j].pos })
		n, writes := map[string]int{}, 0
		cw := false
		for _, a := range l {
			for r := range a.locks {
				n[r]++
			}
			if a.write {
				writes++
				cw = cw || a.content
			}
		}
		guard := ""
		for r, m := range n {
			if guard == "" || m > n[guard] || m == n[guard] && r < guard {
				guard = r
			}
		}
		if dbgOn {
			for _, a := range l {
				fmt.Println("access", k, c.P.pos(a.pos), a.fn, "write", a.write, "content", a.content, a.locks)
			}
		}
		if writes == 0 {
			continue
		}
		if guard != "" && 2*n[guard] >= len(l) {
			for _, a := range l {
				w, ok := a.locks[guard]
				what := "used"
				if a.write {
					what = "changed"
				}
				c.check(ok && (w || !a.write), "consistent", k, a.x, a.st, a.pos, "%s is %s in %s without holding %s%s, which protects it", k, what, a.fn, guard, map[bool]string{true: " exclusively", false: ""}[ok])
			}
		}
		if cw {
			for _, a := range l {
				if a.content {
					c.check(len(a.locks) > 0, "shared-tables", k, a.x, a.st, a.pos, "%s, which others may change, is used in %s without a lock", k, a.fn)
				}
			}
		}
	}
}

// waitsFor: the event may wait for another goroutine, for the network, or for time to pass.
func waitsFor(ev *Event) string {
	switch ev.Kind {
	case EvSend:
		return "sends on a channel"
	case EvRecv:
		return "receives from a channel"
	case EvSelect:
		if ev.Block {
			return "waits in a select"
		}
	case EvCall:
		switch {
		case netRead(ev.Name), netWrite(ev.Name), isDial(ev.Name), strings.HasSuffix(ev.Name, "Listener).Accept"), ev.Name == "net.Listen":
			return "waits for the network"
		case ev.Name == "(*sync.WaitGroup).Wait", ev.Name == "time.Sleep":
			return "waits"
		case strings.HasPrefix(ev.Name, "net.Lookup"), strings.HasPrefix(ev.Name, "net.Resolve"), strings.HasPrefix(ev.Name, "(*net.Resolver)"):
			return "waits for the resolver"
		}
	}
	return ""
}

func c25(c *Check) {
	A := c.A
	c.rule("no-wait", 6, "nothing waits for another goroutine, for the network or for time to pass while it holds a lock")
	c.rule("no-callback", 6, "no function of the user is called while a lock is held exclusively")
	c.rule("released", 6, "no function returns with a lock held, and no goroutine ends with one")
	c.rule("not-twice", 6, "no lock is taken by a goroutine that holds it, none is released that is not held")
	c.rule("order", 1, "locks are taken in an order that has no cycle")
	edges := map[string]map[string]*access{}
	acquired := map[*ssa.Function]map[string]bool{}
	type later struct {
		held string
		fn   *ssa.Function
		a    *access
	}
	var calls []later
	edge := func(a, b string, x *Exec, st *State, ev *Event) {
		if edges[a] == nil {
			edges[a] = map[string]*access{}
		}
		if edges[a][b] == nil {
			edges[a][b] = &access{pos: ev.Pos, fn: fnName(ev.Fn), x: x, st: st.clone()}
		}
	}
	mon := func(x *Exec, st *State, ev *Event) {
		roles := func() []string {
			var out []string
			for _, h := range st.locks {
				out = append(out, c.lockRole(h.addr))
			}
			return out
		}
		switch ev.Kind {
		case EvLock:
			r := c.lockRole(ev.Addr)
			twice := false
			for _, h := range st.locks {
				if h.addr == ev.Addr {
					twice = true
				} else {
					edge(c.lockRole(h.addr), r, x, st, ev)
				}
			}
			c.check(!twice, "not-twice", r, x, st, ev.Pos, "%s is taken while it is held: the goroutine waits for itself", r)
			if acquired[x.Root.Fn] == nil {
				acquired[x.Root.Fn] = map[string]bool{}
			}
			acquired[x.Root.Fn][r] = true
			c.ok("no-wait", r, ev.Pos)
			c.ok("no-callback", r, ev.Pos)
		case EvUnlock:
			held := false
			for _, h := range st.locks {
				held = held || h.addr == ev.Addr
			}
			r := c.lockRole(ev.Addr)
			c.check(held, "not-twice", r, x, st, ev.Pos, "%s is released although it is not held", r)
			c.ok("released", r, ev.Pos)
		case EvReturn:
			for _, r := range roles() {
				c.bad("released", r, x, st, ev.Pos, "%s is still held when %s ends", r, fnName(x.Root.Fn))
			}
		}
		if len(st.locks) == 0 {
			return
		}
		if ev.Kind == EvCall && ev.Name == "(*sync.Cond).Wait" {
			for _, h := range st.locks {
				if !isCondLockOf(h.addr, ev.Recv) {
					c.bad("no-wait", c.lockRole(h.addr), x, st, ev.Pos, "%s is held while waiting for a condition", c.lockRole(h.addr))
				}
			}
			return
		}
		if w := waitsFor(ev); w != "" {
			if (ev.Kind == EvSend) && c.roomFor(st, ev.Chan) {
				return
			}
			for _, r := range roles() {
				c.bad("no-wait", r, x, st, ev.Pos, "%s %s while it holds %s", fnName(ev.Fn), w, r)
			}
			return
		}
		if ev.Kind == EvCall {
			if fn := ev.Sfn; fn != nil && c.P.isLib(fn) && len(fn.Blocks) > 0 { // analysed by itself
				for _, r := range roles() {
					calls = append(calls, later{r, fn, &access{pos: ev.Pos, fn: fnName(ev.Fn), x: x, st: st.clone()}})
				}
				return
			}
			user := ev.FnVal != nil && ev.FnVal.Op != OFunc && ev.FnVal.Op != OClosure
			if ev.Recv != nil && ev.Sfn == nil && ev.FnVal == nil && userInterface(ev) {
				user = true
			}
			if isCall(ev, "reflect.Value).Call") {
				user = true
			}
			if user {
				for _, h := range st.locks {
					if h.write {
						c.bad("no-callback", c.lockRole(h.addr), x, st, ev.Pos, "a function of the user is called while %s is held", c.lockRole(h.addr))
					}
				}
			}
		}
	}
	c.everything(mon)
	// functions analysed by themselves
	blocking := map[string]bool{}
	for _, n := range []string{"Send", "SendMessage", "Request", "RequestMessage", "Ping", "Listen", "Close"} {
		if f := c.exportedMethod("", "Node", n); f != nil {
			blocking[f.String()] = true
		}
	}
	for _, n := range []string{"WaitUntilReady", "WaitUntilClosed"} {
		if f := c.exportedMethod("", "Client", n); f != nil {
			blocking[f.String()] = true
		}
	}
	for _, l := range calls {
		if blocking[l.fn.String()] {
			c.bad("no-wait", l.held, l.a.x, l.a.st, l.a.pos, "%s may wait while it holds %s", fnName(l.fn), l.held)
		}
		for r := range acquired[l.fn] {
			if r == l.held {
				c.bad("not-twice", r, l.a.x, l.a.st, l.a.pos, "%s takes %s, which its caller holds", fnName(l.fn), r)
			} else {
				if edges[l.held] == nil {
					edges[l.held] = map[string]*access{}
				}
				edges[l.held][r] = l.a
			}
		}
	}
	// cycles
	state := map[string]int{}
	var rec func(a string, path []string)
	rec = func(a string, path []string) {
		state[a] = 1
		for _, b := range sortedKeys(edges[a]) {
			e := edges[a][b]
			if state[b] == 1 {
				c.bad("order", a+" "+b, e.x, e.st, e.pos, "%s is taken while %s is held, elsewhere it is the other way round (or another lock of the same kind is held): %v", b, a, append(path, a, b))
			} else if state[b] == 0 {
				rec(b, append(path, a))
			}
		}
		state[a] = 2
	}
	n := 0
	for _, a := range sortedKeys(edges) {
		if state[a] == 0 {
			rec(a, nil)
		}
		n++
	}
	c.ok("order", fmt.Sprintf("%d nested", n), token.NoPos)
	_ = A
}

// isCondLockOf: the lock belongs to the condition waited for.
func isCondLockOf(lock, cond *V) bool {
	i := initOf(lock)
	return i != nil && isCondL(i) && i.Args[0] == cond
}

// userInterface: the method of an interface declared in the module, which the user implements.
func userInterface(ev *Event) bool {
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok || !ci.Common().IsInvoke() {
		return false
	}
	m := ci.Common().Method
	return m.Pkg() != nil && strings.HasPrefix(m.Pkg().Path(), modPath)
}

// roomFor: the channel was made on this path with room for what is sent.
func (c *Check) roomFor(st *State, ch *V) bool {
	if ch != nil && ch.Op == OMakeChan && len(ch.Args) > 0 {
		n, ok := ch.Args[0].intConst()
		return ok && n > 0
	}
	return false
}

func (c *Check) exportedMethod(sub, typ, name string) *ssa.Function {
	for _, f := range c.P.exported(sub) {
		if r := f.Signature.Recv(); r != nil && f.Name() == name && strings.HasSuffix(typeName(deref(r.Type())), "."+typ) {
			return f
		}
	}
	return nil
}
