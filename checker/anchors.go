package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fref names a field of a struct type by the path of field indices that leads to it.
type fref struct {
	typ  types.Type
	path []int
}

func (f *fref) String() string {
	s := structOf(f.typ)
	out := strings.TrimPrefix(types.TypeString(f.typ, nil), modPath+".")
	for _, i := range f.path {
		if s == nil || i >= s.NumFields() {
			return out + ".?"
		}
		out += "." + s.Field(i).Name()
		s = structOf(s.Field(i).Type())
	}
	return out
}

// addrRef splits an address into the object it belongs to and the path of fields.
func addrRef(a *V) (base *V, path []int) {
	for a.Op == OFieldAddr {
		path = append([]int{a.Idx}, path...)
		a = a.Args[0]
	}
	return a, path
}

func sameNamed(a, b types.Type) bool {
	if a == nil || b == nil {
		return false
	}
	return types.Identical(deref(a), deref(b))
}

// match reports the object when a is the address of field f.
func (f *fref) match(a *V) *V {
	if f == nil || a == nil {
		return nil
	}
	for i := len(f.path) - 1; i >= 0; i-- {
		if a.Op != OFieldAddr || a.Idx != f.path[i] {
			return nil
		}
		a = a.Args[0]
	}
	if !sameNamed(a.Typ, f.typ) {
		return nil
	}
	return a
}

// of is the address of f in the object at base.
func (f *fref) of(base *V) *V {
	t := f.typ
	a := base
	for _, i := range f.path {
		a = vFieldAddr(a, t, i)
		t = structOf(t).Field(i).Type()
	}
	return a
}

func (f *fref) ftype() types.Type {
	t := f.typ
	for _, i := range f.path {
		t = structOf(t).Field(i).Type()
	}
	return t
}

func (f *fref) same(g *fref) bool {
	if f == nil || g == nil || !sameNamed(f.typ, g.typ) || len(f.path) != len(g.path) {
		return false
	}
	for i := range f.path {
		if f.path[i] != g.path[i] {
			return false
		}
	}
	return true
}

// Anchors are the parts of the program the rules talk about, found through its exported interface and by type.
type Anchors struct {
	P *Program

	Client, Node, HCtx, Msg types.Type

	Ready, Done, Err, ID *fref // of Client
	NodeID, NodeAddr     *fref
	In, Out              *fref // connection pools of Node
	PoolType             types.Type
	Protocols, Handlers  *fref
	Work                 *fref
	PrivKey, PubKey      *fref
	CtxClient            *fref
	Opt                  map[string]*fref // option name -> field of Node

	Suite, Conn *fref
	Queue       *fref // outgoing messages of a Client

	MsgNonce, MsgData int // fields of Msg
	MsgRef            int // field of HandlerContext holding the message
}

func initOf(v *V) *V {
	if v != nil {
		v = unold(v)
	}
	if v != nil && (v.Op == OInit || v.Op == OHavoc) {
		return v.Args[0]
	}
	return nil
}

func refFrom(a *V, t types.Type) *fref {
	if a == nil {
		return nil
	}
	base, path := addrRef(a)
	if len(path) == 0 || !sameNamed(base.Typ, t) {
		return nil
	}
	return &fref{typ: deref(t), path: path}
}

// probe runs one function and collects what its monitor wants.
func probe(P *Program, fn *ssa.Function, mon MonitorFunc) *Exec {
	x := NewExec(P, mon)
	x.OnGo = func(*Exec, *State, *Event, *Root) bool { return false }
	x.NoContent = true
	r := &Root{Name: fn.String(), Fn: fn, State: newState()}
	for _, p := range fn.Params {
		r.Args = append(r.Args, vParam(p.Name(), p.Type()))
	}
	x.Run(r)
	if x.Undecided != "" {
		panic(anchorErr{fn.String() + ": " + x.Undecided})
	}
	return x
}

func findAnchors(c *Check) *Anchors {
	P := c.P
	A := &Anchors{P: P, Opt: map[string]*fref{}}
	A.Client, A.Node, A.HCtx = P.typ("", "Client"), P.typ("", "Node"), P.typ("", "HandlerContext")

	recvField := func(m string) *fref {
		var r *fref
		probe(P, P.method("", "Client", m), func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvRecv && r == nil {
				r = refFrom(initOf(ev.Chan), A.Client)
			}
		})
		if r == nil {
			panic(anchorErr{"the channel Client." + m + " waits for"})
		}
		return r
	}
	A.Ready = recvField("WaitUntilReady")
	A.Done = recvField("WaitUntilClosed")

	result := func(typ, m string, t types.Type) *fref {
		var r *fref
		probe(P, P.method("", typ, m), func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvReturn && r == nil {
				r = refFrom(initOf(ev.Res), t)
			}
		})
		if r == nil {
			panic(anchorErr{"the field " + typ + "." + m + " returns"})
		}
		return r
	}
	A.Err = result("Client", "Error", A.Client)
	A.ID = result("Client", "ID", A.Client)
	A.NodeID = result("Node", "ID", A.Node)
	A.NodeAddr = result("Node", "Addr", A.Node)

	firstLoad := func(typ, m string, t types.Type, ok func(ft types.Type) bool) *fref {
		var r *fref
		probe(P, P.method("", typ, m), func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvLoad && r == nil {
				if f := refFrom(ev.Addr, t); f != nil && ok(f.ftype()) {
					r = f
				}
			}
		})
		if r == nil {
			panic(anchorErr{"the field " + typ + "." + m + " reads"})
		}
		return r
	}
	isModPtr := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	}
	A.In = firstLoad("Node", "Inbound", A.Node, isModPtr)
	A.Out = firstLoad("Node", "Outbound", A.Node, isModPtr)
	A.PoolType = deref(A.In.ftype())

	byType := func(t types.Type, want string) *fref {
		var found []*fref
		var walk func(s *types.Struct, path []int, depth int)
		walk = func(s *types.Struct, path []int, depth int) {
			for i := 0; i < s.NumFields(); i++ {
				p := append(append([]int{}, path...), i)
				ft := s.Field(i).Type()
				if types.TypeString(ft, nil) == want {
					found = append(found, &fref{typ: t, path: p})
				} else if st, ok := ft.Underlying().(*types.Struct); ok && depth < 2 {
					if n, isNamed := ft.(*types.Named); !isNamed || n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
						walk(st, p, depth+1)
					}
				}
			}
		}
		walk(structOf(t), nil, 0)
		var best *fref
		n := 0
		for _, f := range found {
			if best == nil || len(f.path) < len(best.path) {
				best, n = f, 1
			} else if len(f.path) == len(best.path) {
				n++
			}
		}
		if n != 1 {
			return nil
		}
		return best
	}
	must := func(f *fref, what string) *fref {
		if f == nil {
			panic(anchorErr{what})
		}
		return f
	}
	A.Protocols = must(byType(A.Node, "[]"+modPath+".Protocol"), "the registered protocols of a node")
	A.Handlers = must(byType(A.Node, "[]"+modPath+".Handler"), "the registered handlers of a node")
	A.Work = must(byType(A.Node, "chan "+modPath+".HandlerContext"), "the work queue of a node")
	A.PrivKey = must(byType(A.Node, modPath+".PrivateKey"), "the private key of a node")
	A.PubKey = must(byType(A.Node, modPath+".PublicKey"), "the public key of a node")
	A.Suite = must(byType(A.Client, "crypto/cipher.AEAD"), "the cipher of a connection")
	A.Conn = must(byType(A.Client, "net.Conn"), "the socket of a connection")
	A.CtxClient = must(byType(A.HCtx, "*"+modPath+".Client"), "the connection of a handler context")

	// the message type: the struct HandlerContext.Data reads from
	var dataRef, nonceRef *fref
	probe(P, P.method("", "HandlerContext", "Data"), func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvReturn && dataRef == nil {
			dataRef = refFrom(initOf(ev.Res), A.HCtx)
		}
	})
	probe(P, P.method("", "HandlerContext", "IsRequest"), func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvLoad && nonceRef == nil {
			if f := refFrom(ev.Addr, A.HCtx); f != nil && types.TypeString(f.ftype().Underlying(), nil) == "uint64" {
				nonceRef = f
			}
		}
	})
	if dataRef == nil || nonceRef == nil || len(dataRef.path) != 2 || len(nonceRef.path) != 2 || dataRef.path[0] != nonceRef.path[0] {
		panic(anchorErr{"the message inside a handler context"})
	}
	A.MsgRef = dataRef.path[0]
	A.MsgData, A.MsgNonce = dataRef.path[1], nonceRef.path[1]
	A.Msg = structOf(A.HCtx).Field(A.MsgRef).Type()
	A.Queue = must(byType(A.Client, "[]"+types.TypeString(A.Msg, nil)), "the outgoing queue of a connection")

	for _, o := range []string{"MaxDialAttempts", "MaxInboundConnections", "MaxOutboundConnections", "MaxRecvMessageSize", "NumWorkers",
		"IdleTimeout", "Logger", "ID", "PrivateKey", "BindHost", "BindPort", "Address"} {
		fs := A.optionFields("WithNode" + o)
		for _, f := range fs { // the one that takes what the option was given, if there are several
			if ps := P.function("", "WithNode"+o).Params; A.Opt[o] == nil || len(ps) == 1 && types.Identical(f.ftype(), ps[0].Type()) && !types.Identical(A.Opt[o].ftype(), ps[0].Type()) {
				A.Opt[o] = f
			}
		}
	}
	return A
}

// applyOption evaluates an option constructor of package sub and applies the option it returns; mon sees the events of both.
func (A *Anchors) applyOption(sub, name string, prep func(st *State, arg *V), mon func(x *Exec, st *State, ev *Event, applying bool)) {
	P := A.P
	fn := P.function(sub, name)
	type pend struct {
		st *State
		v  *V
	}
	var todo []pend
	x := NewExec(P, MonitorFunc(func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvReturn {
			todo = append(todo, pend{st.clone(), ev.Res})
			return
		}
		mon(x, st, ev, false)
	}))
	r := &Root{Name: fn.String(), Fn: fn, State: newState()}
	for _, p := range fn.Params {
		a := vParam(p.Name(), p.Type())
		r.Args = append(r.Args, a)
		if prep != nil {
			prep(r.State, a)
		}
	}
	x.Run(r)
	if x.Undecided != "" {
		panic(anchorErr{name + ": " + x.Undecided})
	}
	for _, p := range todo {
		v := unconv(p.v)
		if v == nil || (v.Op != OClosure && v.Op != OFunc) {
			panic(anchorErr{"the option " + name + " returns"})
		}
		x2 := NewExec(P, MonitorFunc(func(x *Exec, st *State, ev *Event) { mon(x, st, ev, true) }))
		st := p.st
		st.frames, st.ret, st.locks = nil, nil, nil
		r2 := &Root{Name: v.Fn.String(), Fn: v.Fn, State: st}
		if v.Op == OClosure {
			r2.Binds = v.Args
		}
		for _, q := range v.Fn.Params {
			r2.Args = append(r2.Args, vParam("target:"+q.Name(), q.Type()))
		}
		x2.Run(r2)
		if x2.Undecided != "" {
			panic(anchorErr{name + ": " + x2.Undecided})
		}
	}
}

func (A *Anchors) optionFields(name string) []*fref {
	var out []*fref
	A.applyOption("", name, nil, func(x *Exec, st *State, ev *Event, applying bool) {
		if applying && ev.Kind == EvStore {
			if f := refFrom(ev.Addr, A.Node); f != nil {
				for _, g := range out {
					if g.same(f) {
						return
					}
				}
				out = append(out, f)
			}
		}
	})
	return out
}

// holder finds the field of an object of type t whose current contents are v.
func (A *Anchors) holder(st *State, v *V, t types.Type) (*V, *fref) {
	v = unold(v)
	if a := initOf(v); a != nil {
		if f := refFrom(a, t); f != nil {
			b, _ := addrRef(a)
			return b, f
		}
	}
	var bb *V
	var bf *fref
	for a, c := range st.mem {
		if c == v && a.Op == OFieldAddr {
			if f := refFrom(a, t); f != nil {
				b, _ := addrRef(a)
				if bf == nil || a.id < bf.of(bb).id {
					bb, bf = b, f
				}
			}
		}
	}
	return bb, bf
}

// is reports whether v is what field f of some object holds, and the object.
func (A *Anchors) is(st *State, v *V, f *fref) *V {
	if v == nil || f == nil {
		return nil
	}
	b, g := A.holder(st, v, f.typ)
	if g.same(f) {
		return b
	}
	// several fields may hold the same value
	for a, c := range st.mem {
		if c == unold(v) {
			if b := f.match(a); b != nil {
				return b
			}
		}
	}
	return nil
}

// ---- connections

// connRoot describes the goroutine that runs a connection.
type connInfo struct {
	client *V
	in     bool
	writer bool // a goroutine started by the one that runs the connection
}

func (A *Anchors) clientArg(st *State, r *Root) *V {
	for _, l := range [][]*V{r.Args, r.Binds} {
		for _, a := range l {
			if a == nil || a.Typ == nil {
				continue
			}
			if sameNamed(a.Typ, A.Client) {
				if _, isPtr := a.Typ.Underlying().(*types.Pointer); isPtr {
					if p, ok := deref(a.Typ).Underlying().(*types.Pointer); ok && sameNamed(p, A.Client) {
						continue
					}
					return a
				}
			}
			// a captured variable
			if p, ok := a.Typ.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), types.NewPointer(A.Client)) && st != nil {
				if v := st.mem[a]; v != nil {
					return v
				}
			}
		}
	}
	return nil
}

var connCache = map[*Root]*connInfo{}

// conn returns the connection the goroutine of the current root runs, or nil.
func (A *Anchors) conn(x *Exec, st *State) *connInfo {
	r := x.Root
	if r == nil || len(r.parents) == 0 {
		return nil
	}
	if ci, ok := connCache[r]; ok {
		return ci
	}
	var ci *connInfo
	if cl := A.clientArg(r.State, r); cl != nil {
		ci = &connInfo{client: cl}
		listen := A.P.method("", "Node", "Listen")
		for _, p := range r.parents {
			if p == listen {
				ci.in = true
			}
			if A.runsClient(p) {
				ci.writer = true
			}
		}
	}
	connCache[r] = ci
	return ci
}

func (A *Anchors) runsClient(fn *ssa.Function) bool {
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	for _, p := range fn.FreeVars {
		ts = append(ts, p.Type(), deref(p.Type()))
	}
	for _, t := range ts {
		if types.Identical(t, types.NewPointer(A.Client)) {
			return true
		}
	}
	return false
}

func (ci *connInfo) dir() string {
	if ci.in {
		return "inbound"
	}
	return "outbound"
}

// ---- common worlds

// connWorld: everything started by listening and by dialing.
func (c *Check) connWorld(noContent bool, mons ...MonitorFunc) *Exec {
	P := c.P
	return c.run(World{Name: "connections", Fns: []*ssa.Function{P.method("", "Node", "Listen"), P.method("", "Node", "Ping")},
		Mons: mons, NoContent: noContent, OnGo: c.freshMon})
}

// freshMon starts every goroutine with an empty monitor state.
func (c *Check) freshMon(x *Exec, st *State, ev *Event, r *Root) bool {
	r.State.mon = map[string]*V{}
	return true
}

// opaque: the functions of the core package that act on nodes and connections; what they do is decided elsewhere.
func (c *Check) opaque(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath || fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	sig := fn.Signature
	if sig.Recv() != nil {
		t := deref(sig.Recv().Type())
		return types.Identical(t, c.A.Node) || types.Identical(t, c.A.Client) || types.Identical(t, c.A.HCtx)
	}
	return false
}

// exported are the exported functions and methods of a package of the module.
func (P *Program) exported(sub string) []*ssa.Function {
	var out []*ssa.Function
	p := P.pkg(sub)
	if p == nil {
		return nil
	}
	add := func(f *ssa.Function) {
		if f != nil && len(f.Blocks) > 0 && f.Object() != nil && f.Object().Exported() && P.isLib(f) {
			out = append(out, f)
		}
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := p.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if !m.Object().Exported() {
				continue
			}
			seen := map[*types.Func]bool{}
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := P.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f, ok := ms.At(i).Obj().(*types.Func)
					if !ok || seen[f] || len(ms.At(i).Index()) > 1 {
						continue
					}
					seen[f] = true
					add(P.prog.FuncValue(f))
				}
			}
		}
	}
	return out
}

// subWorld: everything a user or the node can call in one of the protocol packages, type by type: the exported methods of
// a type are inlined into one another, those of other types are not, for they are analysed by themselves.
func (c *Check) subWorld(sub string, noContent bool, mons ...MonitorFunc) {
	groups := map[string][]*ssa.Function{}
	var order []string
	recv := func(fn *ssa.Function) string {
		if r := fn.Signature.Recv(); r != nil {
			return typeName(deref(r.Type()))
		}
		return ""
	}
	for _, f := range c.P.exported(sub) {
		r := recv(f)
		if groups[r] == nil {
			order = append(order, r)
		}
		groups[r] = append(groups[r], f)
	}
	exported := map[*ssa.Function]string{}
	for r, l := range groups {
		for _, f := range l {
			exported[f] = r
		}
	}
	for _, r := range order {
		r := r
		name := sub
		if r != "" {
			name = r
		}
		c.run(World{Name: name, Fns: groups[r], Mons: mons, NoContent: noContent, Coarse: noContent, OnGo: c.freshMon, Skip: func(fn *ssa.Function) bool {
			if c.opaque(fn) {
				return true
			}
			g, ok := exported[fn]
			return ok && g != r && g != "" && isPointer(fn.Signature.Recv().Type())
		}})
	}
}
