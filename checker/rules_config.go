package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about configuration.

func init() { register("C36", c36) }

// An option type, what it configures, and the functions that make and take options.
type optionType struct {
	sub    string
	typ    *types.Named
	owner  types.Type
	makers []*ssa.Function
	takers []*ssa.Function
}

// optionTypes are the named function types that take a pointer to one structure of their package, and that functions
// with a variable number of arguments take.
func (c *Check) optionTypes() []*optionType {
	var out []*optionType
	for _, sub := range []string{"", "kademlia", "gossip"} {
		byName := map[string]*optionType{}
		of := func(t types.Type) *optionType {
			n, ok := t.(*types.Named)
			if !ok {
				return nil
			}
			sig, ok := n.Underlying().(*types.Signature)
			if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 0 {
				return nil
			}
			p, ok := sig.Params().At(0).Type().(*types.Pointer)
			if !ok || structOf(p.Elem()) == nil {
				return nil
			}
			o := byName[n.Obj().Name()]
			if o == nil {
				o = &optionType{sub: sub, typ: n, owner: p.Elem()}
				byName[n.Obj().Name()] = o
			}
			return o
		}
		for _, fn := range c.P.exported(sub) {
			sig := fn.Signature
			if sig.Recv() != nil {
				continue
			}
			if sig.Results().Len() == 1 {
				if o := of(sig.Results().At(0).Type()); o != nil {
					o.makers = append(o.makers, fn)
					continue
				}
			}
			if !sig.Variadic() {
				continue
			}
			sl, ok := sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice)
			if !ok {
				continue
			}
			if o := of(sl.Elem()); o != nil {
				for i := 0; i < sig.Results().Len(); i++ {
					if types.Identical(deref(sig.Results().At(i).Type()), o.owner) {
						o.takers = append(o.takers, fn)
					}
				}
			}
		}
		for _, n := range sortedKeys(byName) {
			o := byName[n]
			sort.Slice(o.makers, func(i, j int) bool { return o.makers[i].Name() < o.makers[j].Name() })
			out = append(out, o)
		}
	}
	return out
}

// unset: v, of type t, is seen to be the zero value of its type, or for a structure one of its fields is.
func unset(st *State, v *V, t types.Type) bool {
	if v == nil {
		return false
	}
	if v.Op == OZero || v == vNil || st.nilness(v) > 0 || v.isConst() && isZeroConst(v) {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && st.entailsEq(linOf(v), newLin(0)) {
		return true
	}
	zero := func(o *V) bool {
		return isGlobal(o, modPath, "ZeroPublicKey") || isGlobal(o, modPath, "ZeroPrivateKey") || o.Op == OZero || o == vNil || o.isConst() && isZeroConst(o)
	}
	for f, truth := range st.facts {
		if f.Op == OBin && f.Str == "==" && truth {
			if unconv(f.Args[0]) == unconv(v) && zero(f.Args[1]) || unconv(f.Args[1]) == unconv(v) && zero(f.Args[0]) {
				return true
			}
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String && st.entailsEq(lenOf(v), newLin(0)) {
		return true
	}
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if a, ok := ft.Underlying().(*types.Array); ok && a.Len() > 0 && unset(st, vField(v, t, i), ft) {
				return true
			}
		}
	}
	return false
}

func isZeroConst(v *V) bool {
	if v.Const == nil {
		return true
	}
	switch v.Const.Kind() {
	case constant.Int, constant.Float:
		return constant.Sign(v.Const) == 0
	case constant.String:
		return constant.StringVal(v.Const) == ""
	case constant.Bool:
		return !constant.BoolVal(v.Const)
	}
	return false
}

// What the documentation says a setting is if no option sets it.
var documented = map[string]string{
	"WithNodeMaxDialAttempts": "3", "WithNodeMaxInboundConnections": "128", "WithNodeMaxOutboundConnections": "128",
	"WithNodeMaxRecvMessageSize": "4194304", "WithNodeNumWorkers": "runtime.NumCPU", "WithNodeIdleTimeout": "3000000000",
	"WithProtocolPingTimeout": "3000000000", "WithIteratorMaxNumResults": "16", "WithIteratorNumParallelLookups": "3",
	"WithIteratorNumParallelRequestsPerLookup": "8", "WithIteratorLookupTimeout": "3000000000", "WithIteratorLogger": "Logger",
}

func c36(c *Check) {
	c.rule("as-told", 16, "an option sets a setting to the value it was given, or, if that is zero, to one that is not")
	c.rule("nothing-else", 16, "an option changes nothing that is not part of what it was given")
	c.rule("own-setting", 16, "no two options set the same setting as a whole")
	c.rule("all-applied", 3, "every option given is applied, once and in order, to what is configured, which is returned")
	c.rule("kept", 3, "a setting is changed after the options were applied only if it was seen not to be set")
	c.rule("default", 10, "without an option a setting has the default its documentation names")
	c.rule("usable", 2, "a node is made with a logger and with the public key of its private key, which is set or random")
	c.rule("failed", 0, "making a node fails with an error and without a node")
	A := c.A
	settings := map[string]map[string]*fref{} // owner -> option -> setting
	for _, o := range c.optionTypes() {
		o := o
		if len(o.takers) == 0 || len(o.makers) == 0 {
			continue
		}
		own := map[string]*fref{}
		settings[typeName(o.owner)] = own
		for _, mkr := range o.makers {
			mkr := mkr
			name := mkr.Name()
			var args []*V
			prep := func(st *State, a *V) { args = append(args, a) }
			n := 0
			A.applyOption(o.sub, name, prep, func(x *Exec, st *State, ev *Event, applying bool) {
				if !applying {
					if ev.Kind == EvStore && rootOf(ev.Addr).Op != OAlloc {
						c.bad("nothing-else", name, x, st, ev.Pos, "%s changes something before it is applied", name)
					}
					return
				}
				switch ev.Kind {
				case EvStore:
					if r := rootOf(ev.Addr); r.Op == OAlloc {
						return
					}
					b, path := addrRef(ev.Addr)
					if b == nil || len(path) == 0 || !types.Identical(deref(b.Typ), o.owner) {
						c.bad("nothing-else", name, x, st, ev.Pos, "%s changes something other than a setting", name)
						return
					}
					st.mon["set:"+(&fref{typ: o.owner, path: path[:1]}).String()] = (&fref{typ: o.owner, path: path[:1]}).of(b)
				case EvReturn:
					n++
					done := map[*V]bool{}
					for _, k := range sortedMon(st, "set:") {
						addr := st.mon[k]
						b, path := addrRef(addr)
						_ = b
						f := &fref{typ: o.owner, path: path}
						v := st.load(addr, f.ftype())
						var from, whole *V
						for _, a := range args {
							if unconv(v) == unconv(a) {
								whole = a
							}
							if contains(v, a) {
								from = a
							}
						}
						if whole == nil {
							for _, a := range args {
								if unset(st, a, a.Typ) && types.Identical(f.ftype(), a.Typ) && !unset(st, v, f.ftype()) && (v.isConst() || st.nilness(v) < 0 || isIntType(a.Typ) && st.ge(linOf(v), newLin(1))) {
									whole = a
								}
							}
						}
						if whole == nil && st.nilness(v) > 0 {
							for _, a := range args {
								if types.Identical(f.ftype(), a.Typ) && st.nilness(a) > 0 {
									whole = a
								}
							}
						}
						if whole != nil {
							done[whole] = true
							if g := own[name]; g == nil {
								own[name] = f
							}
							continue
						}
						c.check(from != nil, "nothing-else", name, x, st, ev.Pos, "%s sets %s to something it was not given", name, f)
					}
					for _, a := range args {
						c.check(done[a], "as-told", name, x, st, ev.Pos, "%s does not set anything to the value it was given", name)
					}
					c.ok("nothing-else", name, ev.Pos)
				}
			})
			if n == 0 {
				c.check(false, "as-told", name, nil, nil, mkr.Pos(), "%s: no path through the option was seen", name)
			}
		}
		names := sortedKeys(own)
		for i, n := range names {
			clash := ""
			for j, m := range names {
				if i != j && own[n].same(own[m]) {
					clash = m
				}
			}
			c.check(clash == "", "own-setting", n, nil, nil, c.P.function(o.sub, n).Pos(), "%s and %s set the same setting, %s", n, clash, own[n])
		}
		for _, t := range o.takers {
			c.construct(o, t, own)
		}
	}
	c.ownKey(c.P.function("", "NewNode"))
	c.settingsKept(settings)
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func sortedMon(st *State, prefix string) []string {
	var out []string
	for k := range st.mon {
		if strings.HasPrefix(k, prefix) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// construct checks a function that takes options.
func (c *Check) construct(o *optionType, fn *ssa.Function, own map[string]*fref) {
	A := c.A
	const nopts = 2
	isNode := typeName(o.owner) == typeName(A.Node)
	name := fnName(fn)
	var elem types.Type = o.typ
	defaults := func(x *Exec, st *State, ev *Event, obj *V) {
		for _, on := range sortedKeys(own) {
			want := documented[on]
			if want == "" {
				continue
			}
			f := own[on]
			v := st.load(f.of(obj), f.ftype())
			ok := false
			if len(want) > 0 && want[0] >= '0' && want[0] <= '9' {
				var k int64
				fmt.Sscan(want, &k)
				ok = v != nil && st.entailsEq(linOf(v), newLin(k))
			} else {
				ok = v != nil && walkGet(v, func(u *V) bool {
					return strings.Contains(u.Str, want) && (u.Op == OCall || u.Op == OOpaque) || u.Op == OInit && len(u.Args) > 0 && want == "Logger" && A.Opt["Logger"].match(u.Args[0]) != nil
				}) != nil
			}
			c.check(ok, "default", on, x, st, ev.Pos, "without %s, %s is not %s as documented", on, f, want)
		}
	}
	mon := func(x *Exec, st *State, ev *Event) {
		if len(x.Root.parents) > 0 {
			return
		}
		if i, n, ok := callback(ev); ok && n == "option" {
			var obj *V
			if len(ev.Args) == 1 {
				obj = unconv(ev.Args[0])
			}
			first := st.mon["obj"] == nil
			if first {
				st.mon["obj"] = obj
			}
			c.check(obj != nil && obj == st.mon["obj"] && st.count("applied") == int64(i), "all-applied", name, x, st, ev.Pos, "option %d is applied out of order, or to something else", i)
			st.setCount("applied", int64(i)+1)
			if first {
				defaults(x, st, ev, obj)
			}
			if obj != nil {
				for _, on := range sortedKeys(own) { // any option may have set it
					f := own[on]
					st.store(f.of(obj), mk(V{Op: OOpaque, Str: fmt.Sprintf("setting:%d:%s", i, on), Typ: f.ftype()}), 0)
				}
			}
			return
		}
		obj := st.mon["obj"]
		if ev.Kind == EvStore && obj != nil {
			c.keptSetting(x, st, ev, own, func(b *V) bool { return b == obj })
		}
		switch ev.Kind {
		case EvCall:
			if e := errOf(ev.Res); e != nil && strings.HasSuffix(ev.Name, "ed25519.GenerateKey") {
				st.mon["gen"] = e
			}
		case EvReturn:
			var res, err *V
			sig := x.Root.Fn.Signature
			for i := 0; i < sig.Results().Len(); i++ {
				v := ev.Res
				if sig.Results().Len() > 1 {
					v = tupleAt(ev.Res, i)
				}
				if types.Identical(deref(sig.Results().At(i).Type()), o.owner) {
					res = v
				} else if isErrorType(sig.Results().At(i).Type()) {
					err = v
				}
			}
			if err != nil && st.nilness(err) <= 0 {
				c.check(st.nilness(err) < 0 && st.nilness(res) > 0, "failed", name, x, st, ev.Pos, "%s may return a node together with an error, or neither", name)
				return
			}
			c.check(st.count("applied") == nopts, "all-applied", name, x, st, ev.Pos, "%s applies %d of %d options", name, st.count("applied"), nopts)
			c.check(obj != nil && unconv(res) == obj, "all-applied", name, x, st, ev.Pos, "%s returns something else than what the options were applied to", name)
			if !isNode || obj == nil {
				return
			}
			if f := own["WithNodeLogger"]; f != nil {
				l := st.load(f.of(obj), f.ftype())
				c.check(st.nilness(l) < 0, "usable", "logger", x, st, ev.Pos, "a node may be left without a logger")
			}
			if g := st.mon["gen"]; g != nil {
				c.check(st.nilness(g) > 0, "usable", "random", x, st, ev.Pos, "a node is made although making its key failed")
			}
		}
	}
	c.run(World{Name: name, Fns: []*ssa.Function{fn}, NoContent: true, OnGo: noGo, Mons: []MonitorFunc{mon}, Init: func(x *Exec, r *Root) {
		r.Args[len(r.Args)-1] = seedSlice(r.State, "options", elem, nopts, func(i int) *V {
			return mk(V{Op: OOpaque, Str: fmt.Sprintf("cb:%d:option", i), Typ: elem})
		})
	}})
}

func tupleAt(v *V, i int) *V {
	if v != nil && v.Op == OTuple && i < len(v.Args) {
		return v.Args[i]
	}
	return nil
}

// keptSetting judges the change of a setting outside an option.
func (c *Check) keptSetting(x *Exec, st *State, ev *Event, own map[string]*fref, of func(*V) bool) {
	for _, on := range sortedKeys(own) {
		f := own[on]
		a := rootField(ev.Addr, f)
		if a == nil || !of(f.match(a)) {
			continue
		}
		c.check(unset(st, st.load(a, f.ftype()), f.ftype()), "kept", fnName(ev.Fn)+" "+on, x, st, ev.Pos, "what %s set is overwritten although it may have been set", on)
	}
}

// settingsKept: nothing else changes a setting that was set.
func (c *Check) settingsKept(settings map[string]map[string]*fref) {
	A, P := c.A, c.P
	listen := P.method("", "Node", "Listen")
	mon := func(x *Exec, st *State, ev *Event) {
		if ev.Kind != EvStore {
			return
		}
		b, path := addrRef(ev.Addr)
		if b == nil || b.Typ == nil || len(path) == 0 || b.Op == OAlloc {
			return
		}
		own := settings[typeName(deref(b.Typ))]
		if own == nil {
			return
		}
		if x.Root.Fn == listen && len(x.Root.parents) == 0 {
			for _, k := range []string{"ID", "BindHost", "BindPort"} {
				if f := A.Opt[k]; f != nil && rootField(ev.Addr, f) != nil {
					return // what it was bound to, judged by C37
				}
			}
		}
		c.keptSetting(x, st, ev, own, func(o *V) bool { return o == b })
	}
	c.connWorld(true, mon)
	c.run(World{Name: "the interface", Fns: P.exported(""), Mons: []MonitorFunc{mon}, NoContent: true, Coarse: true, OnGo: noGo})
	c.subWorld("kademlia", true, mon)
	c.subWorld("gossip", true, mon)
}

// ownKey: a node is made with the public key of its private key.
func (c *Check) ownKey(fn *ssa.Function) {
	A := c.A
	pub := func(m map[string]*V) bool { return hasSrc(m, "ed25519.PrivateKey).Public") }
	bytesIn := func(st *State, o *V, f *fref) map[string]*V {
		return st.from(mk(V{Op: OSlice, Args: []*V{f.of(o), nil, nil}, Typ: types.NewSlice(types.Typ[types.Byte])}))
	}
	same := func(a, b map[string]*V) bool {
		n := 0
		for k := range b {
			if _, ok := a[k]; !ok {
				return false
			}
			n++
		}
		return n > 0
	}
	mon := func(x *Exec, st *State, ev *Event) {
		if len(x.Root.parents) > 0 {
			return
		}
		switch ev.Kind {
		case EvCall:
			if !strings.HasSuffix(ev.Name, "ed25519.PrivateKey).Public") {
				return
			}
			key := ev.Recv
			if key == nil && len(ev.Args) > 0 {
				key = ev.Args[0]
			}
			delete(st.mon, "keyfrom")
			for _, o := range st.allocs(A.Node) {
				if a := rootField(bytesBase(key), A.PrivKey); a != nil && A.PrivKey.match(a) == o || bytesBase(key).Op == OAlloc && st.load(bytesBase(key), A.PrivKey.ftype()) == st.load(A.PrivKey.of(o), A.PrivKey.ftype()) || same(st.from(key), bytesIn(st, o, A.PrivKey)) {
					st.mon["keyfrom"] = o
				}
			}
			st.setFlag("later", false)
		case EvCopy:
			if rootField(bytesBase(ev.X), A.PubKey) != nil {
				cut := func(v *V) bool {
					v = unconv(v)
					return v.Op == OSlice && (v.Args[1] != nil || v.Args[2] != nil)
				}
				st.setFlag("part", cut(ev.X) || cut(ev.Val))
			}
			if rootField(bytesBase(ev.X), A.PrivKey) != nil {
				st.setFlag("later", true)
			}
		case EvStore:
			if rootField(ev.Addr, A.PrivKey) != nil {
				st.setFlag("later", true)
			}
			if rootField(ev.Addr, A.PubKey) != nil {
				st.setFlag("part", false)
			}
		case EvReturn:
			if ev.Res == nil || ev.Res.Op != OTuple || st.nilness(ev.Res.Args[1]) <= 0 {
				return
			}
			obj := unconv(ev.Res.Args[0])
			p, k := bytesIn(st, obj, A.PubKey), bytesIn(st, obj, A.PrivKey)
			pair := hasSrc(p, "GenerateKey") && hasSrc(k, "GenerateKey")
			ok := pair || pub(p) && st.mon["keyfrom"] == obj && !st.flag("later")
			c.check(ok && !st.flag("part"), "usable", "public key", x, st, ev.Pos, "a node may be made with a public key that is not the one of its private key")
		}
	}
	c.run(World{Name: fnName(fn) + " key", Fns: []*ssa.Function{fn}, OnGo: noGo, Mons: []MonitorFunc{mon}})
}

func bytesBase(v *V) *V {
	for v != nil && (v.Op == OSlice || v.Op == OConv) {
		v = v.Args[0]
	}
	return v
}

// allocs are the objects of type t made on this path.
func (st *State) allocs(t types.Type) []*V {
	seen := map[*V]bool{}
	var out []*V
	for a := range st.mem {
		if r := rootOf(a); r.Op == OAlloc && r.Typ != nil && types.Identical(deref(r.Typ), t) && !seen[r] {
			seen[r] = true
			out = append(out, r)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func init() { register("C37", c37) }

func c37(c *Check) {
	A, P := c.A, c.P
	c.rule("listens-at", 1, "a node listens at the configured host and port, at every host if none is configured")
	c.rule("as-bound", 1, "a listening node has the host and port its listener was bound to")
	c.rule("address", 1, "the address of a listening node is the configured one or, if none is, the one it was bound to")
	c.rule("names-address", 3, "the identity a listening node announces names its address: the configured one or the one it was bound to")
	c.rule("signs-own", 1, "what a node signs is what it was given, with its own key")
	c.rule("tells", 2, "the identity and the address a node tells are the ones it has")
	listen := P.method("", "Node", "Listen")
	host, port, addr := A.Opt["BindHost"], A.Opt["BindPort"], A.Opt["Address"]
	field := func(id *V, name string) *V { return vField(id, A.NodeID.ftype(), fieldNamed(A.NodeID.ftype(), name)) }
	mon := func(x *Exec, st *State, ev *Event) {
		if len(x.Root.parents) > 0 || x.Root.Fn != listen {
			return
		}
		node := x.Root.Args[0]
		init := func(f *fref) *V { return initVal(f, node) }
		switch {
		case ev.Kind == EvBranch:
			v := ev.Val
			if v == nil || st.mon["bound"] != nil || !contains(v, init(host)) {
				break
			}
			if v.Op == OBin && v.Str == "==" && (isStrConst(v.Args[0], "<nil>") || isStrConst(v.Args[1], "<nil>")) {
				st.setFlag("any", ev.OK)
			}
			if v.Op == OCall {
				if strings.HasSuffix(v.Str, "IP).IsUnspecified") {
					st.setFlag("any", ev.OK)
				}
				if strings.HasSuffix(v.Str, "IP).IsLoopback") {
					st.setFlag("loopback", ev.OK)
				}
			}
		case ev.Kind == EvCall && (ev.Name == "net.Listen" || ev.Name == "net.ListenTCP" || strings.HasSuffix(ev.Name, "ListenConfig).Listen")):
			h, p := init(host), init(port)
			at := ev.Args[len(ev.Args)-1]
			c.check(contains(at, p), "listens-at", "port", x, st, ev.Pos, "a node does not listen at the port it was told to")
			if st.nilness(h) > 0 {
				st.setFlag("any", true)
			}
			k := "host"
			if st.flag("loopback") && !st.flag("any") {
				k = "loopback host"
			}
			c.check(contains(at, h) || st.flag("any"), "listens-at", k, x, st, ev.Pos, "a node that was told to listen at one host only listens at all of them")
		case ev.Kind == EvCall && strings.HasSuffix(ev.Name, "Listener).Addr"):
			st.mon["bound"] = ev.Res
		case ev.Kind == EvReturn && st.nilness(ev.Res) > 0:
			bound := st.mon["bound"]
			h, p, a := st.load(host.of(node), host.ftype()), st.load(port.of(node), port.ftype()), st.load(addr.of(node), addr.ftype())
			c.check(bound != nil && contains(h, bound) && contains(p, bound), "as-bound", "Node.Listen", x, st, ev.Pos, "a listening node does not have the host and port it was bound to")
			id := st.load(A.NodeID.of(node), A.NodeID.ftype())
			ih, ip, ia := field(id, "Host"), field(id, "Port"), field(id, "Address")
			if was := init(addr); unset(st, was, addr.ftype()) {
				c.check(bound != nil && contains(a, bound) && contains(a, p), "address", "Node.Listen", x, st, ev.Pos, "the address of the node is not the one it was bound to although none is configured")
				c.check(unconv(ih) == unconv(h), "names-address", "host", x, st, ev.Pos, "the identity does not name the host the node was bound to")
				c.check(unconv(ip) == unconv(p), "names-address", "port", x, st, ev.Pos, "the identity does not name the port the node was bound to")
			} else {
				c.check(a == was, "address", "configured", x, st, ev.Pos, "the configured address is replaced")
				c.check(c.madeFrom(st, ih, was), "names-address", "configured host", x, st, ev.Pos, "the identity does not name the host of the configured address")
				c.check(c.madeFrom(st, ip, was), "names-address", "configured port", x, st, ev.Pos, "the identity does not name the port of the configured address")
			}
			c.check(contains(ia, unconv(ip)) || ia == a, "names-address", "address", x, st, ev.Pos, "the address the identity names is not made of its host and port")
		}
	}
	c.run(World{Name: "Node.Listen", Fns: []*ssa.Function{listen}, NoContent: true, OnGo: noGo, Mons: []MonitorFunc{c.seedProtocols("zz"), mon}})

	tells := map[*ssa.Function]*fref{P.method("", "Node", "ID"): A.NodeID, P.method("", "Node", "Addr"): addr}
	sign := P.method("", "Node", "Sign")
	small := func(x *Exec, st *State, ev *Event) {
		node := x.Root.Args[0]
		if f := tells[x.Root.Fn]; f != nil && ev.Kind == EvReturn {
			c.check(ev.Res == initVal(f, node), "tells", fnName(x.Root.Fn), x, st, ev.Pos, "%s does not return what the node has", fnName(x.Root.Fn))
		}
		if x.Root.Fn != sign {
			return
		}
		if isCall(ev, srcSign) && len(ev.Args) >= 2 {
			st.setFlag("signed", hasField(st.from(ev.Args[0]), A.PrivKey) && unconv(ev.Args[1]) == unconv(x.Root.Args[1]))
		}
		if ev.Kind == EvReturn {
			c.check(st.flag("signed") && hasSrc(st.from(ev.Res), srcSign), "signs-own", "Node.Sign", x, st, ev.Pos, "what is returned is not a signature of what was given, by the key of the node")
		}
	}
	var fns []*ssa.Function
	for fn := range tells {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	c.run(World{Name: "what a node tells", Fns: append(fns, sign), OnGo: noGo, Mons: []MonitorFunc{small}})
}

// madeFrom: v is made of the result of a successful reading of from.
func (c *Check) madeFrom(st *State, v, from *V) bool { return contains(v, from) }

func isStrConst(v *V, s string) bool {
	return v.isConst() && v.Const != nil && v.Const.Kind() == constant.String && constant.StringVal(v.Const) == s
}

// initVal is what field f of object o held when the function was called.
func initVal(f *fref, o *V) *V {
	return mk(V{Op: OInit, Args: []*V{f.of(o)}, Typ: f.ftype()})
}

func init() { register("C38", c38) }

// c38: what is registered is kept.
func c38(c *Check) {
	A, P := c.A, c.P
	c.rule("added", 2, "everything given to a registration is added to the end of what is registered, in order and once")
	c.rule("one-step", 2, "what is registered is read and replaced in one step, under a lock of the node that excludes other registrations")
	c.rule("not-late", 2, "nothing is registered once the node was seen to be listening")
	c.rule("all-registered", 2, "a registration returns without having added everything only if the node is listening")
	c.rule("nobody-else", 1, "nothing else changes what is registered")
	const given = 2
	regs := map[*ssa.Function]*fref{P.method("", "Node", "Bind"): A.Protocols, P.method("", "Node", "Handle"): A.Handlers}
	elements := func(st *State, l *V) []*V {
		l = unconv(l)
		if l.Op != OSlice || l.Args[1] != nil || l.Args[2] != nil {
			return nil
		}
		at, ok := deref(l.Args[0].Typ).Underlying().(*types.Array)
		if !ok {
			return nil
		}
		var out []*V
		for i := int64(0); i < at.Len(); i++ {
			out = append(out, st.load(vIndexAddr(l.Args[0], vInt(i), types.NewPointer(at.Elem())), at.Elem()))
		}
		return out
	}
	mon := func(x *Exec, st *State, ev *Event) {
		f := regs[x.Root.Fn]
		if ev.Kind == EvStore {
			for _, g := range []*fref{A.Protocols, A.Handlers} {
				b := g.match(rootField(ev.Addr, g))
				if b == nil || b.Op == OAlloc {
					continue
				}
				if g != f || len(x.Root.parents) > 0 {
					c.check(false, "nobody-else", fnName(ev.Fn), x, st, ev.Pos, "%s changes what is registered", fnName(ev.Fn))
				}
			}
		}
		if f == nil || len(x.Root.parents) > 0 {
			return
		}
		name := fnName(x.Root.Fn)
		node := x.Root.Args[0]
		locked := func() bool {
			for _, w := range c.heldOn(st, node) {
				if w {
					return true
				}
			}
			return false
		}
		forget := func() {
			delete(st.mon, "had")
			delete(st.mon, "tip")
			delete(st.mon, "copy")
		}
		switch ev.Kind {
		case EvUnlock:
			forget()
		case EvLoad:
			if f.match(ev.Addr) == node && locked() {
				st.mon["had"] = ev.Val
				if !st.flag("put") || st.mon["tip"] == nil {
					st.mon["tip"] = ev.Val
				}
			}
		case EvCopy:
			to, src := unconv(ev.X), unconv(ev.Val)
			base := to
			if to.Op == OSlice {
				base = to.Args[0]
			}
			if had := st.mon["had"]; had != nil && src == unconv(had) && to == base {
				st.mon["copy"] = base
			} else if st.mon["copy"] == base && to.Op == OSlice && to.Args[1] != nil && st.mon["had"] != nil && st.entailsEq(linOf(to.Args[1]), lenOf(st.mon["had"])) && sameList(elements(st, src), st.count("added")) == given {
				st.setCount("added", given)
				st.mon["tip"] = base
			}
		case EvAppend:
			if ev.Lo == nil {
				break
			}
			tip := st.mon["tip"]
			if had := st.mon["had"]; had != nil && unconv(ev.Lo) == unconv(had) && st.entailsEq(lenOf(ev.X), newLin(0)) {
				st.mon["tip"] = ev.Val
				return
			}
			if tip == nil || unconv(ev.X) != unconv(tip) {
				break
			}
			st.mon["tip"] = ev.Val
			l := elements(st, ev.Lo)
			n := sameList(l, st.count("added"))
			c.check(n > 0 || len(l) == 0 && st.entailsEq(lenOf(ev.Lo), newLin(0)), "added", name, x, st, ev.Pos, "something else than the next of what was given is registered")
			st.setCount("added", st.count("added")+int64(n))
		case EvCall:
			if strings.HasSuffix(ev.Name, "Bool).Load") && ev.Recv != nil {
				if b, _ := addrRef(ev.Recv); b == node {
					st.mon["late"] = ev.Res
				}
			}
		case EvStore:
			if f.match(ev.Addr) != node {
				break
			}
			tip := st.mon["tip"]
			c.check(locked() && st.mon["had"] != nil, "one-step", name, x, st, ev.Pos, "what is registered is replaced without a lock held since it was read, so that a concurrent registration may be lost")
			c.check(tip != nil && unconv(ev.Val) == unconv(tip), "added", name, x, st, ev.Pos, "what is registered is replaced by something else than itself and what was given")
			late := st.mon["late"]
			c.check(late != nil && st.truth(late) < 0, "not-late", name, x, st, ev.Pos, "something may be registered although the node is listening")
			st.setCount("stored", st.count("added"))
			st.setFlag("put", true)
		case EvReturn:
			late := st.mon["late"]
			ok := late != nil && st.truth(late) > 0
			c.check(ok || st.count("stored") == given, "all-registered", name, x, st, ev.Pos, "%s returns although only %d of %d given were registered and the node is not known to be listening", name, st.count("stored"), given)
		}
	}
	var fns []*ssa.Function
	for fn := range regs {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	c.run(World{Name: "registering", Fns: fns, NoContent: true, OnGo: noGo, Mons: []MonitorFunc{mon}, Init: func(x *Exec, r *Root) {
		sl, ok := r.Fn.Params[len(r.Fn.Params)-1].Type().(*types.Slice)
		if !ok {
			panic(anchorErr{"what " + r.Fn.Name() + " is given"})
		}
		r.Args[len(r.Args)-1] = seedSlice(r.State, "given", sl.Elem(), given, func(i int) *V {
			return mk(V{Op: OOpaque, Str: fmt.Sprintf("given:%d", i), Typ: sl.Elem()})
		})
	}})
	other := func(x *Exec, st *State, ev *Event) {
		if regs[x.Root.Fn] == nil {
			mon(x, st, ev)
		}
	}
	c.connWorld(true, other)
	c.run(World{Name: "the interface", Fns: P.exported(""), Mons: []MonitorFunc{other}, NoContent: true, Coarse: true, OnGo: noGo})
	c.ok("nobody-else", "everything else", P.method("", "Node", "Bind").Pos())
}

// sameList: how many of l are what was given, from number n on.
func sameList(l []*V, n int64) int {
	for i, v := range l {
		if v == nil || v.Op != OOpaque || v.Str != fmt.Sprintf("given:%d", n+int64(i)) {
			return 0
		}
	}
	return len(l)
}
