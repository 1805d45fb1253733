package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about messages of registered types.

func init() { register("C27", c27) }

// opaqueIO: what sends and receives.
func (c *Check) opaqueIO(fn *ssa.Function) bool {
	return c.opaque(fn) && (fn.Name() == "Send" || fn.Name() == "Request")
}

func c27(c *Check) {
	P, A := c.P, c.A
	c.rule("own-number", 1, "every type is registered under a number of its own, the one that is returned")
	c.rule("registered-once", 1, "a type is registered only if it was not, seen under the lock it is registered under, and refused only for a reason")
	c.rule("decoder-fits", 1, "a decoder is kept only after a look at its type")
	c.rule("kept", 3, "what is registered stays registered: nothing else changes the tables of types")
	c.rule("encoded", 3, "a message is sent as the number of its type and its own encoding, nothing else")
	c.rule("decoded", 3, "what is received is decoded by the decoder registered for its number, and all the rest of it")
	c.rule("result", 3, "the value of the decoder is returned as it is, or its error")
	c.rule("refused", 3, "a message whose type or number is not registered is refused, and no other")
	c.rule("same-form", 1, "what is written is what is read")
	f := &formats{c: c}
	serT := P.typ("", "Serializable")
	isBytesT := func(t types.Type) bool { return isBytes(t) }

	register := P.method("", "Node", "RegisterMessage")
	var users []*ssa.Function
	for _, fn := range P.exported("") {
		if fn == register {
			continue
		}
		sig := fn.Signature
		uses := false
		for i := 0; i < sig.Params().Len(); i++ {
			uses = uses || types.Identical(sig.Params().At(i).Type(), serT)
		}
		for i := 0; i < sig.Results().Len(); i++ {
			uses = uses || types.Identical(sig.Results().At(i).Type(), serT)
		}
		if uses {
			users = append(users, fn)
		}
	}
	isTypes := func(m *V) bool { // type -> number
		mt, ok := typeUnder(m.Typ).(*types.Map)
		return ok && typeName(mt.Key()) == "reflect.Type"
	}
	isDecoders := func(m *V) bool { // number -> decoder
		mt, ok := typeUnder(m.Typ).(*types.Map)
		if !ok {
			return false
		}
		b := basicOf(mt.Key())
		return b != nil && b.Info()&types.IsInteger != 0 && (typeName(mt.Elem()) == "reflect.Value" || walkType(mt.Elem(), "reflect.Value"))
	}
	// registration
	reg := func(x *Exec, st *State, ev *Event) {
		if len(x.Root.Args) < 3 {
			return
		}
		ser, de := x.Root.Args[1], x.Root.Args[2]
		isKey := func(k *V) bool {
			k = unconv(k)
			return k != nil && k.Op == OCall && k.Str == "reflect.TypeOf" && len(k.Args) == 1 && k.Args[0] == ser
		}
		switch ev.Kind {
		case EvCall:
			if ev.Name == "reflect.FuncOf" {
				st.setFlag("funcof", true)
			}
		case EvUnlock:
			st.setFlag("absent", false)
			if st.mon["number"] == nil {
				delete(st.mon, "old")
			}
		case EvMapGet:
			if isTypes(ev.Map) {
				if ev.OK {
					st.setFlag("reason", true)
				} else if isKey(ev.Key) {
					st.setFlag("absent", true)
				}
			}
		case EvBranch:
			v, ok := ev.Val, ev.OK
			for v != nil && v.Op == ONot {
				v, ok = v.Args[0], !ok
			}
			if v == nil || !contains(v, de) {
				return
			}
			if w := walkGet(v, func(u *V) bool { return u.Op == OCall && u.Str == "reflect.FuncOf" }); w != nil {
				st.setFlag("fits", v.Op == OBin && v.Str == "==" && ok)
				st.setFlag("reason", !ok || st.flag("reason"))
			} else {
				st.setFlag("custom", true)
				st.setFlag("reason", true)
			}
		case EvMapSet:
			switch {
			case isTypes(ev.Map):
				c.check(isKey(ev.Key) && st.flag("absent"), "registered-once", "type", x, st, ev.Pos, "a type is registered without seeing that it is not yet")
				st.mon["number"] = ev.Val
			case isDecoders(ev.Map):
				c.check((st.flag("fits") || st.flag("custom") && !st.flag("funcof")) && contains(ev.Val, de), "decoder-fits", "decoder", x, st, ev.Pos, "a decoder is kept without a look at its type")
				st.mon["decoder"] = ev.Key
			}
		case EvLoad:
			if b := basicOf(typOf(ev.Val.Typ)); b != nil && b.Info()&types.IsInteger != 0 && ev.Addr.Op == OFieldAddr && st.mon["old"] == nil {
				st.mon["old"] = ev.Val
				st.mon["cell"] = ev.Addr
			}
		case EvStore:
			if st.mon["old"] != nil && ev.Addr == st.mon["cell"] {
				st.mon["new"] = ev.Val
			}
		case EvPanic:
			c.check(st.flag("reason"), "registered-once", "refused", x, st, ev.Pos, "a type is refused that is not registered, and whose decoder fits")
		case EvReturn:
			if len(x.Root.parents) > 0 {
				return
			}
			n, d := st.mon["number"], st.mon["decoder"]
			if n == nil || d == nil || ev.Res == nil {
				c.bad("own-number", "registration", x, st, ev.Pos, "a type is not registered with its number and its decoder")
				return
			}
			same := func(a, b *V) bool {
				x, i := offset(a)
				y, j := offset(b)
				return x == y && i == j
			}
			c.check(same(n, d) && same(n, ev.Res), "own-number", "same number", x, st, ev.Pos, "the number returned, that of the type and that of the decoder are not the same")
			own := false
			if u := unconv(n); u.Op == OLen && (isTypes(u.Args[0]) || isDecoders(u.Args[0])) {
				own = true // nothing is ever taken out of them
			}
			if o, w := st.mon["old"], st.mon["new"]; o != nil && w != nil {
				x, i := offset(o)
				y, j := offset(w)
				z, k := offset(n)
				own = x == y && x == z && j == i+1 && (k == i || k == j)
			}
			c.check(own, "own-number", "fresh", x, st, ev.Pos, "the number of a type may have been given to another one")
		}
	}
	c.run(World{Name: "registering", Fns: []*ssa.Function{register}, Mons: []MonitorFunc{reg}, OnGo: noGo})

	// messages
	mon := func(x *Exec, st *State, ev *Event) {
		name := fnName(x.Root.Fn)
		var msg, in *V
		for i, p := range x.Root.Fn.Params {
			if i >= len(x.Root.Args) {
				return
			}
			switch {
			case types.Identical(p.Type(), serT):
				msg = x.Root.Args[i]
			case isBytesT(p.Type()):
				in = x.Root.Args[i]
			}
		}
		sig := x.Root.Fn.Signature
		decodes := sig.Results().Len() == 2 && types.Identical(sig.Results().At(0).Type(), serT)
		encodes := sig.Results().Len() == 2 && isBytesT(sig.Results().At(0).Type())
		isOut := func(data *V, where string) {
			if msg == nil {
				return
			}
			num, body := st.mon["num"], st.mon["body"]
			if num == nil || body == nil {
				c.bad("encoded", name+where, x, st, ev.Pos, "what is sent is not the encoding of a registered message")
				return
			}
			ps, why := encodedAs(st, data, map[string]*V{"number": num, "message": body})
			c.check(why == "", "encoded", name+where, x, st, ev.Pos, "a message is not sent as it is: %s", why)
			if why == "" {
				f.note(&f.written, "a message", ps, ev.Pos)
			}
			st.setFlag("sent", true)
		}
		switch ev.Kind {
		case EvMapGet:
			switch {
			case isTypes(ev.Map):
				k := unconv(ev.Key)
				if k != nil && k.Op == OCall && k.Str == "(reflect.Type).Elem" && len(k.Args) > 0 {
					k = unconv(k.Args[0])
				}
				ok := k != nil && k.Op == OCall && k.Str == "reflect.TypeOf" && len(k.Args) == 1 && k.Args[0] == msg
				c.check(ok, "encoded", name+" type", x, st, ev.Pos, "the number is not that of the type of the message")
				if ev.OK && ok {
					st.mon["num"] = ev.Val
				}
				st.setFlag("unknown", !ev.OK)
			case isDecoders(ev.Map):
				src, so, n, order, ok := decodedInt(st, unconv(ev.Key))
				data := in
				if data == nil {
					data = st.mon["in"]
				}
				var r region
				if data != nil {
					r = regionOf(data)
				}
				if data == nil && src != nil && partOfMsg(A, src) {
					data, r = src, regionOf(src)
					st.mon["in"] = src
				}
				if !ok || data == nil || src != r.base {
					c.bad("decoded", name+" number", x, st, ev.Pos, "the number of a message is not taken from what was received")
					return
				}
				c.ok("decoded", name+" number", ev.Pos)
				st.setFlag("unknown", !ev.OK)
				if ev.OK {
					st.mon["dec"] = ev.Val
					_ = order
					st.mon["key"] = unconv(ev.Key)
					_, _ = so, n
				}
			}
		case EvMapSet, EvMapDel:
			if isTypes(ev.Map) || isDecoders(ev.Map) {
				c.bad("kept", name, x, st, ev.Pos, "the tables of types are changed")
			}
		case EvBranch:
			v, ok := ev.Val, ev.OK
			for v != nil && v.Op == ONot {
				v, ok = v.Args[0], !ok
			}
			if v == nil {
				return
			}
			if res := st.mon["res"]; res != nil && v.Op == OCall && v.Str == "(reflect.Value).IsNil" && resultOf(v.Args, res) == 1 {
				st.setFlag("failed", !ok)
				st.setFlag("decoded", ok)
			}
			if v.Op == OIsNil && ok && st.mon["decerr"] != nil && chained(st, v.Args[0]) {
				ev.Kill = true // there is an error
			}
			if data := in; data != nil && st.mon["key"] == nil && st.ge(newLin(1), lenOf(data)) {
				st.setFlag("short", true)
			}
			if data := st.mon["answer"]; data != nil && st.ge(newLin(1), lenOf(data)) {
				st.setFlag("short", true)
			}
			if e := st.mon["failure"]; e != nil && st.nilness(e) < 0 {
				st.setFlag("io", true)
			}
			if v.Op == OBin && v.Str == "<" && walkFind(v, func(u *V) bool { return u.Op == OLen && partOfMsg(A, u.Args[0]) && st.ge(newLin(1), linOf(u)) }) {
				st.setFlag("short", true)
			}
		case EvCall:
			chain(st, ev)
			if ev.Name == "(reflect.Value).Interface" && st.mon["res"] != nil && resultOf(nonNil([]*V{ev.Recv}), st.mon["res"]) == 1 {
				st.setFlag(chainKey(ev.Res), true)
				st.mon["decerr"] = ev.Res
			}
			switch {
			case strings.HasSuffix(ev.Name, ".Marshal") && msg != nil && ev.Recv == msg:
				st.mon["body"] = ev.Res
			case ev.Name == "(reflect.Value).Call":
				c.check(st.mon["dec"] != nil && unold(ev.Recv) == unold(st.mon["dec"]) || st.mon["dec"] != nil && contains(ev.Recv, st.mon["dec"]), "decoded", name+" decoder", x, st, ev.Pos, "a message is decoded by another decoder than the one registered for its number")
				arg := walkGet(mk(V{Op: OTuple, Args: nonNil(ev.Args)}), func(u *V) bool { return u.Op == OCall && u.Str == "reflect.ValueOf" })
				data := in
				if data == nil {
					data = st.mon["in"]
				}
				if arg == nil || data == nil || len(arg.Args) == 0 || st.mon["key"] == nil {
					c.bad("decoded", name+" rest", x, st, ev.Pos, "the decoder is not given what was received")
					return
				}
				body := unconv(arg.Args[0])
				if body.Op == OIface && len(body.Args) > 0 {
					body = body.Args[0]
				}
				ps, why := decodedFrom(st, data, map[string]*V{"number": st.mon["key"], "message": body}, nil)
				c.check(why == "", "decoded", name+" rest", x, st, ev.Pos, "a message is not read as it is: %s", why)
				if why == "" {
					f.note(&f.read, "a message", ps, ev.Pos)
				}
				st.mon["res"] = ev.Res
			case ev.Sfn != nil && c.opaqueIO(ev.Sfn):
				isOut(ev.Args[len(ev.Args)-1], " data")
				if e := errOf(ev.Res); e != nil {
					st.mon["failure"] = e
				} else {
					st.mon["failure"] = ev.Res
				}
				if ev.Sfn.Name() == "Request" {
					st.mon["answer"] = extract(ev.Res, 0)
					st.mon["in"] = st.mon["answer"]
				}
			}
		case EvStore:
			if b, _, m := c.enqueue(st, ev); b != nil && m != nil {
				isOut(vField(m, A.Msg, A.MsgData), " data")
				st.setFlag("io", true)
			}
		case EvReturn:
			if len(x.Root.parents) > 0 || ev.Res == nil {
				return
			}
			e := ev.Res
			if e.Op == OTuple {
				e = e.Args[len(e.Args)-1]
			}
			if !st.flag("failed") && st.nilness(e) >= 0 && !(st.mon["failure"] != nil && e == st.mon["failure"]) { // success
				switch {
				case encodes:
					isOut(ev.Res.Args[0], " result")
				case decodes:
					v := unconv(ev.Res.Args[0])
					ok := v.Op == OCall && v.Str == "(reflect.Value).Interface" && st.mon["res"] != nil && resultOf(v.Args, st.mon["res"]) == 0
					c.check(ok && st.flag("decoded"), "result", name, x, st, ev.Pos, "what is returned is not what the decoder made of the message")
				}
				c.check(!st.flag("unknown") && (msg == nil || st.flag("sent")), "refused", name, x, st, ev.Pos, "a message that is not registered is accepted")
				return
			}
			if e == st.mon["failure"] {
				return
			}
			if st.flag("failed") {
				c.check(chained(st, e), "result", name+" error", x, st, ev.Pos, "the error of the decoder is not returned")
				return
			}
			c.check(st.flag("unknown") || st.flag("short") || st.flag("io"), "refused", name+" only", x, st, ev.Pos, "a message of a registered type is refused")
		}
	}
	for _, fn := range users {
		c.ok("kept", fnName(fn), fn.Pos())
	}
	c.run(World{Name: "messages", Fns: users, Mons: []MonitorFunc{mon}, Layout: true, Skip: c.opaqueIO, OnGo: noGo})
	f.agree("same-form", "a message")
}

// offset takes a number apart into another one and what is added to it, whatever the number of bits.
func offset(v *V) (*V, int64) {
	v = unconv(v)
	if v.Op == OBin && (v.Str == "+" || v.Str == "-") && len(v.Args) == 2 {
		if k, ok := v.Args[1].intConst(); ok {
			u, n := offset(v.Args[0])
			if v.Str == "-" {
				k = -k
			}
			return u, n + k
		}
		if k, ok := v.Args[0].intConst(); ok && v.Str == "+" {
			u, n := offset(v.Args[1])
			return u, n + k
		}
	}
	return v, 0
}

// resultOf: the value taken apart is the i-th result of a call by reflection.
func resultOf(args []*V, res *V) int {
	if len(args) == 0 {
		return -1
	}
	v := unold(args[0])
	if v.Op == OInit || v.Op == OHavoc {
		v = v.Args[0]
	}
	if v.Op != OIndexAddr || unold(v.Args[0]) != unold(res) {
		return -1
	}
	n, ok := v.Args[1].intConst()
	if !ok {
		return -1
	}
	return int(n)
}

// partOfMsg: v is the data of the message a handler was given.
func partOfMsg(A *Anchors, v *V) bool {
	v = unold(unconv(v))
	if v == nil {
		return false
	}
	if v.Op == OField && v.Idx == A.MsgData && len(v.Args) > 0 && v.Args[0].Typ != nil && types.Identical(v.Args[0].Typ, A.Msg) {
		return true
	}
	if (v.Op == OInit || v.Op == OHavoc) && v.Args[0].Op == OFieldAddr {
		return sameNamed(deref(typOf(v.Args[0].Args[0].Typ)), A.Msg) && v.Args[0].Idx == A.MsgData
	}
	return false
}

// walkType: a struct type has a field of a type.
func walkType(t types.Type, name string) bool {
	s := structOf(t)
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == name {
			return true
		}
	}
	return false
}
