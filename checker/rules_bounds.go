package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", c06)
	register("C07", c07)
}

func c07(c *Check) {
	c.rule("index", 25, "every index and slice bound is within the length of what it is applied to")
	c.rule("length", 3, "the length of every buffer made is not negative")
	c.rule("assert", 3, "a type is asserted only where it is known")
	c.rule("panic", 1, "nothing reached by messages panics on purpose")
	c.rule("nil", 3, "a result that may be missing is used only after it was found to be there")
	c.rule("callback", 10, "an optional callback is called only when it is set")
	c.rule("argument", 6, "what the library panics about is not passed to it")
	elems := c.P.listElems()
	mon := func(x *Exec, st *State, ev *Event) {
		n := fnName(ev.Fn)
		switch ev.Kind {
		case EvLoad:
			c.positiveConfig(st, ev)
			c.deref(x, st, ev, ev.Addr)
		case EvStore:
			c.deref(x, st, ev, ev.Addr)
		case EvSlice, EvIndex:
			if !apiNumbers(st, ev) || c.reflectResult(ev.X) {
				return
			}
			why, ok := st.inBounds(ev)
			ok = ok || ev.Kind == EvIndex && c.P.ownLoop(ev.Instr)
			c.check(ok, "index", n, x, st, ev.Pos, "%s", why)
		case EvMake:
			if !apiNumbers(st, ev) {
				return
			}
			why, ok := st.inBounds(ev)
			c.check(ok, "length", n, x, st, ev.Pos, "%s", why)
		case EvAssert:
			if ev.OK {
				return
			}
			ok := !ev.Block || c.reflectResult(ev.X)
			if t := elems[c.P.pkgOf(ev.Fn)]; !ok && t != nil && fromList(ev.X) {
				ok = types.Identical(t, ev.Typ)
			}
			c.check(ok, "assert", n+" "+typeName(ev.Typ), x, st, ev.Pos, "the value asserted to be %s may be something else", typeName(ev.Typ))
		case EvPanic:
			c.check(!c.onMessages(x), "panic", n, x, st, ev.Pos, "panics while a connection or message is dealt with")
		case EvBranch:
			sized(st, ev.Val)
		case EvCall:
			c.reduced(st, ev)
			c.precondition(x, st, ev)
			if ev.FnVal != nil && optionalFunc(ev.FnVal) {
				c.check(st.nilness(ev.FnVal) < 0, "callback", n+" "+ev.FnVal.Args[0].str(2), x, st, ev.Pos, "the callback may not be set")
			}
		}
	}
	c.okPanics()
	c.connWorld(true, mon)
	c.run(World{Name: "core", Fns: c.P.uncalled(c.P.exported("")), Mons: []MonitorFunc{mon}, NoContent: true, Coarse: true, OnGo: func(*Exec, *State, *Event, *Root) bool { return false }})
	c.subWorld("kademlia", false, mon)
	c.subWorld("gossip", true, mon)
}

// uncalled leaves out the functions the library calls itself, with arguments that meet what they require.
func (P *Program) uncalled(l []*ssa.Function) []*ssa.Function {
	called := map[*ssa.Function]bool{}
	for _, f := range P.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						called[g] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range l {
		if f.Signature.Recv() != nil || !called[f] {
			out = append(out, f)
		}
	}
	return out
}

// okPanics counts the goroutines and functions in which a panic would be a violation.
func (c *Check) okPanics() {
	c.ok("panic", "all entry points", token.NoPos)
}

// onMessages: what runs is not a call the user makes to set things up.
func (c *Check) onMessages(x *Exec) bool {
	r := x.Root
	if r == nil || r.Fn == nil {
		return true
	}
	return !setup[r.Fn.Name()]
}

// setup: functions a user calls before messages are exchanged, which may refuse what they are given by panicking.
var setup = map[string]bool{"RegisterMessage": true, "Bind": true, "Listen": true, "NewNode": true, "New": true, "NewTable": true, "NewIterator": true}

func (P *Program) pkgOf(f *ssa.Function) *ssa.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg
}

// listElems finds the type of all values put into lists, by package.
func (P *Program) listElems() map[*ssa.Package]types.Type {
	out := map[*ssa.Package]types.Type{}
	mixed := map[*ssa.Package]bool{}
	note := func(p *ssa.Package, v ssa.Value) {
		mi, ok := v.(*ssa.MakeInterface)
		if !ok || out[p] != nil && !types.Identical(out[p], mi.X.Type()) {
			mixed[p] = true
			return
		}
		out[p] = mi.X.Type()
	}
	for _, f := range P.all {
		p := P.pkgOf(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					cal := in.Common().StaticCallee()
					if cal == nil {
						continue
					}
					switch fullName(cal) {
					case "(*container/list.List).PushFront", "(*container/list.List).PushBack", "(*container/list.List).InsertBefore", "(*container/list.List).InsertAfter":
						note(p, in.Common().Args[1])
					case "(*container/list.List).PushBackList", "(*container/list.List).PushFrontList":
						mixed[p] = true
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && typeName(fa.X.Type()) == "*container/list.Element" {
						note(p, in.Val)
					}
				}
			}
		}
	}
	for p := range mixed {
		delete(out, p)
	}
	return out
}

// fromList: v was taken out of a list.
func fromList(v *V) bool {
	v = unold(v)
	if v.Op == OCall && v.Str == "(*container/list.List).Remove" {
		return true
	}
	if (v.Op == OInit || v.Op == OHavoc) && v.Args[0].Op == OFieldAddr {
		return v.Args[0].Args[0].Typ != nil && typeName(v.Args[0].Args[0].Typ) == "*container/list.Element"
	}
	return false
}

// reflectResult: v is what a function called by reflection returned; the types of such functions are checked where
// they are registered (C27).
func (c *Check) reflectResult(v *V) bool {
	return walkFind(v, func(g *V) bool { return g.Op == OCall && g.Str == "(reflect.Value).Call" })
}

// optionalFunc: v is held in a field of a struct.
func optionalFunc(v *V) bool {
	v = unold(v)
	switch v.Op {
	case OField:
		return true
	case OInit, OHavoc:
		return v.Args[0].Op == OFieldAddr
	}
	return false
}

var maybeNil = map[string]bool{
	"(*container/list.List).Front": true, "(*container/list.List).Back": true, "(*container/list.Element).Next": true, "(*container/list.Element).Prev": true,
	"(*math/big.Int).ModInverse": true, "(*math/big.Int).ModSqrt": true,
}

// mayBeNil: v is known to be nil, or a result that is nil when there is none.
func (st *State) mayBeNil(v *V) (string, bool) {
	v = unold(v)
	switch n := st.nilness(v); {
	case n < 0:
		return "", false
	case n > 0 && (v == vNil || v.Op == OInit || v.Op == OHavoc || v.Op == OCall || v.Op == OExtract || v.Op == OParam):
		return "is nil", true
	}
	switch v.Op {
	case OCall:
		if maybeNil[v.Str] && !(len(v.Args) > 0 && sizedKey(v.Args[0]) != "" && st.flag(sizedKey(v.Args[0]))) {
			return "may be nil", true
		}
	case OExtract:
		if v.Args[0].Op != OCall {
			return "", false
		}
		if e := errOf(v.Args[0]); e != nil && e != v && st.nilness(e) <= 0 {
			return "is there only if there was no error", true
		}
	}
	return "", false
}

// sized records that a collection of the object cond is about was counted: the list kept with it is as long (C22, C30).
func sized(st *State, cond *V) {
	walkFind(cond, func(u *V) bool {
		if u.Op == OLen || u.Op == OCall && u.Str == "(*container/list.List).Len" {
			if _, isMap := typeUnder(u.Args[0].Typ).(*types.Map); isMap || u.Op == OCall {
				if k := sizedKey(u.Args[0]); k != "" {
					st.setFlag(k, true)
				}
			}
		}
		return false
	})
}

func sizedKey(v *V) string {
	v = unold(v)
	if (v.Op == OInit || v.Op == OHavoc) && v.Args[0].Op == OFieldAddr {
		return fmt.Sprint("sized ", v.Args[0].Args[0].id)
	}
	return ""
}

func (c *Check) deref(x *Exec, st *State, ev *Event, r *V) {
	for r.Op == OFieldAddr || r.Op == OIndexAddr {
		r = r.Args[0]
	}
	if r.Op == OAlloc || r.Op == OGlobal || r.Op == OMakeSlice {
		return
	}
	if _, ok := typeUnder(r.Typ).(*types.Pointer); !ok && r != vNil {
		return
	}
	why, bad := st.mayBeNil(r)
	if bad {
		c.bad("nil", fnName(ev.Fn), x, st, ev.Pos, "what is used here %s", why)
	} else if unold(r).Op == OCall || unold(r).Op == OExtract {
		c.ok("nil", fnName(ev.Fn), ev.Pos)
	}
}

// precondition: requirements of library functions that panic.
func (c *Check) precondition(x *Exec, st *State, ev *Event) {
	n := fnName(ev.Fn)
	need := func(k int, exact bool, want lin, what string) {
		if k >= len(ev.Args) {
			return
		}
		l := lenOf(ev.Args[k])
		c.check(st.ge(l, want) && (!exact || st.ge(want, l)), "argument", n+" "+what, x, st, ev.Pos, "%s of length %s is given %s, not %s", what, l, ev.Name, want)
	}
	m := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
	if strings.Contains(ev.Name, "encoding/binary.") && strings.Contains(m, "Uint") && !strings.HasPrefix(m, "Append") {
		var bits int64
		fmt.Sscanf(m[strings.Index(m, "Uint")+4:], "%d", &bits)
		need(0, false, newLin(bits/8), "a buffer")
	}
	if ev.Recv != nil {
		if why, bad := st.mayBeNil(ev.Recv); bad && ev.Sfn == nil {
			c.bad("nil", n+" "+m, x, st, ev.Pos, "what %s is called on %s", ev.Name, why)
		}
	}
	switch {
	case strings.HasSuffix(ev.Name, "AEAD).Seal"), strings.HasSuffix(ev.Name, "AEAD).Open"):
		size := atomLin(mk(V{Op: OCall, Str: "(crypto/cipher.AEAD).NonceSize", Args: []*V{ev.Recv}, Typ: types.Typ[types.Int]}))
		if madeFrom(ev.Recv, "crypto/cipher.NewGCM") && st.ge(lenOf(ev.Args[1]), newLin(12)) && st.ge(newLin(12), lenOf(ev.Args[1])) {
			c.ok("argument", n+" a nonce", ev.Pos)
			break
		}
		need(1, true, size, "a nonce")
	case strings.HasSuffix(ev.Name, "ed25519.Sign"):
		need(0, true, newLin(64), "a private key")
	case strings.HasSuffix(ev.Name, "ed25519.Verify"):
		need(0, true, newLin(32), "a public key")
	case strings.HasSuffix(ev.Name, "ed25519.NewKeyFromSeed"):
		need(0, true, newLin(32), "a seed")
	}
}

// apiNumbers: numbers the user passes are taken not to be negative.
func apiNumbers(st *State, ev *Event) bool {
	for _, v := range []*V{ev.Lo, ev.Hi, ev.Max} {
		if v != nil && v.Op == OParam {
			if st.ge(newLin(-1), linOf(v)) {
				return false
			}
			st.facts[mk(V{Op: OBin, Str: "<", Args: []*V{v, vInt(0)}, Typ: types.Typ[types.Bool]})] = false
		}
	}
	return true
}

// positiveConfig: numbers that only options set are taken to be at least one.
func (c *Check) positiveConfig(st *State, ev *Event) {
	a := ev.Addr
	if a.Op != OFieldAddr || ev.Val == nil || ev.Val.Op != OInit && ev.Val.Op != OHavoc {
		return
	}
	b := basicOf(ev.Val.Typ)
	if b == nil || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUnsigned != 0 {
		return
	}
	if c.P.counterField(a.Args[0].Typ, a.Idx) {
		st.facts[mk(V{Op: OBin, Str: "<", Args: []*V{ev.Val, vInt(0)}, Typ: types.Typ[types.Bool]})] = false
	}
	if c.P.configField(a.Args[0].Typ, a.Idx) {
		st.facts[mk(V{Op: OBin, Str: "<", Args: []*V{ev.Val, vInt(1)}, Typ: types.Typ[types.Bool]})] = false
	}
}

// counterField: the field only ever goes up or down by one, as entries come and go (C30).
func (P *Program) counterField(t types.Type, i int) bool {
	fi := P.field(t, i)
	if fi == nil {
		return false
	}
	n := 0
	for _, f := range P.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || P.field(fa.X.Type(), fa.Field) != fi {
					continue
				}
				n++
				bo, ok := s.Val.(*ssa.BinOp)
				if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
					return false
				}
				ld, ok := bo.X.(*ssa.UnOp)
				k, ok2 := bo.Y.(*ssa.Const)
				if !ok || !ok2 || P.loadedField(ld) != fi || k.Int64() != 1 {
					return false
				}
			}
		}
	}
	return n > 0
}

// configField: outside constructors the field is only set by functional options.
func (P *Program) configField(t types.Type, i int) bool {
	fi := P.field(t, i)
	if fi == nil {
		return false
	}
	for _, f := range P.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || P.field(fa.X.Type(), fa.Field) != fi || freshAlloc(fa.X) {
					continue
				}
				if f.Parent() == nil || f.Parent().Signature.Results().Len() != 1 {
					return false
				}
				if _, ok := f.Parent().Signature.Results().At(0).Type().Underlying().(*types.Signature); !ok {
					return false
				}
			}
		}
	}
	return true
}

// inBounds decides whether what ev does cannot fail.
func (st *State) inBounds(ev *Event) (string, bool) {
	zero := newLin(0)
	switch ev.Kind {
	case EvSlice:
		if ev.OK { // conversion to an array
			return "len " + lenOf(ev.X).String(), st.ge(lenOf(ev.X), linOf(ev.Hi))
		}
		lo, hi := zero, lenOf(ev.X)
		if ev.Lo != nil {
			lo = linOf(ev.Lo)
		}
		lim := capOf(ev.X)
		if ev.X.Typ != nil && basicOf(ev.X.Typ) != nil {
			lim = lenOf(ev.X)
		}
		if ev.Hi != nil {
			hi = linOf(ev.Hi)
		}
		if ev.Max != nil {
			m := linOf(ev.Max)
			if !st.ge(lim, m) {
				return "max beyond capacity", false
			}
			lim = m
		}
		if ev.Hi != nil && !st.ge(lim, hi) && !st.ge(lenOf(ev.X), hi) {
			return fmt.Sprintf("upper bound %s may exceed %s", hi, lim), false
		}
		if ev.Lo != nil && !st.ge(lo, zero) {
			return fmt.Sprintf("lower bound %s may be negative", lo), false
		}
		if !st.ge(hi, lo) {
			return fmt.Sprintf("lower bound %s may exceed %s", lo, hi), false
		}
	case EvIndex:
		i, n := linOf(ev.Lo), lenOf(ev.X)
		if k, ok := staticLen(ev.Instr); ok {
			n = newLin(k)
		}
		if !st.ge(i, zero) {
			return fmt.Sprintf("index %s may be negative", i), false
		}
		if !st.ge(n, i.plus(1)) {
			return fmt.Sprintf("index %s may not be below %s", i, n), false
		}
	case EvMake:
		l := linOf(ev.Lo)
		if !st.ge(l, zero) {
			return fmt.Sprintf("length %s may be negative", l), false
		}
		if ev.Hi != nil && ev.Hi != ev.Lo && !st.ge(linOf(ev.Hi), l) {
			return fmt.Sprintf("capacity %s may be below length %s", linOf(ev.Hi), l), false
		}
	case EvAssert:
		if !ev.OK && ev.Block {
			return "the type is not known", false
		}
	case EvPanic:
		return "panics", false
	}
	return "", true
}

// staticLen is the length of the array that instr indexes.
func staticLen(instr ssa.Instruction) (int64, bool) {
	var v ssa.Value
	switch i := instr.(type) {
	case *ssa.Index:
		v = i.X
	case *ssa.IndexAddr:
		v = i.X
	default:
		return 0, false
	}
	if a, ok := deref(v.Type()).Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

var bigReads = map[string]bool{"Bytes": true, "Cmp": true, "CmpAbs": true, "Sign": true, "BitLen": true, "String": true, "Text": true, "Bit": true, "IsInt64": true, "Int64": true,
	"Uint64": true, "IsUint64": true, "FillBytes": true, "Bits": true, "ProbablyPrime": true, "TrailingZeroBits": true, "Append": true, "Format": true}

// reduced follows which big integers were reduced modulo a constant of the package, and so how long they can be.
func (c *Check) reduced(st *State, ev *Event) {
	const pre = "(*math/big.Int)."
	if !strings.HasPrefix(ev.Name, pre) || ev.Recv == nil {
		return
	}
	m := ev.Name[len(pre):]
	same := func(v *V) *V { // methods of big.Int return what they are called on
		for v != nil && v.Op == OCall && strings.HasPrefix(v.Str, pre) && len(v.Args) > 0 {
			v = v.Args[0]
		}
		return v
	}
	r := same(ev.Recv)
	if r == nil {
		return
	}
	key := fmt.Sprint("reduced ", r.id)
	switch {
	case m == "Bytes":
		if n := st.count(key); n > 0 && ev.Res != nil {
			st.assume(mk(V{Op: OBin, Str: "<", Args: []*V{vInt((int64(n) + 7) / 8), vLen(ev.Res)}, Typ: types.Typ[types.Bool]}), false)
		}
	case bigReads[m]:
	case m == "Mod" && len(ev.Args) == 2:
		st.setCount(key, int64(c.P.constantBits(ev.Args[1])))
	default:
		st.setCount(key, 0)
	}
}

// constantBits is the size of a package-level integer that is only set when the package is initialised.
func (P *Program) constantBits(v *V) int {
	v = unold(v)
	if (v.Op != OInit && v.Op != OHavoc) || v.Args[0].Op != OGlobal {
		return 0
	}
	var found *big.Int
	for _, f := range P.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || g.Pkg.Pkg.Path()+"."+g.Name() != v.Args[0].Str && g.String() != v.Args[0].Str {
					continue
				}
				n := evalBig(s.Val)
				if n == nil || found != nil {
					return 0
				}
				found = n
			}
		}
	}
	if found == nil || found.Sign() <= 0 {
		return 0
	}
	return new(big.Int).Sub(found, big.NewInt(1)).BitLen()
}

// evalBig is the value of an initialiser made of constants.
func evalBig(v ssa.Value) *big.Int {
	switch v := v.(type) {
	case *ssa.Extract:
		return evalBig(v.Tuple)
	case *ssa.Call:
		cal := v.Call.StaticCallee()
		if cal == nil {
			return nil
		}
		num := func(i int) (int64, bool) {
			if i < len(v.Call.Args) {
				if k, ok := v.Call.Args[i].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
					return constant.Int64Val(k.Value)
				}
			}
			return 0, false
		}
		switch fullName(cal) {
		case "(*math/big.Int).SetString":
			s, ok := v.Call.Args[1].(*ssa.Const)
			base, ok2 := num(2)
			if ok && ok2 {
				if n, ok := new(big.Int).SetString(constant.StringVal(s.Value), int(base)); ok {
					return n
				}
			}
		case "math/big.NewInt":
			if k, ok := num(0); ok {
				return big.NewInt(k)
			}
		case "(*math/big.Int).Sub", "(*math/big.Int).Add":
			a, b := evalBig(v.Call.Args[1]), evalBig(v.Call.Args[2])
			if a != nil && b != nil {
				if cal.Name() == "Sub" {
					return a.Sub(a, b)
				}
				return a.Add(a, b)
			}
		case "(*math/big.Int).Lsh":
			if a := evalBig(v.Call.Args[1]); a != nil {
				if k, ok := num(2); ok && k < 4096 {
					return a.Lsh(a, uint(k))
				}
			}
		}
	}
	return nil
}

// origins follows a value back through parameters, captured variables and variables kept in memory to the
// instructions that computed it.
func (P *Program) origins(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	var cell func(a ssa.Value) []ssa.Value
	cell = func(a ssa.Value) []ssa.Value {
		switch a := a.(type) {
		case *ssa.Alloc:
			return []ssa.Value{a}
		case *ssa.FreeVar:
			var l []ssa.Value
			for i, fv := range a.Parent().FreeVars {
				if fv == a {
					for _, mc := range closuresOf(P, a.Parent()) {
						l = append(l, cell(mc.Bindings[i])...)
					}
				}
			}
			return l
		}
		return nil
	}
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch u := v.(type) {
		case *ssa.Parameter:
			n := 0
			for _, f := range P.all {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						ci, ok := in.(ssa.CallInstruction)
						if !ok || ci.Common().StaticCallee() != u.Parent() {
							continue
						}
						for i, p := range u.Parent().Params {
							if p == u {
								n++
								walk(ci.Common().Args[i])
							}
						}
					}
				}
			}
			if n == 0 {
				out = append(out, v)
			}
		case *ssa.UnOp:
			cells := cell(u.X)
			if u.Op != token.MUL || len(cells) == 0 {
				out = append(out, v)
				return
			}
			for _, c := range cells {
				for _, f := range P.all {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if s, ok := in.(*ssa.Store); ok {
								for _, d := range cell(s.Addr) {
									if d == c {
										walk(s.Val)
									}
								}
							}
						}
					}
				}
			}
		default:
			out = append(out, v)
		}
	}
	walk(v)
	return out
}

func closuresOf(P *Program, f *ssa.Function) []*ssa.MakeClosure {
	var out []*ssa.MakeClosure
	for _, g := range P.all {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					out = append(out, mc)
				}
			}
		}
	}
	return out
}

// ownLoop: the slice indexed is a field, and the index counted up to the length of that field where it comes from.
func (P *Program) ownLoop(instr ssa.Instruction) bool {
	ia, ok := instr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	f := P.loadedField(ia.X)
	if f == nil {
		return false
	}
	if _, isParam := ia.Index.(*ssa.Parameter); !isParam {
		if u, ok := ia.Index.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return false
		}
	}
	for _, o := range P.origins(ia.Index) {
		found := false
		if o.Parent() == nil {
			return false
		}
		for _, b := range o.Parent().Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.BinOp)
				if !ok || c.Op != token.LSS && c.Op != token.NEQ || c.X != o {
					continue
				}
				if l, ok := c.Y.(*ssa.Call); ok {
					if bi, ok := l.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && P.loadedField(l.Call.Args[0]) == f {
						found = true
					}
				}
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func c06(c *Check) {
	A := c.A
	c.rule("bounded-read", 2, "no more is read from a connection at once than the limit on received messages allows")
	c.rule("bounded-buffer", 1, "no buffer is made longer than the limit on received messages allows")
	c.rule("refused", 1, "a message over the limit ends the connection with an error that is ErrMessageTooLarge")
	c.rule("not-read", 1, "nothing more is read once a message was found to be over the limit")
	c.rule("accepted", 1, "the error for messages over the limit is made only when the size announced exceeds the limit")
	lim := A.Opt["MaxRecvMessageSize"]
	tooLarge := func(v *V) bool {
		return v != nil && walkFind(v, func(u *V) bool {
			return u.Op == OInit && u.Args[0].Op == OGlobal && strings.HasSuffix(u.Args[0].Str, ".ErrMessageTooLarge")
		})
	}
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || ci.writer {
			return
		}
		L := st.mon["limit"]
		bound := func(l lin, extra int64) bool {
			return st.ge(newLin(extra), l) || st.flag("unlimited") || L != nil && (st.ge(linOf(L).plus(extra), l) || st.ge(newLin(0), linOf(L)))
		}
		switch ev.Kind {
		case EvLoad:
			if lim.match(ev.Addr) != nil {
				st.mon["limit"] = ev.Val
				if st.ge(newLin(0), linOf(ev.Val)) {
					st.setFlag("unlimited", true)
				}
			}
		case EvBranch:
			if L == nil || !mentions(ev.Val, L) && !walkFind(ev.Val, func(u *V) bool { return u == L }) {
				return
			}
			if w := walkGet(ev.Val, func(u *V) bool { return u.Op == OBin && (u.Str == "<" || u.Str == "==") }); w != nil && isIntTerm(w.Args[0]) && isIntTerm(w.Args[1]) {
				for a := range linOf(w.Args[0]).add(linOf(w.Args[1]), -1).m {
					if a != L && !mentions(a, L) && a.Op != OLen && a.Op != OCap {
						st.mon["size"] = a
					}
				}
			}
			if st.ge(newLin(0), linOf(L)) {
				st.setFlag("unlimited", true)
			}
			if s := st.mon["size"]; s != nil && st.ge(linOf(L), newLin(1)) {
				if st.ge(linOf(s), linOf(L).plus(1)) {
					st.setFlag("over", true)
				}
			}
		case EvMake:
			if announced(linOf(ev.Lo), L) {
				c.check(bound(linOf(ev.Lo), 64), "bounded-buffer", ci.dir()+" "+fnName(ev.Fn), x, st, ev.Pos, "a buffer of %s bytes is made", linOf(ev.Lo))
			}
		case EvCall:
			if tooLarge(mk(V{Op: OTuple, Args: nonNil(ev.Args)})) && (ev.Name == "fmt.Errorf" || ev.Name == "errors.Join") {
				c.check(st.flag("over"), "accepted", ci.dir(), x, st, ev.Pos, "the error is made where the size is not known to exceed the limit")
				if ev.Name == "fmt.Errorf" {
					f, ok := constString(ev.Args[0])
					c.check(ok && strings.Contains(f, "%w"), "refused", ci.dir()+" wraps", x, st, ev.Pos, "the error does not wrap ErrMessageTooLarge")
				}
				st.setFlag("made", true)
			}
			l, what := connRead(ev)
			if what == "" {
				return
			}
			c.check(!st.flag("over"), "not-read", ci.dir()+" "+what, x, st, ev.Pos, "more is read of a message over the limit")
			if l == nil {
				c.bad("bounded-read", ci.dir()+" "+what, x, st, ev.Pos, "reads without a bound")
				return
			}
			c.check(bound(*l, 8), "bounded-read", ci.dir()+" "+what, x, st, ev.Pos, "up to %s bytes are read at once", *l)
		case EvStore:
			if b := A.Err.match(ev.Addr); b != nil && st.nilness(ev.Val) <= 0 {
				if tooLarge(ev.Val) {
					c.check(st.flag("over"), "accepted", ci.dir()+" stored", x, st, ev.Pos, "the error is recorded where the size is not known to exceed the limit")
				}
				if st.flag("over") {
					c.check(tooLarge(ev.Val) || st.flag("made"), "refused", ci.dir(), x, st, ev.Pos, "the error recorded for a message over the limit is not ErrMessageTooLarge")
				}
			}
		case EvReturn:
			if st.flag("over") {
				c.check(st.flag("reported"), "refused", ci.dir()+" recorded", x, st, ev.Pos, "a message over the limit is given up on without an error being recorded")
			}
		}
	}
	c.connWorld(true, c.trackErr(), mon)
}

// announced: l is made of a number other than the lengths of what there is already and the limit.
func announced(l lin, limit *V) bool {
	for a := range l.m {
		if a.Op != OLen && a.Op != OCap && a != limit && !(a.Op == OCall && constantCall[a.Str]) {
			return true
		}
	}
	return false
}

func nonNil(l []*V) []*V {
	var out []*V
	for _, v := range l {
		if v != nil {
			out = append(out, v)
		}
	}
	return out
}

// connRead: ev reads from a connection, at most the number of bytes given when that is bounded.
func connRead(ev *Event) (*lin, string) {
	fromConn := func(v *V) bool {
		v = unconv(unold(v))
		if v == nil || v.Typ == nil {
			return false
		}
		if v.Op == OIface && len(v.Args) > 0 {
			v = unold(v.Args[0])
		}
		if v.Op == OCall && (strings.HasPrefix(v.Str, "bytes.") || strings.HasPrefix(v.Str, "strings.")) {
			return false
		}
		if (v.Op == OInit || v.Op == OHavoc) && v.Args[0].Op == OGlobal {
			return false // the system's random numbers
		}
		switch typeName(v.Typ) {
		case "net.Conn", "io.Reader", "*bufio.Reader", "*net.TCPConn", "*bufio.ReadWriter":
			return true
		}
		return false
	}
	ln := func(v *V) *lin { l := lenOf(v); return &l }
	switch {
	case ev.Name == "io.ReadFull" && fromConn(ev.Args[0]):
		return ln(ev.Args[1]), "ReadFull"
	case ev.Name == "io.ReadAtLeast" && fromConn(ev.Args[0]):
		return ln(ev.Args[1]), "ReadAtLeast"
	case ev.Name == "io.CopyN" && fromConn(ev.Args[1]):
		l := linOf(ev.Args[2])
		return &l, "CopyN"
	case (ev.Name == "io.ReadAll" || ev.Name == "io/ioutil.ReadAll") && fromConn(ev.Args[0]):
		return nil, "ReadAll"
	case ev.Name == "io.Copy" && fromConn(ev.Args[1]):
		return nil, "Copy"
	}
	if ev.Recv == nil || !fromConn(ev.Recv) {
		return nil, ""
	}
	switch m := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]; m {
	case "Read":
		return ln(ev.Args[0]), m
	case "Peek", "Discard":
		l := linOf(ev.Args[0])
		return &l, m
	case "ReadByte", "UnreadByte":
		l := newLin(1)
		return &l, m
	case "ReadBytes", "ReadString", "ReadLine", "ReadSlice", "WriteTo":
		return nil, m
	}
	return nil, ""
}
