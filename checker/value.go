package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values are hash-consed terms. A term names where a value comes from (an allocation site in its calling
// context, the result of a call site, the initial contents of an address, ...); it never stands for concrete data.

type Op uint8

const (
	OConst     Op = iota // Str = exact value, Const
	OParam               // a symbolic root, Str = name
	OGlobal              // address of a package-level variable
	OFunc                // a function value
	OClosure             // a closure, Args = bindings
	OAlloc               // address of memory allocated at a site
	OFieldAddr           // address of field Idx of the struct at Args[0]
	OIndexAddr           // address of element Args[1] of Args[0]
	OInit                // the initial contents of address Args[0]
	OHavoc               // contents of address Args[0] after other goroutines may have changed it
	OZero                // the zero value of a type
	OStruct              // a struct value, Args = fields
	OField               // field Idx of the opaque struct value Args[0]
	OIndex               // element of an opaque array/string value
	OBin                 // Str = operator
	ONot
	ONeg
	OIsNil
	OConv    // conversion
	OIface   // concrete value in an interface
	OAssert  // result of a type assertion on an opaque interface
	OTuple   // Args
	OCall    // result of a call that is not inlined; Str = callee
	OExtract // component Idx of an opaque tuple
	OMakeChan
	OMakeMap
	OMakeSlice // Args = len, cap
	OSlice     // Args = x, lo, hi
	OAppend    // Args = x, y
	OStrCat
	OLen
	OCap
	ORecv    // Args[0] = channel
	OMapCell // pseudo address of the entry Args[1] of map Args[0]
	OPatch   // contents Args[0] overwritten at Args[1] by Args[2]
	OMapOK   // whether the entry at pseudo address Args[0] exists
	OGhost   // Str, Args: ghost cells kept by monitors and models
	OPhi     // a value carried around a loop
	OWiden   // repeated application of the same operation
	OOld     // an earlier instance of Args[0]
	OOpaque
)

var opNames = [...]string{"const", "param", "global", "func", "closure", "alloc", "fieldaddr", "indexaddr", "init", "havoc", "zero",
	"struct", "field", "index", "bin", "not", "neg", "isnil", "conv", "iface", "assert", "tuple", "call", "extract", "makechan",
	"makemap", "makeslice", "slice", "append", "strcat", "len", "cap", "recv", "mapcell", "patch", "mapok", "ghost", "phi", "widen",
	"old", "opaque"}

type V struct {
	Op    Op
	Str   string
	Idx   int
	Site  int // interned (context, instruction); 0 when structural
	Fn    *ssa.Function
	Typ   types.Type
	Const constant.Value
	Args  []*V
	Deps  []*V // contents the result of a call depends on
	Instr ssa.Instruction

	id    int
	depth int
}

type Interner struct {
	tab  map[string]*V
	typs map[string]int
	n    int
}

var in = &Interner{tab: map[string]*V{}, typs: map[string]int{}}

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	s := types.TypeString(t, nil)
	id, ok := in.typs[s]
	if !ok {
		id = len(in.typs) + 1
		in.typs[s] = id
	}
	return id
}

func mk(v V) *V {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(v.Op)))
	b.WriteByte('|')
	b.WriteString(v.Str)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(v.Idx))
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(v.Site))
	b.WriteByte('|')
	if v.Fn != nil {
		fmt.Fprintf(&b, "%p", v.Fn)
	}
	b.WriteByte('|')
	switch v.Op {
	case OConst, OZero, OConv, OIface, OAssert, OStruct, OParam:
		b.WriteString(strconv.Itoa(typeID(v.Typ)))
	}
	for _, a := range v.Args {
		b.WriteByte(',')
		if a == nil {
			b.WriteByte('_')
		} else {
			b.WriteString(strconv.Itoa(a.id))
			if a.depth >= v.depth {
				v.depth = a.depth + 1
			}
		}
	}
	b.WriteByte(';')
	for _, a := range v.Deps {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if a.depth >= v.depth {
			v.depth = a.depth + 1
		}
	}
	k := b.String()
	if x := in.tab[k]; x != nil {
		return x
	}
	if v.depth > 60 {
		if len(v.Deps) > 0 {
			d := v
			d.Deps = nil
			d.depth = 0
			return mk(d)
		}
		return mk(V{Op: OOpaque, Str: "deep:" + opNames[v.Op] + v.Str, Site: v.Site, Typ: v.Typ})
	}
	in.n++
	v.id = in.n
	x := &v
	in.tab[k] = x
	return x
}

func (v *V) String() string { return v.str(8) }

func (v *V) str(d int) string {
	if v == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range v.Args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch v.Op {
	case OConst:
		return v.Str
	case OParam, OGlobal:
		return v.Str
	case OFunc:
		return v.Fn.Name()
	case OClosure:
		return "closure " + v.Fn.Name()
	case OAlloc:
		return fmt.Sprintf("new@%d", v.Site)
	case OFieldAddr:
		return "&" + v.Args[0].str(d-1) + "." + v.Str
	case OInit:
		return "*" + v.Args[0].str(d-1)
	case OField:
		return v.Args[0].str(d-1) + "." + v.Str
	case OBin:
		return "(" + v.Args[0].str(d-1) + " " + v.Str + " " + v.Args[1].str(d-1) + ")"
	case OExtract:
		return v.Args[0].str(d-1) + "#" + strconv.Itoa(v.Idx)
	case OZero:
		return "zero(" + types.TypeString(v.Typ, func(p *types.Package) string { return p.Name() }) + ")"
	}
	s := opNames[v.Op]
	if v.Str != "" {
		s += ":" + v.Str
	}
	if v.Site != 0 {
		s += "@" + strconv.Itoa(v.Site)
	}
	return s + "(" + args() + ")"
}

// constructors

var (
	vNil   = mk(V{Op: OConst, Str: "nil"})
	vTrue  = mk(V{Op: OConst, Str: "true", Const: constant.MakeBool(true)})
	vFalse = mk(V{Op: OConst, Str: "false", Const: constant.MakeBool(false)})
)

func vInt(n int64) *V {
	return mk(V{Op: OConst, Str: strconv.FormatInt(n, 10), Const: constant.MakeInt64(n)})
}

func vConst(c *ssa.Const) *V {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return mk(V{Op: OZero, Typ: c.Type()})
		case *types.Basic:
			if b := c.Type().Underlying().(*types.Basic); b.Kind() != types.UntypedNil && b.Kind() != types.UnsafePointer {
				return zeroOf(c.Type())
			}
		}
		return vNil
	}
	return vConstValue(c.Value)
}

func vConstValue(v constant.Value) *V {
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return vTrue
		}
		return vFalse
	case constant.Int:
		return mk(V{Op: OConst, Str: v.ExactString(), Const: v})
	default:
		return mk(V{Op: OConst, Str: v.ExactString(), Const: v})
	}
}

func vParam(name string, t types.Type) *V { return mk(V{Op: OParam, Str: name, Typ: t}) }

func vGhost(name string, args ...*V) *V { return mk(V{Op: OGhost, Str: name, Args: args}) }

func vIsNil(x *V) *V {
	for x.Op == OConv {
		x = x.Args[0]
	}
	return mk(V{Op: OIsNil, Args: []*V{x}})
}

func vNot(x *V) *V {
	switch {
	case x == vTrue:
		return vFalse
	case x == vFalse:
		return vTrue
	case x.Op == ONot:
		return x.Args[0]
	}
	return mk(V{Op: ONot, Args: []*V{x}})
}

func zeroOf(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vFalse
		case u.Info()&types.IsNumeric != 0:
			return vInt(0)
		case u.Info()&types.IsString != 0:
			return vConstValue(constant.MakeString(""))
		}
		return vNil
	case *types.Struct, *types.Array:
		return mk(V{Op: OZero, Typ: t})
	}
	return vNil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := deref(t).Underlying().(*types.Struct)
	return s
}

// vFieldAddr is the address of field i of the struct at address x of struct type st (named type t).
func vFieldAddr(x *V, st types.Type, i int) *V {
	s := structOf(st)
	f := s.Field(i)
	return mk(V{Op: OFieldAddr, Args: []*V{x}, Idx: i, Str: f.Name(), Typ: types.NewPointer(f.Type())})
}

func vField(x *V, st types.Type, i int) *V {
	s := structOf(st)
	f := s.Field(i)
	switch x.Op {
	case OStruct:
		return x.Args[i]
	case OZero:
		return zeroOf(f.Type())
	}
	return mk(V{Op: OField, Args: []*V{x}, Idx: i, Str: f.Name(), Typ: f.Type()})
}

func vExtract(t *V, i int, typ types.Type) *V {
	if t.Op == OTuple {
		return t.Args[i]
	}
	return mk(V{Op: OExtract, Args: []*V{t}, Idx: i, Typ: typ})
}

func (v *V) isConst() bool { return v.Op == OConst }

func (v *V) intConst() (int64, bool) {
	if v.Op == OConst && v.Const != nil && v.Const.Kind() == constant.Int {
		return constant.Int64Val(v.Const)
	}
	return 0, false
}

// unconv strips conversions and interface wrapping.
func unconv(v *V) *V {
	for v != nil && (v.Op == OConv || v.Op == OIface || v.Op == OAssert) {
		v = v.Args[0]
	}
	return v
}

func unold(v *V) *V {
	for v != nil && v.Op == OOld {
		v = v.Args[0]
	}
	return v
}

// contains reports whether x occurs in v, in its arguments or in the contents it depends on.
func contains(v, x *V) bool {
	return walkFind(v, func(y *V) bool { return y == x })
}

func walkFind(v *V, f func(*V) bool) bool {
	seen := map[*V]bool{}
	var rec func(v *V) bool
	rec = func(v *V) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if f(v) {
			return true
		}
		for _, a := range v.Args {
			if rec(a) {
				return true
			}
		}
		for _, a := range v.Deps {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// rootOf strips field and element selections from an address.
func rootOf(a *V) *V {
	for a != nil && (a.Op == OFieldAddr || a.Op == OIndexAddr) {
		a = a.Args[0]
	}
	return a
}

// backing is the memory a slice value points into.
func backing(v *V) *V {
	for {
		if v == nil {
			return nil
		}
		switch v.Op {
		case OSlice, OConv, OWiden:
			v = v.Args[0]
		case OAppend:
			if freshBase(v.Args[0]) {
				return v
			}
			v = v.Args[0]
		default:
			return v
		}
	}
}

// freshBase reports whether appending to v always allocates: v is nil or an empty literal or empty made slice.
func freshBase(v *V) bool {
	v = unconv(v)
	if v == nil || v == vNil {
		return true
	}
	if v.Op == OSlice && v.Args[0].Op == OAlloc {
		if a, ok := deref(v.Args[0].Typ).Underlying().(*types.Array); ok && a.Len() == 0 {
			return true
		}
	}
	if v.Op == OMakeSlice && len(v.Args) > 1 {
		if n, ok := v.Args[1].intConst(); ok && n == 0 {
			return true
		}
	}
	return false
}

// subst replaces from by to in v.
func subst(v, from, to *V, memo map[*V]*V) *V {
	if v == nil || v == to {
		return v
	}
	if v == from {
		return to
	}
	if r, ok := memo[v]; ok {
		return r
	}
	r := v
	var args, deps []*V
	for i, a := range v.Args {
		if n := subst(a, from, to, memo); n != a {
			if args == nil {
				args = append([]*V{}, v.Args...)
			}
			args[i] = n
		}
	}
	for i, a := range v.Deps {
		if n := subst(a, from, to, memo); n != a {
			if deps == nil {
				deps = append([]*V{}, v.Deps...)
			}
			deps[i] = n
		}
	}
	if args != nil || deps != nil {
		c := *v
		c.depth, c.id = 0, 0
		if args != nil {
			c.Args = args
		}
		if deps != nil {
			c.Deps = deps
		}
		r = mk(c)
	}
	memo[v] = r
	return r
}

func constString(v *V) (string, bool) {
	if v.Op == OConst && v.Const != nil && v.Const.Kind() == constant.String {
		return constant.StringVal(v.Const), true
	}
	return "", false
}

// walkGet returns the first part of v of which f holds.
func walkGet(v *V, f func(*V) bool) *V {
	var got *V
	walkFind(v, func(u *V) bool {
		if got == nil && f(u) {
			got = u
		}
		return got != nil
	})
	return got
}
