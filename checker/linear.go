package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
)

// A small relational numeric domain: linear inequalities over lengths, capacities and integer terms. A lin stands for
// sum(coef * atom) + c, a constraint for lin <= 0.

type lin struct {
	m map[*V]int64
	c int64
}

func newLin(c int64) lin { return lin{m: map[*V]int64{}, c: c} }

func (l lin) add(o lin, k int64) lin {
	r := lin{m: make(map[*V]int64, len(l.m)+len(o.m)), c: l.c + k*o.c}
	for a, n := range l.m {
		r.m[a] = n
	}
	for a, n := range o.m {
		if v := r.m[a] + k*n; v != 0 {
			r.m[a] = v
		} else {
			delete(r.m, a)
		}
	}
	return r
}

func (l lin) plus(k int64) lin { r := l.add(newLin(0), 1); r.c += k; return r }

func atomLin(v *V) lin { return lin{m: map[*V]int64{v: 1}} }

func basicOf(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intBits(t types.Type) (bits int, unsigned bool, ok bool) {
	b := basicOf(t)
	if b == nil || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false, true
	case types.Int16:
		return 16, false, true
	case types.Int32:
		return 32, false, true
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true, true
	}
	return 64, false, true
}

// linOf expresses an integer term.
func linOf(v *V) lin {
	if n, ok := v.intConst(); ok {
		return newLin(n)
	}
	switch v.Op {
	case OConv:
		fb, fu, ok1 := intBits(v.Args[0].Typ)
		tb, tu, ok2 := intBits(v.Typ)
		if ok1 && ok2 && (tb > fb || tb == fb && (fu == tu || tb == 64)) {
			if tu && !fu && tb > fb { // sign extension to a larger unsigned type
				break
			}
			if fu && !tu && tb == fb && walkFind(v.Args[0], func(g *V) bool { return g.Op == OCall }) { // computed, possibly huge
				break
			}
			return linOf(v.Args[0])
		}
		if _, ok := v.Args[0].intConst(); ok {
			return linOf(v.Args[0])
		}
	case OBin:
		bits, uns, ok := intBits(v.Typ)
		if !ok || bits < 64 {
			break
		}
		switch v.Str {
		case "+":
			if uns {
				break
			}
			return linOf(v.Args[0]).add(linOf(v.Args[1]), 1)
		case "-":
			if uns {
				break
			}
			return linOf(v.Args[0]).add(linOf(v.Args[1]), -1)
		case "*":
			if n, ok := v.Args[0].intConst(); ok && !uns {
				return newLin(0).add(linOf(v.Args[1]), n)
			}
			if n, ok := v.Args[1].intConst(); ok && !uns {
				return newLin(0).add(linOf(v.Args[0]), n)
			}
		}
	case OLen:
		return lenOf(v.Args[0])
	case OCap:
		return capOf(v.Args[0])
	}
	return atomLin(v)
}

func vLen(x *V) *V { return mk(V{Op: OLen, Args: []*V{x}, Typ: types.Typ[types.Int]}) }
func vCap(x *V) *V { return mk(V{Op: OCap, Args: []*V{x}, Typ: types.Typ[types.Int]}) }

// lenOf is the length of the slice, string, array or map term x.
func lenOf(x *V) lin {
	switch x.Op {
	case OConst:
		if x == vNil {
			return newLin(0)
		}
		if x.Const != nil {
			if s, ok := constString(x); ok {
				return newLin(int64(len(s)))
			}
		}
	case OZero:
		if a, ok := x.Typ.Underlying().(*types.Array); ok {
			return newLin(a.Len())
		}
	case OConv, OAssert:
		return lenOf(x.Args[0])
	case OMakeSlice:
		return linOf(x.Args[0])
	case OAppend:
		return lenOf(x.Args[0]).add(lenOf(x.Args[1]), 1)
	case OStrCat:
		return lenOf(x.Args[0]).add(lenOf(x.Args[1]), 1)
	case OSlice:
		lo := newLin(0)
		if x.Args[1] != nil {
			lo = linOf(x.Args[1])
		}
		hi := lin{}
		if x.Args[2] != nil {
			hi = linOf(x.Args[2])
		} else {
			hi = lenOf(sliceBase(x.Args[0]))
		}
		return hi.add(lo, -1)
	}
	if x.Typ != nil {
		if a, ok := deref(x.Typ).Underlying().(*types.Array); ok {
			return newLin(a.Len())
		}
	}
	return atomLin(vLen(x))
}

// sliceBase: slicing a pointer to an array slices the array.
func sliceBase(x *V) *V { return x }

// capOf is the capacity of the slice term x.
func capOf(x *V) lin {
	switch x.Op {
	case OConst, OZero:
		return lenOf(x)
	case OMakeSlice:
		return linOf(x.Args[1])
	case OMakeChan:
		return linOf(x.Args[0])
	case OSlice:
		lo := newLin(0)
		if x.Args[1] != nil {
			lo = linOf(x.Args[1])
		}
		if len(x.Args) > 3 && x.Args[3] != nil {
			return linOf(x.Args[3]).add(lo, -1)
		}
		if b := basicOf(x.Args[0].Typ); b != nil { // string
			return lenOf(x)
		}
		return capOf(x.Args[0]).add(lo, -1)
	}
	if x.Typ != nil {
		if a, ok := deref(x.Typ).Underlying().(*types.Array); ok {
			return newLin(a.Len())
		}
	}
	return atomLin(vCap(x))
}

// constraints of a state.

type linSys struct {
	cons []lin // each <= 0
	neq  []lin // each != 0
}

func (st *State) linSys(extra ...lin) *linSys {
	s := &linSys{}
	for f, truth := range st.facts {
		if f.Op != OBin {
			continue
		}
		switch f.Str {
		case "<":
			if !isIntTerm(f.Args[0]) || !isIntTerm(f.Args[1]) {
				continue
			}
			a, b := linOf(f.Args[0]), linOf(f.Args[1])
			if truth {
				s.cons = append(s.cons, a.add(b, -1).plus(1))
			} else {
				s.cons = append(s.cons, b.add(a, -1))
			}
		case "==":
			if !isIntTerm(f.Args[0]) || !isIntTerm(f.Args[1]) {
				continue
			}
			a, b := linOf(f.Args[0]), linOf(f.Args[1])
			d := a.add(b, -1)
			if truth {
				s.cons = append(s.cons, d, newLin(0).add(d, -1))
			} else {
				s.neq = append(s.neq, d)
			}
		}
	}
	s.cons = append(s.cons, extra...)
	return s
}

func isIntTerm(v *V) bool {
	if _, ok := v.intConst(); ok {
		return true
	}
	if v.Op == OLen || v.Op == OCap {
		return true
	}
	_, _, ok := intBits(v.Typ)
	return ok
}

// axioms adds what holds of every atom by its kind.
func (s *linSys) axioms(goal lin) {
	seen := map[*V]bool{}
	var work []*V
	push := func(l lin) {
		for a := range l.m {
			if !seen[a] {
				seen[a] = true
				work = append(work, a)
			}
		}
	}
	push(goal)
	for _, c := range s.cons {
		push(c)
	}
	for _, c := range s.neq {
		push(c)
	}
	add := func(l lin) { s.cons = append(s.cons, l); push(l) }
	for len(work) > 0 {
		a := work[0]
		work = work[1:]
		nonneg := false
		switch a.Op {
		case OLen:
			nonneg = true
			if n, ok := fixedLen(a.Args[0]); ok { // when the call succeeded; what is done with the result otherwise is of no interest
				add(atomLin(a).plus(-n))
				add(newLin(n).add(atomLin(a), -1))
			}
			if _, isMap := typeUnder(a.Args[0].Typ).(*types.Map); !isMap {
				add(atomLin(a).add(capOf(a.Args[0]), -1)) // len <= cap
			}
		case OCap:
			nonneg = true
			add(lenOf(a.Args[0]).add(atomLin(a), -1))
		default:
			if bits, uns, ok := intBits(a.Typ); ok && uns {
				nonneg = true
				if bits < 63 {
					add(atomLin(a).plus(-(int64(1)<<uint(bits) - 1)))
				}
			}
			// x & mask, x % m
			if a.Op == OBin && a.Str == "%" {
				m := linOf(a.Args[1])
				push(m)
				if infeasible(append(append([]lin{}, s.cons...), m)) { // a positive divisor
					add(atomLin(a).add(m, -1).plus(1))
					d := linOf(a.Args[0])
					push(d)
					if infeasible(append(append([]lin{}, s.cons...), d.plus(1))) {
						nonneg = true
					}
				}
			}
			if a.Op == OOpaque && a.Str == "copied" && len(a.Args) == 2 {
				nonneg = true
				for _, l := range a.Args {
					add(atomLin(a).add(linOf(l), -1))
				}
			}
			if a.Op == OBin && a.Str == "&" {
				if m, ok := a.Args[1].intConst(); ok && m >= 0 {
					nonneg = true
					add(atomLin(a).plus(-m))
				}
			}
			if a.Op == OCall && resultNonNeg[a.Str] || a.Op == OExtract && a.Args[0].Op == OCall && resultNonNeg[a.Args[0].Str] {
				nonneg = true
			}
			if n, ok := resultMax[callName(a)]; ok {
				nonneg = true
				add(atomLin(a).plus(-n))
			}
			if a.Op == OBin && a.Str == "-" {
				// 64-bit unsigned subtraction: exact when it cannot wrap; handled by the caller's facts
			}
		}
		if nonneg {
			s.cons = append(s.cons, newLin(0).add(atomLin(a), -1))
		}
	}
}

// resultLen: calls whose (first) result has a fixed length.
var resultLen = map[string]int64{
	"github.com/oasislabs/ed25519/extra/x25519.X25519": 32, "golang.org/x/crypto/curve25519.X25519": 32,
	"github.com/oasislabs/ed25519.Sign": 64, "crypto/ed25519.Sign": 64,
}

// hashSize: the constructors of hashes.
var hashSize = map[string]int64{"crypto/sha512.New": 64, "crypto/sha256.New": 32, "crypto/sha512.New512_256": 32, "crypto/sha512.New384": 48, "golang.org/x/crypto/blake2b.New256": 32}

func fixedLen(v *V) (int64, bool) {
	if n, ok := resultLen[callName(v)]; ok {
		return n, true
	}
	if v.Op == OCall && strings.HasSuffix(v.Str, ".Sum") && len(v.Args) == 2 {
		if n, ok := lenOf(v.Args[1]).isConst(); ok {
			if k, ok := hashSize[callName(v.Args[0])]; ok {
				return n + k, true
			}
		}
	}
	return 0, false
}

func (l lin) isConst() (int64, bool) { return l.c, len(l.m) == 0 }

func callName(v *V) string {
	if v.Op == OExtract && v.Idx == 0 {
		v = v.Args[0]
	}
	if v.Op == OCall {
		return v.Str
	}
	return ""
}

var resultNonNeg = map[string]bool{
	"(crypto/cipher.AEAD).NonceSize": true, "(crypto/cipher.AEAD).Overhead": true,
	"(*container/list.List).Len": true,
}

// resultMax: functions with a result between 0 and a constant.
var resultMax = map[string]int64{"math/bits.LeadingZeros8": 8, "math/bits.TrailingZeros8": 8, "math/bits.Len8": 8, "math/bits.OnesCount8": 8,
	"math/bits.LeadingZeros16": 16, "math/bits.TrailingZeros16": 16, "math/bits.LeadingZeros32": 32, "math/bits.TrailingZeros32": 32,
	"math/bits.LeadingZeros64": 64, "math/bits.TrailingZeros64": 64, "math/bits.Len64": 64, "math/bits.Len32": 32, "math/bits.Len16": 16}

func typeUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// entails reports whether the state's facts imply goal <= 0.
func (st *State) entails(goal lin, extra ...lin) bool {
	if len(goal.m) == 0 {
		if goal.c <= 0 {
			return true
		}
	}
	s := st.linSys(extra...)
	return s.entails(goal)
}

func (s *linSys) entails(goal lin) bool {
	neg := newLin(0).add(goal, -1).plus(1) // goal >= 1
	cons := append([]lin{}, s.cons...)
	t := &linSys{cons: cons, neq: s.neq}
	t.axioms(goal)
	// strengthen with disequalities: d <= 0 and d != 0 gives d <= -1
	for round := 0; round < 2; round++ {
		for _, d := range t.neq {
			if infeasible(append(append([]lin{}, t.cons...), newLin(0).add(d, -1).plus(1))) { // d <= 0
				t.cons = append(t.cons, d.plus(1))
			} else if infeasible(append(append([]lin{}, t.cons...), d.plus(1))) { // d >= 0
				t.cons = append(t.cons, newLin(0).add(d, -1).plus(1))
			}
		}
		if len(t.neq) == 0 {
			break
		}
	}
	return infeasible(append(t.cons, neg))
}

// ge: a >= b follows.
func (st *State) ge(a, b lin) bool { return st.entails(b.add(a, -1)) }

// entailsEq reports whether a == b follows.
func (st *State) entailsEq(a, b lin) bool {
	return st.entails(a.add(b, -1)) && st.entails(b.add(a, -1))
}

// infeasible decides by Fourier-Motzkin elimination that the constraints have no rational solution.
func infeasible(cons []lin) bool {
	// keep the part connected to the last constraint
	if len(cons) == 0 {
		return false
	}
	rel := map[*V]bool{}
	for a := range cons[len(cons)-1].m {
		rel[a] = true
	}
	used := make([]bool, len(cons))
	used[len(cons)-1] = true
	for changed := true; changed; {
		changed = false
		for i, c := range cons {
			if used[i] {
				continue
			}
			hit := len(c.m) == 0
			for a := range c.m {
				if rel[a] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				changed = true
				for a := range c.m {
					rel[a] = true
				}
			}
		}
	}
	var cur []lin
	for i, c := range cons {
		if used[i] {
			cur = append(cur, c)
		}
	}
	for step := 0; step < 40; step++ {
		var atoms []*V
		count := map[*V][2]int{}
		for _, c := range cur {
			if len(c.m) == 0 && c.c > 0 {
				return true
			}
			for a, n := range c.m {
				k := count[a]
				if n > 0 {
					k[0]++
				} else {
					k[1]++
				}
				count[a] = k
			}
		}
		if len(count) == 0 {
			return false
		}
		for a := range count {
			atoms = append(atoms, a)
		}
		sort.Slice(atoms, func(i, j int) bool {
			ci, cj := count[atoms[i]], count[atoms[j]]
			pi, pj := ci[0]*ci[1], cj[0]*cj[1]
			if pi != pj {
				return pi < pj
			}
			return atoms[i].id < atoms[j].id
		})
		x := atoms[0]
		var pos, neg, rest []lin
		for _, c := range cur {
			switch n := c.m[x]; {
			case n > 0:
				pos = append(pos, c)
			case n < 0:
				neg = append(neg, c)
			default:
				rest = append(rest, c)
			}
		}
		if len(pos)*len(neg) > 400 {
			return false
		}
		for _, p := range pos {
			for _, q := range neg {
				a, b := p.m[x], -q.m[x]
				if a > math.MaxInt32 || b > math.MaxInt32 {
					continue
				}
				r := newLin(0).add(p, b).add(q, a)
				delete(r.m, x)
				if len(r.m) == 0 && r.c <= 0 {
					continue
				}
				rest = append(rest, r)
			}
		}
		cur = rest
	}
	return false
}

// term is the value of l, if l is an atom and a constant.
func (l lin) term() *V {
	if len(l.m) == 0 {
		return vInt(l.c)
	}
	for a, k := range l.m {
		if len(l.m) > 1 || k != 1 {
			return nil
		}
		if l.c == 0 {
			return a
		}
		return mk(V{Op: OBin, Str: "+", Args: []*V{a, vInt(l.c)}, Typ: types.Typ[types.Int]})
	}
	return nil
}

func (l lin) String() string {
	var parts []string
	for v, k := range l.m {
		s := v.str(4)
		if k != 1 {
			s = fmt.Sprint(k) + "·" + s
		}
		parts = append(parts, s)
	}
	sort.Strings(parts)
	if l.c != 0 || len(parts) == 0 {
		parts = append(parts, fmt.Sprint(l.c))
	}
	return strings.Join(parts, " + ")
}

func sameLin(a, b lin) bool {
	n, ok := a.add(b, -1).isConst()
	return ok && n == 0
}
