package main

import (
	"fmt"
	"go/types"
	"runtime"
	"sort"
	"strings"
)

// Which bytes lie where.

// piece is a run of bytes of a slice or array: n bytes at off, which are those of src from so on.
type piece struct {
	off, n lin
	src    *V
	so     lin
}

func (p piece) String() string { return fmt.Sprintf("[%v +%v: %v @%v]", p.off, p.n, p.src, p.so) }

func zeroBytes(n lin) piece {
	return piece{off: newLin(0), n: n, src: mk(V{Op: OOpaque, Str: "zero bytes"}), so: newLin(0)}
}

// layout lists what the bytes of the slice, array or pointer to an array v are, in order, if all is known.
func (st *State) layout(v *V) ([]piece, bool) { return st.layoutAt(v, 0) }

func (st *State) layoutAt(v *V, depth int) ([]piece, bool) {
	v = unconv(v)
	if v == nil || v == vNil {
		return nil, true
	}
	if depth > 10 {
		return nil, no()
	}
	if v.Op == OPatch { // the value of an array
		return st.applied(v, nil, newLin(0), lenOfPatched(v), depth)
	}
	r := regionOf(v)
	if !r.known {
		return nil, no()
	}
	if r.base == v {
		r.len = bytesIn(v)
	}
	if n, ok := st.constLen(r.len); ok && n == 0 {
		return nil, true
	}
	ps, ok := st.applied(st.mem[r.base], r.base, r.off, r.len, depth)
	return ps, ok
}

// bytesIn is the number of bytes in v. An IP address in its long form has 16, or is not there and counts as zero bytes.
func bytesIn(v *V) lin {
	if v.Op == OCall && v.Str == "(net.IP).To16" {
		return newLin(16)
	}
	if v.Typ != nil {
		if a, ok := deref(v.Typ).Underlying().(*types.Array); ok {
			return newLin(a.Len())
		}
	}
	return lenOf(v)
}

func (st *State) constLen(l lin) (int64, bool) { return l.isConst() }

func lenOfPatched(v *V) lin {
	for v.Op == OPatch {
		v = v.Args[0]
	}
	if (v.Op == OInit || v.Op == OHavoc) && len(v.Args) > 0 {
		return bytesIn(v.Args[0])
	}
	return bytesIn(v)
}

// applied: the bytes [off, off+n) of the memory b, which holds the patches of c.
func (st *State) applied(c, b *V, off, n lin, depth int) ([]piece, bool) {
	return st.covered(c, b, off, n, depth, newLin(0))
}

// covered lists the pieces of [off, off+n), the first at the position at.
func (st *State) covered(c, b *V, off, n lin, depth int, at lin) ([]piece, bool) {
	if k, ok := n.isConst(); ok && k == 0 {
		return nil, true
	}
	if c == nil || c.Op != OPatch {
		return st.unpatched(c, b, off, n, depth, at)
	}
	dst, src := c.Args[1], c.Args[2]
	if dst == nil || dst == vNil || src == nil {
		return nil, no()
	}
	var d region
	if dst.Op == OIndexAddr {
		d = regionOf(dst.Args[0])
		d.off, d.len = d.off.add(linOf(dst.Args[1]), 1), newLin(1)
	} else {
		d = regionOf(dst)
	}
	if !d.known {
		return nil, no()
	}
	end := off.add(n, 1)
	if st.ge(d.off, end) || st.ge(off, d.off.add(d.len, 1)) {
		return st.covered(c.Args[0], b, off, n, depth, at)
	}
	var in []piece
	if src.Op == OOpaque && src.Str == "laid" {
		in = unlaid(src)
	} else if src.Op == OOpaque && src.Str == "bytes" && len(src.Args) > 0 {
		u := src.Args[0]
		if u.Op == OGhost && u.Str == "of" {
			u = u.Args[0]
		}
		sub, ok := st.layoutAt(u, depth+1)
		if !ok {
			return nil, no()
		}
		in = sub
	} else {
		n := d.len
		if isBytes(src.Typ) {
			n = bytesIn(src)
		}
		in = []piece{{off: newLin(0), n: n, src: src, so: newLin(0)}}
	}
	total := newLin(0)
	for _, p := range in {
		total = total.add(p.n, 1)
	}
	if !st.ge(d.len, total) { // no more than fits
		if !st.ge(total, d.len) {
			return nil, no()
		}
		total = d.len
	}
	de := d.off.add(total, 1)
	if st.ge(off, de) {
		return st.covered(c.Args[0], b, off, n, depth, at)
	}
	from := off // where the written bytes begin
	var out []piece
	switch {
	case st.ge(off, d.off):
	case st.ge(d.off, off):
		from = d.off
		m := d.off.add(off, -1)
		sub, ok := st.covered(c.Args[0], b, off, m, depth, at)
		if !ok {
			return nil, false
		}
		out = append(out, sub...)
	default:
		return nil, no()
	}
	to := end
	switch {
	case st.ge(de, end):
	case st.ge(end, de):
		to = de
	default:
		return nil, no()
	}
	mid, ok := st.cut(in, from.add(d.off, -1), to.add(from, -1))
	if !ok {
		return nil, no()
	}
	base := at.add(from.add(off, -1), 1)
	for _, p := range mid {
		p.off = p.off.add(base, 1)
		out = append(out, p)
	}
	sub, ok := st.covered(c.Args[0], b, to, end.add(to, -1), depth, at.add(to.add(off, -1), 1))
	if !ok {
		return nil, false
	}
	return append(out, sub...), true
}

// unpatched: the bytes of memory before anything was written into it here.
func (st *State) unpatched(c, b *V, off, n lin, depth int, at lin) ([]piece, bool) {
	var ps []piece
	switch {
	case c != nil && c.Op != OInit && c.Op != OHavoc && !(c.Op == OOpaque && strings.HasPrefix(c.Str, "bytes")):
		if c.Op == OZero {
			ps = []piece{zeroBytes(lenOf(c))}
		} else {
			ps = []piece{{off: newLin(0), n: lenOf(c), src: c, so: newLin(0)}}
		}
	case c != nil && c.Op != OInit || b == nil:
		return nil, no()
	default:
		switch b.Op {
		case OMakeSlice:
			ps = []piece{zeroBytes(linOf(b.Args[0]))}
			if len(b.Args) > 1 {
				ps = []piece{zeroBytes(linOf(b.Args[1]))}
			}
		case OAlloc:
			ps = []piece{zeroBytes(lenOf(b))}
		case OAppend:
			sub, ok := st.layoutAt(b.Args[1], depth+1)
			if !ok {
				return nil, no()
			}
			ps = sub
		case OFieldAddr, OIndexAddr, OGlobal:
			w := mk(V{Op: OInit, Args: []*V{b}, Typ: deref(b.Typ)})
			if b.Op == OFieldAddr {
				if p := st.parentValue(b.Args[0]); p != nil {
					w = vField(p, elemTypeOr(b.Args[0], p), b.Idx)
				}
			}
			ps = []piece{{off: newLin(0), n: lenOf(b), src: w, so: newLin(0)}}
		default:
			return []piece{{off: at, n: n, src: b, so: off}}, true
		}
	}
	out, ok := st.cut(ps, off, n)
	if !ok {
		return nil, no()
	}
	for i := range out {
		out[i].off = out[i].off.add(at, 1)
	}
	return out, true
}

// cut: the n bytes at off of a list of pieces.
func (st *State) cut(ps []piece, off, n lin) ([]piece, bool) {
	if k, ok := n.isConst(); ok && k == 0 {
		return nil, true
	}
	end := off.add(n, 1)
	var out []piece
	for _, p := range ps {
		pe := p.off.add(p.n, 1)
		if st.ge(off, pe) || st.ge(p.off, end) {
			continue
		}
		switch {
		case st.ge(p.off, off):
		case st.ge(off, p.off):
			d := off.add(p.off, -1)
			p.so, p.n, p.off = p.so.add(d, 1), p.n.add(d, -1), off
		default:
			return nil, no()
		}
		switch {
		case st.ge(end, pe):
		case st.ge(pe, end):
			p.n = end.add(p.off, -1)
		default:
			return nil, no()
		}
		p.off = p.off.add(off, -1)
		out = append(out, p)
	}
	return out, true
}

func no() bool {
	if dbgOn {
		_, _, l, _ := runtime.Caller(1)
		fmt.Println("no layout: line", l)
	}
	return false
}

// wantLayout: copies keep the layout of what they copy.
var wantLayout bool

// laid is a term for the layout of v now.
func (st *State) laid(v *V) *V {
	if !wantLayout || v == nil || isStringType(v.Typ) {
		return nil
	}
	ps, ok := st.layout(v)
	if !ok {
		return nil
	}
	var args []*V
	for _, p := range ps {
		args = append(args, p.src, p.so.full(), p.n.full())
	}
	if len(args) > 72 {
		return nil
	}
	return mk(V{Op: OOpaque, Str: "laid", Args: args})
}

func unlaid(v *V) []piece {
	var out []piece
	at := newLin(0)
	for i := 0; i+2 < len(v.Args); i += 3 {
		n := linOf(v.Args[i+2])
		out = append(out, piece{off: at, n: n, src: v.Args[i], so: linOf(v.Args[i+1])})
		at = at.add(n, 1)
	}
	return out
}

// full is the term for a sum.
func (l lin) full() *V {
	atoms := make([]*V, 0, len(l.m))
	for a := range l.m {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	it := types.Typ[types.Int]
	var t *V
	for _, a := range atoms {
		u := a
		if k := l.m[a]; k != 1 {
			u = mk(V{Op: OBin, Str: "*", Args: []*V{vInt(k), a}, Typ: it})
		}
		if t == nil {
			t = u
		} else {
			t = mk(V{Op: OBin, Str: "+", Args: []*V{t, u}, Typ: it})
		}
	}
	if t == nil {
		return vInt(l.c)
	}
	if l.c != 0 {
		t = mk(V{Op: OBin, Str: "+", Args: []*V{t, vInt(l.c)}, Typ: it})
	}
	return t
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
