package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about what is encoded and decoded.

func init() { register("C28", c28) }

// pure is a root for a function given anything.
func pureRoot(name string, fn *ssa.Function) *Root {
	r := &Root{Name: name, Fn: fn, State: newState()}
	for _, p := range fn.Params {
		r.Args = append(r.Args, vParam(p.Name(), p.Type()))
	}
	return r
}

// place is where a part of a value lies in its encoding.
type place struct {
	key   string
	at, n lin
	rest  bool // up to the end, however long
	order string
}

func (p place) String() string {
	s := fmt.Sprintf("%s at %v", p.key, p.at)
	if p.rest {
		s += " to the end"
	} else {
		s += fmt.Sprintf(", %v bytes", p.n)
	}
	if p.order != "" {
		s += " " + p.order
	}
	return s
}

func places(ps []place) string {
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].key < ps[j].key })
	var l []string
	for _, p := range ps {
		l = append(l, p.String())
	}
	return strings.Join(l, "; ")
}

// byteOf: v is the byte of an integer that begins at bit k.
func byteOf(v *V) (of *V, k int64, ok bool) {
	v = strip(v)
	if v == nil {
		return nil, 0, false
	}
	if v.Op == OBin && v.Str == "&" && len(v.Args) == 2 {
		for i := range v.Args {
			if m, isK := v.Args[i].intConst(); isK && m == 255 {
				return byteOf(v.Args[1-i])
			}
		}
	}
	if v.Op == OBin && v.Str == ">>" && len(v.Args) == 2 {
		if k, isK := v.Args[1].intConst(); isK {
			return strip(v.Args[0]), k, true
		}
		return nil, 0, false
	}
	return v, 0, isIntTerm(v)
}

func strip(v *V) *V {
	for v != nil && v.Op == OConv && len(v.Args) == 1 && isIntTerm(v.Args[0]) {
		v = v.Args[0]
	}
	return unconv(v)
}

// joined merges single bytes of an integer that follow one another into one piece.
func joinedInts(st *State, ps []piece) []piece {
	var out []piece
	for i := 0; i < len(ps); i++ {
		of, k, ok := byteOf(ps[i].src)
		if n, one := ps[i].n.isConst(); !ok || !one || n != 1 || isByte(ps[i].src.Typ) && k == 0 && strip(ps[i].src) == ps[i].src {
			out = append(out, ps[i])
			continue
		}
		j := i + 1
		down, up := k != 0, k == 0
		for last := k; j < len(ps); j++ {
			of2, k2, ok2 := byteOf(ps[j].src)
			if n, one := ps[j].n.isConst(); !ok2 || !one || n != 1 || of2 != of {
				break
			}
			if down && k2 == last-8 || up && k2 == last+8 {
				last = k2
				continue
			}
			break
		}
		end, _, _ := byteOf(ps[j-1].src)
		_, kEnd, _ := byteOf(ps[j-1].src)
		if end == of && j-i > 1 && (down && kEnd == 0 || up) {
			src := of
			if up {
				src = mk(V{Op: OOpaque, Str: "little endian", Args: []*V{of}, Typ: of.Typ})
			}
			out = append(out, piece{off: ps[i].off, n: newLin(int64(j - i)), src: src, so: newLin(0)})
			i = j - 1
			continue
		}
		out = append(out, ps[i])
	}
	return out
}

// decodedInt: v is an integer read from n bytes of src at so.
func decodedInt(st *State, v *V) (src *V, so, n lin, order string, ok bool) {
	v = strip(v)
	if v == nil {
		return
	}
	type part struct {
		src   *V
		at    lin
		shift int64
	}
	var parts []part
	var walk func(v *V, shift int64) bool
	walk = func(v *V, shift int64) bool {
		v = strip(v)
		if v == nil {
			return false
		}
		if v.Op == OBin && (v.Str == "|" || v.Str == "+") && len(v.Args) == 2 {
			return walk(v.Args[0], shift) && walk(v.Args[1], shift)
		}
		if v.Op == OBin && v.Str == "<<" && len(v.Args) == 2 {
			k, isK := v.Args[1].intConst()
			return isK && walk(v.Args[0], shift+k)
		}
		if v.Op == OCall && strings.HasPrefix(v.Str, "(encoding/binary.") && strings.Contains(v.Str, "Endian).Uint") && len(v.Args) > 0 {
			bits, _ := strconv.Atoi(v.Str[strings.LastIndex(v.Str, "Uint")+4:])
			b := v.Args[len(v.Args)-1]
			ps, ok := st.layout(mk(V{Op: OSlice, Args: []*V{b, nil, vInt(int64(bits / 8))}, Typ: b.Typ}))
			if bits == 0 || !ok || len(ps) != 1 {
				return false
			}
			for i := int64(0); i < int64(bits/8); i++ {
				k := int64(bits) - 8*(i+1)
				if strings.Contains(v.Str, "littleEndian") {
					k = 8 * i
				}
				parts = append(parts, part{ps[0].src, ps[0].so.plus(i), shift + k})
			}
			return true
		}
		if (v.Op == OOpaque && v.Str == "byte" || v.Op == OInit || v.Op == OHavoc) && len(v.Args) > 0 && v.Args[0].Op == OIndexAddr {
			r := regionOf(v.Args[0].Args[0])
			if !r.known {
				return false
			}
			parts = append(parts, part{r.base, r.off.add(linOf(v.Args[0].Args[1]), 1), shift})
			return true
		}
		return false
	}
	if !walk(v, 0) || len(parts) == 0 {
		return nil, so, n, "", false
	}
	sort.Slice(parts, func(i, j int) bool { return parts[i].shift > parts[j].shift })
	up, down := true, true
	for i, p := range parts {
		if p.src != parts[0].src || p.shift != int64(8*(len(parts)-1-i)) {
			return nil, so, n, "", false
		}
		d, isK := p.at.add(parts[0].at, -1).isConst()
		up = up && isK && d == int64(i)
		down = down && isK && d == int64(-i)
	}
	n = newLin(int64(len(parts)))
	if len(parts) == 1 {
		return parts[0].src, parts[0].at, n, "", true
	}
	if up {
		return parts[0].src, parts[0].at, n, "big endian", true
	}
	if down {
		return parts[0].src, parts[len(parts)-1].at, n, "little endian", true
	}
	return nil, so, n, "", false
}

// formats collects how a kind of value is encoded and decoded.
type formats struct {
	c       *Check
	written map[string]map[string]token.Pos
	read    map[string]map[string]token.Pos
}

func (f *formats) note(m *map[string]map[string]token.Pos, kind string, ps []place, pos token.Pos) {
	if *m == nil {
		*m = map[string]map[string]token.Pos{}
	}
	if (*m)[kind] == nil {
		(*m)[kind] = map[string]token.Pos{}
	}
	(*m)[kind][places(ps)] = pos
}

// agree: what was written is read from the same places.
func (f *formats) agree(rule, kind string) {
	var ws, rs []string
	for k := range f.written[kind] {
		ws = append(ws, k)
	}
	for k := range f.read[kind] {
		rs = append(rs, k)
	}
	sort.Strings(ws)
	sort.Strings(rs)
	if len(ws) == 0 || len(rs) == 0 {
		f.c.bad(rule, kind, nil, nil, token.NoPos, "no encoder or no decoder of %s was found", kind)
		return
	}
	for _, w := range ws {
		for _, r := range rs {
			f.c.check(w == r, rule, kind, nil, nil, f.read[kind][r], "%s is written as [%s], but read as [%s]", kind, w, r)
		}
	}
}

// partOfSlice is the part of another slice that v is.
func partOfSlice(v *V) region {
	v = unconv(v)
	if v == nil || v.Op != OSlice {
		return region{base: v, off: newLin(0), len: lenOf(v), known: v != nil}
	}
	r := partOfSlice(v.Args[0])
	lo := newLin(0)
	if v.Args[1] != nil {
		lo = linOf(v.Args[1])
	}
	if len(v.Args) > 2 && v.Args[2] != nil {
		r.len = linOf(v.Args[2])
	}
	r.len = r.len.add(lo, -1)
	r.off = r.off.add(lo, 1)
	return r
}

// encodedAs finds the parts of a value in the bytes made of it.
func encodedAs(st *State, v *V, parts map[string]*V) ([]place, string) {
	ps, ok := st.layout(v)
	if !ok {
		return nil, "it is not known which bytes are written"
	}
	ps = joinedInts(st, ps)
	var out []place
	seen := map[string]bool{}
	for i, p := range ps {
		if p.src.Op == OOpaque && p.src.Str == "zero bytes" {
			continue
		}
		src, order := p.src, ""
		if src.Op == OOpaque && src.Str == "little endian" {
			src, order = src.Args[0], src.Str
		}
		if src.Op == OCall && src.Str == "(net.IP).To16" && len(src.Args) > 0 {
			src = src.Args[0]
		}
		key := ""
		for k, w := range parts {
			if strip(src) == strip(w) || src == w || backing(unconv(w)) == src || backing(unconv(src)) == unconv(w) && unconv(w) != nil {
				key = k
			}
		}
		if key == "" {
			return nil, "something else is written"
		}
		if z, isK := p.so.isConst(); !isK || z != 0 {
			return nil, "not the whole of " + key + " is written"
		}
		w := parts[key]
		q := place{key: key, at: p.off, n: p.n, order: order}
		if isIntTerm(w) {
			b := basicOf(w.Typ)
			size := map[types.BasicKind]int64{types.Uint8: 1, types.Uint16: 2, types.Uint32: 4, types.Uint64: 8}[b.Kind()]
			if k, isK := p.n.isConst(); !isK || k != size {
				return nil, "not the whole of " + key + " is written"
			}
			if order == "" && size > 1 {
				q.order = "big endian"
			}
		} else if _, isK := p.n.isConst(); !isK {
			if !st.entailsEq(p.n, lenOf(w)) {
				return nil, "not the whole of " + key + " is written"
			}
			q.rest = i == len(ps)-1
		} else if arr, isArr := typOf(w.Typ).Underlying().(*types.Array); isArr {
			if k, _ := p.n.isConst(); k != arr.Len() {
				return nil, "not the whole of " + key + " is written"
			}
		}
		if seen[key] {
			return nil, key + " is written in parts, or twice"
		}
		seen[key] = true
		out = append(out, q)
	}
	for k := range parts {
		if !seen[k] {
			return nil, k + " is not written"
		}
	}
	return out, ""
}

func typOf(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t
}

// decodedFrom finds where the parts of a value were read from: places of the bytes of buf.
func decodedFrom(st *State, buf *V, parts map[string]*V, typs map[string]types.Type) ([]place, string) {
	r := regionOf(buf)
	var out []place
	for k, v := range parts {
		if isIntTerm(v) {
			src, so, n, order, ok := decodedInt(st, v)
			if !ok || src != r.base {
				return nil, k + " is not taken from what was received as it is"
			}
			out = append(out, place{key: k, at: so.add(r.off, -1), n: n, order: order})
			continue
		}
		ps, ok := st.layout(v)
		if !ok || len(ps) != 1 || ps[0].src != r.base {
			return nil, k + " is not taken from what was received as it is"
		}
		q := place{key: k, at: ps[0].so.add(r.off, -1), n: ps[0].n}
		t := typs[k]
		if t == nil {
			t = v.Typ
		}
		if arr, isArr := typOf(t).Underlying().(*types.Array); isArr {
			if !st.entailsEq(q.n, newLin(arr.Len())) {
				return nil, "not the whole of " + k + " is read"
			}
			q.n = newLin(arr.Len())
		} else if _, isK := q.n.isConst(); !isK {
			if !st.entailsEq(q.at.add(q.n, 1), r.len) {
				return nil, "not the whole of " + k + " is read"
			}
			q.rest = true
		}
		out = append(out, q)
	}
	return out, ""
}

func c28(c *Check) {
	P, A := c.P, c.A
	c.rule("written", 5, "every encoder writes each part of a value once, whole, at a place of its own, and nothing else")
	c.rule("read-back", 5, "every decoder takes each part from the place it is written to, in the same byte order, and changes nothing")
	c.rule("sealed", 2, "what is opened is what was sealed, and the nonce it was sealed with")
	c.rule("list", 4, "a list is written as its length and its elements, all and in order, and read back as such")
	c.rule("size", 1, "the size of an identity is the number of bytes it is written as")
	c.rule("accepted", 4, "a decoder refuses only what no encoder writes")
	f := &formats{c: c}
	msgParts := func(m *V) map[string]*V {
		return map[string]*V{"number": vField(m, A.Msg, A.MsgNonce), "data": vField(m, A.Msg, A.MsgData)}
	}
	// where the nonce and what is sealed lie in a frame
	frame := func(m *map[string]map[string]token.Pos, st *State, nonce, text, all region, pos token.Pos) bool {
		if !nonce.known || !text.known || !all.known || nonce.base != all.base || text.base != all.base {
			return false
		}
		if !st.entailsEq(nonce.len.add(text.len, 1), all.len) {
			return false
		}
		switch {
		case st.entailsEq(nonce.off, all.off) && st.entailsEq(text.off, nonce.off.add(nonce.len, 1)):
			f.note(m, "a frame", []place{{key: "the nonce", at: newLin(0), rest: false}, {key: "what is sealed", rest: true, at: newLin(0)}}, pos)
		case st.entailsEq(text.off, all.off) && st.entailsEq(nonce.off, text.off.add(text.len, 1)):
			f.note(m, "a frame", []place{{key: "the nonce", rest: true, at: newLin(0)}, {key: "what is sealed", at: newLin(0)}}, pos)
		default:
			return false
		}
		return true
	}
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil {
			return
		}
		if !ci.writer {
			settle := func() {
				p := st.mon["plain"]
				if p == nil {
					return
				}
				delete(st.mon, "plain")
				opened, short, settled := st.flag("opened"), st.flag("short"), st.flag("settled")
				st.setFlag("opened", false)
				st.setFlag("short", false)
				if !opened || settled {
					return
				}
				c.check(short, "accepted", "message "+ci.dir(), x, st, ev.Pos, "a message that is long enough to hold its number is refused")
			}
			l, _ := connRead(ev)
			if p := st.mon["plain"]; p != nil {
				st.setFlag("opened", st.flag("opened") || st.nilness(extract(p, 1)) > 0)
				if ev.Kind == EvBranch && !st.flag("settled") && st.flag("opened") {
					st.setFlag("short", st.flag("short") || st.ge(newLin(7), lenOf(extract(p, 0))))
				}
			}
			switch {
			case ev.Kind == EvReturn || l != nil:
				settle()
			case ev.Kind == EvGo:
				st.setFlag("set up", true)
			case isCall(ev, srcOpen) && st.flag("set up"):
				st.mon["plain"] = ev.Res
				st.setFlag("settled", false)
			case ev.Kind == EvSend, ev.Kind == EvSelect && ev.Chan != nil:
				st.setFlag("settled", true)
			}
		}
		switch ev.Kind {
		case EvCall:
			if l, _ := connRead(ev); l != nil && isCall(ev, "io.ReadFull", "io.ReadAtLeast") {
				st.mon["raw"] = ev.Args[1]
			}
			if isCall(ev, srcOpen) && len(ev.Args) == 4 {
				raw := st.mon["raw"]
				ok := raw != nil && frame(&f.read, st, partOfSlice(ev.Args[1]), partOfSlice(ev.Args[2]), partOfSlice(raw), ev.Pos)
				if ok {
					f.note(&f.read, "additional data", []place{{key: fmt.Sprint(unconv(ev.Args[3]))}}, ev.Pos)
				}
				delete(st.mon, "raw")
				c.check(ok, "sealed", "open "+ci.dir(), x, st, ev.Pos, "what is opened is not all of what was received but the nonce")
			}
			if isCall(ev, srcSeal) && len(ev.Args) == 4 {
				f.note(&f.written, "additional data", []place{{key: fmt.Sprint(unconv(ev.Args[3]))}}, ev.Pos)
				ps, ok := st.layout(ev.Args[1])
				st.mon["sealed"] = ev.Res
				if ok && len(ps) == 1 {
					st.mon["nonce"], st.mon["noncelen"] = ps[0].src, lenOf(ev.Args[1]).full()
				}
			}
			for _, a := range socketWrite(st, ev) {
				sealed, nonce := st.mon["sealed"], st.mon["nonce"]
				if sealed == nil {
					break
				}
				ps, ok := st.layout(a)
				at := -1
				for k, p := range ps {
					if p.src == sealed {
						at = k
					}
				}
				if ok && at < 0 {
					continue // the length that comes before
				}
				whole := func(k int, src *V) bool {
					z, isK := ps[k].so.isConst()
					return ps[k].src == src && isK && z == 0
				}
				full := ok && whole(at, sealed) && st.entailsEq(ps[at].n, lenOf(sealed)) && nonce != nil
				key := [2]place{{key: "the nonce", at: newLin(0)}, {key: "what is sealed", at: newLin(0)}}
				switch {
				case full && at > 0 && at == len(ps)-1 && whole(at-1, nonce) && st.mon["noncelen"] != nil && st.entailsEq(ps[at-1].n, linOf(st.mon["noncelen"])):
					key[1].rest = true
				case full && at == len(ps)-2 && whole(at+1, nonce) && st.mon["noncelen"] != nil && st.entailsEq(ps[at+1].n, linOf(st.mon["noncelen"])):
					key[0].rest = true
				default:
					full = false
				}
				c.check(full, "sealed", "seal "+ci.dir(), x, st, ev.Pos, "what is written is not all of what was sealed and the nonce it was sealed with")
				if full {
					f.note(&f.written, "a frame", key[:], ev.Pos)
				}
				for _, k := range []string{"sealed", "nonce", "noncelen"} {
					delete(st.mon, k)
				}
			}
			if ci.writer && isCall(ev, srcSeal) && len(ev.Args) == 4 {
				var m *V
				ps, _ := st.layout(ev.Args[2])
				for _, p := range ps {
					walkFind(p.src, func(v *V) bool {
						if m == nil && v.Typ != nil && types.Identical(v.Typ, A.Msg) {
							m = v
						}
						return m != nil
					})
				}
				if !c.check(m != nil, "written", "message "+ci.dir(), x, st, ev.Pos, "what is sealed is not known to be a message") {
					return
				}
				pl, why := encodedAs(st, ev.Args[2], msgParts(m))
				if c.check(why == "", "written", "message "+ci.dir(), x, st, ev.Pos, "a message is not sent as it was queued: %s", why) {
					f.note(&f.written, "a message", pl, ev.Pos)
				}
			}
		case EvSend, EvSelect:
			if ev.Kind == EvSelect && !ev.Send || ev.Chan == nil || !(A.is(st, ev.Chan, A.Work) != nil || c.isMsgChan(chanType(ev))) {
				return
			}
			m := ev.Val
			if sameNamed(m.Typ, A.HCtx) {
				m = vField(m, A.HCtx, A.MsgRef)
			}
			nonce := vField(m, A.Msg, A.MsgNonce)
			var plain *V
			walkFind(nonce, func(v *V) bool {
				if plain == nil && v.Op == OExtract && v.Args[0].Op == OCall && strings.HasSuffix(v.Args[0].Str, srcOpen) {
					plain = v
				}
				return plain != nil
			})
			if !c.check(plain != nil, "read-back", "message "+ci.dir(), x, st, ev.Pos, "the number of a message is not taken from what was decrypted") {
				return
			}
			pl, why := decodedFrom(st, plain, msgParts(m), nil)
			if c.check(why == "", "read-back", "message "+ci.dir(), x, st, ev.Pos, "a message is not handed on as it was received: %s", why) {
				f.note(&f.read, "a message", pl, ev.Pos)
			}
		}
	}
	c.run(World{Name: "connections", Layout: true, Fns: []*ssa.Function{P.method("", "Node", "Listen"), P.method("", "Node", "Ping")},
		Mons: []MonitorFunc{mon}, OnGo: c.freshMon})
	f.agree("read-back", "a message")
	f.agree("sealed", "a frame")
	f.agree("sealed", "additional data")
	c.encoders(f)
}

// encoders decides that the exported types that go over the wire are written and read back as they are.
func (c *Check) encoders(f *formats) {
	P := c.P
	idT := P.typ("", "ID")
	idMarshal, idSize, idUnmarshal := P.method("", "ID", "Marshal"), P.method("", "ID", "Size"), P.function("", "UnmarshalID")
	fields := func(v *V, t types.Type) map[string]*V {
		out := map[string]*V{}
		s := structOf(t)
		if s == nil {
			out["content"] = v
			return out
		}
		for i := 0; i < s.NumFields(); i++ {
			if !isStringType(s.Field(i).Type()) { // an address is made from the other parts
				out[s.Field(i).Name()] = vField(v, t, i)
			}
		}
		return out
	}
	type kind struct {
		name     string
		t        types.Type
		enc, dec *ssa.Function
	}
	reqT, msgT := P.typ("kademlia", "FindNodeRequest"), P.typ("gossip", "Message")
	kinds := []kind{
		{"an identity", idT, idMarshal, idUnmarshal},
		{"a request for peers", reqT, P.method("kademlia", "FindNodeRequest", "Marshal"), P.function("kademlia", "UnmarshalFindNodeRequest")},
		{"a gossip message", msgT, P.method("gossip", "Message", "Marshal"), P.function("gossip", "UnmarshalMessage")},
	}
	roots := []*Root{pureRoot("size", idSize)}
	for _, k := range kinds {
		roots = append(roots, pureRoot("enc "+k.name, k.enc), pureRoot("dec "+k.name, k.dec))
	}
	var sizes []*V
	var sizePos token.Pos
	var total lin
	lens := map[string]lin{}
	mon := func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvBranch && strings.HasPrefix(x.Root.Name, "dec ") {
			st.setFlag(fmt.Sprintf("at %d %v", ev.Instr.Block().Index, ev.OK), true) // keep the ways to refuse apart
		}
		if ev.Kind != EvReturn {
			return
		}
		if x.Root.Name == "size" {
			sizes, sizePos = append(sizes, ev.Res), ev.Pos
			return
		}
		for _, k := range kinds {
			switch x.Root.Name {
			case "enc " + k.name:
				pl, why := encodedAs(st, ev.Res, fields(x.Root.Args[0], k.t))
				if c.check(why == "", "written", k.name, x, st, ev.Pos, "%s is not written as it is: %s", k.name, why) {
					f.note(&f.written, k.name, pl, ev.Pos)
					lens[k.name] = lenOf(ev.Res)
					if k.t == idT {
						total = lenOf(ev.Res)
					}
				}
			case "dec " + k.name:
				if ev.Res != nil && ev.Res.Op == OTuple && len(ev.Res.Args) == 2 && st.nilness(ev.Res.Args[1]) < 0 {
					n, fixed := lens[k.name].isConst()
					l := lenOf(x.Root.Args[0])
					other := fixed && (st.ge(newLin(n-1), l) || st.ge(l, newLin(n+1)) || st.entails(l.add(newLin(n-1), -1), l.add(newLin(n), -1)) || st.entails(newLin(n+1).add(l, -1), newLin(n).add(l, -1)))
					c.check(other, "accepted", k.name, x, st, ev.Pos, "%s may be refused although it has the length it is written with", k.name)
				}
				if ev.Res == nil || ev.Res.Op != OTuple || len(ev.Res.Args) != 2 || st.nilness(ev.Res.Args[1]) < 0 {
					continue
				}
				v := ev.Res.Args[0]
				pl, why := decodedFrom(st, x.Root.Args[0], fields(v, k.t), fieldTypes(k.t))
				if c.check(why == "", "read-back", k.name, x, st, ev.Pos, "%s is not read as it is: %s", k.name, why) {
					f.note(&f.read, k.name, pl, ev.Pos)
				}
				if k.t == idT {
					// the address names the port
					port := strip(vField(v, k.t, fieldNamed(k.t, "Port")))
					c.check(contains(vField(v, k.t, fieldNamed(k.t, "Address")), port), "read-back", "address", x, st, ev.Pos, "the address of an identity that was read is not made from it")
				}
			}
		}
	}
	c.run(World{Name: "encoders", Layout: true, Roots: roots, Mons: []MonitorFunc{mon}, OnGo: noGo})
	for _, k := range kinds {
		f.agree("read-back", k.name)
	}
	n, isK := total.isConst()
	for _, s := range sizes {
		m, okm := s.intConst()
		c.check(isK && okm && n == m && n > 0, "size", "identity", nil, nil, sizePos, "the size of an identity is not the number of bytes it is written as")
	}

	// lists of identities
	respT := P.typ("kademlia", "FindNodeResponse")
	var listIdx = -1
	for i, s := 0, structOf(respT); s != nil && i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), idT) {
			listIdx = i
		}
	}
	if listIdx < 0 || !isK {
		c.bad("list", "response", nil, nil, token.NoPos, "a response to a request for peers has no list of identities")
		return
	}
	skip := func(fn *ssa.Function) bool { return fn == idMarshal || fn == idUnmarshal }
	enc := pureRoot("write", P.method("kademlia", "FindNodeResponse", "Marshal"))
	dec := pureRoot("read", P.function("kademlia", "UnmarshalFindNodeResponse"))
	count := func(st *State, v, seq *V) bool { // v is a byte that says how many elements there are
		v = strip(v)
		return v != nil && isIntTerm(v) && sameLin(linOf(v), lenOf(seq))
	}
	listMon := func(x *Exec, st *State, ev *Event) {
		bad := func(cond bool, what, format string, args ...interface{}) {
			c.check(cond, "list", x.Root.Name+" "+what, x, st, ev.Pos, format, args...)
		}
		if x.Root.Name == "write" {
			seq := unconv(vField(x.Root.Args[0], respT, listIdx))
			if st.mon["ids seq"] == nil {
				walkBegin(st, "ids", seq)
			}
			switch ev.Kind {
			case EvIndex:
				if walkStep(st, ev, "ids") {
					bad(!st.flag("owed"), "elements", "an element of a list is not written")
					st.setFlag("owed", true)
				}
			case EvBranch:
				walkStep(st, ev, "ids")
			case EvCall:
				if ev.Sfn == idMarshal {
					l, i := elemAt(ev.Recv)
					at := walkAt(st, "ids")
					if l == seq && at != nil && sameLin(linOf(i), linOf(at)) {
						st.mon["bytes"] = ev.Res
					}
				}
			case EvAppend:
				if !isBytes(ev.Val.Typ) {
					return
				}
				cur := st.mon["~buf"]
				if ev.Lo != nil && ev.Lo == st.mon["bytes"] && cur == nil {
					// the first element follows the number of elements
					ps, ok := st.layout(ev.X)
					ps = joinedInts(st, ps)
					okc := ok && len(ps) == 1 && count(st, ps[0].src, seq)
					bad(okc, "count", "a list is not preceded by the number of its elements")
					cur = ev.X
				}
				if ev.Lo != nil && ev.Lo == st.mon["bytes"] {
					bad(ev.X == cur && st.flag("owed"), "elements", "an element is not written behind those before it, once")
					st.setFlag("owed", false)
					delete(st.mon, "bytes")
					st.mon["~buf"] = ev.Val
				} else if cur != nil && ev.X == cur {
					bad(false, "elements", "something else is written into a list")
				}
			case EvCopy:
				if ev.Val != nil && ev.Val == st.mon["bytes"] {
					r, at := regionOf(ev.X), walkAt(st, "ids")
					bad(r.known && at != nil && st.entailsEq(r.off, newLin(1).add(linOf(at), n)) && st.ge(r.len, newLin(n)) && st.flag("owed"), "elements", "an element is not written behind those before it, once")
					st.setFlag("owed", false)
					delete(st.mon, "bytes")
					st.mon["placed"] = r.base
				}
			case EvReturn:
				bad(!st.flag("owed") && walkedAll(st, "ids"), "all", "not every element of a list is written")
				cur := st.mon["~buf"]
				if b := st.mon["placed"]; b != nil {
					r := regionOf(ev.Res)
					okc := st.flag("count byte")
					bad(r.known && r.base == b && st.entailsEq(r.off, newLin(0)) && st.entailsEq(r.len, newLin(1).add(lenOf(seq), n)) && okc, "all", "what is written is not the number of elements and the elements")
				} else if cur == nil {
					ps, ok := st.layout(ev.Res)
					ps = joinedInts(st, ps)
					bad(ok && len(ps) == 1 && count(st, ps[0].src, seq), "count", "a list is not preceded by the number of its elements")
				} else {
					bad(ev.Res == cur, "all", "what is written is not all that was encoded")
				}
			case EvStore:
				if a := unconv(ev.Addr); a != nil && a.Op == OIndexAddr && count(st, ev.Val, seq) {
					if r := regionOf(a.Args[0]); r.known && st.entailsEq(r.off.add(linOf(a.Args[1]), 1), newLin(0)) {
						st.setFlag("count byte", true)
					}
				}
			}
			return
		}
		buf := x.Root.Args[0]
		if st.mon["begun"] == nil {
			st.mon["begun"] = vTrue
			st.mon["~n"] = vInt(0)
		}
		switch ev.Kind {
		case EvSlice:
			if l := st.mon["read"]; l != nil {
				r, from := partOfSlice(ev.Val), partOfSlice(l)
				if r.base == from.base && sameLin(r.off, from.off.plus(n)) {
					st.mon["~rest"] = ev.Val
				}
			}
		case EvCall:
			if ev.Sfn != idUnmarshal || len(ev.Args) == 0 {
				return
			}
			a := ev.Args[0]
			r := partOfSlice(a)
			ok := st.mon["~rest"] != nil && unconv(a) == unconv(st.mon["~rest"])
			if !ok && r.base == unconv(buf) {
				ok = st.entailsEq(r.off, newLin(1).add(counter(st, "n"), n))
			}
			bad(ok && st.mon["id"] == nil, "places", "the elements of a list are not read one behind the other")
			st.mon["id"] = ev.Res
			delete(st.mon, "~rest")
			st.mon["read"] = a
		case EvMake:
			if sl, ok := typOf(ev.Val.Typ).Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), idT) && st.entailsEq(lenOf(ev.Val), newLin(0)) {
				st.mon["~list"] = ev.Val
				st.mon["size"] = capOf(ev.Val).full()
			}
		case EvBranch:
			if l := st.mon["~list"]; l != nil && st.mon["size"] != nil {
				k := capOf(l)
				st.setFlag("room", st.ge(k, counter(st, "n").plus(1)))
				st.setFlag("full", st.ge(counter(st, "n"), k))
			}
		case EvAppend:
			if id := st.mon["id"]; id != nil {
				v := appended(st, ev)
				if v != nil && unconv(v) == unconv(extract(id, 0)) {
					st.setFlag("grown", !st.flag("room") || st.flag("grown"))
					st.setFlag("room", false)
					bad(st.mon["~list"] == nil && st.entailsEq(lenOf(ev.X), newLin(0)) || st.mon["~list"] == ev.X, "elements", "an element that was read is not put behind those before it")
					st.mon["~list"] = ev.Val
					counterAdd(st, "n", vInt(1))
					delete(st.mon, "id")
				}
			}
		case EvStore:
			if id := st.mon["id"]; id != nil {
				a := unconv(ev.Addr)
				if a != nil && a.Op == OIndexAddr && unconv(ev.Val) == unconv(extract(id, 0)) && types.Identical(deref(a.Typ), idT) {
					if al := unconv(a.Args[0]); al != nil && (al.Op == OMakeSlice || al.Op == OSlice) {
						bad(st.entailsEq(linOf(a.Args[1]), counter(st, "n")), "elements", "an element that was read is not put behind those before it")
						st.mon["listed"] = al
						counterAdd(st, "n", vInt(1))
						delete(st.mon, "id")
					}
				}
			}
		case EvReturn:
			if ev.Res == nil || ev.Res.Op != OTuple || len(ev.Res.Args) != 2 || st.nilness(ev.Res.Args[1]) < 0 {
				return
			}
			list := vField(ev.Res.Args[0], respT, listIdx)
			okn := false
			for f := range st.facts {
				walkFind(f, func(v *V) bool {
					src, so, k, _, ok := decodedInt(st, v)
					if !okn && ok && src == regionOf(buf).base && sameLin(so, newLin(0)) && sameLin(k, newLin(1)) {
						okn = st.entailsEq(linOf(v), counter(st, "n"))
					}
					return okn
				})
			}
			if k := st.mon["size"]; !okn && k != nil && st.flag("full") && !st.flag("grown") {
				src, so, w, _, ok := decodedInt(st, k)
				okn = ok && src == regionOf(buf).base && sameLin(so, newLin(0)) && sameLin(w, newLin(1))
			}
			bad(okn, "count", "not as many elements are read as the list announces")
			switch {
			case st.mon["listed"] != nil:
				bad(unconv(list) == st.mon["listed"] && st.entailsEq(lenOf(list), counter(st, "n")), "all", "the list is not made of the elements that were read")
			case st.mon["~list"] != nil:
				bad(unconv(list) == unconv(st.mon["~list"]), "all", "the list is not made of the elements that were read")
			default:
				bad(st.entailsEq(lenOf(list), newLin(0)), "all", "the list is not made of the elements that were read")
			}
			bad(st.mon["id"] == nil, "all", "an element that was read is left out")
		}
	}
	c.run(World{Name: "lists", Layout: true, Roots: []*Root{enc, dec}, Mons: []MonitorFunc{listMon}, Skip: skip, OnGo: noGo})
}

// fieldNamed is the index of an exported field.
func fieldNamed(t types.Type, name string) int {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return i
			}
		}
	}
	panic(undecided{"no field " + name})
}

func fieldTypes(t types.Type) map[string]types.Type {
	out := map[string]types.Type{}
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			out[s.Field(i).Name()] = s.Field(i).Type()
		}
	}
	return out
}
