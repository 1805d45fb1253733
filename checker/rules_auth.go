package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the handshake, the encryption of connections and the handling of keys.

func init() {
	register("C01", c01)
	register("C02", c02)
	register("C03", c03)
	register("C04", c04)
	register("C05", c05)
}

// names of what values come from
const (
	srcExchange = ".X25519"
	srcOpen     = "AEAD).Open"
	srcSeal     = "AEAD).Seal"
	srcSign     = "ed25519.Sign"
	srcPub      = "ed25519.GenerateKey"
	srcSecret   = "secret:GenerateKey"
	srcRaw      = "io.ReadFull"
)

func hasSrc(m map[string]*V, suffixes ...string) bool {
	for k := range m {
		for _, s := range suffixes {
			if k == s || strings.HasPrefix(k, "call:") && strings.HasSuffix(k, s) {
				return true
			}
		}
	}
	return false
}

// fromNetwork: raw bytes read from a socket.
func fromNetwork(m map[string]*V) bool {
	return hasSrc(m, srcRaw, "io.ReadAtLeast", "bufio.Reader).Read", "net.Conn).Read", "io.Reader).Read", "bufio.Reader).Peek", "io.ReadAll", "ioutil.ReadAll", "io.Copy", "encoding/binary.Read")
}

func hasField(m map[string]*V, f *fref) bool {
	if f == nil {
		return false
	}
	s := "field:" + f.String()
	for k := range m {
		if k == s || strings.HasPrefix(k, s+".") {
			return true
		}
	}
	return false
}

func hasPrefix(m map[string]*V, prefixes ...string) (string, bool) {
	for _, k := range sortedKeys(m) {
		for _, p := range prefixes {
			if strings.HasPrefix(k, p) {
				return k, true
			}
		}
	}
	return "", false
}

func srcList(m map[string]*V) string {
	l := sortedKeys(m)
	for i, s := range l {
		l[i] = strings.ReplaceAll(s, modPath, "noise")
	}
	if len(l) > 8 {
		l = append(l[:8], "…")
	}
	return strings.Join(l, ", ")
}

func isCall(ev *Event, suffixes ...string) bool {
	if ev.Kind != EvCall {
		return false
	}
	for _, s := range suffixes {
		if strings.HasSuffix(ev.Name, s) {
			return true
		}
	}
	return false
}

// errOf is the error among the results of a call.
func errOf(res *V) *V {
	if res == nil {
		return nil
	}
	tup, ok := res.Typ.(*types.Tuple)
	if !ok {
		if isErrorType(res.Typ) {
			return res
		}
		return nil
	}
	for i := 0; i < tup.Len(); i++ {
		if isErrorType(tup.At(i).Type()) {
			return vExtract(res, i, tup.At(i).Type())
		}
	}
	return nil
}

// socketWrite returns what is being written to the socket of a connection.
func socketWrite(st *State, ev *Event) []*V {
	if ev.Kind != EvCall {
		return nil
	}
	i := strings.LastIndexByte(ev.Name, '.')
	m := ev.Name[i+1:]
	switch m {
	case "Write", "WriteString", "WriteByte", "WriteRune", "ReadFrom", "WriteTo", "Copy", "CopyN", "CopyBuffer", "Fprintf", "Fprint", "Fprintln", "Encode":
	default:
		return nil
	}
	sock := func(v *V) bool {
		if v == nil {
			return false
		}
		s := sources(v)
		return hasSrc(s, "bufio.NewWriter", "bufio.NewWriterSize", ".DialContext", ".Dial", ".DialTimeout", "net.Listener).Accept", "TCPListener).Accept") ||
			v.Typ != nil && (typeName(v.Typ) == "net.Conn" || typeName(v.Typ) == "*bufio.Writer")
	}
	if ev.Recv != nil {
		if sock(ev.Recv) || strings.Contains(ev.Name, "bufio.Writer)") || strings.Contains(ev.Name, "net.Conn)") {
			return ev.Args
		}
	}
	for k, a := range ev.Args {
		if sock(a) {
			var out []*V
			for j, b := range ev.Args {
				if j != k {
					out = append(out, b)
				}
			}
			return out
		}
	}
	return nil
}

// spans lists the memory regions bytes were copied from, as far as they are recorded.
func (st *State) spans(vs ...*V) []region {
	var out []region
	seen := map[*V]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.Op == OGhost && v.Str == "of" {
			out = append(out, regionOf(v.Args[0]))
			return
		}
		switch v.Op {
		case OLen, OCap, OFieldAddr:
			return
		case OCall:
			if boundary(v.Str) {
				return
			}
		}
		for _, a := range v.Args {
			walk(a)
		}
		for _, a := range v.Deps {
			walk(a)
		}
	}
	for _, v := range vs {
		walk(v)
	}
	return out
}

func c01(c *Check) {
	A := c.A
	c.rule("proved-key", 2, "the identity of a connection is set only after a signature by its key was verified")
	c.rule("bound-to-session", 2, "that signature covers the secret of this session and is received over the encrypted connection")
	c.rule("covers-address", 2, "that signature covers the address the identity names, as it was received")
	c.rule("from-peer", 2, "the identity of a connection is what its peer sent over the encrypted connection, nothing local")
	c.rule("session-key-proved", 2, "the key a session secret is computed with was proved by a signature of the peer")
	c.rule("proves-own", 2, "every connection that becomes ready sent the own identity with a signature by the own key, over the secret of this session")
	c.rule("known-on-connect", 2, "callbacks and handlers see a connection only after its identity was set")

	key := func(id *V) (*V, int) { // the public key inside an identity
		s := structOf(A.ID.ftype())
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), A.PubKey.ftype()) {
				return vField(id, A.ID.ftype(), i), i
			}
		}
		panic(anchorErr{"the public key of an ID"})
	}
	judge := func(x *Exec, st *State, ev *Event, dir string, id *V) {
		k, ki := key(id)
		proofs := map[string]*V{}
		for n, v := range st.mon {
			if strings.HasPrefix(n, "proved:") {
				proofs[n] = v
			}
		}
		ks := st.spans(k)
		own := func(rs []region) []region {
			var out []region
			for _, r := range rs {
				if r.base != nil && r.base.Op != OAlloc && r.base.Op != OMakeSlice && r.base.Op != OAppend {
					out = append(out, r)
				}
			}
			return out
		}
		same := func(a, b []region) bool {
			if len(a) == 0 || len(b) == 0 {
				return false
			}
			for _, r := range a {
				hit := false
				for _, q := range b {
					if r.base == q.base && (len(a) > 1 || len(b) > 1 || !r.known || !q.known || st.covers(r, q) && st.covers(q, r)) {
						hit = true
					}
				}
				if !hit {
					return false
				}
			}
			return true
		}
		var proof *V
		for _, n := range sortedKeys(proofs) {
			p := proofs[n]
			pk := p.Args[0]
			if same(own(ks), own(st.spans(pk))) || pk == k {
				proof = p
			}
		}
		c.check(proof != nil, "proved-key", dir, x, st, ev.Pos, "the identity is taken over although no signature by its key was verified")
		ids := st.from(id)
		bad, isLocal := hasPrefix(ids, "field:Client.", "field:Node.", "param:", "secret:")
		for b := range ids {
			if strings.HasSuffix(b, "RemoteAddr") || strings.HasSuffix(b, "LocalAddr") {
				bad, isLocal = b, true
			}
		}
		c.check(!isLocal && hasSrc(ids, srcOpen) && !fromNetwork(ids), "from-peer", dir, x, st, ev.Pos, "the identity does not only come from what the peer sent encrypted (%s)", bad)
		if proof == nil {
			return
		}
		msg, sig := sources(proof.Args[1]), sources(proof.Args[2])
		c.check(hasSrc(msg, srcExchange) && hasSrc(sig, srcOpen) && !fromNetwork(sig), "bound-to-session", dir, x, st, ev.Pos,
			"the verified signature is not over the secret of this session (message from: %s), or was not received encrypted (signature from: %s)", srcList(msg), srcList(sig))
		c.check(wholeSecret(st, proof.Args[1]), "bound-to-session", dir+" whole", x, st, ev.Pos, "the verified signature covers a part of the secret of this session only")
		// everything in the identity is covered by the message
		ms := st.spans(proof.Args[1])
		var whole *V
		if len(ms) > 0 {
			whole = ms[0].base
		}
		covered := true
		for i, f := range structFields(st, id, A.ID.ftype()) {
			if i == ki {
				continue
			}
			for _, r := range own(st.spans(st.bytesOf(f), f)) {
				if !hasSrc(sources(r.base), srcOpen) {
					continue
				}
				hit := false
				for _, q := range ms {
					if q.base == r.base && (!q.known || !r.known || st.covers(q, r)) {
						hit = true
					}
					// a copy of which only the extent is recorded
					fresh := q.base != nil && (q.base.Op == OAlloc || q.base.Op == OMakeSlice || q.base.Op == OAppend)
					if fresh && q.base != whole && hasSrc(msg, srcOpen) && q.known && r.known && st.ge(q.off.add(q.len, 1), r.off.add(r.len, 1)) {
						hit = true
					}
				}
				covered = covered && hit
			}
		}
		c.check(covered, "covers-address", dir, x, st, ev.Pos, "the verified signature does not cover the address the identity names")
	}
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil || ci.writer {
			return
		}
		switch {
		case isCall(ev, "ed25519.Verify") && len(ev.Args) >= 3:
			st.mon["sig:"+c.P.pos(ev.Pos)+at(ev)] = mk(V{Op: OTuple, Args: []*V{contentOr(st, ev.Args[0]), contentOr(st, ev.Args[1]), contentOr(st, ev.Args[2]), ev.Res}})
		case ev.Kind == EvBranch:
			for k, v := range st.mon {
				if strings.HasPrefix(k, "sig:") && st.truth(v.Args[3]) > 0 {
					delete(st.mon, k)
					st.mon["proved:"+k[4:]] = v
				}
			}
			if e := st.mon["sealerr"]; e != nil && st.nilness(e) > 0 {
				delete(st.mon, "sealerr")
			}
		case isCall(ev, srcExchange) && len(ev.Args) == 2:
			ok := false
			for k, v := range st.mon {
				if strings.HasPrefix(k, "proved:") && fromNetwork(sources(v.Args[0])) && fromNetwork(sources(v.Args[2])) {
					ok = true
				}
			}
			c.check(ok, "session-key-proved", ci.dir(), x, st, ev.Pos, "the session secret is computed before the peer proved that the key it sent is its own")
		case ev.Kind == EvStore:
			if b := A.ID.match(ev.Addr); b != nil {
				judge(x, st, ev, ci.dir(), ev.Val)
				st.setFlag("id", true)
				return
			}
			for a := ev.Addr; a.Op == OFieldAddr || a.Op == OIndexAddr; a = a.Args[0] {
				if A.ID.match(a.Args[0]) != nil {
					if a == ev.Addr && a.Op == OFieldAddr && types.Identical(deref(a.Typ), A.PubKey.ftype()) {
						v := zeroOf(A.ID.ftype())
						_ = v
						id := st.load(a.Args[0], A.ID.ftype())
						fs := append([]*V{}, structFields(st, id, A.ID.ftype())...)
						fs[a.Idx] = ev.Val
						judge(x, st, ev, ci.dir(), mk(V{Op: OStruct, Args: fs, Typ: A.ID.ftype()}))
						st.setFlag("id", true)
					} else if a.Op == OIndexAddr || a != ev.Addr {
						c.bad("proved-key", at(ev), x, st, ev.Pos, "the identity of a connection is changed in part")
					}
					return
				}
			}
		case isCall(ev, srcSign) && len(ev.Args) >= 2:
			k, m := st.from(ev.Args[0]), st.from(ev.Args[1])
			if hasField(k, A.PrivKey) {
				_, own := hasPrefix(m, "field:Node.")
				if hasField(m, A.PrivKey) {
					own = false
				}
				st.setFlag("signed", own && hasSrc(m, srcExchange) && wholeSecret(st, contentOr(st, ev.Args[1])))
			}
		case isCall(ev, srcSeal) && len(ev.Args) >= 3:
			m := st.from(ev.Args[2])
			if _, own := hasPrefix(m, "field:Node."); own && hasSrc(m, srcSign) && st.flag("signed") {
				st.setFlag("sealed", true)
			}
		case ev.Kind == EvClose && A.is(st, ev.Chan, A.Ready) != nil:
			if st.flag("reported") {
				return
			}
			if !st.flag("id") { // judged by C14
				return
			}
			c.check(st.flag("signed") && st.flag("sent"), "proves-own", ci.dir(), x, st, ev.Pos, "the connection becomes ready although the own identity, signed for this session, was not sent")
		}
		if st.flag("sealed") {
			for _, a := range socketWrite(st, ev) {
				if m := st.from(a); hasSrc(m, srcSeal) {
					st.setFlag("sent", true)
				}
			}
		}
		use := false
		if _, _, ok := callback(ev); ok {
			use = true
		}
		if (ev.Kind == EvSend || ev.Kind == EvSelect && ev.Send) && (A.is(st, ev.Chan, A.Work) != nil || c.isMsgChan(chanType(ev))) {
			use = true
		}
		if use {
			c.check(st.flag("id"), "known-on-connect", ci.dir(), x, st, ev.Pos, "a connection is shown to callbacks or handlers before the identity of the peer is known and proved")
		}
	}
	c.connWorld(false, c.seedProtocols("ff"), c.trackErr(), mon)
}

// contentOr describes the bytes of v, or v itself when it is no memory.
func contentOr(st *State, v *V) *V {
	if b := st.bytesOf(v); b != nil {
		return b
	}
	return v
}

func structFields(st *State, v *V, t types.Type) []*V {
	s := structOf(t)
	out := make([]*V, s.NumFields())
	for i := range out {
		out[i] = vField(v, t, i)
	}
	return out
}

func c02(c *Check) {
	A := c.A
	c.rule("sealed", 6, "what is written to the socket is the handshake's public key and signature, or the result of sealing; messages, identities and keys appear in it only sealed")
	c.rule("suite-from-session", 2, "the cipher of a connection is made from the secret of its session, once, and never replaced or removed")
	c.rule("suite-before-use", 4, "a connection gets ready and its writer starts only with a cipher")
	c.rule("opened", 4, "received data and identities are used only after they were authenticated and decrypted without error")
	c.rule("own-suite", 6, "everything is sealed and opened with the cipher of the connection")

	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil {
			return
		}
		dir := ci.dir()
		if ci.writer {
			dir += " writer"
		}
		for _, a := range socketWrite(st, ev) {
			m := st.from(a)
			bad := ""
			for _, k := range sortedKeys(m) {
				switch {
				case k == "field:"+A.Queue.String(), strings.HasPrefix(k, "field:Client."), strings.HasPrefix(k, "field:Node."), strings.HasPrefix(k, "field:message"),
					strings.HasPrefix(k, "secret:"), k == "recv", strings.HasPrefix(k, "param:"),
					strings.HasPrefix(k, "call:") && (strings.HasSuffix(k, srcExchange) || strings.HasSuffix(k, srcOpen)),
					fromNetwork(map[string]*V{k: nil}):
					bad = k
				}
			}
			c.check(bad == "", "sealed", dir, x, st, ev.Pos, "what is written to the socket contains, unencrypted, data from %s", strings.ReplaceAll(bad, modPath, "noise"))
			if !ci.writer && st.flag("suite") {
				c.check(hasSrc(m, srcSeal) || len(m) == 0, "sealed", dir+" identity", x, st, ev.Pos, "after the session secret was agreed on, something is written that was not sealed")
			}
		}
		switch {
		case ev.Kind == EvStore:
			if A.Suite.match(ev.Addr) == nil {
				break
			}
			v := unconv(ev.Val)
			ok := st.nilness(v) < 0 && madeFrom(v, srcExchange)
			c.check(ok, "suite-from-session", dir, x, st, ev.Pos, "the cipher of the connection is not made from the secret of this session")
			if st.flag("suite") || ci.writer {
				c.bad("suite-from-session", dir+" again", x, st, ev.Pos, "the cipher of a connection is replaced")
			}
			st.setFlag("suite", true)
		case isCall(ev, srcOpen), isCall(ev, srcSeal):
			c.check(madeFrom(ev.Recv, srcExchange) || contains2(ev.Recv, func(g *V) bool { return A.Suite.match(initOf(g)) != nil }), "own-suite", dir+" "+ev.Name[strings.LastIndexByte(ev.Name, '.')+1:], x, st, ev.Pos,
				"data is sealed or opened with another cipher than the one of the connection")
			if isCall(ev, srcOpen) {
				st.mon["open"] = errOf(ev.Res)
				st.setFlag("openok", false)
			}
		case ev.Kind == EvBranch:
			if e := st.mon["open"]; e != nil && st.nilness(e) > 0 {
				st.setFlag("openok", true)
				delete(st.mon, "open")
			}
		case ev.Kind == EvGo:
			if A.startsWriter(ev) && !ci.writer {
				s := st.load(A.Suite.of(ci.client), A.Suite.ftype())
				c.check(st.nilness(s) < 0, "suite-before-use", dir, x, st, ev.Pos, "the writer is started although there may be no cipher")
			}
		case ev.Kind == EvClose && A.is(st, ev.Chan, A.Ready) != nil && !st.flag("reported"):
			if !st.flag("dropped") {
				s := st.load(A.Suite.of(ci.client), A.Suite.ftype())
				c.check(st.nilness(s) < 0, "suite-before-use", dir+" ready", x, st, ev.Pos, "the connection gets ready although there may be no cipher")
			}
		}
		var data *V
		what := ""
		if ev.Kind == EvStore && A.ID.match(ev.Addr) != nil {
			data, what = ev.Val, "identity"
		}
		if (ev.Kind == EvSend || ev.Kind == EvSelect && ev.Send) && (A.is(st, ev.Chan, A.Work) != nil || c.isMsgChan(chanType(ev))) {
			data, what = ev.Val, "message"
			if sameNamed(data.Typ, A.HCtx) {
				data = vField(data, A.HCtx, A.MsgRef)
			}
			d := vField(data, A.Msg, A.MsgData)
			if nv := vField(data, A.Msg, A.MsgNonce); fromNetwork(st.from(nv)) || !hasSrc(st.from(nv), srcOpen) {
				c.bad("opened", dir+" "+what, x, st, ev.Pos, "the number of a received message does not come from what was decrypted")
			}
			data = d
		}
		if data != nil {
			m := st.from(data)
			c.check(hasSrc(m, srcOpen) && !fromNetwork(m) && st.flag("openok"), "opened", dir+" "+what, x, st, ev.Pos,
				"a received %s is used that was not decrypted successfully (comes from: %s)", what, srcList(m))
		}
	}
	c.connWorld(false, c.trackErr(), mon)
}

// startsWriter: a goroutine that belongs to a connection is started.
func (A *Anchors) startsWriter(ev *Event) bool {
	return ev.Kind == EvGo && ev.Sfn != nil && A.runsClient(ev.Sfn)
}

func contains2(v *V, f func(g *V) bool) bool { return walkFind(v, f) }

// madeFrom: looking through the construction of ciphers, v comes from a call with the given name.
func madeFrom(v *V, suffix string) bool {
	return walkFind(v, func(g *V) bool {
		if g.Op == OCall && strings.HasSuffix(g.Str, suffix) {
			return true
		}
		return g.Op == OOpaque && strings.HasPrefix(g.Str, "src:call:") && strings.HasSuffix(g.Str, suffix)
	})
}

func c03(c *Check) {
	A := c.A
	c.rule("fresh-nonce", 4, "everything that is sealed is sealed with random bytes that fill the nonce, read for this message and used once")
	c.rule("nonce-sent", 4, "the nonce is sent along with what was sealed with it")
	c.rule("random-checked", 4, "random bytes are used only when reading them succeeded")

	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil {
			return
		}
		dir := ci.dir()
		if ci.writer {
			dir += " writer"
		}
		switch {
		case isCall(ev, "crypto/rand.Read") || isCall(ev, "io.ReadFull") && len(ev.Args) == 2 && randReader(ev.Args[0]) || isCall(ev, "io.Reader).Read") && ev.Recv != nil && randReader(ev.Recv):
			st.mon["rnd"] = ev.Args[len(ev.Args)-1]
			st.mon["rnderr"] = errOf(ev.Res)
			st.setFlag("rndok", isCall(ev, "crypto/rand.Read") && false)
			if ev.Res == nil {
				st.setFlag("rndok", true)
			}
		case ev.Kind == EvBranch:
			if e := st.mon["rnderr"]; e != nil && st.nilness(e) > 0 {
				st.setFlag("rndok", true)
				delete(st.mon, "rnderr")
			}
		case isCall(ev, srcSeal) && len(ev.Args) >= 3:
			n := ev.Args[1]
			r := st.mon["rnd"]
			full := false
			if r != nil {
				a, b := regionOf(r), regionOf(n)
				full = a.base == b.base && st.covers(a, b)
			}
			m := st.from(n)
			only := len(m) == 1 && hasSrc(m, "crypto/rand.Read") && len(st.parts(n, regionOf(n), 0)) == 1
			c.check(full && only, "fresh-nonce", dir, x, st, ev.Pos, "the nonce is not filled with random bytes of its own (fresh: %v, filled by one read: %v, comes from: %s)", r != nil, full, srcList(m))
			c.check(st.flag("rndok"), "random-checked", dir, x, st, ev.Pos, "the nonce is used although reading random bytes may have failed")
			delete(st.mon, "rnd")
			delete(st.mon, "rnderr")
			st.setFlag("rndok", false)
		}
		for _, a := range socketWrite(st, ev) {
			m := st.from(a)
			if hasSrc(m, srcSeal) {
				c.check(hasSrc(m, "crypto/rand.Read"), "nonce-sent", dir, x, st, ev.Pos, "what was sealed is sent without its nonce")
			}
		}
	}
	c.connWorld(false, mon)
}

func randReader(v *V) bool {
	return walkFind(v, func(g *V) bool { return g.Op == OGlobal && g.Str == "crypto/rand.Reader" })
}

func c04(c *Check) {
	A := c.A
	c.rule("fresh-keys", 2, "every session secret is computed from a key pair made at random for this connection only")
	c.rule("peer-key", 2, "and from the key the peer sent")
	c.rule("not-reflected", 2, "the key of the peer is known not to be the own one sent back")
	c.rule("exchange-checked", 2, "a cipher is made only when computing the secret succeeded")
	c.rule("whole-secret", 2, "the key of the cipher is the session secret, all of it")
	c.rule("secret-forgotten", 0, "key pairs and session secrets are not kept in shared memory")

	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil {
			return
		}
		switch {
		case isCall(ev, srcPub):
			r := ev.Args[0]
			good := r == vNil || r.Op == OZero || st.nilness(r) > 0 || randReader(r)
			st.setFlag("gen", good)
			if !good {
				c.bad("fresh-keys", ci.dir(), x, st, ev.Pos, "the key pair of a session is not made from the system's randomness")
			}
			st.mon["generr"] = errOf(ev.Res)
			st.setFlag("genok", false)
			st.setFlag("notown", false)
		case ev.Kind == EvBranch:
			if e := st.mon["generr"]; e != nil && st.nilness(e) > 0 {
				st.setFlag("genok", true)
				delete(st.mon, "generr")
			}
			if e := st.mon["dherr"]; e != nil && st.nilness(e) > 0 {
				st.setFlag("dhok", true)
				delete(st.mon, "dherr")
			}
			if !st.flag("notown") && c.excludesOwn(st, ev.Val, ev.OK) {
				st.setFlag("notown", true)
			}
		case isCall(ev, srcExchange) && len(ev.Args) == 2:
			own, peer := st.from(ev.Args[0]), st.from(ev.Args[1])
			k, static := hasPrefix(own, "field:Node.", "field:Client.")
			c.check(st.flag("gen") && st.flag("genok") && own[srcSecret] != nil && !static, "fresh-keys", ci.dir(), x, st, ev.Pos,
				"the own part of the session secret does not come from a key pair made for this connection (%s)", srcList(own)+" "+k)
			if peer[srcSecret] != nil || hasSrc(peer, srcPub) {
				c.bad("peer-key", ci.dir(), x, st, ev.Pos, "the peer's part of the session secret is not what the peer sent (comes from: %s)", srcList(peer))
			} else if fromNetwork(peer) { // a conversion may copy no byte on some path
				c.ok("peer-key", ci.dir(), ev.Pos)
			}
			c.check(st.flag("notown"), "not-reflected", ci.dir(), x, st, ev.Pos, "the own session key sent back by the peer would be accepted")
			st.mon["dherr"] = errOf(ev.Res)
			st.setFlag("dhok", false)
		case isCall(ev, "aes.NewCipher", "chacha20poly1305.New", "chacha20poly1305.NewX"):
			k := ev.Args[0]
			m := st.from(k)
			c.check(st.flag("dhok"), "exchange-checked", ci.dir(), x, st, ev.Pos, "a cipher is made although computing the session secret may have failed")
			c.check(hasSrc(m, srcExchange) && len(m) == 1 && st.ge(lenOf(unconv(k)), newLin(32)), "whole-secret", ci.dir(), x, st, ev.Pos,
				"the key of the cipher is not the whole session secret (comes from: %s)", srcList(m))
		case ev.Kind == EvStore:
			if rootOf(ev.Addr).Op == OAlloc && !isDescendant(ev.Addr, ci.client) {
				return
			}
			m := st.from(ev.Val)
			c.check(m[srcSecret] == nil, "secret-forgotten", at(ev), x, st, ev.Pos, "the private part of a session key is kept in %s", ev.Addr.str(3))
		}
	}
	c.connWorld(false, mon)
}

// excludesOwn: the condition compares the own session key with what the peer sent, and found them to differ.
func (c *Check) excludesOwn(st *State, cond *V, truth bool) bool {
	for cond != nil && cond.Op == ONot {
		cond, truth = cond.Args[0], !truth
	}
	if cond == nil {
		return false
	}
	differ := false
	var ops []*V
	cmp := func(v *V) bool {
		v = unconv(v)
		return v.Op == OCall && (strings.HasSuffix(v.Str, "bytes.Equal") || strings.HasSuffix(v.Str, "subtle.ConstantTimeCompare") || strings.HasSuffix(v.Str, "bytes.Compare") || strings.HasSuffix(v.Str, "reflect.DeepEqual"))
	}
	switch {
	case cond.Op == OCall && cmp(cond):
		differ, ops = !truth, cond.Args
	case cond.Op == OBin && cond.Str == "==":
		a, b := cond.Args[0], cond.Args[1]
		if cmp(b) {
			a, b = b, a
		}
		if cmp(a) {
			u := unconv(a)
			n, isN := b.intConst()
			zeroMeansEqual := strings.HasSuffix(u.Str, "bytes.Compare")
			switch {
			case !isN:
			case zeroMeansEqual:
				differ = n == 0 && !truth
			default:
				differ = n == 1 && !truth || n == 0 && truth
			}
			ops = append(append([]*V{}, u.Args...), u.Deps...)
			break
		}
		differ, ops = !truth, cond.Args
	}
	if !differ {
		return false
	}
	if cond.Op == OCall {
		ops = append(append([]*V{}, cond.Args...), cond.Deps...)
	}
	m := st.from(ops...)
	return hasSrc(m, srcPub) && fromNetwork(m)
}

func c05(c *Check) {
	A, P := c.A, c.P
	c.rule("not-disclosed", 8, "private keys and session secrets reach no log, error, output or socket, except by way of signing, key agreement and sealing")

	secret := func(m map[string]*V) string {
		for _, k := range sortedKeys(m) {
			if k == srcSecret || strings.HasPrefix(k, "call:") && strings.HasSuffix(k, srcExchange) {
				return k
			}
		}
		if hasField(m, A.PrivKey) {
			return "field:" + A.PrivKey.String()
		}
		return ""
	}
	sink := func(n string) bool {
		for _, p := range []string{"go.uber.org/zap", "(*go.uber.org/zap", "(go.uber.org/zap", "fmt.", "errors.", "log.", "(*log.", "os.", "(*os.", "encoding/json.", "(*encoding/json.", "log/slog.", "(*log/slog."} {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
		return false
	}
	mon := func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvPanic && ev.Val != nil {
			s := secret(st.from(ev.Val))
			if s != "" {
				c.bad("not-disclosed", at(ev)+" panic", x, st, ev.Pos, "a secret (%s) is part of a panic", strings.ReplaceAll(s, modPath, "noise"))
			}
			return
		}
		if ev.Kind != EvCall {
			return
		}
		var args []*V
		what := ""
		if sink(ev.Name) {
			args, what = ev.Args, ev.Name
			if ev.Recv != nil {
				args = append(append([]*V{}, args...), ev.Recv)
			}
		} else if w := socketWrite(st, ev); w != nil {
			args, what = w, "the socket"
		}
		if args == nil {
			return
		}
		for _, a := range args {
			s := secret(st.from(deepArgs(st, a)...))
			if !c.check(s == "", "not-disclosed", at(ev)+" "+what, x, st, ev.Pos, "a secret (%s) reaches %s", strings.ReplaceAll(s, modPath, "noise"), what) {
				return
			}
		}
	}
	c.connWorld(false, mon)
	var fns []*ssa.Function
	for _, n := range []string{"NewNode", "GenerateKeys", "LoadKeysFromHex", "ECDH"} {
		fns = append(fns, P.function("", n))
	}
	fns = append(fns, P.method("", "Node", "Sign"))
	c.run(World{Name: "keys", Fns: fns, Mons: []MonitorFunc{mon}, OnGo: func(x *Exec, st *State, ev *Event, r *Root) bool { return false }})
}

// deepArgs: a value and what the elements of a variadic argument hold.
func deepArgs(st *State, v *V) []*V {
	out := []*V{v}
	u := unconv(v)
	if u == nil {
		return out
	}
	b := backing(u)
	if b == nil {
		return out
	}
	for a, w := range st.mem {
		if a != b && isDescendant(a, b) {
			out = append(out, w)
			if w.Op == OIface {
				out = append(out, w.Args...)
			}
		}
	}
	return out
}

// wholeSecret: what v holds of a session secret is all of it, as far as its extent is recorded.
func wholeSecret(st *State, v *V) bool {
	seen, whole := false, false
	for _, r := range st.spans(v) {
		if r.base == nil || r.base.Op == OAlloc || r.base.Op == OMakeSlice || r.base.Op == OAppend || !hasSrc(sources(r.base), srcExchange) {
			continue
		}
		seen = true
		if !r.known || st.ge(r.len, newLin(32)) || st.ge(r.len, lenOf(r.base)) {
			whole = true
		}
	}
	return whole || !seen
}
