package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about connecting to an address.

func init() { register("C26", c26) }

// chained: e is the cause of a failure, possibly inside other errors that wrap it.
func chained(st *State, e *V) bool {
	return e != nil && st.flag(chainKey(e))
}

func chainKey(e *V) string {
	e = unold(unconv(e))
	for e.Op == OIface && len(e.Args) > 0 {
		e = unold(unconv(e.Args[0]))
	}
	return fmt.Sprintf("chain:%p", e)
}

// chain follows a cause through the errors made of it.
func chain(st *State, ev *Event) {
	if ev.Kind != EvCall || ev.Res == nil || ev.Name != "fmt.Errorf" && ev.Name != "errors.Join" {
		return
	}
	if ev.Name == "fmt.Errorf" {
		if f, ok := constString(ev.Args[0]); !ok || !strings.Contains(f, "%w") {
			return
		}
	}
	for _, a := range ev.Args {
		as := []*V{a}
		if a.Op == OTuple {
			as = a.Args
		}
		for _, b := range as {
			if chained(st, b) {
				st.setFlag(chainKey(ev.Res), true)
			}
		}
	}
}

func c26(c *Check) {
	A, P := c.A, c.P
	c.rule("outcome", 3, "connecting succeeds only with a connection that reported how it went, and without an error")
	c.rule("failure-told", 3, "when connecting fails every protocol that wants to know is told once, of the address and the error that is returned, and of nothing when it succeeds")
	c.rule("attempts", 3, "connecting is tried as often as configured before it fails, and not again once the context of the caller ended")
	c.rule("ended", 2, "a connection that was not established in time is closed, and gone before another attempt is made")
	c.rule("wait-bounded", 1, "the outcome is waited for no longer than the context of the caller lasts")
	c.rule("cause", 3, "the error returned says why the last attempt failed")
	c.rule("address", 3, "the pool is asked for the address given")
	attempts := A.Opt["MaxDialAttempts"]
	if attempts == nil {
		panic(anchorErr{"the number of attempts at connecting"})
	}
	cf := c.closeFacts()
	const tries = 2
	var fns []*ssa.Function
	for _, m := range []string{"Ping", "Send", "Request"} {
		fns = append(fns, P.method("", "Node", m))
	}
	isCtx := func(v *V) bool {
		return v != nil && v.Op == OCall && (strings.HasSuffix(v.Str, "Context).Done") || strings.HasSuffix(v.Str, "Context).Err"))
	}
	for _, kinds := range []string{"ff", "zf"} {
		kinds := kinds
		mon := func(x *Exec, st *State, ev *Event) {
			name := fnName(x.Root.Fn)
			strip := func(suffix string) string { return name + suffix }
			if len(x.Root.Args) < 3 {
				return
			}
			ctx, addr := x.Root.Args[1], x.Root.Args[2]
			fail := func(rule string, ok bool, what string) {
				c.check(ok, rule, name, x, st, ev.Pos, "%s", what)
			}
			n := 0
			if k := st.mon["attempts"]; k != nil {
				v, _ := k.intConst()
				n = int(v)
			}
			start := func(cl *V) {
				if cl == nil || cl == st.mon["cl"] && !st.flag("gone") {
					return
				}
				if st.mon["cl"] != nil {
					fail("ended", st.flag("gone") || st.flag("ok"), "another attempt is made before the connection of the one before is gone")
				}
				n++
				fail("attempts", n <= tries, "connecting is tried more often than configured")
				fail("attempts", !st.flag("ctx"), "connecting is tried again although the context of the caller ended")
				for _, k := range []string{"gone", "ok", "heard"} {
					st.setFlag(k, false)
				}
				if cl != st.mon["cl"] { // what is closed stays closed
					st.setFlag("asked", false)
				}
				for k := range st.mon {
					if strings.HasPrefix(k, "chain:") {
						delete(st.mon, k)
					}
				}
				st.mon["cl"] = cl
				st.mon["attempts"] = vInt(int64(n))
			}
			cl := st.mon["cl"]
			heard := func(ch *V) {
				switch {
				case isCtx(ch) && contains(ch, ctx):
					st.setFlag("ctx", true)
				case cl != nil && A.is(st, ch, A.Done) == cl:
					st.setFlag("gone", true)
				case cl != nil:
					if h, f := A.holder(st, ch, A.Client); f != nil && h == cl {
						st.setFlag("heard", true)
						delete(st.mon, "lerr")
					}
				}
			}
			switch ev.Kind {
			case EvMapGet:
				if c.poolOf(st, ev.Map) != nil && ev.Val != nil {
					fail("address", ev.Key == addr, "the pool is asked for another address than the one given")
					if ev.OK {
						start(c.entryClient(ev.Val))
					}
				}
			case EvMapSet:
				if c.poolOf(st, ev.Map) != nil && ev.Key == addr {
					start(c.entryClient(ev.Val))
				}
			case EvSelect:
				if cl == nil || st.flag("ok") {
					return
				}
				ready, ends := false, false
				for _, s := range ev.Cases {
					ready = ready || A.is(st, s.Chan, A.Ready) == cl
					ends = ends || isCtx(s.Chan) && contains(s.Chan, ctx)
				}
				if ev.Block && !st.flag("heard") && !st.flag("ctx") {
					fail("wait-bounded", ends, "the outcome of connecting is waited for although the context of the caller ended")
					fail("outcome", ready, "the outcome of connecting is not waited for")
				}
				heard(ev.Chan)
			case EvRecv:
				if cl != nil && !st.flag("ok") && A.is(st, ev.Chan, A.Done) != cl && !st.flag("heard") && !st.flag("ctx") {
					fail("wait-bounded", false, "the outcome of connecting is waited for although the context of the caller ended")
				}
				heard(ev.Chan)
			case EvLoad:
				if cl == nil {
					return
				}
				if A.Err.match(ev.Addr) == cl && st.flag("heard") {
					st.mon["lerr"] = ev.Val
				}
				if cf.flag != nil && cf.flag.match(ev.Addr) == cl {
					st.setFlag("asked", true)
				}
			case EvStore:
				if cl != nil && cf.flag != nil && cf.flag.match(ev.Addr) == cl {
					st.setFlag("asked", true)
				}
			case EvBranch:
				if cl == nil {
					return
				}
				if e := st.mon["lerr"]; e != nil {
					switch k := st.nilness(e); {
					case k > 0 && !st.flag("ctx"):
						st.setFlag("ok", true)
						delete(st.mon, "lerr")
					case k < 0:
						st.setFlag(chainKey(e), true)
						delete(st.mon, "lerr")
					}
				}
				e := ev.Val
				not := !ev.OK
				for e != nil && e.Op == ONot {
					e, not = e.Args[0], !not
				}
				if e == nil {
					return
				}
				if e.Op == OIsNil && isCtx(e.Args[0]) && !not && st.flag("ctx") {
					ev.Kill = true
				}
				if e.Op == OCall && e.Str == "errors.Is" && len(e.Args) == 2 {
					which := ""
					for _, k := range []string{"Canceled", "DeadlineExceeded"} {
						if walkFind(e.Args[1], func(u *V) bool { return u.Op == OGlobal && u.Str == "context."+k }) {
							which = k
						}
					}
					if which == "" {
						return
					}
					switch {
					case !not:
						st.setFlag("ctx", true)
					case st.flag("ctx") && st.flag("ctxerr") && chained(st, e.Args[0]):
						st.setFlag("not "+which, true)
						if st.flag("not Canceled") && st.flag("not DeadlineExceeded") {
							ev.Kill = true // an ended context has one of these errors
						}
					}
				}
			case EvCall:
				if i, cb, ok := callback(ev); ok {
					if !strings.Contains(cb, "OnPingFailed") || len(ev.Args) < 2 {
						return
					}
					k := fmt.Sprintf("told:%d", i)
					fail("failure-told", ev.Args[0] == addr, "a protocol is told of another address than the one that could not be connected to")
					fail("failure-told", !st.flag(k), "a protocol is told twice that connecting failed")
					fail("failure-told", !st.flag("ok"), "a protocol is told that connecting failed although it succeeded")
					st.setFlag(k, true)
					if o := st.mon["told"]; o != nil && o != ev.Args[1] {
						fail("failure-told", false, "protocols are told of different errors")
					}
					st.mon["told"] = ev.Args[1]
					return
				}
				if strings.HasSuffix(ev.Name, "Context).Err") && ev.Recv != nil && contains(ev.Recv, ctx) && st.flag("ctx") {
					st.setFlag("ctxerr", true)
					st.setFlag(chainKey(ev.Res), true)
				}
				chain(st, ev)
			case EvReturn:
				if len(x.Root.parents) > 0 {
					return
				}
				e := ev.Res
				if e != nil && e.Op == OTuple {
					e = e.Args[len(e.Args)-1]
				}
				if e == nil {
					return
				}
				if st.flag("ok") {
					for i := range kinds {
						fail("failure-told", !st.flag(fmt.Sprintf("told:%d", i)), "a protocol is told that connecting failed although it succeeded")
					}
					return
				}
				fail("outcome", st.nilness(e) < 0, "connecting succeeds although the connection did not report that it is ready without an error")
				for i := range kinds {
					fail("failure-told", kinds[i] == 'z' || st.flag(fmt.Sprintf("told:%d", i)), "a protocol is not told that connecting failed")
				}
				fail("failure-told", st.mon["told"] != nil && (e == st.mon["told"] || chained(st, e) && chained(st, st.mon["told"])), "protocols are told of another error than the one returned")
				fail("attempts", n == tries || st.flag("ctx"), "connecting is given up before it was tried as often as configured")
				c.check(st.flag("gone") && st.flag("asked"), "ended", strip(" last"), x, st, ev.Pos, "connecting fails and leaves the connection to itself")
				fail("cause", chained(st, e), "the error returned does not say why connecting failed")
			}
		}
		seed := func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvLoad && attempts.match(ev.Addr) != nil {
				ev.Val = vInt(tries)
			}
		}
		c.run(World{Name: "connecting " + kinds, Fns: fns, Mons: []MonitorFunc{c.seedProtocols(kinds), seed, mon}, NoContent: true, OnGo: noGo})
	}
}
