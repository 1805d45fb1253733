package main

import (
	"strings"
)

// Rules about time limits on what is done with a socket.

func init() { register("C29", c29) }

func c29(c *Check) {
	A := c.A
	c.rule("wait-limited", 2, "a goroutine waits for the next message of a peer only with a time limit that began since it took the one before")
	c.rule("read-limited", 2, "everything read from a connection is read with a time limit")
	c.rule("write-limited", 3, "everything written to a connection is written with a time limit that began since the goroutine last waited")
	c.rule("limit", 3, "a time limit ends the configured time from now")
	c.rule("disabled", 3, "no time limit is set where none is configured")
	idle := A.Opt["IdleTimeout"]
	if idle == nil {
		panic(anchorErr{"the idle timeout of a node"})
	}
	mon := func(x *Exec, st *State, ev *Event) {
		ci := A.conn(x, st)
		if ci == nil {
			return
		}
		dir := ci.dir()
		if ci.writer {
			dir += " writer"
		}
		off := func() bool {
			if st.flag("off") {
				return true
			}
			v := st.mon["idle"]
			return v != nil && st.ge(newLin(0), linOf(v))
		}
		set := func(k string) bool {
			e := st.mon[k]
			return e != nil && (e == vTrue || st.nilness(e) > 0)
		}
		switch ev.Kind {
		case EvLoad:
			if idle.match(ev.Addr) != nil {
				st.mon["idle"] = ev.Val
			}
			if ci.writer && A.Queue.match(ev.Addr) != nil && st.flag("wrote") {
				delete(st.mon, "w")
				delete(st.mon, "wrote")
			}
		case EvBranch:
			for _, k := range []string{"r", "w"} {
				if e := st.mon[k]; e != nil && e != vTrue && st.nilness(e) > 0 {
					st.mon[k] = vTrue
				}
			}
			if v := st.mon["idle"]; v != nil && st.ge(newLin(0), linOf(v)) {
				st.setFlag("off", true)
			}
		case EvCall:
			if n, _ := connRead(ev); n != nil {
				r := set("r")
				if st.entailsEq(*n, newLin(4)) {
					c.check(off() || r && !st.flag("taken"), "wait-limited", dir, x, st, ev.Pos, "the next message is waited for without a time limit of its own")
					st.setFlag("taken", true)
				} else {
					c.check(off() || r, "read-limited", dir, x, st, ev.Pos, "something is read from the connection without a time limit")
				}
				delete(st.mon, "w")
				delete(st.mon, "wrote")
				delete(st.mon, "now")
				return
			}
			if socketWrite(st, ev) != nil || strings.HasSuffix(ev.Name, "bufio.Writer).Flush") {
				c.check(off() || set("w"), "write-limited", dir, x, st, ev.Pos, "something is written to the connection without a time limit")
				st.setFlag("wrote", true)
				return
			}
			switch {
			case ev.Name == "(*sync.Cond).Wait":
				delete(st.mon, "w")
				delete(st.mon, "wrote")
				delete(st.mon, "now")
			case ev.Name == "time.Now":
				st.mon["now"] = ev.Res
			case strings.HasSuffix(ev.Name, ".SetReadDeadline"), strings.HasSuffix(ev.Name, ".SetWriteDeadline"), strings.HasSuffix(ev.Name, ".SetDeadline"):
				if len(ev.Args) == 0 {
					return
				}
				idleVal := st.mon["idle"]
				t := unconv(ev.Args[0])
				ok := false
				if t.Op == OCall && t.Str == "(time.Time).Add" && len(t.Args) == 2 && idleVal != nil {
					ok = st.mon["now"] != nil && unconv(t.Args[0]) == unconv(st.mon["now"]) && st.entailsEq(linOf(unconv(t.Args[1])), linOf(idleVal))
				}
				c.check(ok, "limit", dir+" "+ev.Name[strings.LastIndexByte(ev.Name, '.')+1:], x, st, ev.Pos, "a time limit is not the configured time from now")
				c.check(ok && st.ge(linOf(idleVal), newLin(1)), "disabled", dir+" "+ev.Name[strings.LastIndexByte(ev.Name, '.')+1:], x, st, ev.Pos, "a time limit is set where none may be configured: the connection would end at once")
				delete(st.mon, "now")
				err := ev.Res
				if !strings.HasSuffix(ev.Name, ".SetWriteDeadline") {
					st.mon["r"] = err
					delete(st.mon, "taken")
				}
				if !strings.HasSuffix(ev.Name, ".SetReadDeadline") {
					st.mon["w"] = err
					delete(st.mon, "wrote")
				}
			}
		}
	}
	c.connWorld(true, mon)
}
