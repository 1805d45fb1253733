package main

import (
	"fmt"
	"strings"
)

func init() {
	register("C39", c39)
}

// c39: protocols hear of every message received and of every time messages were sent.
func c39(c *Check) {
	A := c.A
	c.rule("recv-told", 2, "after a received message was handed over, every protocol that listens for it is told before the next message is read")
	c.rule("recv-only", 2, "a protocol is told of a received message once, by the goroutine of its connection, and only of a message that was handed over")
	c.rule("sent-told", 2, "after queued messages were flushed successfully, every protocol that listens for it is told before the writer waits, takes more messages or ends")
	c.rule("sent-only", 2, "a protocol is told that something was sent once per flush, by the writer of the connection, and only after the flush succeeded")
	c.rule("told-own", 4, "protocols are told of the connection the message was received or sent on")
	for _, kinds := range []string{"ff", "zf", "fz"} {
		kinds := kinds
		all := func(st *State, k string) bool {
			for i, f := range kinds {
				if f == 'f' && st.count(fmt.Sprintf("%s%d", k, i)) != 1 {
					return false
				}
			}
			return true
		}
		reset := func(st *State, k string) {
			for i := range kinds {
				st.setCount(fmt.Sprintf("%s%d", k, i), 0)
			}
		}
		some := func(st *State, k string) bool {
			for i := range kinds {
				if st.count(fmt.Sprintf("%s%d", k, i)) != 0 {
					return true
				}
			}
			return false
		}
		// the end of what was done for one received message
		settle := func(x *Exec, st *State, ev *Event, dir string) {
			if st.flag("handed") {
				c.check(all(st, "rcv"), "recv-told", dir, x, st, ev.Pos, "a message was received, but not every protocol is told")
			} else if some(st, "rcv") {
				c.check(st.flag("ending"), "recv-only", dir+" nothing", x, st, ev.Pos, "protocols are told of a message although none was handed over")
			}
			st.setFlag("handed", false)
			st.setFlag("ending", false)
			reset(st, "rcv")
		}
		settleSent := func(x *Exec, st *State, ev *Event, dir string) {
			if e := st.mon["flusherr"]; e != nil && st.nilness(e) >= 0 {
				c.check(all(st, "snt"), "sent-told", dir, x, st, ev.Pos, "messages were flushed, but not every protocol is told")
			}
			delete(st.mon, "flusherr")
			reset(st, "snt")
		}
		mon := func(x *Exec, st *State, ev *Event) {
			ci := A.conn(x, st)
			i, name, ok := callback(ev)
			if ok && (name == "OnMessageRecv" || name == "OnMessageSent") {
				rule, k := "recv-only", "rcv"
				if name == "OnMessageSent" {
					rule, k = "sent-only", "snt"
				}
				if ci == nil || ci.writer != (k == "snt") {
					c.bad(rule, at(ev)+" elsewhere", x, st, ev.Pos, "%s is called outside the goroutine it belongs to", name)
					return
				}
				c.check(len(ev.Args) == 1 && ev.Args[0] == ci.client, "told-own", ci.dir()+" "+name, x, st, ev.Pos, "another connection is named")
				key := fmt.Sprintf("%s%d", k, i)
				c.check(st.count(key) == 0, rule, ci.dir(), x, st, ev.Pos, "%s of one protocol is called twice for the same event", name)
				st.setCount(key, 1)
				if k == "snt" {
					e := st.mon["flusherr"]
					c.check(e != nil && st.nilness(e) > 0, rule, ci.dir()+" flushed", x, st, ev.Pos, "%s is called although nothing was flushed successfully", name)
				}
				return
			}
			if ci == nil {
				return
			}
			dir := ci.dir()
			if !ci.writer {
				if l, _ := connRead(ev); l != nil {
					settle(x, st, ev, dir)
				}
				switch ev.Kind {
				case EvSend, EvSelect:
					if ev.Kind == EvSend || ev.Send {
						if A.is(st, ev.Chan, A.Work) != nil || c.isMsgChan(chanType(ev)) {
							st.setFlag("handed", true)
						}
					} else if ev.Chan != nil {
						st.setFlag("ending", true)
					}
				case EvReturn:
					settle(x, st, ev, dir)
				}
				return
			}
			if w := socketWrite(st, ev); len(w) > 0 {
				st.setFlag("unsent", true)
			}
			switch ev.Kind {
			case EvCall:
				if strings.HasSuffix(ev.Name, "bufio.Writer).Flush") && st.flag("unsent") {
					if e := errOf(ev.Res); e != nil {
						st.mon["flusherr"] = e
						st.setFlag("unsent", false)
						reset(st, "snt")
					}
				}
				if ev.Name == "(*sync.Cond).Wait" {
					settleSent(x, st, ev, dir)
				}
			case EvStore:
				if A.Queue.match(ev.Addr) != nil {
					settleSent(x, st, ev, dir)
				}
			case EvReturn:
				settleSent(x, st, ev, dir)
			}
		}
		c.connWorld(true, c.seedProtocols(kinds), mon)
	}
}
