package main

import (
	"fmt"
	"os"
	"sort"
)

func (st *State) dump() {
	fr := st.top()
	var l []string
	for r, v := range fr.regs {
		l = append(l, "  reg "+r.Name()+" = "+v.str(debugDepth))
	}
	for a, v := range st.mem {
		l = append(l, "  mem "+a.str(debugDepth)+" = "+v.str(debugDepth))
	}
	for f, v := range st.facts {
		l = append(l, fmt.Sprintf("  fact %s = %v", f.str(6), v))
	}
	for f, v := range st.mon {
		l = append(l, fmt.Sprintf("  mon %s = %v", f, v))
	}
	sort.Strings(l)
	for _, s := range l {
		fmt.Println(s)
	}
}

var debugFn string
var debugN = 1

type prof struct {
	calls, outs, max, entries int
	maxOuts                   []*State
}

var debugProf map[string]*prof

func init() {
	if os.Getenv("PROF") != "" {
		debugProf = map[string]*prof{}
	}
	debugFn = os.Getenv("DFN")
	fmt.Sscan(os.Getenv("DN"), &debugN)
}

func dumpProf() {
	var l []string
	for k, p := range debugProf {
		l = append(l, fmt.Sprintf("%8d entries %7d calls %7d outs max %d %s", p.entries, p.calls, p.outs, p.max, k))
	}
	sort.Strings(l)
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	for _, s := range l {
		fmt.Println(s)
	}
	if f := os.Getenv("PDIFF"); f != "" {
		p := debugProf[f]
		for i := 1; i < len(p.maxOuts) && i < 4; i++ {
			fmt.Println("== diff", i)
			diffStates(p.maxOuts[0], p.maxOuts[i])
		}
	}
}

// diffStates prints what distinguishes two states.
func diffStates(a, b *State) {
	for k, v := range a.mem {
		if b.mem[k] != v {
			fmt.Println("  mem", k.str(debugDepth), "=", v.str(debugDepth), a.nilness(v), "|", b.mem[k].str(debugDepth))
		}
	}
	for k, v := range b.mem {
		if _, ok := a.mem[k]; !ok {
			fmt.Println("  mem", k.str(debugDepth), "= - |", v.str(debugDepth))
		}
	}
	for k, v := range a.mon {
		if b.mon[k] != v {
			fmt.Println("  mon", k, v, b.mon[k])
		}
	}
	for i, v := range a.ret {
		if b.ret[i] != v {
			fmt.Println("  ret", i, v.str(debugDepth), "|", b.ret[i].str(debugDepth))
		}
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || w != v {
			fmt.Println("  fact", k.str(debugDepth), v, ok)
		}
	}
	for k, v := range b.facts {
		if _, ok := a.facts[k]; !ok {
			fmt.Println("  fact -|", k.str(debugDepth), v)
		}
	}
	if n := len(a.frames); n > 0 {
		for r, v := range a.frames[n-1].regs {
			if w := b.frames[n-1].regs[r]; w != v {
				fmt.Println("  reg", r.Name(), v.str(debugDepth), "|", w.str(debugDepth))
			}
		}
	}
}

var debugDepth = 5

var dbgOn = os.Getenv("DBG") != ""

func dbg(args ...interface{}) {
	if dbgOn {
		fmt.Println(args...)
	}
}
