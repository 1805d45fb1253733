package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check collects what one property's rules found on one run.
type Check struct {
	P    *Program
	A    *Anchors
	ID   string
	Tier string

	rules   []string
	ruleDoc map[string]string
	okSet   map[string]map[string]string // rule -> construct -> position
	badSet  map[string]*Violation
	badSeq  []string
	floors  map[string]int

	steps, states, events int
	funcs                 map[*ssa.Function]bool
	roots                 []string
	rootSet               map[string]bool
	skipped               map[string]bool
	notes                 []string
}

type Violation struct {
	Rule, Construct, Msg, Pos string
	Stack, Path               []string
	Known                     bool
}

func newCheck(P *Program, id string) *Check {
	return &Check{P: P, ID: id, ruleDoc: map[string]string{}, okSet: map[string]map[string]string{}, badSet: map[string]*Violation{},
		floors: map[string]int{}, funcs: map[*ssa.Function]bool{}, rootSet: map[string]bool{}, skipped: map[string]bool{}}
}

// rule declares a rule; at least min constructs must be found that it applies to.
func (c *Check) rule(name string, min int, doc string) {
	c.rules = append(c.rules, name)
	c.ruleDoc[name] = doc
	c.floors[name] = min
	c.okSet[name] = map[string]string{}
}

// ok records that an obligation of a rule was met by a construct.
func (c *Check) ok(rule, construct string, pos token.Pos) {
	m, ok := c.okSet[rule]
	if !ok {
		panic("undeclared rule " + rule)
	}
	if _, ok := m[construct]; !ok {
		m[construct] = c.P.pos(pos)
	}
}

// bad records a violation.
func (c *Check) bad(rule, construct string, x *Exec, st *State, pos token.Pos, format string, args ...interface{}) {
	if _, ok := c.okSet[rule]; !ok {
		panic("undeclared rule " + rule)
	}
	k := rule + "@" + construct
	if _, ok := c.badSet[k]; ok {
		return
	}
	v := &Violation{Rule: rule, Construct: construct, Msg: fmt.Sprintf(format, args...), Pos: c.P.pos(pos)}
	if x != nil && st != nil {
		v.Stack = x.Stack(st, pos)
		v.Path = x.Path(st)
	}
	c.badSet[k] = v
	c.badSeq = append(c.badSeq, k)
	if os.Getenv("DUMP") != "" && st != nil {
		fmt.Println("DUMP", k)
		st.dump()
	}
}

// check is ok or bad depending on cond.
func (c *Check) check(cond bool, rule, construct string, x *Exec, st *State, pos token.Pos, format string, args ...interface{}) bool {
	if cond {
		c.ok(rule, construct, pos)
	} else {
		c.bad(rule, construct, x, st, pos, format, args...)
	}
	return cond
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.RelString(nil), modPath, "noise")
}

// at names the construct an event belongs to by its function.
func at(ev *Event) string { return fnName(ev.Fn) }

// World is one run of the abstract semantics.
type World struct {
	Name      string
	Fns       []*ssa.Function
	Init      func(x *Exec, r *Root)
	Mons      []MonitorFunc
	OnGo      func(x *Exec, st *State, ev *Event, r *Root) bool
	Layout    bool
	Interfere func(x *Exec, st *State, ev *Event) []func(st *State) []*State
	Skip      func(fn *ssa.Function) bool
	NoContent bool
	Coarse    bool
	MaxLen    int64
	Roots     []*Root // further roots
}

func (c *Check) run(w World) *Exec {
	var x *Exec
	mons := w.Mons
	x = NewExec(c.P, MonitorFunc(func(x *Exec, st *State, ev *Event) {
		for _, m := range mons {
			m(x, st, ev)
			if ev.Kill {
				return
			}
		}
	}))
	x.OnGo, x.Interfere, x.Skip, x.NoContent, x.Coarse, x.Layout = w.OnGo, w.Interfere, w.Skip, w.NoContent, w.Coarse, w.Layout
	if w.MaxLen > 0 {
		x.MaxLen = w.MaxLen
	}
	var roots []*Root
	for _, fn := range w.Fns {
		r := &Root{Name: fn.String(), Fn: fn, State: newState()}
		for _, p := range fn.Params {
			r.Args = append(r.Args, vParam(p.Name(), p.Type()))
		}
		if w.Init != nil {
			x.Root = r
			w.Init(x, r)
		}
		roots = append(roots, r)
	}
	roots = append(roots, w.Roots...)
	t0 := time.Now()
	x.Run(roots...)
	c.steps += x.Steps
	c.states += x.States
	c.events += x.Events
	for f := range x.Funcs {
		c.funcs[f] = true
	}
	for _, r := range x.Roots {
		n := strings.ReplaceAll(r, modPath, "noise")
		if !c.rootSet[n] {
			c.rootSet[n] = true
			c.roots = append(c.roots, n)
		}
	}
	if x.Undecided != "" {
		c.badSet["undecided@"+w.Name] = &Violation{Rule: "undecided", Construct: w.Name, Msg: "the analysis of " + w.Name + " did not finish: " + x.Undecided}
		c.badSeq = append(c.badSeq, "undecided@"+w.Name)
	}
	if debugProf != nil {
		dumpProf()
	}
	if os.Getenv("VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "world %s: roots=%d states=%d steps=%d %v %s\n", w.Name, len(x.Roots), x.States, x.Steps, time.Since(t0).Round(time.Millisecond), x.Undecided)
	}
	return x
}

// ---- reporting

type knownFinding struct{ prop, key, text string }

func loadKnown(file string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		// KNOWN property=C22 key="rule@construct" what fails
		rest := strings.TrimPrefix(l, "KNOWN ")
		if !strings.HasPrefix(rest, "property=") {
			continue
		}
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			continue
		}
		prop := rest[len("property="):i]
		rest = strings.TrimSpace(rest[i:])
		if !strings.HasPrefix(rest, `key="`) {
			continue
		}
		rest = rest[5:]
		j := strings.IndexByte(rest, '"')
		if j < 0 {
			continue
		}
		out = append(out, knownFinding{prop, rest[:j], strings.TrimSpace(rest[j+1:])})
	}
	return out
}

func (c *Check) finish(verif string, t0 time.Time, fatal string) int {
	for _, r := range c.rules {
		if n := len(c.okSet[r]); n < c.floors[r] {
			// a rule with violations has met its constructs
			nb := 0
			for _, v := range c.badSet {
				if v.Rule == r {
					nb++
				}
			}
			if n+nb < c.floors[r] {
				k := "floor@" + r
				c.badSet[k] = &Violation{Rule: r, Construct: "floor", Msg: fmt.Sprintf("the rule found %d construct(s) it applies to, at least %d expected: %s", n, c.floors[r], c.ruleDoc[r])}
				c.badSeq = append(c.badSeq, k)
			}
		}
	}
	if fatal != "" {
		c.badSet["fatal@"] = &Violation{Rule: "analysis", Construct: "source", Msg: fatal}
		c.badSeq = append(c.badSeq, "fatal@")
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var vio []*Violation
	var lines []string
	for _, k := range c.badSeq {
		v := c.badSet[k]
		for _, kf := range known {
			if kf.prop == c.ID && kf.key == v.Rule+"@"+v.Construct {
				v.Known = true
				lines = append(lines, "KNOWN-FINDING: property="+c.ID+" "+kf.text)
			}
		}
		if !v.Known {
			vio = append(vio, v)
		}
	}
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, c.ID+".violation.txt")
	os.Remove(replay)

	total := 0
	ruleCov := map[string]interface{}{}
	for _, r := range c.rules {
		var cons []string
		for k, p := range c.okSet[r] {
			cons = append(cons, k+" ("+p+")")
		}
		sort.Strings(cons)
		total += len(cons)
		nb := 0
		for _, v := range c.badSet {
			if v.Rule == r {
				nb++
			}
		}
		n := len(cons)
		if n > 40 {
			cons = cons[:40]
		}
		ruleCov[r] = map[string]interface{}{"rule": c.ruleDoc[r], "met": n, "broken": nb, "expected_at_least": c.floors[r], "constructs": cons}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, fnName(f))
	}
	sort.Strings(fns)
	sort.Strings(c.roots)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation": "Static analysis of the type-checked SSA of the current /repo tree by abstract interpretation: every path from the listed roots " +
			"(loops to a fixpoint of the abstract state, calls inlined per calling context) is covered by abstract states; a rule is met by a construct when every abstract " +
			"state that reaches it satisfies the rule. Nothing is executed. Obligations are counted per rule and construct.",
		"rules":              ruleCov,
		"obligations":        total + len(c.badSet),
		"discharged":         total,
		"functions_analysed": fns,
		"roots":              c.roots,
		"abstract_states":    c.states,
		"instructions":       c.steps,
		"events":             c.events,
		"known_findings":     lines,
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(vio),
		"assumptions": []string{
			"external packages behave as modelled (see DESIGN.md, Trusted base)",
			"callbacks supplied by the user do not reach into unexported state",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 3
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if len(vio) > 0 {
		var sb strings.Builder
		for _, v := range vio {
			fmt.Fprintf(&sb, "property %s, rule %s: %s\n", c.ID, v.Rule, c.ruleDoc[v.Rule])
			fmt.Fprintf(&sb, "  construct: %s at %s\n  %s\n", v.Construct, v.Pos, v.Msg)
			for _, s := range v.Stack {
				fmt.Fprintf(&sb, "    in %s\n", s)
			}
			if len(v.Path) > 0 {
				sb.WriteString("  path:\n")
				for _, s := range v.Path {
					fmt.Fprintf(&sb, "    %s\n", s)
				}
			}
			sb.WriteByte('\n')
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for i, v := range vio {
			if i < 8 {
				fmt.Printf("%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d states=%d %.1fs\n", c.ID, total, c.states, time.Since(t0).Seconds())
	return 0
}

// property is a registered check.
type property struct {
	id  string
	run func(c *Check)
}

var properties = map[string]func(c *Check){}

func register(id string, f func(c *Check)) { properties[id] = f }

func checkMain(repo, verif, id, tier string) (code int) {
	t0 := time.Now()
	f := properties[id]
	if f == nil {
		fmt.Println("unknown property", id)
		return 3
	}
	c := newCheck(nil, id)
	c.Tier = tier
	P, err := Load(repo)
	if err != nil {
		return c.finish(verif, t0, "the source does not load: "+err.Error())
	}
	c.P = P
	fatal := ""
	func() {
		if os.Getenv("PANIC") == "" {
			defer func() {
				if e := recover(); e != nil {
					if a, ok := e.(anchorErr); ok {
						fatal = "cannot find " + a.what
					} else {
						fatal = fmt.Sprint("the analysis failed: ", e)
					}
				}
			}()
		}
		c.A = findAnchors(c)
		f(c)
	}()
	return c.finish(verif, t0, fatal)
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}
