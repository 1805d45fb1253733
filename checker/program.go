package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/perlin-network/noise"

type Program struct {
	Repo    string
	prog    *ssa.Program
	fset    *token.FileSet
	pkgs    map[string]*ssa.Package
	all     []*ssa.Function // functions of the module with a body, including closures
	siteSeq int

	infos  map[*ssa.Function]*fnInfo
	loops  map[*ssa.BasicBlock]bool
	sync_  map[*ssa.Function][]*ssa.Function // synchronous references
	goFns  map[*ssa.Function]bool            // targets of go statements
	apiFns []*ssa.Function
	reach  map[*ssa.Function]map[*ssa.Function]bool

	structs map[string]*structInfo
	recvers map[string][]*ssa.Function // goroutine functions receiving from a channel of the element type
}

type fnInfo struct {
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	order map[*ssa.BasicBlock]int // reverse postorder
}

type fieldInfo struct {
	v        *types.Var
	owner    types.Type
	idx      int
	stored   bool // outside constructors
	mutated  bool // its contents are changed through the field
	monotone bool
	storers  map[*ssa.Function]bool
	api      bool
}

type structInfo struct {
	typ    types.Type
	st     *types.Struct
	fields []*fieldInfo
}

func Load(repo string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Repo: repo, prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, infos: map[*ssa.Function]*fnInfo{},
		loops: map[*ssa.BasicBlock]bool{}, siteSeq: 1}
	for _, p := range spkgs {
		if p != nil {
			P.pkgs[p.Pkg.Path()] = p
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if len(f.Blocks) > 0 && P.inModule(f) {
			P.all = append(P.all, f)
		}
	}
	sort.Slice(P.all, func(i, j int) bool {
		a, b := P.all[i], P.all[j]
		if a.Pos() != b.Pos() {
			return P.pos(a.Pos()) < P.pos(b.Pos())
		}
		return a.String() < b.String()
	})
	for _, f := range P.all {
		P.findLoops(f)
	}
	P.callRefs()
	P.fieldFacts()
	return P, nil
}

func (P *Program) pkg(sub string) *ssa.Package {
	if sub == "" {
		return P.pkgs[modPath]
	}
	return P.pkgs[modPath+"/"+sub]
}

func (P *Program) inModule(f *ssa.Function) bool {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	var pk *types.Package
	if g.Pkg != nil {
		pk = g.Pkg.Pkg
	} else if o := g.Object(); o != nil {
		pk = o.Pkg()
	}
	if pk == nil {
		return false
	}
	return pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/")
}

func (P *Program) isLib(f *ssa.Function) bool {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Pkg != nil {
		return g.Pkg.Pkg.Name() != "main"
	}
	return true
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.fset.Position(p)
	rel, err := filepath.Rel(P.Repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// ---- control flow

func (P *Program) findLoops(f *ssa.Function) {
	// a block is in a loop when it can reach itself
	for _, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock{}, b.Succs...)
		for len(work) > 0 {
			s := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[s] {
				continue
			}
			seen[s] = true
			if s == b {
				P.loops[b] = true
				break
			}
			work = append(work, s.Succs...)
		}
	}
}

func (P *Program) inLoop(b *ssa.BasicBlock) bool { return P.loops[b] }

func (P *Program) isBackEdge(from, to *ssa.BasicBlock) bool { return to.Dominates(from) }

func (P *Program) info(f *ssa.Function) *fnInfo {
	if i, ok := P.infos[f]; ok {
		return i
	}
	i := &fnInfo{live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, order: map[*ssa.BasicBlock]int{}}
	seenB := map[*ssa.BasicBlock]bool{}
	n := len(f.Blocks)
	var post func(b *ssa.BasicBlock)
	post = func(b *ssa.BasicBlock) {
		seenB[b] = true
		for k := len(b.Succs) - 1; k >= 0; k-- {
			if s := b.Succs[k]; !seenB[s] {
				post(s)
			}
		}
		n--
		i.order[b] = n
	}
	post(f.Blocks[0])
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for _, b := range f.Blocks {
		i.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := len(f.Blocks) - 1; bi >= 0; bi-- {
			b := f.Blocks[bi]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				idx := -1
				for k, p := range s.Preds {
					if p == b {
						idx = k
					}
				}
				phis := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[phi] = true
					if track(phi.Edges[idx]) {
						live[phi.Edges[idx]] = true
					}
				}
				for v := range i.live[s] {
					if !phis[v] {
						live[v] = true
					}
				}
				// the previous value of a loop-carried phi is needed to widen it
				if P.isBackEdge(b, s) {
					for p := range phis {
						live[p] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, o := range in.Operands(nil) {
					if *o != nil && track(*o) {
						live[*o] = true
					}
				}
			}
			if len(live) != len(i.live[b]) {
				changed = true
			} else {
				for v := range live {
					if !i.live[b][v] {
						changed = true
						break
					}
				}
			}
			i.live[b] = live
		}
	}
	P.infos[f] = i
	return i
}

// ---- call references

func (P *Program) callRefs() {
	P.sync_ = map[*ssa.Function][]*ssa.Function{}
	P.goFns = map[*ssa.Function]bool{}
	P.reach = map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range P.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if t := goTarget(g); t != nil {
						P.goFns[t] = true
					}
				}
			}
		}
	}
	for _, f := range P.all {
		seen := map[*ssa.Function]bool{}
		add := func(g *ssa.Function) {
			if g != nil && !seen[g] && len(g.Blocks) > 0 {
				seen[g] = true
				P.sync_[f] = append(P.sync_[f], g)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					// arguments only
					for _, a := range g.Call.Args {
						if fn, ok := a.(*ssa.Function); ok {
							add(fn)
						}
					}
					continue
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if !onlyGo(mc) {
						add(mc.Fn.(*ssa.Function))
					}
					continue
				}
				for _, o := range in.Operands(nil) {
					if fn, ok := (*o).(*ssa.Function); ok {
						add(fn)
					}
				}
			}
		}
	}
	for _, f := range P.all {
		if P.isLib(f) && isAPI(f) {
			P.apiFns = append(P.apiFns, f)
		}
	}
}

func onlyGo(mc *ssa.MakeClosure) bool {
	refs := mc.Referrers()
	if refs == nil || len(*refs) == 0 {
		return false
	}
	for _, r := range *refs {
		g, ok := r.(*ssa.Go)
		if !ok || g.Call.Value != mc {
			return false
		}
	}
	return true
}

func goTarget(g *ssa.Go) *ssa.Function {
	switch v := g.Call.Value.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	}
	return nil
}

func isAPI(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		n, ok := deref(r.Type()).(*types.Named)
		return ok && n.Obj().Exported()
	}
	return true
}

// reachable functions from f by synchronous references, f included.
func (P *Program) reachable(f *ssa.Function) map[*ssa.Function]bool {
	if r, ok := P.reach[f]; ok {
		return r
	}
	r := map[*ssa.Function]bool{f: true}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[0]
		work = work[1:]
		for _, h := range P.sync_[g] {
			if !r[h] {
				r[h] = true
				work = append(work, h)
			}
		}
	}
	P.reach[f] = r
	return r
}

// ---- fields

func structKey(t types.Type) string { return types.TypeString(deref(t), nil) }

func (P *Program) structInfo(t types.Type) *structInfo {
	t = deref(t)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	k := structKey(t)
	si := P.structs[k]
	if si == nil {
		si = &structInfo{typ: t, st: s}
		for i := 0; i < s.NumFields(); i++ {
			si.fields = append(si.fields, &fieldInfo{v: s.Field(i), owner: t, idx: i, monotone: true, storers: map[*ssa.Function]bool{}})
		}
		P.structs[k] = si
	}
	return si
}

func (P *Program) field(t types.Type, i int) *fieldInfo {
	si := P.structInfo(t)
	if si == nil {
		return nil
	}
	return si.fields[i]
}

func (P *Program) fieldFacts() {
	P.structs = map[string]*structInfo{}
	P.recvers = map[string][]*ssa.Function{}
	storeFns := map[*fieldInfo]map[*ssa.Function]bool{}
	note := func(fi *fieldInfo, f *ssa.Function) {
		if storeFns[fi] == nil {
			storeFns[fi] = map[*ssa.Function]bool{}
		}
		storeFns[fi][f] = true
	}
	recvFns := map[string]map[*ssa.Function]bool{}
	for _, f := range P.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						// element of an array field
						if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
							if fa, ok := ia.X.(*ssa.FieldAddr); ok && !freshAlloc(fa.X) {
								if fi := P.field(fa.X.Type(), fa.Field); fi != nil {
									fi.mutated = true
									note(fi, f)
								}
							}
						}
						continue
					}
					fi := P.field(fa.X.Type(), fa.Field)
					if fi == nil {
						continue
					}
					// stores through nested anonymous structs count for the outer field too
					if !freshAlloc(fa.X) {
						fi.stored = true
						note(fi, f)
						if c, ok := in.Val.(*ssa.Const); ok && (c.Value == nil || c.Value.String() == "false") {
							fi.monotone = false
						} else if isBoolType(fi.v.Type()) {
							if !ok {
								fi.monotone = false
							}
						} else if _, isIface := fi.v.Type().Underlying().(*types.Interface); !isIface {
							fi.monotone = false
						}
					}
				case *ssa.MapUpdate:
					if fi := P.loadedField(in.Map); fi != nil {
						fi.mutated = true
						note(fi, f)
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						if fi := P.loadedField(in.Call.Args[0]); fi != nil {
							fi.mutated = true
							note(fi, f)
						}
					} else if cal := in.Call.StaticCallee(); cal != nil && !P.inModule(cal) && cal.Signature.Recv() != nil && len(in.Call.Args) > 0 {
						if listMutator[fullName(cal)] {
							if fi := P.loadedField(in.Call.Args[0]); fi != nil {
								fi.mutated = true
								note(fi, f)
							}
						}
					}
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						k := types.TypeString(in.X.Type().Underlying().(*types.Chan).Elem(), nil)
						if recvFns[k] == nil {
							recvFns[k] = map[*ssa.Function]bool{}
						}
						recvFns[k][f] = true
					}
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.RecvOnly {
							k := types.TypeString(s.Chan.Type().Underlying().(*types.Chan).Elem(), nil)
							if recvFns[k] == nil {
								recvFns[k] = map[*ssa.Function]bool{}
							}
							recvFns[k][f] = true
						}
					}
				}
			}
		}
	}
	for _, si := range P.structs {
		for _, fi := range si.fields {
			for g := range P.goFns {
				r := P.reachable(g)
				for s := range storeFns[fi] {
					if r[s] {
						fi.storers[g] = true
					}
				}
			}
			for _, a := range P.apiFns {
				r := P.reachable(a)
				for s := range storeFns[fi] {
					if r[s] {
						fi.api = true
					}
				}
			}
		}
	}
	for k, fns := range recvFns {
		for g := range P.goFns {
			r := P.reachable(g)
			for f := range fns {
				if r[f] {
					P.recvers[k] = append(P.recvers[k], g)
					break
				}
			}
		}
	}
}

var listMutator = map[string]bool{
	"(*container/list.List).PushFront": true, "(*container/list.List).PushBack": true, "(*container/list.List).Remove": true,
	"(*container/list.List).MoveToFront": true, "(*container/list.List).MoveToBack": true, "(*container/list.List).Init": true,
	"(*container/list.List).InsertBefore": true, "(*container/list.List).InsertAfter": true, "(*container/list.List).MoveBefore": true,
	"(*container/list.List).MoveAfter": true, "(*container/list.List).PushBackList": true, "(*container/list.List).PushFrontList": true,
}

func freshAlloc(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshAlloc(v.X)
	}
	return false
}

// loadedField: v is loaded from a field.
func (P *Program) loadedField(v ssa.Value) *fieldInfo {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			return P.field(a.X.Type(), a.Field)
		case *ssa.IndexAddr:
			if fa, ok := a.X.(*ssa.FieldAddr); ok {
				return P.field(fa.X.Type(), fa.Field)
			}
		}
	}
	return nil
}

func isMutexType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "*sync.Mutex" || s == "*sync.RWMutex" || s == "sync.Locker"
}

// guardedBy returns the struct a lock belongs to and the fields of it that other goroutines change under the lock.
func (P *Program) guardedBy(lock *V) (*V, []*fieldInfo) {
	a := lock
	cond := false
	if a.Op == OInit && isCondL(a.Args[0]) {
		a = a.Args[0].Args[0] // address of the sync.Cond
		cond = true
	} else if a.Op == OInit || a.Op == OHavoc { // pointer to a mutex in a field
		a = a.Args[0]
	}
	if a.Op != OFieldAddr {
		return nil, nil
	}
	base := a.Args[0]
	if base.Typ == nil {
		return nil, nil
	}
	si := P.structInfo(base.Typ)
	if si == nil {
		return nil, nil
	}
	hasOwn := false
	for _, fi := range si.fields {
		if isMutexType(fi.v.Type()) && fi.idx != a.Idx {
			hasOwn = true
		}
	}
	_ = hasOwn
	var out []*fieldInfo
	for _, fi := range si.fields {
		if fi.idx == a.Idx || !(fi.stored || fi.mutated) {
			continue
		}
		if cond && !fi.api && len(fi.storers) < 2 {
			continue
		}
		out = append(out, fi)
	}
	return base, out
}

// othersStore reports whether another goroutine may change field f of the object at base.
func (P *Program) othersStore(x *Exec, st *State, base *V, f *fieldInfo) bool {
	r := rootOf(base)
	if r.Op != OAlloc {
		return f.api || len(f.storers) > 0
	}
	if f.api && st.isShared(r) {
		return true
	}
	if x.Root != nil {
		for _, p := range x.Root.parents {
			if f.storers[p] {
				return true
			}
		}
	}
	for g := range f.storers {
		if st.mem[vGhost("handed:"+g.String(), r)] == vTrue {
			return true
		}
	}
	return false
}

// ---- lookups by exported name

func (P *Program) method(sub, typ, name string) *ssa.Function {
	pk := P.pkg(sub)
	if pk == nil {
		panic(anchorErr{"package " + sub})
	}
	o := pk.Pkg.Scope().Lookup(typ)
	if o == nil {
		panic(anchorErr{"type " + sub + "." + typ})
	}
	for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if f := ms.At(i).Obj(); f.Name() == name {
				if fn := P.prog.FuncValue(f.(*types.Func)); fn != nil && len(fn.Blocks) > 0 {
					return fn
				}
			}
		}
	}
	panic(anchorErr{"method " + typ + "." + name})
}

func (P *Program) function(sub, name string) *ssa.Function {
	pk := P.pkg(sub)
	if pk == nil {
		panic(anchorErr{"package " + sub})
	}
	if f := pk.Func(name); f != nil && len(f.Blocks) > 0 {
		return f
	}
	panic(anchorErr{"function " + name})
}

func (P *Program) typ(sub, name string) types.Type {
	pk := P.pkg(sub)
	if pk == nil {
		panic(anchorErr{"package " + sub})
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(anchorErr{"type " + name})
	}
	return o.Type()
}

type anchorErr struct{ what string }
