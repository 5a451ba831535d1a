package main

// Data races: two goroutines never touch the same field of a shared object,
// one of them writing, without a common lock, atomic operations or a hand-over
// the analysis can follow.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// thread is a goroutine the program starts: the function and the go statement
// (nil for main and HTTP handlers).
type thread struct {
	fn    *ssa.Function
	site  *ssa.Go
	label string
	multi bool // several may run at once, over different or the same objects
	fns   map[*ssa.Function]bool
	dead  map[*ssa.BasicBlock]bool // unreachable given the constant arguments
	accs  map[string][]access
	after func(in ssa.Instruction) bool
}

type access struct {
	in     ssa.Instruction
	write  bool
	atomic bool
	base   ssa.Value
	at     ssa.Instruction // where base was used
	locks  map[string]bool
}

type raceInfo struct {
	p       *Prog
	li      *lockInfo
	threads []*thread
	passed  map[*thread]map[string]bool // types handed over at the go statement
	shared  map[string]bool             // types reachable from containers
	loaded  map[string]bool             // field classes read somewhere
	direct  map[string]bool             // ... other than through objects the reader's side made
	frs     map[string]bool
	cut     map[string]bool
	stored  map[string][]ssa.Value
	wire    bool // record writes to connections instead of judging fields
}

func newRaceInfo(p *Prog, wire bool) *raceInfo {
	ri := &raceInfo{wire: wire, p: p, li: newLockInfo(p), passed: map[*thread]map[string]bool{}, shared: map[string]bool{}, loaded: map[string]bool{}, direct: map[string]bool{}, frs: map[string]bool{}, cut: map[string]bool{}}
	for f, sites := range p.goTargets() {
		if f.Blocks == nil || !p.isRepoFunc(f) {
			continue
		}
		for _, s := range sites {
			ri.threads = append(ri.threads, &thread{fn: f, site: s, label: fname(f) + " started at " + p.posOf(s), multi: true})
		}
	}
	for _, f := range p.httpHandlers() {
		ri.threads = append(ri.threads, &thread{fn: f, label: "HTTP handler " + fname(f), multi: true})
	}
	for _, f := range p.Funcs {
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Parent() == nil {
			ri.threads = append(ri.threads, &thread{fn: f, label: fname(f)})
		}
	}
	sort.SliceStable(ri.threads, func(i, j int) bool { return ri.threads[i].label < ri.threads[j].label })
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						ri.loaded[classOf(fa).class] = true
						if !ri.throughOwn(fa.X) {
							ri.direct[classOf(fa).class] = true
						}
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if _, ok := derefType(fa.Type()).Underlying().(*types.Struct); ok {
						ri.loaded[classOf(fa).class] = true // an embedded struct
						ri.direct[classOf(fa).class] = true
					}
				}
			}
		}
	}
	for _, t := range ri.threads {
		ri.scope(t)
	}
	ri.sharing()
	ri.exported()
	for _, t := range ri.threads {
		ri.collect(t)
	}
	return ri
}

// exported adds the exported methods of shared types with a mutex that nothing
// in the program calls: users of the package may call them at any time (not
// the configuration methods, which return their receiver).
func (ri *raceInfo) exported() {
	used := map[*ssa.Function]bool{}
	for _, t := range ri.threads {
		for f := range t.fns {
			used[f] = true
		}
	}
	for _, f := range ri.p.Funcs {
		if used[f] || f.Signature.Recv() == nil || f.Parent() != nil || f.Blocks == nil || f.Synthetic != "" || !token.IsExported(f.Name()) || returnsParam(f, 0) {
			continue
		}
		_, st := structOf(f.Signature.Recv().Type())
		if st == nil || !ri.repoType(st) || !ri.shared[typeKey(st)] {
			continue
		}
		u := st.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if isSyncType(u.Field(i).Type(), "Mutex", "RWMutex") {
				t := &thread{fn: f, label: "callers of " + fname(f), multi: true}
				ri.scope(t)
				ri.threads = append(ri.threads, t)
				break
			}
		}
	}
}

// throughOwn: base was loaded from a field that only ever holds objects the
// storing code has made itself.
func (ri *raceInfo) throughOwn(base ssa.Value) bool {
	if u, ok := base.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return ri.onlyFresh(classOf(fa).class, 0)
		}
	}
	return false
}

// scope computes what a thread can execute; branches on parameters that the
// go statement and the calls below it bind to constants are pruned.
func (ri *raceInfo) scope(t *thread) {
	t.dead = map[*ssa.BasicBlock]bool{}
	t.fns = map[*ssa.Function]bool{}
	consts := map[*ssa.Parameter]constant.Value{} // nil: not one constant
	live := map[*ssa.BasicBlock]bool{}
	valOf := func(v ssa.Value) constant.Value {
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value
		case *ssa.Parameter:
			return consts[v]
		}
		return nil
	}
	var cond func(v ssa.Value) (val, known bool)
	cond = func(v ssa.Value) (bool, bool) {
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op == token.NOT {
				x, ok := cond(v.X)
				return !x, ok
			}
		case *ssa.BinOp:
			if v.Op == token.EQL || v.Op == token.NEQ {
				x, y := valOf(v.X), valOf(v.Y)
				if x != nil && y != nil && x.Kind() == y.Kind() && (x.Kind() == constant.Int || x.Kind() == constant.Bool || x.Kind() == constant.String) {
					return constant.Compare(x, v.Op, y), true
				}
			}
		default:
			if x := valOf(v); x != nil && x.Kind() == constant.Bool {
				return constant.BoolVal(x), true
			}
		}
		return false, false
	}
	var work []*ssa.Function
	queued := map[*ssa.Function]bool{}
	push := func(f *ssa.Function) {
		if !queued[f] {
			queued[f] = true
			work = append(work, f)
		}
	}
	enter := func(f *ssa.Function, args []ssa.Value) {
		if f == nil {
			return
		}
		first := !t.fns[f]
		t.fns[f] = true
		for i, p := range f.Params {
			var c constant.Value
			if len(args) == len(f.Params) {
				c = valOf(args[i])
			}
			old, seen := consts[p]
			switch {
			case !seen:
				consts[p] = c
				first = true
			case old != nil && (c == nil || c.Kind() != old.Kind() || !constant.Compare(old, token.EQL, c)):
				consts[p] = nil
				first = true
			}
		}
		if first {
			push(f)
		}
	}
	if t.site != nil && len(t.site.Call.Args) == len(t.fn.Params) {
		// constants only: the parameters of the spawner mean nothing here
		args := append([]ssa.Value(nil), t.site.Call.Args...)
		for i, a := range args {
			if _, ok := a.(*ssa.Const); !ok {
				args[i] = t.fn.Params[i]
				consts[t.fn.Params[i]] = nil
			}
		}
		enter(t.fn, args)
	} else {
		enter(t.fn, nil)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		queued[f] = false
		if len(f.Blocks) == 0 {
			continue
		}
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b], live[b] = true, true
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if v, known := cond(i.Cond); known {
					if v {
						walk(b.Succs[0])
					} else {
						walk(b.Succs[1])
					}
					return
				}
			}
			for _, s := range b.Succs {
				walk(s)
			}
		}
		walk(f.Blocks[0])
		if f.Recover != nil {
			walk(f.Recover)
		}
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				for _, g := range ri.p.Callees(c) {
					if c.Common().IsInvoke() {
						enter(g, nil)
					} else {
						enter(g, c.Common().Args)
					}
				}
				for _, a := range c.Common().Args {
					if mc, ok := a.(*ssa.MakeClosure); ok && !isHandlerSig(mc.Fn.(*ssa.Function)) {
						enter(mc.Fn.(*ssa.Function), nil)
					}
				}
			}
		}
	}
	for f := range t.fns {
		for _, b := range f.Blocks {
			if !live[b] {
				t.dead[b] = true
			}
		}
	}
}

func isHandlerSig(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() == 2 && typeShort(s.Params().At(0).Type()) == "http.ResponseWriter"
}

func (ri *raceInfo) repoType(t types.Type) bool {
	n, ok := derefType(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// closure adds t and the types reachable from it through fields that are read
// somewhere.
func (ri *raceInfo) closure(t types.Type, via, set map[string]bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		ri.closure(u.Elem(), via, set)
		return
	case *types.Slice:
		ri.closure(u.Elem(), via, set)
		return
	case *types.Array:
		ri.closure(u.Elem(), via, set)
		return
	case *types.Map:
		ri.closure(u.Elem(), via, set)
		return
	case *types.Chan:
		ri.closure(u.Elem(), via, set)
		return
	case *types.Struct:
		if !ri.repoType(t) {
			return
		}
		k := typeKey(t)
		if set[k] {
			return
		}
		set[k] = true
		for i := 0; i < u.NumFields(); i++ {
			if via[fmt.Sprintf("F:%s.%d", k, i)] {
				ri.closure(u.Field(i).Type(), via, set)
			}
		}
	}
}

// sharing decides which types' objects more than one goroutine can get at.
func (ri *raceInfo) sharing() {
	p := ri.p
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeFull(c.Common())
				if strings.HasPrefix(n, "(*sync.Map).") || strings.HasPrefix(n, "(*"+bcast+".Broadcast).") || strings.HasPrefix(n, "(*sync/atomic.Value).") {
					for _, a := range c.Common().Args {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							ri.closure(mi.X.Type(), ri.direct, ri.shared)
						}
					}
				}
			}
		}
	}
	for _, pk := range p.Pkgs {
		if pk == nil {
			continue
		}
		sp := p.SSA.Package(pk.Types)
		if sp == nil || !strings.HasPrefix(pk.PkgPath, modPath) {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				ri.closure(derefType(g.Type()), ri.direct, ri.shared)
			}
		}
	}
	for _, t := range ri.threads {
		if t.site == nil {
			for _, fv := range t.fn.FreeVars {
				ri.closure(fv.Type(), ri.direct, ri.shared)
			}
			for _, pa := range t.fn.Params {
				if !isHandlerSig(t.fn) {
					ri.closure(pa.Type(), ri.direct, ri.shared)
				}
			}
			continue
		}
		set := map[string]bool{}
		ri.passed[t] = set
		for _, v := range goValues(t.site) {
			ri.closure(v.Type(), ri.loaded, set)
			if inLoop(t.site.Block()) && !ri.bornHere(v, t.site, 0) {
				ri.closure(v.Type(), ri.direct, ri.shared)
			}
		}
	}
}

func inLoop(b *ssa.BasicBlock) bool { return inCycle(b) }

// bornHere: v is an object made in the same activation (and loop iteration)
// as the go statement, so every goroutine started there has its own.
func (ri *raceInfo) bornHere(v ssa.Value, site *ssa.Go, n int) bool {
	if n > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		if _, cell := derefType(x.Type()).Underlying().(*types.Pointer); cell {
			// a captured variable: every value stored into it
			ok := false
			for _, r := range *x.Referrers() {
				if s, isStore := r.(*ssa.Store); isStore && s.Addr == x {
					if !ri.bornHere(s.Val, site, n+1) {
						return false
					}
					ok = true
				}
			}
			return ok
		}
		return x.Block() == site.Block() || !inLoop(site.Block()) || inLoop(x.Block())
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && ri.makesFresh(g, 0) {
			return !inLoop(site.Block()) || inLoop(x.Block())
		}
		// a builder method returning its receiver
		if g := x.Call.StaticCallee(); g != nil && len(x.Call.Args) > 0 && returnsParam(g, 0) {
			return ri.bornHere(x.Call.Args[0], site, n+1)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if _, repo := structOf(x.Type()); repo == nil || !ri.repoType(x.Type()) {
				return false
			}
			g := c.Call.StaticCallee()
			return g != nil && ri.makesFresh(g, x.Index) && (!inLoop(site.Block()) || inLoop(c.Block()))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ri.bornHere(e, site, n+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				return ri.bornHere(al, site, n+1)
			}
		}
	case *ssa.Const, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return true
	}
	if _, st := structOf(v.Type()); st == nil {
		if _, ok := v.Type().Underlying().(*types.Interface); !ok {
			return true // no object
		}
	}
	return false
}

func returnsParam(g *ssa.Function, i int) bool {
	if i >= len(g.Params) {
		return false
	}
	ok := false
	for _, b := range g.Blocks {
		if r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
			if len(r.Results) == 0 {
				return false
			}
			v := r.Results[0]
			if v != g.Params[i] {
				c, isCall := v.(*ssa.Call)
				if !isCall || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 || c.Call.Args[0] != g.Params[i] || c.Call.StaticCallee() == g || !returnsParam(c.Call.StaticCallee(), 0) {
					return false
				}
			}
			ok = true
		}
	}
	return ok
}

// makesFresh: result i of g is always an object g (or a function it calls)
// has just allocated.
func (ri *raceInfo) makesFresh(g *ssa.Function, i int) bool {
	key := g.String() + "#" + fmt.Sprint(i)
	if v, ok := ri.frs[key]; ok {
		return v
	}
	ri.frs[key] = false
	ok := len(g.Blocks) > 0
	for _, b := range g.Blocks {
		r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet {
			continue
		}
		if i >= len(r.Results) || !ri.freshVal(r.Results[i], 0) {
			ok = false
		}
	}
	ri.frs[key] = ok
	return ok
}

func (ri *raceInfo) freshVal(v ssa.Value, n int) bool {
	if n > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.Const, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return true
	case *ssa.Parameter:
		return n < 4 && ri.eachArg(x, func(arg ssa.Value) bool { return ri.freshVal(arg, n+3) })
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if ri.makesFresh(g, 0) {
			return true
		}
		return len(x.Call.Args) > 0 && returnsParam(g, 0) && ri.freshVal(x.Call.Args[0], n+1)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			g := c.Call.StaticCallee()
			return g != nil && ri.makesFresh(g, x.Index)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ri.freshVal(e, n+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if w := forwarded(x); w != nil {
			return ri.freshVal(w, n+1)
		}
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				ok := false
				for _, r := range *al.Referrers() {
					if s, isS := r.(*ssa.Store); isS && s.Addr == al {
						if !ri.freshVal(s.Val, n+1) {
							return false
						}
						ok = true
					}
				}
				return ok
			}
		}
	}
	return false
}

// eachArg: the parameter's function is only called directly and ok holds of
// what each call passes.
func (ri *raceInfo) eachArg(x *ssa.Parameter, ok func(arg ssa.Value) bool) bool {
	f := x.Parent()
	if ri.p.addressTaken(f) {
		return false
	}
	idx := -1
	for i, q := range f.Params {
		if q == x {
			idx = i
		}
	}
	any := false
	for _, c := range ri.p.Callers(f) {
		com := c.Common()
		if com.StaticCallee() != f || idx >= len(com.Args) || !ok(com.Args[idx]) {
			return false
		}
		any = true
	}
	return any
}

// private: at instruction at, the object base points to has not been handed
// to anything another goroutine can see.
func (ri *raceInfo) private(base ssa.Value, at ssa.Instruction, t *thread, n int) bool {
	if n > 8 {
		return false
	}
	switch x := base.(type) {
	case *ssa.FieldAddr:
		return ri.private(x.X, at, t, n+1)
	case *ssa.IndexAddr:
		return ri.private(x.X, at, t, n+1)
	case *ssa.Slice:
		return ri.private(x.X, at, t, n+1)
	case *ssa.MakeSlice, *ssa.MakeMap:
		return !ri.publishedBefore(base, at, 0)
	case *ssa.Alloc:
		return !ri.publishedBefore(x, at, 0)
	case *ssa.Call, *ssa.Extract:
		if ri.freshVal(base, 0) {
			// builder chains publish nothing themselves
			root := base
			for {
				c, ok := root.(*ssa.Call)
				if !ok || len(c.Call.Args) == 0 || c.Call.StaticCallee() == nil || !returnsParam(c.Call.StaticCallee(), 0) {
					break
				}
				root = c.Call.Args[0]
			}
			return !ri.publishedBefore(base, at, 0) && (root == base || !ri.publishedBefore(root, at, 0))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != base && !ri.private(e, at, t, n+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if w := forwarded(x); w != nil && ri.private(w, at, t, n+1) {
			return true
		}
		if ri.setByCallers(x, at, t, n) {
			return true
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			stores := 0
			for _, r := range *al.Referrers() {
				if s, isS := r.(*ssa.Store); isS && s.Addr == al {
					stores++
					if !ri.private(s.Val, at, t, n+1) {
						return false
					}
				}
			}
			return stores > 0
		}
		// a field of a private object that only ever holds fresh objects
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if !ri.private(fa.X, at, t, n+1) {
				return false
			}
			return ri.onlyFresh(classOf(fa).class, n)
		}
	case *ssa.Parameter:
		f := x.Parent()
		if f == t.fn || ri.p.addressTaken(f) {
			return false
		}
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		any := false
		for _, c := range ri.p.Callers(f) {
			if !t.fns[c.Parent()] {
				continue
			}
			if _, isGo := c.(*ssa.Go); isGo {
				return false
			}
			com := c.Common()
			var arg ssa.Value
			if com.IsInvoke() {
				if idx == 0 {
					arg = com.Value
					if mi, ok := arg.(*ssa.MakeInterface); ok {
						arg = mi.X
					}
				} else if idx-1 < len(com.Args) {
					arg = com.Args[idx-1]
				}
			} else if idx < len(com.Args) {
				arg = com.Args[idx]
			}
			if arg == nil || !ri.private(arg, c, t, n+1) {
				return false
			}
			any = true
		}
		return any
	}
	return false
}

// onlyFresh: every store to the field class anywhere stores a fresh object.
func (ri *raceInfo) onlyFresh(class string, n int) bool {
	any := false
	for _, f := range ri.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && classOf(fa).class == class {
						if !ri.freshVal(s.Val, n+1) {
							return false
						}
						any = true
					}
				}
			}
		}
	}
	return any
}

// publishedBefore: a use of v that can make it visible to other goroutines
// may execute before at.
func (ri *raceInfo) publishedBefore(v ssa.Value, at ssa.Instruction, n int) bool {
	return ri.publishedSince(v, v, at, n)
}

func (ri *raceInfo) publishedSince(v, def ssa.Value, at ssa.Instruction, n int) bool {
	if v.Referrers() == nil || n > 4 {
		return true
	}
	for _, r := range *v.Referrers() {
		pub := false
		switch x := r.(type) {
		case *ssa.Store:
			pub = x.Val == v && rootAllocLocal(x.Addr) == nil && ri.sharedBase(x.Addr)
		case *ssa.MapUpdate:
			pub = x.Value == v || x.Key == v
		case *ssa.Send:
			pub = true
		case *ssa.Go:
			pub = true
		case *ssa.MakeClosure:
			// visible to whoever runs the closure
			pub = ri.closureEscapes(x)
		case *ssa.MakeInterface:
			if ri.publishedSince(x, def, at, n+1) {
				return true
			}
		case *ssa.Call:
			nm := calleeFull(&x.Call)
			if strings.HasPrefix(nm, "(*sync.Map).") || strings.HasPrefix(nm, "(*"+bcast+".Broadcast).") {
				pub = true
			} else {
				for _, g := range ri.p.Callees(x) {
					for i, a := range x.Call.Args {
						if a == v && i < len(g.Params) && ri.publishesParam(g, i, 0) {
							pub = true
						}
					}
				}
			}
		}
		if pub && r != at && mayPrecede(r, at, def) {
			return true
		}
	}
	return false
}

func (ri *raceInfo) closureEscapes(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		switch x := r.(type) {
		case *ssa.Go:
			return true
		case *ssa.Store:
			return true
		case *ssa.Call:
			_ = x
		}
	}
	return false
}

// publishesParam: g makes its i-th parameter visible to other goroutines.
func (ri *raceInfo) publishesParam(g *ssa.Function, i, n int) bool {
	if n > 4 || g.Blocks == nil {
		return false
	}
	key := fmt.Sprintf("pub:%s#%d", g, i)
	if v, ok := ri.frs[key]; ok {
		return v
	}
	ri.frs[key] = false
	pa := g.Params[i]
	res := false
	for _, r := range *pa.Referrers() {
		switch x := r.(type) {
		case *ssa.Go:
			res = true
		case *ssa.MapUpdate:
			res = res || x.Value == pa
		case *ssa.Store:
			if x.Val == pa && rootAllocLocal(x.Addr) == nil {
				// stored in another object: visible if that one is
				res = res || ri.sharedBase(x.Addr)
			}
		case *ssa.MakeInterface:
			for _, r2 := range *x.Referrers() {
				if c, ok := r2.(*ssa.Call); ok {
					nm := calleeFull(&c.Call)
					if strings.HasPrefix(nm, "(*sync.Map).") || strings.HasPrefix(nm, "(*"+bcast+".Broadcast).") {
						res = true
					}
				}
			}
		case *ssa.Call:
			for _, h := range ri.p.Callees(x) {
				for j, a := range x.Call.Args {
					if a == pa && j < len(h.Params) && ri.publishesParam(h, j, n+1) {
						res = true
					}
				}
			}
		}
	}
	ri.frs[key] = res
	return res
}

func (ri *raceInfo) sharedBase(addr ssa.Value) bool {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return true
	}
	_, st := structOf(fa.X.Type())
	if st == nil || ri.shared[typeKey(st)] {
		return true
	}
	for _, set := range ri.passed {
		if set[typeKey(st)] {
			return true
		}
	}
	return false
}

// rootAllocLocal: the local variable (not escaping to another goroutine by
// itself) an address lies in.
func rootAllocLocal(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return x
		default:
			return nil
		}
	}
}

// mayPrecede: a can execute before b in one activation of their function
// without def being executed again in between.
func mayPrecede(a, b ssa.Instruction, def ssa.Value) bool {
	if a.Parent() != b.Parent() {
		return true
	}
	di, _ := def.(ssa.Instruction)
	// scan from position i of block x; reports b found
	scan := func(x *ssa.BasicBlock, from int) (found, stop bool) {
		for _, in := range x.Instrs[from:] {
			if in == b {
				return true, true
			}
			if in == di {
				return false, true
			}
		}
		return false, false
	}
	for i, in := range a.Block().Instrs {
		if in == a {
			if f, stop := scan(a.Block(), i+1); stop {
				return f
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f, stop := scan(x, 0); stop {
			return f
		}
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range a.Block().Succs {
		if walk(s) {
			return true
		}
	}
	return false
}

// collect lists the field accesses of a thread.
func (ri *raceInfo) collect(t *thread) {
	t.accs = map[string][]access{}
	for f := range t.fns {
		if !ri.p.isRepoFunc(f) {
			continue
		}
		for _, b := range f.Blocks {
			if t.dead[b] {
				continue
			}
			for _, in := range b.Instrs {
				for _, a := range ri.accessesOf(in) {
					ri.add(t, a.class, a.access)
				}
			}
		}
	}
}

type classedAccess struct {
	class string
	access
}

// elemSrc is the field a slice, map or array value came from and where it was
// loaded.
type elemSrc struct {
	fa  *ssa.FieldAddr
	at  ssa.Instruction
	arr bool // the elements are the field itself
}

// sources: the fields whose elements v gives access to, through slicing,
// merges, parameters and results.
func (ri *raceInfo) sources(v ssa.Value, at ssa.Instruction) (out []elemSrc) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, n int)
	walk = func(v ssa.Value, n int) {
		if n > 12 || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				out = append(out, elemSrc{fa, x, false})
				// the same slice may have come from another object's field
				for _, w := range ri.storedIn(classOf(fa).class) {
					walk(w, n+1)
				}
			} else if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						walk(s.Val, n+1)
					}
				}
			}
		case *ssa.FieldAddr:
			switch derefType(x.Type()).Underlying().(type) {
			case *types.Array:
				out = append(out, elemSrc{x, at, true})
			default:
				if ia, ok := x.X.(*ssa.IndexAddr); ok {
					walk(ia, n+1)
				}
			}
		case *ssa.Field:
			if _, st := structOf(x.X.Type()); st != nil {
				for _, w := range ri.storedIn(fmt.Sprintf("F:%s.%d", typeKey(st), x.Field)) {
					walk(w, n+1)
				}
			}
		case *ssa.Slice:
			walk(x.X, n+1)
		case *ssa.ChangeType:
			walk(x.X, n+1)
		case *ssa.IndexAddr:
			walk(x.X, n+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, n+1)
			}
		case *ssa.Extract:
			walk(x.Tuple, n+1)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					walk(x.Call.Args[0], n+1)
				}
				return
			}
			g := x.Call.StaticCallee()
			if g == nil || !ri.p.isRepoFunc(g) {
				return
			}
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range r.Results {
						if types.Identical(res.Type(), v.Type()) {
							walk(res, n+1)
						}
					}
				}
			}
		case *ssa.Parameter:
			f := x.Parent()
			if ri.p.addressTaken(f) {
				return
			}
			for i, q := range f.Params {
				if q != x {
					continue
				}
				for _, c := range ri.p.Callers(f) {
					com := c.Common()
					if !com.IsInvoke() && i < len(com.Args) {
						walk(com.Args[i], n+1)
					}
				}
			}
		}
	}
	walk(v, 0)
	return
}

// storedIn: the slices and maps stored into a field class anywhere, other
// than ones made from the field itself.
func (ri *raceInfo) storedIn(class string) []ssa.Value {
	if ri.stored == nil {
		ri.stored = map[string][]ssa.Value{}
		for _, f := range ri.p.Funcs {
			if !ri.p.isRepoFunc(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					switch s.Val.Type().Underlying().(type) {
					case *types.Slice, *types.Map:
						c := classOf(fa).class
						ri.stored[c] = append(ri.stored[c], s.Val)
					}
				}
			}
		}
	}
	return ri.stored[class]
}

// shrinks: the slice field is somewhere cut at its end, so that appending to
// it overwrites elements handed out before.
func (ri *raceInfo) shrinks(class string) bool {
	if v, ok := ri.cut[class]; ok {
		return v
	}
	res := false
	for _, f := range ri.p.Funcs {
		if funcHas(f, func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || classOf(fa).class != class {
				return false
			}
			sl, ok := s.Val.(*ssa.Slice)
			return ok && sl.High != nil
		}) {
			res = true
		}
	}
	ri.cut[class] = res
	return res
}

func (ri *raceInfo) accessesOf(in ssa.Instruction) (out []classedAccess) {
	locks := func() map[string]bool { return ri.li.heldAt(in) }
	add := func(fa *ssa.FieldAddr, write, atomic bool) {
		_, st := structOf(fa.X.Type())
		if st == nil || !ri.repoType(st) {
			return
		}
		out = append(out, classedAccess{classOf(fa).class, access{in, write, atomic, fa.X, in, locks()}})
	}
	elem := func(v ssa.Value, write bool) {
		for _, e := range ri.sources(v, in) {
			_, st := structOf(e.fa.X.Type())
			if st == nil || !ri.repoType(st) {
				continue
			}
			class := classOf(e.fa).class
			if !e.arr {
				class = "E:" + class[2:]
			}
			out = append(out, classedAccess{class, access{in, write, false, e.fa.X, e.at, locks()}})
		}
	}
	// fields of the elements of a slice
	inElem := func(v ssa.Value) ssa.Value {
		for {
			fa, ok := v.(*ssa.FieldAddr)
			if !ok {
				break
			}
			v = fa.X
		}
		if ia, ok := v.(*ssa.IndexAddr); ok {
			return ia.X
		}
		return nil
	}
	switch x := in.(type) {
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			add(fa, true, false)
		}
		if sl := inElem(x.Addr); sl != nil {
			elem(sl, true)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			add(fa, false, false)
		}
		if sl := inElem(x.X); sl != nil {
			elem(sl, false)
		}
	case *ssa.MapUpdate:
		elem(x.Map, true)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			elem(x.X, false)
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			elem(x.X, false)
		}
	case *ssa.Convert:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			elem(x.X, false)
		}
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		com := c.Common()
		n := calleeFull(com)
		if b, ok := com.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete":
				elem(com.Args[0], true)
			case "len":
				if _, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
					elem(com.Args[0], false)
				}
			case "copy":
				elem(com.Args[0], true)
				elem(com.Args[1], false)
			case "append":
				if len(com.Args) > 1 {
					elem(com.Args[1], false)
				}
				if sl, ok := com.Args[0].(*ssa.Slice); ok && sl.High != nil {
					elem(sl, true)
				} else {
					for _, e := range ri.sources(com.Args[0], in) {
						if ri.shrinks(classOf(e.fa).class) {
							elem(com.Args[0], true)
							break
						}
					}
				}
			}
			return
		}
		if strings.HasPrefix(n, "sync/atomic.") && len(com.Args) > 0 {
			if fa, ok := com.Args[0].(*ssa.FieldAddr); ok {
				add(fa, !strings.HasPrefix(n, "sync/atomic.Load"), true)
			}
			return
		}
		if ri.wire {
			if fa := wireField(in); fa != nil {
				if _, st := structOf(fa.X.Type()); st != nil && ri.repoType(st) {
					out = append(out, classedAccess{"W:" + classOf(fa).class[2:], access{in, true, false, fa.X, in, locks()}})
				}
			}
		}
		// code outside the repository reads what it is given; readers fill it
		if g := com.StaticCallee(); (g == nil || !ri.p.isRepoFunc(g)) && len(ri.p.repoCallees(c)) == 0 {
			i := strings.LastIndexAny(n, ".)")
			fills := strings.HasPrefix(strings.TrimLeft(n[i+1:], "."), "Read")
			for _, a := range com.Args {
				switch t := a.Type().Underlying().(type) {
				case *types.Slice:
					if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
						elem(a, fills)
					}
				}
			}
		}
	}
	return
}

func (ri *raceInfo) add(t *thread, class string, a access) {
	t.accs[class] = append(t.accs[class], a)
}

func commonLock(a, b access) bool {
	for k := range a.locks {
		key := k[:strings.LastIndex(k, "|")]
		ak, bk := k, ""
		for k2 := range b.locks {
			if k2[:strings.LastIndex(k2, "|")] == key {
				bk = k2
			}
		}
		if bk == "" {
			continue
		}
		if strings.HasSuffix(ak, "|L") || strings.HasSuffix(bk, "|L") {
			// a reader lock does not protect a write
			if a.write && !a.locks[key+"|L"] || b.write && !b.locks[key+"|L"] {
				continue
			}
			return true
		}
	}
	return false
}

// fromParam: the object derives from the thread's own parameter or captured
// variable through fields of types that are not themselves published.
func (ri *raceInfo) ownObject(base ssa.Value, t *thread, n int) bool {
	if n > 16 || t.site == nil {
		return false
	}
	switch x := base.(type) {
	case *ssa.Parameter:
		if x.Parent() == t.fn {
			for i, pa := range t.fn.Params {
				if pa == x && i < len(t.site.Call.Args) {
					return ri.bornHere(t.site.Call.Args[i], t.site, 0)
				}
			}
			return false
		}
		idx := -1
		for i, q := range x.Parent().Params {
			if q == x {
				idx = i
			}
		}
		any := false
		for _, c := range ri.p.Callers(x.Parent()) {
			if !t.fns[c.Parent()] {
				continue
			}
			if _, isGo := c.(*ssa.Go); isGo {
				continue
			}
			com := c.Common()
			var arg ssa.Value
			if com.IsInvoke() {
				if idx == 0 {
					arg = com.Value
				} else if idx-1 < len(com.Args) {
					arg = com.Args[idx-1]
				}
			} else if idx < len(com.Args) {
				arg = com.Args[idx]
			}
			if arg == nil || !ri.ownObject(arg, t, n+1) {
				return false
			}
			any = true
		}
		return any
	case *ssa.FreeVar:
		if x.Parent() == t.fn {
			mc, ok := t.site.Call.Value.(*ssa.MakeClosure)
			if !ok {
				return false
			}
			for i, fv := range t.fn.FreeVars {
				if fv == x {
					return ri.bornHere(mc.Bindings[i], t.site, 0)
				}
			}
		}
		if b := freeVarBinding(x); b != nil {
			return ri.ownObject(b, t, n+1)
		}
	case *ssa.FieldAddr:
		return ri.ownObject(x.X, t, n+1)
	case *ssa.IndexAddr:
		return ri.ownObject(x.X, t, n+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return ri.ownObject(fa.X, t, n+1) && ri.onlyFresh(classOf(fa).class, 0)
			}
			return ri.ownObject(x.X, t, n+1)
		}
	case *ssa.Lookup:
		return ri.ownObject(x.X, t, n+1)
	case *ssa.Alloc, *ssa.Call, *ssa.Extract:
		if ri.freshVal(base, 0) {
			return true
		}
		if ex, ok := base.(*ssa.Extract); ok {
			if l, ok := ex.Tuple.(*ssa.Lookup); ok {
				return ri.ownObject(l, t, n+1)
			}
			if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok {
				return ri.ownObject(ta.X, t, n+1)
			}
		}
		if al, ok := base.(*ssa.Alloc); ok {
			_ = al
			return true
		}
		c, i := callResult(base)
		if c == nil {
			return false
		}
		any := false
		for _, g := range ri.p.Callees(c) {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
					if k, isC := r.Results[i].(*ssa.Const); isC && k.Value == nil {
						continue
					}
					if !ri.ownObject(r.Results[i], t, n+1) {
						return false
					}
					any = true
				}
			}
		}
		return any
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != base && !ri.ownObject(e, t, n+1) {
				return false
			}
		}
		return true
	case *ssa.TypeAssert:
		return ri.ownObject(x.X, t, n+1)
	case *ssa.MakeInterface:
		return ri.ownObject(x.X, t, n+1)
	}
	return false
}

// forwarded: the value a load of a field must yield because the same function
// stored it there, through the same base, on every path to the load.
func forwarded(u *ssa.UnOp) ssa.Value {
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || u.Op != token.MUL {
		return nil
	}
	cls := classOf(fa).class
	var only *ssa.Store
	for _, b := range u.Parent().Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if sf, ok := s.Addr.(*ssa.FieldAddr); ok && classOf(sf).class == cls {
					if only != nil || sf.X != fa.X {
						return nil
					}
					only = s
				}
			}
		}
	}
	if only == nil {
		return nil
	}
	if only.Block() == u.Block() {
		for _, in := range u.Block().Instrs {
			if in == ssa.Instruction(only) {
				return only.Val
			}
			if in == ssa.Instruction(u) {
				return nil
			}
		}
	}
	if only.Block().Dominates(u.Block()) {
		return only.Val
	}
	return nil
}

// setByCallers: u loads a field of a parameter, and every caller has stored a
// private object there before the call.
func (ri *raceInfo) setByCallers(u *ssa.UnOp, at ssa.Instruction, t *thread, n int) bool {
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	pa, ok := fa.X.(*ssa.Parameter)
	if !ok {
		return false
	}
	f := pa.Parent()
	if f == t.fn || ri.p.addressTaken(f) {
		return false
	}
	cls := classOf(fa).class
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if sf, ok := x.Addr.(*ssa.FieldAddr); ok && classOf(sf).class == cls {
					return false
				}
			case *ssa.UnOp:
				if lf, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && classOf(lf).class == cls && ri.publishedBefore(x, at, 0) {
					return false
				}
			case ssa.CallInstruction:
				for _, a := range x.Common().Args {
					if a == ssa.Value(pa) && mayPrecede(x, at, nil) {
						return false
					}
				}
			}
		}
	}
	idx := -1
	for i, q := range f.Params {
		if q == pa {
			idx = i
		}
	}
	any := false
	for _, c := range ri.p.Callers(f) {
		if !t.fns[c.Parent()] {
			continue
		}
		if _, plain := c.(*ssa.Call); !plain || c.Common().StaticCallee() != f {
			return false
		}
		w := storedBefore(c, c.Common().Args[idx], cls)
		if w == nil || !ri.private(w, c, t, n+1) {
			return false
		}
		any = true
	}
	return any
}

// storedBefore: the only value stored in a field of base's class in the
// function of the call, through base, on every path to the call.
func storedBefore(c ssa.Instruction, base ssa.Value, cls string) ssa.Value {
	var only *ssa.Store
	for _, b := range c.Parent().Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if sf, ok := s.Addr.(*ssa.FieldAddr); ok && classOf(sf).class == cls {
					if only != nil || sf.X != base {
						return nil
					}
					only = s
				}
			}
		}
	}
	if only == nil {
		return nil
	}
	if only.Block() == c.Block() {
		for _, in := range c.Block().Instrs {
			if in == ssa.Instruction(only) {
				return only.Val
			}
			if in == c {
				return nil
			}
		}
	}
	if only.Block().Dominates(c.Block()) {
		return only.Val
	}
	return nil
}

func callResult(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	}
	return nil, 0
}

// allBornHere: every object handed over at t's go statement through which type
// tk can be reached was made for that goroutine.
func (ri *raceInfo) allBornHere(t *thread, tk string) bool {
	for _, v := range goValues(t.site) {
		set := map[string]bool{}
		ri.closure(v.Type(), ri.loaded, set)
		if set[tk] && !ri.bornHere(v, t.site, 0) {
			return false
		}
	}
	return true
}

// soleStore: the one value a captured variable is given, or v itself.
func soleStore(v ssa.Value) ssa.Value {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return v
	}
	var val ssa.Value
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if val != nil {
				return v
			}
			val = s.Val
		}
	}
	if val == nil {
		return v
	}
	return val
}

func goValues(g *ssa.Go) (vals []ssa.Value) {
	vals = append(vals, g.Call.Args...)
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		vals = append(vals, mc.Bindings...)
	}
	return
}

type conflict struct {
	class string
	a, b  access // a writes
	ta    *thread
	tb    *thread
	hand  bool // the object was handed over at a go statement
}

func (ri *raceInfo) spawnsFrom(anc, t *thread) bool {
	for i := 0; i < 6 && t != nil && t.site != nil; i++ {
		if anc.fns[t.site.Parent()] {
			return true
		}
		var up *thread
		for _, u := range ri.threads {
			if u.fns[t.site.Parent()] && u != t {
				up = u
			}
		}
		t = up
	}
	return false
}

// before: instruction in of the single thread anc cannot execute once other
// has been started.
func (ri *raceInfo) before(anc *thread, in ssa.Instruction, other *thread) bool {
	if anc.multi || anc == other {
		return false
	}
	if anc.after == nil {
		anc.after = ri.afterGo(anc)
	}
	return !anc.after(in)
}

// afterGo decides which instructions of a thread may execute after a go
// statement or the registration of an HTTP handler.
func (ri *raceInfo) afterGo(t *thread) func(in ssa.Instruction) bool {
	spawns := map[*ssa.Function]bool{}
	starts := func(in ssa.Instruction) bool {
		if _, ok := in.(*ssa.Go); ok {
			return true
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if n := calleeFull(c.Common()); strings.Contains(n, "net/http") {
			return true
		}
		for _, g := range ri.p.Callees(c) {
			if spawns[g] {
				return true
			}
		}
		return false
	}
	for ch := true; ch; {
		ch = false
		for f := range t.fns {
			if !spawns[f] && funcHas(f, starts) {
				spawns[f], ch = true, true
			}
		}
	}
	local := func(in ssa.Instruction) bool {
		for _, b := range in.Parent().Blocks {
			for _, x := range b.Instrs {
				if x != in && starts(x) && mayPrecede(x, in, nil) {
					return true
				}
			}
		}
		return false
	}
	entry := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for f := range t.fns {
			if entry[f] || f == t.fn {
				continue
			}
			for _, c := range ri.p.Callers(f) {
				if t.fns[c.Parent()] && (entry[c.Parent()] || local(c)) {
					entry[f], ch = true, true
					break
				}
			}
		}
	}
	return func(in ssa.Instruction) bool { return entry[in.Parent()] || local(in) }
}

func (ri *raceInfo) conflicts() (out []conflict, pairs int) {
	for i, ta := range ri.threads {
		for j, tb := range ri.threads {
			if i == j && !ta.multi {
				continue
			}
			for _, class := range sortedKeys(ta.accs) {
				accB := tb.accs[class]
				if len(accB) == 0 || ri.wire != strings.HasPrefix(class, "W:") {
					continue
				}
				tk := class[2:strings.LastIndex(class, ".")]
				hand := false
				sh := ri.shared[tk]
				if !sh {
					switch {
					case i == j:
						// several goroutines over the same handed-over object
						if ri.passed[ta] == nil || !ri.passed[ta][tk] || ri.allBornHere(ta, tk) {
							continue
						}
						hand = true
					case ri.passed[tb] != nil && ri.passed[tb][tk] && ri.spawnsFrom(ta, tb):
						hand = true
					case ri.passed[ta] != nil && ri.passed[ta][tk] && ri.spawnsFrom(tb, ta):
						hand = true
					case ri.passed[ta] != nil && ri.passed[tb] != nil && ri.passed[ta][tk] && ri.passed[tb][tk] && ta.site.Parent() == tb.site.Parent():
						hand = true
					default:
						continue
					}
				}
				for _, a := range ta.accs[class] {
					if !a.write {
						continue
					}
					for _, b := range accB {
						pairs++
						if b.write && i > j {
							continue // seen from the other side
						}
						if a.atomic && b.atomic || !ri.wire && commonLock(a, b) {
							continue
						}
						if ri.private(a.base, a.at, ta, 0) || ri.private(b.base, b.at, tb, 0) {
							continue
						}
						if ri.before(ta, a.in, tb) || ri.before(tb, b.in, ta) {
							continue
						}
						if i == j && ri.ownObject(a.base, ta, 0) {
							continue
						}
						out = append(out, conflict{class, a, b, ta, tb, hand})
					}
				}
			}
		}
	}
	return
}

// handover explores the spawning side of hand-overs: accesses that conflict
// with a goroutine must not happen while that goroutine may be running.
func (ri *raceInfo) handover(r *Report, cs []conflict) {
	p := ri.p
	type group struct {
		owner *thread
		sites map[*ssa.Go]*thread
		hot   map[*ssa.Go]map[ssa.Instruction]conflict
		self  map[*ssa.Go]conflict
		sib   map[[2]*ssa.Go]conflict
	}
	groups := map[*thread]*group{}
	var order []*thread
	get := func(o *thread) *group {
		g := groups[o]
		if g == nil {
			g = &group{o, map[*ssa.Go]*thread{}, map[*ssa.Go]map[ssa.Instruction]conflict{}, map[*ssa.Go]conflict{}, map[[2]*ssa.Go]conflict{}}
			groups[o] = g
			order = append(order, o)
		}
		return g
	}
	owners := func(t *thread) (out []*thread) {
		for _, u := range ri.threads {
			if u != t && u.fns[t.site.Parent()] {
				out = append(out, u)
			}
		}
		return
	}
	for _, c := range cs {
		if !c.hand {
			continue
		}
		try := func(o, t *thread, own access) bool {
			if t.site == nil || !o.fns[t.site.Parent()] {
				return false
			}
			g := get(o)
			g.sites[t.site] = t
			if g.hot[t.site] == nil {
				g.hot[t.site] = map[ssa.Instruction]conflict{}
			}
			if _, ok := g.hot[t.site][own.in]; !ok {
				g.hot[t.site][own.in] = c
			}
			return true
		}
		switch {
		case c.ta == c.tb:
			for _, o := range owners(c.ta) {
				g := get(o)
				g.sites[c.ta.site] = c.ta
				g.self[c.ta.site] = c
			}
		case try(c.ta, c.tb, c.a) || try(c.tb, c.ta, c.b):
		case c.ta.site != nil && c.tb.site != nil:
			for _, o := range owners(c.ta) {
				g := get(o)
				g.sites[c.ta.site], g.sites[c.tb.site] = c.ta, c.tb
				g.sib[[2]*ssa.Go{c.ta.site, c.tb.site}] = c
			}
		}
	}
	seen := map[string]bool{}
	for _, o := range order {
		g := groups[o]
		// the objects' flags, pointers and channels decide the order
		tracked := map[string][]AV{}
		direct := map[string]bool{}
		ends := map[string]map[string][]*ssa.Go{} // slot -> constant -> goroutines that store it last
		var sites []*ssa.Go
		for s := range g.sites {
			sites = append(sites, s)
		}
		sort.Slice(sites, func(i, j int) bool { return sites[i].Pos() < sites[j].Pos() })
		num := map[*ssa.Go]string{}
		for i, s := range sites {
			num[s] = fmt.Sprintf("g%d", i)
			for _, v := range goValues(s) {
				if ri.bornHere(v, s, 0) {
					continue
				}
				_, st := structOf(v.Type())
				if pp, ok := v.Type().Underlying().(*types.Pointer); ok && st == nil {
					_, st = structOf(pp.Elem())
				}
				if st == nil || !ri.repoType(st) || ri.shared[typeKey(st)] {
					continue
				}
				direct[typeKey(st)] = true
				ri.trackFields(st, tracked, true)
				u := st.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					if _, in := structOf(u.Field(i).Type()); in != nil && ri.repoType(in) && !ri.shared[typeKey(in)] && ri.onlyFresh(fmt.Sprintf("F:%s.%d", typeKey(st), i), 0) {
						ri.trackFields(in, tracked, false)
					}
				}
			}
			ri.lastStore(g.sites[s].fn, func(slot, c string) {
				if ends[slot] == nil {
					ends[slot] = map[string][]*ssa.Go{}
				}
				ends[slot][c] = append(ends[slot][c], s)
			})
		}
		for slot := range ends {
			if tracked[slot] == nil {
				tracked[slot] = []AV{{k: avConst, s: "0"}, {k: avConst, s: "1"}}
			}
		}
		rep := func(px *PX, s *ssa.Go, c conflict, in ssa.Instruction, what string) {
			key := fmt.Sprintf("race|%s|%s|%s", p.slotName(c.class), fname(in.Parent()), fname(g.sites[s].fn))
			if seen[key] {
				return
			}
			seen[key] = true
			r.find(key, p.posOf(in), "%s of %s while the goroutine %s may be running; conflicting access at %s", what, p.slotName(c.class), g.sites[s].label, p.posOf(other(c, in)))
		}
		hits := 0
		pr := &PathRule{tracked: tracked}
		pr.isEvent = func(in ssa.Instruction) bool {
			if gs, ok := in.(*ssa.Go); ok && g.sites[gs] != nil {
				return true
			}
			for _, s := range sites {
				if _, ok := g.hot[s][in]; ok {
					return true
				}
			}
			return false
		}
		pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
			if gs, ok := in.(*ssa.Go); ok && g.sites[gs] != nil {
				hits++
				if c, ok := g.self[gs]; ok && qget(st.q, num[gs]) == "1" {
					rep(px, gs, c, in, "a second goroutine is started: use")
				}
				for pr2, c := range g.sib {
					for k := 0; k < 2; k++ {
						if pr2[k] == gs && qget(st.q, num[pr2[1-k]]) == "1" {
							rep(px, pr2[1-k], c, in, "a second goroutine is started: use")
						}
					}
				}
				st.q = qset(st.q, num[gs], "1")
				return nil, false
			}
			if al, ok := in.(*ssa.Alloc); ok && direct[typeKey(derefType(al.Type()))] {
				for _, s := range sites {
					st.q = qset(st.q, num[s], "0")
				}
				return nil, false
			}
			for _, s := range sites {
				if c, ok := g.hot[s][in]; ok && qget(st.q, num[s]) == "1" {
					rep(px, s, c, in, "access")
				}
			}
			com := callOf(in)
			if com == nil {
				return nil, false
			}
			slot, op := px.atomicSlot(com)
			if slot == "" || ends[slot] == nil || op == "Store" {
				return nil, false
			}
			outs := px.atomic(st, in, com, slot, op)
			for _, c := range sortedKeys(ends[slot]) {
				for _, s := range ends[slot][c] {
					if qget(st.q, num[s]) != "1" {
						continue
					}
					// the goroutine may have ended and left its value
					n := st.clone()
					n.q = qset(n.q, num[s], "0")
					n.setMem(slot, AV{k: avConst, s: c})
					outs = append(outs, px.atomic(n, in, com, slot, op)...)
				}
			}
			return outs, true
		}
		q := ""
		for _, s := range sites {
			q = qset(q, num[s], "0")
		}
		px := newPX(p, r, pr)
		// what the goroutine works on may have been built by its spawner
		starts := []POut{{q, map[string]AV{}, nil}}
		if o.site != nil {
			for _, v := range goValues(o.site) {
				v = soleStore(v)
				c, ok := v.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !p.isRepoFunc(c.Call.StaticCallee()) || !ri.freshVal(v, 0) {
					continue
				}
				if _, st := structOf(v.Type()); st != nil && direct[typeKey(st)] {
					starts = px.Root(c.Call.StaticCallee(), q, map[string]AV{}, nil)
				}
			}
		}
		for _, st := range starts {
			px.Root(o.fn, st.q, st.mem, nil)
		}
		r.count("hand-overs explored", len(sites))
		r.count("hand-over path outcomes", px.Paths)
		if hits == 0 {
			r.find("handover|"+fname(o.fn), p.posOf(sites[0]), "the exploration of %s did not reach its go statements", fname(o.fn))
		}
		r.sample("hand-over from %s: %d goroutines, %d functions explored, %d outcomes", fname(o.fn), len(sites), len(px.Fns), px.Paths)
	}
}

func other(c conflict, in ssa.Instruction) ssa.Instruction {
	if c.a.in == in {
		return c.b.in
	}
	return c.a.in
}

// trackFields adds the fields of t that order accesses: pointers, flags and,
// for owned inner objects, integers that hold negative markers.
func (ri *raceInfo) trackFields(t types.Type, tracked map[string][]AV, outer bool) {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		slot := fmt.Sprintf("F:%s.%d", typeKey(t), i)
		ft := u.Field(i).Type()
		switch {
		case ri.atomicField(slot):
			tracked[slot] = []AV{{k: avConst, s: "0"}, {k: avConst, s: "1"}}
		case isBoolType(ft):
			tracked[slot] = domainOf(ft)
		case isBasicInt(ft):
			if ri.negativeMarker(slot) {
				tracked[slot] = nil
			}
		default:
			if _, ok := ft.Underlying().(*types.Pointer); ok && ri.tested(slot) {
				tracked[slot] = domainOf(ft)
			}
		}
	}
}

// tested: some branch compares the field with nil.
func (ri *raceInfo) tested(slot string) bool {
	return ri.anyLoad(slot, func(u *ssa.UnOp) bool {
		for _, r := range *u.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				return true
			}
		}
		return false
	})
}

func (ri *raceInfo) anyLoad(slot string, f func(u *ssa.UnOp) bool) bool {
	for _, fn := range ri.p.Funcs {
		if funcHas(fn, func(in ssa.Instruction) bool {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return false
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			return ok && classOf(fa).class == slot && f(u)
		}) {
			return true
		}
	}
	return false
}

func (ri *raceInfo) negativeMarker(slot string) bool {
	for _, fn := range ri.p.Funcs {
		if funcHas(fn, func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || classOf(fa).class != slot {
				return false
			}
			c, ok := s.Val.(*ssa.Const)
			return ok && negConst(avOfConst(c))
		}) {
			return true
		}
	}
	return false
}

func (ri *raceInfo) atomicField(slot string) bool {
	for _, fn := range ri.p.Funcs {
		if funcHas(fn, func(in ssa.Instruction) bool {
			com := callOf(in)
			if com == nil || !strings.HasPrefix(calleeFull(com), "sync/atomic.") || len(com.Args) == 0 {
				return false
			}
			fa, ok := com.Args[0].(*ssa.FieldAddr)
			return ok && classOf(fa).class == slot
		}) {
			return true
		}
	}
	return false
}

// lastStore reports atomic stores that are the very last thing f does: the
// first deferred call, registered before anything else can return.
func (ri *raceInfo) lastStore(f *ssa.Function, report func(slot, c string)) {
	for _, in := range f.Blocks[0].Instrs {
		d, ok := in.(*ssa.Defer)
		if !ok {
			continue
		}
		if n := calleeFull(&d.Call); strings.HasPrefix(n, "sync/atomic.Store") {
			if fa, ok := d.Call.Args[0].(*ssa.FieldAddr); ok {
				if c, ok := d.Call.Args[1].(*ssa.Const); ok {
					report(classOf(fa).class, avOfConst(c).s)
				}
			}
		}
		return
	}
}

// captured finds local variables of a spawning function that its goroutine
// and the code after the go statement use, one of them writing.
func (ri *raceInfo) captured(r *Report) {
	p := ri.p
	for _, t := range ri.threads {
		if t.site == nil {
			continue
		}
		mc, ok := t.site.Call.Value.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		for i, b := range mc.Bindings {
			al, ok := b.(*ssa.Alloc)
			if !ok {
				continue
			}
			r.Obligations++
			bad := false
			inside := varUses(t.fn.FreeVars[i])
			for _, r2 := range varUses(al) {
				if r2.in.Parent() != t.site.Parent() || r2.in == ssa.Instruction(mc) {
					continue
				}
				if !mayPrecede(t.site, r2.in, al) || ri.awaited(t.site, r2.in) {
					continue
				}
				for _, u := range inside {
					if !u.write && !r2.write {
						continue
					}
					if bad || commonLock(access{write: r2.write, locks: ri.li.heldAt(r2.in)}, access{write: u.write, locks: ri.li.heldAt(u.in)}) {
						continue
					}
					bad = true
					r.find(fmt.Sprintf("captured|%s|%s", fname(t.fn), al.Comment), p.posOf(r2.in), "the variable %s is used here after the go statement at %s and by the goroutine at %s, one of them writing, without synchronisation", al.Comment, p.posOf(t.site), p.posOf(u.in))
				}
			}
			// the goroutine of the previous iteration
			if !bad && inCycle(t.site.Block()) && al.Block() != t.site.Block() && mayPrecede(t.site, t.site, al) {
				for _, u := range inside {
					if u.write && len(ri.li.heldAt(u.in)) == 0 {
						bad = true
						r.find(fmt.Sprintf("captured|%s|%s", fname(t.fn), al.Comment), p.posOf(u.in), "goroutines started in a loop at %s share the variable %s and write it here", p.posOf(t.site), al.Comment)
						break
					}
				}
			}
			if !bad {
				r.Discharged++
			}
		}
	}
}

type varUse struct {
	in    ssa.Instruction
	write bool
}

// varUses lists the loads and stores of a captured variable, in the function
// and in the closures it makes.
func varUses(v ssa.Value) (out []varUse) {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				out = append(out, varUse{x, true})
			}
		case *ssa.UnOp:
			out = append(out, varUse{x, false})
		case *ssa.FieldAddr:
			out = append(out, varUses(x)...)
		case *ssa.IndexAddr:
			out = append(out, varUses(x)...)
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v {
					for _, u := range varUses(g.FreeVars[i]) {
						out = append(out, u)
						if g.Parent() == x.Parent() && x.Parent() == v.Parent() {
							// the closure runs somewhere after it is made
							out = append(out, varUse{x, u.write})
						}
					}
				}
			}
		}
	}
	return
}

// awaited: a receive or a Wait after the go statement comes before in.
func (ri *raceInfo) awaited(g *ssa.Go, in ssa.Instruction) bool {
	for _, b := range g.Parent().Blocks {
		for i, w := range b.Instrs {
			recv := false
			switch x := w.(type) {
			case *ssa.UnOp:
				recv = x.Op == token.ARROW
			case *ssa.Call:
				recv = calleeFull(&x.Call) == "(*sync.WaitGroup).Wait"
			}
			if !recv {
				continue
			}
			if b == in.Block() {
				for _, x := range b.Instrs[i:] {
					if x == in {
						return true
					}
				}
			} else if b.Dominates(in.Block()) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("C13", "proof", func(p *Prog, r *Report) {
		r.Rule = "whole-program lockset analysis over the goroutines started in the source and the HTTP handlers: two accesses to the same field (or to the elements of a slice or map read from it) of an object both can reach, one of them a write, share a mutex, are both atomic, or one side's object is not yet published; for objects handed over at a go statement the spawning side is explored path by path and must not touch them while the goroutine may run; captured local variables likewise"
		r.Assume = append(r.Assume,
			"objects of one type are told apart only by how they are reached (fresh, owned by the goroutine, stored in shared containers); two objects of one class reached through the same containers count as the same",
			"the standard library and the Athena packages synchronise their own state",
			"a goroutine's first deferred atomic store is the last thing it does to the objects it shares with its spawner")
		ri := newRaceInfo(p, false)
		cs, pairs := ri.conflicts()
		r.count("goroutine roots", len(ri.threads))
		r.count("types reachable from shared containers", len(ri.shared))
		r.count("conflicting access pairs examined", pairs)
		fields, accs := map[string]bool{}, 0
		for _, t := range ri.threads {
			for c, as := range t.accs {
				fields[c] = true
				accs += len(as)
			}
			r.sample("%s: %d functions, %d field classes", t.label, len(t.fns), len(t.accs))
		}
		r.count("field classes", len(fields))
		r.count("accesses", accs)
		r.Obligations += pairs
		r.Discharged += pairs
		seen := map[string]bool{}
		for _, c := range cs {
			if c.hand {
				continue
			}
			r.Discharged--
			key := fmt.Sprintf("race|%s|%s|%s", p.slotName(c.class), fname(c.a.in.Parent()), fname(c.b.in.Parent()))
			if seen[key] {
				continue
			}
			seen[key] = true
			r.find(key, p.posOf(c.a.in), "%s is written here by %s (holding %s) and accessed at %s by %s (holding %s) without a common lock",
				p.slotName(c.class), c.ta.label, lockNames(p, c.a.locks), p.posOf(c.b.in), c.tb.label, lockNames(p, c.b.locks))
		}
		ri.handover(r, cs)
		ri.captured(r)
		r.atLeast("goroutine roots", 10)
		r.atLeast("conflicting access pairs examined", 200)
	})
}

func lockNames(p *Prog, m map[string]bool) string {
	var out []string
	for k := range m {
		i := strings.LastIndex(k, "|")
		out = append(out, p.slotName(k[:i]))
	}
	if len(out) == 0 {
		return "no lock"
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}
