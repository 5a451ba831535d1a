package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockKey names a mutex by the struct field (or variable) it lives in.
// The base value is kept separately: held sets are compared by key and base.
type lockOp struct {
	key  string // F:Struct.i / G:...
	op   string // Lock RLock Unlock RUnlock Wait
	base ssa.Value
}

func isSyncType(t types.Type, names ...string) bool {
	n, ok := derefType(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	for _, x := range names {
		if n.Obj().Name() == x {
			return true
		}
	}
	return false
}

func syncOp(com *ssa.CallCommon) (lockOp, bool) {
	f := com.StaticCallee()
	name := ""
	var recv ssa.Value
	if f != nil && f.Signature.Recv() != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && len(com.Args) > 0 {
		name, recv = f.Name(), com.Args[0]
	} else if com.IsInvoke() && typeKey(com.Value.Type()) == "sync.Locker" {
		name, recv = com.Method.Name(), com.Value
	} else {
		return lockOp{}, false
	}
	switch name {
	case "Lock", "RLock", "Unlock", "RUnlock", "Wait", "TryLock", "TryRLock":
	default:
		return lockOp{}, false
	}
	lo := lockOp{op: name}
	a := recv
	if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
		a = u.X
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		_, st := structOf(x.X.Type())
		lo.key = "F:" + typeKey(st) + "." + strconv.Itoa(x.Field)
		lo.base = x.X
	case *ssa.Global:
		lo.key = "G:" + x.String()
	case *ssa.Alloc, *ssa.FreeVar:
		lo.key = "V:" + typeKey(a.Type()) + "/" + a.Name()
	default:
		return lockOp{}, false
	}
	return lo, true
}

// lockSets computes, per instruction, the set of lock keys certainly held
// (must analysis, intraprocedural, entry set given).
type lockInfo struct {
	p     *Prog
	entry map[*ssa.Function]map[string]bool // held at every call (interprocedural must)
	in    map[*ssa.BasicBlock]map[string]bool
	delta map[*ssa.Function]*lockDelta
}

// lockDelta: locks a function certainly acquires (still held on return) or
// may release.
type lockDelta struct {
	acq map[string]bool
	rel map[string]bool
}

func cloneSet(m map[string]bool) map[string]bool {
	r := make(map[string]bool, len(m))
	for k := range m {
		r[k] = true
	}
	return r
}

func (li *lockInfo) apply(in ssa.Instruction, held map[string]bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	if op, ok := syncOp(c.Common()); ok {
		switch op.op {
		case "Lock", "RLock":
			held[op.key+"|"+op.op[:1]] = true
		case "Unlock":
			delete(held, op.key+"|L")
		case "RUnlock":
			delete(held, op.key+"|R")
		}
		return
	}
	cs := li.p.Callees(c)
	for i, g := range cs {
		d := li.delta[g]
		if d == nil {
			continue
		}
		for k := range d.rel {
			delete(held, k)
		}
		if len(cs) == 1 && i == 0 {
			for k := range d.acq {
				held[k] = true
			}
		}
	}
}

func meet(a, b map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range a {
		if b[k] {
			r[k] = true
		}
	}
	return r
}

func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func (li *lockInfo) flow(f *ssa.Function, entry map[string]bool) (exit map[string]bool) {
	in := map[*ssa.BasicBlock]map[string]bool{f.Blocks[0]: cloneSet(entry)}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		h := cloneSet(in[b])
		for _, x := range b.Instrs {
			li.apply(x, h)
		}
		for _, s := range b.Succs {
			if in[s] == nil {
				in[s] = cloneSet(h)
				work = append(work, s)
			} else if m := meet(in[s], h); !sameSet(m, in[s]) {
				in[s] = m
				work = append(work, s)
			}
		}
	}
	for b, s := range in {
		li.in[b] = s
	}
	for _, b := range f.Blocks {
		if _, ok := lastInstr(b).(*ssa.Return); ok && in[b] != nil {
			h := cloneSet(in[b])
			for _, x := range b.Instrs {
				li.apply(x, h)
			}
			// deferred unlocks run at return
			for k := range li.deferred(f) {
				delete(h, k)
			}
			if exit == nil {
				exit = h
			} else {
				exit = meet(exit, h)
			}
		}
	}
	if exit == nil {
		exit = map[string]bool{}
	}
	return exit
}

// deferred: locks released by defers of f (directly or in a deferred closure).
func (li *lockInfo) deferred(f *ssa.Function) map[string]bool {
	r := map[string]bool{}
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			d, ok := x.(*ssa.Defer)
			if !ok {
				continue
			}
			if op, ok := syncOp(d.Common()); ok {
				if op.op == "Unlock" {
					r[op.key+"|L"] = true
				} else if op.op == "RUnlock" {
					r[op.key+"|R"] = true
				}
				continue
			}
			for _, g := range li.p.Callees(d) {
				if dl := li.delta[g]; dl != nil {
					for k := range dl.rel {
						r[k] = true
					}
				}
			}
		}
	}
	return r
}

func (li *lockInfo) heldAt(in ssa.Instruction) map[string]bool {
	b := in.Block()
	h := cloneSet(li.in[b])
	for _, x := range b.Instrs {
		if x == in {
			break
		}
		li.apply(x, h)
	}
	return h
}

func hasLock(held map[string]bool, key string) bool { return held[key+"|L"] || held[key+"|R"] }

func newLockInfo(p *Prog) *lockInfo {
	li := &lockInfo{p: p, entry: map[*ssa.Function]map[string]bool{}, in: map[*ssa.BasicBlock]map[string]bool{}, delta: map[*ssa.Function]*lockDelta{}}
	// deltas (bottom-up fixpoint, few rounds)
	for round := 0; round < 5; round++ {
		for _, f := range p.Funcs {
			d := &lockDelta{acq: map[string]bool{}, rel: map[string]bool{}}
			exit := li.flow(f, nil)
			d.acq = exit
			for _, b := range f.Blocks {
				for _, x := range b.Instrs {
					c, ok := x.(*ssa.Call)
					if !ok {
						continue
					}
					if op, ok := syncOp(c.Common()); ok {
						if op.op == "Unlock" || op.op == "RUnlock" {
							k := op.key + "|L"
							if op.op == "RUnlock" {
								k = op.key + "|R"
							}
							if !li.heldAt(x)[k] {
								d.rel[k] = true
							}
						}
						continue
					}
					for _, g := range p.Callees(c) {
						if dg := li.delta[g]; dg != nil {
							held := li.heldAt(x)
							for k := range dg.rel {
								if !held[k] {
									d.rel[k] = true
								}
							}
						}
					}
				}
			}
			li.delta[f] = d
		}
	}
	// entry sets (top-down): intersection over ordinary call sites; go,
	// defer, and functions without callers start with nothing
	all := map[string]bool{"*": true}
	for _, f := range p.Funcs {
		li.entry[f] = all
	}
	for _, f := range p.Funcs {
		if p.openRoot(f) || p.addressTaken(f) {
			li.entry[f] = map[string]bool{}
		}
	}
	for round := 0; round < 8; round++ {
		changed := false
		for _, f := range p.Funcs {
			if li.entry[f]["*"] {
				continue
			}
			li.flow(f, li.entry[f])
		}
		for _, f := range p.Funcs {
			if p.openRoot(f) || p.addressTaken(f) {
				continue
			}
			var e map[string]bool
			known := true
			for _, c := range p.Callers(f) {
				call, isCall := c.(*ssa.Call)
				var h map[string]bool
				if !isCall {
					h = map[string]bool{}
				} else if li.entry[c.Parent()] == nil {
					h = map[string]bool{}
				} else if li.entry[c.Parent()]["*"] {
					continue
				} else {
					h = li.heldAt(call)
				}
				if e == nil {
					e = h
				} else {
					e = meet(e, h)
				}
			}
			if e == nil {
				known = false
			}
			if known && !sameSet(e, li.entry[f]) {
				li.entry[f] = e
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	for _, f := range p.Funcs {
		if li.entry[f]["*"] {
			li.entry[f] = map[string]bool{}
		}
		li.flow(f, li.entry[f])
	}
	return li
}

// addressTaken: the function is used as a value (stored, passed, go'd as a
// method value) somewhere, so callers beyond the call graph may exist.
func (p *Prog) addressTaken(f *ssa.Function) bool {
	if p.taken == nil {
		p.taken = map[*ssa.Function]bool{}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var callee ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						callee = c.Common().Value
					}
					for _, op := range in.Operands(nil) {
						if *op == nil || *op == callee {
							continue
						}
						if h, ok := (*op).(*ssa.Function); ok {
							p.taken[h] = true
						}
					}
				}
			}
		}
	}
	return p.taken[f]
}

// guardedFields: for each mutex field, the sibling fields that are stored at
// least once while it is held.
func (li *lockInfo) guardedFields() map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for _, f := range li.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := classOf(fa).class
				t := k[:strings.LastIndex(k, ".")]
				for h := range li.heldAt(in) {
					lk := h[:strings.LastIndex(h, "|")]
					if strings.HasPrefix(lk, t+".") {
						if out[lk] == nil {
							out[lk] = map[string]bool{}
						}
						out[lk][k] = true
					}
				}
			}
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
