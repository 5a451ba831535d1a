package main

// Lookup of the program entities the rules are about, and small helpers to
// trace where a value comes from.

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const athena = "github.com/SmartBrave/Athena/"

func (p *Prog) namedType(pkg, name string) *types.Named {
	for _, q := range p.Pkgs {
		if q.PkgPath == modPath+"/"+pkg {
			if o, ok := q.Types.Scope().Lookup(name).(*types.TypeName); ok {
				if n, ok := o.Type().(*types.Named); ok {
					return n
				}
			}
		}
	}
	return nil
}

// slot of a struct field; "" when there is no such field.
func (p *Prog) slot(pkg, typ, field string) string {
	n := p.namedType(pkg, typ)
	if n == nil {
		return ""
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if fieldIs(n, i, field) {
			return "F:" + typeKey(n) + "." + strconv.Itoa(i)
		}
	}
	return ""
}

// slotName prints a slot with its field name.
func (p *Prog) slotName(slot string) string {
	if strings.HasPrefix(slot, "E:") {
		return p.slotName("F:"+slot[2:]) + "[]"
	}
	if !strings.HasPrefix(slot, "F:") {
		return slot
	}
	i := strings.LastIndex(slot, ".")
	idx, err := strconv.Atoi(slot[i+1:])
	if err != nil {
		return slot
	}
	t := slot[2:i]
	short := t[strings.LastIndex(t, "/")+1:]
	for _, q := range p.Pkgs {
		if strings.HasPrefix(t, q.PkgPath+".") {
			if o := q.Types.Scope().Lookup(t[len(q.PkgPath)+1:]); o != nil {
				if s, ok := o.Type().Underlying().(*types.Struct); ok && idx < s.NumFields() {
					return short + "." + fieldName(o.Type(), idx)
				}
			}
		}
	}
	return short + "." + slot[i+1:]
}

func isNamed(t types.Type, pkg, name string) bool {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil &&
		(n.Obj().Pkg().Path() == pkg || n.Obj().Pkg().Path() == modPath+"/"+pkg)
}

// constVal of a package-level constant as the AV of its value.
func (p *Prog) constAV(pkg, name string) (AV, bool) {
	for _, q := range p.Pkgs {
		if q.PkgPath == modPath+"/"+pkg {
			if c, ok := q.Types.Scope().Lookup(name).(*types.Const); ok {
				return AV{k: avConst, s: c.Val().ExactString()}, true
			}
		}
	}
	return top, false
}

// enumAVs lists the constants of a named type.
func (p *Prog) enumAVs(n *types.Named) []AV {
	if n == nil || n.Obj().Pkg() == nil {
		return nil
	}
	sc := n.Obj().Pkg().Scope()
	seen := map[string]bool{}
	var out []AV
	for _, nm := range sc.Names() {
		if c, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(c.Type(), n) && !seen[c.Val().ExactString()] {
			seen[c.Val().ExactString()] = true
			out = append(out, AV{k: avConst, s: c.Val().ExactString()})
		}
	}
	return out
}

// calleeFull returns the full name of the statically known target of a call, and
// for interface calls "I:" + the method name.
func calleeFull(com *ssa.CallCommon) string {
	if com.IsInvoke() {
		return "I:" + com.Method.FullName()
	}
	if f := com.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// fieldOrigin tells which struct field (slot) the value was loaded from or is
// the address of, looking through conversions, phis that agree and parameters
// whose call sites agree.
func (p *Prog) fieldOrigin(v ssa.Value) string { return p.fieldOriginN(v, 0) }

func (p *Prog) fieldOriginN(v ssa.Value, n int) string {
	if n > 6 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return classOf(fa).class
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				return p.allocOrigin(al, n)
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				if al, ok := freeVarBinding(fv).(*ssa.Alloc); ok {
					return p.allocOrigin(al, n)
				}
			}
		}
	case *ssa.FieldAddr:
		return classOf(x).class
	case *ssa.ChangeType:
		return p.fieldOriginN(x.X, n+1)
	case *ssa.MakeInterface:
		return p.fieldOriginN(x.X, n+1)
	case *ssa.Phi:
		r := ""
		for _, e := range x.Edges {
			o := p.fieldOriginN(e, n+1)
			if o == "" || r != "" && r != o {
				return ""
			}
			r = o
		}
		return r
	case *ssa.Parameter:
		idx := -1
		for i, q := range x.Parent().Params {
			if q == x {
				idx = i
			}
		}
		r := ""
		for _, c := range p.Callers(x.Parent()) {
			args := c.Common().Args
			if c.Common().IsInvoke() || idx >= len(args) || len(args) != len(x.Parent().Params) {
				return ""
			}
			o := p.fieldOriginN(args[idx], n+1)
			if o == "" || r != "" && r != o {
				return ""
			}
			r = o
		}
		return r
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return p.fieldOriginN(b, n+1)
		}
	}
	return ""
}

func (p *Prog) allocOrigin(al *ssa.Alloc, n int) string {
	r := ""
	for _, ref := range *al.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			o := p.fieldOriginN(s.Val, n+1)
			if o == "" || r != "" && r != o {
				return ""
			}
			r = o
		}
	}
	return r
}

// goTargets lists the functions started by go statements.
func (p *Prog) goTargets() map[*ssa.Function][]*ssa.Go {
	m := map[*ssa.Function][]*ssa.Go{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					for _, t := range p.Callees(g) {
						m[t] = append(m[t], g)
					}
				}
			}
		}
	}
	return m
}

// reach is the set of functions reachable from f through calls (and optionally
// go statements and closures handed to external code).
func (p *Prog) reach(f *ssa.Function, throughGo bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if g == nil || seen[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo && !throughGo {
					continue
				}
				for _, t := range p.Callees(c) {
					walk(t)
				}
				for _, a := range c.Common().Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						walk(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	walk(f)
	return seen
}

// qset / qget keep a rule's automaton state as sorted k=v pairs.
func qget(q, k string) string {
	for _, kv := range strings.Split(q, ",") {
		if strings.HasPrefix(kv, k+"=") {
			return kv[len(k)+1:]
		}
	}
	return ""
}

func qset(q string, kvs ...string) string {
	m := map[string]string{}
	for _, kv := range strings.Split(q, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			m[kv[:i]] = kv[i+1:]
		}
	}
	for i := 0; i+1 < len(kvs); i += 2 {
		if kvs[i+1] == "" {
			delete(m, kvs[i])
		} else {
			m[kvs[i]] = kvs[i+1]
		}
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, k+"="+m[k])
	}
	return strings.Join(out, ",")
}

// goRuns reports whether the goroutine started by g certainly calls the named
// function, directly or through the functions it is made of.
func (p *Prog) goRuns(g *ssa.Go, name string) bool {
	if calleeFull(&g.Call) == name {
		return true
	}
	ts := p.Callees(g)
	for _, t := range ts {
		if !p.certainlyCalls(t, name, 3) {
			return false
		}
	}
	return len(ts) > 0
}

// certainlyCalls: every path through f to a return passes a call of name.
func (p *Prog) certainlyCalls(f *ssa.Function, name string, n int) bool {
	if f.String() == name {
		return true
	}
	return p.everyPath(f, func(c ssa.CallInstruction) bool { return calleeFull(c.Common()) == name }, n)
}

// everyPath: every path through f to a return passes a call that hits, in f
// or in the functions it calls.
func (p *Prog) everyPath(f *ssa.Function, hit func(c ssa.CallInstruction) bool, n int) bool {
	if n == 0 || f.Blocks == nil || !p.isRepoFunc(f) {
		return false
	}
	calls := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if hit(c) {
				calls[b] = true
				continue
			}
			ts := p.Callees(c)
			all := len(ts) > 0
			for _, t := range ts {
				all = all && p.everyPath(t, hit, n-1)
			}
			if all {
				calls[b] = true
			}
		}
	}
	if len(calls) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var escape func(b *ssa.BasicBlock) bool
	escape = func(b *ssa.BasicBlock) bool {
		if seen[b] || calls[b] {
			return false
		}
		seen[b] = true
		if len(b.Succs) == 0 {
			_, panics := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
			return !panics
		}
		for _, s := range b.Succs {
			if escape(s) {
				return true
			}
		}
		return false
	}
	return !escape(f.Blocks[0])
}
