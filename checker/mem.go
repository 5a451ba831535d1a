package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is an inlining context: fn running, called from site in parent
// (nil parent: unknown caller).
type Frame struct {
	fn     *ssa.Function
	parent *Frame
	site   ssa.CallInstruction
	id     int
	depth  int
}

// effect is "some location of class/elem may be written".
type effect struct {
	class string // F:Struct.i  A:fn.alloc  G:name  T:type
	elem  string
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func structOf(t types.Type) (*types.Struct, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s, t
	}
	return nil, nil
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// classOf an address value.
func classOf(v ssa.Value) effect {
	elem := derefType(v.Type())
	e := effect{elem: typeKey(elem)}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		_, st := structOf(x.X.Type())
		e.class = "F:" + typeKey(st) + "." + strconv.Itoa(x.Field)
	case *ssa.Alloc:
		e.class = "A:" + x.Parent().String() + "." + x.Name()
	case *ssa.Global:
		e.class = "G:" + x.String()
	case *ssa.ChangeType:
		return classOf(x.X)
	default:
		e.class = "T:" + e.elem
	}
	return e
}

// expand adds the fields of struct-typed elements.
func expand(set map[effect]bool, e effect, t types.Type) {
	if set[e] {
		return
	}
	set[e] = true
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			expand(set, effect{class: "F:" + typeKey(t) + "." + strconv.Itoa(i), elem: typeKey(ft)}, ft)
		}
	}
}

type modInfo struct {
	p         *Prog
	fn        map[*ssa.Function]map[effect]bool
	instr     map[ssa.Instruction]map[effect]bool
	guarded   map[string]map[string]bool
	fieldElem map[string]effect
	tok       map[string]*tokTable
}

func newModInfo(p *Prog) *modInfo {
	m := &modInfo{p: p, fn: map[*ssa.Function]map[effect]bool{}, instr: map[ssa.Instruction]map[effect]bool{}, tok: map[string]*tokTable{}, fieldElem: map[string]effect{}}
	m.guarded = newLockInfo(p).guardedFields()
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					c := classOf(fa)
					m.fieldElem[c.class] = c
				}
			}
		}
	}
	// fixpoint of transitive effects
	fns := map[*ssa.Function]bool{}
	var addf func(f *ssa.Function)
	addf = func(f *ssa.Function) {
		if f == nil || fns[f] || f.Blocks == nil {
			return
		}
		fns[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.Callees(c) {
						addf(g)
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		addf(f)
	}
	var list []*ssa.Function
	for f := range fns {
		list = append(list, f)
		m.fn[f] = map[effect]bool{}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	for changed := true; changed; {
		changed = false
		for _, f := range list {
			set := m.fn[f]
			n := len(set)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					m.collect(in, set, true)
				}
			}
			if len(set) != n {
				changed = true
			}
		}
	}
	return m
}

// collect adds the effects of one instruction; calls use current summaries.
func (m *modInfo) collect(in ssa.Instruction, set map[effect]bool, summary bool) {
	switch x := in.(type) {
	case *ssa.Store:
		e := classOf(x.Addr)
		if summary {
			if a, ok := x.Addr.(*ssa.Alloc); ok && !a.Heap {
				return
			}
		}
		expand(set, e, derefType(x.Addr.Type()))
	case *ssa.Go:
		return
	case ssa.CallInstruction:
		com := x.Common()
		if bi, isB := com.Value.(*ssa.Builtin); isB {
			if bi.Name() == "delete" {
				k := "D:" + typeKey(com.Args[0].Type())
				set[effect{class: k, elem: k}] = true
			}
			return
		}
		callees := m.p.Callees(x)
		known := len(callees) > 0
		for _, g := range callees {
			if s, ok := m.fn[g]; ok {
				for e := range s {
					set[e] = true
				}
			} else {
				known = false
			}
		}
		if !known {
			// no body: may write through pointers it is handed
			for _, a := range com.Args {
				m.argEffect(a, set)
			}
		}
		// acquiring a lock or waiting lets others change what it guards
		if op, ok := syncOp(com); ok && (op.op == "Lock" || op.op == "RLock" || op.op == "Wait") && strings.HasPrefix(op.key, "F:") {
			st := op.key[:strings.LastIndex(op.key, ".")]
			for lk, fs := range m.guarded {
				if strings.HasPrefix(lk, st+".") && (lk == op.key || op.op == "Wait") {
					for k := range fs {
						if e, ok := m.fieldElem[k]; ok {
							set[e] = true
							if strings.HasPrefix(e.elem, "map[") {
								set[effect{class: "D:" + e.elem, elem: "D:" + e.elem}] = true
							}
						}
					}
				}
			}
		}
	}
}

func (m *modInfo) argEffect(a ssa.Value, set map[effect]bool) {
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	switch a.(type) {
	case *ssa.FieldAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		expand(set, classOf(a), derefType(a.Type()))
	}
}

func (m *modInfo) instrEffects(in ssa.Instruction) map[effect]bool {
	switch in.(type) {
	case *ssa.Store, ssa.CallInstruction:
	default:
		return nil
	}
	if s, ok := m.instr[in]; ok {
		return s
	}
	s := map[effect]bool{}
	m.collect(in, s, false)
	m.instr[in] = s
	return s
}

func kills(set map[effect]bool, l effect) bool {
	if len(set) == 0 {
		return false
	}
	if set[l] {
		return true
	}
	if set[effect{class: "T:" + l.elem, elem: l.elem}] {
		return true
	}
	if l.class[0] == 'T' {
		for e := range set {
			if e.elem == l.elem {
				return true
			}
		}
	}
	return false
}

// rootAlloc: the local allocation an address is rooted in, if any.
func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		default:
			return nil
		}
	}
}

type memTok struct {
	in    ssa.Instruction // killing instruction
	merge *ssa.BasicBlock // or merge
	// neither: function entry
}
type tokTable struct{ in []memTok }

// tokenAt finds the memory version of location class l (rooted at alloc ra,
// may be nil) just before instruction at (in fn).
func (m *modInfo) tokenAt(fn *ssa.Function, at ssa.Instruction, l effect, ra *ssa.Alloc) memTok {
	b := at.Block()
	idx := len(b.Instrs)
	for i, x := range b.Instrs {
		if x == at {
			idx = i
			break
		}
	}
	return m.scan(fn, b, idx, l, ra)
}

func (m *modInfo) tokenEnd(fn *ssa.Function, b *ssa.BasicBlock, l effect, ra *ssa.Alloc) memTok {
	return m.scan(fn, b, len(b.Instrs), l, ra)
}

// entryRoot stands for objects that existed before the function was entered:
// what a parameter points to cannot be an object allocated here.
var entryRoot = new(ssa.Alloc)

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		default:
			return v
		}
	}
}

func rootRef(v ssa.Value) *ssa.Alloc {
	switch x := rootOf(v).(type) {
	case *ssa.Alloc:
		return x
	case *ssa.Parameter:
		return entryRoot
	}
	return nil
}

func (m *modInfo) killedBy(x ssa.Instruction, l effect, ra *ssa.Alloc) bool {
	if ra == entryRoot {
		if st, ok := x.(*ssa.Store); ok && rootAlloc(st.Addr) != nil {
			return false
		}
	} else if ra != nil {
		if st, ok := x.(*ssa.Store); ok {
			if r2 := rootAlloc(st.Addr); r2 != nil && r2 != ra {
				return false
			}
		}
		if _, isCall := x.(ssa.CallInstruction); isCall && !escapes(ra) {
			return false
		}
		if x == ssa.Instruction(ra) {
			return true
		}
	}
	return kills(m.instrEffects(x), l)
}

// escapes: conservative; an alloc whose only uses are direct loads, stores to
// it and field addressing never escapes.
func escapes(a *ssa.Alloc) bool {
	var esc func(v ssa.Value, d int) bool
	esc = func(v ssa.Value, d int) bool {
		if d > 6 {
			return true
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					return true
				}
			case *ssa.UnOp:
			case *ssa.DebugRef:
			case *ssa.FieldAddr:
				if esc(x, d+1) {
					return true
				}
			case *ssa.IndexAddr:
				if esc(x, d+1) {
					return true
				}
			case *ssa.Slice:
				return true
			default:
				return true
			}
		}
		return false
	}
	return esc(a, 0)
}

func (m *modInfo) scan(fn *ssa.Function, b *ssa.BasicBlock, idx int, l effect, ra *ssa.Alloc) memTok {
	for i := idx - 1; i >= 0; i-- {
		if m.killedBy(b.Instrs[i], l, ra) {
			return memTok{in: b.Instrs[i]}
		}
	}
	return m.table(fn, l, ra).in[b.Index]
}

func (m *modInfo) table(fn *ssa.Function, l effect, ra *ssa.Alloc) *tokTable {
	key := fn.String() + "|" + strconv.Itoa(int(fn.Pos())) + "|" + l.class + "|" + l.elem
	if ra == entryRoot {
		key += "|entry"
	} else if ra != nil {
		key += "|" + ra.Name()
	}
	if t, ok := m.tok[key]; ok {
		return t
	}
	n := len(fn.Blocks)
	out := make([]*memTok, n)
	last := make([]ssa.Instruction, n)
	for _, b := range fn.Blocks {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if m.killedBy(b.Instrs[i], l, ra) {
				last[b.Index] = b.Instrs[i]
				break
			}
		}
	}
	in := make([]*memTok, n)
	in[0] = &memTok{}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			if b.Index != 0 && len(b.Preds) > 0 {
				var cur *memTok
				conflict := false
				for _, p := range b.Preds {
					o := out[p.Index]
					if o == nil {
						continue
					}
					if cur == nil {
						cur = o
					} else if *cur != *o {
						conflict = true
					}
				}
				if conflict || (in[b.Index] != nil && in[b.Index].merge == b) {
					cur = &memTok{merge: b}
				}
				if cur != nil && (in[b.Index] == nil || *in[b.Index] != *cur) {
					in[b.Index] = cur
					changed = true
				}
			}
			var o *memTok
			if last[b.Index] != nil {
				o = &memTok{in: last[b.Index]}
			} else {
				o = in[b.Index]
			}
			if o != nil && (out[b.Index] == nil || *out[b.Index] != *o) {
				out[b.Index] = o
				changed = true
			}
		}
	}
	t := &tokTable{in: make([]memTok, n)}
	for i := range in {
		if in[i] != nil {
			t.in[i] = *in[i]
		}
	}
	m.tok[key] = t
	return t
}

func valName(v ssa.Value) string {
	if f := v.Parent(); f != nil {
		return fmt.Sprintf("%s#%d.%s", f.String(), int(f.Pos()), v.Name())
	}
	return v.String()
}

func tokName(fr *Frame, t memTok) string {
	switch {
	case t.in != nil:
		b := t.in.Block()
		for i, x := range b.Instrs {
			if x == t.in {
				return fmt.Sprintf("%d:i%d.%d", fr.id, b.Index, i)
			}
		}
	case t.merge != nil:
		return fmt.Sprintf("%d:m%d", fr.id, t.merge.Index)
	}
	return fmt.Sprintf("%d:entry", fr.id)
}

// addrKey names a memory location canonically (across frames).
func (e *Eng) addrKey(fr *Frame, v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Alloc:
		return fmt.Sprintf("a:%d:%s", fr.id, valName(x)), true
	case *ssa.Global:
		return "g:" + x.String(), true
	case *ssa.FieldAddr:
		b, ok := e.addrKey(fr, x.X)
		if !ok {
			return "", false
		}
		return b + "." + strconv.Itoa(x.Field), true
	case *ssa.ChangeType:
		return e.addrKey(fr, x.X)
	case *ssa.IndexAddr:
		return "", false
	}
	if rk := e.refKey(fr, v); strings.HasPrefix(rk, "&") {
		return rk[1:], true
	} else {
		return "*" + rk, true
	}
}

type loadInfo struct {
	key   string
	typ   types.Type
	class effect
	ra    *ssa.Alloc
	root  ssa.Value
	tokFr *Frame
	tok   memTok
	val   ssa.Value // forwarded value
	valFr *Frame
}

// resolveLoad analyses *addr at instruction at.
func (e *Eng) resolveLoad(fr *Frame, addr ssa.Value, at ssa.Instruction) (loadInfo, bool) {
	li := loadInfo{class: classOf(addr), ra: rootRef(addr), root: rootOf(addr), typ: derefType(addr.Type())}
	k, ok := e.addrKey(fr, addr)
	if !ok {
		return li, false
	}
	li.key = k
	if v, vf := e.finalVar(fr, addr, at); v != nil {
		li.val, li.valFr, li.tokFr = v, vf, vf
		return li, true
	}
	return e.resolveTok(fr, li, e.mods.tokenAt(fr.fn, at, li.class, li.ra)), true
}

func (e *Eng) resolveTok(fr *Frame, li loadInfo, t memTok) loadInfo {
	for {
		if t.in == nil && t.merge == nil && fr.parent != nil && (li.ra == nil || li.ra == entryRoot) {
			// value at entry = value at the call site
			li.ra = nil
			if p, ok := li.root.(*ssa.Parameter); ok {
				li.root = nil
				if a := argFor(fr, p); a != nil {
					if q, ok := rootOf(a).(*ssa.Parameter); ok {
						li.root, li.ra = q, entryRoot
					}
				}
			}
			t = e.mods.tokenAt(fr.parent.fn, fr.site, li.class, li.ra)
			fr = fr.parent
			continue
		}
		break
	}
	li.tokFr, li.tok = fr, t
	if strings.HasPrefix(li.key, "g:") && strings.HasPrefix(li.class.class, "G:") {
		if v, f := e.globalInit(li.key[2:]); v != nil {
			li.val, li.valFr = v, e.frame(nil, nil, f)
			return li
		}
	}
	if a, ok := t.in.(*ssa.Alloc); ok && a == li.ra {
		li.val = zeroOf(li.class.elem, e, a, li)
		li.valFr = fr
		return li
	}
	if st, ok := t.in.(*ssa.Store); ok {
		if k, ok := e.addrKey(fr, st.Addr); ok && k == li.key {
			li.val, li.valFr = st.Val, fr
		}
	}
	return li
}

func (li loadInfo) name() string {
	return "m:" + li.key + "@" + tokName(li.tokFr, li.tok)
}

// refKey names a value canonically.
func (e *Eng) refKey(fr *Frame, v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		if fr.parent != nil {
			if a := argFor(fr, x); a != nil {
				return e.refKey(fr.parent, a)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if li, ok := e.resolveLoad(fr, x.X, x); ok {
				if li.val != nil {
					return e.refKey(li.valFr, li.val)
				}
				return li.name()
			}
		}
	case *ssa.ChangeType:
		return e.refKey(fr, x.X)
	case *ssa.Field:
		return e.refKey(fr, x.X) + "." + strconv.Itoa(x.Field)
	case *ssa.Const:
		return "c:" + x.String()
	case *ssa.Global:
		return "g:" + x.String()
	case *ssa.FieldAddr, *ssa.Alloc:
		if k, ok := e.addrKey(fr, v); ok {
			return "&" + k
		}
	}
	return fmt.Sprintf("v:%d:%s", fr.id, valName(v))
}

// argFor maps a parameter to the argument at the frame's call site.
func argFor(fr *Frame, p *ssa.Parameter) ssa.Value {
	idx := -1
	for i, q := range fr.fn.Params {
		if q == p {
			idx = i
		}
	}
	if idx < 0 || fr.site == nil {
		return nil
	}
	com := fr.site.Common()
	if com.IsInvoke() {
		if idx == 0 {
			return nil // the receiver is an interface value there
		}
		if idx-1 < len(com.Args) {
			return com.Args[idx-1]
		}
		return nil
	}
	if len(com.Args) == len(fr.fn.Params) {
		return com.Args[idx]
	}
	return nil
}

// globalInit: the value of a package-level variable that is assigned exactly
// once, by its package's initialiser.
func (e *Eng) globalInit(name string) (ssa.Value, *ssa.Function) {
	if e.ginit == nil {
		e.ginit = map[string]*ssa.Store{}
		bad := map[string]bool{}
		scan := func(f *ssa.Function, isInit bool) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch x := in.(type) {
						case *ssa.Store:
							if x.Addr == ssa.Value(g) {
								if !isInit || e.ginit[g.String()] != nil {
									bad[g.String()] = true
								}
								e.ginit[g.String()] = x
							} else {
								bad[g.String()] = true
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							bad[g.String()] = true
						}
					}
				}
			}
		}
		for _, f := range e.p.Funcs {
			scan(f, false)
		}
		for _, p := range e.p.Pkgs {
			if sp := e.p.SSA.Package(p.Types); sp != nil {
				if f := sp.Func("init"); f != nil {
					scan(f, true)
				}
			}
		}
		for k := range bad {
			delete(e.ginit, k)
		}
	}
	if st := e.ginit[name]; st != nil {
		return st.Val, st.Parent()
	}
	return nil, nil
}

// zeroOf is the zero constant of the loaded type.
func zeroOf(elem string, e *Eng, a *ssa.Alloc, li loadInfo) ssa.Value {
	t := li.typ
	if t == nil {
		return nil
	}
	switch t.Underlying().(type) {
	case *types.Basic, *types.Slice, *types.Pointer, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return ssa.NewConst(zeroConst(t), t)
	}
	return nil
}

func zeroConst(t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		return constant.MakeInt64(0)
	case b.Info()&types.IsString != 0:
		return constant.MakeString("")
	case b.Info()&types.IsBoolean != 0:
		return constant.MakeBool(false)
	case b.Info()&types.IsFloat != 0:
		return constant.MakeFloat64(0)
	}
	return nil
}

// finalVar: the value of a captured variable that is assigned once, before it
// is captured.
func (e *Eng) finalVar(fr *Frame, addr ssa.Value, at ssa.Instruction) (ssa.Value, *Frame) {
	switch x := addr.(type) {
	case *ssa.Alloc:
		if s := e.onlyStore(x); s != nil && at != nil && at.Parent() == x.Parent() && before(s, at) {
			return s.Val, fr
		}
	case *ssa.FreeVar:
		if fr.parent == nil || fr.site == nil {
			return nil, nil
		}
		var mc *ssa.MakeClosure
		for _, r := range append([]ssa.Value{fr.site.Common().Value}, fr.site.Common().Args...) {
			if m, ok := r.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(fr.fn) {
				mc = m
			}
		}
		if mc == nil || mc.Parent() != fr.parent.fn || mc.Block() != fr.site.Block() {
			return nil, nil
		}
		for i, fv := range fr.fn.FreeVars {
			if fv != x {
				continue
			}
			b := mc.Bindings[i]
			v, vf := e.finalVar(fr.parent, b, mc)
			if a, ok := b.(*ssa.Alloc); ok && v != nil {
				// not assigned again while the closure is alive
				s := e.onlyStore(a)
				if a.Block() != s.Block() && flowsTo(mc.Block(), s.Block()) {
					return nil, nil
				}
			}
			return v, vf
		}
	}
	return nil, nil
}

// onlyStore: the single assignment to a variable that is captured by closures
// and otherwise only read.
func (e *Eng) onlyStore(a *ssa.Alloc) *ssa.Store {
	if s, ok := e.finals[a]; ok {
		return s
	}
	e.finals[a] = nil
	var st *ssa.Store
	captured, bad := false, false
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v || st != nil || x.Parent() != a.Parent() {
					bad = true
				}
				st = x
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				captured = true
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						walk(fn.FreeVars[i])
					}
				}
			default:
				bad = true
			}
		}
	}
	walk(a)
	if !bad && captured && st != nil {
		e.finals[a] = st
	}
	return e.finals[a]
}
