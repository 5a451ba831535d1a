package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nilEng decides whether references can be nil where they are used. It reuses
// the bounds engine's frames, path facts and case splits and adds invariants:
// fields, elements, captured variables and sync.Map contents that are never
// nil because nothing nil is ever stored into them.
type nilEng struct {
	e      *Eng
	p      *Prog
	fields map[string]bool         // field classes that are never nil
	elems  map[string]bool         // "S:"/"M:"+type: elements that are never nil
	globs  map[*ssa.Global]bool    // package variables that are never nil
	cells  map[*ssa.Alloc]bool     // captured variables that are never nil
	boxed  map[string]bool         // pointer types never boxed as a nil pointer
	params map[*ssa.Parameter]bool // parameters that are never nil
	syncs  map[string]*syncClass   // sync.Map / sync.Pool / atomic.Value contents
	busy   map[string]bool

	mono    map[string]bool         // field classes that never become nil again
	bcast   *syncClass              // what is written to broadcasts
	deleted map[string]bool         // map types some entry of which is deleted
	bare    map[string][]*ssa.Alloc // allocations that leave a field unset
	reach   map[*ssa.Alloc]map[interface{}]bool
	loads   map[string][]ssa.Value
	fst     map[string][]nilStore
	est     map[string][]nilStore
	scope   map[*ssa.Function]bool // what runs in the server
	pairs   map[string][]string    // field class -> classes that are set only with it
	funcs   []*ssa.Function
	embeds  map[string][]string // pointer type -> embedded fields of that type
	byValue map[string]bool     // pointer type -> embedded by value somewhere
}

type syncClass struct {
	vals    []ssa.Value
	unknown bool
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// nilUse is one place where a nil reference would crash.
type nilUse struct {
	fn   *ssa.Function
	in   ssa.Instruction
	v    ssa.Value
	kind string
}

// alwaysRef: values that cannot be nil whatever the state.
func alwaysRef(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Builtin:
		return true
	}
	return false
}

func (n *nilEng) uses(fn *ssa.Function) (out []nilUse) {
	add := func(in ssa.Instruction, v ssa.Value, kind string) {
		if !alwaysRef(v) {
			out = append(out, nilUse{fn, in, v, kind})
		}
	}
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				add(in, x.X, "field of a nil pointer")
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					add(in, x.X, "index of a nil array pointer")
				}
			case *ssa.Slice:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					add(in, x.X, "slice of a nil array pointer")
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					add(in, x.X, "load through a nil pointer")
				}
			case *ssa.Store:
				add(in, x.Addr, "store through a nil pointer")
			case *ssa.MapUpdate:
				add(in, x.Map, "store into a nil map")
			case *ssa.TypeAssert:
				if !x.CommaOk {
					out = append(out, nilUse{fn, in, x, "type assertion"})
				}
			case *ssa.MakeInterface:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					add(in, x.X, "nil pointer in an interface")
				}
			case *ssa.MakeClosure:
				if f := x.Fn.(*ssa.Function); strings.HasPrefix(f.Synthetic, "bound") {
					add(in, x.Bindings[0], "method value of a nil receiver")
				}
			case *ssa.Panic:
				if mi, ok := x.X.(*ssa.MakeInterface); ok {
					if c, ok := mi.X.(*ssa.Const); ok && c.Value != nil && strings.Contains(c.Value.String(), "select matched no case") {
						continue
					}
				}
				out = append(out, nilUse{fn, in, x.X, "panic"})
			case ssa.CallInstruction:
				com := x.Common()
				if com.IsInvoke() {
					add(in, com.Value, "method of a nil interface")
					continue
				}
				f := com.StaticCallee()
				if f == nil {
					if bi, ok := com.Value.(*ssa.Builtin); ok {
						if bi.Name() == "close" {
							add(in, com.Args[0], "close of a nil channel")
						}
						continue
					}
					add(in, com.Value, "call of a nil function")
					continue
				}
				// methods of other modules are not analysed: their receiver must exist
				if f.Blocks == nil && f.Signature.Recv() != nil && len(com.Args) > 0 {
					if _, ok := com.Args[0].Type().Underlying().(*types.Pointer); ok {
						add(in, com.Args[0], "method of a nil receiver")
					}
				}
			}
		}
	}
	return
}

func elemKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return "S:" + typeKey(u.Elem())
	case *types.Array:
		return "S:" + typeKey(u.Elem())
	case *types.Pointer:
		return elemKey(u.Elem())
	case *types.Map:
		return "M:" + typeKey(t)
	}
	return ""
}

func newNilEng(p *Prog) *nilEng {
	n := &nilEng{e: p.engine(), p: p, fields: map[string]bool{}, elems: map[string]bool{}, globs: map[*ssa.Global]bool{}, cells: map[*ssa.Alloc]bool{}, boxed: map[string]bool{}, params: map[*ssa.Parameter]bool{}, syncs: map[string]*syncClass{}, busy: map[string]bool{}}
	n.embeds, n.byValue = map[string][]string{}, map[string]bool{}
	n.scope = serverScope(p)
	for _, f := range p.Funcs {
		if n.scope[f] {
			n.funcs = append(n.funcs, f)
		}
	}
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, name := range sc.Names() {
			o, ok := sc.Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := o.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if !f.Embedded() {
					continue
				}
				if _, ok := f.Type().Underlying().(*types.Pointer); ok {
					n.embeds[typeKey(f.Type())] = append(n.embeds[typeKey(f.Type())], "F:"+typeKey(o.Type())+"."+strconv.Itoa(i))
				} else {
					n.byValue[typeKey(types.NewPointer(f.Type()))] = true
				}
			}
		}
	}
	n.bare, n.reach = map[string][]*ssa.Alloc{}, map[*ssa.Alloc]map[interface{}]bool{}
	n.mono, n.bcast, n.deleted = map[string]bool{}, &syncClass{}, map[string]bool{}
	n.infer()
	n.inferPairs()
	return n
}

type nilStore struct {
	in  ssa.Instruction
	val ssa.Value
}

// infer: greatest fixpoint of the invariants.
func (n *nilEng) infer() {
	fst := map[string][]nilStore{}
	est := map[string][]nilStore{}
	gst := map[*ssa.Global][]nilStore{}
	cst := map[*ssa.Alloc][]nilStore{}
	box := map[string][]nilStore{}
	badE := map[string]bool{}
	init := n.initialised()
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						if refType(x.Val.Type()) {
							k := classOf(a).class
							fst[k] = append(fst[k], nilStore{x, x.Val})
						}
					case *ssa.IndexAddr:
						if refType(x.Val.Type()) {
							k := elemKey(a.X.Type())
							est[k] = append(est[k], nilStore{x, x.Val})
						}
					case *ssa.Global:
						if refType(x.Val.Type()) {
							gst[a] = append(gst[a], nilStore{x, x.Val})
						}
					case *ssa.Alloc:
						if refType(x.Val.Type()) {
							cst[a] = append(cst[a], nilStore{x, x.Val})
						}
					case *ssa.FreeVar:
						if refType(x.Val.Type()) {
							if c := cellOf(a); c != nil {
								cst[c] = append(cst[c], nilStore{x, x.Val})
							}
						}
					}
				case *ssa.MapUpdate:
					if refType(x.Value.Type()) {
						k := elemKey(x.Map.Type())
						est[k] = append(est[k], nilStore{x, x.Value})
					}
				case *ssa.MakeSlice:
					if c, ok := x.Len.(*ssa.Const); ok {
						if v, ok := constInt(c); ok && v == 0 {
							continue
						}
					}
					badE[elemKey(x.Type())] = true
				case *ssa.Alloc:
					if at, ok := derefType(x.Type()).Underlying().(*types.Array); ok && refType(at.Elem()) && !filled(x, at.Len()) {
						badE[elemKey(at)] = true
					}
				case *ssa.MakeClosure:
					if f := x.Fn.(*ssa.Function); strings.HasPrefix(f.Synthetic, "bound") {
						k := "bound:" + typeKey(x.Bindings[0].Type())
						box[k] = append(box[k], nilStore{x, x.Bindings[0]})
					}
				case *ssa.MakeInterface:
					if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
						k := typeKey(x.X.Type())
						box[k] = append(box[k], nilStore{x, x.X})
					}
				case ssa.CallInstruction:
					com := x.Common()
					if bi, ok := com.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						n.deleted[typeKey(com.Args[0].Type())] = true
					}
					if isBroadcast(com, "Write") {
						n.bcast.vals = append(n.bcast.vals, com.Args[len(com.Args)-1])
					}
					if isBroadcast(com, "WriteMeta") {
						n.bcast.vals = append(n.bcast.vals, com.Args[len(com.Args)-1])
					}
					if f := com.StaticCallee(); f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "sync" || f.Pkg.Pkg.Path() == "sync/atomic") && len(com.Args) > 0 {
						k := n.syncKey(com.Args[0])
						s := n.syncs[k]
						if s == nil {
							s = &syncClass{}
							n.syncs[k] = s
						}
						switch f.Name() {
						case "Store", "LoadOrStore", "Swap", "Put":
							if _, isAny := com.Args[len(com.Args)-1].Type().Underlying().(*types.Interface); isAny {
								s.vals = append(s.vals, com.Args[len(com.Args)-1])
							}
						}
					}
				}
			}
		}
	}
	for _, f := range n.funcs {
		scan(f)
	}
	for _, p := range n.p.Pkgs {
		if sp := n.p.SSA.Package(p.Types); sp != nil {
			if f := sp.Func("init"); f != nil {
				scan(f)
			}
		}
	}
	n.fst = fst
	n.est = est
	for k := range fst {
		n.mono[k] = true
		if init[k] {
			n.fields[k] = true
		}
	}
	for k := range est {
		if !badE[k] {
			n.elems[k] = true
		}
	}
	for g, s := range gst {
		if len(s) > 0 {
			n.globs[g] = true
		}
	}
	for a := range cst {
		n.cells[a] = true
	}
	for k := range box {
		n.boxed[k] = true
	}
	check := func(ss []nilStore) bool {
		for _, s := range ss {
			if ok, _, _ := n.discharge(nilUse{s.in.Parent(), s.in, s.val, "store"}, 8); !ok {
				return false
			}
		}
		return true
	}
	for _, f := range n.funcs {
		for _, q := range f.Params {
			if refType(q.Type()) {
				n.params[q] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for q := range n.params {
			if !n.paramOK(q) {
				delete(n.params, q)
				changed = true
			}
		}
		for k := range n.fields {
			if !check(fst[k]) {
				delete(n.fields, k)
				changed = true
			}
		}
		for k := range n.mono {
			if !check(fst[k]) {
				delete(n.mono, k)
				changed = true
			}
		}
		for k := range n.elems {
			if !check(est[k]) {
				delete(n.elems, k)
				changed = true
			}
		}
		for g := range n.globs {
			if !check(gst[g]) {
				delete(n.globs, g)
				changed = true
			}
		}
		for a := range n.cells {
			if !check(cst[a]) || !n.storedFirst(a, cst[a]) {
				delete(n.cells, a)
				changed = true
			}
		}
		for k := range n.boxed {
			if n.boxed[k] && !check(box[k]) {
				n.boxed[k] = false
				changed = true
			}
		}
	}
	if os.Getenv("GGNIL") != "" {
		for k := range fst {
			fmt.Println("field", k, init[k], n.fields[k])
		}
		for k := range est {
			fmt.Println("elem", k, n.elems[k])
		}
		for k := range box {
			if !n.boxed[k] {
				fmt.Println("boxed maybe nil", k)
			}
		}
	}
}

func (n *nilEng) callers(f *ssa.Function) (out []ssa.CallInstruction) {
	for _, c := range n.p.Callers(f) {
		if p := c.Parent(); n.scope[p] || !n.p.isRepoFunc(p) || p.Synthetic != "" {
			out = append(out, c)
		}
	}
	return
}

// paramOK: every call passes a non-nil argument for q.
func (n *nilEng) paramOK(q *ssa.Parameter) bool {
	f := q.Parent()
	for _, c := range n.callers(f) {
		cf := n.e.frame(nil, nil, c.Parent())
		fr := n.e.frame(cf, c, f)
		a := argFor(fr, q)
		if a == nil {
			// called through an interface or a method value
			if !n.dynReceiver(fr, q) {
				return false
			}
			continue
		}
		if ok, _, _ := n.discharge(nilUse{c.Parent(), c, a, "argument"}, 3); !ok {
			return false
		}
	}
	return true
}

// dynReceiver: a receiver supplied through an interface or a method value.
func (n *nilEng) dynReceiver(fr *Frame, x *ssa.Parameter) bool {
	if fr.site == nil || len(fr.fn.Params) == 0 || fr.fn.Params[0] != x || fr.fn.Signature.Recv() == nil {
		return false
	}
	if fr.site.Common().IsInvoke() {
		return n.receiverBoxed(x.Type())
	}
	return n.boxed["bound:"+typeKey(x.Type())]
}

// filled: an array literal that sets every element.
func filled(a *ssa.Alloc, ln int64) bool {
	idx := map[int64]bool{}
	for _, r := range *a.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			if c, ok := ia.Index.(*ssa.Const); ok {
				v, _ := constInt(c)
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && st.Block() == a.Block() {
						idx[v] = true
					}
				}
			}
		}
	}
	return int64(len(idx)) == ln
}

// cellOf: the variable a free variable captures.
func cellOf(fv *ssa.FreeVar) *ssa.Alloc {
	fn := fv.Parent()
	i := -1
	for j, x := range fn.FreeVars {
		if x == fv {
			i = j
		}
	}
	var cell *ssa.Alloc
	if fn.Parent() == nil || i < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			var c *ssa.Alloc
			switch y := mc.Bindings[i].(type) {
			case *ssa.Alloc:
				c = y
			case *ssa.FreeVar:
				c = cellOf(y)
			}
			if c == nil || cell != nil && cell != c {
				return nil
			}
			cell = c
		}
	}
	return cell
}

// storedFirst: a store precedes everything else that can read the variable.
func (n *nilEng) storedFirst(a *ssa.Alloc, ss []nilStore) bool {
	for _, s := range ss {
		if s.in.Parent() != a.Parent() {
			continue
		}
		ok := true
		for _, r := range *a.Referrers() {
			in, isIn := r.(ssa.Instruction)
			if !isIn || in == s.in {
				continue
			}
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			if !before(s.in, in) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// before: a dominates b.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, x := range a.Block().Instrs {
		if x == a {
			return true
		}
		if x == b {
			return false
		}
	}
	return false
}

func (n *nilEng) syncKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return classOf(x).class
	case *ssa.Global:
		return "G:" + x.String()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + n.syncKey(x.X)
		}
	case *ssa.Alloc, *ssa.FreeVar:
		return "A:" + valName(x.(ssa.Value))
	}
	return "?" + valName(v)
}

// initialised: fields of structs that every allocation sets before the object
// can be seen by anyone else. A struct held by value inside another one is
// allocated with it.
func (n *nilEng) initialised() map[string]bool {
	alloc := map[string]int{}
	set := map[string]int{}
	bad := map[string]bool{}         // types with zero values around
	holders := map[string][]string{} // type -> fields that hold it by value
	seen := map[string]bool{}
	seenT := map[string]*types.Struct{}
	var zero func(t types.Type)
	zero = func(t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			bad[typeKey(t)] = true
			for i := 0; i < u.NumFields(); i++ {
				zero(u.Field(i).Type())
			}
		case *types.Array:
			zero(u.Elem())
		}
	}
	var decl func(t types.Type)
	decl = func(t types.Type) {
		u, ok := t.Underlying().(*types.Struct)
		if !ok || seen[typeKey(t)] {
			return
		}
		seen[typeKey(t)] = true
		seenT[typeKey(t)] = u
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch w := ft.Underlying().(type) {
			case *types.Struct:
				holders[typeKey(ft)] = append(holders[typeKey(ft)], typeKey(t)+"."+strconv.Itoa(i))
				decl(ft)
			case *types.Array:
				zero(w.Elem())
			}
		}
	}
	var count func(a *ssa.Alloc, t types.Type, done map[int]bool, whole bool, sub map[int]map[int]bool)
	count = func(a *ssa.Alloc, t types.Type, done map[int]bool, whole bool, sub map[int]map[int]bool) {
		s := t.Underlying().(*types.Struct)
		alloc[typeKey(t)]++
		decl(t)
		for i := 0; i < s.NumFields(); i++ {
			if done[i] || whole || sub[i] != nil {
				set[typeKey(t)+"."+strconv.Itoa(i)]++
			} else {
				k := "F:" + typeKey(t) + "." + strconv.Itoa(i)
				n.bare[k] = append(n.bare[k], a)
			}
			if m := sub[i]; m != nil && !done[i] && !whole {
				count(nil, s.Field(i).Type(), m, false, nil)
			}
		}
	}
	for _, p := range n.p.Pkgs {
		sc := p.Types.Scope()
		for _, name := range sc.Names() {
			switch o := sc.Lookup(name).(type) {
			case *types.TypeName:
				decl(o.Type())
			case *types.Var:
				zero(o.Type())
			}
		}
	}
	for _, f := range n.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value == nil {
						zero(c.Type())
					}
				}
				switch x := in.(type) {
				case *ssa.MakeSlice:
					if c, ok := x.Len.(*ssa.Const); ok {
						if v, ok := constInt(c); ok && v == 0 {
							continue
						}
					}
					zero(x.Type().Underlying().(*types.Slice).Elem())
				case *ssa.Lookup:
					if x.CommaOk {
						zero(x.Type().(*types.Tuple).At(0).Type())
					} else {
						zero(x.Type())
					}
				case *ssa.Alloc:
					t := derefType(x.Type())
					switch u := t.Underlying().(type) {
					case *types.Array:
						if !filled(x, u.Len()) {
							zero(u.Elem())
						}
					case *types.Struct:
						done, whole, sub := n.initialStores(x)
						count(x, t, done, whole, sub)
					}
				}
			}
		}
	}
	for t := range bad {
		if ty := seenT[t]; ty != nil {
			for i := 0; i < ty.NumFields(); i++ {
				k := "F:" + t + "." + strconv.Itoa(i)
				n.bare[k] = append(n.bare[k], nil)
			}
		}
	}
	for t, hs := range holders {
		// held by value: the holder must have been given a value
		for _, h := range hs {
			if len(n.bare["F:"+h]) > 0 {
				for i := 0; i < seenT[t].NumFields(); i++ {
					k := "F:" + t + "." + strconv.Itoa(i)
					n.bare[k] = append(n.bare[k], n.bare["F:"+h]...)
				}
			}
		}
	}
	out := map[string]bool{}
	for k, c := range set {
		t := k[:strings.LastIndex(k, ".")]
		if alloc[t] == c && !bad[t] {
			out[k] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for k := range out {
			t := k[:strings.LastIndex(k, ".")]
			for _, h := range holders[t] {
				ht := h[:strings.LastIndex(h, ".")]
				if alloc[ht] == 0 && len(holders[ht]) == 0 && !bad[ht] {
					continue // the holder is never made
				}
				if !out[h] {
					delete(out, k)
					changed = true
					break
				}
			}
		}
	}
	r := map[string]bool{}
	for k := range out {
		r["F:"+k] = true
	}
	return r
}

// initialStores: the fields set in the allocating block before the new object
// is used for anything else (sub: fields of structs held by value).
func (n *nilEng) initialStores(a *ssa.Alloc) (done map[int]bool, whole bool, sub map[int]map[int]bool) {
	done = map[int]bool{}
	sub = map[int]map[int]bool{}
	whole = n.firstStores(a, a.Block(), done, sub, 0)
	return
}

// firstStores scans block b for the stores into the object v points to, from
// its definition to the first other use.
func (n *nilEng) firstStores(v ssa.Value, b *ssa.BasicBlock, done map[int]bool, sub map[int]map[int]bool, d int) (whole bool) {
	type path struct{ i, j int }
	mine := map[ssa.Value]path{}
	boxed := map[ssa.Value]bool{}
	started := false
	if _, ok := v.(*ssa.Parameter); ok {
		started = true
	}
	for _, in := range b.Instrs {
		if iv, ok := in.(ssa.Value); ok && iv == v {
			started = true
			continue
		}
		if !started {
			continue
		}
		switch x := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.FieldAddr:
			if x.X == v {
				mine[x] = path{x.Field, -1}
				continue
			}
			if p, ok := mine[x.X]; ok && p.j < 0 {
				mine[x] = path{p.i, x.Field}
				continue
			}
		case *ssa.Store:
			if p, ok := mine[x.Addr]; ok && x.Val != v {
				if p.j < 0 {
					done[p.i] = true
				} else {
					if sub[p.i] == nil {
						sub[p.i] = map[int]bool{}
					}
					sub[p.i][p.j] = true
				}
				continue
			}
			if x.Addr == v {
				whole = true
				continue
			}
		case *ssa.UnOp:
			continue // a load
		case *ssa.MakeInterface:
			if _, ok := mine[x.X]; ok {
				boxed[x] = true // &x.mu as a sync.Locker
				continue
			}
		case ssa.CallInstruction:
			com := x.Common()
			f := com.StaticCallee()
			if f != nil && f.Blocks == nil && !com.IsInvoke() {
				self := false
				for _, arg := range com.Args {
					if arg == v {
						self = true
					}
				}
				if !self {
					continue // library code cannot reach the rest of the object
				}
			}
			if _, isCall := in.(*ssa.Call); isCall && d < 2 && f != nil && f.Blocks != nil && n.p.isRepoFunc(f) && len(com.Args) > 0 && len(f.Params) == len(com.Args) {
				at := -1
				for i, arg := range com.Args {
					if _, ok := mine[arg]; ok || boxed[arg] {
						return
					}
					if arg == v {
						if at >= 0 {
							return
						}
						at = i
					}
				}
				if at >= 0 {
					// a method completes the object
					if n.firstStores(f.Params[at], f.Blocks[0], done, sub, d+1) {
						whole = true
					}
					return
				}
			}
		}
		for _, op := range in.Operands(nil) {
			if *op == v || boxed[*op] {
				return
			}
			if _, ok := mine[*op]; ok {
				return
			}
		}
	}
	return
}

// discharge: v is not nil (for an assertion: succeeds) whenever the use executes.
func (n *nilEng) discharge(u nilUse, up int) (bool, string, string) {
	return n.dischargeIn(u, n.e.frame(nil, nil, u.fn), up, "")
}

func (n *nilEng) dischargeIn(u nilUse, fr *Frame, up int, trail string) (bool, string, string) {
	e := n.e
	st := e.factsAt(fr, u.in.Block())
	n.blockFacts(fr, u.in, st)
	if st.dead {
		return true, "", ""
	}
	switch u.kind {
	case "type assertion":
		ta := u.v.(*ssa.TypeAssert)
		if n.asserts(st, fr, ta.X, ta.AssertedType, 0) {
			return true, "", ""
		}
	case "panic":
	default:
		if n.nonNil(st, fr, u.v, 0) {
			return true, "", ""
		}
		m := st.clone()
		n.assumeNil(fr, u.v, m)
		if e.prove(m, cst(-1), 8) {
			return true, "", ""
		}
	}
	if u.kind == "panic" && e.prove(st, cst(-1), 8) {
		return true, "", ""
	}
	root := fr
	for root.parent != nil {
		root = root.parent
	}
	callers := n.callers(root.fn)
	// only what comes from outside can depend on the caller
	if up == 0 || len(callers) == 0 {
		if len(callers) == 0 && n.rootParam(root, fr, u.v) {
			return true, "", "" // an argument supplied by the caller of an exported entry point
		}
		return false, trail, ""
	}
	for _, c := range callers {
		if e.inChain(fr, c.Parent()) {
			return false, trail + " <- recursive caller " + fname(c.Parent()), ""
		}
		nf := e.reroot(fr, e.frame(nil, nil, c.Parent()), c)
		if ok, t, _ := n.dischargeIn(u, nf, up-1, trail+" <- "+fname(c.Parent())+" ("+e.p.posOf(c)+")"); !ok {
			return false, t, ""
		}
	}
	return true, "", ""
}

// blockFacts: what the instructions before in, in its own block and the blocks
// that dominate it, established by not crashing.
func (n *nilEng) blockFacts(fr *Frame, in ssa.Instruction, st *State) {
	mark := func(v ssa.Value) {
		if !alwaysRef(v) {
			k := n.e.refKey(fr, v)
			if w, ok := st.nonnil[k]; ok && !w {
				st.dead = true
			}
			st.nonnil[k] = true
		}
	}
	scan := func(b *ssa.BasicBlock, stop ssa.Instruction) {
		for _, x := range b.Instrs {
			if x == stop {
				return
			}
			switch y := x.(type) {
			case *ssa.FieldAddr:
				mark(y.X)
			case *ssa.UnOp:
				if y.Op == token.MUL {
					mark(y.X)
				}
			case *ssa.Store:
				mark(y.Addr)
			case *ssa.Call:
				if y.Call.IsInvoke() {
					mark(y.Call.Value)
				}
				n.e.survived(fr, y, st)
			}
		}
	}
	scan(in.Block(), in)
	for d := in.Block().Idom(); d != nil; d = d.Idom() {
		scan(d, nil)
	}
}

// rootParam: v is a parameter of the outermost function.
func (n *nilEng) rootParam(root, fr *Frame, v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Parameter:
			if fr == root {
				return true
			}
			a := argFor(fr, x)
			if a == nil {
				return false
			}
			v, fr = a, fr.parent
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if li, ok := n.e.resolveLoad(fr, x.X, x); ok && li.val != nil && li.val != ssa.Value(x) {
					v, fr = li.val, li.valFr
					continue
				}
			}
		}
		return false
	}
}

// nonNil: structural proof that v is not nil.
func (n *nilEng) nonNil(st *State, fr *Frame, v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	e := n.e
	if alwaysRef(v) || e.nilness(fr, v, 0) > 0 {
		return true
	}
	if st != nil {
		if w, ok := st.nonnil[e.refKey(fr, v)]; ok && w {
			return true
		}
	}
	bk := fmt.Sprintf("%d|%s", fr.id, valName(v))
	if n.busy[bk] {
		_, phi := v.(*ssa.Phi)
		return phi // around a loop
	}
	n.busy[bk] = true
	defer delete(n.busy, bk)
	switch x := v.(type) {
	case *ssa.Parameter:
		if n.params[x] {
			return true
		}
		if fr.parent != nil {
			if a := argFor(fr, x); a != nil {
				ps := e.factsAt(fr.parent, fr.site.Block())
				n.blockFacts(fr.parent, fr.site, ps)
				return ps.dead || n.nonNil(ps, fr.parent, a, d+1)
			}
			return n.dynReceiver(fr, x)
		}
	case *ssa.FreeVar:
		return true // the address of a captured variable
	case *ssa.ChangeType:
		return n.nonNil(st, fr, x.X, d+1)
	case *ssa.ChangeInterface:
		return n.nonNil(st, fr, x.X, d+1)
	case *ssa.Phi:
		for i, ed := range x.Edges {
			ps := e.factsAt(fr, x.Block().Preds[i])
			e.edgeFacts(fr, x.Block().Preds[i], x.Block(), ps)
			if lb := lastInstr(x.Block().Preds[i]); lb != nil {
				n.blockFacts(fr, lb, ps)
			}
			if ps.dead {
				continue
			}
			if !n.nonNil(ps, fr, ed, d+1) {
				m := ps.clone()
				e.setNil(fr, ed, false, m, 0)
				if !e.prove(m, cst(-1), 4) {
					return false
				}
			}
		}
		return true
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return n.loadNonNil(st, fr, x, d)
		case token.ARROW:
			if !x.CommaOk {
				return n.elems["C:"+typeKey(x.X.Type())]
			}
		}
	case *ssa.Field:
		_, t := structOf(x.X.Type())
		return n.fields["F:"+typeKey(t)+"."+strconv.Itoa(x.Field)]
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return n.assertedNonNil(st, fr, x, d)
		}
	case *ssa.Extract:
		return n.extractNonNil(st, fr, x, d)
	case *ssa.Lookup:
		return n.lookupNonNil(st, fr, x)
	case *ssa.Call:
		return n.callNonNil(st, fr, x, 0, d)
	}
	return false
}

// lookupNonNil: m[k] where k is known to be present.
func (n *nilEng) lookupNonNil(st *State, fr *Frame, x *ssa.Lookup) bool {
	e := n.e
	if isStr(x.X.Type()) || !n.elems[elemKey(x.X.Type())] {
		return false
	}
	mk := e.refKey(fr, x.X)
	same := func(v ssa.Value) bool { return e.refKey(fr, v) == mk }
	// k comes from ranging over the same map
	if ex, ok := x.Index.(*ssa.Extract); ok && ex.Index == 1 {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok && n.sameMap(fr, r.X, x.X) && !n.deleted[typeKey(x.X.Type())] {
				return true
			}
		}
	}
	if n.constKey(fr, x) {
		return true
	}
	ik := n.scalarKey(fr, x.Index)
	for f := fr; f != nil; f = f.parent {
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				y, ok := in.(*ssa.Lookup)
				if !ok || y == x || elemKey(y.X.Type()) != elemKey(x.X.Type()) {
					continue
				}
				if e.refKey(f, y.X) != mk && !(f == fr && same(y.X)) && !n.sameField(f, y.X, fr, x.X) || n.scalarKey(f, y.Index) != ik || n.deletedBetween(f, y, fr, x) {
					continue
				}
				if y.CommaOk {
					if n.okTrue(st, f, y) {
						return true
					}
				} else if st != nil && st.nonnil[e.refKey(f, y)] {
					return true
				}
			}
		}
	}
	return false
}

// deletedBetween: an entry of this kind of map may be removed between the two
// lookups.
func (n *nilEng) deletedBetween(fa *Frame, a *ssa.Lookup, fb *Frame, b *ssa.Lookup) bool {
	k := typeKey(a.X.Type())
	if !n.deleted[k] {
		return false
	}
	tok := func(f *Frame, x *ssa.Lookup) loadInfo {
		li := loadInfo{class: effect{class: "D:" + k, elem: "D:" + k}}
		return n.e.resolveTok(f, li, n.e.mods.tokenAt(f.fn, x, li.class, nil))
	}
	x, y := tok(fa, a), tok(fb, b)
	return x.tokFr != y.tokFr || x.tok != y.tok
}

// sameMap: two loads of one map field or variable.
func (n *nilEng) sameMap(fr *Frame, a, b ssa.Value) bool {
	return a == b || n.e.refKey(fr, a) == n.e.refKey(fr, b) || n.sameField(fr, a, fr, b)
}

// sameField: both are loads of the same field of the same object, and the
// field is only ever set while its object is built.
func (n *nilEng) sameField(fa *Frame, a ssa.Value, fb *Frame, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	if !ok1 || !ok2 || classOf(f).class != classOf(g).class {
		return false
	}
	for _, s := range n.fst[classOf(f).class] {
		st, ok := s.in.(*ssa.Store)
		if !ok {
			return false
		}
		if a, ok := st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); !ok || a.Block() != st.Block() {
			return false
		}
	}
	ka, ok1 := n.e.addrKey(fa, f)
	kb, ok2 := n.e.addrKey(fb, g)
	return ok1 && ok2 && ka == kb
}

// scalarKey names an integer or string value.
func (n *nilEng) scalarKey(fr *Frame, v ssa.Value) string {
	if isInt(v.Type()) {
		return n.e.lin(fr, v).key()
	}
	return n.e.refKey(fr, v)
}

// constKey: the map comes from a field whose every map is built with an entry
// for this constant key.
func (n *nilEng) constKey(fr *Frame, x *ssa.Lookup) bool {
	c, ok := x.Index.(*ssa.Const)
	if !ok || n.deleted[typeKey(x.X.Type())] {
		return false
	}
	ms, ok := n.built(x.X, 0)
	for _, m := range ms {
		if len(entries(m, c)) == 0 {
			return false
		}
	}
	return ok && len(ms) > 0
}

// entries: the values a map is built with for key c.
func entries(m ssa.Value, c *ssa.Const) (out []ssa.Value) {
	mm, ok := m.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	for _, r := range *mm.Referrers() {
		mu, ok := r.(*ssa.MapUpdate)
		if !ok || mu.Map != m || mu.Block() != mm.Block() {
			continue
		}
		if k, ok := mu.Key.(*ssa.Const); ok && k.Value != nil && c.Value != nil && k.Value.ExactString() == c.Value.ExactString() {
			out = append(out, mu.Value)
		}
	}
	return out
}

// built: the objects and maps v can be, when they all come from composite
// literals whose fields are not assigned later.
func (n *nilEng) built(v ssa.Value, d int) ([]ssa.Value, bool) {
	if d > 6 {
		return nil, false
	}
	all := func(vs []ssa.Value) (out []ssa.Value, ok bool) {
		for _, x := range vs {
			o, ok := n.built(x, d+1)
			if !ok {
				return nil, false
			}
			out = append(out, o...)
		}
		return out, len(out) > 0
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap:
		return []ssa.Value{x.(ssa.Value)}, true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || f.Blocks == nil || f.Signature.Results().Len() != 1 {
			return nil, false
		}
		var vs []ssa.Value
		for _, b := range f.Blocks {
			if r, ok := lastInstr(b).(*ssa.Return); ok {
				vs = append(vs, r.Results[0])
			}
		}
		return all(vs)
	case *ssa.Lookup:
		c, ok := x.Index.(*ssa.Const)
		if !ok || x.CommaOk {
			return nil, false
		}
		ms, ok := n.built(x.X, d+1)
		if !ok {
			return nil, false
		}
		// nothing else may be put into such maps
		for _, s := range n.est[elemKey(x.X.Type())] {
			mu, ok := s.in.(*ssa.MapUpdate)
			if !ok {
				return nil, false
			}
			if mm, ok := mu.Map.(*ssa.MakeMap); !ok || mm.Block() != mu.Block() {
				return nil, false
			}
		}
		var vs []ssa.Value
		for _, m := range ms {
			es := entries(m, c)
			if len(es) == 0 {
				return nil, false
			}
			vs = append(vs, es...)
		}
		return all(vs)
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return nil, false
		}
		k := classOf(fa).class
		if !n.fields[k] {
			return nil, false
		}
		var vs []ssa.Value
		for _, s := range n.fst[k] {
			vs = append(vs, s.val)
		}
		return all(vs)
	}
	return nil, false
}

func isBroadcast(com *ssa.CallCommon, name string) bool {
	f := com.StaticCallee()
	return f != nil && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "Athena/broadcast") && f.Name() == name && f.Signature.Recv() != nil
}

// A cell is a field of the object base points to in frame bfr.
type cell struct {
	loadInfo
	base  ssa.Value
	bfr   *Frame
	field int
}

// pair: the cell of another field of the same object.
func (n *nilEng) pair(c cell, class string) (cell, bool) {
	i := strings.LastIndex(class, ".")
	f, err := strconv.Atoi(class[i+1:])
	k := strings.LastIndex(c.key, ".")
	if i < 0 || err != nil || k < 0 || c.key[k+1:] != strconv.Itoa(c.field) {
		return c, false
	}
	s, _ := structOf(c.base.Type())
	if s == nil || f >= s.NumFields() {
		return c, false
	}
	c.field = f
	c.key = c.key[:k+1] + strconv.Itoa(f)
	c.typ = s.Field(f).Type()
	c.class.class = class
	c.class.elem = typeKey(s.Field(f).Type())
	c.val, c.valFr = nil, nil
	return c, true
}

// established: the field was set by an earlier call on the same object that
// returned without failing.
func (n *nilEng) established(st *State, fr *Frame, cl cell, li loadInfo, d int) bool {
	e := n.e
	c, ok := li.tok.in.(*ssa.Call)
	if !ok || d > 12 {
		return false
	}
	at := li.tokFr
	// the object, as the caller of the earlier method sees it
	base, bf := cl.base, cl.bfr
	for bf != at {
		p, ok := base.(*ssa.Parameter)
		if !ok || bf.parent == nil || bf.site == nil {
			return false
		}
		com := bf.site.Common()
		if com.IsInvoke() && len(bf.fn.Params) > 0 && bf.fn.Params[0] == p {
			base = com.Value
		} else if a := argFor(bf, p); a != nil {
			base = a
		} else {
			return false
		}
		bf = bf.parent
	}
	com := c.Common()
	same := func(v ssa.Value) bool { return v == base || e.refKey(at, v) == e.refKey(at, base) }
	arg := -1 // which argument the object is
	if com.IsInvoke() {
		if same(com.Value) {
			arg = 0
		}
	} else if com.StaticCallee() != nil {
		for i, a := range com.Args {
			if arg < 0 && types.Identical(a.Type(), cl.base.Type()) && same(a) {
				arg = i
			}
		}
	}
	if arg < 0 {
		return false
	}
	for _, g := range e.p.Callees(c) {
		if com.IsInvoke() && (g.Signature.Recv() == nil || !types.Identical(g.Signature.Recv().Type(), cl.base.Type())) {
			continue
		}
		if arg >= len(g.Params) {
			return false
		}
		if g.Blocks == nil || e.inChain(at, g) {
			return false
		}
		cf := e.frame(at, c, g)
		key := e.refKey(cf, g.Params[arg])
		for _, b := range g.Blocks {
			ret, ok := lastInstr(b).(*ssa.Return)
			if !ok || b == g.Recover {
				continue
			}
			s := e.factsAt(cf, b)
			n.blockFacts(cf, ret, s)
			if st != nil && !inCycle(c.Block()) {
				s.and(st)
			}
			if s.dead || n.excluded(st, at, c, s, cf, ret) {
				continue
			}
			l2 := cell{base: g.Params[arg], bfr: cf, field: cl.field}
			l2.loadInfo = loadInfo{key: "*" + key + "." + strconv.Itoa(cl.field), class: cl.class, typ: cl.typ}
			if strings.HasPrefix(key, "&") {
				l2.key = key[1:] + "." + strconv.Itoa(cl.field)
			}
			if !n.cellNonNil(s, cf, l2, func(cl effect, ra *ssa.Alloc) memTok { return e.mods.tokenAt(g, ret, cl, ra) }, d+1, map[*ssa.BasicBlock]bool{}, true) {
				return false
			}
		}
		return true
	}
	return false
}

// cellNonNil: the memory cell holds a non-nil value at point pt of frame fr.
func (n *nilEng) cellNonNil(st *State, fr *Frame, li cell, pt func(effect, *ssa.Alloc) memTok, d int, seen map[*ssa.BasicBlock]bool, pairs bool) bool {
	e := n.e
	if d > 20 {
		return false
	}
	l := e.resolveTok(fr, li.loadInfo, pt(li.class, li.ra))
	if l.val != nil {
		if n.nonNil(st, l.valFr, l.val, d+1) {
			return true
		}
		m := st.clone()
		e.setNil(l.valFr, l.val, false, m, 0)
		return e.prove(m, cst(-1), 4)
	}
	if st != nil && st.nonnil[l.name()] {
		return true
	}
	if l.tok.merge != nil {
		m, mf := l.tok.merge, l.tokFr
		if seen[m] {
			return true
		}
		seen[m] = true
		good := true
		up := li
		if mf != fr {
			up.ra, up.root = l.ra, l.root
		}
		for _, p := range m.Preds {
			p := p
			s := e.factsAt(mf, p)
			e.edgeFacts(mf, p, m, s)
			if st != nil && !inCycle(m) {
				s.and(st) // values do not change: what is known after the merge held before it
			}
			if s.dead {
				continue
			}
			if !n.cellNonNil(s, mf, up, func(cl effect, ra *ssa.Alloc) memTok { return e.mods.tokenEnd(mf.fn, p, cl, ra) }, d+1, seen, pairs) {
				good = false
				break
			}
		}
		if good {
			return true
		}
		delete(seen, m)
	}
	if n.established(st, fr, li, l, d) {
		return true
	}
	if pairs {
		for _, a := range n.pairs[li.class.class] {
			if c, ok := n.pair(li, a); ok && n.cellNonNil(st, fr, c, pt, d+1, map[*ssa.BasicBlock]bool{}, false) {
				return true
			}
		}
	}
	return false
}

// inferPairs: fields a, b of one struct such that b is set whenever a is (both
// are set, and cleared, together).
func (n *nilEng) inferPairs() {
	n.pairs = map[string][]string{}
	byT := map[string][]string{}
	for k := range n.fst {
		if i := strings.LastIndex(k, "."); i > 0 && !n.fields[k] {
			byT[k[:i]] = append(byT[k[:i]], k)
		}
	}
	together := func(x ssa.Instruction, base ssa.Value, other string, want func(ssa.Value, ssa.Instruction) bool) bool {
		// a store to the other field of the same object in the block, and
		// nothing between the two that could look at either
		b := x.Block()
		fr := n.e.frame(nil, nil, x.Parent())
		at, ot := -1, -1
		for i, in := range b.Instrs {
			if in == x {
				at = i
			}
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && classOf(fa).class == other && (fa.X == base || n.e.refKey(fr, fa.X) == n.e.refKey(fr, base)) && want(s.Val, s) {
					ot = i
				}
			}
		}
		if at < 0 || ot < 0 {
			return false
		}
		if at > ot {
			at, ot = ot, at
		}
		for _, in := range b.Instrs[at:ot] {
			if c, ok := in.(ssa.CallInstruction); ok {
				f := c.Common().StaticCallee()
				if f == nil || !n.plain(f, 3) {
					return false
				}
			}
		}
		return true
	}
	for _, ks := range byT {
		sort.Strings(ks)
		for _, a := range ks {
			for _, b := range ks {
				if a == b {
					continue
				}
				ok, some := true, false
				for _, s := range n.fst[a] {
					fa := s.in.(*ssa.Store).Addr.(*ssa.FieldAddr)
					if isNilConst(s.val) {
						continue
					}
					some = true
					if !together(s.in, fa.X, b, func(v ssa.Value, in ssa.Instruction) bool {
						if isNilConst(v) {
							return false
						}
						fr := n.e.frame(nil, nil, in.Parent())
						ps := n.e.factsAt(fr, in.Block())
						n.blockFacts(fr, in, ps)
						return n.nonNil(ps, fr, v, 0)
					}) {
						ok = false
						break
					}
				}
				for _, s := range n.fst[b] {
					if !ok || !isNilConst(s.val) {
						continue
					}
					fa := s.in.(*ssa.Store).Addr.(*ssa.FieldAddr)
					if !together(s.in, fa.X, a, func(v ssa.Value, in ssa.Instruction) bool { return isNilConst(v) }) {
						ok = false
					}
				}
				if ok && some {
					// other stores to b are of values
					for _, s := range n.fst[b] {
						if !isNilConst(s.val) {
							fr := n.e.frame(nil, nil, s.in.Parent())
							ps := n.e.factsAt(fr, s.in.Block())
							n.blockFacts(fr, s.in, ps)
							if !n.nonNil(ps, fr, s.val, 0) {
								ok = false
								break
							}
						}
					}
				}
				if ok && some {
					n.pairs[b] = append(n.pairs[b], a)
				}
			}
		}
	}
}

// plain: code that builds something out of its arguments (no loads from
// fields of existing objects, no calls through values).
func (n *nilEng) plain(f *ssa.Function, d int) bool {
	if f.Blocks == nil || !n.p.isRepoFunc(f) {
		return true // library code does not know this program's structs
	}
	if d == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					return false
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g == nil || !n.plain(g, d-1) {
					return false
				}
			}
		}
	}
	return true
}

// excluded: this return of the callee contradicts what is known about the
// results of call c in st.
func (n *nilEng) excluded(st *State, fr *Frame, c *ssa.Call, s *State, cf *Frame, ret *ssa.Return) bool {
	if st == nil {
		return false
	}
	e := n.e
	one := func(x ssa.Value, rv ssa.Value) bool {
		k := e.refKey(fr, x)
		if isBool(x.Type()) {
			if w, ok := st.nonnil["b:"+k]; ok {
				if cc, ok := rv.(*ssa.Const); ok && (cc.Value.String() == "true") != w {
					return true
				}
				k2 := "b:" + e.refKey(cf, rv)
				if w2, ok := s.nonnil[k2]; ok && w2 != w {
					return true
				}
				s.nonnil[k2] = w
			}
			return false
		}
		if w, ok := st.nonnil[k]; ok && refType(x.Type()) {
			if nn := e.nilness(cf, rv, 0); nn != 0 && (nn > 0) != w {
				return true
			}
			if w2, ok := s.nonnil[e.refKey(cf, rv)]; ok && w2 != w {
				return true
			}
			if !w {
				// the result is nil here
				e.setNil(cf, rv, false, s, 0)
				return s.dead
			}
		}
		return false
	}
	if len(ret.Results) == 1 {
		return one(c, ret.Results[0])
	}
	for _, r := range *c.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index < len(ret.Results) && one(x, ret.Results[x.Index]) {
			return true
		}
	}
	return false
}

// receiverBoxed: a method with this receiver is called through an interface.
// The receiver is what was boxed, or what the boxed struct embeds.
func (n *nilEng) receiverBoxed(t types.Type) bool {
	k := typeKey(t)
	if ok, known := n.boxed[k]; known && !ok {
		return false
	}
	for _, f := range n.embeds[k] {
		if !n.fields[f] {
			return false
		}
	}
	return n.boxed[k] || len(n.embeds[k]) > 0 || n.byValue[k]
}

func (n *nilEng) okTrue(st *State, fr *Frame, tuple ssa.Value) bool {
	if st == nil {
		return false
	}
	for _, r := range *tuple.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && isBool(x.Type()) {
			if w, ok := st.nonnil["b:"+n.e.refKey(fr, x)]; ok && w {
				return true
			}
		}
	}
	return false
}

func (n *nilEng) extractNonNil(st *State, fr *Frame, x *ssa.Extract, d int) bool {
	switch t := x.Tuple.(type) {
	case *ssa.TypeAssert:
		return n.okTrue(st, fr, t) && n.assertedNonNil(st, fr, t, d) || n.tagAssert(fr, t)
	case *ssa.Lookup:
		return n.okTrue(st, fr, t) && n.elems[elemKey(t.X.Type())]
	case *ssa.UnOp: // v, ok := <-ch
		return n.okTrue(st, fr, t) && n.elems["C:"+typeKey(t.X.Type())]
	case *ssa.Next:
		if r, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
			return n.elems[elemKey(r.X.Type())]
		}
	case *ssa.Call:
		return n.callNonNil(st, fr, t, x.Index, d)
	}
	return false
}

// tagAssert: an FLV tag is of the concrete type that its TagType, compared on
// the way here, says (assumed, see nilAssumptions).
func (n *nilEng) tagAssert(fr *Frame, t *ssa.TypeAssert) bool {
	if !strings.HasSuffix(t.X.Type().String(), "libflv.Tag") {
		return false
	}
	want := map[string]int64{"AudioTag": 8, "VideoTag": 9, "MetaTag": 18}[typeName(t.AssertedType)]
	for b := t.Block(); b != nil && want != 0; {
		for d := b; d != nil; d = d.Idom() {
			if len(d.Preds) != 1 {
				continue
			}
			p := d.Preds[0]
			iff, ok := lastInstr(p).(*ssa.If)
			if !ok || p.Succs[0] == p.Succs[1] {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) || (bo.Op == token.EQL) != (p.Succs[0] == d) {
				continue
			}
			for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				c, ok := xy[1].(*ssa.Const)
				if !ok {
					continue
				}
				if k, ok := constInt(c); ok && k == want && isTagType(xy[0]) {
					return true
				}
			}
		}
		b = nil
		if fr.parent != nil && fr.site != nil {
			b, fr = fr.site.Block(), fr.parent
		}
	}
	return false
}

func typeName(t types.Type) string {
	if nm, ok := derefType(t).(*types.Named); ok {
		return nm.Obj().Name()
	}
	return ""
}

func isTagType(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			s, _ := structOf(fa.X.Type())
			return s != nil && s.Field(fa.Field).Name() == "TagType"
		}
	case *ssa.Field:
		s, _ := x.X.Type().Underlying().(*types.Struct)
		return s != nil && s.Field(x.Field).Name() == "TagType"
	}
	return false
}

// assumedSet: fields that the program's event order keeps set where they are
// used, which this analysis cannot derive.
var assumedSet = []struct{ owner, typ, why string }{
	{"librtmp.srtBridge", "*librtmp.Room", "the demuxer calls the bridge back only from Feed (shown: the room is set at each call of Feed, and nothing under Feed clears it)"},
	{"librtmp.rtspSession", "*librtsp.RTPPacker", "a track whose channel number is not negative was prepared by SETUP (shown: the channel is known not to be negative where packets are made)"},
	{"librtmp.MessageBase", "libamf.AMF", "a data message is parsed only with its AMF codec chosen from its type"},
}

func assumedField(a *ssa.FieldAddr) string {
	_, t := structOf(a.X.Type())
	for _, x := range assumedSet {
		if strings.HasSuffix(t.String(), "/"+x.owner) {
			ft := derefType(a.Type()).String()
			if i := strings.LastIndex(ft, "/"); i >= 0 {
				star := ""
				if ft[0] == '*' {
					star = "*"
				}
				ft = star + ft[i+1:]
			}
			if ft == x.typ {
				return x.owner
			}
		}
	}
	return ""
}

// assumed: the field is set by assumption, and what the assumption rests on
// holds here.
func (n *nilEng) assumed(st *State, fr *Frame, a *ssa.FieldAddr) bool {
	switch assumedField(a) {
	case "":
		return false
	case "librtmp.rtspSession":
		// an integer field set along with it is known not to be negative
		k := classOf(a).class
		sib := map[int]bool{}
		for _, s := range n.fst[k] {
			for _, in := range s.in.Block().Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type(), a.X.Type()) {
						if b, ok := st.Val.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
							sib[fa.Field] = true
						}
					}
				}
			}
		}
		key, ok := n.e.addrKey(fr, a)
		i := strings.LastIndex(key, ".")
		if !ok || i < 0 || st == nil {
			return false
		}
		for f := range sib {
			g := key[:i+1] + strconv.Itoa(f)
			for id := len(n.e.info) - 1; id >= 0; id-- {
				if ai := n.e.info[id]; ai.mem != nil && ai.mem.key == g && n.e.prove(st.clone(), atomLin(id), 4) {
					return true
				}
			}
		}
		return false
	}
	return true
}

// basis: what the assumption about srtBridge.room rests on: obligations at the
// calls of Feed, and at stores that clear the field.
func (n *nilEng) basis(report func(in ssa.Instruction, what string), count func()) {
	e := n.e
	var feeds []*ssa.Function
	for _, f := range n.funcs {
		if f.Name() == "Feed" && f.Signature.Recv() != nil && strings.HasSuffix(f.Signature.Recv().Type().String(), "libsrt.Demuxer") {
			feeds = append(feeds, f)
		}
	}
	under := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if under[f] || !n.p.isRepoFunc(f) {
			return
		}
		under[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range n.p.Callees(c) {
						walk(g)
					}
				}
			}
		}
	}
	for _, f := range feeds {
		walk(f)
	}
	for k, ss := range n.fst {
		for _, s := range ss {
			fa := s.in.(*ssa.Store).Addr.(*ssa.FieldAddr)
			if assumedField(fa) != "librtmp.srtBridge" {
				continue
			}
			count()
			if under[s.in.Parent()] && isNilConst(s.val) {
				report(s.in, "the room of the bridge is cleared while its transport stream is being demultiplexed")
			}
		}
		_ = k
	}
	for _, fd := range feeds {
		for _, c := range n.callers(fd) {
			fn := c.Parent()
			for fn.Parent() != nil {
				fn = fn.Parent()
			}
			call, isCall := c.(*ssa.Call)
			if len(fn.Params) == 0 || fn.Signature.Recv() == nil || !isCall || call.Parent() != fn {
				continue
			}
			s, t := structOf(fn.Params[0].Type())
			if s == nil || !strings.HasSuffix(t.String(), "/librtmp.srtBridge") {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if !strings.HasSuffix(s.Field(i).Type().String(), "librtmp.Room") {
					continue
				}
				count()
				fr := e.frame(nil, nil, fn)
				key := e.refKey(fr, fn.Params[0])
				cl := cell{base: fn.Params[0], bfr: fr, field: i}
				k := "F:" + typeKey(t) + "." + strconv.Itoa(i)
				cl.loadInfo = loadInfo{key: "*" + key + "." + strconv.Itoa(i), class: effect{class: k, elem: typeKey(s.Field(i).Type())}, typ: s.Field(i).Type()}
				st := e.factsAt(fr, c.Block())
				n.blockFacts(fr, c, st)
				if !st.dead && !n.cellNonNil(st, fr, cl, func(cl effect, ra *ssa.Alloc) memTok { return e.mods.tokenAt(fn, c, cl, ra) }, 0, map[*ssa.BasicBlock]bool{}, true) {
					report(c, "the transport stream is demultiplexed without a room")
				}
			}
		}
	}
}

// assertedNonNil: the concrete pointer found in an interface is not nil.
func (n *nilEng) assertedNonNil(st *State, fr *Frame, x *ssa.TypeAssert, d int) bool {
	if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		return true // the dynamic value exists
	}
	if pt, ok := x.AssertedType.Underlying().(*types.Pointer); ok {
		if pk := namedPkg(pt.Elem()); pk != nil && !n.p.Repo[pk] {
			return true // library interfaces do not hold nil pointers
		}
		return n.boxed[typeKey(x.AssertedType)]
	}
	return false
}

func (n *nilEng) loadNonNil(st *State, fr *Frame, x *ssa.UnOp, d int) bool {
	e := n.e
	if li, ok := e.resolveLoad(fr, x.X, x); ok && li.val != nil && li.val != ssa.Value(x) {
		if n.nonNil(st, li.valFr, li.val, d+1) {
			return true
		}
		// at the point of the store
		if vi, ok := li.val.(ssa.Instruction); ok && vi.Parent() == li.valFr.fn {
			if li.tok.in != nil && li.tokFr.fn == li.tok.in.Parent() {
				ps := e.factsAt(li.tokFr, li.tok.in.Block())
				n.blockFacts(li.tokFr, li.tok.in, ps)
				if n.nonNil(ps, li.valFr, li.val, d+1) {
					return true
				}
			}
		}
		return false
	}
	switch a := x.X.(type) {
	case *ssa.FieldAddr:
		_, t := structOf(a.X.Type())
		if o := namedPkg(t); o != nil && !n.p.Repo[o] {
			return externalField(typeKey(t), a.Field, t)
		}
		k := classOf(a).class
		if n.fields[k] || n.assumed(st, fr, a) {
			return true
		}
		if li, ok := e.resolveLoad(fr, x.X, x); ok {
			if n.mono[k] && st != nil {
				for f, w := range st.nonnil {
					if w && strings.HasPrefix(f, "m:"+li.key+"@") {
						return true // seen earlier, and never cleared
					}
				}
			}
			if n.goodObject(a) {
				return true
			}
			if n.cellNonNil(st, fr, cell{li, a.X, fr, a.Field}, func(cl effect, ra *ssa.Alloc) memTok { return e.mods.tokenAt(fr.fn, x, cl, ra) }, d+1, map[*ssa.BasicBlock]bool{}, true) {
				return true
			}
		}
		return false
	case *ssa.IndexAddr:
		return n.elems[elemKey(a.X.Type())]
	case *ssa.Global:
		if a.Pkg != nil && !n.p.Repo[a.Pkg.Pkg] {
			return true
		}
		return n.globs[a]
	case *ssa.FreeVar:
		if c := cellOf(a); c != nil {
			return n.cells[c]
		}
	case *ssa.Alloc:
		return n.cells[a]
	}
	return false
}

func namedPkg(t types.Type) *types.Package {
	if nm, ok := t.(*types.Named); ok {
		return nm.Obj().Pkg()
	}
	return nil
}

// externalField: fields of standard-library structures that are documented to
// be set where this program gets them.
func externalField(t string, i int, ty types.Type) bool {
	s := ty.Underlying().(*types.Struct)
	switch t + "." + s.Field(i).Name() {
	case "net/http.Request.URL", "net/http.Request.Header", "net/http.Request.Body", "net/http.Response.Body", "bufio.ReadWriter.Reader", "bufio.ReadWriter.Writer":
		return true
	}
	return false
}

func (n *nilEng) callNonNil(st *State, fr *Frame, c *ssa.Call, idx, d int) bool {
	e := n.e
	com := c.Common()
	callees := e.p.Callees(c)
	if f := com.StaticCallee(); f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "sync" || f.Pkg.Pkg.Path() == "sync/atomic") && len(com.Args) > 0 {
		s := n.syncs[n.syncKey(com.Args[0])]
		switch f.Name() {
		case "Load", "LoadAndDelete":
			if idx == 0 && com.Signature().Results().Len() == 2 && n.okTrue(st, fr, c) {
				return n.syncNonNil(s, d)
			}
			return false
		case "LoadOrStore":
			return idx == 0 && n.syncNonNil(s, d)
		case "Get", "Swap", "LoadPointer":
			return false
		}
	}
	body := false
	for _, g := range callees {
		if g.Blocks != nil && n.p.isRepoFunc(g) {
			body = true
		}
	}
	if !body {
		res := com.Signature().Results()
		if res.Len() > 1 {
			// (T, error): T is usable when the error is nil
			last := res.At(res.Len() - 1).Type()
			if types.Implements(last, errorIface) && idx != res.Len()-1 {
				for _, r := range *c.Referrers() {
					if x, ok := r.(*ssa.Extract); ok && x.Index == res.Len()-1 && st != nil {
						if w, ok := st.nonnil[e.refKey(fr, x)]; ok && !w {
							return true
						}
					}
				}
				return false
			}
			if isBool(last) {
				return n.okTrue(st, fr, c)
			}
			return idx != res.Len()-1
		}
		if res.Len() == 1 && types.Implements(res.At(0).Type(), errorIface) {
			return false
		}
		return !externalNil(com)
	}
	// every callee returns something usable on every return consistent with what is known
	if fr.depth > 6 {
		return false
	}
	for _, g := range callees {
		if g.Blocks == nil || e.inChain(fr, g) {
			return false
		}
		cf := e.frame(fr, c, g)
		for _, b := range g.Blocks {
			ret, ok := lastInstr(b).(*ssa.Return)
			if !ok || b == g.Recover {
				continue
			}
			s := e.factsAt(cf, b)
			n.blockFacts(cf, ret, s)
			if s.dead {
				continue
			}
			if n.excluded(st, fr, c, s, cf, ret) || idx >= len(ret.Results) {
				continue
			}
			if n.nonNil(s, cf, ret.Results[idx], d+1) {
				continue
			}
			m := s.clone()
			e.setNil(cf, ret.Results[idx], false, m, 0)
			if !e.prove(m, cst(-1), 4) {
				return false
			}
		}
	}
	return len(callees) > 0
}

func (n *nilEng) syncNonNil(s *syncClass, d int) bool {
	if s == nil || len(s.vals) == 0 {
		return false
	}
	for _, v := range s.vals {
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		ps := n.e.factsAt(n.e.frame(nil, nil, in.Parent()), in.Block())
		if !n.nonNil(ps, n.e.frame(nil, nil, in.Parent()), v, d+1) {
			return false
		}
	}
	return true
}

// externalNil: library calls whose single result may be nil.
func externalNil(com *ssa.CallCommon) bool {
	name, _ := calleeName(com)
	if com.IsInvoke() {
		return name == "Value"
	}
	if f := com.StaticCallee(); f != nil && f.Pkg != nil {
		switch f.Pkg.Pkg.Path() + "." + name {
		case "net.ParseIP", "sync.Get", "flag.Lookup", "sync/atomic.Load":
			return true
		}
	}
	return false
}

// asserts: the dynamic type of v is t.
func (n *nilEng) asserts(st *State, fr *Frame, v ssa.Value, t types.Type, d int) bool {
	if d > 8 {
		return false
	}
	e := n.e
	okT := func(c types.Type) bool {
		if i, ok := t.Underlying().(*types.Interface); ok {
			return types.Implements(c, i)
		}
		return types.Identical(c, t)
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return okT(x.X.Type())
	case *ssa.ChangeInterface:
		return n.asserts(st, fr, x.X, t, d+1)
	case *ssa.Parameter:
		if fr.parent != nil {
			if a := argFor(fr, x); a != nil {
				return n.asserts(e.factsAt(fr.parent, fr.site.Block()), fr.parent, a, t, d+1)
			}
		}
		// the callback of sync.Map.Range
		if s := n.rangeCallback(x); s != nil {
			return n.syncHolds(s, x, t, d)
		}
	case *ssa.Phi:
		for i, ed := range x.Edges {
			s := e.factsAt(fr, x.Block().Preds[i])
			e.edgeFacts(fr, x.Block().Preds[i], x.Block(), s)
			if st != nil {
				s.and(st)
			}
			if s.dead || e.prove(s.clone(), cst(-1), 4) {
				continue
			}
			if !n.asserts(s, fr, ed, t, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if li, ok := e.resolveLoad(fr, x.X, x); ok && li.val != nil && li.val != ssa.Value(x) {
				return n.asserts(st, li.valFr, li.val, t, d+1)
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return n.assertsCall(st, fr, c, x.Index, t, d)
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return n.okTrue(st, fr, ta) && n.asserts(st, fr, ta.X, t, d+1)
		}
	case *ssa.Call:
		return n.assertsCall(st, fr, x, 0, t, d)
	}
	// already asserted with comma-ok or a type switch
	for _, r := range *v.Referrers() {
		if ta, ok := r.(*ssa.TypeAssert); ok && ta.CommaOk && types.Identical(ta.AssertedType, t) && n.okTrue(st, fr, ta) {
			return true
		}
	}
	return false
}

func (n *nilEng) assertsCall(st *State, fr *Frame, c *ssa.Call, idx int, t types.Type, d int) bool {
	com := c.Common()
	if f := com.StaticCallee(); f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "sync" || f.Pkg.Pkg.Path() == "sync/atomic") && len(com.Args) > 0 {
		s := n.syncs[n.syncKey(com.Args[0])]
		if s == nil {
			return false
		}
		switch f.Name() {
		case "Load", "LoadAndDelete":
			if com.Signature().Results().Len() != 2 || !n.okTrue(st, fr, c) {
				return false
			}
		case "LoadOrStore":
		case "Get":
			return n.poolHolds(com.Args[0], s, t, d)
		default:
			return false
		}
		return n.syncHolds(s, nil, t, d)
	}
	if isBroadcast(com, "Read") || com.StaticCallee() != nil && strings.HasSuffix(com.StaticCallee().String(), "broadcast.BroadcastReader).Read") {
		return idx == 0 && n.okTrue(st, fr, c) && n.syncHolds(n.bcast, nil, t, d)
	}
	if f := com.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		switch typeKey(f.Signature.Recv().Type()) + "." + f.Name() {
		case "*net.UDPConn.LocalAddr", "*net.UDPConn.RemoteAddr", "*net.conn.LocalAddr":
			return typeKey(t) == "*net.UDPAddr"
		case "*net.TCPListener.Addr":
			return typeKey(t) == "*net.TCPAddr"
		}
	}
	if d > 5 || fr.depth > 6 {
		return false
	}
	callees := n.e.p.Callees(c)
	for _, g := range callees {
		if g.Blocks == nil || n.e.inChain(fr, g) {
			return false
		}
		cf := n.e.frame(fr, c, g)
		for _, b := range g.Blocks {
			ret, ok := lastInstr(b).(*ssa.Return)
			if !ok || b == g.Recover || idx >= len(ret.Results) {
				continue
			}
			s := n.e.factsAt(cf, b)
			if st != nil {
				s.and(st)
			}
			n.blockFacts(cf, ret, s)
			if s.dead || n.excluded(st, fr, c, s, cf, ret) || n.e.prove(s.clone(), cst(-1), 4) {
				continue
			}
			if !n.asserts(s, cf, ret.Results[idx], t, d+1) {
				return false
			}
		}
	}
	return len(callees) > 0
}

func (n *nilEng) syncHolds(s *syncClass, key *ssa.Parameter, t types.Type, d int) bool {
	if s == nil || len(s.vals) == 0 {
		return false
	}
	for _, v := range s.vals {
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		fr := n.e.frame(nil, nil, in.Parent())
		if !n.asserts(n.e.factsAt(fr, in.Block()), fr, v, t, d+1) {
			return false
		}
	}
	return true
}

func (n *nilEng) poolHolds(addr ssa.Value, s *syncClass, t types.Type, d int) bool { return false }

// rangeCallback: p is the value parameter of a function passed to Range on a sync.Map.
func (n *nilEng) rangeCallback(p *ssa.Parameter) *syncClass {
	fn := p.Parent()
	if len(fn.Params) != 2 || fn.Params[1] != p || fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := c.Call.StaticCallee()
			if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || f.Name() != "Range" {
				continue
			}
			a := c.Call.Args[1]
			if mc, ok := a.(*ssa.MakeClosure); ok {
				a = mc.Fn
			}
			if a == ssa.Value(fn) {
				return n.syncs[n.syncKey(c.Call.Args[0])]
			}
		}
	}
	return nil
}

// assumeNil adds to m that v is nil, and that references which never become
// nil again were nil whenever they were looked at before.
func (n *nilEng) assumeNil(fr *Frame, v ssa.Value, m *State) {
	e := n.e
	e.setNil(fr, v, false, m, 0)
	if m.dead {
		return
	}
	no := func(f *Frame, y ssa.Value) {
		k := e.refKey(f, y)
		if m.nonnil[k] {
			m.dead = true
		}
		m.nonnil[k] = false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL || !n.mono[classOf(fa).class] {
			return
		}
		key, ok := e.addrKey(fr, fa)
		if !ok {
			return
		}
		for f, at := fr, ssa.Instruction(x); f != nil; f = f.parent {
			for _, b := range f.fn.Blocks {
				for _, in := range b.Instrs {
					y, ok := in.(*ssa.UnOp)
					if !ok || y == x || y.Op != token.MUL {
						continue
					}
					fb, ok := y.X.(*ssa.FieldAddr)
					if !ok || classOf(fb).class != classOf(fa).class || !earlier(y, at) {
						continue
					}
					if k, ok := e.addrKey(f, fb); ok && k == key {
						no(f, y)
					}
				}
			}
			if f.site == nil {
				break
			}
			at = f.site
		}
	case *ssa.Lookup:
		if isStr(x.X.Type()) || !n.elems[elemKey(x.X.Type())] {
			return
		}
		ik := n.scalarKey(fr, x.Index)
		for f, at := fr, ssa.Instruction(x); f != nil; f = f.parent {
			for _, b := range f.fn.Blocks {
				for _, in := range b.Instrs {
					y, ok := in.(*ssa.Lookup)
					if !ok || y == x || y.CommaOk || elemKey(y.X.Type()) != elemKey(x.X.Type()) || !earlier(y, at) {
						continue
					}
					if e.refKey(f, y.X) != e.refKey(fr, x.X) && !n.sameField(f, y.X, fr, x.X) || n.scalarKey(f, y.Index) != ik || n.deletedBetween(f, y, fr, x) {
						continue
					}
					no(f, y)
				}
			}
			if f.site == nil {
				break
			}
			at = f.site
		}
	}
}

// reaches: everything that may refer to (or hold a copy of) the object
// allocated at a, ignoring the order of execution.
func (n *nilEng) reaches(a *ssa.Alloc) map[interface{}]bool {
	if r, ok := n.reach[a]; ok {
		return r
	}
	in := map[interface{}]bool{}
	n.reach[a] = in
	var work []ssa.Value
	var classes []string
	addV := func(v ssa.Value) {
		if v != nil && !in[v] {
			in[v] = true
			work = append(work, v)
		}
	}
	addC := func(k string) {
		if k != "" && !in[k] {
			in[k] = true
			classes = append(classes, k)
		}
	}
	holder := func(addr ssa.Value) string {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			return classOf(x).class
		case *ssa.IndexAddr:
			return elemKey(x.X.Type())
		case *ssa.Global:
			return "G:" + x.String()
		case *ssa.FreeVar:
			if c := cellOf(x); c != nil {
				return "A:" + valName(c)
			}
			return "T:" + typeKey(derefType(x.Type()))
		case *ssa.Alloc:
			return "A:" + valName(x)
		}
		return "T:" + typeKey(derefType(addr.Type()))
	}
	n.indexLoads(holder)
	addV(a)
	if _, ok := derefType(a.Type()).Underlying().(*types.Struct); ok {
		addC("A:" + valName(a)) // its contents, copied as a whole
	}
	for len(work) > 0 || len(classes) > 0 {
		for len(classes) > 0 {
			k := classes[0]
			classes = classes[1:]
			for _, v := range n.loads[k] {
				addV(v)
			}
		}
		if len(work) == 0 {
			break
		}
		v := work[0]
		work = work[1:]
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				addV(x)
			case *ssa.ChangeType:
				addV(x)
			case *ssa.ChangeInterface:
				addV(x)
			case *ssa.MakeInterface:
				addV(x)
			case *ssa.TypeAssert:
				addV(x)
			case *ssa.Extract:
				if _, ok := x.Tuple.(*ssa.TypeAssert); ok {
					addV(x)
				}
			case *ssa.Store:
				if x.Val == v {
					addC(holder(x.Addr))
				}
			case *ssa.MapUpdate:
				if x.Value == v {
					addC(elemKey(x.Map.Type()))
				}
			case *ssa.Send:
				addC("C:" + typeKey(x.Chan.Type()))
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						addV(x.Fn.(*ssa.Function).FreeVars[i])
						if f := x.Fn.(*ssa.Function); strings.HasPrefix(f.Synthetic, "bound") {
							for _, bb := range f.Blocks {
								for _, bi := range bb.Instrs {
									if c, ok := bi.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
										addV(c.Common().StaticCallee().Params[0])
									}
								}
							}
						}
					}
				}
			case *ssa.Return:
				for i, rv := range x.Results {
					if rv != v {
						continue
					}
					for _, c := range n.callers(x.Parent()) {
						cv, ok := c.(*ssa.Call)
						if !ok {
							continue
						}
						if len(x.Results) == 1 {
							addV(cv)
							continue
						}
						for _, r2 := range *cv.Referrers() {
							if ex, ok := r2.(*ssa.Extract); ok && ex.Index == i {
								addV(ex)
							}
						}
					}
				}
			case ssa.CallInstruction:
				com := x.Common()
				for _, g := range n.p.Callees(x) {
					for i, p := range g.Params {
						var arg ssa.Value
						switch {
						case com.IsInvoke() && i == 0:
							arg = com.Value
						case com.IsInvoke() && i-1 < len(com.Args):
							arg = com.Args[i-1]
						case !com.IsInvoke() && len(com.Args) == len(g.Params):
							arg = com.Args[i]
						case !com.IsInvoke() && len(com.Args) == len(g.Params)-1 && i > 0:
							arg = com.Args[i-1]
						}
						if arg == v {
							addV(p)
						}
					}
				}
				// containers of the standard library
				if f := com.StaticCallee(); f != nil && f.Pkg != nil && len(com.Args) > 1 && (f.Pkg.Pkg.Path() == "sync" || f.Pkg.Pkg.Path() == "sync/atomic") {
					addC("sync")
				}
			}
		}
	}
	return in
}

func (n *nilEng) indexLoads(holder func(ssa.Value) string) {
	if n.loads != nil {
		return
	}
	n.loads = map[string][]ssa.Value{}
	for _, f := range n.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL {
						k := holder(x.X)
						n.loads[k] = append(n.loads[k], x)
					}
					if x.Op == token.ARROW {
						k := "C:" + typeKey(x.X.Type())
						n.loads[k] = append(n.loads[k], x)
					}
				case *ssa.FieldAddr:
					// the struct held by value in this field
					if _, ok := derefType(x.Type()).Underlying().(*types.Struct); ok {
						k := classOf(x).class
						n.loads[k] = append(n.loads[k], x)
					}
				case *ssa.Field:
					_, t := structOf(x.X.Type())
					k := "F:" + typeKey(t) + "." + strconv.Itoa(x.Field)
					n.loads[k] = append(n.loads[k], x)
				case *ssa.Lookup:
					k := elemKey(x.X.Type())
					n.loads[k] = append(n.loads[k], x)
				case *ssa.Extract:
					switch t := x.Tuple.(type) {
					case *ssa.Next:
						if r, ok := t.Iter.(*ssa.Range); ok {
							k := elemKey(r.X.Type())
							n.loads[k] = append(n.loads[k], x)
						}
					case *ssa.Lookup:
						k := elemKey(t.X.Type())
						n.loads[k] = append(n.loads[k], x)
					}
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "sync" || f.Pkg.Pkg.Path() == "sync/atomic") {
						n.loads["sync"] = append(n.loads["sync"], x)
						for _, r := range *x.Referrers() {
							if ex, ok := r.(*ssa.Extract); ok {
								n.loads["sync"] = append(n.loads["sync"], ex)
							}
						}
					}
				}
			}
		}
	}
}

// goodObject: the field is set in every object the address may belong to.
func (n *nilEng) goodObject(fa *ssa.FieldAddr) bool {
	k := classOf(fa).class
	bad, ok := n.bare[k]
	if !ok || !n.mono[k] {
		return false
	}
	for _, a := range bad {
		if a == nil {
			return false
		}
		r := n.reaches(a)
		if r[fa.X] {
			return false
		}
		// a struct held by value in a field
		if in, ok := fa.X.(*ssa.FieldAddr); ok && r[classOf(in).class] {
			return false
		}
	}
	return true
}

// earlier: whenever both are executed in one activation, a came first.
func earlier(a, b ssa.Instruction) bool {
	return before(a, b) || a.Block() != b.Block() && !flowsTo(b.Block(), a.Block())
}

func flowsTo(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

// serverScope: the functions that run in the server: everything reachable from
// main packages and from what package librtmp exports.
func serverScope(p *Prog) map[*ssa.Function]bool {
	in := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !in[f] {
			in[f] = true
			work = append(work, f)
		}
	}
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Pkg == nil {
			continue
		}
		if f.Pkg.Pkg.Name() == "main" && f.Name() == "main" || f.Name() == "init" {
			add(f)
		}
		if strings.HasSuffix(f.Pkg.Pkg.Path(), "/librtmp") && token.IsExported(f.Name()) && f.Signature.Recv() == nil {
			add(f)
			// and the exported methods of what it returns
			for i := 0; i < f.Signature.Results().Len(); i++ {
				t := f.Signature.Results().At(i).Type()
				if nm, ok := derefType(t).(*types.Named); !ok || !p.Repo[nm.Obj().Pkg()] {
					continue
				}
				ms := p.SSA.MethodSets.MethodSet(t)
				for j := 0; j < ms.Len(); j++ {
					if ms.At(j).Obj().Exported() && !types.IsInterface(t) {
						add(p.SSA.MethodValue(ms.At(j)))
					}
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if c, ok := x.(ssa.CallInstruction); ok {
					for _, g := range p.Callees(c) {
						add(g)
					}
				}
				for _, op := range x.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				if mi, ok := x.(*ssa.MakeInterface); ok {
					// whatever a library may call through its own interfaces,
					// and the exported methods of what librtmp hands out
					it, _ := mi.Type().Underlying().(*types.Interface)
					if o := namedPkg(mi.Type()); it != nil && (o == nil || !p.Repo[o]) {
						for i := 0; i < it.NumMethods(); i++ {
							if o := it.Method(i); o.Exported() {
								add(p.SSA.LookupMethod(mi.X.Type(), nil, o.Name()))
							}
						}
					}
				}
			}
		}
	}
	return in
}
