package main

// Ownership of descriptors: what a goroutine opens (accepted and dialled
// connections, hijacked connections, UDP sockets, files) it closes on every
// path, unless a field of an object it cleans up, a returned value or another
// goroutine has taken it over.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type resSpec struct {
	p     *Prog
	sites map[ssa.Instruction]string // acquisition -> tag
	names map[string]string          // tag -> description
	// functions that can reach a Close
	closers  map[*ssa.Function]bool
	nclose   map[ssa.Instruction]bool
	followed map[*ssa.Function]bool // goroutines explored from where they start
}

// closeable: a standard library type (or an interface) with Close() error.
func closeable(t types.Type) bool {
	if _, ok := t.(*types.Tuple); ok {
		return false
	}
	ms := types.NewMethodSet(t)
	sel := ms.Lookup(nil, "Close")
	if sel == nil {
		return false
	}
	sig, ok := sel.Type().(*types.Signature)
	if !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return false
	}
	if n, ok := derefType(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "net", "os", "io", "crypto/tls", "net/http":
			return true
		}
		return false
	}
	return types.IsInterface(t)
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// acquires: the call opens something that has to be closed.
func (rs *resSpec) acquires(com *ssa.CallCommon) bool {
	var pkg string
	if com.IsInvoke() {
		if com.Method.Pkg() != nil {
			pkg = com.Method.Pkg().Path()
		}
	} else if f := com.StaticCallee(); f != nil && f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f != nil && f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	switch pkg {
	case "net", "os", "net/http", "crypto/tls":
	default:
		return false
	}
	res := com.Signature().Results()
	if errorIndex(res) < 0 {
		return false // accessors
	}
	for i := 0; i < res.Len(); i++ {
		if closeable(res.At(i).Type()) {
			return true
		}
	}
	return false
}

// closesArg: the call is x.Close() on a closeable; returns x.
func closedValue(com *ssa.CallCommon) ssa.Value {
	if com.IsInvoke() {
		if com.Method.Name() == "Close" && closeable(com.Value.Type()) {
			return com.Value
		}
		return nil
	}
	f := com.StaticCallee()
	if f == nil || f.Name() != "Close" || len(com.Args) != 1 {
		return nil
	}
	v := com.Args[0]
	// promoted from an embedded struct: (*net.conn).Close(&c.conn)
	for {
		if fa, ok := v.(*ssa.FieldAddr); ok && closeable(fa.X.Type()) {
			v = fa.X
			continue
		}
		break
	}
	if !closeable(v.Type()) {
		return nil
	}
	return v
}

// --- abstract arrays of closeables ---------------------------------------------

func elemCloseable(t types.Type) bool {
	switch u := derefType(t).Underlying().(type) {
	case *types.Array:
		return closeable(u.Elem())
	case *types.Slice:
		return closeable(u.Elem())
	}
	return false
}

func arrTag(es []AV) AV {
	var ss []string
	for _, e := range es {
		switch {
		case e.k == avNil:
			ss = append(ss, "nil")
		case e.k == avNonNil && e.tag == "":
			ss = append(ss, "set")
		case e.tag != "":
			ss = append(ss, e.tag)
		default:
			ss = append(ss, "?")
		}
	}
	return AV{k: avNonNil, tag: "arr[" + strings.Join(ss, "|") + "]"}
}

func arrElems(a AV) []AV {
	if !strings.HasPrefix(a.tag, "arr[") {
		return nil
	}
	var out []AV
	for _, s := range strings.Split(strings.TrimSuffix(a.tag[4:], "]"), "|") {
		switch {
		case s == "nil":
			out = append(out, AV{k: avNil})
		case s == "set":
			out = append(out, AV{k: avNonNil})
		case s == "?":
			out = append(out, top)
		case s != "":
			out = append(out, AV{k: avNonNil, tag: s})
		}
	}
	return out
}

func constIdx(v ssa.Value) (int, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	n, err := strconv.Atoi(c.Value.ExactString())
	return n, err == nil
}

// arrSlot: the array cell an address denotes and, for an element, its index.
func arrSlot(px *PX, addr ssa.Value) (slot string, n int) {
	t, ok := derefType(addr.Type()).Underlying().(*types.Array)
	if !ok || !closeable(t.Elem()) && !isErrorType(t.Elem()) || t.Len() > 16 {
		return "", 0
	}
	slot = px.slotOf(addr)
	if slot == "" || !strings.HasPrefix(slot, "A:") && !strings.HasPrefix(slot, "F:") {
		return "", 0
	}
	return slot, int(t.Len())
}

func loadArr(st *PState, slot string, n int) AV {
	es := make([]AV, n)
	for i := range es {
		es[i] = st.mem[slot+"#"+strconv.Itoa(i)]
	}
	return arrTag(es)
}

func storeArr(st *PState, slot string, n int, a AV) {
	es := arrElems(a)
	for i := 0; i < n; i++ {
		e := top
		if i < len(es) {
			e = es[i]
		}
		st.setMem(slot+"#"+strconv.Itoa(i), e)
	}
}

// --- open resources in the automaton state ---------------------------------------

func openSet(q string) []string {
	v := qget(q, "open")
	if v == "none" || v == "" {
		return nil
	}
	return strings.Split(v, "+")
}

func setOpen(q string, ts []string) string {
	sort.Strings(ts)
	var u []string
	for i, t := range ts {
		if i == 0 || t != ts[i-1] {
			u = append(u, t)
		}
	}
	if len(u) == 0 {
		return qset(q, "open", "none")
	}
	return qset(q, "open", strings.Join(u, "+"))
}

func isOpen(q, tag string) bool {
	for _, t := range openSet(q) {
		if t == tag {
			return true
		}
	}
	return false
}

func closeTags(st *PState, ts ...string) {
	var keep []string
	for _, t := range openSet(st.q) {
		gone := false
		for _, c := range ts {
			gone = gone || c == t
		}
		if !gone {
			keep = append(keep, t)
		}
	}
	st.q = setOpen(st.q, keep)
}

func tagsIn(a AV) []string {
	if es := arrElems(a); es != nil {
		var out []string
		for _, e := range es {
			if e.tag != "" {
				out = append(out, e.tag)
			}
		}
		return out
	}
	if a.tag != "" {
		return []string{a.tag}
	}
	return nil
}

func retag(a AV, from, to string) AV {
	if a.tag == from {
		a.tag = to
		return a
	}
	if es := arrElems(a); es != nil {
		for i := range es {
			if es[i].tag == from {
				es[i].tag = to
			}
		}
		return arrTag(es)
	}
	return a
}

// rename gives an open resource a new name wherever it is held.
func rename(st *PState, from, to string) {
	ts := openSet(st.q)
	for i := range ts {
		if ts[i] == from {
			ts[i] = to
		}
	}
	st.q = setOpen(st.q, ts)
	for k, v := range st.mem {
		st.mem[k] = retag(v, from, to)
	}
	for k, v := range st.vals {
		st.vals[k] = retag(v, from, to)
	}
	ds := append([]pDefer(nil), st.defers...)
	for i := range ds {
		as := append([]AV(nil), ds[i].args...)
		for j := range as {
			as[j] = retag(as[j], from, to)
		}
		ds[i].args = as
	}
	st.defers = ds
}

// holder: a field that holds the resource.
func holder(st *PState, tag string) string {
	var hs []string
	for k, v := range st.mem {
		if strings.HasPrefix(k, "F:") || strings.HasPrefix(k, "G:") {
			for _, t := range tagsIn(v) {
				if t == tag {
					hs = append(hs, k)
				}
			}
		}
	}
	sort.Strings(hs)
	if len(hs) == 0 {
		return ""
	}
	return hs[0]
}

// heldLocally: a local value, cell or deferred call still refers to it.
func heldLocally(st *PState, tag string) bool {
	has := func(a AV) bool {
		for _, t := range tagsIn(a) {
			if t == tag {
				return true
			}
		}
		return false
	}
	for k, v := range st.mem {
		if strings.HasPrefix(k, "A:") && has(v) {
			return true
		}
	}
	for _, v := range st.vals {
		if has(v) {
			return true
		}
	}
	for _, d := range st.defers {
		for _, a := range d.args {
			if has(a) {
				return true
			}
		}
	}
	return false
}

func (rs *resSpec) describe(tag string) string {
	base := strings.SplitN(tag, "@", 2)[0]
	return rs.names[base]
}

func (rs *resSpec) lost(px *PX, in ssa.Instruction, tag, how string) {
	base := strings.SplitN(tag, "@", 2)[0]
	px.report("leak|"+rs.names[base]+"|"+how, in, "%s, and it is still open: %s", rs.names[base], how)
}

// --- closing loops ------------------------------------------------------------------

// closingLoop: h heads a loop that goes over all of xs and closes every element
// that is not nil; the loop ends only when xs is exhausted.
func closingElem(ia *ssa.IndexAddr) bool {
	idx := ia.Index
	var phi *ssa.Phi
	switch x := idx.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp: // range loops count from -1
		if p, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD {
			phi = p
		}
	}
	if phi == nil {
		return false
	}
	h := phi.Block()
	loop := naturalLoop(h)
	if loop == nil || !loop[ia.Block()] {
		return false
	}
	for b := range loop {
		for _, s := range b.Succs {
			if !loop[s] && b != h {
				return false
			}
		}
		if n := len(b.Instrs); n > 0 {
			switch b.Instrs[n-1].(type) {
			case *ssa.Return, *ssa.Panic:
				return false
			}
		}
	}
	// from the load of the element, every way back to the header closes it
	var elem ssa.Value
	for _, r := range *ia.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			elem = u
		}
	}
	if elem == nil {
		return false
	}
	return closedBefore(elem, ia.Block(), h, loop, 0)
}

// closedBefore: every path from the definition of v in from to the block to (or,
// when to is nil, to a return) closes v or knows it is nil.
func closedBefore(v ssa.Value, from, to *ssa.BasicBlock, within map[*ssa.BasicBlock]bool, depth int) bool {
	if depth > 3 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if closedValue(&x.Call) == v {
					return true
				}
				if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil {
					for i, a := range x.Call.Args {
						if a == v && i < len(f.Params) && closedBefore(f.Params[i], f.Blocks[0], nil, nil, depth+1) {
							return true
						}
					}
				}
			case *ssa.Return:
				return false
			}
		}
		last := b.Instrs[len(b.Instrs)-1]
		skip := -1
		if i, ok := last.(*ssa.If); ok {
			if c, ok := i.Cond.(*ssa.BinOp); ok && (c.X == v && isNilConst(c.Y) || c.Y == v && isNilConst(c.X)) {
				if c.Op == token.EQL {
					skip = 0
				} else if c.Op == token.NEQ {
					skip = 1
				}
			}
		}
		for i, s := range b.Succs {
			if i == skip {
				continue
			}
			if s == to || within != nil && !within[s] {
				return false
			}
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(from)
}

// naturalLoop: the blocks of the loops headed by h, nil when there is none.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) == 0 {
		return nil
	}
	loop[h] = true
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if loop[b] {
			continue
		}
		loop[b] = true
		work = append(work, b.Preds...)
	}
	return loop
}

// closesAll: f closes every element of its i-th parameter.
func closesAll(f *ssa.Function, i int) bool {
	if f.Blocks == nil || i >= len(f.Params) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && ia.X == ssa.Value(f.Params[i]) && closingElem(ia) {
				return loopAlwaysReached(f, ia)
			}
		}
	}
	return false
}

func loopAlwaysReached(f *ssa.Function, ia *ssa.IndexAddr) bool {
	var h *ssa.BasicBlock
	switch x := ia.Index.(type) {
	case *ssa.Phi:
		h = x.Block()
	case *ssa.BinOp:
		h = x.X.(*ssa.Phi).Block()
	}
	for _, b := range f.Blocks {
		if n := len(b.Instrs); n > 0 {
			if _, ok := b.Instrs[n-1].(*ssa.Return); ok && !h.Dominates(b) {
				return false
			}
		}
	}
	return true
}

// --- the rule -----------------------------------------------------------------------

func (rs *resSpec) rule(r *Report) *PathRule {
	tracked := map[string][]AV{}
	for _, pkg := range rs.p.Pkgs {
		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if closeable(s.Field(i).Type()) {
					tracked["F:"+typeKey(tn.Type())+"."+strconv.Itoa(i)] = nil
				}
			}
		}
	}
	r.count("descriptor fields", len(tracked))
	argOf := func(px *PX, in ssa.Instruction, st *PState, com *ssa.CallCommon, v ssa.Value) AV {
		if d, ok := in.(deferredCall); ok {
			as := *d.args
			if com.IsInvoke() {
				if v == com.Value && len(as) > 0 {
					return as[0]
				}
				as = as[1:]
			}
			for i, a := range com.Args {
				base := a
				if fa, ok := a.(*ssa.FieldAddr); ok && a != v {
					base = fa.X
				}
				if base == v && i < len(as) && (a == v || as[i].tag != "") {
					return as[i]
				}
			}
		}
		return px.val(st, v)
	}
	return &PathRule{
		tracked: tracked,
		budget:  12000000,
		isEvent: func(in ssa.Instruction) bool {
			if _, ok := rs.sites[in]; ok {
				return true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				return closedValue(c.Common()) != nil
			}
			return false
		},
		event: func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
			switch x := in.(type) {
			case *ssa.Defer:
				// the value the deferred Close will work on
				if len(x.Call.Args) == 1 {
					if fa, ok := x.Call.Args[0].(*ssa.FieldAddr); ok && closeable(fa.X.Type()) {
						if a := px.val(st, fa.X); a.tag != "" {
							st.setVal(fa, a)
						}
					}
				}
				return nil, false
			case *ssa.Alloc:
				if s, n := arrSlot(px, x); s != "" {
					for i := 0; i < n; i++ {
						st.setMem(s+"#"+strconv.Itoa(i), AV{k: avNil})
					}
				}
				return nil, false
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if s, n := arrSlot(px, ia.X); s != "" {
						if i, c := constIdx(ia.Index); c && i < n {
							rs.overwrite(px, in, st, s+"#"+strconv.Itoa(i), px.val(st, x.Val))
							st.setMem(s+"#"+strconv.Itoa(i), px.val(st, x.Val))
						}
						return []POut{{st.q, nil, nil}}, true
					}
					return nil, false
				}
				if s, n := arrSlot(px, x.Addr); s != "" {
					storeArr(st, s, n, px.val(st, x.Val))
					return []POut{{st.q, nil, nil}}, true
				}
				if s := px.slotOf(x.Addr); s != "" {
					rs.overwrite(px, in, st, s, px.val(st, x.Val))
				}
				return nil, false
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return nil, false
				}
				if ia, ok := x.X.(*ssa.IndexAddr); ok {
					if i, c := constIdx(ia.Index); c {
						if s, n := arrSlot(px, ia.X); s != "" && i < n {
							st.setVal(x, st.mem[s+"#"+strconv.Itoa(i)])
						} else if es := arrElems(px.val(st, ia.X)); i < len(es) {
							st.setVal(x, es[i])
						}
						return []POut{{st.q, nil, nil}}, true
					}
					return nil, false
				}
				if s, n := arrSlot(px, x.X); s != "" {
					st.setVal(x, loadArr(st, s, n))
					return []POut{{st.q, nil, []AV{loadArr(st, s, n)}}}, true
				}
				return nil, false
			case *ssa.Index:
				if i, c := constIdx(x.Index); c {
					if es := arrElems(px.val(st, x.X)); i < len(es) {
						st.setVal(x, es[i])
					}
				}
				return nil, false
			case *ssa.Slice:
				if s, n := arrSlot(px, x.X); s != "" && x.Low == nil && x.High == nil {
					return []POut{{st.q, nil, []AV{loadArr(st, s, n)}}}, true
				}
				if es := arrElems(px.val(st, x.X)); es != nil && x.Low == nil && x.High == nil {
					return []POut{{st.q, nil, []AV{arrTag(es)}}}, true
				}
				return nil, false
			case *ssa.IndexAddr:
				if _, c := constIdx(x.Index); !c {
					if ts := tagsIn(rs.collection(px, st, x.X)); len(ts) > 0 && closingElem(x) {
						closeTags(st, ts...)
					}
				}
				return nil, false
			case *ssa.Go:
				if len(openSet(st.q)) == 0 {
					return nil, false
				}
				var outs []POut
				for _, f := range px.p.Callees(x) {
					if !rs.closers[f] || f.Blocks == nil {
						continue
					}
					var ps []AV
					for _, a := range x.Call.Args {
						ps = append(ps, px.val(st, a))
					}
					if len(ps) != len(f.Params) {
						ps = nil
					}
					rs.followed[f] = true
					for _, o := range px.follow(st, x, f, ps, px.curPass) {
						for _, t := range openSet(o.q) {
							// what the goroutine was handed, or opened itself
							if !isOpen(st.q, t) || uses(x, st, px, t) {
								rs.lost(px, in, t, "the goroutine "+fname(f)+" ends")
							}
						}
						outs = append(outs, o)
					}
				}
				if len(outs) == 0 {
					return nil, false
				}
				for i := range outs {
					outs[i].res = nil
				}
				return outs, true
			}
			com := callOf(in)
			if com == nil {
				return nil, false
			}
			if b, ok := com.Value.(*ssa.Builtin); ok {
				// len(xs) of a loop that closes all of xs: an empty xs holds nothing
				if b.Name() == "len" {
					v := com.Args[0]
					if a := px.val(st, v); arrElems(a) != nil {
						for _, ref := range *v.Referrers() {
							if ia, ok := ref.(*ssa.IndexAddr); ok && closingElem(ia) {
								if c, ok := in.(*ssa.Call); ok && boundsLoop(c, ia) {
									closeTags(st, tagsIn(a)...)
								}
							}
						}
					}
				}
				return nil, false
			}
			if v := closedValue(com); v != nil {
				rs.nclose[siteOf(in)] = true
				a := argOf(px, in, st, com, v)
				if len(tagsIn(a)) == 0 && len(com.Args) == 1 && !com.IsInvoke() {
					a = argOf(px, in, st, com, com.Args[0])
				}
				closeTags(st, tagsIn(a)...)
				return []POut{{st.q, nil, []AV{top}}}, true
			}
			if outs, ok := multiError(px, com, st); ok {
				return outs, true
			}
			for i, a := range com.Args {
				if !elemCloseable(a.Type()) {
					continue
				}
				if f := com.StaticCallee(); f != nil && closesAll(f, i) {
					closeTags(st, tagsIn(argOf(px, in, st, com, a))...)
					return []POut{{st.q, nil, nil}}, true
				}
			}
			tag, ok := rs.sites[siteOf(in)]
			if !ok {
				return nil, false
			}
			if isOpen(st.q, tag) {
				// opened again while the earlier one is open: who holds it?
				if h := holder(st, tag); h != "" {
					rename(st, tag, tag+"@"+h)
				} else if heldLocally(st, tag) {
					rename(st, tag, tag+"@local")
				} else {
					rs.lost(px, in, tag, "it is opened again")
				}
			}
			res := com.Signature().Results()
			good, bad := make([]AV, res.Len()), make([]AV, res.Len())
			for i := range good {
				switch {
				case i == errorIndex(res):
					good[i], bad[i] = AV{k: avNil}, AV{k: avNonNil}
				case closeable(res.At(i).Type()):
					good[i], bad[i] = AV{k: avNonNil, tag: tag}, AV{k: avNil}
				case nilable(res.At(i).Type()):
					good[i] = AV{k: avNonNil}
				}
			}
			return []POut{{setOpen(st.q, append(openSet(st.q), tag)), nil, good}, {st.q, nil, bad}}, true
		},
	}
}

// uses: the go statement hands the resource to the goroutine as an argument.
func uses(g *ssa.Go, st *PState, px *PX, tag string) bool {
	for _, a := range g.Call.Args {
		for _, t := range tagsIn(px.val(st, a)) {
			if t == tag {
				return true
			}
		}
	}
	return false
}

// starts: f contains (through calls) a go statement that starts g.
func (rs *resSpec) starts(f, g *ssa.Function) bool {
	for h := range rs.p.reach(f, false) {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Go); ok {
					for _, t := range rs.p.Callees(x) {
						if t == g {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// multiError models Athena's HandleMultiError(Simple(), errs...): the first
// error that is not nil.
func multiError(px *PX, com *ssa.CallCommon, st *PState) ([]POut, bool) {
	if !strings.HasSuffix(calleeFull(com), "easyerrors.HandleMultiError") || len(com.Args) != 2 {
		return nil, false
	}
	es := arrElems(px.val(st, com.Args[1]))
	if es == nil {
		return nil, false
	}
	res := AV{k: avNil}
	for _, e := range es {
		switch {
		case e.k == avNonNil:
			res = AV{k: avNonNil}
		case e.k != avNil && res.k == avNil:
			res = top
		}
	}
	return []POut{{st.q, nil, []AV{res}}}, true
}

// errorArrays follows errors through the array of a variadic call.
func errorArrays(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
	switch x := in.(type) {
	case *ssa.Alloc:
		if s, n := arrSlot(px, x); s != "" {
			for i := 0; i < n; i++ {
				st.setMem(s+"#"+strconv.Itoa(i), AV{k: avNil})
			}
		}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if s, n := arrSlot(px, ia.X); s != "" {
				if i, c := constIdx(ia.Index); c && i < n {
					st.setMem(s+"#"+strconv.Itoa(i), px.val(st, x.Val))
				}
				return []POut{{st.q, nil, nil}}, true
			}
		}
	case *ssa.Slice:
		if s, n := arrSlot(px, x.X); s != "" && x.Low == nil && x.High == nil {
			return []POut{{st.q, nil, []AV{loadArr(st, s, n)}}}, true
		}
	}
	return nil, false
}

// boundsLoop: the length bounds the loop that ia runs in.
func boundsLoop(l *ssa.Call, ia *ssa.IndexAddr) bool {
	for _, r := range *l.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && (b.X == ia.Index || b.Y == ia.Index) {
			return true
		}
	}
	return false
}

// collection: the array or slice an element is taken from.
func (rs *resSpec) collection(px *PX, st *PState, x ssa.Value) AV {
	if s, n := arrSlot(px, x); s != "" {
		return loadArr(st, s, n)
	}
	return px.val(st, x)
}

// overwrite: slot gets a new value; what it held must not be lost.
func (rs *resSpec) overwrite(px *PX, in ssa.Instruction, st *PState, slot string, nv AV) {
	old := st.mem[slot]
	if old.tag == "" || old.tag == nv.tag || !isOpen(st.q, old.tag) {
		return
	}
	st.mem[slot] = top
	h := holder(st, old.tag)
	l := heldLocally(st, old.tag)
	st.mem[slot] = old
	switch {
	case h != "":
	case l:
		rename(st, old.tag, strings.SplitN(old.tag, "@", 2)[0]+"@old")
	default:
		rs.lost(px, in, old.tag, "the field or variable that holds it is overwritten")
		closeTags(st, old.tag)
	}
}

func init() {
	register("C27", "other", func(p *Prog, r *Report) {
		r.Rule = "typestate of every descriptor a goroutine opens (open -> closed, or handed to a field, a caller or a goroutine that closes it): no path ends a goroutine, overwrites the last reference or opens it again with it still open"
		rs := &resSpec{p: p, sites: map[ssa.Instruction]string{}, names: map[string]string{}, closers: map[*ssa.Function]bool{}, nclose: map[ssa.Instruction]bool{}, followed: map[*ssa.Function]bool{}}
		direct := map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if closedValue(c.Common()) != nil {
						direct[f] = true
					}
					if _, isCall := in.(*ssa.Call); isCall && rs.acquires(c.Common()) {
						if rs.listenerForLife(c) {
							r.count("listeners kept for the life of the process", 1)
							continue
						}
						tag := "R" + strconv.Itoa(len(rs.sites)+1)
						rs.sites[in] = tag
						rs.names[tag] = shortCallee(c.Common()) + " in " + fname(f)
						r.sample("opens: %s (%s)", rs.names[tag], p.posOf(in))
					}
				}
			}
		}
		for _, f := range p.Funcs {
			for g := range p.reach(f, false) {
				if direct[g] {
					rs.closers[f] = true
				}
			}
		}
		pr := rs.rule(r)
		var cur *ssa.Function
		pr.atReturn = func(px *PX, f *ssa.Function, st *PState, ret *ssa.Return, res []AV) {
			if f != cur || len(px.callStk) != 0 {
				return
			}
			for _, t := range openSet(st.q) {
				rs.lost(px, ret, t, "the goroutine "+fname(f)+" ends")
			}
		}
		px := newPX(p, r, pr)
		roots := p.goRoots(func(f *ssa.Function) bool {
			return funcHas(f, func(in ssa.Instruction) bool { _, ok := rs.sites[in]; return ok })
		})
		fns := map[*ssa.Function]bool{}
		paths := 0
		// goroutines handed an open descriptor are explored from their start,
		// so the ones that accept or start others come first
		n := map[*ssa.Function]int{}
		for _, f := range roots {
			all := map[*ssa.Function]bool{f: true}
			for work := []*ssa.Function{f}; len(work) > 0; {
				h := work[0]
				work = work[1:]
				for _, g := range roots {
					if !all[g] && rs.starts(h, g) {
						all[g] = true
						work = append(work, g)
					}
				}
			}
			n[f] = len(all)
		}
		sort.SliceStable(roots, func(i, j int) bool { return n[roots[i]] > n[roots[j]] })
		for _, f := range roots {
			if rs.followed[f] {
				continue
			}
			cur = f
			px.memo, px.Fns, px.Paths = map[string]*pSummary{}, map[*ssa.Function]bool{}, 0
			px.Root(f, "open=none", map[string]AV{}, nil)
			for g := range px.Fns {
				fns[g] = true
			}
			paths += px.Paths
			if os.Getenv("GGT") != "" {
				fmt.Fprintln(os.Stderr, fname(f), px.steps, px.Paths)
			}
			r.sample("root %s: %d functions, %d outcomes", fname(f), len(px.Fns), px.Paths)
		}
		for in := range rs.sites {
			if !fns[in.Parent()] {
				r.sample("not reached by any goroutine: %s", rs.names[rs.sites[in]])
			}
		}
		r.count("roots", len(roots))
		r.count("functions", len(fns))
		r.count("outcomes", paths)
		r.count("acquisitions", len(rs.sites))
		r.count("close sites", len(rs.nclose))
		r.atLeast("roots", 4)
		r.atLeast("acquisitions", 5)
		r.atLeast("close sites", 5)
	})
}

func shortCallee(com *ssa.CallCommon) string {
	if com.IsInvoke() {
		return com.Method.Name()
	}
	n := calleeFull(com)
	return n[strings.LastIndex(n, "/")+1:]
}

// listenerForLife: a listening socket of the server itself.
func (rs *resSpec) listenerForLife(c ssa.CallInstruction) bool {
	n := calleeFull(c.Common())
	if strings.HasPrefix(n, "net.Listen") && n != "net.ListenUDP" {
		return true
	}
	if n == "net.ListenUDP" {
		// opened before any peer is served
		pk := c.Parent().Pkg
		return pk != nil && strings.HasSuffix(pk.Pkg.Path(), "/libsrt") && c.Parent().Signature.Recv() == nil
	}
	return false
}
