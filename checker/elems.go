package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// elemFacts: what is known about an element read from an integer slice that
// is only ever built by append in the same function. Two facts are derived:
// elements are non-negative when every appended value is, and elements index
// a sibling slice t ("every element of s is below len(t)") when that relation
// is inductive over the loop both slices are carried by.
func (e *Eng) elemFacts(fr *Frame, s ssa.Value, elem Lin) []Cons {
	sl, ok := s.Type().Underlying().(*types.Slice)
	if !ok || !isInt(sl.Elem()) {
		return nil
	}
	vals, ok := appended(s)
	if !ok || len(vals) == 0 {
		return nil
	}
	var cs []Cons
	nonneg := true
	for _, v := range vals {
		l := e.lin(fr, v)
		if lo, ok := e.lower(l); !ok || lo < 0 {
			if !e.proveAt(fr, v, l) {
				nonneg = false
			}
		}
	}
	if nonneg {
		cs = append(cs, ge0(elem))
	}
	ph, ok := s.(*ssa.Phi)
	if !ok || !e.isLoopHeader(ph.Block()) {
		return cs
	}
	h := ph.Block()
	in := e.loopBlocks(h)
	for _, x := range h.Instrs {
		t, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		if t == ph || !hasLen(t.Type()) {
			continue
		}
		good := true
		for i, p := range h.Preds {
			if !in[p] {
				if l := e.lenOf(fr, ph.Edges[i]); !l.isConst() || l.c != 0 {
					good = false
				}
				continue
			}
			st := e.factsAt(fr, p)
			e.edgeFacts(fr, p, h, st)
			te := e.lenOf(fr, t.Edges[i])
			if !e.prove(st, te.sub(e.lenOf(fr, t)), 4) {
				good = false
				break
			}
			for _, v := range appendedUntil(ph.Edges[i], ph) {
				if v == nil || !e.prove(st, te.sub(e.lin(fr, v)).addc(-1), 4) {
					good = false
					break
				}
			}
		}
		if good {
			cs = append(cs, ge0(e.lenOf(fr, t).sub(elem).addc(-1)))
		}
	}
	return cs
}

// appended collects every value ever appended to the slice web of s.
func appended(s ssa.Value) ([]ssa.Value, bool) {
	var vals []ssa.Value
	seen := map[ssa.Value]bool{}
	ok := true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			for _, ed := range x.Edges {
				walk(ed)
			}
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && len(x.Call.Args) == 2 {
				walk(x.Call.Args[0])
				vs, o := varargs(x.Call.Args[1])
				if !o {
					ok = false
				}
				vals = append(vals, vs...)
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	walk(s)
	// no store through the web
	for v := range seen {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.IndexAddr:
				for _, r2 := range *x.Referrers() {
					if st, isSt := r2.(*ssa.Store); isSt && st.Addr == ssa.Value(x) {
						ok = false
					}
				}
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Call:
				if b, isB := x.Call.Value.(*ssa.Builtin); isB && (b.Name() == "append" || b.Name() == "len") {
					continue
				}
				ok = false
			default:
				ok = false
			}
		}
	}
	return vals, ok
}

func appendedUntil(v ssa.Value, stop *ssa.Phi) []ssa.Value {
	var vals []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == ssa.Value(stop) || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, ed := range x.Edges {
				walk(ed)
			}
		case *ssa.Call:
			walk(x.Call.Args[0])
			vs, o := varargs(x.Call.Args[1])
			if !o {
				vals = append(vals, nil)
			}
			vals = append(vals, vs...)
		default:
			vals = append(vals, nil)
		}
	}
	walk(v)
	return vals
}

// varargs returns the values stored in a variadic argument slice.
func varargs(v ssa.Value) ([]ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var out []ssa.Value
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					out = append(out, st.Val)
				}
			}
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return out, true
}
