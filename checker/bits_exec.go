package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bcont func(st *bstate, res []bval)

const (
	bitsDepth  = 48
	bitsLoops  = 80
	bitsSteps  = 60000
	bitsUnsure = 3
)

func (m *bmach) newState() *bstate {
	return &bstate{env: map[bkey]bval{}, mem: map[string]bval{}, alias: map[string]string{}, seqs: map[string]*bseq{}, known: map[bit]bit{}, facts: map[string]*bfact{}, visits: map[bvisit]int{}, in: linC(0)}
}

// run interprets f under the assumptions, handing every way it can return
// to k.
func (m *bmach) run(f *ssa.Function, k func(st *bstate, args, res []bval)) {
	st := m.newState()
	var args []bval
	for i, q := range f.Params {
		a := m.unknownAt(st, q.Type(), "p"+strconv.Itoa(i), "", "")
		args = append(args, a)
	}
	m.call(st, f, args, nil, 0, func(st *bstate, res []bval) {
		m.paths++
		m.cur = st
		k(st, args, res)
	})
}

func (m *bmach) call(st *bstate, f *ssa.Function, args, binds []bval, depth int, k bcont) {
	if m.paths > m.maxPath || m.instrs > 3000000 {
		m.give("too many paths")
		return
	}
	m.funcs[f] = true
	st.frames++
	fr := st.frames
	for i, q := range f.Params {
		if i < len(args) {
			st.env[bkey{fr, q}] = args[i]
		}
	}
	for i, q := range f.FreeVars {
		if i < len(binds) {
			st.env[bkey{fr, q}] = binds[i]
		}
	}
	m.block(st, f, fr, depth, f.Blocks[0], nil, k)
}

func (m *bmach) block(st *bstate, f *ssa.Function, fr, depth int, b, pred *ssa.BasicBlock, k bcont) {
	v := bvisit{fr, b}
	st.visits[v]++
	if st.visits[v] > bitsLoops {
		m.give("a loop in " + fname(f) + " is too long")
		return
	}
	// phis read their inputs together
	if pred != nil {
		pi := -1
		for i, q := range b.Preds {
			if q == pred {
				pi = i
			}
		}
		var vals []bval
		var phis []*ssa.Phi
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			vals = append(vals, m.val(st, fr, ph.Edges[pi]))
		}
		for i, ph := range phis {
			st.env[bkey{fr, ph}] = vals[i]
		}
	}
	m.instrsFrom(st, f, fr, depth, b, 0, k)
}

func (m *bmach) val(st *bstate, fr int, v ssa.Value) bval {
	switch v := v.(type) {
	case *ssa.Const:
		if w, _, ok := bwidth(v.Type()); ok {
			c, ok := bconst(v)
			if !ok {
				return bvUnknown(w)
			}
			return bvConst(c, w)
		}
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Slice:
				return bslice{"", linC(0), linC(0)}
			case *types.Struct, *types.Array:
				return m.zero(st, v.Type(), "")
			}
			return bnil{}
		}
		return bopq{"const " + v.Value.ExactString()}
	case *ssa.Global:
		return bptr{"g:" + v.RelString(nil)}
	case *ssa.Function:
		return bclo{f: v}
	case *ssa.Builtin:
		return bopq{v.Name()}
	}
	if x, ok := st.env[bkey{fr, v}]; ok {
		return m.again(st, x)
	}
	return bopq{"?"}
}

func (m *bmach) bvOf(st *bstate, v bval, t types.Type) bv {
	switch x := v.(type) {
	case bv:
		return m.res(st, x)
	case bcond:
		return m.asBits(st, x)
	}
	w, _, ok := bwidth(t)
	if !ok {
		w = 64
	}
	if o, ok := v.(bopq); ok && !strings.HasPrefix(o.name, "?") {
		return m.atom(st, o.name, w, "", "")
	}
	return bvUnknown(w)
}

func bstr(v bval) string {
	switch v := v.(type) {
	case bv:
		return bvKey(v)
	case bptr:
		return v.at
	case bslice:
		return v.obj + "[" + v.off.String() + ":" + v.n.String() + "]"
	case bstruct:
		return v.at
	case biface:
		return bstr(v.v)
	case bopq:
		return v.name
	case bnil:
		return "nil"
	}
	return "?"
}

func (m *bmach) instrsFrom(st *bstate, f *ssa.Function, fr, depth int, b *ssa.BasicBlock, from int, k bcont) {
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		m.instrs++
		m.cur = st
		st.steps++
		if st.steps > bitsSteps || m.why != "" {
			m.give("too many steps in " + fname(f))
			return
		}
		set := func(v bval) {
			if x, ok := in.(ssa.Value); ok {
				st.env[bkey{fr, x}] = v
			}
		}
		get := func(v ssa.Value) bval { return m.val(st, fr, v) }
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Defer, *ssa.Go, *ssa.Send:
		case *ssa.Panic:
			return
		case *ssa.Return:
			var res []bval
			for _, r := range in.Results {
				res = append(res, get(r))
			}
			k(st, res)
			return
		case *ssa.Jump:
			m.block(st, f, fr, depth, b.Succs[0], b, k)
			return
		case *ssa.If:
			c := get(in.Cond)
			if x, ok := c.(bv); ok {
				if v, ok := x.konst(); ok {
					m.block(st, f, fr, depth, b.Succs[1-int(v&1)], b, k)
					return
				}
			}
			// undecided: both ways, but not round a loop for ever
			if st.visits[bvisit{fr, b}] > bitsUnsure {
				// leave the loop by the side that does not come back here
				for s := 0; s < 2; s++ {
					if !reaches(b.Succs[s], b) {
						t := st.clone()
						m.take(t, c, s == 0)
						m.block(t, f, fr, depth, b.Succs[s], b, k)
					}
				}
				return
			}
			t := st.clone()
			m.take(st, c, true)
			m.block(st, f, fr, depth, b.Succs[0], b, k)
			m.take(t, c, false)
			m.block(t, f, fr, depth, b.Succs[1], b, k)
			return
		case *ssa.Alloc:
			st.fresh++
			at := "n" + strconv.Itoa(st.fresh)
			st.alias[at] = "zero"
			et := derefType(in.Type())
			if n, ok := byteArray(et); ok && n <= 4096 {
				q := &bseq{}
				for j := int64(0); j < n; j++ {
					q.items = append(q.items, bitem{b: bvConst(0, 8)})
				}
				st.seqs[at] = q
			}
			set(bptr{at})
		case *ssa.FieldAddr:
			if x, ok := get(in.X).(bptr); ok {
				set(bptr{x.at + "." + strconv.Itoa(in.Field)})
			} else {
				set(bopq{"?"})
			}
		case *ssa.Field:
			if x, ok := get(in.X).(bstruct); ok {
				set(m.load(st, x.at+"."+strconv.Itoa(in.Field), in.Type(), bFieldSlot(in.X.Type(), in.Field), x.at))
			} else {
				set(m.unknownAt(st, in.Type(), bstr(get(in.X))+"."+strconv.Itoa(in.Field), bFieldSlot(in.X.Type(), in.Field), bstr(get(in.X))))
			}
		case *ssa.IndexAddr:
			set(m.indexAddr(st, get(in.X), in.X.Type(), m.bvOf(st, get(in.Index), in.Index.Type())))
		case *ssa.Index:
			ix := m.bvOf(st, get(in.Index), in.Index.Type())
			if x, ok := get(in.X).(bstruct); ok {
				if _, isb := byteArray(in.X.Type()); isb {
					if c, ok := ix.konst(); ok {
						set(m.byteAt(st, x.at, int(c)))
						break
					}
				}
				at := bvKey(ix)
				if c, ok := ix.konst(); ok {
					at = strconv.FormatInt(int64(c), 10)
				}
				set(m.load(st, x.at+"["+at+"]", in.Type(), "", x.at))
			} else {
				set(m.unknownAt(st, in.Type(), bstr(get(in.X))+"["+bvKey(ix)+"]", "", ""))
			}
		case *ssa.UnOp:
			switch in.Op {
			case token.MUL:
				switch x := get(in.X).(type) {
				case bptr:
					slot, base := "", ""
					if j := strings.LastIndexAny(x.at, ".["); j > 0 {
						base = x.at[:j]
					}
					if fa, ok := in.X.(*ssa.FieldAddr); ok {
						slot = bFieldSlot(fa.X.Type(), fa.Field)
					}
					set(m.load(st, x.at, in.Type(), slot, base))
				case bref:
					if c, err := strconv.Atoi(x.idx); err == nil {
						set(m.byteAt(st, x.obj, c))
					} else {
						set(m.atom(st, x.obj+"["+x.idx+"]", 8, "", x.obj))
					}
				default:
					set(m.unknownAt(st, in.Type(), "*"+bstr(x), "", ""))
				}
			case token.NOT:
				switch x := get(in.X).(type) {
				case bcond:
					set(bcond{map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[x.op], x.x, x.y})
				case bv:
					set(bv{notBit(x[0])})
				default:
					set(bv{bitQ})
				}
			case token.SUB:
				x := m.bvOf(st, get(in.X), in.Type())
				set(m.bits(linC(0).add(m.lin(x), -1), len(x)))
			case token.XOR:
				x := m.bvOf(st, get(in.X), in.Type())
				r := make(bv, len(x))
				for i := range x {
					r[i] = notBit(x[i])
				}
				set(r)
			case token.ARROW:
				set(m.unknownAt(st, in.Type(), m.freshName(st, "recv"), "", ""))
			}
		case *ssa.BinOp:
			set(m.binInstr(st, in, get(in.X), get(in.Y)))
		case *ssa.Convert:
			x := get(in.X)
			w, _, ok := bwidth(in.Type())
			_, sgn, ok2 := bwidth(in.X.Type())
			if ok && ok2 {
				set(m.convert(st, m.bvOf(st, x, in.X.Type()), sgn, w))
			} else if _, isp := x.(bslice); isp {
				set(x)
			} else if isByteSlice(in.Type()) {
				s := m.unknownAt(st, in.Type(), "bytes("+bstr(x)+")", "", "")
				if _, isc := strConst(x); isc {
					s = m.toSlice(st, x)
				}
				set(s)
			} else {
				set(m.unknownAt(st, in.Type(), "conv("+bstr(x)+")", "", ""))
			}
		case *ssa.ChangeType:
			set(get(in.X))
		case *ssa.ChangeInterface:
			set(get(in.X))
		case *ssa.SliceToArrayPointer:
			set(bopq{"?"})
		case *ssa.MakeInterface:
			set(biface{get(in.X), in.X.Type()})
		case *ssa.MakeClosure:
			c := bclo{f: in.Fn.(*ssa.Function)}
			for _, x := range in.Bindings {
				c.binds = append(c.binds, get(x))
			}
			set(c)
		case *ssa.MakeMap:
			at := m.freshName(st, "map")
			st.alias[at] = "zero"
			set(bptr{at})
		case *ssa.MakeChan:
			set(bptr{m.freshName(st, "map")})
		case *ssa.MakeSlice:
			n := m.fold(st, m.lin(m.bvOf(st, get(in.Len), in.Len.Type())))
			if !isByteSlice(in.Type()) {
				at := m.freshName(st, "mk")
				st.alias[at] = "zero"
				set(bslice{at, linC(0), n})
				break
			}
			var it []bitem
			if n == nil {
				set(m.mkSeq(st, []bitem{{seg: "?", off: linC(0), n: m.lenOf("?")}}))
				break
			}
			if n.c >= 0 && n.c <= 4096 {
				for j := int64(0); j < n.c; j++ {
					it = append(it, bitem{b: bvConst(0, 8)})
				}
				if !n.isConst() {
					it = append(it, bitem{seg: "zeros", off: linC(0), n: n.add(linC(n.c), -1)})
				}
			} else {
				it = append(it, bitem{seg: "zeros", off: linC(0), n: n})
			}
			set(m.mkSeq(st, it))
		case *ssa.Slice:
			set(m.slice(st, fr, in))
		case *ssa.Lookup:
			x := get(in.X)
			ix := get(in.Index)
			if c, isc := ix.(bcond); isc {
				ix = m.asBits(st, c)
			}
			at := bstr(x) + "<" + bstr(ix) + ">"
			if in.CommaOk {
				tt := in.Type().(*types.Tuple)
				set(btuple{m.load(st, at, tt.At(0).Type(), "", bstr(x)), m.atom(st, "ok "+at, 1, "", "")})
			} else {
				set(m.load(st, at, in.Type(), "", bstr(x)))
			}
		case *ssa.MapUpdate:
			x := get(in.Map)
			m.store(st, bstr(x)+"<"+bstr(get(in.Key))+">", get(in.Value))
		case *ssa.Range:
			set(bopq{"range " + bstr(get(in.X))})
		case *ssa.Next:
			st.fresh++
			nm := "next" + strconv.Itoa(st.fresh)
			tt := in.Type().(*types.Tuple)
			var r btuple
			r = append(r, m.atom(st, nm+".ok", 1, "", ""))
			for j := 1; j < tt.Len(); j++ {
				if b, ok := tt.At(j).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					r = append(r, bopq{"?"})
					continue
				}
				kind := ".key"
				if j == 2 {
					kind = ".val"
				}
				r = append(r, m.unknownAt(st, tt.At(j).Type(), bstr(get(in.Iter))+kind+strconv.Itoa(st.fresh), "", ""))
			}
			set(r)
		case *ssa.Extract:
			if t, ok := get(in.Tuple).(btuple); ok && in.Index < len(t) {
				set(t[in.Index])
			} else {
				set(m.unknownAt(st, in.Type(), bstr(get(in.Tuple))+"#"+strconv.Itoa(in.Index), "", ""))
			}
		case *ssa.TypeAssert:
			set(m.typeAssert(st, in, get(in.X)))
		case *ssa.Select:
			set(m.unknownAt(st, in.Type(), m.freshName(st, "select"), "", ""))
		case *ssa.Store:
			v := get(in.Val)
			if c, ok := v.(bcond); ok {
				v = m.asBits(st, c)
			}
			switch a := get(in.Addr).(type) {
			case bptr:
				m.store(st, a.at, v)
			case bref:
				if c, err := strconv.Atoi(a.idx); err == nil {
					m.setByte(st, a.obj, c, m.bvOf(st, v, in.Val.Type()))
				} else {
					m.give("a byte is stored at an unknown place in " + fname(f))
				}
			}
		case *ssa.Call:
			done := false
			m.doCall(st, f, fr, depth, in, func(st2 *bstate, v bval) {
				st2.env[bkey{fr, in}] = v
				m.instrsFrom(st2, f, fr, depth, b, i+1, k)
			}, func(v bval) {
				set(v)
				done = true
			})
			if !done {
				return
			}
		default:
			if v, ok := in.(ssa.Value); ok {
				set(m.unknownAt(st, v.Type(), m.freshName(st, "v"), "", ""))
			}
		}
	}
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(b *ssa.BasicBlock) bool
	w = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if w(s) {
				return true
			}
		}
		return false
	}
	return w(from)
}

func (m *bmach) freshName(st *bstate, s string) string {
	st.fresh++
	return s + strconv.Itoa(st.fresh)
}

func (m *bmach) take(st *bstate, c bval, yes bool) {
	switch c := c.(type) {
	case bcond:
		m.learn(st, c, yes)
	case bv:
		b := c[0]
		if b.a == "" || b.a == "?" {
			return
		}
		k := 0
		if yes != b.neg {
			k = 1
		}
		st.known[bit{a: b.a, k: b.k}] = bit{k: k}
	}
}

func (m *bmach) indexAddr(st *bstate, x bval, t types.Type, ix bv) bval {
	c, isc := ix.konst()
	isByte := isByteSlice(t)
	if !isByte {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			_, isByte = byteArray(pt.Elem())
		}
	}
	switch x := x.(type) {
	case bslice:
		if isByte {
			pos := x.off.add(m.lin(ix), 1)
			if pos.isConst() {
				return bref{x.obj, strconv.FormatInt(pos.c, 10)}
			}
			return bref{x.obj, "(" + pos.String() + ")"}
		}
		pos := x.off.add(m.lin(ix), 1)
		return bptr{x.obj + "[" + pos.String() + "]"}
	case bptr:
		if isByte {
			if isc {
				return bref{x.at, strconv.FormatInt(int64(c), 10)}
			}
			return bref{x.at, "(" + bvKey(ix) + ")"}
		}
		if isc {
			return bptr{x.at + "[" + strconv.FormatInt(int64(c), 10) + "]"}
		}
		return bptr{x.at + "[" + bvKey(ix) + "]"}
	}
	return bopq{"?"}
}

func (m *bmach) slice(st *bstate, fr int, in *ssa.Slice) bval {
	lo, hi := linC(0), (*blin)(nil)
	if in.Low != nil {
		lo = m.lin(m.bvOf(st, m.val(st, fr, in.Low), in.Low.Type()))
	}
	if in.High != nil {
		hi = m.lin(m.bvOf(st, m.val(st, fr, in.High), in.High.Type()))
	}
	switch x := m.val(st, fr, in.X).(type) {
	case bslice:
		n := x.n
		if in.High != nil {
			n = hi
		}
		return bslice{x.obj, x.off.add(lo, 1), n.add(lo, -1)}
	case bptr:
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := pt.Elem().Underlying().(*types.Array); ok {
				n := linC(a.Len())
				if in.High != nil {
					n = hi
				}
				return bslice{x.at, lo, n.add(lo, -1)}
			}
		}
	case bopq:
		return bopq{x.name + "[" + lo.String() + ":" + hi.String() + "]"}
	}
	return m.unknownAt(st, in.Type(), m.freshName(st, "?slice"), "", "")
}

func (m *bmach) binInstr(st *bstate, in *ssa.BinOp, x, y bval) bval {
	if _, sgn, ok := bwidth(in.X.Type()); ok {
		a, b := m.bvOf(st, x, in.X.Type()), m.bvOf(st, y, in.Y.Type())
		return m.binop(st, in.Op, a, b, sgn)
	}
	if in.Op == token.EQL || in.Op == token.NEQ {
		neg := in.Op == token.NEQ
		res := func(v bool) bval {
			if v != neg {
				return bv{bit1}
			}
			return bv{bit0}
		}
		isNil := func(v bval) (yes, known bool, name string) {
			switch v := v.(type) {
			case bnil:
				return true, true, ""
			case berr, bstruct, bclo:
				return false, true, ""
			case biface:
				return false, true, ""
			case bptr:
				for _, as := range m.assume {
					if as.name && as.slot == "nil "+v.at {
						return false, false, v.at
					}
				}
				if len(v.at) > 1 && (v.at[0] == 'n' || v.at[0] == 'p') && strings.Trim(v.at[1:], "0123456789") == "" || strings.HasPrefix(v.at, "g:") || strings.HasPrefix(v.at, "map") {
					return false, true, ""
				}
				return false, false, v.at
			case bslice:
				if v.obj == "" {
					return true, true, ""
				}
				if n := m.fold(st, v.n); n != nil && n.isConst() && n.c > 0 {
					return false, true, ""
				}
				return false, false, v.obj
			case bopq:
				return false, false, v.name
			}
			return false, false, "?"
		}
		xn, xk, xs := isNil(x)
		yn, yk, ys := isNil(y)
		if xk && yk && (xn || yn) {
			return res(xn == yn)
		}
		if xk && xn || yk && yn {
			nm := xs
			if xk && xn {
				nm = ys
			}
			a := m.atom(st, "nil "+nm, 1, "", "")
			if neg {
				return bv{notBit(a[0])}
			}
			return a
		}
		a := m.atom(st, bstr(x)+" == "+bstr(y), 1, "", "")
		if neg {
			return bv{notBit(a[0])}
		}
		return a
	}
	return m.unknownAt(st, in.Type(), m.freshName(st, "?bin"), "", "")
}

func (m *bmach) typeAssert(st *bstate, in *ssa.TypeAssert, x bval) bval {
	yes, known := false, false
	var v bval = x
	if i, ok := x.(biface); ok {
		yes, known = types.Identical(i.t, in.AssertedType), true
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			yes, v = true, x
		} else {
			v = i.v
		}
	} else {
		for _, as := range m.assume {
			if as.op == "dyn" && bstr(x) == as.slot {
				known = true
				yes = typeKey(derefType(in.AssertedType)) == as.typ
			}
		}
		if w, _, ok := bwidth(in.AssertedType); ok {
			v = m.atom(st, bstr(x), w, "", "")
		} else if isByteSlice(in.AssertedType) {
			v = m.unknownAt(st, in.AssertedType, bstr(x), "", "")
		}
	}
	if !in.CommaOk {
		return v
	}
	ok := bval(m.atom(st, "is "+bstr(x)+" "+in.AssertedType.String(), 1, "", ""))
	if known {
		ok = bvConst(b2u(yes), 1)
	}
	return btuple{v, ok}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *bmach) toSlice(st *bstate, v bval) bslice {
	switch v := v.(type) {
	case bslice:
		return v
	case bnil:
		return bslice{"", linC(0), linC(0)}
	case bopq:
		if str, ok := strConst(v); ok {
			var it []bitem
			for j := 0; j < len(str); j++ {
				it = append(it, bitem{b: bvConst(uint64(str[j]), 8)})
			}
			return m.mkSeq(st, it)
		}
		return m.unknownAt(st, types.NewSlice(types.Typ[types.Uint8]), v.name, "", "").(bslice)
	}
	return m.unknownAt(st, types.NewSlice(types.Typ[types.Uint8]), m.freshName(st, "?bytes"), "", "").(bslice)
}

func strConst(v bval) (string, bool) {
	o, ok := v.(bopq)
	if !ok || !strings.HasPrefix(o.name, "const ") {
		return "", false
	}
	s, err := strconv.Unquote(o.name[6:])
	return s, err == nil
}

func (m *bmach) doCall(st *bstate, f *ssa.Function, fr, depth int, in *ssa.Call, k func(*bstate, bval), set func(bval)) {
	com := &in.Call
	var args []bval
	get := func(v ssa.Value) bval {
		x := m.val(st, fr, v)
		if c, ok := x.(bcond); ok {
			return m.asBits(st, c)
		}
		return x
	}
	if com.IsInvoke() {
		args = append(args, get(com.Value))
	}
	for _, a := range com.Args {
		args = append(args, get(a))
	}
	if bl, ok := com.Value.(*ssa.Builtin); ok {
		set(m.builtin(st, bl.Name(), in, args))
		return
	}
	var callee *ssa.Function
	var binds []bval
	if com.IsInvoke() {
		if i, ok := args[0].(biface); ok {
			if m.p.SSA.MethodSets.MethodSet(i.t).Lookup(com.Method.Pkg(), com.Method.Name()) == nil {
				// a writer over a buffer, see model
			} else if fn := m.p.SSA.LookupMethod(i.t, com.Method.Pkg(), com.Method.Name()); fn != nil {
				callee = fn
				args[0] = i.v
			}
		} else {
			for _, as := range m.assume {
				if as.op == "dyn" && bstr(args[0]) == as.slot {
					for _, q := range m.p.Pkgs {
						if strings.HasPrefix(as.typ, q.PkgPath+".") {
							if o := q.Types.Scope().Lookup(as.typ[len(q.PkgPath)+1:]); o != nil && m.inlineIface(com.Method.Name()) {
								callee = m.p.SSA.LookupMethod(types.NewPointer(o.Type()), com.Method.Pkg(), com.Method.Name())
							}
						}
					}
				}
			}
		}
	} else {
		callee = com.StaticCallee()
		if callee == nil {
			if c, ok := m.val(st, fr, com.Value).(bclo); ok {
				callee, binds = c.f, c.binds
			}
		} else if c, ok := m.val(st, fr, com.Value).(bclo); ok {
			binds = c.binds
		}
	}
	full := ""
	if callee != nil {
		full = callee.String()
	} else if com.IsInvoke() {
		full = "I:" + com.Method.Name()
	} else if b := bstr(m.val(st, fr, com.Value)); b != "?" {
		full = "V:" + b
	}
	if m.calls != nil {
		if v, ok := m.calls(st, full, args); ok {
			set(v)
			return
		}
	}
	if v, ok := m.model(st, full, args, in); ok {
		set(v)
		return
	}
	if callee != nil && len(callee.Blocks) > 0 && depth < bitsDepth && (m.p.isRepoFunc(callee) || callee.Synthetic != "") {
		m.call(st, callee, args, binds, depth+1, func(st2 *bstate, res []bval) {
			switch len(res) {
			case 0:
				k(st2, bopq{"void"})
			case 1:
				k(st2, res[0])
			default:
				k(st2, btuple(res))
			}
		})
		return
	}
	var as []string
	for _, a := range args {
		as = append(as, bstr(a))
	}
	set(m.unknownAt(st, in.Type(), "call "+full+"("+strings.Join(as, ",")+")", "", ""))
}

// inlineIface: small accessors of the dynamic type are looked into, the
// serialisers of other layers are not.
func (m *bmach) inlineIface(name string) bool { return name != "Marshal" }

func (m *bmach) builtin(st *bstate, name string, in *ssa.Call, args []bval) bval {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case bslice:
			r := m.bits(x.n, 64)
			if x.n != nil && x.n.c == 0 && len(x.n.t) == 1 {
				for a := range x.n.t {
					if m.atoms[a].w == 63 {
						m.atom(st, a, 63, "", "")
					}
				}
			}
			return m.res(st, r)
		case bopq:
			if str, ok := strConst(x); ok {
				return bvConst(uint64(len(str)), 64)
			}
			return m.bits(m.lenOf(x.name), 64)
		default:
			if t, ok := in.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := t.Elem().Underlying().(*types.Array); ok {
					return bvConst(uint64(a.Len()), 64)
				}
			}
			return m.bits(m.lenOf(bstr(x)), 64)
		}
	case "cap":
		return m.atom(st, m.freshName(st, "cap"), 64, "", "")
	case "append":
		if !isByteSlice(in.Type()) {
			return m.appendAny(st, in, args)
		}
		a, b := m.toSlice(st, args[0]), m.toSlice(st, args[1])
		it := append([]bitem(nil), m.items(st, a)...)
		it = append(it, m.items(st, b)...)
		return m.mkSeq(st, it)
	case "copy":
		if !isByteSlice(in.Call.Args[0].Type()) {
			return m.atom(st, m.freshName(st, "copy"), 64, "", "")
		}
		d, s := m.toSlice(st, args[0]), m.toSlice(st, args[1])
		m.copyInto(st, d, m.items(st, s))
		if d.n.isConst() && s.n.isConst() {
			n := d.n.c
			if s.n.c < n {
				n = s.n.c
			}
			return bvConst(uint64(n), 64)
		}
		return m.bits(s.n, 64)
	case "delete":
		if mt, ok := in.Call.Args[0].Type().Underlying().(*types.Map); ok {
			at := bstr(args[0]) + "<" + bstr(args[1]) + ">"
			m.store(st, at, m.zero(st, mt.Elem(), at))
		}
		return bopq{"void"}
	}
	if v, ok := interface{}(in).(ssa.Value); ok {
		return m.unknownAt(st, v.Type(), m.freshName(st, name), "", "")
	}
	return bopq{"?"}
}

// appendAny: lists of other things, element by element while their number
// is known.
func (m *bmach) appendAny(st *bstate, in *ssa.Call, args []bval) bval {
	at := m.freshName(st, "app")
	a, ok1 := args[0].(bslice)
	b, ok2 := args[1].(bslice)
	if _, isn := args[0].(bnil); isn {
		a, ok1 = bslice{"", linC(0), linC(0)}, true
	}
	if ok1 && ok2 {
		a.n, a.off, b.n, b.off = m.fold(st, a.n), m.fold(st, a.off), m.fold(st, b.n), m.fold(st, b.off)
	}
	if !ok1 || !ok2 || !a.n.isConst() || !b.n.isConst() || !a.off.isConst() || !b.off.isConst() || a.n.c+b.n.c > 64 {
		return m.unknownAt(st, in.Type(), at, "", "")
	}
	k := int64(0)
	for _, s := range []bslice{a, b} {
		for i := int64(0); i < s.n.c; i++ {
			from := s.obj + "[" + strconv.FormatInt(s.off.c+i, 10) + "]"
			to := at + "[" + strconv.FormatInt(k, 10) + "]"
			if v, ok := st.mem[from]; ok {
				st.mem[to] = v
			} else {
				m.store(st, to, bstruct{from})
			}
			k++
		}
	}
	return bslice{at, linC(0), linC(k)}
}

func (m *bmach) emit(st *bstate, v bval) {
	st.out = append(st.out, m.items(st, m.toSlice(st, v))...)
}

// readIn takes n bytes of the input.
func (m *bmach) readIn(st *bstate, n *blin) []bitem {
	var it []bitem
	if n.isConst() && n.c >= 0 && n.c <= 64 {
		for j := int64(0); j < n.c; j++ {
			it = append(it, bitem{b: m.atom(st, "in["+st.in.add(linC(j), 1).String()+"]", 8, "", "in")})
		}
	} else {
		it = append(it, bitem{seg: "in", off: st.in, n: n})
	}
	st.in = st.in.add(n, 1)
	return it
}

// bufOf: the bytes.Buffer a value is.
func (m *bmach) bufOf(v bval) string {
	if i, ok := v.(biface); ok {
		if typeKey(derefType(i.t)) != "bytes.Buffer" {
			return ""
		}
		v = i.v
	}
	if b, ok := v.(bptr); ok {
		return b.at
	}
	return ""
}

// bufBehind: the bytes.Buffer an interface holds.
func (m *bmach) bufBehind(v bval) string {
	if _, ok := v.(biface); ok {
		return m.bufOf(v)
	}
	return ""
}

// buf: what a buffer holds; one that was there before holds something.
func (m *bmach) buf(st *bstate, at string) *bseq {
	q := st.seqs["buf "+at]
	if q == nil {
		q = &bseq{}
		if strings.HasPrefix(at, "p") {
			q.items = []bitem{{seg: "old buf " + at, off: linC(0), n: m.lenOf("old buf " + at)}}
		}
		st.seqs["buf "+at] = q
	}
	return q
}

func (m *bmach) model(st *bstate, full string, args []bval, in *ssa.Call) (bval, bool) {
	ints := func(i, w int) bv {
		if x, ok := args[i].(bv); ok && len(x) == w {
			return m.res(st, x)
		}
		return bvUnknown(w)
	}
	big := strings.Contains(full, "binary.bigEndian)")
	if big || strings.Contains(full, "binary.littleEndian)") {
		nm := full[strings.LastIndex(full, ".")+1:]
		w := 0
		switch {
		case strings.HasSuffix(nm, "16"):
			w = 2
		case strings.HasSuffix(nm, "32"):
			w = 4
		case strings.HasSuffix(nm, "64"):
			w = 8
		}
		if w == 0 {
			return nil, false
		}
		at := func(i int) int {
			if big {
				return 8 * (w - 1 - i)
			}
			return 8 * i
		}
		switch {
		case strings.HasPrefix(nm, "PutUint"), strings.HasPrefix(nm, "AppendUint"):
			x := ints(2, 8*w)
			var it []bitem
			for i := 0; i < w; i++ {
				it = append(it, bitem{b: append(bv(nil), x[at(i):at(i)+8]...)})
			}
			s := m.toSlice(st, args[1])
			if strings.HasPrefix(nm, "Append") {
				return m.mkSeq(st, append(append([]bitem(nil), m.items(st, s)...), it...)), true
			}
			if !s.off.isConst() {
				m.give("an integer is written at an unknown place")
				return bopq{"void"}, true
			}
			for i, x := range it {
				m.setByte(st, s.obj, int(s.off.c)+i, x.b)
			}
			return bopq{"void"}, true
		case strings.HasPrefix(nm, "Uint"):
			s := m.toSlice(st, args[1])
			r := make(bv, 8*w)
			for i := 0; i < w; i++ {
				var x bv
				if s.off.isConst() {
					x = m.byteAt(st, s.obj, int(s.off.c)+i)
				} else {
					x = m.atom(st, s.obj+"[("+s.off.add(linC(int64(i)), 1).String()+")]", 8, "", s.obj)
				}
				copy(r[at(i):], x)
			}
			return r, true
		}
	}
	switch {
	case full == "I:ReadN":
		n := m.lin(m.bvOf(st, args[1], types.Typ[types.Uint32]))
		if n == nil {
			return btuple{m.mkSeq(st, []bitem{{seg: "?", off: linC(0), n: m.lenOf("?")}}), bnil{}}, true
		}
		return btuple{m.mkSeq(st, m.readIn(st, n)), bnil{}}, true
	case full == "I:ReadFull" || full == "io.ReadFull":
		s := m.toSlice(st, args[len(args)-1])
		m.copyInto(st, s, m.readIn(st, s.n))
		if full == "I:ReadFull" {
			return bnil{}, true
		}
		return btuple{m.bits(s.n, 64), bnil{}}, true
	case (full == "I:WriteFull" || full == "I:Write") && m.bufBehind(args[0]) != "":
		q := m.buf(st, m.bufBehind(args[0]))
		d := m.toSlice(st, args[1])
		q.items = append(append([]bitem(nil), q.items...), m.items(st, d)...)
		if full == "I:Write" {
			return btuple{m.bits(d.n, 64), bnil{}}, true
		}
		return bnil{}, true
	case full == "I:WriteFull":
		m.emit(st, args[1])
		return bnil{}, true
	case full == "I:Write":
		m.emit(st, args[1])
		return btuple{m.bits(m.toSlice(st, args[1]).n, 64), bnil{}}, true
	case full == "bytes.NewBuffer":
		st.fresh++
		b := bptr{"nb" + strconv.Itoa(st.fresh)}
		st.seqs["buf "+b.at] = &bseq{items: m.items(st, m.toSlice(st, args[0]))}
		return b, true
	case strings.HasSuffix(full, "/easyio.NewEasyWriter"), strings.HasSuffix(full, "/easyio.NewEasyReader"):
		if m.bufBehind(args[0]) != "" {
			return args[0], true
		}
	case full == "io.ReadAll", full == "io/ioutil.ReadAll":
		if at := m.bufBehind(args[0]); at != "" {
			q := m.buf(st, at)
			it := append([]bitem(nil), q.items...)
			q.items = nil
			return btuple{m.mkSeq(st, it), bnil{}}, true
		}
	case full == "(*bytes.Buffer).Write", full == "(*bytes.Buffer).WriteByte", full == "(*bytes.Buffer).Bytes", full == "(*bytes.Buffer).Len", full == "(*bytes.Buffer).Reset":
		at := m.bufOf(args[0])
		if at == "" {
			return nil, false
		}
		b := bptr{at}
		q := m.buf(st, at)
		switch {
		case strings.HasSuffix(full, "Reset"):
			q.items = nil
			return bopq{"void"}, true
		case strings.HasSuffix(full, "Bytes"):
			return bslice{"buf " + b.at, linC(0), itemsLen(q.items)}, true
		case strings.HasSuffix(full, "Len"):
			return m.bits(itemsLen(q.items), 64), true
		case strings.HasSuffix(full, "WriteByte"):
			q.items = append(q.items, bitem{b: m.bvOf(st, args[1], types.Typ[types.Uint8])})
			return bnil{}, true
		}
		s := m.toSlice(st, args[1])
		q.items = append(q.items, m.items(st, s)...)
		return btuple{m.bits(s.n, 64), bnil{}}, true
	case strings.HasPrefix(full, "fmt.Print"), strings.HasPrefix(full, "log."):
		return btuple{bvUnknown(64), bnil{}}, true
	case strings.HasPrefix(full, "fmt.Errorf"), strings.HasPrefix(full, "errors."), strings.HasPrefix(full, "github.com/pkg/errors."):
		return berr{}, true
	case strings.Contains(full, "easyerrors"):
		return bnil{}, true
	}
	return nil, false
}
