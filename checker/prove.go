package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Eng is the bounds engine: linear-inequality facts over SSA values, slice
// lengths and versioned memory cells, with loop invariants inferred by
// Houdini-style pruning and calls summarised by their return sites.
type Eng struct {
	finals map[*ssa.Alloc]*ssa.Store // captured variables assigned once
	p      *Prog
	mods   *modInfo

	frames map[string]*Frame
	atoms  map[string]int
	info   []*atomInfo

	linCache map[string]Lin
	linBusy  map[string]bool
	lenCache map[string]Lin
	invs     map[string][]Cons // loop header -> invariants
	invBusy  map[string]bool
	journal  []func()
	logging  int

	lpCalls   int
	budget    int
	facCache  map[string]*State
	dom       map[*ssa.Function]*domInfo
	debug     bool
	invariant func(e *Eng, li loadInfo, t types.Type) (lo, hi *int64) // field range invariants
	fields    *fieldInv
	ginit     map[string]*ssa.Store
	gelems    map[*ssa.Global]gelem
}

type atomInfo struct {
	id    int
	name  string
	lo    int64
	hi    int64
	hasLo bool
	hasHi bool
	mag   int // log2 of the assumed magnitude
	facts func() []Cons
	done  bool
	fs    []Cons
	// where the value comes from, for splitting
	fr    *Frame
	v     ssa.Value
	isLen bool
	mem   *loadInfo
	at    *Frame
}

func newEng(p *Prog) *Eng {
	return &Eng{p: p, finals: map[*ssa.Alloc]*ssa.Store{}, mods: newModInfo(p), frames: map[string]*Frame{}, atoms: map[string]int{}, linCache: map[string]Lin{}, linBusy: map[string]bool{}, lenCache: map[string]Lin{}, invs: map[string][]Cons{}, invBusy: map[string]bool{}, facCache: map[string]*State{}, dom: map[*ssa.Function]*domInfo{}, gelems: map[*ssa.Global]gelem{}, debug: os.Getenv("GGDEBUG") != ""}
}

func (e *Eng) frame(parent *Frame, site ssa.CallInstruction, fn *ssa.Function) *Frame {
	k := fmt.Sprintf("%s#%d", fn.String(), fn.Pos())
	d := 0
	if parent != nil {
		si := 0
		if site != nil {
			b := site.Block()
			for i, x := range b.Instrs {
				if x == site.(ssa.Instruction) {
					si = b.Index*100000 + i
				}
			}
		}
		k = fmt.Sprintf("%d/%d/%s", parent.id, si, k)
		d = parent.depth + 1
	}
	if f, ok := e.frames[k]; ok {
		return f
	}
	f := &Frame{fn: fn, parent: parent, site: site, id: len(e.frames) + 1, depth: d}
	e.frames[k] = f
	return f
}

func (e *Eng) inChain(fr *Frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (e *Eng) newAtom(name string, mk func(*atomInfo)) int {
	if a, ok := e.atoms[name]; ok {
		return a
	}
	a := &atomInfo{id: len(e.info), name: name, mag: 61}
	e.info = append(e.info, a)
	e.atoms[name] = a.id
	if mk != nil {
		mk(a)
	}
	return a.id
}

func intRange(t types.Type) (lo, hi int64, hasLo, hasHi bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, 0, false, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true, true
	case types.Uint16:
		return 0, 65535, true, true
	case types.Uint32:
		return 0, 1<<32 - 1, true, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 0, 0, true, false
	case types.Int8:
		return -128, 127, true, true
	case types.Int16:
		return -32768, 32767, true, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true, true
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 0, 0, false, false
	}
	return 0, 0, false, false
}

func isIntType(t types.Type) bool { return isInt(t) }

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func is64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		return true
	}
	return false
}

// opaque makes an atom for an integer value, with its type's range.
func (e *Eng) opaque(fr *Frame, v ssa.Value, facts func() []Cons, mag int) Lin {
	return atomLin(e.newAtom(e.refKey(fr, v), func(a *atomInfo) {
		a.lo, a.hi, a.hasLo, a.hasHi = intRange(v.Type())
		a.fr, a.v, a.facts = fr, v, facts
		if a.hasHi {
			a.mag = 32
		} else {
			a.mag = mag
		}
	}))
}

func (e *Eng) jput(undo func()) {
	if e.logging > 0 {
		e.journal = append(e.journal, undo)
	}
}

func constInt(c *ssa.Const) (int64, bool) {
	if c.Value == nil {
		return 0, false
	}
	if c.Value.Kind() == constant.Int {
		if v, ok := constant.Int64Val(c.Value); ok {
			return v, true
		}
	}
	return 0, false
}

// mag estimates log2 of the magnitude a linear form may reach.
func (e *Eng) magOf(l Lin) int {
	if !l.ok {
		return 99
	}
	m := 0
	n := 0
	for _, t := range l.t {
		k := t.k
		if k < 0 {
			k = -k
		}
		b := e.info[t.a].mag
		for k > 1 {
			b++
			k >>= 1
		}
		if b > m {
			m = b
		}
		n++
	}
	if n > 1 && m < 61 {
		m++
	}
	return m
}

// lin is the linear form of integer value v in frame fr.
func (e *Eng) lin(fr *Frame, v ssa.Value) Lin {
	switch x := v.(type) {
	case *ssa.Const:
		if c, ok := constInt(x); ok {
			return cst(c)
		}
		if x.Value == nil {
			return cst(0)
		}
		// large unsigned constants
		return e.opaque(fr, v, nil, 64)
	case *ssa.Parameter:
		if fr.parent != nil {
			if a := argFor(fr, x); a != nil {
				return e.lin(fr.parent, a)
			}
		}
		return e.opaque(fr, v, nil, 48)
	}
	k := fmt.Sprintf("%d|%s", fr.id, valName(v))
	if l, ok := e.linCache[k]; ok {
		return l
	}
	if e.linBusy[k] {
		return e.opaque(fr, v, nil, 61)
	}
	e.linBusy[k] = true
	l := e.lin1(fr, v)
	delete(e.linBusy, k)
	if !l.ok {
		l = e.opaque(fr, v, nil, 61)
	}
	e.linCache[k] = l
	e.jput(func() { delete(e.linCache, k) })
	return l
}

func (e *Eng) defBlock(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

// within: can we show lo <= l <= hi (of type t) at v's definition?
func (e *Eng) fits(fr *Frame, v ssa.Value, l Lin, t types.Type) bool {
	if !l.ok {
		return false
	}
	lo, hi, hasLo, hasHi := intRange(t)
	if is64(t) {
		if e.magOf(l) > 61 {
			if !e.proveAt(fr, v, cst(linLimit-1).sub(l)) || !hasLo && !e.proveAt(fr, v, l.addc(linLimit-1)) {
				return false
			}
		}
		return !hasLo || e.proveAt(fr, v, l)
	}
	ok := true
	if hasHi {
		if h, has := e.upper(l); has {
			ok = h <= hi
		} else {
			ok = false
		}
		if !ok {
			ok = e.proveAt(fr, v, cst(hi).sub(l))
		}
	}
	if ok && hasLo {
		if h, has := e.lower(l); has && h >= lo {
			return true
		}
		ok = e.proveAt(fr, v, l.addc(-lo))
	}
	return ok
}

func (e *Eng) upper(l Lin) (int64, bool) {
	if !l.ok {
		return 0, false
	}
	s := cst(l.c)
	for _, t := range l.t {
		a := e.info[t.a]
		var b int64
		if t.k > 0 {
			if !a.hasHi {
				return 0, false
			}
			b = a.hi
		} else {
			if !a.hasLo {
				return 0, false
			}
			b = a.lo
		}
		m, o := mulOK(b, t.k)
		if !o {
			return 0, false
		}
		s = s.addc(m)
		if !s.ok {
			return 0, false
		}
	}
	return s.c, true
}
func (e *Eng) lower(l Lin) (int64, bool) {
	h, ok := e.upper(l.scale(-1))
	return -h, ok
}

func (e *Eng) proveAt(fr *Frame, v ssa.Value, goal Lin) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	st := e.factsAt(fr, in.Block())
	return e.prove(st, goal, 2)
}

func (e *Eng) lin1(fr *Frame, v ssa.Value) Lin {
	switch x := v.(type) {
	case *ssa.BinOp:
		return e.linBin(fr, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			l := e.lin(fr, x.X).scale(-1)
			if e.fits(fr, v, l, v.Type()) {
				return l
			}
		case token.MUL:
			if li, ok := e.resolveLoad(fr, x.X, x); ok {
				if li.val != nil {
					return e.lin(li.valFr, li.val)
				}
				return atomLin(e.memAtom(li, x.Type(), false))
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if _, isSl := ia.X.Type().Underlying().(*types.Slice); isSl && is64(x.Type()) {
					return e.opaque(fr, v, func() []Cons { return e.elemFacts(fr, ia.X, e.lin(fr, v)) }, 61)
				}
				if g, ok := ia.X.(*ssa.Global); ok {
					if lo, hi, ok := e.globalElems(g); ok {
						return atomLin(e.newAtom(e.refKey(fr, v), func(a *atomInfo) {
							a.lo, a.hi, a.hasLo, a.hasHi, a.mag = lo, hi, true, true, 32
						}))
					}
				}
			}
		}
	case *ssa.Convert:
		if isInt(x.X.Type()) && isInt(x.Type()) {
			l := e.lin(fr, x.X)
			if e.fits(fr, v, l, x.Type()) && (is64(x.Type()) == false || is64(x.X.Type()) == false || e.convOK64(fr, x, l)) {
				return l
			}
			mag := 61
			if is64(x.Type()) {
				mag = 64
			}
			return e.opaque(fr, v, nil, mag)
		}
	case *ssa.ChangeType:
		return e.lin(fr, x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len":
				return e.lenOf(fr, x.Call.Args[0])
			case "cap":
				l := e.lenOf(fr, x.Call.Args[0])
				return e.opaque(fr, v, func() []Cons { return []Cons{ge0(atomLin(e.atoms[e.refKey(fr, v)]).sub(l))} }, 48)
			case "copy":
				return e.opaque(fr, v, func() []Cons {
					a := e.lin(fr, v)
					return []Cons{ge0(a), ge0(e.lenOf(fr, x.Call.Args[0]).sub(a)), ge0(e.lenOf(fr, x.Call.Args[1]).sub(a))}
				}, 48)
			case "min", "max":
				return e.opaque(fr, v, func() []Cons {
					a := e.lin(fr, v)
					var cs []Cons
					for _, g := range x.Call.Args {
						d := e.lin(fr, g).sub(a)
						if b.Name() == "max" {
							d = d.scale(-1)
						}
						cs = append(cs, ge0(d))
					}
					return cs
				}, 61)
			}
		}
		return e.opaque(fr, v, func() []Cons { return e.contractInt(fr, &x.Call, x, 0, e.lin(fr, v)) }, e.callMag(x))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return e.opaque(fr, v, func() []Cons { return e.contractInt(fr, &c.Call, c, x.Index, e.lin(fr, v)) }, e.callMag(c))
		}
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 {
			return e.opaque(fr, v, func() []Cons {
				a := e.lin(fr, v)
				cs := []Cons{ge0(a)}
				if n.IsString {
					if r, ok := n.Iter.(*ssa.Range); ok {
						cs = append(cs, ge0(e.lenOf(fr, r.X).sub(a)))
					}
				}
				return cs
			}, 48)
		}
	case *ssa.Phi:
		if l, ok := e.samePhi(fr, x); ok {
			return l
		}
		return e.opaque(fr, v, func() []Cons { return e.phiFacts(fr, x) }, e.phiMag(fr, x))
	case *ssa.Field:
		return atomLin(e.newAtom(e.refKey(fr, v), func(a *atomInfo) {
			a.lo, a.hi, a.hasLo, a.hasHi = intRange(v.Type())
			if a.hasHi {
				a.mag = 32
			}
		}))
	}
	return e.opaque(fr, v, nil, 61)
}

// phiMag: a counter stepped by one is assumed to stay below 2^29 within one
// loop; other loop variables are offsets (below 2^48).
func (e *Eng) phiMag(fr *Frame, p *ssa.Phi) int {
	if e.isLoopHeader(p.Block()) {
		m := 29
		in := e.loopBlocks(p.Block())
		for i, ed := range p.Edges {
			if ed == ssa.Value(p) {
				continue
			}
			if c, ok := ed.(*ssa.Const); ok {
				if v, ok := constInt(c); ok && v < 1<<20 && v > -1<<20 {
					continue
				}
			}
			if b, ok := ed.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(p) {
				if c, ok := b.Y.(*ssa.Const); ok {
					if v, ok := constInt(c); ok && v == 1 {
						continue
					}
				}
			}
			if m < 48 {
				m = 48
			}
			if !in[p.Block().Preds[i]] {
				if x := e.magOf(e.lin(fr, ed)); x > m {
					m = x
				}
			} else if untrusted(ed, 0) {
				m = 64
			}
		}
		return m
	}
	m := 0
	for _, ed := range p.Edges {
		if x := e.magOf(e.lin(fr, ed)); x > m {
			m = x
		}
	}
	return m
}

// untrusted: a 64-bit value that a peer chooses freely.
func untrusted(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return f != nil && f.Blocks == nil && (strings.Contains(f.String(), "ndian).Uint64") || strings.HasPrefix(f.String(), "strconv."))
	case *ssa.Extract:
		return untrusted(x.Tuple, d+1)
	case *ssa.Convert:
		return untrusted(x.X, d+1)
	case *ssa.BinOp:
		return untrusted(x.X, d+1) || untrusted(x.Y, d+1)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if ed != v && untrusted(ed, d+1) {
				return true
			}
		}
	}
	return false
}

// convOK64 decides 64-bit sign changes.
func (e *Eng) convOK64(fr *Frame, x *ssa.Convert, l Lin) bool {
	_, _, sl, _ := intRange(x.X.Type())
	_, _, dl, _ := intRange(x.Type())
	if sl == dl {
		return true
	}
	if sl { // unsigned -> signed: value must stay below 2^63
		if e.magOf(l) <= 61 {
			return true
		}
		if e.proveAt(fr, x, cst(linLimit-1).sub(l)) {
			return true
		}
		return false
	}
	return e.proveAt(fr, x, l)
}

func (e *Eng) callMag(c *ssa.Call) int {
	f := c.Call.StaticCallee()
	if f == nil {
		return 61
	}
	if f.Blocks != nil {
		return 61
	}
	n := f.String()
	if strings.Contains(n, "ndian).Uint64") || strings.HasPrefix(n, "strconv.") || strings.Contains(n, "varint") {
		return 64
	}
	return 61
}

func (e *Eng) memAtom(li loadInfo, t types.Type, isLen bool) int {
	name := li.name()
	if isLen {
		name = "len:" + name
	}
	l2 := li
	return e.newAtom(name, func(a *atomInfo) {
		if isLen {
			a.lo, a.hasLo, a.mag = 0, true, 48
		} else {
			a.lo, a.hi, a.hasLo, a.hasHi = intRange(t)
			if a.hasHi {
				a.mag = 32
			} else {
				a.mag = 60
			}
		}
		a.mem = &l2
		a.isLen = isLen
		if e.invariant != nil && !isLen {
			lo, hi := e.invariant(e, li, t)
			if lo != nil && (!a.hasLo || *lo > a.lo) {
				a.lo, a.hasLo = *lo, true
			}
			if hi != nil && (!a.hasHi || *hi < a.hi) {
				a.hi, a.hasHi = *hi, true
			}
			if a.hasHi && a.hasLo {
				a.mag = 1
				for h := a.hi; h > 1; h >>= 1 {
					a.mag++
				}
			}
		}
	})
}

func (e *Eng) samePhi(fr *Frame, x *ssa.Phi) (Lin, bool) {
	var k string
	var w ssa.Value
	for _, ed := range x.Edges {
		if ed == ssa.Value(x) {
			continue
		}
		r := e.refKey(fr, ed)
		if k == "" {
			k, w = r, ed
		} else if k != r {
			return Lin{}, false
		}
	}
	if w == nil || e.isLoopHeader(x.Block()) {
		return Lin{}, false
	}
	return e.lin(fr, w), true
}

func (e *Eng) linBin(fr *Frame, x *ssa.BinOp) Lin {
	if !isInt(x.Type()) {
		return Lin{}
	}
	switch x.Op {
	case token.ADD, token.SUB:
		a, b := e.lin(fr, x.X), e.lin(fr, x.Y)
		var l Lin
		if x.Op == token.ADD {
			l = a.add(b)
		} else {
			l = a.sub(b)
		}
		if e.fits(fr, x, l, x.Type()) {
			return l
		}
		return e.opaque(fr, x, nil, 64)
	case token.MUL:
		a, b := e.lin(fr, x.X), e.lin(fr, x.Y)
		var l Lin
		if b.isConst() {
			l = a.scale(b.c)
		} else if a.isConst() {
			l = b.scale(a.c)
		} else {
			m := e.magOf(a) + e.magOf(b)
			if m > 61 {
				return e.opaque(fr, x, nil, 64)
			}
			return e.opaque(fr, x, func() []Cons {
				nn := func(l Lin) bool {
					if v, ok := e.lower(l); ok && v >= 0 {
						return true
					}
					return e.proveAt(fr, x, l)
				}
				if !is64(x.Type()) || !nn(a) || !nn(b) {
					return nil
				}
				cs := []Cons{ge0(e.lin(fr, x))}
				if h, ok := e.upper(a); ok {
					cs = append(cs, ge0(b.scale(h).sub(e.lin(fr, x))))
				}
				if h, ok := e.upper(b); ok {
					cs = append(cs, ge0(a.scale(h).sub(e.lin(fr, x))))
				}
				return cs
			}, m)
		}
		if e.fits(fr, x, l, x.Type()) {
			return l
		}
		return e.opaque(fr, x, nil, 64)
	case token.SHL:
		a, b := e.lin(fr, x.X), e.lin(fr, x.Y)
		if b.isConst() && b.c >= 0 && b.c < 60 {
			l := a.scale(1 << uint(b.c))
			if e.fits(fr, x, l, x.Type()) {
				return l
			}
		}
		return e.opaque(fr, x, nil, 64)
	case token.QUO, token.SHR:
		a, b := e.lin(fr, x.X), e.lin(fr, x.Y)
		d := int64(0)
		if b.isConst() {
			if x.Op == token.QUO {
				d = b.c
			} else if b.c >= 0 && b.c < 60 {
				d = 1 << uint(b.c)
			}
		}
		if a.isConst() && d > 0 && a.c >= 0 {
			return cst(a.c / d)
		}
		return e.opaque(fr, x, func() []Cons {
			q := e.lin(fr, x)
			if d <= 0 {
				if lo, ok := e.lower(a); ok && lo >= 0 {
					return []Cons{ge0(q), ge0(a.sub(q))}
				}
				return nil
			}
			nonneg := false
			if lo, ok := e.lower(a); ok && lo >= 0 {
				nonneg = true
			} else {
				nonneg = e.proveAt(fr, x, a)
			}
			if x.Op == token.SHR || nonneg {
				cs := []Cons{ge0(a.sub(q.scale(d))), ge0(q.scale(d).add(cst(d - 1)).sub(a))}
				if nonneg {
					cs = append(cs, ge0(q))
				}
				return cs
			}
			return nil
		}, 61)
	case token.REM:
		a, b := e.lin(fr, x.X), e.lin(fr, x.Y)
		return e.opaque(fr, x, func() []Cons {
			r := e.lin(fr, x)
			var cs []Cons
			nonneg := false
			if lo, ok := e.lower(a); ok && lo >= 0 {
				nonneg = true
			} else {
				nonneg = e.proveAt(fr, x, a)
			}
			if nonneg {
				cs = append(cs, ge0(r), ge0(a.sub(r)))
			}
			if b.isConst() && b.c > 0 {
				cs = append(cs, ge0(cst(b.c-1).sub(r)), ge0(r.addc(b.c-1)))
			} else if lo, ok := e.lower(b); ok && lo >= 1 {
				cs = append(cs, ge0(b.sub(r).addc(-1)))
			}
			return cs
		}, 61)
	case token.AND:
		a, b := e.lin(fr, x.X), e.lin(fr, x.Y)
		return e.opaque(fr, x, func() []Cons {
			r := e.lin(fr, x)
			var cs []Cons
			for _, o := range []Lin{a, b} {
				if lo, ok := e.lower(o); ok && lo >= 0 {
					cs = append(cs, ge0(r), ge0(o.sub(r)))
				}
			}
			return cs
		}, 61)
	case token.OR, token.XOR:
		a, b := e.lin(fr, x.X), e.lin(fr, x.Y)
		// disjoint bits: exact sum
		if x.Op == token.OR || x.Op == token.XOR {
			if s, ok := e.disjointOr(fr, x, a, b); ok && e.fits(fr, x, s, x.Type()) {
				return s
			}
		}
		return e.opaque(fr, x, func() []Cons {
			r := e.lin(fr, x)
			lo1, ok1 := e.lower(a)
			lo2, ok2 := e.lower(b)
			if ok1 && ok2 && lo1 >= 0 && lo2 >= 0 {
				cs := []Cons{ge0(r), ge0(a.add(b).sub(r))}
				if x.Op == token.OR {
					cs = append(cs, ge0(r.sub(a)), ge0(r.sub(b)))
				}
				return cs
			}
			return nil
		}, 61)
	case token.AND_NOT:
		a := e.lin(fr, x.X)
		return e.opaque(fr, x, func() []Cons {
			if lo, ok := e.lower(a); ok && lo >= 0 {
				r := e.lin(fr, x)
				return []Cons{ge0(r), ge0(a.sub(r))}
			}
			return nil
		}, 61)
	}
	return Lin{}
}

func (e *Eng) disjointOr(fr *Frame, x *ssa.BinOp, a, b Lin) (Lin, bool) {
	// a multiple of 2^k, 0 <= b < 2^k
	for _, pr := range [][2]Lin{{a, b}, {b, a}} {
		m, o := pr[0], pr[1]
		if !m.ok || !o.ok {
			return Lin{}, false
		}
		g := gcd(m.c, 0)
		for _, t := range m.t {
			g = gcd(g, t.k)
		}
		if g == 0 {
			return o, true
		}
		p := g & -g
		lo, ok1 := e.lower(o)
		hi, ok2 := e.upper(o)
		ml, ok3 := e.lower(m)
		if ok1 && ok2 && ok3 && lo >= 0 && ml >= 0 && hi < p {
			return m.add(o), true
		}
	}
	return Lin{}, false
}

// lenOf is the length of a slice, string, array or pointer to array.
func (e *Eng) lenOf(fr *Frame, v ssa.Value) Lin {
	t := v.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return cst(a.Len())
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return cst(0)
		}
		if x.Value.Kind() == constant.String {
			return cst(int64(len(constant.StringVal(x.Value))))
		}
	case *ssa.Parameter:
		if fr.parent != nil {
			if a := argFor(fr, x); a != nil {
				return e.lenOf(fr.parent, a)
			}
		}
	}
	k := fmt.Sprintf("%d|%s", fr.id, valName(v))
	if l, ok := e.lenCache[k]; ok {
		return l
	}
	if e.linBusy["len"+k] {
		return e.lenAtom(fr, v, nil)
	}
	e.linBusy["len"+k] = true
	l := e.lenOf1(fr, v)
	delete(e.linBusy, "len"+k)
	if !l.ok {
		l = e.lenAtom(fr, v, nil)
	}
	e.lenCache[k] = l
	e.jput(func() { delete(e.lenCache, k) })
	return l
}

func (e *Eng) lenAtom(fr *Frame, v ssa.Value, facts func() []Cons) Lin {
	return atomLin(e.newAtom("len:"+e.refKey(fr, v), func(a *atomInfo) {
		a.lo, a.hasLo, a.mag = 0, true, 48
		a.isLen = true
		a.fr, a.v, a.facts = fr, v, facts
	}))
}

func (e *Eng) lenOf1(fr *Frame, v ssa.Value) Lin {
	switch x := v.(type) {
	case *ssa.Slice:
		lo := cst(0)
		if x.Low != nil {
			lo = e.lin(fr, x.Low)
		}
		var hi Lin
		if x.High != nil {
			hi = e.lin(fr, x.High)
		} else {
			hi = e.lenOf(fr, x.X)
		}
		return hi.sub(lo)
	case *ssa.MakeSlice:
		return e.lin(fr, x.Len)
	case *ssa.Convert:
		if isBytesOrString(x.X.Type()) && isBytesOrString(x.Type()) {
			return e.lenOf(fr, x.X)
		}
	case *ssa.ChangeType:
		return e.lenOf(fr, x.X)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return e.lenOf(fr, x.X).add(e.lenOf(fr, x.Y))
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			l := e.lenOf(fr, x.Call.Args[0])
			if len(x.Call.Args) > 1 {
				l = l.add(e.lenOf(fr, x.Call.Args[1]))
			}
			return l
		}
		return e.lenAtom(fr, v, func() []Cons { return e.contractLen(fr, &x.Call, x, 0, e.lenOf(fr, v)) })
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return e.lenAtom(fr, v, func() []Cons { return e.contractLen(fr, &c.Call, c, x.Index, e.lenOf(fr, v)) })
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if li, ok := e.resolveLoad(fr, x.X, x); ok {
				if li.val != nil {
					return e.lenOf(li.valFr, li.val)
				}
				return atomLin(e.memAtom(li, x.Type(), true))
			}
		}
	case *ssa.Phi:
		if !e.isLoopHeader(x.Block()) {
			k := ""
			same := true
			for _, ed := range x.Edges {
				r := e.lenOf(fr, ed).key()
				if k == "" {
					k = r
				} else if r != k {
					same = false
				}
			}
			if same {
				return e.lenOf(fr, x.Edges[0])
			}
		}
		return e.lenAtom(fr, v, func() []Cons { return e.phiFacts(fr, x) })
	}
	return e.lenAtom(fr, v, nil)
}

func isBytesOrString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// contractInt: what is known about integer results of calls without a body.
func (e *Eng) contractInt(fr *Frame, com *ssa.CallCommon, site ssa.CallInstruction, idx int, a Lin) []Cons {
	name, args := calleeName(com)
	var cs []Cons
	switch {
	case (name == "Read" || name == "ReadFromUDP" || name == "ReadFrom" || name == "Write" || name == "ReadAtLeast" || name == "ReadMsgUDP" || name == "ReadFromUDPAddrPort") && idx == 0 && len(args) >= 1:
		for _, g := range args {
			if isBytesOrString(g.Type()) {
				cs = append(cs, ge0(a), ge0(e.lenOf(fr, g).sub(a)))
			}
		}
	case name == "ReadFull" && idx == 0 && len(args) == 2:
		cs = append(cs, ge0(a), ge0(e.lenOf(fr, args[1]).sub(a)))
	case isPkgFunc(com, "strings", "bytes") && strings.HasPrefix(name, "Index") || isPkgFunc(com, "strings", "bytes") && strings.HasPrefix(name, "LastIndex"):
		cs = append(cs, ge0(a.addc(1)))
		l := e.lenOf(fr, args[0]).sub(a)
		sep := int64(1)
		if (name == "Index" || name == "LastIndex") && len(args) > 1 {
			// a <= len(s) - len(sep) when found, so a + len(sep) <= len(s) or a == -1
			if c := e.lenOf(fr, args[1]); c.isConst() {
				sep = c.c
			} else {
				sep = 0
			}
		}
		if sep <= 1 {
			cs = append(cs, ge0(l.addc(-sep)))
		} else {
			// a==-1 gives len+1 >= ...: only valid when found; keep the weak form
			cs = append(cs, ge0(l.addc(-1)))
		}
		if strings.HasPrefix(name, "Index") || true {
			// when len(s)==0: a = -1 and l-1 = 0: consistent
		}
	case isPkgFunc(com, "strings", "bytes") && name == "Count":
		cs = append(cs, ge0(a))
	case name == "Len" || name == "Buffered" || name == "Size" || name == "BlockSize":
		cs = append(cs, ge0(a))
		if name == "BlockSize" {
			cs = append(cs, ge0(a.addc(-1)))
		}
	case isPkgFunc(com, "math/rand") && (name == "Intn" || name == "Int63n" || name == "Int31n") && len(args) > 0:
		cs = append(cs, ge0(a), ge0(e.lin(fr, args[len(args)-1]).sub(a).addc(-1)))
	case isPkgFunc(com, "math/rand"):
		if name == "Int" || name == "Int63" || name == "Int31" {
			cs = append(cs, ge0(a))
		}
	}
	return cs
}

func (e *Eng) contractLen(fr *Frame, com *ssa.CallCommon, site ssa.CallInstruction, idx int, a Lin) []Cons {
	name, args := calleeName(com)
	var cs []Cons
	switch {
	case isPkgFunc(com, "strings", "bytes") && name == "Split" && len(args) == 2:
		if l := e.lenOf(fr, args[1]); l.isConst() && l.c > 0 {
			cs = append(cs, ge0(a.addc(-1)))
		}
	case isPkgFunc(com, "strings", "bytes") && name == "SplitN" && len(args) == 3:
		n := e.lin(fr, args[2])
		if n.isConst() && n.c > 0 {
			if l := e.lenOf(fr, args[1]); l.isConst() && l.c > 0 {
				cs = append(cs, ge0(a.addc(-1)))
			}
			cs = append(cs, ge0(cst(n.c).sub(a)))
		}
	case isPkgFunc(com, "strings", "bytes") && (strings.HasPrefix(name, "Trim")) && len(args) >= 1:
		cs = append(cs, ge0(e.lenOf(fr, args[0]).sub(a)))
	case name == "Sum" && com.IsInvoke() && len(args) == 1:
		l := e.lenOf(fr, args[0])
		// every hash used here yields at least 16 bytes; constructor gives the exact size
		n := int64(16)
		if k := hashSize(com.Value); k > 0 {
			cs = append(cs, eq0(a.sub(l).addc(-k)))
			break
		}
		cs = append(cs, ge0(a.sub(l).addc(-n)))
	case name == "ReadN" && idx == 0 && len(args) == 1 && isIntType(args[0].Type()) && len(e.p.Callees(site)) == 0:
		// the reader interface's contract: the slice has the requested length
		cs = append(cs, eq0(a.sub(e.lin(fr, args[0]))))
	}
	return cs
}

// hashSize resolves the digest size of a hash.Hash value from its constructor.
func hashSize(v ssa.Value) int64 {
	c, ok := v.(*ssa.Call)
	if !ok {
		return 0
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return 0
	}
	switch f.String() {
	case "crypto/sha256.New":
		return 32
	case "crypto/sha1.New":
		return 20
	case "crypto/md5.New":
		return 16
	case "crypto/hmac.New":
		if g, ok := c.Call.Args[0].(*ssa.Function); ok {
			switch g.String() {
			case "crypto/sha256.New":
				return 32
			case "crypto/sha1.New":
				return 20
			}
		}
		if ct, ok := c.Call.Args[0].(*ssa.ChangeType); ok {
			if g, ok := ct.X.(*ssa.Function); ok && g.String() == "crypto/sha256.New" {
				return 32
			}
		}
	}
	return 0
}

func calleeName(com *ssa.CallCommon) (string, []ssa.Value) {
	if com.IsInvoke() {
		return com.Method.Name(), com.Args
	}
	if f := com.StaticCallee(); f != nil {
		args := com.Args
		if f.Signature.Recv() != nil && len(args) > 0 {
			args = args[1:]
		}
		return f.Name(), args
	}
	return "", com.Args
}

func isPkgFunc(com *ssa.CallCommon, pkgs ...string) bool {
	f := com.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	for _, p := range pkgs {
		if f.Pkg.Pkg.Path() == p {
			return true
		}
	}
	return false
}

// ---- control flow ----

type domInfo struct {
	header map[*ssa.BasicBlock]bool
}

func (e *Eng) isLoopHeader(b *ssa.BasicBlock) bool {
	d := e.dom[b.Parent()]
	if d == nil {
		d = &domInfo{header: map[*ssa.BasicBlock]bool{}}
		for _, x := range b.Parent().Blocks {
			for _, p := range x.Preds {
				if x.Dominates(p) {
					d.header[x] = true
				}
			}
		}
		e.dom[b.Parent()] = d
	}
	return d.header[b]
}

// State is a conjunction of facts plus pending case splits.
type State struct {
	cons   []Cons
	neq    []Lin
	nonnil map[string]bool // nil-ness of references (true: non-nil)
	splits []*split
	seen   map[string]bool // splits already applied
	dead   bool
}

type split struct {
	key   string
	alts  func() []*State // alternatives, to be conjoined
	atoms []string        // names whose knowledge this split refines (nil: control only)
	near  int
}

func newState() *State { return &State{nonnil: map[string]bool{}, seen: map[string]bool{}} }

func (s *State) clone() *State {
	r := &State{cons: append([]Cons(nil), s.cons...), neq: append([]Lin(nil), s.neq...), nonnil: make(map[string]bool, len(s.nonnil)), splits: append([]*split(nil), s.splits...), seen: make(map[string]bool, len(s.seen)), dead: s.dead}
	for k, v := range s.nonnil {
		r.nonnil[k] = v
	}
	for k, v := range s.seen {
		r.seen[k] = v
	}
	return r
}

func (s *State) and(o *State) {
	s.cons = append(s.cons, o.cons...)
	s.neq = append(s.neq, o.neq...)
	for k, v := range o.nonnil {
		if w, ok := s.nonnil[k]; ok && w != v {
			s.dead = true
		}
		s.nonnil[k] = v
	}
	have := map[string]bool{}
	for _, x := range s.splits {
		have[x.key] = true
	}
	for _, x := range o.splits {
		if !have[x.key] {
			s.splits = append(s.splits, x)
		}
	}
	if o.dead {
		s.dead = true
	}
}

// factsAt: what holds whenever control reaches block b in frame fr.
func (e *Eng) factsAt(fr *Frame, b *ssa.BasicBlock) *State {
	k := fmt.Sprintf("%d|%d", fr.id, b.Index)
	if s, ok := e.facCache[k]; ok {
		return s.clone()
	}
	s := newState()
	if fr.parent != nil {
		s = e.factsAt(fr.parent, fr.site.Block())
	}
	near := 0
	for d := b; d != nil; d = d.Idom() {
		near++
		if len(d.Preds) == 1 {
			p := d.Preds[0]
			e.edgeFacts(fr, p, d, s)
		} else if len(d.Preds) > 1 && !e.isLoopHeader(d) {
			s.splits = append(s.splits, e.mergeSplit(fr, d, near))
		} else if len(d.Preds) > 1 {
			// a loop is entered by one edge: what held on it still does
			var in []*ssa.BasicBlock
			for _, p := range d.Preds {
				if !d.Dominates(p) {
					in = append(in, p)
				}
			}
			if len(in) == 1 && in[0] == d.Idom() {
				e.edgeFacts(fr, in[0], d, s)
			}
		}
		e.callFacts(fr, d, b, s)
	}
	e.facCache[k] = s
	e.jput(func() { delete(e.facCache, k) })
	return s.clone()
}

// callFacts: what dominating executed instructions establish (an index that
// did not panic was in range).
func (e *Eng) callFacts(fr *Frame, d, b *ssa.BasicBlock, s *State) {
	if d == b {
		return
	}
	for _, in := range d.Instrs {
		switch x := in.(type) {
		case *ssa.Call:
			e.survived(fr, x, s)
		case *ssa.IndexAddr:
			if c, ok := x.Index.(*ssa.Const); ok {
				if k, ok := constInt(c); ok {
					if _, isArr := derefType(x.X.Type()).Underlying().(*types.Array); !isArr {
						s.cons = append(s.cons, ge0(e.lenOf(fr, x.X).addc(-k-1)))
					}
				}
			}
		}
	}
}

// survived: a helper that panics on some paths returned.
func (e *Eng) survived(fr *Frame, c *ssa.Call, s *State) {
	g := c.Call.StaticCallee()
	if g == nil || g.Blocks == nil || !e.p.isRepoFunc(g) || g.Signature.Results().Len() != 0 || fr.depth > 6 || e.inChain(fr, g) {
		return
	}
	var ret *ssa.BasicBlock
	panics := false
	for _, b := range g.Blocks {
		switch lastInstr(b).(type) {
		case *ssa.Return:
			if ret != nil {
				return
			}
			ret = b
		case *ssa.Panic:
			panics = true
		}
	}
	if ret == nil || !panics || g.Recover != nil {
		return
	}
	s.and(e.factsAt(e.frame(fr, c, g), ret))
}

// edgeFacts adds what holds on the edge p -> d.
func (e *Eng) edgeFacts(fr *Frame, p, d *ssa.BasicBlock, s *State) {
	if len(p.Instrs) == 0 {
		return
	}
	if f, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		e.cond(fr, f.Cond, p.Succs[0] == d, s, 0)
	}
}

func (e *Eng) mergeSplit(fr *Frame, m *ssa.BasicBlock, near int) *split {
	sp := &split{key: fmt.Sprintf("merge|%d|%d", fr.id, m.Index), near: near}
	for _, in := range m.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			k := e.refKey(fr, ph)
			sp.atoms = append(sp.atoms, k, "len:"+k)
		}
	}
	// references compared with nil on the way here
	for _, p := range m.Preds {
		for q := p; q != nil; q = q.Idom() {
			if f, ok := lastInstr(q).(*ssa.If); ok && len(q.Succs) == 2 {
				if bo, ok := f.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && refType(bo.X.Type()) {
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if _, ok := v.(*ssa.Const); !ok {
							sp.atoms = append(sp.atoms, "nil:"+e.refKey(fr, v))
						}
					}
				} else if ok && isInt(bo.X.Type()) {
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if _, ok := v.(*ssa.Const); !ok {
							if l := e.lin(fr, v); len(l.t) == 1 {
								sp.atoms = append(sp.atoms, "int:"+e.info[l.t[0].a].name)
							}
						}
					}
				}
			}
			if q == m.Idom() || len(q.Preds) != 1 {
				break
			}
		}
	}
	// memory versions merged here
	sp.atoms = append(sp.atoms, fmt.Sprintf("@%d:m%d", fr.id, m.Index))
	sp.alts = func() []*State {
		var out []*State
		for i, p := range m.Preds {
			s := newState()
			e.edgeFacts(fr, p, m, s)
			near := 1
			for d := p; d != nil && d != m.Idom(); d = d.Idom() {
				near++
				if len(d.Preds) == 1 {
					e.edgeFacts(fr, d.Preds[0], d, s)
				} else if len(d.Preds) > 1 && !e.isLoopHeader(d) {
					s.splits = append(s.splits, e.mergeSplit(fr, d, near))
				}
			}
			for _, in := range m.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				e.equate(fr, ph, fr, ph.Edges[i], s)
			}
			// memory cells merged at m: equal to their version at the end of p
			for name, id := range e.atoms {
				suf := fmt.Sprintf("@%d:m%d", fr.id, m.Index)
				if strings.HasSuffix(name, suf) {
					e.equateMem(fr, p, id, s)
				}
			}
			out = append(out, s)
		}
		return out
	}
	return sp
}

func (e *Eng) equateMem(fr *Frame, p *ssa.BasicBlock, id int, s *State) {
	a := e.info[id]
	if a.mem == nil {
		return
	}
	li := *a.mem
	li.val, li.valFr = nil, nil
	li = e.resolveTok(fr, li, e.mods.tokenEnd(fr.fn, p, li.class, li.ra))
	var l Lin
	if a.isLen {
		if li.val != nil {
			l = e.lenOf(li.valFr, li.val)
		} else {
			l = atomLin(e.memAtom(li, nilSlice, true))
		}
	} else {
		if li.val != nil {
			l = e.lin(li.valFr, li.val)
		} else {
			l = atomLin(e.memAtom(li, types.Typ[types.Int], false))
		}
	}
	s.cons = append(s.cons, eq0(atomLin(id).sub(l)))
}

var nilSlice = types.NewSlice(types.Typ[types.Uint8])

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature, *types.Slice:
		return true
	}
	return false
}

func hasLen(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// equate x (in fx) with y (in fy).
func (e *Eng) equate(fx *Frame, x ssa.Value, fy *Frame, y ssa.Value, s *State) {
	switch {
	case isInt(x.Type()):
		a, b := e.lin(fx, x), e.lin(fy, y)
		s.cons = append(s.cons, eq0(a.sub(b)))
	case hasLen(x.Type()):
		s.cons = append(s.cons, eq0(e.lenOf(fx, x).sub(e.lenOf(fy, y))))
	}
	if isBool(x.Type()) || isNilable(x.Type()) {
		kx, ky := e.refKey(fx, x), e.refKey(fy, y)
		key := kx + "|" + ky
		aliasTab[key] = aliasEnt{fx, x, fy, y}
		s.splits = append(s.splits, &split{key: "alias|" + key, alts: func() []*State { return nil }})
		if isNilable(x.Type()) {
			if n := e.nilness(fy, y, 0); n != 0 {
				if w, ok := s.nonnil[kx]; ok && w != (n > 0) {
					s.dead = true
				}
				s.nonnil[kx] = n > 0
			}
		} else if c, ok := y.(*ssa.Const); ok && c.Value != nil {
			s.nonnil["b:"+kx] = constant.BoolVal(c.Value)
		}
	}
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// nilness: +1 certainly non-nil, -1 certainly nil, 0 unknown.
func (e *Eng) nilness(fr *Frame, v ssa.Value, depth int) int {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return -1
		}
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return 1
	case *ssa.ChangeInterface:
		return e.nilness(fr, x.X, depth)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok && types.Implements(x.Type(), errorIface) {
				_ = g
				return 1 // package-level sentinel errors
			}
			if li, ok := e.resolveLoad(fr, x.X, x); ok && li.val != nil && depth < 8 {
				return e.nilness(li.valFr, li.val, depth+1)
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil {
			switch f.Pkg.Pkg.Path() + "." + f.Name() {
			case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
				return 1
			}
		}
		if depth < 3 {
			for _, g := range e.p.Callees(x) {
				if len(e.p.Callees(x)) != 1 || g.Blocks == nil || g.Signature.Results().Len() != 1 || e.inChain(fr, g) {
					return 0
				}
				cf := e.frame(fr, x, g)
				r := 0
				for _, b := range g.Blocks {
					if ret, ok := lastInstr(b).(*ssa.Return); ok && len(ret.Results) == 1 {
						n := e.nilness(cf, ret.Results[0], depth+1)
						if n == 0 || (r != 0 && r != n) {
							return 0
						}
						r = n
					}
				}
				return r
			}
		}
	case *ssa.Parameter:
		if fr.parent != nil {
			if a := argFor(fr, x); a != nil {
				return e.nilness(fr.parent, a, depth)
			}
		}
	case *ssa.Phi:
		if depth < 4 {
			r := 0
			for _, ed := range x.Edges {
				n := e.nilness(fr, ed, depth+1)
				if n == 0 || (r != 0 && r != n) {
					return 0
				}
				r = n
			}
			return r
		}
	}
	// dominating nil checks
	if in, ok := v.(ssa.Instruction); ok && depth == 0 {
		_ = in
	}
	return 0
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func lastInstr(b *ssa.BasicBlock) ssa.Instruction {
	if len(b.Instrs) == 0 {
		return nil
	}
	return b.Instrs[len(b.Instrs)-1]
}

// cond adds the facts of "v == truth".
func (e *Eng) cond(fr *Frame, v ssa.Value, truth bool, s *State, depth int) {
	if depth > 6 {
		return
	}
	kv := "b:" + e.refKey(fr, v)
	if w, ok := s.nonnil[kv]; ok && w != truth {
		s.dead = true
	}
	s.nonnil[kv] = truth
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && constant.BoolVal(x.Value) != truth {
			s.dead = true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			e.cond(fr, x.X, !truth, s, depth+1)
		}
		if x.Op == token.MUL {
			if li, ok := e.resolveLoad(fr, x.X, x); ok && li.val != nil {
				e.cond(li.valFr, li.val, truth, s, depth+1)
			}
		}
	case *ssa.Parameter:
		if fr.parent != nil {
			if a := argFor(fr, x); a != nil {
				e.cond(fr.parent, a, truth, s, depth+1)
			}
		}
	case *ssa.BinOp:
		e.condBin(fr, x, truth, s)
	case *ssa.Phi:
		if e.isLoopHeader(x.Block()) {
			return
		}
		// the merge split of this block carries the alternatives
		if sp := e.mergeSplit(fr, x.Block(), 0); true {
			for _, o := range s.splits {
				if o.key == sp.key {
					return
				}
			}
			sp.atoms = append(sp.atoms, "cond")
			s.splits = append(s.splits, sp)
		}
	case *ssa.Call:
		e.condCall(fr, x, x, -1, truth, s)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			e.condCall(fr, c, x, x.Index, truth, s)
		}
	}
}

func (e *Eng) condCall(fr *Frame, c *ssa.Call, v ssa.Value, idx int, truth bool, s *State) {
	if isPkgFunc(&c.Call, "strings", "bytes") && truth {
		n, args := calleeName(&c.Call)
		switch n {
		case "HasPrefix", "HasSuffix", "Contains":
			s.cons = append(s.cons, ge0(e.lenOf(fr, args[0]).sub(e.lenOf(fr, args[1]))))
		case "Equal", "EqualFold":
			if n == "Equal" {
				s.cons = append(s.cons, eq0(e.lenOf(fr, args[0]).sub(e.lenOf(fr, args[1]))))
			}
		}
		return
	}
	if sp := e.callSplit(fr, c); sp != nil {
		sp.atoms = append(sp.atoms, "cond")
		s.splits = append(s.splits, sp)
	}
}

// callSplit: case analysis over the return sites of a call.
func (e *Eng) callSplit(fr *Frame, c *ssa.Call) *split {
	if isPkgFunc(&c.Call, "strings", "bytes") {
		name, args := calleeName(&c.Call)
		if strings.HasPrefix(name, "Index") || strings.HasPrefix(name, "LastIndex") {
			k := e.refKey(fr, c)
			return &split{key: "index|" + k, atoms: []string{k}, alts: func() []*State {
				a := e.lin(fr, c)
				n, f := newState(), newState()
				n.cons = append(n.cons, eq0(a.addc(1)))
				sep := cst(1)
				if name == "Index" || name == "LastIndex" {
					sep = e.lenOf(fr, args[1])
				}
				f.cons = append(f.cons, ge0(a), ge0(e.lenOf(fr, args[0]).sub(a).sub(sep)))
				return []*State{n, f}
			}}
		}
	}
	callees := e.p.Callees(c)
	if len(callees) == 0 || len(callees) > 3 {
		return nil
	}
	n := 0
	for _, g := range callees {
		if g.Blocks == nil || e.inChain(fr, g) || fr.depth > 7 {
			return nil
		}
		for _, b := range g.Blocks {
			if _, ok := lastInstr(b).(*ssa.Return); ok && b != g.Recover {
				n++
			}
		}
	}
	if n > 40 {
		return nil
	}
	k := e.refKey(fr, c)
	sp := &split{key: "call|" + k}
	res := callees[0].Signature.Results()
	if res.Len() == 1 {
		sp.atoms = append(sp.atoms, k, "len:"+k)
	} else {
		for _, r := range *c.Referrers() {
			if x, ok := r.(*ssa.Extract); ok {
				ek := e.refKey(fr, x)
				sp.atoms = append(sp.atoms, ek, "len:"+ek)
			}
		}
	}
	sp.alts = func() []*State {
		var out []*State
		for _, g := range callees {
			cf := e.frame(fr, c, g)
			for _, b := range g.Blocks {
				ret, ok := lastInstr(b).(*ssa.Return)
				if !ok || b == g.Recover {
					continue
				}
				s := e.localFacts(cf, b)
				if res.Len() == 1 {
					e.equate(fr, c, cf, ret.Results[0], s)
				} else {
					for _, r := range *c.Referrers() {
						if x, ok := r.(*ssa.Extract); ok && x.Index < len(ret.Results) {
							e.equate(fr, x, cf, ret.Results[x.Index], s)
						}
					}
				}
				out = append(out, s)
			}
		}
		return out
	}
	return sp
}

type aliasEnt struct {
	fx *Frame
	x  ssa.Value
	fy *Frame
	y  ssa.Value
}

var aliasTab = map[string]aliasEnt{}

// localFacts: facts of block b within frame cf only (its caller's are already known).
func (e *Eng) localFacts(cf *Frame, b *ssa.BasicBlock) *State {
	s := newState()
	near := 0
	for d := b; d != nil; d = d.Idom() {
		near++
		if len(d.Preds) == 1 {
			e.edgeFacts(cf, d.Preds[0], d, s)
		} else if len(d.Preds) > 1 && !e.isLoopHeader(d) {
			s.splits = append(s.splits, e.mergeSplit(cf, d, near))
		}
		e.callFacts(cf, d, b, s)
	}
	return s
}

func (e *Eng) condBin(fr *Frame, x *ssa.BinOp, truth bool, s *State) {
	op := x.Op
	if !truth {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		default:
			return
		}
	}
	t := x.X.Type()
	switch {
	case isInt(t):
		a, b := e.lin(fr, x.X), e.lin(fr, x.Y)
		switch op {
		case token.EQL:
			s.cons = append(s.cons, eq0(a.sub(b)))
		case token.NEQ:
			s.neq = append(s.neq, a.sub(b))
		case token.LSS:
			s.cons = append(s.cons, ge0(b.sub(a).addc(-1)))
		case token.LEQ:
			s.cons = append(s.cons, ge0(b.sub(a)))
		case token.GTR:
			s.cons = append(s.cons, ge0(a.sub(b).addc(-1)))
		case token.GEQ:
			s.cons = append(s.cons, ge0(a.sub(b)))
		}
	case hasLen(t) && isBytesOrString(t) || hasLen(t):
		a, b := e.lenOf(fr, x.X), e.lenOf(fr, x.Y)
		if op == token.EQL {
			s.cons = append(s.cons, eq0(a.sub(b)))
		}
		if op == token.NEQ && (b.isConst() && b.c == 0 || a.isConst() && a.c == 0) && isStr(t) {
			s.neq = append(s.neq, a.sub(b))
		}
	}
	if op == token.EQL || op == token.NEQ {
		if isNilable(t) {
			var o ssa.Value
			if isNilConst(x.Y) {
				o = x.X
			} else if isNilConst(x.X) {
				o = x.Y
			}
			if o != nil {
				e.setNil(fr, o, op == token.NEQ, s, 0)
			} else if op == token.EQL {
				// equality with a non-nil value (err == io.EOF)
				for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if e.nilness(fr, pr[1], 0) > 0 {
						e.setNil(fr, pr[0], true, s, 0)
					}
				}
			}
		}
		if isBool(t) {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
				e.cond(fr, x.X, constant.BoolVal(c.Value) == (op == token.EQL), s, 1)
			} else if c, ok := x.X.(*ssa.Const); ok && c.Value != nil {
				e.cond(fr, x.Y, constant.BoolVal(c.Value) == (op == token.EQL), s, 1)
			}
		}
	}
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && isNilable(c.Type())
}

// setNil records that reference v is (non-)nil and what follows from it.
func (e *Eng) setNil(fr *Frame, v ssa.Value, nonnil bool, s *State, depth int) {
	if depth > 6 {
		return
	}
	k := e.refKey(fr, v)
	if w, ok := s.nonnil[k]; ok && w != nonnil {
		s.dead = true
	}
	s.nonnil[k] = nonnil
	if n := e.nilness(fr, v, 0); n != 0 && (n > 0) != nonnil {
		s.dead = true
	}
	if !nonnil && hasLen(v.Type()) {
		s.cons = append(s.cons, eq0(e.lenOf(fr, v)))
	}
	var c *ssa.Call
	switch x := v.(type) {
	case *ssa.Call:
		c = x
	case *ssa.Extract:
		c, _ = x.Tuple.(*ssa.Call)
	case *ssa.Phi:
		if !e.isLoopHeader(x.Block()) {
			sp := e.mergeSplit(fr, x.Block(), 0)
			sp.atoms = append(sp.atoms, "cond")
			s.splits = append(s.splits, sp)
		}
	case *ssa.Parameter:
		if fr.parent != nil {
			if a := argFor(fr, x); a != nil {
				e.setNil(fr.parent, a, nonnil, s, depth+1)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if li, ok := e.resolveLoad(fr, x.X, x); ok && li.val != nil {
				e.setNil(li.valFr, li.val, nonnil, s, depth+1)
			}
		}
	}
	if c != nil {
		if !nonnil {
			e.errContract(fr, c, s)
		}
		if sp := e.callSplit(fr, c); sp != nil {
			sp.atoms = append(sp.atoms, "cond")
			s.splits = append(s.splits, sp)
		}
	}
}

// errContract: facts from "the error result of this body-less call is nil".
func (e *Eng) errContract(fr *Frame, c *ssa.Call, s *State) {
	name, args := calleeName(&c.Call)
	if isPkgFunc(&c.Call, "io") && name == "ReadFull" && len(args) == 2 {
		for _, r := range *c.Referrers() {
			if x, ok := r.(*ssa.Extract); ok && x.Index == 0 {
				s.cons = append(s.cons, eq0(e.lin(fr, x).sub(e.lenOf(fr, args[1]))))
			}
		}
	}
	if f := c.Call.StaticCallee(); f != nil && name == "HandleMultiError" && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "Athena/easyerrors") && len(args) == 2 {
		// with the Simple policy, nil means that no error is set
		if p, ok := args[0].(*ssa.Call); ok && p.Call.StaticCallee() != nil && p.Call.StaticCallee().Name() == "Simple" {
			if vs, ok := varargs(args[1]); ok {
				for _, v := range vs {
					if k := e.refKey(fr, v); !s.nonnil[k] {
						e.setNil(fr, v, false, s, 4)
					} else {
						s.dead = true
					}
				}
			}
		}
	}
	if isPkgFunc(&c.Call, "strconv") && name == "ParseUint" && len(args) == 3 {
		if b := e.lin(fr, args[2]); b.isConst() && b.c > 0 && b.c < 60 {
			for _, r := range *c.Referrers() {
				if x, ok := r.(*ssa.Extract); ok && x.Index == 0 {
					s.cons = append(s.cons, ge0(cst(int64(1)<<uint(b.c)-1).sub(e.lin(fr, x))))
				}
			}
		}
	}
	if name == "Peek" && len(args) == 1 {
		for _, r := range *c.Referrers() {
			if x, ok := r.(*ssa.Extract); ok && x.Index == 0 {
				s.cons = append(s.cons, eq0(e.lenOf(fr, x).sub(e.lin(fr, args[0]))))
			}
		}
	}
}

// ---- loop invariants ----

func (e *Eng) phiFacts(fr *Frame, ph *ssa.Phi) []Cons {
	h := ph.Block()
	if !e.isLoopHeader(h) {
		return nil
	}
	return e.loopInv(fr, h)
}

func (e *Eng) loopInv(fr *Frame, h *ssa.BasicBlock) []Cons {
	k := fmt.Sprintf("%d|%d", fr.id, h.Index)
	if c, ok := e.invs[k]; ok {
		return c
	}
	if e.invBusy[k] {
		return nil
	}
	e.invBusy[k] = true
	defer delete(e.invBusy, k)

	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			if isInt(p.Type()) || hasLen(p.Type()) {
				phis = append(phis, p)
			}
		} else {
			break
		}
	}
	val := func(p *ssa.Phi) Lin {
		if isInt(p.Type()) {
			return atomLin(e.newAtom(e.refKey(fr, p), func(a *atomInfo) {
				a.lo, a.hi, a.hasLo, a.hasHi = intRange(p.Type())
				a.fr, a.v, a.facts, a.mag = fr, p, func() []Cons { return e.phiFacts(fr, p) }, e.phiMag(fr, p)
				if a.hasHi {
					a.mag = 32
				}
			}))
		}
		return e.lenAtom(fr, p, func() []Cons { return e.phiFacts(fr, p) })
	}
	inner := func(v ssa.Value) Lin {
		if isInt(v.Type()) {
			return e.lin(fr, v)
		}
		return e.lenOf(fr, v)
	}
	inLoop := e.loopBlocks(h)
	var cand []Cons
	seen := map[string]bool{}
	addc := func(c Cons) {
		if c.l.ok && len(c.l.t) > 0 && !seen[c.l.key()+fmt.Sprint(c.eq)] {
			seen[c.l.key()+fmt.Sprint(c.eq)] = true
			cand = append(cand, c)
		}
	}
	// comparison terms inside the loop that do not change in it
	var terms []Lin
	addTerm := func(v ssa.Value) {
		if !isInt(v.Type()) {
			return
		}
		l := e.lin(fr, v)
		if e.invariantIn(fr, l, inLoop) && len(l.t) > 0 {
			terms = append(terms, l)
		}
	}
	addLen := func(v ssa.Value) {
		l := e.lenOf(fr, v)
		if e.invariantIn(fr, l, inLoop) && len(l.t) > 0 {
			terms = append(terms, l)
		}
	}
	// pre-publish an empty invariant so that expressions can be built
	e.invs[k] = nil
	for b := range inLoop {
		_ = b
	}
	for _, b := range h.Parent().Blocks {
		if !inLoop[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					addTerm(x.X)
					addTerm(x.Y)
				}
			case *ssa.IndexAddr:
				addLen(x.X)
			case *ssa.Slice:
				if hasLen(x.X.Type()) {
					addLen(x.X)
				}
			}
		}
	}
	for i, p := range phis {
		v := val(p)
		var ini []Lin
		for j, ed := range p.Edges {
			if !inLoop[h.Preds[j]] {
				ini = append(ini, inner(ed))
			}
		}
		for _, c := range []int64{-1, 0, 1} {
			addc(ge0(v.addc(-c)))
		}
		for _, l := range ini {
			if e.invariantIn(fr, l, inLoop) {
				addc(ge0(v.sub(l)))
				addc(ge0(l.sub(v)))
			}
		}
		for _, t := range terms {
			addc(ge0(t.sub(v)))
			addc(ge0(t.sub(v).addc(-1)))
			addc(ge0(v.sub(t)))
		}
		for j, q := range phis {
			if i == j {
				continue
			}
			w := val(q)
			addc(ge0(v.sub(w)))
			addc(ge0(w.scale(2).sub(v)))
			if j > i && len(ini) == 1 {
				for jj, ed := range q.Edges {
					if !inLoop[h.Preds[jj]] {
						l := inner(ed)
						if e.invariantIn(fr, l, inLoop) && e.invariantIn(fr, ini[0], inLoop) {
							addc(eq0(v.sub(w).sub(ini[0].sub(l))))
							addc(eq0(v.add(w).sub(ini[0].add(l))))
						}
					}
				}
			}
			for _, t := range terms {
				addc(ge0(t.sub(v).sub(w)))
			}
		}
	}
	// stride candidates: v - init multiple handled by sums above
	if len(cand) > 120 {
		cand = cand[:120]
	}
	start := len(e.journal)
	e.logging++
	flush := func() {
		for len(e.journal) > start {
			u := e.journal[len(e.journal)-1]
			e.journal = e.journal[:len(e.journal)-1]
			u()
		}
	}
	resetAtoms := func() {
		for _, a := range e.info {
			if a.done && a.facts != nil {
				a.done = false
			}
		}
	}
	flushAll := func() {
		flush()
		e.linCache = map[string]Lin{}
		e.lenCache = map[string]Lin{}
		e.facCache = map[string]*State{}
		resetAtoms()
	}
	for round := 0; round < 12; round++ {
		e.invs[k] = cand
		flushAll()
		var keep []Cons
		for _, c := range cand {
			ok := true
			for i, p := range h.Preds {
				st := e.factsAt(fr, p)
				e.edgeFacts(fr, p, h, st)
				g := c.l
				for _, ph := range phis {
					a := val(ph).t[0].a
					if co := g.coef(a); co != 0 {
						g = g.add(inner(ph.Edges[i]).scale(co)).addScaled(atomLin(a), -co)
						// the edge may mention phi atoms itself; handled below
					}
				}
				g = substPhis(e, c.l, phis, val, inner, i)
				if inLoop[p] {
					// assume the candidates for the current iteration
					st.cons = append(st.cons, cand...)
				}
				if !e.prove(st, g, 3) || (c.eq && !e.prove(st, g.scale(-1), 3)) {
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, c)
			}
		}
		if len(keep) == len(cand) {
			break
		}
		cand = keep
	}
	e.logging--
	e.invs[k] = cand
	flushAll()
	e.journal = append(e.journal, func() { delete(e.invs, k) })
	if e.logging == 0 {
		e.journal = nil
	}
	return cand
}

func substPhis(e *Eng, l Lin, phis []*ssa.Phi, val func(*ssa.Phi) Lin, inner func(ssa.Value) Lin, i int) Lin {
	r := cst(l.c)
	for _, t := range l.t {
		sub := atomLin(t.a)
		for _, ph := range phis {
			if val(ph).t[0].a == t.a {
				sub = inner(ph.Edges[i])
			}
		}
		r = r.add(sub.scale(t.k))
	}
	return r
}

func (e *Eng) loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !in[p] {
			in[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !in[p] {
				in[p] = true
				work = append(work, p)
			}
		}
	}
	return in
}

// invariantIn: no atom of l is defined inside the loop.
func (e *Eng) invariantIn(fr *Frame, l Lin, in map[*ssa.BasicBlock]bool) bool {
	if !l.ok {
		return false
	}
	for _, t := range l.t {
		a := e.info[t.a]
		if a.mem != nil {
			tf, tk := a.mem.tokFr, a.mem.tok
			if tf == fr {
				if tk.in != nil && in[tk.in.Block()] {
					return false
				}
				if tk.merge != nil && in[tk.merge] {
					return false
				}
			} else if !e.isAncestor(tf, fr) {
				return false
			}
			// the address must be invariant too
			if strings.Contains(a.mem.key, fmt.Sprintf("v:%d:", fr.id)) {
				return e.keyInvariant(fr, a.mem.key, in)
			}
			continue
		}
		if a.v == nil {
			return false
		}
		if a.fr != fr {
			if !e.isAncestor(a.fr, fr) {
				return false
			}
			continue
		}
		if i, ok := a.v.(ssa.Instruction); ok && in[i.Block()] {
			return false
		}
	}
	return true
}

func (e *Eng) keyInvariant(fr *Frame, key string, in map[*ssa.BasicBlock]bool) bool {
	// conservative: reject if any in-loop value is named in the key
	for b := range in {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				if strings.Contains(key, fmt.Sprintf("v:%d:%s", fr.id, valName(v))) {
					return false
				}
			}
		}
	}
	return true
}

func (e *Eng) isAncestor(a, b *Frame) bool {
	for f := b; f != nil; f = f.parent {
		if f == a {
			return true
		}
	}
	return false
}

// ---- proving ----

// atomFacts returns (and caches) the facts attached to atom id.
func (e *Eng) atomFacts(id int) []Cons {
	a := e.info[id]
	if !a.done {
		a.done = true
		a.fs = nil
		if a.hasLo {
			a.fs = append(a.fs, ge0(atomLin(id).addc(-a.lo)))
		}
		if a.hasHi && a.hi < 1<<60 {
			a.fs = append(a.fs, ge0(cst(a.hi).sub(atomLin(id))))
		}
		if a.facts != nil {
			for _, c := range a.facts() {
				if c.l.ok {
					a.fs = append(a.fs, c)
				}
			}
		}
	}
	return a.fs
}

func (e *Eng) closure(st *State, goal Lin) ([]Cons, map[int]bool) {
	// connected component of constraints around the goal
	in := map[int]bool{}
	var work []int
	push := func(l Lin) {
		for _, t := range l.t {
			if !in[t.a] {
				in[t.a] = true
				work = append(work, t.a)
			}
		}
	}
	push(goal)
	if goal.isConst() {
		// showing that the point is unreachable: everything counts
		for _, c := range st.cons {
			if c.l.ok {
				push(c.l)
			}
		}
	}
	// contradictions anywhere make the point unreachable, so facts that are
	// constants count too
	var out []Cons
	used := make([]bool, len(st.cons))
	usedN := make([]bool, len(st.neq))
	seen := map[string]bool{}
	add := func(c Cons) {
		k := c.l.key()
		if c.eq {
			k = "=" + k
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	for i, c := range st.cons {
		if c.l.isConst() {
			used[i] = true
			add(c)
		}
	}
	var neqs []Lin
	for len(work) > 0 || true {
		for len(work) > 0 {
			a := work[0]
			work = work[1:]
			for _, c := range e.atomFacts(a) {
				add(c)
				push(c.l)
			}
			if len(out) > 400 {
				return out, in
			}
		}
		grew := false
		for i, c := range st.cons {
			if used[i] || !c.l.ok {
				continue
			}
			for _, t := range c.l.t {
				if in[t.a] {
					used[i] = true
					add(c)
					push(c.l)
					grew = true
					break
				}
			}
		}
		for i, l := range st.neq {
			if usedN[i] || !l.ok {
				continue
			}
			hit := len(l.t) == 0
			for _, t := range l.t {
				if in[t.a] {
					hit = true
				}
			}
			if hit {
				usedN[i] = true
				neqs = append(neqs, l)
				push(l)
				grew = true
			}
		}
		if !grew && len(work) == 0 {
			break
		}
	}
	for _, l := range neqs {
		if len(l.t) == 0 {
			if l.c == 0 {
				out = append(out, ge0(cst(-1)))
			}
			continue
		}
		// l != 0: if l >= 0 is known then l >= 1
		if e.lp(append(append([]Cons(nil), out...), ge0(l.scale(-1).addc(-1)))) {
			add(ge0(l.addc(-1)))
		} else if e.lp(append(append([]Cons(nil), out...), ge0(l.addc(-1)))) {
			add(ge0(l.scale(-1).addc(-1)))
		}
	}
	return out, in
}

func (e *Eng) lp(c []Cons) bool {
	e.lpCalls++
	return infeasible(c)
}

// prove shows goal >= 0 in st.
func (e *Eng) prove(st *State, goal Lin, depth int) bool {
	if !goal.ok {
		return false
	}
	return e.prove1(st, goal, depth, &[]int{400}[0])
}

func (e *Eng) prove1(st *State, goal Lin, depth int, budget *int) bool {
	if st.dead {
		return true
	}
	if goal.isConst() && goal.c >= 0 {
		return true
	}
	*budget--
	if *budget < 0 {
		return false
	}
	e.applyAliases(st)
	if st.dead {
		return true
	}
	cs, in := e.closure(st, goal)
	neg := ge0(goal.scale(-1).addc(-1))
	if e.lp(append(cs, neg)) {
		return true
	}
	if depth <= 0 {
		return false
	}
	// add call splits for result atoms in the closure
	var ids []int
	for a := range in {
		ids = append(ids, a)
	}
	sort.Ints(ids)
	names := map[string]bool{}
	extra := []*split{}
	for _, id := range ids {
		a := e.info[id]
		names[a.name] = true
		if a.v != nil {
			var c *ssa.Call
			switch x := a.v.(type) {
			case *ssa.Call:
				c = x
			case *ssa.Extract:
				c, _ = x.Tuple.(*ssa.Call)
			case *ssa.Phi:
				if !e.isLoopHeader(x.Block()) {
					extra = append(extra, e.mergeSplit(a.fr, x.Block(), 1))
				}
			}
			if c != nil && !isBuiltinCall(c) {
				if sp := e.callSplit(a.fr, c); sp != nil {
					extra = append(extra, sp)
				}
			}
		}
		if a.mem != nil && a.mem.tok.merge != nil && !e.isLoopHeader(a.mem.tok.merge) {
			extra = append(extra, e.mergeSplit(a.mem.tokFr, a.mem.tok.merge, 1))
		}
	}
	if goal.isConst() {
		for _, id := range ids {
			names["int:"+e.info[id].name] = true
		}
		for k, w := range st.nonnil {
			if !w {
				names["nil:"+k] = true
			}
		}
	}
	have := map[string]bool{}
	var all []*split
	for _, sp := range append(append([]*split(nil), st.splits...), extra...) {
		if !have[sp.key] && !st.seen[sp.key] && sp.alts != nil && !strings.HasPrefix(sp.key, "alias|") {
			have[sp.key] = true
			all = append(all, sp)
		}
	}
	best, bestScore := -1, 1<<30
	for i, sp := range all {
		score := 1000 + sp.near
		for _, a := range sp.atoms {
			if names[a] {
				score = sp.near
				break
			}
			if strings.HasPrefix(a, "@") {
				for n := range names {
					if strings.HasSuffix(n, a) {
						score = sp.near
					}
				}
			}
			if a == "cond" && score > 500 {
				score = 500 + sp.near
			}
		}
		if score < bestScore {
			best, bestScore = i, score
		}
	}
	if best < 0 {
		return false
	}
	sp := all[best]
	if bestScore >= 1000 && depth < 2 {
		return false
	}
	alts := sp.alts()
	if len(alts) == 0 {
		return false
	}
	for _, a := range alts {
		n := st.clone()
		n.seen[sp.key] = true
		// drop other copies of this split
		n.and(a)
		if n.dead {
			continue
		}
		if !e.prove1(n, goal, depth-1, budget) {
			return false
		}
	}
	return true
}

func isBuiltinCall(c *ssa.Call) bool {
	_, ok := c.Call.Value.(*ssa.Builtin)
	return ok
}

// applyAliases transfers knowledge about call results to the values the
// callee returned.
func (e *Eng) applyAliases(st *State) {
	for round := 0; round < 4; round++ {
		changed := false
		for _, sp := range st.splits {
			if !strings.HasPrefix(sp.key, "alias|") || st.seen[sp.key] {
				continue
			}
			al, ok := aliasTab[sp.key[6:]]
			if !ok {
				continue
			}
			kx := e.refKey(al.fx, al.x)
			if isBool(al.x.Type()) {
				if t, ok := st.nonnil["b:"+kx]; ok {
					st.seen[sp.key] = true
					e.cond(al.fy, al.y, t, st, 0)
					changed = true
				}
			} else if nn, ok := st.nonnil[kx]; ok {
				st.seen[sp.key] = true
				e.setNil(al.fy, al.y, nn, st, 0)
				changed = true
			}
			if st.dead {
				return
			}
		}
		if !changed {
			return
		}
	}
}
