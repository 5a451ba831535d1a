package main

// Memory a peer can make the server hold: no single allocation is sized by a
// number the peer announces beyond a fixed limit, what is accumulated until
// something completes is tested against a limit before it grows, and no line or
// header block is read without one.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const allocLimit = 1 << 26

// allocGoal: l without the lengths of what is in memory already is limited.
func (e *Eng) allocGoal(l Lin) Lin {
	if !l.ok {
		return l
	}
	out := cst(l.c)
	for _, t := range l.t {
		if t.k > 0 && t.k <= 8 && e.info[t.a].isLen {
			continue
		}
		out = out.add(atomLin(t.a).scale(t.k))
	}
	return cst(allocLimit).sub(out)
}

// heldSize: the number is made of lengths of what is in memory already and of
// small constants.
func (p *Prog) heldSize(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		n, ok := constInt(x)
		return ok && n <= 1<<16
	case *ssa.Convert:
		return isIntType(x.X.Type()) && p.heldSize(x.X, seen)
	case *ssa.ChangeType:
		return p.heldSize(x.X, seen)
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			return p.heldSize(x.X, seen) && p.heldSize(x.Y, seen)
		case token.SUB, token.QUO, token.SHR:
			return p.heldSize(x.X, seen)
		case token.MUL:
			a, ca := constOf(x.X)
			b, cb := constOf(x.Y)
			return ca && a <= 8 && p.heldSize(x.Y, seen) || cb && b <= 8 && p.heldSize(x.X, seen)
		}
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !p.heldSize(ed, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		f := x.Parent()
		cs := p.Callers(f)
		if len(cs) == 0 {
			return false
		}
		for i, q := range f.Params {
			if q != x {
				continue
			}
			for _, c := range cs {
				as := c.Common().Args
				if c.Common().IsInvoke() {
					as = append([]ssa.Value{c.Common().Value}, as...)
				}
				if i >= len(as) || !p.heldSize(as[i], seen) {
					return false
				}
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy"
		}
		switch calleeFull(&x.Call) {
		case "(*bytes.Buffer).Len", "(*bytes.Reader).Len", "(*strings.Reader).Len", "(*strings.Builder).Len":
			return true
		}
		if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil && p.repoFunc(f) && f.Signature.Results().Len() == 1 {
			for _, b := range f.Blocks {
				if r, ok := lastInstr(b).(*ssa.Return); ok && !p.heldSize(r.Results[0], seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func constOf(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok {
		return 0, false
	}
	return constInt(c)
}

func (p *Prog) allocObligations(fn *ssa.Function) []obligation {
	var out []obligation
	add := func(in ssa.Instruction, kind, text string, vs ...ssa.Value) {
		out = append(out, obligation{fn, in, kind, func(e *Eng, fr *Frame) []goal {
			var gs []goal
			for _, v := range vs {
				if !p.heldSize(v, map[ssa.Value]bool{}) {
					gs = append(gs, goal{e.allocGoal(e.lin(fr, v)), text})
				}
			}
			return gs
		}})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MakeSlice:
				add(in, "make", "the size is limited", x.Len, x.Cap)
			case *ssa.MakeChan:
				add(in, "make", "the size is limited", x.Size)
			case *ssa.MakeMap:
				if x.Reserve != nil {
					add(in, "make", "the size is limited", x.Reserve)
				}
			case *ssa.Call:
				switch calleeFull(&x.Call) {
				case "strings.Repeat", "bytes.Repeat", "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "bufio.NewReaderSize", "bufio.NewWriterSize":
					add(in, shortCallee(&x.Call), "the size is limited", x.Call.Args[1])
				}
				if x.Call.IsInvoke() && x.Call.Method.Name() == "ReadN" && len(x.Call.Args) == 1 {
					add(in, "ReadN", "the number of bytes is limited", x.Call.Args[0])
				}
			}
		}
	}
	return out
}

// --- reads without a limit ----------------------------------------------------------

// unlimited: the call reads from a peer for as long as the peer likes.
func (rs *readSpec) unlimited(com *ssa.CallCommon) bool {
	n := calleeFull(com)
	switch n {
	case "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "io.ReadAll", "io/ioutil.ReadAll":
		return rs.unlimitedSource(com.Args[0], map[ssa.Value]bool{})
	case "io.Copy":
		return rs.unlimitedSource(com.Args[1], map[ssa.Value]bool{})
	case "(*bytes.Buffer).ReadFrom":
		return rs.unlimitedSource(com.Args[1], map[ssa.Value]bool{})
	}
	if strings.HasPrefix(n, "(*net/textproto.Reader).Read") {
		return true
	}
	if com.IsInvoke() && com.Method.Name() == "ReadAll" && isReaderType(com.Value.Type()) {
		return rs.unlimitedSource(com.Value, map[ssa.Value]bool{})
	}
	return false
}

func (rs *readSpec) unlimitedSource(v ssa.Value, seen map[ssa.Value]bool) bool {
	if limitedReader(v, map[ssa.Value]bool{}) {
		return false
	}
	return rs.fromPeer(v, seen)
}

func limitedReader(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return limitedReader(x.X, seen)
	case *ssa.ChangeInterface:
		return limitedReader(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !limitedReader(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		n := calleeFull(&x.Call)
		if n == "io.LimitReader" {
			return true
		}
		if strings.HasPrefix(n, "bufio.NewReader") {
			return limitedReader(x.Call.Args[0], seen)
		}
	case *ssa.Alloc:
		return typeShort(x.Type()) == "*io.LimitedReader"
	}
	return false
}

// --- accumulators -----------------------------------------------------------------

type accSpec struct {
	p     *Prog
	rs    *readSpec
	slots []string       // accumulators
	idx   map[string]int // slot -> index
	sites map[ssa.Instruction]int
	// integer fields that count what was added: slot -> accumulators of the
	// same struct
	counters map[string][]int
	incs     map[ssa.Instruction]string
	memo     map[*ssa.Function]measure
	tests    map[ssa.Value]bool
}

type measure struct {
	acc     []int
	neg     bool
	counter bool
}

func fieldSlot(fa *ssa.FieldAddr) string {
	_, st := structOf(fa.X.Type())
	return "F:" + typeKey(st) + "." + strconv.Itoa(fa.Field)
}

func loadedField(v ssa.Value) *ssa.FieldAddr {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa
		}
	}
	return nil
}

// extends: the store makes field A longer by appending to it.
func extends(st *ssa.Store) (slot string, app *ssa.Call) {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return "", nil
	}
	v := st.Val
	if ph, ok := v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if c, ok := e.(*ssa.Call); ok {
				v = c
			}
		}
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return "", nil
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
		return "", nil
	}
	base := c.Call.Args[0]
	for d := 0; d < 4; d++ {
		switch x := base.(type) {
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				base = x.Call.Args[0]
				continue
			}
		case *ssa.Phi:
			base = x.Edges[0]
			continue
		}
		break
	}
	lf := loadedField(base)
	if lf == nil || fieldSlot(lf) != fieldSlot(fa) {
		return "", nil
	}
	return fieldSlot(fa), c
}

func (as *accSpec) measureOf(v ssa.Value, seen map[ssa.Value]bool) (m measure, ok bool) {
	if seen[v] {
		return m, false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Convert:
		return as.measureOf(x.X, seen)
	case *ssa.ChangeType:
		return as.measureOf(x.X, seen)
	case *ssa.UnOp:
		if fa := loadedField(x); fa != nil {
			if is, ok := as.counters[fieldSlot(fa)]; ok {
				return measure{is, false, true}, true
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB:
			if m, ok := as.measureOf(x.X, seen); ok {
				return m, true
			}
			if m, ok := as.measureOf(x.Y, seen); ok {
				m.neg = m.neg != (x.Op == token.SUB)
				return m, true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if m, ok := as.measureOf(e, seen); ok {
				return m, true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() != "len" {
				return m, false
			}
			if fa := loadedField(x.Call.Args[0]); fa != nil {
				if i, ok := as.idx[fieldSlot(fa)]; ok {
					return measure{[]int{i}, false, false}, true
				}
			}
			return m, false
		}
		for _, f := range as.p.Callees(x) {
			if f.Blocks == nil || f.Signature.Results().Len() != 1 || !as.p.repoFunc(f) {
				continue
			}
			if m, ok := as.ofFunc(f); ok {
				return m, true
			}
		}
	}
	return m, false
}

func (as *accSpec) ofFunc(f *ssa.Function) (measure, bool) {
	if m, ok := as.memo[f]; ok {
		return m, m.acc != nil
	}
	as.memo[f] = measure{}
	for _, b := range f.Blocks {
		if r, ok := lastInstr(b).(*ssa.Return); ok && isIntType(r.Results[0].Type()) {
			if m, ok := as.measureOf(r.Results[0], map[ssa.Value]bool{}); ok {
				as.memo[f] = m
				return m, true
			}
		}
		// promoted methods
	}
	return measure{}, false
}

// limitTest: a comparison of a measure; over tells which truth means that the
// limit is exceeded, clamp that the amount to be added is cut instead.
func (as *accSpec) limitTest(v ssa.Value) (m measure, over bool, clamp bool, ok bool) {
	b, isB := v.(*ssa.BinOp)
	if !isB {
		return
	}
	switch b.Op {
	case token.GTR, token.GEQ:
		over = true
	case token.LSS, token.LEQ:
	default:
		return
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if n, c := constOf(o); c && n < 256 {
			return // not a limit
		}
	}
	side := b.X
	m, ok = as.measureOf(b.X, map[ssa.Value]bool{})
	if !ok {
		side = b.Y
		m, ok = as.measureOf(b.Y, map[ssa.Value]bool{})
		over = !over
	}
	if !ok {
		return
	}
	if m.neg {
		over = !over
		// what is missing is used as the amount
		n := 0
		for _, r := range *side.Referrers() {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				n++
			}
		}
		clamp = n > 1
	}
	return
}

func init() {
	register("C06", "other", func(p *Prog, r *Report) {
		r.Rule = "every allocation whose size is a number is proven to be at most 64 MiB or made of lengths of what is in memory; every append that extends a field is preceded, since the last read from the peer, by a test of what was accumulated against a limit; no delimiter is awaited without a limit"
		e := p.engine()
		n := map[string]int{}
		for _, fn := range p.Funcs {
			for _, ob := range p.allocObligations(fn) {
				r.Obligations++
				r.count(ob.kind+" sites", 1)
				v := e.discharge(ob, 3)
				if v.ok {
					r.Discharged++
					continue
				}
				k := fmt.Sprintf("alloc|%s|%s|%s", fname(fn), ob.kind, v.goal)
				n[k]++
				if n[k] > 1 {
					k += fmt.Sprintf("#%d", n[k])
				}
				r.find(k, p.posOf(ob.in), "%s in %s: cannot show that %s; calling context%s", ob.kind, fname(fn), v.goal, v.trail)
			}
		}
		r.atLeast("make sites", 25)

		rs := &readSpec{p: p, peer: map[ssa.Value]int{}, reads: map[ssa.Instruction]bool{}, fns: map[*ssa.Function]bool{}}
		direct := map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					if rs.unlimited(&c.Call) {
						r.find("unlimited|"+fname(f)+"|"+shortCallee(&c.Call), p.posOf(in), "%s in %s reads from a peer until a delimiter or the end, however long that takes: nothing limits what it keeps in memory", shortCallee(&c.Call), fname(f))
					}
					if v := readTarget(&c.Call); v != nil && rs.fromPeer(v, map[ssa.Value]bool{}) {
						rs.reads[in] = true
						direct[f] = true
					}
				}
			}
		}
		for _, f := range p.Funcs {
			for g := range p.reach(f, false) {
				if direct[g] {
					rs.fns[f] = true
				}
			}
		}
		for _, f := range p.Funcs {
			rs.headerLoops(f, r)
		}
		accumulators(p, r, rs, direct)
	})
}

// headerLoops: a loop that reads from a peer and puts what it read into a map or
// slice of its own counts how much that is.
func (rs *readSpec) headerLoops(f *ssa.Function, r *Report) {
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var what string
			var col ssa.Value
			switch x := in.(type) {
			case *ssa.MapUpdate:
				what, col = "a map", x.Map
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					what, col = "a slice", x.Call.Args[0]
				} else if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil {
					for i, q := range g.Params {
						if _, ok := q.Type().Underlying().(*types.Map); ok && i < len(x.Call.Args) && updatesMap(g, q) {
							what, col = "a map", x.Call.Args[i]
						}
					}
				}
			}
			if what == "" || loadedField(col) != nil {
				continue
			}
			h := enclosingLoop(b)
			if h == nil || done[h] {
				continue
			}
			loop := naturalLoop(h)
			reads := false
			for lb := range loop {
				for _, li := range lb.Instrs {
					if rs.reads[li] {
						reads = true
					}
					if c, ok := li.(*ssa.Call); ok {
						for _, g := range rs.p.Callees(c) {
							if rs.fns[g] {
								reads = true
							}
						}
					}
				}
			}
			if !reads {
				continue
			}
			if what == "a map" {
				if di, ok := col.(ssa.Instruction); ok && loop[di.Block()] {
					if _, isMake := col.(*ssa.MakeMap); isMake {
						continue
					}
				}
			} else if !carried(col, loop) {
				continue
			}
			done[h] = true
			r.count("loops that collect what they read", 1)
			if !loopCounts(loop, col) {
				r.find("collect|"+fname(f), rs.p.posOf(in), "%s adds to %s for everything the peer sends, and nothing limits how much that is", fname(f), what)
			}
		}
	}
}

func updatesMap(g *ssa.Function, q *ssa.Parameter) bool {
	for _, ref := range *q.Referrers() {
		if mu, ok := ref.(*ssa.MapUpdate); ok && mu.Map == ssa.Value(q) {
			return true
		}
	}
	return false
}

// enclosingLoop: the header of the innermost loop around b.
func enclosingLoop(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		if l := naturalLoop(h); l != nil && l[b] {
			return h
		}
	}
	return nil
}

// carried: the slice grows from one iteration to the next.
func carried(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	ph, ok := v.(*ssa.Phi)
	return ok && loop[ph.Block()]
}

// loopCounts: the loop is left when a counter of its own, or the size of what it
// collects, reaches a limit.
func loopCounts(loop map[*ssa.BasicBlock]bool, col ssa.Value) bool {
	var counts func(v ssa.Value, d int) bool
	counts = func(v ssa.Value, d int) bool {
		if d > 5 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Convert:
			return counts(x.X, d+1)
		case *ssa.Phi:
			if !loop[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && (b.X == ssa.Value(x) || b.Y == ssa.Value(x)) {
					return true
				}
			}
		case *ssa.BinOp:
			return (x.Op == token.ADD || x.Op == token.SUB) && (counts(x.X, d+1) || counts(x.Y, d+1))
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := x.Call.Args[0]
				if a == col {
					return true
				}
				ca, ok1 := a.(*ssa.ChangeType)
				cc, ok2 := col.(*ssa.ChangeType)
				return ok1 && ca.X == col || ok2 && cc.X == a || carried(a, loop)
			}
		}
		return false
	}
	for b := range loop {
		i, ok := lastInstr(b).(*ssa.If)
		if !ok {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || !counts(c.X, 0) && !counts(c.Y, 0) {
			continue
		}
		nx, kx := constOf(c.X)
		ny, ky := constOf(c.Y)
		if kx && nx < 2 || ky && ny < 2 {
			continue
		}
		for _, s := range b.Succs {
			if leaves(s, loop) {
				return true
			}
		}
	}
	return false
}

func leaves(b *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	for loop[b] && !seen[b] {
		seen[b] = true
		if len(b.Succs) != 1 {
			return false
		}
		b = b.Succs[0]
	}
	return !loop[b]
}

func accumulators(p *Prog, r *Report, rs *readSpec, direct map[*ssa.Function]bool) {
	as := &accSpec{p: p, rs: rs, idx: map[string]int{}, sites: map[ssa.Instruction]int{}, counters: map[string][]int{}, incs: map[ssa.Instruction]string{}, memo: map[*ssa.Function]measure{}, tests: map[ssa.Value]bool{}}
	roots := p.goRoots(func(f *ssa.Function) bool { return direct[f] })
	reached := map[*ssa.Function]bool{}
	for _, f := range roots {
		for g := range p.reach(f, false) {
			reached[g] = true
		}
	}
	ingest := func(f *ssa.Function) bool {
		if f.Parent() != nil {
			return reached[f]
		}
		return reached[f] && f.Pkg != nil && (strings.HasSuffix(f.Pkg.Pkg.Path(), "/librtmp") || strings.HasSuffix(f.Pkg.Pkg.Path(), "/librtsp") || strings.HasSuffix(f.Pkg.Pkg.Path(), "/libsrt") || strings.HasSuffix(f.Pkg.Pkg.Path(), "/libamf") || strings.HasSuffix(f.Pkg.Pkg.Path(), "/libflv"))
	}
	for _, f := range p.Funcs {
		if !ingest(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if s, _ := extends(st); s != "" {
					if _, ok := as.idx[s]; !ok {
						as.idx[s] = len(as.slots)
						as.slots = append(as.slots, s)
					}
					as.sites[st] = as.idx[s]
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if !reached[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isIntType(st.Val.Type()) {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				bo, ok := st.Val.(*ssa.BinOp)
				if !ok || bo.Op != token.ADD {
					continue
				}
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if lf := loadedField(o); lf != nil && fieldSlot(lf) == fieldSlot(fa) {
						s := fieldSlot(fa)
						pre := s[:strings.LastIndex(s, ".")+1]
						var is []int
						for i, a := range as.slots {
							if strings.HasPrefix(a, pre) && !strings.Contains(a[len(pre):], ".") {
								is = append(is, i)
							}
						}
						if is != nil {
							as.counters[s] = is
							as.incs[st] = s
						}
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if !reached[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok {
					if _, _, _, ok := as.limitTest(bo); ok {
						as.tests[bo] = true
						r.sample("limit test in %s (%s)", fname(f), p.posOf(in))
					}
				}
			}
		}
	}
	for in, i := range as.sites {
		r.sample("%s grows in %s (%s)", strings.TrimPrefix(as.slots[i], "F:"), fname(in.Parent()), p.posOf(in))
	}
	key := func(i int) string { return "a" + strconv.Itoa(i) }
	pr := &PathRule{
		tracked: map[string][]AV{},
		budget:  12000000,
		fork:    func(b *ssa.BinOp) bool { return as.tests[b] },
	}
	pr.isEvent = func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.BinOp:
			return as.tests[x]
		case *ssa.Store:
			if _, ok := as.sites[x]; ok {
				return true
			}
			if _, ok := as.incs[x]; ok {
				return true
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				_, ok := as.idx[fieldSlot(fa)]
				return ok
			}
		}
		return rs.reads[in]
	}
	pr.branch = func(px *PX, st *PState, cond ssa.Value, truth bool) {
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, truth = u.X, !truth
		}
		m, over, clamp, ok := as.limitTest(cond)
		if !ok {
			return
		}
		for _, i := range m.acc {
			v := "ok"
			if truth == over && !clamp {
				v = "over"
			}
			if m.counter {
				st.q = qset(st.q, "t"+strconv.Itoa(i), "c")
			} else {
				st.q = qset(st.q, "t"+strconv.Itoa(i), "l")
			}
			st.q = qset(st.q, key(i), v)
		}
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		switch x := in.(type) {
		case *ssa.Lookup:
			// the entry stays while the map is not changed
			if fa := loadedField(x.X); fa != nil && nilable(x.Type()) {
				st.src[x] = fieldSlot(fa) + "#e"
				st.setVal(x, st.mem[fieldSlot(fa)+"#e"])
				return []POut{{st.q, nil, []AV{st.mem[fieldSlot(fa)+"#e"]}}}, true
			}
			return nil, false
		case *ssa.MapUpdate:
			if fa := loadedField(x.Map); fa != nil {
				st.setMem(fieldSlot(fa)+"#e", top)
			}
			return nil, false
		case *ssa.Store:
			if s, ok := as.incs[x]; ok {
				for _, i := range as.counters[s] {
					st.q = qset(st.q, "c"+strconv.Itoa(i), "y")
				}
				return nil, false
			}
			if i, ok := as.sites[x]; ok {
				switch qget(st.q, key(i)) {
				case "none":
					px.report("grow|"+fname(in.Parent())+"|"+strings.TrimPrefix(as.slots[i], "F:"), in, "%s is extended with what the peer sent, and nothing has tested its size since the last read", p.slotName(as.slots[i]))
				case "over":
					px.report("grow|"+fname(in.Parent())+"|"+strings.TrimPrefix(as.slots[i], "F:"), in, "%s is extended although it is over its limit", p.slotName(as.slots[i]))
				}
				st.q = qset(st.q, "u"+strconv.Itoa(i), "y")
				return nil, false
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if i, ok := as.idx[fieldSlot(fa)]; ok && emptied(x.Val) {
					st.q = qset(st.q, key(i), "ok")
					st.q = qset(st.q, "t"+strconv.Itoa(i), "l")
				}
			}
			return nil, false
		}
		if c, ok := in.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				if fa := loadedField(c.Call.Args[0]); fa != nil {
					st.setMem(fieldSlot(fa)+"#e", top)
				}
			}
		}
		if rs.reads[in] {
			for i := range as.slots {
				n := strconv.Itoa(i)
				if qget(st.q, "u"+n) == "y" {
					if qget(st.q, "t"+n) == "c" && qget(st.q, "c"+n) != "y" {
						px.report("count|"+strings.TrimPrefix(as.slots[i], "F:"), in, "%s grew, and the counter that limits it was not advanced", p.slotName(as.slots[i]))
					}
					st.q = qset(st.q, "u"+n, "n", "c"+n, "n", "t"+n, "n", key(i), "none")
				}
			}
		}
		return nil, false
	}
	px := newPX(p, r, pr)
	q := ""
	var kv []string
	for i := range as.slots {
		n := strconv.Itoa(i)
		kv = append(kv, "a"+n+"=none", "c"+n+"=n", "t"+n+"=n", "u"+n+"=n")
	}
	sort.Strings(kv)
	q = strings.Join(kv, ",")
	paths := 0
	for _, f := range roots {
		px.memo, px.Fns, px.Paths = map[string]*pSummary{}, map[*ssa.Function]bool{}, 0
		px.Root(f, q, map[string]AV{}, nil)
		paths += px.Paths
		r.sample("root %s: %d functions, %d outcomes", fname(f), len(px.Fns), px.Paths)
	}
	r.count("accumulating fields", len(as.slots))
	r.count("extension sites", len(as.sites))
	r.count("limit tests", len(as.tests))
	r.count("outcomes", paths)
	r.atLeast("accumulating fields", 3)
	r.atLeast("limit tests", 3)
}

// emptied: the stored slice holds nothing from before.
func emptied(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return true
		}
		n, ok := constOf2(x.High)
		return ok && n == 0
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return emptied(x.Call.Args[0])
		}
	}
	return false
}

func constOf2(v ssa.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return constOf(v)
}
