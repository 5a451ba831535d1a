package main

// A path-sensitive interprocedural typestate analysis.  It explores every
// path of the control-flow graphs reachable from a root with an abstract
// state: a rule's automaton state, an abstract content for a few memory slots
// (struct fields the rule tracks, captured local variables) and what branches
// have established about local values (nil, non-nil, a constant).  Functions
// are summarised per entry state, and the summaries are iterated to a fixpoint.
// Nothing is executed and no solver is involved.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type avKind uint8

const (
	avTop avKind = iota
	avNil
	avNonNil
	avConst
	avMaybe // may be nil: comes from a lookup that can fail, not yet checked
)

// AV is the abstract value of a slot or SSA value.  tag names the object when
// the rule wants to tell objects apart.
type AV struct {
	k   avKind
	s   string // constant, exact
	tag string
}

var top = AV{}

func (a AV) String() string {
	switch a.k {
	case avNil:
		return "nil"
	case avNonNil:
		return "nonnil" + a.tag
	case avConst:
		return a.s
	case avMaybe:
		return "maybe" + a.tag
	}
	if a.tag != "" {
		return "?" + a.tag
	}
	return "?"
}

func avBool(b bool) AV { return AV{k: avConst, s: strconv.FormatBool(b)} }

func avOfConst(c *ssa.Const) AV {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Basic); ok {
			return AV{k: avNil}
		}
		return AV{k: avNil}
	}
	return AV{k: avConst, s: c.Value.ExactString()}
}

// PState is the abstract state on one path.
type PState struct {
	q      string
	mem    map[string]AV
	vals   map[ssa.Value]AV
	src    map[ssa.Value]string // value currently held in slot
	defers []pDefer
}

type pDefer struct {
	d    *ssa.Defer
	args []AV
}

func (s *PState) clone() *PState {
	n := &PState{q: s.q, mem: make(map[string]AV, len(s.mem)), vals: make(map[ssa.Value]AV, len(s.vals)), src: make(map[ssa.Value]string, len(s.src))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.src {
		n.src[k] = v
	}
	n.defers = s.defers
	return n
}

func (s *PState) setMem(slot string, v AV) {
	if v == top {
		delete(s.mem, slot)
	} else {
		s.mem[slot] = v
	}
	for k, sl := range s.src {
		if sl == slot {
			delete(s.src, k)
		}
	}
}

func (s *PState) setVal(v ssa.Value, a AV) {
	if a == top {
		delete(s.vals, v)
	} else {
		s.vals[v] = a
	}
}

// POut is one way a call can end.
type POut struct {
	q   string
	mem map[string]AV
	res []AV
}

// PathRule is what a property supplies.
type PathRule struct {
	// tracked memory slots (field classes and globals) and the values an
	// unknown load splits into (nil: nil/non-nil or true/false by type).
	tracked map[string][]AV
	// event inspects an instruction; it may change st in place and return
	// (nil,false) to continue with the default treatment, or return the
	// possible outcomes itself.
	event func(px *PX, in ssa.Instruction, st *PState) (outs []POut, handled bool)
	// enter decides whether a call to f is followed (default: when relevant).
	enter func(f *ssa.Function) (yes, no bool)
	// fresh is called for every allocation of a struct with tracked fields;
	// default: tracked fields take their zero values.
	noZero map[string]bool
	// isEvent marks instructions that make a function relevant.
	isEvent func(in ssa.Instruction) bool
	// atReturn is called when a function the rule explores returns.
	atReturn func(px *PX, f *ssa.Function, st *PState, ret *ssa.Return, res []AV)
	// results of calls to functions that are not followed
	opaque func(px *PX, com *ssa.CallCommon, f *ssa.Function, args []AV, st *PState) []AV
	// branch is told about every branch taken
	branch func(px *PX, st *PState, cond ssa.Value, truth bool)
	// fork decides whether an undecided comparison is worth splitting on
	fork func(b *ssa.BinOp) bool
	// blocked by a path bound
	budget int
}

// PX is a running exploration.
type PX struct {
	p        *Prog
	r        *PathRule
	rep      *Report
	memo     map[string]*pSummary
	stack    []*pSummary
	callStk  []ssa.CallInstruction
	changed  bool
	relevant map[*ssa.Function]bool
	live     map[*ssa.Function][]map[ssa.Value]bool
	num      map[ssa.Value]int
	seenKey  map[string]bool
	steps    int
	Paths    int
	Fns      map[*ssa.Function]bool
	over     bool
	curPass  int
}

type pSummary struct {
	fn      *ssa.Function
	key     string
	outs    map[string]POut
	order   []string
	pass    int
	running bool
}

func newPX(p *Prog, rep *Report, r *PathRule) *PX {
	px := &PX{p: p, r: r, rep: rep, memo: map[string]*pSummary{}, relevant: map[*ssa.Function]bool{}, live: map[*ssa.Function][]map[ssa.Value]bool{}, num: map[ssa.Value]int{}, seenKey: map[string]bool{}, Fns: map[*ssa.Function]bool{}}
	if r.budget == 0 {
		r.budget = 6000000
	}
	px.computeRelevance()
	return px
}

// report once per key.
func (px *PX) report(key string, in ssa.Instruction, f string, a ...interface{}) {
	if px.seenKey[key] {
		return
	}
	px.seenKey[key] = true
	where := "-"
	if in != nil {
		where = px.p.posOf(in)
	}
	msg := fmt.Sprintf(f, a...)
	if len(px.callStk) > 0 {
		var st []string
		for i := len(px.callStk) - 1; i >= 0 && len(st) < 8; i-- {
			st = append(st, px.p.posOf(px.callStk[i]))
		}
		msg += " [path through calls at " + strings.Join(st, " < ") + "]"
	}
	px.rep.find(key, where, "%s", msg)
}

// dbg prints a state when GGTRACE is set.
func (px *PX) dbg(st *PState) {
	if os.Getenv("GGTRACE") == "" {
		return
	}
	var ks []string
	for k, v := range st.mem {
		ks = append(ks, px.p.slotName(k)+"="+v.String())
	}
	sort.Strings(ks)
	var cs []string
	for _, c := range px.callStk {
		cs = append(cs, px.p.posOf(c))
	}
	fmt.Fprintln(os.Stderr, "TRACE", st.q, ks, cs)
}

func (px *PX) computeRelevance() {
	fns := map[*ssa.Function]bool{}
	var list []*ssa.Function
	var add func(f *ssa.Function)
	callsOf := map[*ssa.Function][]*ssa.Function{}
	add = func(f *ssa.Function) {
		if f == nil || fns[f] || f.Blocks == nil {
			return
		}
		fns[f] = true
		list = append(list, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range px.p.Callees(c) {
					callsOf[f] = append(callsOf[f], g)
					add(g)
				}
				// closures handed to external code (once.Do, HandleFunc)
				for _, a := range c.Common().Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						g := mc.Fn.(*ssa.Function)
						callsOf[f] = append(callsOf[f], g)
						add(g)
					}
				}
			}
		}
	}
	for _, f := range px.p.Funcs {
		add(f)
	}
	for _, f := range list {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if px.r.isEvent != nil && px.r.isEvent(in) {
					px.relevant[f] = true
				}
				if al, ok := in.(*ssa.Alloc); ok && px.hasTracked(derefType(al.Type()), 0) {
					px.relevant[f] = true
				}
				if com := callOf(in); com != nil {
					if slot, _ := px.atomicSlot(com); slot != "" {
						px.relevant[f] = true
					}
				}
				if s, ok := in.(*ssa.Store); ok {
					if _, tr := px.r.tracked[px.slotOf(s.Addr)]; tr {
						px.relevant[f] = true
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if _, tr := px.r.tracked[px.slotOf(u.X)]; tr {
						px.relevant[f] = true
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range list {
			if px.relevant[f] {
				continue
			}
			for _, g := range callsOf[f] {
				if px.relevant[g] {
					px.relevant[f] = true
					ch = true
					break
				}
			}
		}
	}
}

// slotOf names the memory slot an address denotes, "" when not modelled.
func (px *PX) slotOf(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		_, st := structOf(x.X.Type())
		return "F:" + typeKey(st) + "." + strconv.Itoa(x.Field)
	case *ssa.Alloc:
		if _, ok := derefType(x.Type()).Underlying().(*types.Struct); ok {
			return ""
		}
		return "A:" + x.Parent().String() + "." + x.Name()
	case *ssa.Global:
		return "G:" + x.String()
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return px.slotOf(b)
		}
	}
	return ""
}

// storedWhole: a local struct that is made as a copy of another value, as a
// parameter passed by value is.
func storedWhole(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al && s.Block() == al.Block() {
			_, c := s.Val.(*ssa.Const)
			return !c
		}
	}
	return false
}

// sameObject: the struct value is the one the slots of its type describe: what
// was passed in, built just before, or returned by the function that built it.
func sameObject(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.Call:
		return true
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Call)
		return ok
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Alloc)
		return x.Op == token.MUL && ok
	}
	return false
}

// freeVarBinding finds the one value bound to a free variable.
func freeVarBinding(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	idx := -1
	for i, v := range f.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if idx < 0 || f.Parent() == nil {
		return nil
	}
	var found ssa.Value
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) && idx < len(mc.Bindings) {
				if found != nil && found != mc.Bindings[idx] {
					return nil
				}
				found = mc.Bindings[idx]
			}
		}
	}
	return found
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zeroAV(t types.Type) AV {
	if nilable(t) {
		return AV{k: avNil}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return avBool(false)
		case b.Info()&types.IsInteger != 0:
			return AV{k: avConst, s: "0"}
		case b.Info()&types.IsString != 0:
			return AV{k: avConst, s: `""`}
		}
	}
	return top
}

func domainOf(t types.Type) []AV {
	if isBoolType(t) {
		return []AV{avBool(true), avBool(false)}
	}
	if nilable(t) {
		return []AV{{k: avNil}, {k: avNonNil}}
	}
	return nil
}

// val evaluates an SSA value.
func (px *PX) val(st *PState, v ssa.Value) AV {
	if a, ok := st.vals[v]; ok {
		return a
	}
	switch x := v.(type) {
	case *ssa.Const:
		return avOfConst(x)
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Function:
		return AV{k: avNonNil}
	case *ssa.MakeInterface:
		if nilable(x.X.Type()) {
			a := px.val(st, x.X)
			return AV{k: avNonNil, tag: a.tag}
		}
		a := px.val(st, x.X)
		if a.k == avConst {
			return AV{k: avNonNil, tag: "#" + a.s}
		}
		return AV{k: avNonNil, tag: a.tag}
	case *ssa.ChangeInterface:
		return px.val(st, x.X)
	case *ssa.ChangeType:
		return px.val(st, x.X)
	case *ssa.Convert:
		a := px.val(st, x.X)
		if a.k == avConst && isBasicInt(x.Type()) && isBasicInt(x.X.Type()) {
			return a
		}
		return AV{tag: a.tag}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			if _, ok := b.(*ssa.Alloc); ok {
				return AV{k: avNonNil}
			}
		}
	}
	return top
}

func isBasicInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// --- liveness -------------------------------------------------------------

func (px *PX) liveIn(f *ssa.Function) []map[ssa.Value]bool {
	if l, ok := px.live[f]; ok {
		return l
	}
	n := len(f.Blocks)
	in := make([]map[ssa.Value]bool, n)
	use := make([]map[ssa.Value]bool, n)
	def := make([]map[ssa.Value]bool, n)
	for i, b := range f.Blocks {
		in[i] = map[ssa.Value]bool{}
		use[i] = map[ssa.Value]bool{}
		def[i] = map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); !ok {
				var ops [12]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if o != nil && *o != nil && !def[i][*o] {
						use[i][*o] = true
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[i][v] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			m := in[i]
			sz := len(m)
			for v := range use[i] {
				m[v] = true
			}
			for _, s := range b.Succs {
				for v := range in[s.Index] {
					if !def[i][v] {
						m[v] = true
					}
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if e := phi.Edges[pi]; !def[i][e] {
							m[e] = true
						}
					}
				}
			}
			if len(m) != sz {
				ch = true
			}
		}
	}
	// operands looked through lazily keep their source alive
	for i := range in {
		for ch := true; ch; {
			ch = false
			for v := range in[i] {
				for _, o := range lazyOps(v) {
					if !in[i][o] {
						in[i][o] = true
						ch = true
					}
				}
			}
		}
	}
	px.live[f] = in
	return in
}

func lazyOps(v ssa.Value) []ssa.Value {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []ssa.Value{x.X}
	case *ssa.ChangeInterface:
		return []ssa.Value{x.X}
	case *ssa.ChangeType:
		return []ssa.Value{x.X}
	case *ssa.Convert:
		return []ssa.Value{x.X}
	case *ssa.BinOp:
		return []ssa.Value{x.X, x.Y}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return []ssa.Value{x.X}
		}
	case *ssa.Extract:
		return []ssa.Value{x.Tuple}
	}
	return nil
}

func (px *PX) id(v ssa.Value) int {
	if n, ok := px.num[v]; ok {
		return n
	}
	n := len(px.num) + 1
	px.num[v] = n
	return n
}

func (px *PX) key(st *PState) string {
	var sb strings.Builder
	sb.WriteString(st.q)
	sb.WriteByte('|')
	sb.WriteString(memKey(st.mem))
	sb.WriteByte('|')
	ids := make([]int, 0, len(st.vals))
	m := make(map[int]ssa.Value, len(st.vals))
	for v := range st.vals {
		i := px.id(v)
		ids = append(ids, i)
		m[i] = v
	}
	sort.Ints(ids)
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d=%s;", i, st.vals[m[i]])
	}
	sb.WriteByte('|')
	ids = ids[:0]
	for v := range st.src {
		i := px.id(v)
		ids = append(ids, i)
		m[i] = v
	}
	sort.Ints(ids)
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d@%s;", i, st.src[m[i]])
	}
	for _, d := range st.defers {
		fmt.Fprintf(&sb, "|d%d:", px.id2(d.d))
		for _, a := range d.args {
			sb.WriteString(a.String())
			sb.WriteByte(',')
		}
	}
	return sb.String()
}

func (px *PX) id2(d *ssa.Defer) int { return int(d.Pos()) }

func memKey(m map[string]AV) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k)
		sb.WriteByte('=')
		sb.WriteString(m[k].String())
		sb.WriteByte(';')
	}
	return sb.String()
}

// --- exploration ------------------------------------------------------------

// Root explores f from the given state to a fixpoint and returns its outcomes.
func (px *PX) Root(f *ssa.Function, q string, mem map[string]AV, params []AV) []POut {
	var outs []POut
	for pass := 1; pass < 60; pass++ {
		px.changed = false
		px.curPass = pass
		for _, s := range px.memo {
			s.pass = 0
		}
		outs = px.exec(f, q, mem, params, pass)
		if !px.changed {
			break
		}
	}
	if px.over {
		px.rep.find("internal|budget|"+fname(f), "-", "the path exploration of %s exceeded its budget", fname(f))
	}
	return outs
}

func (px *PX) exec(f *ssa.Function, q string, mem map[string]AV, params []AV, pass int) []POut {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p|%s|%s|", f, q, memKey(mem))
	for _, a := range params {
		sb.WriteString(a.String())
		sb.WriteByte(',')
	}
	k := sb.String()
	s := px.memo[k]
	if s == nil {
		s = &pSummary{fn: f, key: k, outs: map[string]POut{}}
		px.memo[k] = s
		px.changed = true
	}
	if !s.running && s.pass != pass {
		s.running = true
		s.pass = pass
		px.Fns[f] = true
		px.explore(s, q, mem, params, pass)
		s.running = false
	}
	outs := make([]POut, 0, len(s.order))
	for _, o := range s.order {
		outs = append(outs, s.outs[o])
	}
	return outs
}

type pWork struct {
	b  *ssa.BasicBlock
	i  int
	st *PState
}

func (px *PX) explore(s *pSummary, q string, mem map[string]AV, params []AV, pass int) {
	f := s.fn
	live := px.liveIn(f)
	st := &PState{q: q, mem: map[string]AV{}, vals: map[ssa.Value]AV{}, src: map[ssa.Value]string{}}
	for k, v := range mem {
		st.mem[k] = v
	}
	for i, p := range f.Params {
		if i < len(params) && params[i] != top {
			st.vals[p] = params[i]
		}
	}
	seen := map[string]bool{}
	work := []pWork{{f.Blocks[0], 0, st}}
	push := func(b *ssa.BasicBlock, st *PState) {
		for v := range st.vals {
			if !live[b.Index][v] && !isPhiOf(v, b) {
				delete(st.vals, v)
			}
		}
		for v := range st.src {
			if !live[b.Index][v] && !isPhiOf(v, b) {
				delete(st.src, v)
			}
		}
		k := strconv.Itoa(b.Index) + "/" + px.key(st)
		if seen[k] {
			return
		}
		seen[k] = true
		work = append(work, pWork{b, 0, st})
	}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		px.steps++
		if px.steps > px.r.budget {
			px.over = true
			return
		}
		st, b := w.st, w.b
		dead := false
		for i := w.i; i < len(b.Instrs) && !dead; i++ {
			in := b.Instrs[i]
			switch x := in.(type) {
			case *ssa.Phi:
				// evaluated on the edge
			case *ssa.If:
				c := px.val(st, x.Cond)
				if c.k != avConst {
					c = px.evalCond(st, x.Cond)
				}
				for bi, truth := range []bool{true, false} {
					if c.k == avConst && c.s != strconv.FormatBool(truth) {
						continue
					}
					ns := st.clone()
					if !px.refine(ns, x.Cond, truth) {
						continue
					}
					if px.r.branch != nil {
						px.r.branch(px, ns, x.Cond, truth)
					}
					for _, ns := range px.forkBools(ns, phiArgs(b, b.Succs[bi])) {
						px.edge(ns, b, b.Succs[bi])
						push(b.Succs[bi], ns)
					}
				}
				dead = true
			case *ssa.Jump:
				for _, st := range px.forkBools(st, phiArgs(b, b.Succs[0])) {
					px.edge(st, b, b.Succs[0])
					push(b.Succs[0], st)
				}
				dead = true
			case *ssa.Return:
				for _, st := range px.forkBools(st, x.Results) {
					var res []AV
					for _, r := range x.Results {
						a := px.val(st, r)
						if a == top {
							a = px.evalCond(st, r)
						}
						res = append(res, a)
					}
					if px.r.atReturn != nil {
						px.r.atReturn(px, f, st, x, res)
					}
					px.emit(s, st, res)
				}
				dead = true
			case *ssa.Panic:
				dead = true
			case *ssa.RunDefers:
				outs := px.runDefers(st, pass)
				for _, o := range outs {
					work = append(work, pWork{b, i + 1, o})
				}
				dead = true
			case *ssa.Defer:
				var args []AV
				for _, a := range x.Call.Args {
					args = append(args, px.val(st, a))
				}
				if x.Call.IsInvoke() {
					args = append([]AV{px.val(st, x.Call.Value)}, args...)
				}
				// a defer in a loop is recorded once
				dup := false
				for _, d := range st.defers {
					if d.d == x {
						dup = true
					}
				}
				if px.r.event != nil {
					px.r.event(px, x, st)
				}
				if !dup {
					st.defers = append(append([]pDefer(nil), st.defers...), pDefer{x, args})
				}
			default:
				nexts, forked := px.step(st, in, pass)
				if forked {
					for _, n := range nexts {
						work = append(work, pWork{b, i + 1, n})
					}
					dead = true
				}
			}
		}
	}
}

// isPhiOf: phi values are set on the edge into their block.
func isPhiOf(v ssa.Value, b *ssa.BasicBlock) bool {
	phi, ok := v.(*ssa.Phi)
	return ok && phi.Block() == b
}

func (px *PX) emit(s *pSummary, st *PState, res []AV) {
	mem := map[string]AV{}
	pre := "A:" + s.fn.String() + "."
	for k, v := range st.mem {
		if strings.HasPrefix(k, pre) {
			continue
		}
		mem[k] = v
	}
	var sb strings.Builder
	sb.WriteString(st.q)
	sb.WriteByte('|')
	sb.WriteString(memKey(mem))
	for _, a := range res {
		sb.WriteByte('|')
		sb.WriteString(a.String())
	}
	k := sb.String()
	if _, ok := s.outs[k]; !ok {
		s.outs[k] = POut{st.q, mem, res}
		s.order = append(s.order, k)
		px.changed = true
		px.Paths++
	}
}

// phiArgs lists the values the phis of dst take on the edge from src.
func phiArgs(src, dst *ssa.BasicBlock) (out []ssa.Value) {
	for i, p := range dst.Preds {
		if p != src {
			continue
		}
		for _, in := range dst.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			out = append(out, phi.Edges[i])
		}
		break
	}
	return
}

// forkBools splits the path on undecided comparisons that are about to become
// results or phi values, as if they had been branched on here.
func (px *PX) forkBools(st *PState, vs []ssa.Value) []*PState {
	cur := []*PState{st}
	for _, v := range vs {
		if !isBoolType(v.Type()) {
			continue
		}
		var next []*PState
		for _, s := range cur {
			if a := px.evalCond(s, v); a.k == avConst || !px.worthFork(s, v) {
				next = append(next, s)
				continue
			}
			for _, truth := range []bool{true, false} {
				n := s.clone()
				if !px.refine(n, v, truth) {
					continue
				}
				if px.r.branch != nil {
					px.r.branch(px, n, v, truth)
				}
				next = append(next, n)
			}
		}
		cur = next
	}
	return cur
}

func (px *PX) worthFork(st *PState, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.NOT && px.worthFork(st, x.X)
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		return nilable(x.X.Type()) || st.src[x.X] != "" || st.src[x.Y] != "" || px.r.fork != nil && px.r.fork(x)
	case *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.Parameter:
		// tested again elsewhere
		n := 0
		for _, r := range *v.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok {
				n++
			}
		}
		return n > 1
	}
	return false
}

// edge evaluates the phis of dst for the edge src->dst.
func (px *PX) edge(st *PState, src, dst *ssa.BasicBlock) {
	idx := -1
	for i, p := range dst.Preds {
		if p == src {
			idx = i
			break
		}
	}
	if idx < 0 {
		return
	}
	type upd struct {
		phi *ssa.Phi
		a   AV
		s   string
	}
	var us []upd
	for _, in := range dst.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		a := px.val(st, phi.Edges[idx])
		if a == top {
			a = px.evalCond(st, phi.Edges[idx])
		}
		us = append(us, upd{phi, a, st.src[phi.Edges[idx]]})
	}
	for _, u := range us {
		st.setVal(u.phi, u.a)
		if u.s != "" {
			st.src[u.phi] = u.s
		} else {
			delete(st.src, u.phi)
		}
	}
}

// evalCond evaluates boolean expressions over known values.
func (px *PX) evalCond(st *PState, v ssa.Value) AV {
	if a := px.val(st, v); a.k == avConst {
		return a
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if a := px.evalCond(st, x.X); a.k == avConst {
				return avBool(a.s != "true")
			}
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			a, b := px.val(st, x.X), px.val(st, x.Y)
			if a.k == avConst && b.k == avConst && isBasicInt(x.X.Type()) {
				ca, cb := constant.MakeFromLiteral(a.s, token.INT, 0), constant.MakeFromLiteral(b.s, token.INT, 0)
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					if ca.Kind() == constant.Int && cb.Kind() == constant.Int {
						return avBool(constant.Compare(ca, x.Op, cb))
					}
				}
			}
			return top
		}
		a, b := px.val(st, x.X), px.val(st, x.Y)
		eq, known := avEqual(a, b)
		if known {
			return avBool(eq == (x.Op == token.EQL))
		}
		if negConst(a) && nonNegative(x.Y) || negConst(b) && nonNegative(x.X) {
			return avBool(x.Op == token.NEQ)
		}
	}
	return top
}

func negConst(a AV) bool { return a.k == avConst && strings.HasPrefix(a.s, "-") }

// nonNegative: the value was widened from an unsigned type.
func nonNegative(v ssa.Value) bool {
	c, ok := v.(*ssa.Convert)
	if !ok || !isBasicInt(c.X.Type()) || !isBasicInt(c.Type()) {
		return false
	}
	from, to := c.X.Type().Underlying().(*types.Basic), c.Type().Underlying().(*types.Basic)
	if from.Info()&types.IsUnsigned == 0 {
		return false
	}
	size := types.SizesFor("gc", "amd64")
	return size.Sizeof(from) < size.Sizeof(to)
}

// atomicSlot: the tracked slot a sync/atomic function works on.
func (px *PX) atomicSlot(com *ssa.CallCommon) (slot, op string) {
	n := calleeFull(com)
	if !strings.HasPrefix(n, "sync/atomic.") || len(com.Args) == 0 {
		return "", ""
	}
	slot = px.slotOf(com.Args[0])
	if _, tr := px.r.tracked[slot]; !tr || slot == "" {
		return "", ""
	}
	n = strings.TrimPrefix(n, "sync/atomic.")
	for _, o := range []string{"Load", "Store", "CompareAndSwap", "Add", "Swap"} {
		if strings.HasPrefix(n, o) {
			return slot, o
		}
	}
	return "", ""
}

// atomic performs a sync/atomic operation on a tracked slot.
func (px *PX) atomic(st *PState, in ssa.Instruction, com *ssa.CallCommon, slot, op string) (outs []POut) {
	cp := func(v AV) map[string]AV {
		m := make(map[string]AV, len(st.mem)+1)
		for k, x := range st.mem {
			m[k] = x
		}
		m[slot] = v
		return m
	}
	cur := []AV{st.mem[slot]}
	if cur[0].k == avTop && len(px.r.tracked[slot]) > 0 {
		cur = px.r.tracked[slot]
	}
	for _, c := range cur {
		switch op {
		case "Load":
			outs = append(outs, POut{st.q, cp(c), []AV{c}})
		case "Store":
			return []POut{{st.q, cp(px.val(st, com.Args[1])), nil}}
		case "Swap":
			outs = append(outs, POut{st.q, cp(px.val(st, com.Args[1])), []AV{c}})
		case "CompareAndSwap":
			old, nw := px.val(st, com.Args[1]), px.val(st, com.Args[2])
			eq, known := avEqual(c, old)
			if !known || eq {
				outs = append(outs, POut{st.q, cp(nw), []AV{avBool(true)}})
			}
			if !known || !eq {
				outs = append(outs, POut{st.q, cp(c), []AV{avBool(false)}})
			}
		default:
			return []POut{{st.q, cp(top), []AV{top}}}
		}
	}
	return
}

func avEqual(a, b AV) (eq, known bool) {
	if a.k == avNil && b.k == avNil {
		return true, true
	}
	if a.k == avNil && b.k == avNonNil || a.k == avNonNil && b.k == avNil {
		return false, true
	}
	if a.k == avConst && b.k == avConst {
		return a.s == b.s, true
	}
	if a.k == avNonNil && b.k == avNonNil && a.tag != "" && a.tag == b.tag && uniqueTag(a.tag) {
		return true, true
	}
	if a.k == avNonNil && b.k == avNonNil && strings.HasPrefix(a.tag, "@") && strings.HasPrefix(b.tag, "@") && a.tag != b.tag && (uniqueTag(a.tag) || uniqueTag(b.tag)) {
		return false, true
	}
	return false, false
}

// uniqueTag: tags starting with "@1" name a single object.
func uniqueTag(t string) bool { return strings.HasPrefix(t, "@1") }

// refine records that cond has the given truth; false when impossible.
func (px *PX) refine(st *PState, cond ssa.Value, truth bool) bool {
	if c, ok := cond.(*ssa.Const); ok {
		return c.Value == nil || c.Value.ExactString() == strconv.FormatBool(truth)
	}
	if a := px.val(st, cond); a.k == avConst && a.s != strconv.FormatBool(truth) {
		return false
	}
	px.know(st, cond, avBool(truth))
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return px.refine(st, x.X, !truth)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := (x.Op == token.EQL) == truth
			a, b := px.val(st, x.X), px.val(st, x.Y)
			if e, known := avEqual(a, b); known && e != eq {
				return false
			}
			if isBoolType(x.X.Type()) {
				if b.k == avConst {
					return px.refine(st, x.X, (b.s == "true") == eq)
				}
				if a.k == avConst {
					return px.refine(st, x.Y, (a.s == "true") == eq)
				}
				return true
			}
			if eq {
				if b.k == avNil || b.k == avConst {
					px.know(st, x.X, b)
				} else if a.k == avNil || a.k == avConst {
					px.know(st, x.Y, a)
				} else if b.k == avNonNil && nilable(x.X.Type()) {
					px.know(st, x.X, AV{k: avNonNil, tag: px.val(st, x.X).tag})
				} else if a.k == avNonNil && nilable(x.Y.Type()) {
					px.know(st, x.Y, AV{k: avNonNil, tag: px.val(st, x.Y).tag})
				}
			} else {
				if b.k == avNil {
					px.know(st, x.X, AV{k: avNonNil, tag: a.tag})
				} else if a.k == avNil {
					px.know(st, x.Y, AV{k: avNonNil, tag: b.tag})
				}
			}
		}
	case *ssa.Extract:
		// comma-ok forms: ok tells whether the value is there
		if !truth {
			return true
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 {
			px.know(st, ta.X, AV{k: avNonNil, tag: px.val(st, ta.X).tag})
			if e := extractOf(x.Tuple, 0); e != nil && px.val(st, e).k != avConst {
				px.know(st, e, AV{k: avNonNil, tag: px.val(st, e).tag})
			}
		}
		if _, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			if e := extractOf(x.Tuple, 0); e != nil && nilable(e.Type()) {
				px.know(st, e, AV{k: avNonNil, tag: px.val(st, e).tag})
			}
		}
	}
	return true
}

func extractOf(t ssa.Value, idx int) ssa.Value {
	for _, r := range *t.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == idx {
			return e
		}
	}
	return nil
}

// know records a value for v, what it was converted from and the slot it was
// loaded from.
func (px *PX) know(st *PState, v ssa.Value, a AV) {
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	st.setVal(v, a)
	if sl := st.src[v]; sl != "" {
		if a == top {
			delete(st.mem, sl)
		} else {
			st.mem[sl] = a
		}
		for o, os := range st.src {
			if os == sl && o != v {
				st.setVal(o, a)
			}
		}
	}
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		px.know(st, x.X, a)
	case *ssa.ChangeType:
		px.know(st, x.X, a)
	case *ssa.Convert:
		if a.k == avConst && isBasicInt(x.Type()) && isBasicInt(x.X.Type()) {
			px.know(st, x.X, a)
		}
	}
}

// step handles one ordinary instruction; forked means the successors are in nexts.
func (px *PX) step(st *PState, in ssa.Instruction, pass int) (nexts []*PState, forked bool) {
	if v, ok := in.(ssa.Value); ok {
		// a re-executed definition (loop) has no known value yet
		if _, ext := v.(*ssa.Extract); !ext {
			delete(st.vals, v)
			delete(st.src, v)
		}
		if _, tup := v.Type().(*types.Tuple); tup {
			for _, r := range *v.Referrers() {
				if e, ok := r.(*ssa.Extract); ok {
					delete(st.vals, e)
					delete(st.src, e)
				}
			}
		}
	}
	if px.r.event != nil {
		if outs, handled := px.r.event(px, in, st); handled {
			return px.applyOuts(st, in, outs), true
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		if _, ok := derefType(x.Type()).Underlying().(*types.Struct); ok {
			if !storedWhole(x) {
				px.zeroStruct(st, derefType(x.Type()), 0)
			}
		} else {
			st.setMem(px.slotOf(x), zeroAV(derefType(x.Type())))
		}
	case *ssa.Store:
		slot := px.slotOf(x.Addr)
		if slot != "" {
			if _, tr := px.r.tracked[slot]; tr || strings.HasPrefix(slot, "A:") {
				a := px.val(st, x.Val)
				if a == top {
					a = px.evalCond(st, x.Val)
				}
				st.setMem(slot, a)
				if _, c := x.Val.(*ssa.Const); !c {
					st.src[x.Val] = slot
				}
			}
		}
		if stt, ok := x.Val.Type().Underlying().(*types.Struct); ok {
			t := x.Val.Type()
			for i := 0; i < stt.NumFields(); i++ {
				sl := "F:" + typeKey(t) + "." + strconv.Itoa(i)
				if _, tr := px.r.tracked[sl]; tr {
					if al, isAlloc := x.Addr.(*ssa.Alloc); !isAlloc || storedWhole(al) && !sameObject(x.Val) {
						st.setMem(sl, top)
					}
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			slot := px.slotOf(x.X)
			if slot == "" {
				return nil, false
			}
			dom, tr := px.r.tracked[slot]
			if !tr && !strings.HasPrefix(slot, "A:") {
				// error variables of the libraries are never nil
				if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && !px.p.Repo[g.Pkg.Pkg] && isErrorType(x.Type()) {
					st.setVal(x, AV{k: avNonNil})
				}
				return nil, false
			}
			a := st.mem[slot]
			if a.k == avTop && (tr || strings.HasPrefix(slot, "A:")) {
				if dom == nil {
					dom = domainOf(x.Type())
				}
				if len(dom) > 0 && tr {
					for _, d := range dom {
						n := st.clone()
						if d.k == avNonNil {
							d.tag = a.tag
						}
						n.setMem(slot, d)
						n.setVal(x, d)
						n.src[x] = slot
						nexts = append(nexts, n)
					}
					return nexts, true
				}
			}
			st.setVal(x, a)
			st.src[x] = slot
		}
	case *ssa.Extract:
		// set when the tuple was produced
	case *ssa.TypeAssert:
		if !x.CommaOk {
			a := px.val(st, x.X)
			st.setVal(x, AV{k: a.k, tag: a.tag})
			if a.k == avConst || a.k == avTop {
				st.setVal(x, AV{k: avNonNil, tag: a.tag})
				if !nilable(x.AssertedType) {
					st.setVal(x, top)
				}
			}
		} else {
			a := px.val(st, x.X)
			if e := extractOf(x, 0); e != nil {
				if nilable(x.AssertedType) {
					st.setVal(e, AV{k: avMaybe, tag: a.tag})
				}
			}
		}
	case *ssa.Lookup:
		// a map of pointers yields nil for a missing key
		if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
			if x.CommaOk {
				if e := extractOf(x, 0); e != nil && nilable(e.Type()) {
					st.setVal(e, AV{k: avMaybe})
				}
			} else if nilable(x.Type()) {
				st.setVal(x, AV{k: avMaybe})
			}
		}
	case *ssa.BinOp:
		if a := px.evalCond(st, x); a.k == avConst {
			st.setVal(x, a)
		}
	case *ssa.Call:
		var args []AV
		if x.Call.IsInvoke() {
			args = append(args, px.val(st, x.Call.Value))
		}
		for _, a := range x.Call.Args {
			args = append(args, px.val(st, a))
		}
		outs, many := px.call(st, x, &x.Call, args, pass)
		if !many {
			return nil, false
		}
		return px.applyOuts(st, x, outs), true
	}
	return nil, false
}

func (px *PX) hasTracked(t types.Type, depth int) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, tr := px.r.tracked["F:"+typeKey(t)+"."+strconv.Itoa(i)]; tr {
			return true
		}
		if px.hasTracked(s.Field(i).Type(), depth+1) {
			return true
		}
	}
	return false
}

func (px *PX) zeroStruct(st *PState, t types.Type, depth int) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		sl := "F:" + typeKey(t) + "." + strconv.Itoa(i)
		if _, tr := px.r.tracked[sl]; tr && !px.r.noZero[sl] {
			st.setMem(sl, zeroAV(s.Field(i).Type()))
		}
		if _, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
			px.zeroStruct(st, s.Field(i).Type(), depth+1)
		}
	}
}

// applyOuts continues after a call with each of its outcomes.
func (px *PX) applyOuts(st *PState, in ssa.Instruction, outs []POut) (nexts []*PState) {
	for _, o := range outs {
		n := st.clone()
		n.q = o.q
		if o.mem != nil {
			// slots that changed lose their source values
			for v, sl := range n.src {
				if n.mem[sl] != o.mem[sl] {
					delete(n.src, v)
				}
			}
			n.mem = make(map[string]AV, len(o.mem))
			for k, v := range o.mem {
				n.mem[k] = v
			}
		}
		if v, ok := in.(ssa.Value); ok {
			if _, isT := v.Type().(*types.Tuple); isT {
				for i, a := range o.res {
					if e := extractOf(v, i); e != nil {
						n.setVal(e, a)
					}
				}
			} else if len(o.res) == 1 {
				n.setVal(v, o.res[0])
			}
		}
		nexts = append(nexts, n)
	}
	return
}

// call evaluates a call; many=false means it has no modelled effect.
func (px *PX) call(st *PState, site ssa.CallInstruction, com *ssa.CallCommon, args []AV, pass int) (outs []POut, many bool) {
	for _, a := range com.Args {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		if al, ok := a.(*ssa.Alloc); ok {
			if sl := px.slotOf(al); sl != "" {
				st.setMem(sl, top)
			}
		}
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	if slot, op := px.atomicSlot(com); slot != "" {
		return px.atomic(st, site, com, slot, op), true
	}
	fs := px.p.Callees(site)
	var targets []*ssa.Function
	targets = append(targets, fs...)
	// a closure handed to external code that runs it at once (sync.Once.Do)
	for _, f := range fs {
		if f.String() == "(*sync.Once).Do" && len(com.Args) == 2 {
			if mc, ok := com.Args[1].(*ssa.MakeClosure); ok {
				o := px.follow(st, site, mc.Fn.(*ssa.Function), nil, pass)
				// Do runs it at most once: it may also have run before
				o = append(o, POut{st.q, st.mem, nil})
				return o, true
			}
		}
	}
	if len(targets) == 0 {
		return nil, false
	}
	any := false
	for _, f := range targets {
		if !px.follows(f, args) {
			var res []AV
			if px.r.opaque != nil {
				res = px.r.opaque(px, com, f, args, st)
			}
			if res == nil {
				res = opaqueResult(f, com, args, st, px)
			}
			if res != nil {
				any = true
			}
			outs = append(outs, POut{st.q, nil, res})
			continue
		}
		any = true
		ps := args
		if len(ps) != len(f.Params) {
			ps = nil
		}
		outs = append(outs, px.follow(st, site, f, ps, pass)...)
	}
	if !any {
		return nil, false
	}
	return outs, true
}

func (px *PX) follows(f *ssa.Function, args []AV) bool {
	if f.Blocks == nil {
		return false
	}
	if px.r.enter != nil {
		yes, no := px.r.enter(f)
		if yes {
			return true
		}
		if no {
			return false
		}
	}
	if px.relevant[f] {
		return true
	}
	// small predicates over known values
	if px.p.isRepoFunc(f) && len(f.Blocks) <= 12 && f.Signature.Results().Len() > 0 {
		for _, a := range args {
			if a.k != avTop {
				rt := f.Signature.Results()
				for i := 0; i < rt.Len(); i++ {
					if isBoolType(rt.At(i).Type()) || types.Identical(rt.At(i).Type(), types.Universe.Lookup("error").Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (px *PX) follow(st *PState, site ssa.CallInstruction, f *ssa.Function, ps []AV, pass int) []POut {
	px.callStk = append(px.callStk, site)
	// locals of functions that f cannot name stay behind
	pass_, keep := map[string]AV{}, map[string]AV{}
	for k, v := range st.mem {
		if strings.HasPrefix(k, "A:") && !lexicallyVisible(k, f) {
			keep[k] = v
		} else {
			pass_[k] = v
		}
	}
	outs := px.exec(f, st.q, pass_, ps, pass)
	px.callStk = px.callStk[:len(px.callStk)-1]
	if len(keep) > 0 {
		for i, o := range outs {
			m := make(map[string]AV, len(o.mem)+len(keep))
			for k, v := range o.mem {
				m[k] = v
			}
			for k, v := range keep {
				m[k] = v
			}
			outs[i].mem = m
		}
	}
	return outs
}

func lexicallyVisible(slot string, f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if strings.HasPrefix(slot, "A:"+g.String()+".") {
			return true
		}
	}
	return false
}

func (px *PX) runDefers(st *PState, pass int) []*PState {
	cur := []*PState{st}
	ds := st.defers
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []*PState
		seen := map[string]bool{}
		for _, s := range cur {
			s.defers = nil
			var res []*PState
			if px.r.event != nil {
				// deferred calls reach the rule as the call they make
				if outs, handled := px.r.event(px, deferredCall{d.d, &d.args}, s); handled {
					res = px.applyOuts(s, d.d, outs)
				}
			}
			if res == nil {
				outs, many := px.call(s, d.d, &d.d.Call, d.args, pass)
				if many {
					res = px.applyOuts(s, d.d, outs)
				} else {
					res = []*PState{s}
				}
			}
			for _, n := range res {
				k := px.key(n)
				if !seen[k] {
					seen[k] = true
					next = append(next, n)
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		s.defers = nil
	}
	return cur
}

// deferredCall presents a deferred call at the point where it runs.
type deferredCall struct {
	*ssa.Defer
	args *[]AV
}

// callOf returns the call an instruction performs now (a call, or a deferred
// call at RunDefers), nil for go statements and defer registrations.
func callOf(in ssa.Instruction) *ssa.CallCommon {
	switch x := in.(type) {
	case *ssa.Call:
		return &x.Call
	case deferredCall:
		return &x.Defer.Call
	}
	return nil
}

func siteOf(in ssa.Instruction) ssa.CallInstruction {
	switch x := in.(type) {
	case *ssa.Call:
		return x
	case deferredCall:
		return x.Defer
	case *ssa.Go:
		return x
	case *ssa.Defer:
		return x
	}
	return nil
}

// opaqueResult: what is known about results of functions that are not followed.
func opaqueResult(f *ssa.Function, com *ssa.CallCommon, args []AV, st *PState, px *PX) []AV {
	switch f.String() {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return []AV{{k: avNonNil}}
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
		if len(args) > 0 && (args[0].k == avNil || args[0].k == avNonNil) {
			return []AV{{k: args[0].k}}
		}
	}
	return nil
}

// isRelevant: exploring f can reach an event or a tracked slot.
func (px *PX) isRelevant(f *ssa.Function) bool { return px.relevant[f] }
