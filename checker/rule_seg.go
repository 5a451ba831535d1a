package main

// HLS and DASH segmenters: what a playlist lists exists, is complete and is
// removed again; nobody waits for a segmenter that is gone.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// backward is the set of values v is computed from: operands, what is stored
// into the locals it is loaded from, the bindings of captured variables.
func backward(v ssa.Value) map[ssa.Value]bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	var stores func(a ssa.Value)
	stores = func(a ssa.Value) {
		refs := a.Referrers()
		if refs == nil {
			return
		}
		for _, ref := range *refs {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr == a {
					walk(x.Val)
				}
			case *ssa.FieldAddr:
				if x.X == a {
					stores(x)
				}
			case *ssa.IndexAddr:
				if x.X == a {
					stores(x)
				}
			case *ssa.Slice:
				if x.X == a {
					stores(x)
				}
			}
		}
	}
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc:
			stores(x)
			return
		case *ssa.FreeVar:
			if b := freeVarBinding(x); b != nil {
				walk(b)
			}
			return
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global, *ssa.Parameter:
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					walk(*op)
				}
			}
			if mk, ok := v.(*ssa.MakeSlice); ok {
				stores(mk)
			}
		}
	}
	walk(v)
	return seen
}

// segSpec describes one segmenter type.
type segSpec struct {
	p                                       *Prog
	t                                       *types.Named
	list, seq, window, file, ready, stopped string
	samples, init                           string
	parts                                   string
	mu                                      string
	slots                                   map[string]bool // growth of these wakes waiters
	pkg                                     string
	waits                                   bool
	start, stop                             []*ssa.Function
	n                                       map[string]map[ssa.Instruction]bool
}

func (ss *segSpec) mark(k string, in ssa.Instruction) {
	if ss.n[k] == nil {
		ss.n[k] = map[ssa.Instruction]bool{}
	}
	ss.n[k][in] = true
}

func slotAddr(v ssa.Value) string {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return classOf(fa).class
	}
	return ""
}

func loadSlot(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return slotAddr(u.X)
	}
	return ""
}

// incrementOf: v is the slot's own value plus one.
func incrementOf(v ssa.Value, slot string) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	one := func(c ssa.Value) bool {
		k, ok := c.(*ssa.Const)
		return ok && k.Value != nil && constant.Compare(k.Value, token.EQL, constant.MakeInt64(1))
	}
	return loadSlot(b.X) == slot && one(b.Y) || loadSlot(b.Y) == slot && one(b.X)
}

// appendTo: v is append(<value of slot>, …).
func appendTo(v ssa.Value, slot string) *ssa.Call {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return nil
	}
	if sliceChain(c.Call.Args[0], slot, map[ssa.Value]bool{}) {
		return c
	}
	return nil
}

// sliceChain: v is the slice held in slot, possibly appended to or resliced.
func sliceChain(v ssa.Value, slot string, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if loadSlot(v) == slot {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if sliceChain(e, slot, seen) {
				return true
			}
		}
	case *ssa.Slice:
		return sliceChain(x.X, slot, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return sliceChain(x.Call.Args[0], slot, seen)
		}
	}
	return false
}

// segmenters finds the types that read a broadcast and keep a list of files.
func (p *Prog) segmenters(r *Report, mode segMode) []*segSpec {
	byType := map[*types.Named]*segSpec{}
	var order []*types.Named
	isRead := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && calleeFull(c.Common()) == bcastRead
	}
	for _, f := range p.Funcs {
		if !p.isRepoFunc(f) || f.Signature.Recv() == nil || f.Parent() != nil || !funcHas(f, isRead) {
			continue
		}
		n, ok := derefType(f.Signature.Recv().Type()).(*types.Named)
		if !ok {
			continue
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		ss := byType[n]
		if ss == nil {
			ss = &segSpec{p: p, t: n, slots: map[string]bool{}, n: map[string]map[ssa.Instruction]bool{}, pkg: n.Obj().Pkg().Path()}
			byType[n] = ss
			order = append(order, n)
		}
		ss.start = append(ss.start, f)
		for i := 0; i < s.NumFields(); i++ {
			slot := "F:" + typeKey(n) + "." + strconv.Itoa(i)
			switch t := s.Field(i).Type().Underlying().(type) {
			case *types.Slice:
				if e, ok := t.Elem().Underlying().(*types.Struct); ok {
					str, bs, num := false, false, false
					for j := 0; j < e.NumFields(); j++ {
						ft := e.Field(j).Type().Underlying()
						if isStringType(ft) {
							str = true
						}
						if sl, ok := ft.(*types.Slice); ok && isBasicInt(sl.Elem()) {
							bs = true
						}
						if isBasicInt(ft) {
							num = true
						}
					}
					switch {
					case str && num:
						ss.list = slot
					case bs:
						ss.samples = slot
					case num:
						ss.parts = slot
					}
				}
			case *types.Pointer:
				if typeShort(s.Field(i).Type()) == "*os.File" {
					ss.file = slot
				}
			case *types.Chan:
				ss.ready = slot
			}
			if isSyncType(s.Field(i).Type(), "Mutex", "RWMutex") {
				ss.mu = slot
			}
		}
	}
	var out []*segSpec
	for _, n := range order {
		ss := byType[n]
		if ss.list == "" {
			continue // forwards media to a peer
		}
		for _, f := range p.Funcs {
			if f.Pkg == nil || f.Pkg.Pkg.Path() != ss.pkg {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if sl := slotAddr(x.Addr); sl != "" && incrementOf(x.Val, sl) && strings.HasPrefix(sl, "F:"+typeKey(n)+".") {
							ss.seq = sl
						}
					case *ssa.BinOp:
						for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
							if c, ok := pr[0].(*ssa.Call); ok {
								if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && loadSlot(c.Call.Args[0]) == ss.list {
									if w := loadSlot(pr[1]); strings.HasPrefix(w, "F:"+typeKey(n)+".") {
										ss.window = w
									}
								}
							}
						}
					case *ssa.Call:
						nm := calleeFull(&x.Call)
						if strings.HasPrefix(nm, "sync/atomic.CompareAndSwap") && len(x.Call.Args) == 3 {
							if sl := slotAddr(x.Call.Args[0]); strings.HasPrefix(sl, "F:"+typeKey(n)+".") {
								ss.stopped = sl
								ss.stop = append(ss.stop, f)
							}
						}
						if strings.HasPrefix(nm, "(*sync/atomic.Bool).CompareAndSwap") || strings.HasPrefix(nm, "(*sync/atomic.Int32).CompareAndSwap") {
							if sl := slotAddr(x.Call.Args[0]); strings.HasPrefix(sl, "F:"+typeKey(n)+".") {
								ss.stopped = sl
								ss.stop = append(ss.stop, f)
							}
						}
						if nm == "(*sync.Cond).Wait" {
							ss.waits = true
						}
					}
				}
			}
		}
		for _, w := range [][2]string{{"list of segments", ss.list}, {"sequence counter", ss.seq}, {"window size compared with the list's length", ss.window}, {"ready channel", ss.ready}, {"stop flag", ss.stopped}, {"mutex", ss.mu}} {
			if w[1] == "" && (mode == segFiles || w[0] != "sequence counter" && !strings.HasPrefix(w[0], "window")) {
				r.find("coverage|"+typeShort(n)+"|"+w[0], "-", "the %s has no recognisable %s: the rule cannot be decided", typeShort(n), w[0])
			}
		}
		out = append(out, ss)
	}
	return out
}

// seqPath: the path handed to a file operation names a segment (its name is
// made from the sequence counter or taken from the list or the open file).
func (ss *segSpec) seqPath(v ssa.Value) bool {
	for w := range ss.deep(v, 0) {
		if s := loadSlot(w); s == ss.seq || s == ss.list && s != "" || s == ss.file && s != "" {
			return true
		}
	}
	return false
}

// deep follows the backward slice through parameters to the call sites, and
// into the results of functions of the same package.
func (ss *segSpec) deep(v ssa.Value, depth int) map[ssa.Value]bool {
	out := backward(v)
	if depth > 3 {
		return out
	}
	add := map[ssa.Value]bool{}
	for w := range out {
		switch x := w.(type) {
		case *ssa.Parameter:
			f := x.Parent()
			for i, q := range f.Params {
				if q != x {
					continue
				}
				for _, c := range ss.p.Callers(f) {
					a := c.Common().Args
					if !c.Common().IsInvoke() && len(a) == len(f.Params) {
						for y := range ss.deep(a[i], depth+1) {
							add[y] = true
						}
					}
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && ss.p.isRepoFunc(f) && f.Pkg != nil && f.Pkg.Pkg.Path() == ss.pkg {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ret, ok := in.(*ssa.Return); ok {
							for _, res := range ret.Results {
								for y := range ss.deep(res, depth+1) {
									add[y] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for y := range add {
		out[y] = true
	}
	return out
}

// headOf: the backward slice contains an element of the list.
func (ss *segSpec) headLoads(v ssa.Value) (ls []*ssa.IndexAddr) {
	for w := range ss.deep(v, 0) {
		if ia, ok := w.(*ssa.IndexAddr); ok {
			for u := range backward(ia.X) {
				if loadSlot(u) == ss.list {
					ls = append(ls, ia)
					break
				}
			}
		}
	}
	return
}

func (ss *segSpec) isEvent(in ssa.Instruction) bool {
	if com := callOf(in); com != nil {
		n := calleeFull(com)
		switch n {
		case "os.Create", "os.OpenFile", "os.WriteFile", "os.Remove", "(*os.File).Close", "(*sync.Cond).Broadcast", "(*sync.Cond).Wait", "(*sync.Once).Do", bcastRead:
			return true
		}
		if strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") {
			return true
		}
		if lo, ok := syncOp(com); ok && lo.key == ss.mu {
			return true
		}
	}
	if s, ok := in.(*ssa.Store); ok {
		switch slotAddr(s.Addr) {
		case "":
		case ss.list, ss.seq, ss.samples, ss.parts:
			return true
		}
	}
	if b, ok := in.(*ssa.BinOp); ok {
		return keyCompare(b) != 0
	}
	return false
}

// keyCompare: +1 when the comparison holds for key frames, -1 when it holds
// for other frames, 0 when it is about something else.
func keyCompare(b *ssa.BinOp) int {
	if b.Op != token.EQL && b.Op != token.NEQ {
		return 0
	}
	for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		c, ok := pr[1].(*ssa.Const)
		if !ok || c.Value == nil {
			continue
		}
		u, ok := pr[0].(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		st, _ := structOf(fa.X.Type())
		if st == nil || st.Field(fa.Field).Name() != "FrameType" {
			continue
		}
		if constant.Compare(c.Value, token.EQL, constant.MakeInt64(1)) {
			if b.Op == token.EQL {
				return 1
			}
			return -1
		}
	}
	return 0
}

type segMode int

const (
	segFiles segMode = iota
	segWait
)

func (ss *segSpec) rule(mode segMode) *PathRule {
	pr := &PathRule{tracked: map[string][]AV{}, noZero: map[string]bool{}}
	if ss.file != "" {
		pr.tracked[ss.file] = nil
	}
	pr.isEvent = ss.isEvent

	pr.fork = func(b *ssa.BinOp) bool { return keyCompare(b) != 0 }
	pr.enter = func(f *ssa.Function) (yes, no bool) {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != ss.pkg {
			return false, true
		}
		return false, false
	}
	name := typeShort(ss.t)
	fin := mode == segFiles
	zero, nonzero := AV{k: avConst, s: "0"}, AV{k: avConst, s: "1"}
	rep := func(px *PX, key string, in ssa.Instruction, f string, a ...interface{}) {
		px.report(key+"|"+fname(in.Parent()), in, f, a...)
	}
	unwoken := func(px *PX, in ssa.Instruction, st *PState) {
		if !fin && ss.waits && qget(st.q, "grown") == "1" {
			rep(px, "no-broadcast", in, "the list of segments or parts grew and the requests that wait for it have not been woken by the time the goroutine goes on to something else")
		}
	}
	pr.branch = func(px *PX, st *PState, cond ssa.Value, truth bool) {
		b, ok := cond.(*ssa.BinOp)
		if !ok {
			return
		}
		if k := keyCompare(b); k != 0 {
			if (k > 0) == truth {
				st.q = qset(st.q, "key", "1")
			} else {
				st.q = qset(st.q, "key", "0")
			}
		}
		// comparisons of a list's length
		lenOf := func(v ssa.Value) string {
			if c, ok := v.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return loadSlot(c.Call.Args[0])
				}
			}
			return ""
		}
		op, x, y := b.Op, b.X, b.Y
		// len(list)-window against 0
		if d, ok := x.(*ssa.BinOp); ok && d.Op == token.SUB && isConstInt(y, 0) {
			x, y = d.X, d.Y
		}
		if lenOf(y) != "" {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !truth {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		switch sl := lenOf(x); {
		case sl == "":
		case sl == ss.list && loadSlot(y) == ss.window && (op == token.LEQ || op == token.LSS || op == token.EQL):
			st.q = qset(st.q, "over", "0")
		case sl == ss.samples:
			if c, ok := y.(*ssa.Const); ok && c.Value != nil {
				k, _ := constant.Int64Val(c.Value)
				if op == token.GTR && k >= 0 || op == token.GEQ && k >= 1 || op == token.NEQ && k == 0 {
					st.q = qset(st.q, "ne", "1")
				}
			}
		}
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		if s, ok := in.(*ssa.Store); ok {
			slot := slotAddr(s.Addr)
			switch {
			case slot == "":
			case slot == ss.list:
				ss.mark("list stores", in)
				if !fin {
					if appendTo(s.Val, slot) != nil {
						st.q = qset(st.q, "grown", "1")
					}
					return nil, false
				}
				if qget(st.q, "lk") != "1" {
					rep(px, "unlocked-list", in, "%s's list of segments is changed without its mutex", name)
				}
				if c := appendTo(s.Val, slot); c != nil {
					ss.mark("appends", in)
					switch qget(st.q, "f") {
					case "closed":
						st.q = qset(st.q, "f", "")
					case "open":
						rep(px, "listed-open", in, "a segment is listed while its file is still open for writing")
					default:
						rep(px, "listed-unwritten", in, "a segment is listed whose file was not completely written on this path")
					}
					if qget(st.q, "sc") != "1" {
						rep(px, "listed-after-stop", in, "a segment is listed without checking, under the same lock, that the stream was not stopped: it would stay behind")
					}
					st.q = qset(st.q, "over", "1", "bal", strconv.Itoa(atoi(qget(st.q, "bal"))+1))
				} else if sl, ok := evicts(s.Val, slot); ok {
					ss.mark("evictions", in)
					if qget(st.q, "over") == "1" {
						st.q = qset(st.q, "over", "0")
					}
					one := isConstInt(sl.Low, 1)
					if one && qget(st.q, "rm") == "1" {
						st.q = qset(st.q, "rm", "", "hd", "")
					} else if one {
						if qget(st.q, "ev") == "1" {
							rep(px, "evicted-kept", in, "a segment leaves the list without its file being removed")
						}
						st.q = qset(st.q, "ev", "1", "hd", hdOld(qget(st.q, "hd")))
					}
				} else {
					ss.mark("clears", in)
					if qget(st.q, "stop") != "1" {
						rep(px, "clear-before-stop", in, "the list is cleared before the stop flag is set: a segment finished in between stays behind")
					}
					st.q = qset(st.q, "clr", "1")
				}
				return nil, false
			case slot == ss.seq:
				if !fin {
					if ss.waits {
						st.q = qset(st.q, "grown", "1")
					}
					return nil, false
				}
				if qget(st.q, "lk") != "1" {
					rep(px, "unlocked-seq", in, "%s's sequence counter is changed without its mutex", name)
				}
				if incrementOf(s.Val, slot) {
					st.q = qset(st.q, "bal", strconv.Itoa(atoi(qget(st.q, "bal"))-1))
				} else {
					rep(px, "seq-reset", in, "the sequence counter is set to something else than its successor: segment numbers and file names repeat")
				}
				return nil, false
			case slot == ss.parts:
				if !fin && appendTo(s.Val, slot) != nil {
					st.q = qset(st.q, "grown", "1")
				}
				return nil, false
			case slot == ss.samples:
				if appendTo(s.Val, slot) != nil {
					ss.mark("samples", in)
					if fin && qget(st.q, "key") != "1" && qget(st.q, "ne") != "1" {
						rep(px, "nonkey-start", in, "a segment can start with a frame that is no key frame")
					}
					st.q = qset(st.q, "ne", "1")
				} else {
					st.q = qset(st.q, "ne", "")
				}
				return nil, false
			}
		}
		if ia, ok := in.(*ssa.IndexAddr); ok && fin {
			if loadSlot(ia.X) == ss.list && isConstInt(ia.Index, 0) {
				st.q = qset(st.q, "hd", "cur")
			}
			return nil, false
		}
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && slotAddr(u.X) == ss.list {
			if fin && qget(st.q, "clr") == "1" && ss.feedsRemove(u) {
				rep(px, "cleared-first", in, "the list is cleared before the files it names are looked up: they stay behind")
			}
			return nil, false
		}
		if c, ok := in.(*ssa.Call); !ok {
		} else if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && fin && qget(st.q, "ev") == "1" && qget(st.q, "hd") == "old" {
			if ss.collects(c) {
				st.q = qset(st.q, "ev", "", "hd", "")
			}
			return nil, false
		}
		if ci, ok := in.(ssa.CallInstruction); ok && mode == segWait {
			var later []*ssa.Function
			if _, isGo := in.(*ssa.Go); isGo {
				later = ss.p.Callees(ci)
			} else if calleeFull(ci.Common()) == "time.AfterFunc" {
				later = append(later, funcsOf(ci.Common().Args[1])...)
			}
			for _, f := range later {
				if n, bad := ss.wakes(f, false, 4); bad != nil {
					rep(px, "lost-wakeup", bad, "the deadline is signalled without having taken the lock: a request that has just decided to wait is not woken")
				} else if n > 0 {
					st.q = qset(st.q, "timer", "1")
				}
			}
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return nil, false
		}
		com := callOf(in)
		if com == nil {
			return nil, false
		}
		n := calleeFull(com)
		if lo, ok := syncOp(com); ok && lo.key == ss.mu {
			switch lo.op {
			case "Lock":
				unwoken(px, in, st)
				st.q = qset(st.q, "lk", "1", "sc", "", "grown", "")
			case "Unlock":
				if fin {
					if qget(st.q, "over") == "1" {
						rep(px, "window", in, "the lock is released after a segment was listed without bringing the list back to the window size")
					}
					if b := qget(st.q, "bal"); b != "" && b != "0" {
						rep(px, "seq-balance", in, "the lock is released with the sequence counter out of step with the list (%s appends more than increments)", b)
					}
					if qget(st.q, "rm") == "1" {
						rep(px, "removed-listed", in, "the file of a segment is removed that stays in the list")
					}
				}
				st.q = qset(st.q, "lk", "", "sc", "", "over", "", "bal", "", "rm", "")
			}
			return []POut{{st.q, nil, nil}}, true
		}
		switch n {
		case "(*sync.Cond).Broadcast":
			ss.mark("broadcasts", in)
			st.q = qset(st.q, "grown", "")
			return []POut{{st.q, nil, nil}}, true
		case "(*sync.Cond).Wait":
			if mode == segWait {
				ss.mark("waits", in)
				if qget(st.q, "timer") != "1" {
					rep(px, "wait-forever", in, "the request waits without anything that wakes it when its deadline passes")
				}
				again := inCycle(in.Block())
				for _, c := range px.callStk {
					again = again || inCycle(c.Block())
				}
				if !again {
					rep(px, "wait-once", in, "the condition is not tested again after the wait")
				}
			}
			return []POut{{st.q, nil, nil}}, true
		case "(*sync.Once).Do":
			if ss.closesReady(com.Args[1]) {
				ss.mark("closes", in)
				return []POut{{qset(st.q, "rdy", "1"), nil, nil}}, true
			}
		case bcastRead:
			unwoken(px, in, st)
			st.q = qset(st.q, "key", "", "grown", "")
			if fin && qget(st.q, "f") == "closed" {
				rep(px, "residue", in, "a written segment is neither listed nor removed before the next packet is read")
			}
			return []POut{{st.q, nil, []AV{{k: avNonNil}, avBool(true)}}, {st.q, nil, []AV{{k: avNil}, avBool(false)}}}, true
		case "os.Create", "os.OpenFile":
			if !ss.seqPath(com.Args[0]) {
				return nil, false
			}
			ss.mark("segment files", in)
			if fin {
				if f := qget(st.q, "f"); f == "open" {
					rep(px, "lost-file", in, "a new segment file is created while the previous one is still open")
				} else if f == "closed" {
					rep(px, "residue", in, "a written segment is neither listed nor removed before the next one is created")
				}
				if qget(st.q, "key") != "1" {
					rep(px, "nonkey-start", in, "a segment can start with a frame that is no key frame")
				}
			}
			return []POut{{qset(st.q, "f", "open"), nil, []AV{{k: avNonNil}, {k: avNil}}}, {st.q, nil, []AV{{k: avNil}, {k: avNonNil}}}}, true
		case "os.WriteFile":
			if !ss.seqPath(com.Args[0]) {
				return nil, false
			}
			ss.mark("segment files", in)
			if fin && qget(st.q, "f") == "closed" {
				rep(px, "residue", in, "a written segment is neither listed nor removed before the next one is written")
			}
			return []POut{{qset(st.q, "f", "closed"), nil, []AV{{k: avNil}}}, {st.q, nil, []AV{{k: avNonNil}}}}, true
		case "(*os.File).Close":
			if qget(st.q, "f") == "open" {
				st.q = qset(st.q, "f", "closed")
			}
			return []POut{{st.q, nil, []AV{top}}}, true
		}
		if name := ss.removes(com); name != nil {
			if !ss.seqPath(name) {
				if n == "os.Remove" {
					return nil, false
				}
				return []POut{{st.q, nil, tops(com)}}, true
			}
			ss.mark("removals", in)
			hl := ss.headLoads(name)
			switch {
			case len(hl) == 0: // the segment just written
				if f := qget(st.q, "f"); f == "closed" || f == "open" {
					st.q = qset(st.q, "f", "")
				}
			case !fin:
			case qget(st.q, "clr") == "1" && qget(st.q, "ev") == "": // nothing is listed any more
			default:
				head := false
				if ss.collected(name) != nil {
					hl = nil // removed later, from a list of names
				}
				for _, h := range hl {
					if isConstInt(h.Index, 0) {
						head = true
					}
				}
				if head {
					switch {
					case qget(st.q, "hd") == "old" && qget(st.q, "ev") == "1":
						st.q = qset(st.q, "ev", "", "hd", "")
					case qget(st.q, "hd") == "cur" && qget(st.q, "ev") == "":
						st.q = qset(st.q, "rm", "1")
					default:
						rep(px, "removed-listed", in, "the file removed is that of a segment which is still listed, not of the one that left the list")
						st.q = qset(st.q, "ev", "", "hd", "")
					}
				}
			}
			return []POut{{st.q, nil, tops(com)}}, true
		}
		if strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") {
			if len(com.Args) == 0 || slotAddr(com.Args[0]) != ss.stopped {
				return nil, false
			}
			isBool := com.Signature().Results().Len() == 1 && isBoolType(com.Signature().Results().At(0).Type())
			switch {
			case strings.Contains(n, "Load"):
				ss.mark("stop checks", in)
				no, yes := zero, nonzero
				if isBool {
					no, yes = avBool(false), avBool(true)
				}
				var outs []POut
				if qget(st.q, "stop") != "1" {
					q := st.q
					if qget(q, "lk") == "1" {
						q = qset(q, "sc", "1")
					}
					outs = append(outs, POut{q, nil, []AV{no}})
				}
				return append(outs, POut{qset(st.q, "stop", "1"), nil, []AV{yes}}), true
			case strings.Contains(n, "CompareAndSwap"):
				return []POut{{qset(st.q, "stop", "1", "mine", "1"), nil, []AV{avBool(true)}}, {st.q, nil, []AV{avBool(false)}}}, true
			}
		}
		return nil, false
	}
	pr.atReturn = func(px *PX, f *ssa.Function, st *PState, ret *ssa.Return, res []AV) {
		if len(px.callStk) == 0 {
			unwoken(px, ret, st)
		}
		if fin && qget(st.q, "ev") == "1" && qget(st.q, "lk") == "" && len(px.callStk) == 0 {
			rep(px, "evicted-kept", ret, "a segment left the list without its file being removed")
		}
	}
	return pr
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func hdOld(h string) string {
	if h == "cur" {
		return "old"
	}
	return ""
}

func isConstInt(v ssa.Value, k int64) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && constant.Compare(c.Value, token.EQL, constant.MakeInt64(k))
}

// evicts: v is a tail of the slot's own value.
func evicts(v ssa.Value, slot string) (*ssa.Slice, bool) {
	for w := range backward(v) {
		if s, ok := w.(*ssa.Slice); ok && s.Low != nil && !isConstInt(s.Low, 0) && loadSlot(s.X) == slot {
			return s, true
		}
	}
	return nil, false
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

func closesSlot(f *ssa.Function, slot string) bool {
	return funcHas(f, func(in ssa.Instruction) bool {
		c := callOf(in)
		if c == nil {
			return false
		}
		b, ok := c.Value.(*ssa.Builtin)
		return ok && b.Name() == "close" && loadSlot(c.Args[0]) == slot
	})
}

func (ss *segSpec) closesReady(fn ssa.Value) bool {
	var f *ssa.Function
	switch x := fn.(type) {
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	case *ssa.ChangeType:
		return ss.closesReady(x.X)
	}
	if f == nil {
		return false
	}
	for g := range ss.p.reach(f, false) {
		if closesSlot(g, ss.ready) {
			return true
		}
	}
	return false
}

// collected: the name handed to os.Remove comes out of a local list of names.
func (ss *segSpec) collected(v ssa.Value) *ssa.Call {
	for w := range ss.deep(v, 0) {
		if c, ok := w.(*ssa.Call); ok && ss.collects(c) {
			return c
		}
	}
	return nil
}

// collects: an append of list elements' names to another slice.
func (ss *segSpec) collects(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
		return false
	}
	if appendTo(c, ss.list) != nil {
		return false
	}
	hl := false
	for w := range backward(c.Call.Args[1]) {
		if ia, ok := w.(*ssa.IndexAddr); ok && loadSlot(ia.X) == ss.list && isConstInt(ia.Index, 0) {
			hl = true
		}
	}
	if !hl {
		return false
	}
	for _, f := range ss.p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != ss.pkg {
			continue
		}
		if funcHas(f, func(in ssa.Instruction) bool {
			name := ss.removal(in)
			return name != nil && ss.deep(name, 0)[c]
		}) {
			return true
		}
	}
	return false
}

func (ss *segSpec) feedsRemove(v ssa.Value) bool {
	for _, f := range ss.p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != ss.pkg {
			continue
		}
		if funcHas(f, func(in ssa.Instruction) bool {
			name := ss.removal(in)
			return name != nil && ss.deep(name, 0)[v]
		}) {
			return true
		}
	}
	return false
}

func (ss *segSpec) run(r *Report, mode segMode) {
	p := ss.p
	name := typeShort(ss.t)
	explore := func(f *ssa.Function, mem map[string]AV) []POut {
		px := newPX(p, r, ss.rule(mode))
		outs := px.Root(f, "", mem, nil)
		r.count("roots", 1)
		r.count("outcomes", px.Paths)
		r.sample("root %s: %d functions explored, %d summary outcomes", fname(f), len(px.Fns), px.Paths)
		return outs
	}
	fresh := map[string]AV{}
	if ss.file != "" {
		fresh[ss.file] = AV{k: avNil}
	}
	for _, f := range ss.start {
		for _, o := range explore(f, fresh) {
			if mode == segWait && qget(o.q, "rdy") != "1" {
				r.find("ready-open|"+fname(f), p.pos(f.Pos()), "%s can return without releasing the requests that wait for the first segment", fname(f))
			}
			if mode == segFiles {
				switch qget(o.q, "f") {
				case "open":
					r.find("left-open|"+fname(f), p.pos(f.Pos()), "%s can return with its segment file open", fname(f))
				case "closed":
					r.find("residue|"+fname(f), p.pos(f.Pos()), "%s can return with a written segment that is neither listed nor removed", fname(f))
				}
			}
		}
	}
	stops := map[*ssa.Function]bool{}
	for _, f := range ss.stop {
		if stops[f] {
			continue
		}
		stops[f] = true
		for _, o := range explore(f, map[string]AV{}) {
			if qget(o.q, "mine") != "1" {
				continue
			}
			if mode == segWait && qget(o.q, "rdy") != "1" {
				r.find("ready-open|"+fname(f), p.pos(f.Pos()), "%s can return without releasing the requests that wait for the first segment", fname(f))
			}
			if mode == segFiles && qget(o.q, "clr") != "1" {
				r.find("not-cleared|"+fname(f), p.pos(f.Pos()), "%s can return with segments still listed", fname(f))
			}
		}
		if mode == segFiles {
			listed, other := false, false
			for g := range p.reach(f, true) {
				funcHas(g, func(in ssa.Instruction) bool {
					if name := ss.removal(in); name != nil {
						if len(ss.headLoads(name)) > 0 || ss.listCopies(name) {
							listed = true
						} else {
							other = true
						}
					}
					return false
				})
			}
			ss.cleared(r, f)
			if !listed {
				r.find("not-removed|"+fname(f), p.pos(f.Pos()), "%s does not remove the files of the listed segments", fname(f))
			}
			init := false
			for g := range p.reach(ss.start[0], true) {
				funcHas(g, func(in ssa.Instruction) bool {
					if com := callOf(in); com != nil && (calleeFull(com) == "os.WriteFile" || calleeFull(com) == "os.Create") && g.Pkg != nil && g.Pkg.Pkg.Path() == ss.pkg && !ss.seqPath(com.Args[0]) {
						init = true
					}
					return false
				})
			}
			if init && !other {
				r.find("init-kept|"+fname(f), p.pos(f.Pos()), "%s does not remove the initialisation segment", fname(f))
			}
		}
	}
	if mode == segWait {
		once := map[string]bool{}
		for _, f := range p.Funcs {
			if f.Pkg == nil || f.Pkg.Pkg.Path() != ss.pkg {
				continue
			}
			if funcHas(f, func(in ssa.Instruction) bool {
				c := callOf(in)
				return c != nil && calleeFull(c) == "(*sync.Cond).Wait"
			}) {
				for _, e := range ss.outermost(f, map[*ssa.Function]bool{}) {
					explore(e, map[string]AV{})
				}
			}
			if closesSlot(f, ss.ready) {
				r.count("close sites", 1)
				if !onlyOnce(p, f, once) {
					r.find("double-close|"+fname(f), p.pos(f.Pos()), "the ready channel is closed outside a sync.Once: closing it twice panics")
				}
			}
		}
		if len(once) > 1 {
			r.find("two-onces|"+name, "-", "the ready channel is closed under %d different sync.Once values: closing it twice panics", len(once))
		}
	}
	for _, k := range sortedKeys(ss.n) {
		r.count(name+": "+k, len(ss.n[k]))
	}
	if mode == segFiles {
		for _, k := range []string{"appends", "evictions", "segment files", "removals", "stop checks", "clears"} {
			if len(ss.n[k]) == 0 {
				r.find("coverage|"+name+"|"+k, "-", "no %s of %s were recognised: the rule cannot be decided", k, name)
			}
		}
	}
}

// removes: the name of the file a call removes: os.Remove itself, or a
// function that only removes the file it is given the name of.
func (ss *segSpec) removes(com *ssa.CallCommon) ssa.Value {
	if calleeFull(com) == "os.Remove" {
		return com.Args[0]
	}
	f := com.StaticCallee()
	if f == nil || len(com.Args) != len(f.Params) {
		return nil
	}
	if at := ss.remover(f); at >= 0 {
		return com.Args[at]
	}
	return nil
}

// removal is removes for the calls that count: the one within a function that
// only removes the file it is given counts where that function is called.
func (ss *segSpec) removal(in ssa.Instruction) ssa.Value {
	com := callOf(in)
	if com == nil || calleeFull(com) == "os.Remove" && ss.remover(in.Parent()) >= 0 {
		return nil
	}
	return ss.removes(com)
}

// remover: the parameter that names the file f only removes, or -1.
func (ss *segSpec) remover(f *ssa.Function) int {
	if f.Blocks == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != ss.pkg || f.Parent() != nil {
		return -1
	}
	at, n := -1, 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Store); ok && !localStore(in) {
				return -1
			}
			c := callOf(in)
			if c == nil {
				continue
			}
			if g := c.StaticCallee(); g != nil && ss.p.isRepoFunc(g) {
				return -1
			}
			if calleeFull(c) != "os.Remove" {
				if ss.isEvent(in) {
					return -1
				}
				continue
			}
			n++
			for w := range backward(c.Args[0]) {
				for i, q := range f.Params {
					if w == ssa.Value(q) && isStringType(q.Type()) {
						if at >= 0 && at != i {
							return -1
						}
						at = i
					}
				}
			}
		}
	}
	if n != 1 {
		return -1
	}
	return at
}

func tops(com *ssa.CallCommon) (out []AV) {
	for i := 0; i < com.Signature().Results().Len(); i++ {
		out = append(out, top)
	}
	return
}

func localStore(in ssa.Instruction) bool {
	a := in.(*ssa.Store).Addr
	for {
		switch x := a.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.FieldAddr:
			a = x.X
		default:
			return false
		}
	}
}

// dirSlots: the fields of the segmenter that name the folder segments are
// created in.
func (ss *segSpec) dirSlots() map[string]bool {
	out := map[string]bool{}
	own := "F:" + typeKey(ss.t) + "."
	for _, f := range ss.p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != ss.pkg {
			continue
		}
		funcHas(f, func(in ssa.Instruction) bool {
			com := callOf(in)
			if com == nil {
				return false
			}
			switch calleeFull(com) {
			case "os.Create", "os.OpenFile", "os.WriteFile":
			default:
				return false
			}
			for w := range ss.deep(com.Args[0], 0) {
				j, ok := w.(*ssa.Call)
				if !ok || calleeFull(&j.Call) != "path/filepath.Join" && calleeFull(&j.Call) != "path.Join" {
					continue
				}
				if vs, ok := varargs(j.Call.Args[0]); ok && len(vs) > 1 {
					if s := loadSlot(vs[0]); strings.HasPrefix(s, own) {
						out[s] = true
					}
				}
			}
			return false
		})
	}
	return out
}

// cleared: the loop that removes the files of the listed segments goes over
// all of them, and files are removed from the folder they were created in.
func (ss *segSpec) cleared(r *Report, stop *ssa.Function) {
	dirs := ss.dirSlots()
	for g := range ss.p.reach(stop, true) {
		if g.Pkg == nil || g.Pkg.Pkg.Path() != ss.pkg {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				name := ss.removal(in)
				if name == nil || !ss.listCopies(name) {
					continue
				}
				for w := range backward(name) {
					ia, ok := w.(*ssa.IndexAddr)
					if !ok || !ss.listCopies(ia.X) {
						continue
					}
					r.count("segments cleared", 1)
					if why := wholeRange(ia, in); why != "" {
						r.find("partly-cleared|"+fname(g), ss.p.pos(in.Pos()), "%s does not remove the files of all listed segments: %s", fname(g), why)
					}
				}
			}
		}
	}
	if len(dirs) == 0 {
		return
	}
	for _, g := range ss.p.Funcs {
		if g.Pkg == nil || g.Pkg.Pkg.Path() != ss.pkg {
			continue
		}
		funcHas(g, func(in ssa.Instruction) bool {
			com := callOf(in)
			if com == nil || calleeFull(com) != "os.Remove" {
				return false
			}
			for w := range ss.deep(com.Args[0], 0) {
				if dirs[loadSlot(w)] {
					return false
				}
			}
			r.find("elsewhere|"+fname(g), ss.p.pos(in.Pos()), "%s removes a file from another folder than the one segments are created in", fname(g))
			return false
		})
	}
}

// wholeRange: the element removed by in is that of a counter running from the
// first to the last element, one by one; else why not.
func wholeRange(ia *ssa.IndexAddr, in ssa.Instruction) string {
	phi, next := countOf(ia.Index)
	if phi == nil {
		return ""
	}
	for w := range backward(ia.X) {
		if sl, ok := w.(*ssa.Slice); ok {
			if _, arr := derefType(sl.X.Type()).Underlying().(*types.Array); arr {
				continue
			}
			if k, ok := intOf(sl.Low); ok && k != 0 {
				return "it goes over a part of the list"
			}
			if b, ok := sl.High.(*ssa.BinOp); ok && b.Op == token.SUB {
				return "it goes over a part of the list"
			}
		}
	}
	head := phi.Block()
	for i, e := range phi.Edges {
		if head.Dominates(head.Preds[i]) {
			continue
		}
		k, ok := intOf(e)
		if !ok {
			return ""
		}
		if ia.Index == ssa.Value(phi) && k != 0 || ia.Index == next && k != -1 {
			return "it does not start at the first one"
		}
	}
	for i := range phi.Edges {
		if head.Dominates(head.Preds[i]) && !in.Block().Dominates(head.Preds[i]) {
			// the loop goes on without a removal
			return "it passes over some"
		}
	}
	// left only where the counter is compared
	body := map[*ssa.BasicBlock]bool{head: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, q := range b.Preds {
			add(q)
		}
	}
	for _, q := range head.Preds {
		if head.Dominates(q) {
			add(q)
		}
	}
	for b := range body {
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return "it stops early"
			}
			c, ok := ifi.Cond.(*ssa.BinOp)
			if !ok || !(c.X == ssa.Value(phi) || c.X == next || c.Y == ssa.Value(phi) || c.Y == next) {
				return "it stops early"
			}
		}
	}
	return ""
}

// countOf: the loop counter the index is, and its increment.
func countOf(v ssa.Value) (*ssa.Phi, ssa.Value) {
	one := func(v ssa.Value) *ssa.Phi {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil
		}
		k, ok := intOf(b.Y)
		q, isPhi := b.X.(*ssa.Phi)
		if !ok || k != 1 || !isPhi {
			return nil
		}
		return q
	}
	if q := one(v); q != nil {
		for _, e := range q.Edges {
			if e == v {
				return q, v
			}
		}
		return nil, nil
	}
	if q, ok := v.(*ssa.Phi); ok {
		for _, e := range q.Edges {
			if one(e) == q {
				return q, e
			}
		}
	}
	return nil, nil
}

func (ss *segSpec) listCopies(v ssa.Value) bool {
	for w := range ss.deep(v, 0) {
		if loadSlot(w) == ss.list {
			return true
		}
	}
	return false
}

// wakes counts the broadcasts f leads to and finds one that is not preceded by
// taking the lock since the goroutine last slept.
func (ss *segSpec) wakes(f *ssa.Function, locked bool, depth int) (n int, bad ssa.Instruction) {
	if depth == 0 || f.Blocks == nil || !ss.p.isRepoFunc(f) {
		return
	}
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		in[b] = true
	}
	in[f.Blocks[0]] = locked
	locks := func(c ssa.CallInstruction) bool {
		if lo, ok := syncOp(c.Common()); ok && lo.key == ss.mu && lo.op == "Lock" {
			return true
		}
		ts := ss.p.Callees(c)
		for _, t := range ts {
			if !ss.p.isRepoFunc(t) || !ss.takes(t, 3) {
				return false
			}
		}
		return len(ts) > 0
	}
	step := func(i ssa.Instruction, v bool) bool {
		switch x := i.(type) {
		case *ssa.Call:
			if calleeFull(&x.Call) == "time.Sleep" {
				return false
			}
			return v || locks(x)
		case *ssa.UnOp:
			return v && x.Op != token.ARROW
		case *ssa.Select:
			return false
		}
		return v
	}
	for again := true; again; {
		again = false
		for _, b := range f.Blocks {
			v := in[b]
			for _, i := range b.Instrs {
				v = step(i, v)
			}
			for _, s := range b.Succs {
				if in[s] && !v {
					in[s] = false
					again = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		v := in[b]
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				_, isGo := i.(*ssa.Go)
				_, isDefer := i.(*ssa.Defer)
				at := v && !isGo || isDefer && ss.takes(f, 3)
				if calleeFull(c.Common()) == "(*sync.Cond).Broadcast" {
					n++
					if !at {
						bad = i
					}
				} else {
					for _, t := range ss.p.Callees(c) {
						m, x := ss.wakes(t, at, depth-1)
						if n += m; x != nil {
							bad = x
						}
					}
				}
			}
			v = step(i, v)
		}
	}
	return
}

// outermost: the functions of the package through which others reach f.
func (ss *segSpec) outermost(f *ssa.Function, seen map[*ssa.Function]bool) (out []*ssa.Function) {
	if seen[f] {
		return nil
	}
	seen[f] = true
	outside := len(ss.p.Callers(f)) == 0 || ss.p.addressTaken(f)
	for _, c := range ss.p.Callers(f) {
		if g := c.Parent(); g.Pkg != nil && g.Pkg.Pkg.Path() == ss.pkg {
			out = append(out, ss.outermost(g, seen)...)
		} else {
			outside = true
		}
	}
	if outside {
		out = append(out, f)
	}
	return out
}

// takes: every path through f takes the lock.
func (ss *segSpec) takes(f *ssa.Function, n int) bool {
	return ss.p.everyPath(f, func(c ssa.CallInstruction) bool {
		lo, ok := syncOp(c.Common())
		return ok && lo.key == ss.mu && lo.op == "Lock"
	}, n)
}

// funcsOf: the functions a function value stands for.
func funcsOf(v ssa.Value) (out []*ssa.Function) {
	switch x := v.(type) {
	case *ssa.Function:
		out = append(out, x)
	case *ssa.MakeClosure:
		out = append(out, x.Fn.(*ssa.Function))
	case *ssa.ChangeType:
		return funcsOf(x.X)
	}
	return
}

// onlyOnce: f runs only as the argument of sync.Once.Do.
func onlyOnce(p *Prog, f *ssa.Function, once map[string]bool) bool {
	ok, any := true, false
	use := func(in ssa.Instruction, v ssa.Value) {
		c, isCall := in.(ssa.CallInstruction)
		if isCall && calleeFull(c.Common()) == "(*sync.Once).Do" && c.Common().Args[1] == v {
			any = true
			once[slotAddr(c.Common().Args[0])] = true
			return
		}
		if _, dbg := in.(*ssa.DebugRef); dbg {
			return
		}
		ok = false
	}
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mc, is := in.(*ssa.MakeClosure); is && mc.Fn == ssa.Value(f) {
					for _, r := range *mc.Referrers() {
						use(r, mc)
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) {
						use(in, f)
					}
				}
			}
		}
	}
	return ok && any
}

func init() {
	register("C15", "other", func(p *Prog, r *Report) {
		r.Rule = "every exit of a segmenter and every effective stop closes the ready channel, through one sync.Once; growth of the list of segments or parts is followed by a Broadcast before the goroutine takes the lock again, reads on or ends; a timer that wakes a waiter takes the lock after sleeping and before it broadcasts; every Wait is in a loop and is preceded by starting something that broadcasts later"
		r.Assume = []string{"a segmenter's Start is called once (C10)", "branch feasibility is over-approximated outside nil tests, constants and comma-ok results"}
		sss := p.segmenters(r, segWait)
		r.count("segmenters", len(sss))
		r.atLeast("segmenters", 2)
		for _, ss := range sss {
			ss.run(r, segWait)
		}
	})
	register("C16", "other", func(p *Prog, r *Report) {
		r.Rule = "typestate of each segment file (created, closed or written, then listed or removed) and of the list (append and eviction under the mutex, window re-established before the lock is released, counter in step, the evicted file removed, nothing listed once stop was requested, stop removes everything); segments start at key frames"
		r.Assume = []string{"a segmenter's Start is called once (C10)", "branch feasibility is over-approximated outside nil tests, constants, tracked fields and comma-ok results"}
		sss := p.segmenters(r, segFiles)
		r.count("segmenters", len(sss))
		r.atLeast("segmenters", 2)
		for _, ss := range sss {
			ss.run(r, segFiles)
		}
	})
}
