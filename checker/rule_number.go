package main

// Packets that carry a number are numbered without gaps or repeats, taken in
// order, and belong to the track whose transport they travel on: RTP, SRT and
// MPEG-TS.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// term names what an integer is computed from: a tag followed by the constant
// additions, masks and shifts applied to it.
func (px *PX) term(st *PState, v ssa.Value) string {
	a := px.val(st, v)
	if a.tag != "" {
		return a.tag
	}
	if a.k == avConst {
		return a.s
	}
	return "?"
}

// arith evaluates an integer operation over terms; top when it is not one of
// the operations a sequence number goes through.
func (px *PX) arith(st *PState, b *ssa.BinOp) AV {
	if !isBasicInt(b.Type()) {
		return top
	}
	x, y := px.val(st, b.X), px.val(st, b.Y)
	if x.tag == "" && y.tag != "" && (b.Op == token.ADD || b.Op == token.AND) {
		x, y = y, x
	}
	if x.tag == "" || y.k != avConst || strings.HasPrefix(x.tag, "@") || strings.Count(x.tag, "+")+strings.Count(x.tag, "&") > 3 {
		return top
	}
	n, err := strconv.ParseInt(y.s, 10, 64)
	if err != nil {
		return top
	}
	switch b.Op {
	case token.ADD:
		return AV{tag: x.tag + "+" + y.s}
	case token.SUB:
		return AV{tag: x.tag + "+-" + y.s}
	case token.AND:
		return AV{tag: x.tag + "&" + y.s}
	case token.REM:
		if n > 0 && n&(n-1) == 0 && nonNegType(b.X.Type()) {
			return AV{tag: x.tag + "&" + strconv.FormatInt(n-1, 10)}
		}
	case token.SHR:
		return AV{tag: x.tag + ">>" + y.s}
	}
	return top
}

func nonNegType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

const seqMask = "&2147483647"

// thresholds: a value of every class the comparisons of v with constants tell
// apart, and the signs.
func thresholds(f *ssa.Function) []int64 {
	m := map[int64]bool{-1: true, 0: true, 1: true}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			op, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch op.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, o := range []ssa.Value{op.X, op.Y} {
				if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && isBasicInt(c.Type()) {
					if n, exact := constant.Int64Val(c.Value); exact && n > -(1<<30) && n < 1<<30 {
						m[n-1], m[n], m[n+1] = true, true, true
					}
				}
			}
		}
	}
	var out []int64
	for n := range m {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (p *Prog) numberSRT(r *Report) {
	sl := map[string]string{}
	for _, n := range [][3]string{{"exp", "session", "expectedSeq"}, {"conc", "session", "concluded"}, {"cookie", "session", "cookie"}, {"peer", "session", "peerSocketID"},
		{"acks", "session", "ackNum"}, {"seq", "Header", "SeqNumber"}, {"kind", "Header", "Kind"}, {"acked", "ACKBody", "LastAckedSeq"},
		{"from", "LossRange", "From"}, {"to", "LossRange", "To"}, {"isn", "Handshake", "InitialSequence"}, {"sid", "Handshake", "SrtSocketID"}} {
		s := p.slot("libsrt", n[1], n[2])
		if s == "" {
			s = p.fieldNamed("libsrt", n[2])
		}
		if s == "" {
			r.find("anchor|"+n[2], "-", "libsrt's %s.%s is gone", n[1], n[2])
			return
		}
		sl[n[0]] = s
	}
	data, ok := p.constAV("libsrt", "KindData")
	ctrl, ok2 := p.constAV("libsrt", "KindControl")
	if !ok || !ok2 {
		r.find("anchor|kind", "-", "libsrt's packet kinds are gone")
		return
	}
	inSRT := func(in ssa.Instruction) bool {
		return in.Parent().Pkg != nil && strings.HasSuffix(in.Parent().Pkg.Pkg.Path(), "/libsrt")
	}
	// confirmed: uint32 fields of a session that only ever receive its cookie
	confirmed := map[string]bool{}
	if s, st := structOf(p.namedType("libsrt", "session")); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			class := p.slot("libsrt", "session", s.Field(i).Name())
			if class == "" || class == sl["cookie"] {
				continue
			}
			n, all := 0, true
			for _, f := range p.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if x, ok := in.(*ssa.Store); ok && slotAddr(x.Addr) == class {
							n++
							all = all && loadSlot(x.Val) == sl["cookie"]
						}
					}
				}
			}
			if n > 0 && all {
				confirmed[class] = true
			}
		}
		_ = st
	}
	read := func(in ssa.Instruction) bool {
		com := callOf(in)
		return com != nil && readTarget(com) != nil && strings.Contains(calleeFull(com), "UDPConn")
	}
	deliver := func(in ssa.Instruction) bool {
		com := callOf(in)
		if com == nil || com.IsInvoke() || com.StaticCallee() != nil || !inSRT(in) {
			return false
		}
		if _, b := com.Value.(*ssa.Builtin); b {
			return false
		}
		ps := com.Signature().Params()
		for i := 0; i < ps.Len(); i++ {
			if ps.At(i).Type().String() == "[]byte" {
				return true
			}
		}
		return false
	}
	// compares: the call that tells how far a packet is from the expected one
	compares := func(in ssa.Instruction) bool {
		com := callOf(in)
		if com == nil || !inSRT(in) {
			return false
		}
		f := com.StaticCallee()
		if f == nil || !p.isRepoFunc(f) || len(com.Args) != 2 || f.Signature.Results().Len() != 1 {
			return false
		}
		b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUnsigned != 0 {
			return false
		}
		for _, a := range com.Args {
			if x, ok := a.Type().Underlying().(*types.Basic); !ok || x.Kind() != types.Uint32 {
				return false
			}
		}
		return true
	}
	funcField := func(in ssa.Instruction) bool {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || slotAddr(u.X) == "" || !inSRT(in) {
			return false
		}
		_, ok = u.Type().Underlying().(*types.Signature)
		return ok
	}
	loads := map[string]string{sl["exp"]: "exp", sl["seq"]: "seq", sl["isn"]: "isn", sl["acks"]: "acks", sl["cookie"]: "cookie", sl["peer"]: "peer", sl["sid"]: "sid"}
	for c := range confirmed {
		loads[c] = "confirmed"
	}
	stores := map[string]bool{sl["exp"]: true, sl["acked"]: true, sl["from"]: true, sl["to"]: true, sl["cookie"]: true}
	bookkeeping := func(f *ssa.Function) bool { // walks or edits the table of sessions
		return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/libsrt") && (funcHas(f, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Range); return ok }) || funcHas(f, func(in ssa.Instruction) bool {
			c := callOf(in)
			if c == nil {
				return false
			}
			b, ok := c.Value.(*ssa.Builtin)
			return ok && b.Name() == "delete"
		}))
	}
	helper := func(f *ssa.Function) bool { // arithmetic on sequence numbers
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/libsrt") || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || f.Signature.Params().Len() == 0 || len(f.Blocks) > 4 {
			return false
		}
		num := func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.Uint32 }
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if !num(f.Signature.Params().At(i).Type()) {
				return false
			}
		}
		return num(f.Signature.Results().At(0).Type())
	}
	delivered, moved, naks, acks, resets, mints := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	pr := &PathRule{
		tracked: map[string][]AV{sl["kind"]: {data, ctrl}, sl["conc"]: nil},
		noZero:  map[string]bool{sl["conc"]: true},
		enter: func(f *ssa.Function) (yes, no bool) {
			return helper(f), bookkeeping(f)
		},
		isEvent: func(in ssa.Instruction) bool {
			if u, ok := in.(*ssa.UnOp); ok && (loads[loadSlot(u)] != "" || loadSlot(u) == sl["conc"]) {
				return true
			}
			if s, ok := in.(*ssa.Store); ok && stores[slotAddr(s.Addr)] {
				return true
			}
			return deliver(in) || read(in) || compares(in)
		},
	}
	isData := func(st *PState) bool { return st.mem[sl["kind"]] == data && qget(st.q, "conc") == "1" }
	finish := func(px *PX, st *PState, in ssa.Instruction) {
		d, at := qget(st.q, "d"), fname(in.Parent())
		n, _ := strconv.Atoi(d)
		if u := qget(st.q, "upd"); d != "" && n >= 0 && u != "" && u != "seq+1"+seqMask && !(n == 0 && u == "exp+1"+seqMask) {
			px.report("value|"+at, in, "after an SRT packet %s ahead the expected sequence number becomes %s instead of the number after the packet, in 31 bits", d, u)
		}
		switch {
		case d == "" && isData(st):
			px.report("ignored|"+at, in, "a data packet of a concluded SRT session can be ignored without looking at its sequence number")
		case d != "" && n >= 0 && qget(st.q, "got") == "":
			px.report("lost|"+at, in, "an SRT payload that was not delivered before (%s packets ahead) can be dropped", d)
		case d != "" && n >= 0 && qget(st.q, "upd") == "":
			px.report("stuck|"+at, in, "the expected sequence number of an SRT session does not move past a delivered packet (%s ahead): the payload would be delivered again", d)
		case d != "" && n > 0 && (qget(st.q, "from") == "" || qget(st.q, "to") == ""):
			px.report("nonak|"+at, in, "a gap of %s SRT packets is not reported to the sender", d)
		}
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		fn := fname(in.Parent())
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			s := loadSlot(u)
			if s == sl["conc"] && inSRT(in) {
				f, t := st.clone(), st.clone()
				f.setMem(s, avBool(false))
				t.setMem(s, avBool(true))
				switch qget(st.q, "conc") {
				case "0":
					return []POut{{st.q, f.mem, []AV{avBool(false)}}}, true
				case "1":
					return []POut{{st.q, t.mem, []AV{avBool(true)}}}, true
				}
				return []POut{{qset(st.q, "conc", "0"), f.mem, []AV{avBool(false)}}, {qset(st.q, "conc", "1"), t.mem, []AV{avBool(true)}}}, true
			}
			if t := loads[s]; t != "" {
				if t == "exp" && qget(st.q, "upd") != "" {
					t = qget(st.q, "upd")
				}
				return []POut{{st.q, nil, []AV{{tag: t}}}}, true
			}
			if funcField(in) {
				return []POut{{st.q, nil, []AV{{k: avNonNil}}}}, true
			}
			return nil, false
		}
		if sc, ok := in.(*ssa.Slice); ok && inSRT(in) && sc.Low != nil && px.val(st, sc.Low).k == avConst {
			return []POut{{st.q, nil, []AV{{k: avNonNil, tag: "@from" + px.val(st, sc.Low).s}}}}, true
		}
		if b, ok := in.(*ssa.BinOp); ok {
			if !inSRT(in) {
				return nil, false
			}
			if a := px.arith(st, b); a != top {
				return []POut{{st.q, nil, []AV{a}}}, true
			}
			if b.Op == token.EQL || b.Op == token.NEQ {
				x, y := px.term(st, b.X), px.term(st, b.Y)
				if y < x {
					x, y = y, x
				}
				key := map[string]string{"0|exp": "exp0", "0|acks": "acks0", "0|cookie": "cookie0", "confirmed|cookie": "same", "peer|sid": "samepeer"}[x+"|"+y]
				if key != "" {
					eq, ne := POut{qset(st.q, key, "1"), nil, []AV{avBool(b.Op == token.EQL)}}, POut{qset(st.q, key, "0"), nil, []AV{avBool(b.Op == token.NEQ)}}
					switch qget(st.q, key) {
					case "1":
						return []POut{eq}, true
					case "0":
						return []POut{ne}, true
					}
					return []POut{eq, ne}, true
				}
			}
			return nil, false
		}
		if s, ok := in.(*ssa.Store); ok {
			t, d := px.term(st, s.Val), qget(st.q, "d")
			n, _ := strconv.Atoi(d)
			switch slotAddr(s.Addr) {
			case sl["exp"]:
				base := strings.TrimSuffix(t, seqMask)
				switch {
				case base == "isn":
					resets[in] = true
					if qget(st.q, "conc") != "0" && qget(st.q, "same") != "0" {
						px.report("again|"+fn, in, "a handshake packet that is received again sets the expected sequence number of an SRT session back to its start")
					}
					return nil, false
				case d == "" && base == "seq":
					if qget(st.q, "exp0") != "1" || qget(st.q, "acks0") != "1" {
						px.report("adopt|"+fn, in, "the sequence number of an SRT packet is taken as the expected one although packets may have been received before: a gap before it goes unnoticed")
					}
					// from here on the packet is the expected one
					return nil, false
				case d == "":
					px.report("early|"+fn, in, "the expected sequence number is set (%s) before the packet was compared with it", t)
				case n < 0:
					px.report("back|"+fn, in, "the expected sequence number of an SRT session moves (%s) on a packet that is late", t)
				default:
					moved[in] = true
					if u := qget(st.q, "upd"); u != "" && t != u+seqMask {
						px.report("twice|"+fn, in, "the expected sequence number moves twice for one SRT packet")
					}
				}
				st.q = qset(st.q, "upd", t)
			case sl["from"]:
				naks[in] = true
				if d != "" && t != "exp" {
					px.report("nakfrom|"+fn, in, "the loss report of an SRT gap starts at %s instead of at the first missing packet", t)
				}
				st.q = qset(st.q, "from", "1")
			case sl["to"]:
				if d != "" && t != "seq+-1"+seqMask {
					px.report("nakto|"+fn, in, "the loss report of an SRT gap ends at %s instead of at the last missing packet, in 31 bits", t)
				}
				st.q = qset(st.q, "to", "1")
				if d != "" && n <= 0 {
					px.report("falsenak|"+fn, in, "a loss is reported although the SRT packet is not ahead of the expected one")
				}
			case sl["acked"]:
				acks[in] = true
				if t != "seq+1"+seqMask && t != "exp+1"+seqMask && !(t == "exp" && (d == "" || n < 0)) {
					px.report("ack|"+fn, in, "the acknowledged sequence number is %s instead of the next one expected", t)
				}
			case sl["cookie"]:
				mints[in] = true
				if qget(st.q, "cookie0") != "1" && qget(st.q, "samepeer") != "0" {
					px.report("mint|"+fn, in, "an induction that is received again replaces the cookie the caller may already be concluding with")
				}
			}
			return nil, false
		}
		switch {
		case read(in):
			finish(px, st, in)
			st.setMem(sl["kind"], top)
			st.setMem(sl["conc"], top)
			m := st.mem
			com := callOf(in)
			var outs []POut
			for _, o := range failing(com, "", "") {
				o.mem = m
				outs = append(outs, o)
			}
			return outs, true
		case compares(in):
			com := callOf(in)
			x, y := px.term(st, com.Args[0]), px.term(st, com.Args[1])
			sign := int64(1)
			switch {
			case x == "seq" && y == "exp":
			case x == "exp" && y == "seq":
				sign = -1
			default:
				return nil, false
			}
			if qget(st.q, "d") != "" {
				return nil, false
			}
			var outs []POut
			for _, n := range thresholds(in.Parent()) {
				outs = append(outs, POut{qset(st.q, "d", strconv.FormatInt(sign*n, 10)), nil, []AV{{k: avConst, s: strconv.FormatInt(n, 10)}}})
			}
			return outs, true
		case deliver(in):
			delivered[in] = true
			d := qget(st.q, "d")
			n, _ := strconv.Atoi(d)
			switch {
			case d == "":
				px.report("unordered|"+fn, in, "an SRT payload is delivered without comparing its sequence number with the expected one")
			case n < 0:
				px.report("late|"+fn, in, "an SRT payload that was delivered or given up before is delivered again")
			case qget(st.q, "got") != "":
				px.report("repeat|"+fn, in, "an SRT payload is delivered twice")
			}
			for _, a := range callOf(in).Args {
				if a.Type().String() == "[]byte" {
					if t := px.val(st, a).tag; t != "@from16" {
						px.report("payload|"+fn, in, "what is delivered is not the payload behind the 16 bytes of the SRT header")
					}
				}
			}
			st.q = qset(st.q, "got", "1")
			var outs []POut
			for _, o := range failing(callOf(in), st.q, st.q) {
				outs = append(outs, o)
			}
			return outs, true
		}
		return nil, false
	}
	px := newPX(p, r, pr)
	n := 0
	for _, f := range p.goRoots(func(f *ssa.Function) bool {
		return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/libsrt") && funcHas(f, read)
	}) {
		if f.Name() == "main" {
			continue
		}
		px.memo, px.Paths = map[string]*pSummary{}, 0
		px.Root(f, "", map[string]AV{}, nil)
		n += px.Paths
	}
	r.count("SRT packet outcomes", n)
	for _, c := range []struct {
		name string
		m    map[ssa.Instruction]bool
	}{{"SRT deliveries", delivered}, {"moves of the expected number", moved}, {"loss ranges", naks}, {"acknowledged numbers", acks}, {"places that start the numbering", resets}, {"cookies minted", mints}} {
		r.count(c.name, len(c.m))
		r.atLeast(c.name, 1)
	}
}

// affine is c*D+k for the difference D of two sequence numbers in 31 bits.
type affine struct {
	c, k int64
	ok   bool
}

// numberDiff decides the comparison of two sequence numbers: over every path,
// with the interval of D its branches leave, the result is D when the packet
// is less than half the number space ahead and D-2^31 when it is behind.
func (p *Prog) numberDiff(r *Report) {
	n := 0
	for _, f := range p.Funcs {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/libsrt") || f.Blocks == nil || len(f.Params) != 2 || f.Signature.Results().Len() != 1 || f.Signature.Recv() != nil {
			continue
		}
		if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUnsigned != 0 {
			continue
		}
		var d ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				and, ok := in.(*ssa.BinOp)
				if !ok || and.Op != token.AND || !isConstInt(and.Y, 1<<31-1) {
					continue
				}
				if sub, ok := and.X.(*ssa.BinOp); ok && sub.Op == token.SUB && sub.X == ssa.Value(f.Params[0]) && sub.Y == ssa.Value(f.Params[1]) {
					d = and
				}
			}
		}
		if d == nil {
			r.sample("%s: not of the form (a-b) in 31 bits, its arithmetic is not decided", fname(f))
			continue
		}
		n++
		const full, half = int64(1) << 31, int64(1) << 30
		vals := map[ssa.Value]affine{d: {1, 0, true}}
		eval := func(v ssa.Value) affine {
			if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				k, _ := constant.Int64Val(c.Value)
				return affine{0, k, true}
			}
			return vals[v]
		}
		steps := 0
		var walk func(b, prev *ssa.BasicBlock, lo, hi int64)
		walk = func(b, prev *ssa.BasicBlock, lo, hi int64) {
			if steps++; steps > 2000 || lo > hi {
				return
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					for i, e := range b.Preds {
						if e == prev {
							vals[x] = eval(x.Edges[i])
						}
					}
				case *ssa.Convert:
					vals[x] = eval(x.X)
				case *ssa.UnOp:
					if a := eval(x.X); x.Op == token.SUB && a.ok {
						vals[x] = affine{-a.c, -a.k, true}
					}
				case *ssa.BinOp:
					if ssa.Value(x) == d {
						continue
					}
					a, c := eval(x.X), eval(x.Y)
					vals[x] = affine{}
					if a.ok && c.ok && x.Op == token.ADD {
						vals[x] = affine{a.c + c.c, a.k + c.k, true}
					} else if a.ok && c.ok && x.Op == token.SUB {
						vals[x] = affine{a.c - c.c, a.k - c.k, true}
					}
				case *ssa.If:
					for i, s := range b.Succs {
						l, h := lo, hi
						if cmp, ok := x.Cond.(*ssa.BinOp); ok {
							a, c := eval(cmp.X), eval(cmp.Y)
							op := cmp.Op
							if a.ok && c.ok && a.c == 0 && c.c == 1 {
								a, c = c, a
								op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
							}
							if a.ok && c.ok && a.c == 1 && c.c == 0 {
								k := c.k - a.k // D op k
								if i == 1 {
									op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}[op]
								}
								switch op {
								case token.LSS:
									h = min64(h, k-1)
								case token.LEQ:
									h = min64(h, k)
								case token.GTR:
									l = max64(l, k+1)
								case token.GEQ:
									l = max64(l, k)
								}
							}
						}
						walk(s, b, l, h)
					}
					return
				case *ssa.Jump:
					walk(b.Succs[0], b, lo, hi)
					return
				case *ssa.Return:
					a := eval(x.Results[0])
					at := p.posOf(x)
					switch {
					case !a.ok:
						r.sample("%s: a result that is not linear in the difference is not decided", fname(f))
					case a.c == 1 && a.k == 0 && hi <= half, a.c == 1 && a.k == -full && lo >= half, a.c == 0 && lo == hi && (a.k-lo)%full == 0 && (a.k >= 0) == (lo <= half):
					default:
						r.find("diff|"+fname(f), at, "for sequence numbers %d to %d apart in 31 bits the comparison yields %d times the difference plus %d instead of the signed distance", lo, hi, a.c, a.k)
					}
					return
				}
			}
		}
		walk(f.Blocks[0], nil, 0, full-1)
	}
	r.count("sequence number comparisons", n)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// numberHeaders: a header counter (RTP sequence number) goes into each packet
// as it stands and advances by one.
func (p *Prog) numberRTP(r *Report) {
	seq := p.slot("librtsp", "RTPPacker", "seq")
	if seq == "" {
		r.find("anchor|seq", "-", "RTPPacker.seq is gone")
		return
	}
	storesSeq := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		return ok && slotAddr(s.Addr) == seq
	}
	isPack := func(f *ssa.Function) bool {
		if f == nil || !p.isRepoFunc(f) || f.Blocks == nil || f.Signature.Results().Len() != 1 || f.Signature.Results().At(0).Type().String() != "[]byte" {
			return false
		}
		return f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), modPath+"/librtsp", "RTPPacker")
	}
	// 1. the function that assembles a packet
	packs := map[*ssa.Function]bool{}
	reached := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			for g := range p.reach(f, true) {
				reached[g] = true
			}
		}
		if isPack(f) {
			packs[f] = true
		}
	}
	handled := map[*ssa.Function]bool{}
	for f := range packs {
		pr := &PathRule{
			enter: func(g *ssa.Function) (yes, no bool) {
				return g.Pkg != nil && f.Pkg != nil && g.Pkg == f.Pkg, false
			},
			isEvent: func(in ssa.Instruction) bool {
				u, ok := in.(*ssa.UnOp)
				return storesSeq(in) || ok && loadSlot(u) == seq
			},
			event: func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
				fn := fname(in.Parent())
				switch x := in.(type) {
				case *ssa.UnOp:
					if loadSlot(x) == seq {
						t := "n"
						if qget(st.q, "upd") != "" {
							t = qget(st.q, "upd")
						}
						return []POut{{st.q, nil, []AV{{tag: t}}}}, true
					}
				case *ssa.BinOp:
					if a := px.arith(st, x); a != top {
						return []POut{{st.q, nil, []AV{a}}}, true
					}
				case *ssa.Store:
					t := px.term(st, x.Val)
					if slotAddr(x.Addr) == seq {
						if qget(st.q, "upd") != "" {
							px.report("twice|"+fn, in, "the sequence number of an RTP track advances more than once for one packet")
						} else if t != "n+1" && t != "n+1&65535" {
							px.report("step|"+fn, in, "after a packet the sequence number of an RTP track becomes %s instead of the next one", t)
						}
						st.q = qset(st.q, "upd", t)
						return nil, false
					}
					if _, ok := x.Addr.(*ssa.IndexAddr); ok && strings.HasPrefix(t, "n") {
						part := "lo"
						if strings.HasSuffix(t, ">>8") {
							part = "hi"
							t = strings.TrimSuffix(t, ">>8")
						}
						st.q = qset(st.q, part, t)
					}
				case *ssa.Call:
					if f := calleeFull(&x.Call); strings.HasSuffix(f, "bigEndian).PutUint16") || strings.HasSuffix(f, "bigEndian).AppendUint16") {
						if t := px.term(st, x.Call.Args[len(x.Call.Args)-1]); strings.HasPrefix(t, "n") {
							st.q = qset(st.q, "hi", t, "lo", t)
						}
					}
				}
				return nil, false
			},
			atReturn: func(px *PX, g *ssa.Function, st *PState, ret *ssa.Return, res []AV) {
				if g != f {
					return
				}
				if qget(st.q, "upd") == "" {
					px.report("nostep|"+fname(f), ret, "an RTP packet is assembled without advancing the sequence number: the next one repeats it")
				}
				hi, lo := qget(st.q, "hi"), qget(st.q, "lo")
				if hi == "" || hi != lo || hi != "n" && hi != "n+1" {
					px.report("number|"+fname(f), ret, "the sequence number in the header of an RTP packet is not the track's counter (high byte %q, low byte %q)", hi, lo)
				}
			},
		}
		reads, inner := false, false
		for g := range p.reach(f, false) {
			reads = reads || funcHas(g, func(in ssa.Instruction) bool { u, ok := in.(*ssa.UnOp); return ok && loadSlot(u) == seq })
			inner = inner || g != f && packs[g]
		}
		if !reads || inner {
			continue
		}
		px := newPX(p, r, pr)
		px.Root(f, "", map[string]AV{}, nil)
		for g := range px.Fns {
			handled[g] = true
		}
		handled[f] = true
		r.count("RTP packets assembled", 1)
		r.count("RTP assembly outcomes", px.Paths)
	}
	r.atLeast("RTP packets assembled", 1)
	// 2. nobody else moves the counter
	for _, f := range p.Funcs {
		if handled[f] || !reached[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !storesSeq(in) {
					continue
				}
				if _, fresh := in.(*ssa.Store).Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); !fresh {
					r.find("moves|"+fname(f), p.posOf(in), "the sequence number of an RTP track is changed outside the assembly of a packet: the receiver sees a gap or a repeat")
				}
			}
		}
	}
	// 3. each packet is sent once, on its own track
	s, _ := structOf(p.namedType("librtmp", "rtspSession"))
	if s == nil {
		r.find("anchor|session", "-", "rtspSession is gone")
		return
	}
	track := map[string]string{}
	note := func(typ string, s *types.Struct) {
		for i := 0; i < s.NumFields(); i++ {
			n := strings.ToLower(fieldName(p.namedType("librtmp", typ), i))
			if strings.Contains(n, "video") {
				track[p.slot("librtmp", typ, s.Field(i).Name())] = "video"
			} else if strings.Contains(n, "audio") {
				track[p.slot("librtmp", typ, s.Field(i).Name())] = "audio"
			}
		}
	}
	note("rtspSession", s)
	if t := p.namedType("librtmp", "rtspIngest"); t != nil {
		if is, _ := structOf(t); is != nil {
			note("rtspIngest", is)
		}
	}
	delete(track, "")
	inMedia := func(in ssa.Instruction) bool {
		return in.Parent().Pkg != nil && strings.HasSuffix(in.Parent().Pkg.Pkg.Path(), "/librtmp")
	}
	packCall := func(in ssa.Instruction) bool {
		c := callOf(in)
		return c != nil && packs[c.StaticCallee()]
	}
	packetRead := func(in ssa.Instruction) bool {
		c := callOf(in)
		return c != nil && inMedia(in) && (readTarget(c) != nil || calleeFull(c) == bcastRead)
	}
	makes := func(in ssa.Instruction) string {
		al, ok := in.(*ssa.Alloc)
		if !ok || !inMedia(in) {
			return ""
		}
		if isNamed(derefType(al.Type()), modPath+"/libflv", "VideoTag") {
			return "video"
		}
		if isNamed(derefType(al.Type()), modPath+"/libflv", "AudioTag") {
			return "audio"
		}
		return ""
	}
	tr := func(t string) string { // the track a tag names
		for _, pre := range []string{"t:", "pkt:", "not:"} {
			if strings.HasPrefix(t, pre) {
				return t[len(pre):]
			}
		}
		return ""
	}
	sent, packed, routed := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	pr := &PathRule{
		budget: 12000000,
		isEvent: func(in ssa.Instruction) bool {
			u, ok := in.(*ssa.UnOp)
			return ok && track[loadSlot(u)] != "" || packCall(in) || packetRead(in) || peerWrite(in) || makes(in) != ""
		},
	}
	pending := func(px *PX, st *PState, in ssa.Instruction) {
		if qget(st.q, "pk") == "1" {
			px.report("unsent|"+fname(in.Parent()), in, "an RTP packet that took a sequence number is never sent: the receiver sees a gap")
		}
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		fn := fname(in.Parent())
		if u, ok := in.(*ssa.UnOp); ok {
			if t := track[loadSlot(u)]; t != "" {
				return []POut{{st.q, nil, []AV{{tag: "t:" + t}}}}, true
			}
			return nil, false
		}
		if t := makes(in); t != "" {
			routed[in] = true
			if ch := qget(st.q, "ch"); ch != "" && ch != t {
				px.report("route|"+fn, in, "a packet that arrived on the %s track is turned into %s", ch, t)
			}
			return nil, false
		}
		if b, ok := in.(*ssa.BinOp); ok && inMedia(in) && (b.Op == token.EQL || b.Op == token.NEQ) && isBasicInt(b.X.Type()) {
			x, y := px.val(st, b.X).tag, px.val(st, b.Y).tag
			if strings.HasPrefix(x, "t:") && strings.HasPrefix(y, "t:") {
				return []POut{{st.q, nil, []AV{avBool((x == y) == (b.Op == token.EQL))}}}, true
			}
			if strings.HasPrefix(y, "t:") {
				x, y = y, x
			}
			if _, c := b.Y.(*ssa.Const); strings.HasPrefix(x, "t:") && y == "" && !c {
				// the channel of a frame that came in
				return []POut{{qset(st.q, "ch", tr(x)), nil, []AV{avBool(b.Op == token.EQL)}}, {st.q, nil, []AV{avBool(b.Op == token.NEQ)}}}, true
			}
			return nil, false
		}
		com := callOf(in)
		if com == nil {
			return nil, false
		}
		switch {
		case packCall(in):
			packed[in] = true
			pending(px, st, in)
			t := tr(px.val(st, com.Args[0]).tag)
			return []POut{{qset(st.q, "pk", "1"), nil, []AV{{k: avNonNil, tag: "pkt:" + t}}}}, true
		case packetRead(in):
			pending(px, st, in)
			q := qset(st.q, "ch", "", "pk", "")
			if strings.HasPrefix(calleeFull(com), "(*net.UDPConn)") {
				if t := tr(px.val(st, com.Args[0]).tag); t != "" {
					q = qset(q, "ch", t)
				}
			}
			if calleeFull(com) == bcastRead {
				return []POut{{q, nil, []AV{{k: avNonNil}, avBool(true)}}, {q, nil, []AV{{k: avNil}, avBool(false)}}}, true
			}
			return failing(com, q, q), true
		case peerWrite(in):
			pkt, others := "", []string{}
			vs := append([]ssa.Value{}, com.Args...)
			if com.IsInvoke() {
				vs = append(vs, com.Value)
			}
			for _, a := range vs {
				t := px.val(st, a).tag
				if strings.HasPrefix(t, "pkt:") {
					pkt = tr(t)
				} else if strings.HasPrefix(t, "t:") {
					others = append(others, tr(t))
				}
			}
			if qget(st.q, "pk") == "" {
				return nil, false
			}
			sent[in] = true
			if qget(st.q, "pk") == "2" {
				px.report("again|"+fn, in, "an RTP packet is sent twice: the receiver sees its sequence number again")
			}
			for _, o := range others {
				if pkt != "" && o != pkt {
					px.report("track|"+fn, in, "an RTP packet of the %s track is sent where the %s track goes", pkt, o)
				}
			}
			q := qset(st.q, "pk", "2")
			return failing(com, q, q), true
		}
		// framing: the result is still the packet
		if f := com.StaticCallee(); f != nil && p.isRepoFunc(f) && !px.relevant[f] && f.Signature.Results().Len() == 1 && f.Signature.Results().At(0).Type().String() == "[]byte" {
			pkt, others := "", []string{}
			for _, a := range com.Args {
				t := px.val(st, a).tag
				if strings.HasPrefix(t, "pkt:") {
					pkt = t
				} else if strings.HasPrefix(t, "t:") {
					others = append(others, tr(t))
				}
			}
			if pkt != "" {
				for _, o := range others {
					if tr(pkt) != "" && o != tr(pkt) {
						px.report("channel|"+fn, in, "an RTP packet of the %s track is framed with the channel of the %s track", tr(pkt), o)
					}
				}
				return []POut{{st.q, nil, []AV{{k: avNonNil, tag: pkt}}}}, true
			}
		}
		return nil, false
	}
	var root *ssa.Function
	pr.atReturn = func(px *PX, f *ssa.Function, st *PState, ret *ssa.Return, res []AV) {
		if f == root {
			pending(px, st, ret)
		}
	}
	px := newPX(p, r, pr)
	n := 0
	targets := p.goTargets()
	for _, f := range p.goRoots(func(f *ssa.Function) bool {
		return funcHas(f, func(in ssa.Instruction) bool { return packCall(in) }) || funcHas(f, func(in ssa.Instruction) bool {
			return packetRead(in) && strings.HasPrefix(calleeFull(callOf(in)), "(*net") || makes(in) != "" && f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), modPath+"/librtmp", "rtspSession")
		})
	}) {
		if f.Name() == "main" {
			continue
		}
		root = f
		sites := targets[f]
		if len(sites) == 0 {
			sites = []*ssa.Go{nil}
		}
		for _, g := range sites {
			var ps []AV
			if g != nil && len(g.Call.Args) == len(f.Params) {
				for _, a := range g.Call.Args {
					av := AV{}
					if t := track[loadSlot(a)]; t != "" {
						av.tag = "t:" + t
					} else if c, ok := a.(*ssa.Const); ok {
						av = avOfConst(c)
					}
					ps = append(ps, av)
				}
			}
			px.memo, px.Paths = map[string]*pSummary{}, 0
			px.Root(f, "", map[string]AV{}, ps)
			n += px.Paths
			r.sample("RTP root %s: %d outcomes", fname(f), px.Paths)
		}
	}
	p.setupOneTrack(r, track)
	r.count("RTP path outcomes", n)
	r.count("RTP packets numbered", len(packed))
	r.count("RTP packet writes", len(sent))
	r.count("tags made of received packets", len(routed))
	r.atLeast("RTP packets numbered", 1)
	r.atLeast("RTP packet writes", 1)
}

// setupOneTrack: what one request sets up belongs to one track: its channel,
// sockets, peer address and packetiser.
func (p *Prog) setupOneTrack(r *Report, track map[string]string) {
	stored := func(in ssa.Instruction) string {
		s, ok := in.(*ssa.Store)
		if !ok {
			return ""
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		if _, fresh := fa.X.(*ssa.Alloc); fresh {
			return ""
		}
		if _, c := s.Val.(*ssa.Const); c {
			return ""
		}
		_, st := structOf(fa.X.Type())
		return track["F:"+typeKey(st)+"."+strconv.Itoa(fa.Field)]
	}
	request := func(in ssa.Instruction) bool {
		com := callOf(in)
		if com == nil || com.IsInvoke() {
			return false
		}
		rs := com.Signature().Results()
		return rs.Len() == 2 && isNamed(derefType(rs.At(0).Type()), modPath+"/librtsp", "Request")
	}
	stores := map[ssa.Instruction]bool{}
	pr := &PathRule{
		tracked: map[string][]AV{p.slot("librtmp", "rtspSession", "ingest"): nil},
		budget:  8000000,
		isEvent: func(in ssa.Instruction) bool { return stored(in) != "" || request(in) },
		event: func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
			if request(in) {
				st.q = ""
				return nil, false
			}
			t := stored(in)
			if t == "" {
				return nil, false
			}
			stores[in] = true
			if was := qget(st.q, "t"); was != "" && was != t {
				px.report("setup|"+fname(in.Parent()), in, "one request sets up something of the %s track and something of the %s track: packets of the one go where the other is expected", was, t)
			}
			st.q = qset(st.q, "t", t)
			return nil, false
		},
	}
	px := newPX(p, r, pr)
	n := 0
	for _, f := range p.goRoots(func(f *ssa.Function) bool { return funcHas(f, request) }) {
		px.memo, px.Paths = map[string]*pSummary{}, 0
		px.Root(f, "", map[string]AV{}, nil)
		n += px.Paths
	}
	r.count("places that set a track up", len(stores))
	r.count("request outcomes", n)
}

// numberFragments: a NAL is put together only from fragments that follow each
// other.
func (p *Prog) numberFragments(r *Report) {
	buf := p.slot("librtsp", "H264Reassembler", "fuBuf")
	num := p.slot("librtsp", "RTPPacket", "SequenceNum")
	if buf == "" || num == "" {
		r.find("anchor|fuBuf", "-", "the buffer of NAL fragments or the packet's sequence number is gone")
		return
	}
	// last: 16-bit fields of the reassembler that only receive packet numbers
	last := map[string]bool{}
	if s, _ := structOf(p.namedType("librtsp", "H264Reassembler")); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint16 {
				last[p.slot("librtsp", "H264Reassembler", s.Field(i).Name())] = true
			}
		}
	}
	joins := map[ssa.Instruction]bool{}
	method := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), modPath+"/librtsp", "H264Reassembler")
	}
	for _, f := range p.Funcs {
		joinsIn := false
		for g := range p.reach(f, false) {
			joinsIn = joinsIn || funcHas(g, func(in ssa.Instruction) bool { s, ok := in.(*ssa.Store); return ok && slotAddr(s.Addr) == buf })
		}
		if !method(f) || !joinsIn {
			continue
		}
		outer := true
		for _, g := range p.Funcs { // the methods others call
			outer = outer && (g == f || !method(g) || !p.reach(g, false)[f])
		}
		if !outer {
			continue
		}
		pr := &PathRule{
			tracked: map[string][]AV{buf: {{k: avNil}, {k: avNonNil}}},
			isEvent: func(in ssa.Instruction) bool {
				if u, ok := in.(*ssa.UnOp); ok && (loadSlot(u) == num || last[loadSlot(u)]) {
					return true
				}
				s, ok := in.(*ssa.Store)
				return ok && last[slotAddr(s.Addr)]
			},
		}
		pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
			fn := fname(in.Parent())
			switch x := in.(type) {
			case *ssa.UnOp:
				if loadSlot(x) == num {
					return []POut{{st.q, nil, []AV{{tag: "num"}}}}, true
				}
				if last[loadSlot(x)] {
					return []POut{{st.q, nil, []AV{{tag: "last"}}}}, true
				}
			case *ssa.BinOp:
				if a := px.arith(st, x); a != top {
					return []POut{{st.q, nil, []AV{a}}}, true
				}
				if x.Op == token.EQL || x.Op == token.NEQ {
					a, b := px.term(st, x.X), px.term(st, x.Y)
					if b < a {
						a, b = b, a
					}
					if a == "last+1" && b == "num" || a == "last" && b == "num+-1" {
						return []POut{{qset(st.q, "next", "1"), nil, []AV{avBool(x.Op == token.EQL)}}, {st.q, nil, []AV{avBool(x.Op == token.NEQ)}}}, true
					}
				}
			case *ssa.Store:
				if last[slotAddr(x.Addr)] {
					q := qset(st.q, "noted", "")
					if px.term(st, x.Val) == "num" {
						q = qset(q, "noted", "1")
					}
					st.q = q
					return nil, false
				}
				if slotAddr(x.Addr) != buf {
					return nil, false
				}
				if appendTo(x.Val, buf) != nil {
					joins[in] = true
					if qget(st.q, "next") == "" && qget(st.q, "start") == "" {
						px.report("join|"+fn, in, "a fragment is added to a NAL although the fragment before it may not have arrived")
					}
					st.q = qset(st.q, "open", "1")
				} else if px.val(st, x.Val).k == avNil {
					st.q = qset(st.q, "open", "", "start", "", "next", "")
				} else {
					st.q = qset(st.q, "start", "1", "open", "1")
				}
			}
			return nil, false
		}
		pr.atReturn = func(px *PX, g *ssa.Function, st *PState, ret *ssa.Return, res []AV) {
			if g == f && qget(st.q, "open") == "1" && qget(st.q, "noted") == "" {
				px.report("unnoted|"+fname(f), ret, "a NAL stays open without noting the number of its latest fragment: a lost one would go unnoticed")
			}
		}
		px := newPX(p, r, pr)
		px.Root(f, "", map[string]AV{}, nil)
		r.count("reassembly outcomes", px.Paths)
	}
	r.count("places that join fragments", len(joins))
	r.atLeast("places that join fragments", 1)
}

// numberTS: the continuity counter of a PID goes into each packet as it stands
// and advances by one modulo 16; each numbered packet is written.
func (p *Prog) numberTS(r *Report) {
	cc := p.slot("libmpeg", "TS", "ContinuityCounter")
	if cc == "" {
		r.find("anchor|ts", "-", "the continuity counter of an MPEG-TS packet is gone")
		return
	}
	counters := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		k, ok1 := m.Key().Underlying().(*types.Basic)
		e, ok2 := m.Elem().Underlying().(*types.Basic)
		return ok1 && ok2 && k.Kind() == types.Uint16 && e.Kind() == types.Uint8
	}
	numbers := func(f *ssa.Function) bool {
		if f == nil || !p.isRepoFunc(f) || f.Blocks == nil || f.Signature.Results().Len() != 1 || !isNamed(f.Signature.Results().At(0).Type(), modPath+"/libmpeg", "TS") {
			return false
		}
		for g := range p.reach(f, false) {
			if funcHas(g, func(in ssa.Instruction) bool { l, ok := in.(*ssa.Lookup); return ok && counters(l.X.Type()) }) {
				return true
			}
		}
		return false
	}
	fresh := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if numbers(f) {
			fresh[f] = true
		}
	}
	for f := range fresh {
		inner := false
		for g := range fresh {
			inner = inner || g != f && p.reach(g, false)[f]
		}
		if inner {
			continue // explored from the function that calls it
		}
		pr := &PathRule{
			isEvent: func(in ssa.Instruction) bool {
				switch x := in.(type) {
				case *ssa.Lookup:
					return counters(x.X.Type())
				case *ssa.MapUpdate:
					return counters(x.Map.Type())
				case *ssa.Store:
					return slotAddr(x.Addr) == cc
				}
				return false
			},
		}
		var key ssa.Value
		sameKey := func(v ssa.Value) bool {
			if key == nil {
				key = v
			}
			return v == key || sameLoad(v, key)
		}
		pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
			switch x := in.(type) {
			case *ssa.Lookup:
				if !counters(x.X.Type()) {
					return nil, false
				}
				if x.CommaOk {
					return nil, false
				}
				t := "c"
				if qget(st.q, "upd") != "" {
					t = qget(st.q, "upd")
				}
				sameKey(x.Index)
				return []POut{{st.q, nil, []AV{{tag: t}}}}, true
			case *ssa.BinOp:
				if a := px.arith(st, x); a != top {
					return []POut{{st.q, nil, []AV{a}}}, true
				}
			case *ssa.MapUpdate:
				if !counters(x.Map.Type()) {
					return nil, false
				}
				t := px.term(st, x.Value)
				switch {
				case qget(st.q, "upd") != "":
					px.report("twice|"+fname(f), in, "the continuity counter advances twice for one MPEG-TS packet")
				case t != "c+1&15" && t != "c+1":
					px.report("step|"+fname(f), in, "after an MPEG-TS packet the continuity counter becomes %s instead of the next one modulo 16", t)
				case !sameKey(x.Key):
					px.report("pid|"+fname(f), in, "the continuity counter of another PID advances")
				}
				st.q = qset(st.q, "upd", t)
			case *ssa.Store:
				if slotAddr(x.Addr) == cc {
					st.q = qset(st.q, "hdr", px.term(st, x.Val))
				}
			}
			return nil, false
		}
		pr.atReturn = func(px *PX, g *ssa.Function, st *PState, ret *ssa.Return, res []AV) {
			if g != f {
				return
			}
			if qget(st.q, "upd") == "" {
				px.report("nostep|"+fname(f), ret, "an MPEG-TS packet is numbered without advancing the continuity counter")
			}
			if h := strings.TrimSuffix(qget(st.q, "hdr"), "&15"); h != "c" && h != "c+1" {
				px.report("number|"+fname(f), ret, "the continuity counter of an MPEG-TS packet is not the counter of its PID")
			}
		}
		px := newPX(p, r, pr)
		px.Root(f, "", map[string]AV{}, nil)
		r.count("MPEG-TS numbering outcomes", px.Paths)
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || loadSlot(u) != cc || u.Referrers() == nil {
					continue
				}
				r.count("uses of a packet's continuity counter", 1)
				for _, ref := range *u.Referrers() {
					op, ok := ref.(*ssa.BinOp)
					if !ok {
						continue
					}
					if c, ok := op.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
						k, _ := constant.Int64Val(c.Value)
						if op.Op == token.AND && k&15 != 15 || op.Op == token.SHR || op.Op == token.SHL || op.Op == token.ADD && k != 0 {
							r.find("header|"+fname(f), p.posOf(in), "the continuity counter does not go into the header of an MPEG-TS packet unchanged")
						}
					}
				}
			}
		}
	}
	r.count("functions that number MPEG-TS packets", len(fresh))
	r.atLeast("functions that number MPEG-TS packets", 1)
	// in the segmenter: numbered, then written; counters start over only in a new file
	file := p.slot("libhls", "HLS", "currentFile")
	ccs := ""
	if s, _ := structOf(p.namedType("libhls", "HLS")); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if counters(s.Field(i).Type()) {
				ccs = p.slot("libhls", "HLS", s.Field(i).Name())
			}
		}
	}
	if file == "" || ccs == "" {
		r.find("anchor|hls", "-", "the segmenter's file or its continuity counters are gone")
		return
	}
	num := func(in ssa.Instruction) bool { c := callOf(in); return c != nil && fresh[c.StaticCallee()] }
	wr := func(in ssa.Instruction) bool {
		c := callOf(in)
		if c == nil {
			return false
		}
		f := c.StaticCallee()
		return f != nil && p.isRepoFunc(f) && f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), modPath+"/libmpeg", "TS") && errorIndex(f.Signature.Results()) >= 0 && f.Signature.Params().Len() > 2
	}
	wrote, numbered, starts := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	pr := &PathRule{
		budget: 12000000,
		isEvent: func(in ssa.Instruction) bool {
			if s, ok := in.(*ssa.Store); ok && (slotAddr(s.Addr) == file || slotAddr(s.Addr) == ccs) {
				return true
			}
			c := callOf(in)
			return num(in) || wr(in) || c != nil && calleeFull(c) == bcastRead
		},
	}
	pr.enter = func(f *ssa.Function) (yes, no bool) {
		return false, f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/libmpeg")
	}
	pend := func(px *PX, st *PState, in ssa.Instruction) {
		if qget(st.q, "ts") == "1" {
			px.report("unwritten|"+fname(in.Parent()), in, "an MPEG-TS packet that took a continuity counter is never written")
		}
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		fn := fname(in.Parent())
		switch {
		case num(in):
			numbered[in] = true
			pend(px, st, in)
			return []POut{{qset(st.q, "ts", "1", "new", ""), nil, []AV{{k: avNonNil}}}}, true
		case wr(in):
			wrote[in] = true
			if qget(st.q, "ts") != "1" {
				px.report("rewritten|"+fn, in, "an MPEG-TS packet is written again under the same continuity counter")
			}
			q := qset(st.q, "ts", "")
			return failing(callOf(in), q, q), true
		}
		if c := callOf(in); c != nil && calleeFull(c) == bcastRead {
			pend(px, st, in)
			return []POut{{st.q, nil, []AV{{k: avNonNil}, avBool(true)}}, {st.q, nil, []AV{{k: avNil}, avBool(false)}}}, true
		}
		if s, ok := in.(*ssa.Store); ok {
			switch slotAddr(s.Addr) {
			case file:
				if px.val(st, s.Val).k != avNil {
					st.q = qset(st.q, "new", "1")
				}
			case ccs:
				if _, init := s.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); init {
					return nil, false
				}
				starts[in] = true
				if qget(st.q, "new") == "" {
					px.report("restart|"+fn, in, "the continuity counters start over in a segment that already has packets")
				}
			}
		}
		return nil, false
	}
	px := newPX(p, r, pr)
	n := 0
	for _, f := range p.goRoots(func(f *ssa.Function) bool { return funcHas(f, num) }) {
		if f.Name() == "main" {
			continue
		}
		px.memo, px.Paths = map[string]*pSummary{}, 0
		px.Root(f, "", map[string]AV{}, nil)
		n += px.Paths
	}
	r.count("segment writing outcomes", n)
	r.count("MPEG-TS packets numbered", len(numbered))
	r.count("MPEG-TS packet writes", len(wrote))
	r.atLeast("MPEG-TS packets numbered", 1)
	r.atLeast("MPEG-TS packet writes", 1)
	r.count("places that restart the continuity counters", len(starts))
}

func init() {
	register("C26", "other", func(p *Prog, r *Report) {
		r.Rule = "typestate of each packet over the comparison classes of its number: delivered once and in order, the counter moved to the number after it; counters written into a header advance by one per packet; a packet carries its own track"
		p.numberSRT(r)
		p.numberDiff(r)
		p.numberRTP(r)
		p.numberFragments(r)
		p.numberTS(r)
	})
}
