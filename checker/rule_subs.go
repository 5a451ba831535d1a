package main

// Subscriber loops: reading a broadcast ends when the broadcast ends or the
// subscriber can no longer be served.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// goRoots: goroutine entries, HTTP handlers and program mains that reach a
// function satisfying has, without crossing a go statement.
func (p *Prog) goRoots(has func(f *ssa.Function) bool) []*ssa.Function {
	cand := map[*ssa.Function]bool{}
	for f := range p.goTargets() {
		cand[f] = true
	}
	for _, f := range p.httpHandlers() {
		cand[f] = true
	}
	for _, f := range p.Funcs {
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Parent() == nil {
			cand[f] = true
		}
	}
	var out []*ssa.Function
	for f := range cand {
		if f.Blocks == nil || !p.isRepoFunc(f) {
			continue
		}
		for g := range p.reach(f, false) {
			if has(g) {
				out = append(out, f)
				break
			}
		}
	}
	sortFuncs(out)
	return out
}

func sortFuncs(fs []*ssa.Function) {
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			if fs[j].String() < fs[i].String() {
				fs[i], fs[j] = fs[j], fs[i]
			}
		}
	}
}

func funcHas(f *ssa.Function, pred func(in ssa.Instruction) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if pred(in) {
				return true
			}
		}
	}
	return false
}

func errorIndex(t *types.Tuple) int {
	for i := t.Len() - 1; i >= 0; i-- {
		if types.Identical(t.At(i).Type(), types.Universe.Lookup("error").Type()) {
			return i
		}
	}
	return -1
}

// peerWrite recognises calls that put bytes on a connection to a peer.
func peerWrite(in ssa.Instruction) bool {
	var com *ssa.CallCommon
	if c, ok := in.(ssa.CallInstruction); ok {
		com = c.Common()
	}
	if com == nil || in.Parent() == nil || in.Parent().Pkg == nil || !strings.HasSuffix(in.Parent().Pkg.Pkg.Path(), "/librtmp") {
		return false
	}
	n := calleeFull(com)
	// writers over a local buffer reach no peer
	if com.IsInvoke() {
		if c, ok := com.Value.(*ssa.Call); ok && len(c.Call.Args) == 1 {
			if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok && typeShort(mi.X.Type()) == "*bytes.Buffer" {
				return false
			}
		}
	}
	switch {
	case strings.HasPrefix(n, "I:") && com.IsInvoke():
		m := com.Method.Name()
		if m != "Write" && m != "WriteFull" && m != "WriteTo" {
			return false
		}
		t := typeShort(com.Value.Type())
		return t == "net.Conn" || t == "http.ResponseWriter" || strings.HasSuffix(t, "EasyWriter") || strings.HasSuffix(t, "EasyReadWriter")
	case n == "(*net.UDPConn).WriteToUDP" || n == "(*net.UDPConn).Write" || n == "(*net.TCPConn).Write" || n == "(*net.conn).Write":
		return true
	}
	return false
}

// failing returns the two ways a call with an error result can end.
func failing(com *ssa.CallCommon, okQ, errQ string) []POut {
	res := com.Signature().Results()
	ei := errorIndex(res)
	if ei < 0 {
		return []POut{{okQ, nil, nil}}
	}
	mk := func(k avKind) []AV {
		out := make([]AV, res.Len())
		out[ei] = AV{k: k}
		return out
	}
	return []POut{{okQ, nil, mk(avNil)}, {errQ, nil, mk(avNonNil)}}
}

const bcastRead = "(*" + bcast + ".BroadcastReader).Read"

func init() {
	register("C11", "other", func(p *Prog, r *Report) {
		r.Rule = "in every goroutine that reads a broadcast: after Read reports the end no further Read is reachable and the nil packet is not used; after a write to the subscriber failed inside the loop no further Read is reachable"
		r.Assume = []string{"BroadcastReader.Read returns a non-nil packet and true, or nil and false once the broadcast is closed", "branch feasibility is over-approximated outside nil tests, constants and comma-ok results"}
		isRead := func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && calleeFull(c.Common()) == bcastRead
		}
		reads, writes := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
		rule := func() *PathRule {
			pr := &PathRule{tracked: map[string][]AV{}}
			pr.isEvent = func(in ssa.Instruction) bool {
				if peerWrite(in) {
					return true
				}
				return isRead(in)
			}
			pr.enter = func(f *ssa.Function) (yes, no bool) {
				return false, strings.Contains(f.String(), bcast+".") || strings.Contains(f.String(), "Athena/easyio")
			}
			pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
				if ta, ok := in.(*ssa.TypeAssert); ok && !ta.CommaOk {
					if a := px.val(st, ta.X); a.k == avNil {
						px.report("nil-packet|"+fname(in.Parent()), in, "the packet is used after the broadcast ended: the assertion panics on nil")
					}
					return nil, false
				}
				com := callOf(in)
				if com == nil {
					return nil, false
				}
				if calleeFull(com) == bcastRead {
					reads[in] = true
					if qget(st.q, "dead") == "1" {
						px.report("read-after-end|"+fname(in.Parent()), in, "the broadcast is read again after it reported its end: the loop never stops")
						return []POut{}, true
					}
					if qget(st.q, "werr") == "1" {
						px.report("read-after-failure|"+fname(in.Parent()), in, "the broadcast is read again after a write to the subscriber failed: the loop keeps serving a departed subscriber")
						return []POut{}, true
					}
					q := qset(st.q, "rd", "1")
					return []POut{{q, nil, []AV{{k: avNonNil}, avBool(true)}}, {qset(q, "dead", "1"), nil, []AV{{k: avNil}, avBool(false)}}}, true
				}
				if peerWrite(in) && qget(st.q, "rd") == "1" {
					writes[in] = true
					if qget(st.q, "dead") == "1" {
						return failing(com, st.q, st.q), true
					}
					return failing(com, st.q, qset(st.q, "werr", "1")), true
				}
				return nil, false
			}
			return pr
		}
		has := func(f *ssa.Function) bool { return funcHas(f, isRead) }
		px := newPX(p, r, rule())
		for _, f := range p.goRoots(has) {
			px.memo, px.Fns, px.Paths = map[string]*pSummary{}, map[*ssa.Function]bool{}, 0
			px.Root(f, "rd=0", map[string]AV{}, nil)
			r.count("roots", 1)
			r.count("outcomes", px.Paths)
			r.sample("root %s: %d functions explored, %d summary outcomes", fname(f), len(px.Fns), px.Paths)
		}
		r.count("broadcast reads", len(reads))
		r.count("writes to subscribers", len(writes))
		r.atLeast("broadcast reads", 3)
		r.atLeast("writes to subscribers", 3)
		// every reader loop must have been reached from some root
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if isRead(in) && p.isRepoFunc(f) && !reads[in] {
						r.find("unreached|"+fname(f), p.posOf(in), "this read of a broadcast is not reached from any goroutine the analysis knows")
					}
				}
			}
		}
	})
}
