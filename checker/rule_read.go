package main

// What happens after a read from a peer fails: the loop that serves the peer
// ends, and nothing is done on the strength of data that did not arrive or did
// not parse.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type readSpec struct {
	p     *Prog
	peer  map[ssa.Value]int // 1 peer, 2 memory
	reads map[ssa.Instruction]bool
	fns   map[*ssa.Function]bool // functions that read from a peer, directly or not
	dec   map[*ssa.Function]bool // decoders of what a peer sent
}

// readTarget: the source a call reads from.
func readTarget(com *ssa.CallCommon) ssa.Value {
	n := calleeFull(com)
	if com.IsInvoke() {
		t := typeShort(com.Value.Type())
		switch com.Method.Name() {
		case "ReadFull", "ReadN", "Read", "ReadAll":
			if strings.HasSuffix(t, "EasyReader") || strings.HasSuffix(t, "EasyReadWriter") || strings.HasSuffix(t, "Reader") || t == "net.Conn" || strings.HasSuffix(t, "ReadWriter") {
				return com.Value
			}
		}
		return nil
	}
	switch n {
	case "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "encoding/binary.Read":
		return com.Args[0]
	case "io.CopyN", "io.Copy":
		return com.Args[1]
	}
	if f := com.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(com.Args) > 0 {
		switch typeShort(f.Signature.Recv().Type()) {
		case "*bufio.Reader":
			if strings.HasPrefix(f.Name(), "Read") || f.Name() == "Peek" || f.Name() == "Discard" {
				return com.Args[0]
			}
		case "*net.UDPConn", "*net.TCPConn", "*net.conn", "*textproto.Reader", "*tls.Conn":
			if strings.HasPrefix(f.Name(), "Read") {
				return com.Args[0]
			}
		}
	}
	return nil
}

// fromPeer: the reader v stands for a connection, not for bytes in memory.
func (rs *readSpec) fromPeer(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		for _, c := range rs.p.Callers(f) {
			as := c.Common().Args
			if c.Common().IsInvoke() {
				as = append([]ssa.Value{c.Common().Value}, as...)
			}
			if idx < len(as) && rs.fromPeer(as[idx], seen) {
				return true
			}
		}
		return false
	case *ssa.MakeInterface:
		return rs.fromPeer(x.X, seen)
	case *ssa.ChangeInterface:
		return rs.fromPeer(x.X, seen)
	case *ssa.ChangeType:
		return rs.fromPeer(x.X, seen)
	case *ssa.TypeAssert:
		return rs.fromPeer(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if rs.fromPeer(e, seen) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		return rs.fromPeer(x.Tuple, seen)
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			// readers kept in a field stand for a connection unless the
			// owner is one of the standard buffers
			return isReaderType(derefType(a.Type()))
		case *ssa.FreeVar:
			if b := freeVarBinding(a); b != nil {
				return rs.cell(b, seen)
			}
			return true
		case *ssa.Alloc:
			return rs.cell(a, seen)
		}
		return false
	case *ssa.FieldAddr:
		return rs.fromPeer(x.X, seen)
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return rs.fromPeer(b, seen)
		}
	case *ssa.Call:
		n := calleeFull(&x.Call)
		switch {
		case strings.HasPrefix(n, "net.Dial"):
			return true
		case strings.HasSuffix(n, ".AcceptTCP"), strings.HasSuffix(n, ".Accept"), strings.HasSuffix(n, ".Hijack"), n == "net.ListenUDP":
			return true
		case strings.HasPrefix(n, "bytes.") || strings.HasPrefix(n, "strings."):
			return false
		case len(x.Call.Args) > 0 && (strings.HasPrefix(n, "bufio.NewReader") || strings.Contains(n, "NewEasyReader") || strings.HasPrefix(n, "io.") || strings.Contains(n, "NewReader")):
			return rs.fromPeer(x.Call.Args[0], seen)
		}
	}
	return false
}

func isReaderType(t types.Type) bool {
	s := typeShort(t)
	if strings.HasPrefix(s, "*bytes.") || strings.HasPrefix(s, "*strings.") {
		return false
	}
	return strings.HasSuffix(s, "Reader") || strings.HasSuffix(s, "ReadWriter") || strings.HasSuffix(s, "Conn")
}

func (rs *readSpec) cell(a ssa.Value, seen map[ssa.Value]bool) bool {
	refs := a.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a && rs.fromPeer(s.Val, seen) {
			return true
		}
	}
	return false
}

// decoderName: by the repository's naming convention f decodes what was read.
func decoderName(f *ssa.Function) bool {
	n := strings.ToLower(f.Name())
	return strings.HasPrefix(n, "parse") || strings.HasPrefix(n, "decode")
}

func init() {
	register("C21", "other", func(p *Prog, r *Report) {
		r.Rule = "typestate of a peer's stream: after a read or a framing decoder fails (other than by a deadline) the goroutine does not read from a peer again, and passes on no media and claims no stream before the next successful read; a message or packet that failed to parse is not acted on"
		rs := &readSpec{p: p, peer: map[ssa.Value]int{}, reads: map[ssa.Instruction]bool{}, fns: map[*ssa.Function]bool{}, dec: map[*ssa.Function]bool{}}
		ra := &resSpec{p: p}
		direct := map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					if v := readTarget(&c.Call); v != nil && errorIndex(c.Call.Signature().Results()) >= 0 && rs.fromPeer(v, map[ssa.Value]bool{}) {
						rs.reads[in] = true
						direct[f] = true
						r.sample("read: %s in %s (%s)", shortCallee(&c.Call), fname(f), p.posOf(in))
					}
				}
			}
		}
		for _, f := range p.Funcs {
			for g := range p.reach(f, false) {
				if direct[g] {
					rs.fns[f] = true
				}
			}
		}
		acts := map[ssa.Instruction]string{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					n := calleeFull(&c.Call)
					switch {
					case n == "(*"+bcast+".Broadcast).Write", n == "(*"+bcast+".Broadcast).WriteMeta":
						acts[in] = "media is passed on"
					case n == "(*sync.Map).LoadOrStore":
						acts[in] = "a stream is claimed"
					}
				}
			}
		}
		var pr *PathRule
		pr = &PathRule{
			tracked: map[string][]AV{},
			budget:  12000000,
			isEvent: func(in ssa.Instruction) bool {
				c, ok := in.(*ssa.Call)
				return rs.reads[in] || acts[in] != "" || ok && ra.acquires(&c.Call)
			},
			event: func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
				if outs, ok := errorArrays(px, in, st); ok {
					return outs, true
				}
				com := callOf(in)
				if com == nil {
					return nil, false
				}
				if outs, ok := multiError(px, com, st); ok {
					return outs, true
				}
				if com.IsInvoke() && com.Method.Name() == "Timeout" {
					return []POut{{qset(st.q, "r", "ok"), nil, []AV{avBool(true)}}, {st.q, nil, []AV{avBool(false)}}}, true
				}
				if a := acts[in]; a != "" {
					if qget(st.q, "r") == "failed" {
						px.report("act-read|"+fname(in.Parent()), in, "%s although reading from the peer failed", a)
					}
					if d := qget(st.q, "d"); d != "ok" {
						px.report("act-parse|"+fname(in.Parent())+"|"+d, in, "%s although %s failed", a, d)
					}
					return nil, false
				}
				if ra.acquires(com) {
					// a new connection
					return failing(com, qset(st.q, "r", "ok", "d", "ok"), st.q), true
				}
				if rs.reads[in] {
					if qget(st.q, "r") == "failed" {
						px.report("again|"+fname(in.Parent()), in, "reads from the peer again after a read failed")
					}
					return failing(com, qset(st.q, "r", "ok", "d", "ok"), qset(st.q, "r", "failed", "d", "ok")), true
				}
				return nil, false
			},
		}
		pr.enter = func(f *ssa.Function) (bool, bool) {
			return p.isRepoFunc(f) && errorIndex(f.Signature.Results()) >= 0 && decoderName(f), false
		}
		pr.atReturn = func(px *PX, f *ssa.Function, st *PState, ret *ssa.Return, res []AV) {
			ei := errorIndex(f.Signature.Results())
			if ei < 0 || ei >= len(res) || res[ei].k != avNonNil || !p.isRepoFunc(f) {
				return
			}
			if rs.fns[f] {
				st.q = qset(st.q, "r", "failed")
			} else if decoderName(f) {
				st.q = qset(st.q, "d", fname(f))
				rs.dec[f] = true
			}
		}
		px := newPX(p, r, pr)
		roots := p.goRoots(func(f *ssa.Function) bool {
			return direct[f]
		})
		fns := map[*ssa.Function]bool{}
		paths := 0
		for _, f := range roots {
			px.memo, px.Fns, px.Paths = map[string]*pSummary{}, map[*ssa.Function]bool{}, 0
			px.Root(f, "d=ok,r=ok", map[string]AV{}, nil)
			for g := range px.Fns {
				fns[g] = true
			}
			paths += px.Paths
			r.sample("root %s: %d functions, %d outcomes", fname(f), len(px.Fns), px.Paths)
		}
		n := 0
		for in := range rs.reads {
			if fns[in.Parent()] {
				n++
			} else {
				r.sample("not reached: %s", p.posOf(in))
			}
		}
		r.count("roots", len(roots))
		r.count("functions", len(fns))
		r.count("outcomes", paths)
		r.count("reads from peers", n)
		r.count("effects", len(acts))
		r.count("decoders that can fail", len(rs.dec))
		r.atLeast("roots", 5)
		r.atLeast("reads from peers", 20)
		r.atLeast("effects", 8)
	})
}
