package main

// What several goroutines send on one connection arrives as whole frames.

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wireField: in writes to a stream connection held in a struct field; the
// field is returned.
func wireField(in ssa.Instruction) *ssa.FieldAddr {
	com := callOf(in)
	if com == nil {
		return nil
	}
	var recv ssa.Value
	var name string
	switch {
	case com.IsInvoke():
		recv, name = com.Value, com.Method.Name()
	case calleeFull(com) == "io.WriteString" || calleeFull(com) == "fmt.Fprintf" || calleeFull(com) == "fmt.Fprint":
		recv, name = com.Args[0], "Write"
	case com.StaticCallee() != nil && com.Signature().Recv() != nil && len(com.Args) > 0:
		recv, name = com.Args[0], com.StaticCallee().Name()
	default:
		return nil
	}
	if name != "Write" && name != "WriteFull" && name != "WriteString" && name != "ReadFrom" && name != "WriteByte" {
		return nil
	}
	for {
		switch x := recv.(type) {
		case *ssa.MakeInterface:
			recv = x.X
			continue
		case *ssa.ChangeInterface:
			recv = x.X
			continue
		}
		break
	}
	t := typeShort(recv.Type())
	if t != "net.Conn" && t != "*net.TCPConn" && t != "io.Writer" && t != "io.ReadWriteCloser" && t != "io.ReadWriter" && t != "*bufio.Writer" && t != "*bufio.ReadWriter" && !strings.HasSuffix(t, "EasyWriter") && !strings.HasSuffix(t, "EasyReadWriter") {
		return nil
	}
	u, ok := recv.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, _ := u.X.(*ssa.FieldAddr)
	return fa
}

// frag is a place in a function that puts part of a frame on a connection:
// a write, or a call of a function that writes while relying on its caller's
// lock.
type frag struct {
	in     ssa.Instruction
	direct bool
}

// passesOn: all a function does is write the bytes it is given, so each call
// is as much a part of a frame as a write would be.
func passesOn(fs []frag) bool {
	for _, fr := range fs {
		com := callOf(fr.in)
		if com == nil || len(com.Args) == 0 {
			return false
		}
		if _, ok := com.Args[len(com.Args)-1].(*ssa.Parameter); !ok {
			return false
		}
	}
	return len(fs) > 0
}

// later: b can execute after a in the same activation without going round a
// loop; avoid is an instruction predicate that stops the search.
func later(a, b ssa.Instruction, stop func(in ssa.Instruction) bool) (reached, stopped bool) {
	// back edges: successor dominates the block
	type key struct {
		b *ssa.BasicBlock
		s bool
	}
	seen := map[key]bool{}
	var walk func(bl *ssa.BasicBlock, i int, s bool)
	walk = func(bl *ssa.BasicBlock, i int, s bool) {
		for ; i < len(bl.Instrs); i++ {
			in := bl.Instrs[i]
			if in == b {
				reached = true
				if s {
					stopped = true
				}
				return
			}
			if stop(in) {
				s = true
			}
		}
		for _, n := range bl.Succs {
			if n.Dominates(bl) || seen[key{n, s}] {
				continue
			}
			seen[key{n, s}] = true
			walk(n, 0, s)
		}
	}
	for i, in := range a.Block().Instrs {
		if in == a {
			walk(a.Block(), i+1, false)
		}
	}
	return
}

func init() {
	register("C14", "other", func(p *Prog, r *Report) {
		r.Rule = "for every connection two goroutines can write to (thread and sharing inference of the race analysis): a function that puts one frame on it in several writes holds one lock from the first to the last, every other writer of the connection holds the same lock, and buffered writers are always locked; a frame handed over in a single Write needs none. RTMP: goroutines sharing a connection send on disjoint chunk stream ids"
		r.Assume = append(r.Assume,
			"one Write call on a net.Conn is atomic with respect to other Write calls (documented by package net)",
			"an EasyWriter's WriteFull hands its argument to one Write")
		ri := newRaceInfo(p, true)
		cs, pairs := ri.conflicts()
		r.count("goroutine roots", len(ri.threads))
		r.count("pairs of concurrent writes", len(cs))
		_ = pairs
		type group struct {
			sites map[ssa.Instruction]bool
			locks map[ssa.Instruction]map[string]bool
			pairs [][2]*thread
		}
		groups := map[string]*group{}
		for _, c := range cs {
			g := groups[c.class]
			if g == nil {
				g = &group{map[ssa.Instruction]bool{}, map[ssa.Instruction]map[string]bool{}, nil}
				groups[c.class] = g
			}
			g.pairs = append(g.pairs, [2]*thread{c.ta, c.tb})
			for _, a := range []access{c.a, c.b} {
				g.sites[a.in] = true
				g.locks[a.in] = a.locks
			}
		}
		for _, class := range sortedKeys(groups) {
			g := groups[class]
			name := p.slotName("F:" + class[2:])
			// only functions both sides can be executing
			shared := map[*ssa.Function]bool{}
			for _, pr := range g.pairs {
				for s := range g.sites {
					f := s.Parent()
					if pr[0].fns[f] && pr[1].fns[f] {
						shared[f] = true
					}
				}
			}
			fnsOf := map[*ssa.Function][]frag{}
			for s := range g.sites {
				fnsOf[s.Parent()] = append(fnsOf[s.Parent()], frag{s, true})
			}
			// helpers that rely on the caller's lock
			for changed := true; changed; {
				changed = false
				for f := range fnsOf {
					if len(ri.li.entry[f]) == 0 && !passesOn(fnsOf[f]) {
						continue
					}
					for _, c := range p.Callers(f) {
						dup := false
						for _, fr := range fnsOf[c.Parent()] {
							if fr.in == ssa.Instruction(c) {
								dup = true
							}
						}
						if !dup {
							fnsOf[c.Parent()] = append(fnsOf[c.Parent()], frag{c, false})
							shared[c.Parent()] = true
							changed = true
						}
					}
				}
			}
			var fs []*ssa.Function
			for f := range fnsOf {
				fs = append(fs, f)
			}
			sortFuncs(fs)
			need := map[string]string{} // lock -> where it makes a frame whole
			for _, f := range fs {
				for _, a := range fnsOf[f] {
					for _, b := range fnsOf[f] {
						if a.in == b.in {
							continue
						}
						if ok, _ := later(a.in, b.in, func(ssa.Instruction) bool { return false }); !ok {
							continue
						}
						la, lb := ri.li.heldAt(a.in), ri.li.heldAt(b.in)
						kept, cut := "", ""
						for k := range la {
							if !lb[k] || !strings.HasSuffix(k, "|L") {
								continue
							}
							key := strings.TrimSuffix(k, "|L")
							_, st := later(a.in, b.in, func(in ssa.Instruction) bool {
								if com := callOf(in); com != nil {
									if lo, ok := syncOp(com); ok {
										return lo.key == key && lo.op == "Unlock"
									}
								}
								return false
							})
							if st {
								cut = key
							} else {
								kept = key
							}
						}
						r.Obligations++
						switch {
						case kept != "":
							need[kept] = p.posOf(a.in)
							r.Discharged++
						case cut != "":
							r.find("split|"+fname(f)+"|"+name, p.posOf(b.in), "%s is written here and at %s with %s released in between: another goroutine's frame can come in the middle", name, p.posOf(a.in), p.slotName(cut))
						case !shared[f]:
							r.Discharged++ // only one goroutine sends this kind of frame
						default:
							r.find("split|"+fname(f)+"|"+name, p.posOf(b.in), "%s is written here and at %s without a lock held across both, and other goroutines write to it", name, p.posOf(a.in))
						}
					}
				}
			}
			var sites []ssa.Instruction
			for s := range g.sites {
				sites = append(sites, s)
			}
			sort.Slice(sites, func(i, j int) bool { return sites[i].Pos() < sites[j].Pos() })
			buffered := false
			for _, s := range sites {
				fa := wireField(s)
				if strings.Contains(typeShort(derefType(fa.Type())), "bufio") {
					buffered = true
				}
			}
			for _, s := range sites {
				r.Obligations++
				ok := true
				for k, at := range need {
					if !g.locks[s][k+"|L"] {
						ok = false
						r.find("unlocked|"+fname(s.Parent())+"|"+name, p.posOf(s), "%s is written without %s, which makes the frames written at %s whole", name, p.slotName(k), at)
					}
				}
				if buffered && len(g.locks[s]) == 0 {
					ok = false
					r.find("unlocked|"+fname(s.Parent())+"|"+name, p.posOf(s), "the buffered writer %s is used by several goroutines without a lock", name)
				}
				if ok {
					r.Discharged++
				}
				r.sample("%s: write at %s holding %s", name, p.posOf(s), lockNames(p, g.locks[s]))
			}
			r.count("connections written by several goroutines", 1)
			r.count("write sites", len(sites))
			// RTMP chunk streams
			seen := map[string]bool{}
			for _, pr := range g.pairs {
				k := pr[0].label + "|" + pr[1].label
				if seen[k] || pr[0] == pr[1] {
					continue
				}
				seen[k] = true
				a, b := p.csids(pr[0]), p.csids(pr[1])
				if len(a) == 0 || len(b) == 0 {
					continue
				}
				for id, at := range a {
					r.Obligations++
					if at2, ok := b[id]; ok {
						r.find("csid|"+id, at, "chunk stream %s is used by %s here and by %s at %s: their messages' chunks can interleave on one stream", id, pr[0].label, pr[1].label, at2)
					} else {
						r.Discharged++
					}
				}
				r.count("chunk stream ids compared", len(a)+len(b))
			}
		}
		r.atLeast("connections written by several goroutines", 2)
		r.atLeast("chunk stream ids compared", 4)
	})
}

// csids: the constant chunk stream ids the chunks a thread builds and sends
// can carry.
func (p *Prog) csids(t *thread) map[string]string {
	out := map[string]string{}
	for f := range t.fns {
		for _, b := range f.Blocks {
			if t.dead[b] {
				continue
			}
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				_, st := structOf(fa.X.Type())
				if st == nil || !strings.HasPrefix(st.(*types.Named).Obj().Name(), "ChunkBasicHeader") {
					continue
				}
				if !strings.EqualFold(fieldName(fa.X.Type(), fa.Field), "csid") {
					continue
				}
				p.constsOf(s.Val, t, map[ssa.Value]bool{}, func(c *ssa.Const, at string) {
					id := c.Value.ExactString()
					if _, err := strconv.Atoi(id); err == nil {
						out[id] = at
					}
				})
			}
		}
	}
	return out
}

// constsOf follows v back through conversions, merges and parameters (within
// the thread) to constants.
func (p *Prog) constsOf(v ssa.Value, t *thread, seen map[ssa.Value]bool, emit func(c *ssa.Const, at string)) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		emit(x, "-")
	case *ssa.Convert:
		p.constsOf(x.X, t, seen, emit)
	case *ssa.ChangeType:
		p.constsOf(x.X, t, seen, emit)
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.constsOf(e, t, seen, emit)
		}
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q != x {
				continue
			}
			for _, c := range p.Callers(x.Parent()) {
				if !t.fns[c.Parent()] || t.dead[c.Block()] {
					continue
				}
				com := c.Common()
				if !com.IsInvoke() && i < len(com.Args) {
					if k, ok := com.Args[i].(*ssa.Const); ok {
						emit(k, p.posOf(c))
					} else {
						p.constsOf(com.Args[i], t, seen, emit)
					}
				}
			}
		}
	}
}
