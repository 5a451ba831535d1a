package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An obligation is a set of linear goals that must hold whenever the
// instruction executes.
type obligation struct {
	fn    *ssa.Function
	in    ssa.Instruction
	kind  string
	goals func(e *Eng, fr *Frame) []goal
}
type goal struct {
	l    Lin
	text string
}

func (p *Prog) boundsObligations(fn *ssa.Function) []obligation {
	var out []obligation
	add := func(in ssa.Instruction, kind string, g func(e *Eng, fr *Frame) []goal) {
		out = append(out, obligation{fn, in, kind, g})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				x0, i0 := x.X, x.Index
				add(in, "index", func(e *Eng, fr *Frame) []goal {
					i, n := e.lin(fr, i0), e.lenOf(fr, x0)
					return []goal{{i, "index >= 0"}, {n.sub(i).addc(-1), "index < len"}}
				})
			case *ssa.Index:
				x0, i0 := x.X, x.Index
				add(in, "index", func(e *Eng, fr *Frame) []goal {
					i, n := e.lin(fr, i0), e.lenOf(fr, x0)
					return []goal{{i, "index >= 0"}, {n.sub(i).addc(-1), "index < len"}}
				})
			case *ssa.Lookup:
				if isStr(x.X.Type()) {
					x0, i0 := x.X, x.Index
					add(in, "index", func(e *Eng, fr *Frame) []goal {
						i, n := e.lin(fr, i0), e.lenOf(fr, x0)
						return []goal{{i, "index >= 0"}, {n.sub(i).addc(-1), "index < len"}}
					})
				}
			case *ssa.Slice:
				if x.Low == nil && x.High == nil {
					continue
				}

				add(in, "slice", func(e *Eng, fr *Frame) []goal {
					lo := cst(0)
					var gs []goal
					if x.Low != nil {
						lo = e.lin(fr, x.Low)
						gs = append(gs, goal{lo, "low >= 0"})
					}
					n := e.lenOf(fr, x.X)
					hi := n
					if x.High != nil {
						hi = e.lin(fr, x.High)
						lim := n
						if c := e.capOf(fr, x.X); c.ok {
							lim = c
						}
						gs = append(gs, goal{lim.sub(hi), "high <= len"})
					}
					if x.Low != nil || x.High != nil {
						gs = append(gs, goal{hi.sub(lo), "low <= high"})
					}
					return gs
				})
			case *ssa.SliceToArrayPointer:
				n := derefType(x.Type()).Underlying().(*types.Array).Len()
				add(in, "slice-to-array", func(e *Eng, fr *Frame) []goal {
					return []goal{{e.lenOf(fr, x.X).addc(-n), "len >= array length"}}
				})
			case *ssa.MakeSlice:
				add(in, "make", func(e *Eng, fr *Frame) []goal {
					l, c := e.lin(fr, x.Len), e.lin(fr, x.Cap)
					gs := []goal{{l, "make length >= 0"}}
					if !l.ok || e.magOf(l) > 61 {
						gs = append(gs, goal{cst(1 << 47).sub(l), "make length within the address space"})
					}
					if x.Cap != x.Len {
						gs = append(gs, goal{c.sub(l), "make cap >= len"})
					}
					return gs
				})
			case *ssa.BinOp:
				if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) {
					if c, ok := x.Y.(*ssa.Const); ok {
						if v, ok := constInt(c); ok && v != 0 {
							continue
						}
					}
					add(in, "division", func(e *Eng, fr *Frame) []goal {
						d := e.lin(fr, x.Y)
						return []goal{{d.addc(-1), "divisor > 0"}}
					})
				}
				if x.Op == token.SHL || x.Op == token.SHR {
					if _, _, hasLo, _ := intRange(x.Y.Type()); !hasLo && isInt(x.Y.Type()) {
						if _, ok := x.Y.(*ssa.Const); !ok {
							add(in, "shift", func(e *Eng, fr *Frame) []goal {
								return []goal{{e.lin(fr, x.Y), "shift count >= 0"}}
							})
						}
					}
				}
			case ssa.CallInstruction:
				com := x.Common()
				name, args := calleeName(com)
				f := com.StaticCallee()
				if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "encoding/binary" {
					w := int64(0)
					switch {
					case strings.HasSuffix(name, "Uint16"):
						w = 2
					case strings.HasSuffix(name, "Uint32"):
						w = 4
					case strings.HasSuffix(name, "Uint64"):
						w = 8
					}
					if w > 0 && len(args) > 0 && !strings.HasPrefix(name, "Append") {
						add(in, "binary."+name, func(e *Eng, fr *Frame) []goal {
							return []goal{{e.lenOf(fr, args[0]).addc(-w), fmt.Sprintf("len >= %d", w)}}
						})
					}
				}
				if com.IsInvoke() && (name == "Encrypt" || name == "Decrypt") && strings.HasSuffix(typeKey(com.Value.Type()), "cipher.Block") {
					add(in, "cipher."+name, func(e *Eng, fr *Frame) []goal {
						return []goal{{e.lenOf(fr, args[0]).addc(-16), "dst >= block"}, {e.lenOf(fr, args[1]).addc(-16), "src >= block"}}
					})
				}
				if com.IsInvoke() && name == "XORKeyStream" {
					add(in, "cipher."+name, func(e *Eng, fr *Frame) []goal {
						return []goal{{e.lenOf(fr, args[0]).sub(e.lenOf(fr, args[1])), "dst >= src"}}
					})
				}
				if isPkgFunc(com, "crypto/cipher") && strings.HasPrefix(name, "NewCTR") {
					add(in, "cipher."+name, func(e *Eng, fr *Frame) []goal {
						return []goal{{e.lenOf(fr, args[1]).addc(-16), "iv == block size"}, {cst(16).sub(e.lenOf(fr, args[1])), "iv == block size"}}
					})
				}
				if isPkgFunc(com, "strings", "bytes") && name == "Repeat" {
					add(in, name, func(e *Eng, fr *Frame) []goal { return []goal{{e.lin(fr, args[1]), "count >= 0"}} })
				}
				if isPkgFunc(com, "math/rand") && (name == "Intn" || name == "Int63n" || name == "Int31n") {
					add(in, name, func(e *Eng, fr *Frame) []goal {
						return []goal{{e.lin(fr, args[len(args)-1]).addc(-1), "n > 0"}}
					})
				}
				if isPkgFunc(com, "time") && (name == "NewTicker" || name == "Tick") {
					add(in, name, func(e *Eng, fr *Frame) []goal {
						return []goal{{e.lin(fr, args[0]).addc(-1), "period > 0"}}
					})
				}
			}
		}
	}
	return out
}

// capOf: capacity where it is known to exceed the length.
func (e *Eng) capOf(fr *Frame, v ssa.Value) Lin {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return e.lin(fr, x.Cap)
	}
	return Lin{}
}

// isOpenRoot: callers outside the analysed program exist, or the function is
// started/stored rather than called.
func (p *Prog) openRoot(f *ssa.Function) bool {
	return len(p.Callers(f)) == 0
}

type verdict struct {
	ok    bool
	trail string
	goal  string
}

// discharge proves one obligation, extending the calling context on demand.
func (e *Eng) discharge(ob obligation, maxUp int) verdict {
	return e.dischargeIn(ob, e.frame(nil, nil, ob.fn), maxUp, "")
}

func (e *Eng) dischargeIn(ob obligation, fr *Frame, up int, trail string) verdict {
	st := e.factsAt(fr, ob.in.Block())
	var failed string
	for _, g := range ob.goals(e, fr) {
		if !e.prove(st, g.l, 8) {
			failed = g.text
			if e.debug {
				cs, _ := e.closure(st, g.l)
				fmt.Printf("    FAIL %s %s [%s]\n      goal %s\n", fname(ob.fn), e.p.posOf(ob.in), g.text, e.show(g.l))
				for _, c := range cs {
					op := ">= 0"
					if c.eq {
						op = "== 0"
					}
					fmt.Printf("        %s %s\n", e.show(c.l), op)
				}
			}
			break
		}
	}
	if failed == "" {
		return verdict{ok: true}
	}
	// the outermost frame's caller is unknown: try every caller
	root := fr
	for root.parent != nil {
		root = root.parent
	}
	callers := e.p.Callers(root.fn)
	if up == 0 || len(callers) == 0 {
		return verdict{goal: failed, trail: trail}
	}
	for _, c := range callers {
		cf := e.frame(nil, nil, c.Parent())
		if e.inChain(fr, c.Parent()) {
			return verdict{goal: failed, trail: trail + " <- recursive caller " + fname(c.Parent())}
		}
		nf := e.reroot(fr, cf, c)
		v := e.dischargeIn(ob, nf, up-1, trail+" <- "+fname(c.Parent())+" ("+e.p.posOf(c)+")")
		if !v.ok {
			return v
		}
	}
	return verdict{ok: true}
}

// reroot rebuilds the frame chain with one more caller outside.
func (e *Eng) reroot(fr *Frame, outer *Frame, site ssa.CallInstruction) *Frame {
	if fr.parent == nil {
		return e.frame(outer, site, fr.fn)
	}
	return e.frame(e.reroot(fr.parent, outer, site), fr.site, fr.fn)
}

func (e *Eng) show(l Lin) string {
	if !l.ok {
		return "<unrepresentable>"
	}
	var s []string
	for _, t := range l.t {
		n := e.info[t.a].name
		n = strings.ReplaceAll(n, modPath+"/", "")
		s = append(s, fmt.Sprintf("%+d*%s", t.k, n))
	}
	s = append(s, fmt.Sprintf("%+d", l.c))
	return strings.Join(s, " ")
}

func sortedFuncs(m map[*ssa.Function]bool) []*ssa.Function {
	var l []*ssa.Function
	for f := range m {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].String() != l[j].String() {
			return l[i].String() < l[j].String()
		}
		return l[i].Pos() < l[j].Pos()
	})
	return l
}
