package main

import (
	"go/constant"

	"golang.org/x/tools/go/ssa"
)

// gbytes: the bytes of a package variable nothing but its initialiser
// writes.
type gbytes struct{ b []byte }

func (g *gbytes) slice(m *bmach, st *bstate, at string) *bslice {
	q := &bseq{}
	for _, x := range g.b {
		q.items = append(q.items, bitem{b: bvConst(uint64(x), 8)})
	}
	if st.seqs["bytes of "+at] == nil {
		st.seqs["bytes of "+at] = q
	}
	return &bslice{"bytes of " + at, linC(0), linC(int64(len(g.b)))}
}

func (p *Prog) globalBytes(name string) *gbytes {
	p.gbytesOnce.Do(p.findGlobalBytes)
	return p.gbytes[name]
}

func (p *Prog) findGlobalBytes() {
	p.gbytes = map[string]*gbytes{}
	bad := map[*ssa.Global]bool{}
	vals := map[*ssa.Global][]byte{}
	fs := append([]*ssa.Function(nil), p.Funcs...)
	for _, q := range p.SSA.AllPackages() {
		if p.Repo[q.Pkg] && q.Func("init") != nil {
			fs = append(fs, q.Func("init"))
		}
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
					if u, ok := ia.X.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							bad[g] = true
						}
					}
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || !isByteSlice(st.Val.Type()) {
					continue
				}
				v := literalBytes(st.Val)
				if vals[g] != nil || v == nil || f.Synthetic != "package initializer" {
					bad[g] = true
					continue
				}
				vals[g] = v
			}
		}
	}
	for g, v := range vals {
		if !bad[g] {
			p.gbytes[g.RelString(nil)] = &gbytes{v}
		}
	}
}

// literalBytes: a composite literal of constant bytes.
func literalBytes(v ssa.Value) []byte {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	n, ok := byteArray(derefType(al.Type()))
	if !ok || n > 4096 {
		return nil
	}
	out := make([]byte, n)
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Slice:
			if r != sl {
				return nil
			}
		case *ssa.IndexAddr:
			i, ok := r.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			k, ok := constant.Int64Val(i.Value)
			if !ok || k < 0 || k >= n {
				return nil
			}
			for _, q := range *r.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(r) {
					return nil
				}
				c, ok := s.Val.(*ssa.Const)
				if !ok {
					return nil
				}
				x, ok := bconst(c)
				if !ok {
					return nil
				}
				out[k] = byte(x)
			}
		default:
			return nil
		}
	}
	return out
}
