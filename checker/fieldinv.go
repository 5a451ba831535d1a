package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldInv infers range invariants of integer struct fields: candidate bounds
// are kept only if every store in the program respects them (assuming the
// other candidates) and the zero value does, or every allocation of the
// struct initialises the field before use.
type fieldInv struct {
	lo map[string]int64
	hi map[string]int64
}

func (e *Eng) inferFields() {
	type st struct {
		fn *ssa.Function
		in *ssa.Store
	}
	stores := map[string][]st{}
	typ := map[string]types.Type{}
	wild := map[string]bool{}
	for _, f := range e.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isInt(x.Val.Type()) {
						k := classOf(fa).class
						stores[k] = append(stores[k], st{f, x})
						typ[k] = x.Val.Type()
					}
				case *ssa.FieldAddr:
					// an address that leaves the load/store idiom
					if isInt(derefType(x.Type())) {
						for _, r := range *x.Referrers() {
							switch y := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if y.Val == ssa.Value(x) {
									wild[classOf(x).class] = true
								}
							default:
								wild[classOf(x).class] = true
							}
						}
					}
				}
			}
		}
	}
	inv := &fieldInv{lo: map[string]int64{}, hi: map[string]int64{}}
	e.fields = inv
	e.invariant = func(e *Eng, li loadInfo, t types.Type) (lo, hi *int64) {
		if v, ok := inv.lo[li.class.class]; ok {
			lo = &v
		}
		if v, ok := inv.hi[li.class.class]; ok {
			hi = &v
		}
		return
	}
	initialised := e.initialisedFields()
	var keys []string
	for k := range stores {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if wild[k] {
			continue
		}
		_, _, hasLo, hasHi := intRange(typ[k])
		if initialised[k] {
			inv.lo[k] = 1
		} else if !hasLo {
			inv.lo[k] = 0
		}
		if !hasHi {
			inv.hi[k] = 1 << 31
		} else if _, hi, _, _ := intRange(typ[k]); hi > 1<<24 {
			inv.hi[k] = 1 << 24
		}
	}
	for round := 0; round < 8; round++ {
		changed := false
		e.reset()
		for _, k := range keys {
			lo, hasLo := inv.lo[k]
			hi, hasHi := inv.hi[k]
			if !hasLo && !hasHi {
				continue
			}
			for _, s := range stores[k] {
				holds := func(g func(v Lin) Lin) bool {
					val := s.in.Val
					ob := obligation{fn: s.fn, in: s.in, goals: func(e *Eng, fr *Frame) []goal {
						return []goal{{g(e.lin(fr, val)), "field bound"}}
					}}
					return e.discharge(ob, 2).ok
				}
				if hasLo && !holds(func(v Lin) Lin { return v.addc(-lo) }) {
					hasLo = false
					if l, _, h, _ := intRange(typ[k]); h && l >= 0 || lo == 0 {
						delete(inv.lo, k)
					} else {
						inv.lo[k] = 0
					}
					changed = true
				}
				if hasHi && !holds(func(v Lin) Lin { return cst(hi).sub(v) }) {
					hasHi = false
					delete(inv.hi, k)
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	e.reset()
}

func (e *Eng) reset() {
	e.frames = map[string]*Frame{}
	e.atoms = map[string]int{}
	e.info = nil
	e.linCache = map[string]Lin{}
	e.linBusy = map[string]bool{}
	e.lenCache = map[string]Lin{}
	e.invs = map[string][]Cons{}
	e.invBusy = map[string]bool{}
	e.facCache = map[string]*State{}
	e.journal = nil
	aliasTab = map[string]aliasEnt{}
}

// initialisedFields: struct fields that every allocation of the struct sets
// in the allocating function.
func (e *Eng) initialisedFields() map[string]bool {
	alloc := map[string]int{}
	set := map[string]int{}
	for _, f := range e.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				s, t := structOf(a.Type())
				if s == nil {
					continue
				}
				alloc[typeKey(t)]++
				done := map[int]bool{}
				whole := false
				for _, r := range *a.Referrers() {
					switch x := r.(type) {
					case *ssa.FieldAddr:
						for _, r2 := range *x.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) && st.Block() == a.Block() {
								done[x.Field] = true
							}
						}
					case *ssa.Store:
						if x.Addr == ssa.Value(a) {
							whole = true // copied from another value of the type
						}
					}
				}
				for i := 0; i < s.NumFields(); i++ {
					if done[i] || whole {
						set[typeKey(t)+"."+strconv.Itoa(i)]++
					}
				}
			}
		}
	}
	out := map[string]bool{}
	for k, n := range set {
		t := k[:strings.LastIndex(k, ".")]
		if alloc[t] == n {
			out["F:"+k] = true
		}
	}
	return out
}

// globalElems: range of the elements of package-level arrays and slices that
// are only written by package initialisers.
func (e *Eng) globalElems(g *ssa.Global) (lo, hi int64, ok bool) {
	if r, done := e.gelems[g]; done {
		return r.lo, r.hi, r.ok
	}
	r := gelem{}
	defer func() { e.gelems[g] = r }()
	at, isArr := derefType(g.Type()).Underlying().(*types.Array)
	if !isArr || !isInt(at.Elem()) || g.Pkg == nil {
		return 0, 0, false
	}
	// no function other than init may write
	idx := map[int64]bool{}
	first := true
	bad := false
	scan := func(f *ssa.Function, isInit bool) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.IndexAddr:
						for _, r2 := range *x.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
								c, ok1 := st.Val.(*ssa.Const)
								i, ok2 := x.Index.(*ssa.Const)
								if !isInit || !ok1 || !ok2 {
									bad = true
									continue
								}
								v, _ := constInt(c)
								iv, _ := constInt(i)
								idx[iv] = true
								if first || v < r.lo {
									r.lo = v
								}
								if first || v > r.hi {
									r.hi = v
								}
								first = false
							} else if _, isLoad := r2.(*ssa.UnOp); !isLoad {
								bad = true
							}
						}
					case *ssa.UnOp, *ssa.Slice, *ssa.DebugRef:
						if _, sl := x.(*ssa.Slice); sl {
							bad = true
						}
					case *ssa.Store:
						// whole-array initialisation from a local literal
						if !isInit {
							bad = true
							continue
						}
						if u, ok := x.Val.(*ssa.UnOp); ok {
							if a, ok := u.X.(*ssa.Alloc); ok {
								for _, r3 := range *a.Referrers() {
									ia, ok := r3.(*ssa.IndexAddr)
									if !ok {
										continue
									}
									for _, r4 := range *ia.Referrers() {
										st, ok := r4.(*ssa.Store)
										if !ok {
											continue
										}
										c, ok1 := st.Val.(*ssa.Const)
										i, ok2 := ia.Index.(*ssa.Const)
										if !ok1 || !ok2 {
											bad = true
											continue
										}
										v, _ := constInt(c)
										iv, _ := constInt(i)
										idx[iv] = true
										if first || v < r.lo {
											r.lo = v
										}
										if first || v > r.hi {
											r.hi = v
										}
										first = false
									}
								}
								continue
							}
						}
						bad = true
					default:
						bad = true
					}
				}
			}
		}
	}
	for _, f := range e.p.Funcs {
		scan(f, f.Synthetic == "package initializer" || f.Name() == "init")
	}
	if init := g.Pkg.Func("init"); init != nil {
		scan(init, true)
	}
	if int64(len(idx)) < at.Len() {
		if r.lo > 0 {
			r.lo = 0
		}
		if r.hi < 0 {
			r.hi = 0
		}
	}
	r.ok = !bad && !first
	return r.lo, r.hi, r.ok
}

type gelem struct {
	lo, hi int64
	ok     bool
}
