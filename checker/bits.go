package main

// Bit provenance: an abstract interpretation of serialisers and parsers in a
// domain that says, for every bit of an integer, where it comes from - a
// constant, bit k of a field, parameter or input byte, or unknown - and, for
// every byte string, the sequence of such bytes and of opaque runs it is made
// of.  Sums that are no concatenation of bits are kept as linear forms.  A
// function is interpreted once per case of the format (the tag is audio, the
// chunk stream id is below 64, ...), the case being a set of known bits and
// ranges; what the case does not decide is followed both ways.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	mbits "math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bit struct {
	a   string // "" constant k, "?" unknown, else atom
	k   int
	neg bool
}

var (
	bit0 = bit{}
	bit1 = bit{k: 1}
	bitQ = bit{a: "?"}
)

func (b bit) isConst() bool { return b.a == "" }

type bval interface{}

type (
	bv     []bit // least significant first
	bptr   struct{ at string }
	bref   struct{ obj, idx string } // a byte of a sequence
	bslice struct {
		obj    string // "" nil
		off, n *blin
	}
	bstruct struct{ at string }
	btuple  []bval
	biface  struct {
		v bval
		t types.Type
	}
	berr  struct{}
	bnil  struct{}
	bopq  struct{ name string }
	bcond struct {
		op   token.Token
		x, y bv
	}
	bclo struct {
		f     *ssa.Function
		binds []bval
	}
)

// ---------------------------------------------------------------- linear forms

type blin struct {
	c int64
	t map[string]int64
}

func linC(c int64) *blin { return &blin{c: c} }

func (l *blin) isConst() bool { return l != nil && len(l.t) == 0 }

func (l *blin) add(o *blin, k int64) *blin {
	if l == nil || o == nil {
		return nil
	}
	r := &blin{c: l.c + k*o.c, t: map[string]int64{}}
	for a, v := range l.t {
		r.t[a] += v
	}
	for a, v := range o.t {
		r.t[a] += k * v
	}
	for a, v := range r.t {
		if v == 0 {
			delete(r.t, a)
		}
	}
	return r
}

func (l *blin) String() string {
	if l == nil {
		return "?"
	}
	var ks []string
	for a := range l.t {
		ks = append(ks, a)
	}
	sort.Strings(ks)
	var s []string
	for _, a := range ks {
		switch l.t[a] {
		case 1:
			s = append(s, a)
		default:
			s = append(s, strconv.FormatInt(l.t[a], 10)+"*"+a)
		}
	}
	if l.c != 0 || len(s) == 0 {
		s = append(s, strconv.FormatInt(l.c, 10))
	}
	return strings.Join(s, "+")
}

func linEq(a, b *blin) bool { return a != nil && b != nil && a.String() == b.String() }

// ---------------------------------------------------------------- sequences

type bitem struct {
	b   bv     // a byte, or
	seg string // a run of len n starting at off of what seg names
	off *blin
	n   *blin
}

type bseq struct {
	items []bitem
	lazy  string // bytes not listed are those of this name
	zero  bool   // a lazy run of zeros
}

// ---------------------------------------------------------------- the machine

type bfact struct {
	lo, hi uint64
	ne     map[uint64]bool
}

type bassume struct {
	slot string // slot of a field atom, or a name
	name bool
	op   string // eq lo hi mask true false dyn
	v    uint64
	m    uint64
	typ  string
}

type bkey struct {
	fr int
	v  ssa.Value
}

type bvisit struct {
	fr  int
	blk *ssa.BasicBlock
}

type bstate struct {
	env    map[bkey]bval
	mem    map[string]bval
	alias  map[string]string
	seqs   map[string]*bseq
	known  map[bit]bit
	facts  map[string]*bfact
	visits map[bvisit]int
	writes []string
	events []string
	out    []bitem
	in     *blin
	frames int
	fresh  int
	steps  int
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *bstate) clone() *bstate {
	t := *s
	t.env, t.mem, t.alias, t.known, t.visits = cp(s.env), cp(s.mem), cp(s.alias), cp(s.known), cp(s.visits)
	t.seqs = make(map[string]*bseq, len(s.seqs))
	for k, v := range s.seqs {
		w := *v
		w.items = append([]bitem(nil), v.items...)
		t.seqs[k] = &w
	}
	t.facts = make(map[string]*bfact, len(s.facts))
	for k, v := range s.facts {
		t.facts[k] = &bfact{v.lo, v.hi, cp(v.ne)}
	}
	t.out = append([]bitem(nil), s.out...)
	t.writes = append([]string(nil), s.writes...)
	t.events = append([]string(nil), s.events...)
	return &t
}

type batom struct {
	w    int
	slot string
	base string
}

type bmach struct {
	p       *Prog
	atoms   map[string]batom
	terms   map[string]bv // what a term of a linear form stands for
	lins    map[string]*blin
	conds   map[string]bcond
	assume  []bassume
	paths   int
	instrs  int
	funcs   map[*ssa.Function]bool
	why     string // why the analysis gave up
	sink    map[string]bool
	calls   func(st *bstate, full string, args []bval) (bval, bool)
	maxPath int
	cur     *bstate
}

func newBmach(p *Prog) *bmach {
	return &bmach{p: p, atoms: map[string]batom{}, terms: map[string]bv{}, lins: map[string]*blin{}, conds: map[string]bcond{}, funcs: map[*ssa.Function]bool{}, sink: map[string]bool{}, maxPath: 3000}
}

func (m *bmach) give(why string) {
	if m.why == "" {
		m.why = why
	}
}

func bvConst(c uint64, w int) bv {
	r := make(bv, w)
	for i := range r {
		if i < 64 && c>>uint(i)&1 == 1 {
			r[i] = bit1
		}
	}
	return r
}

func bvUnknown(w int) bv {
	r := make(bv, w)
	for i := range r {
		r[i] = bitQ
	}
	return r
}

func (b bv) konst() (uint64, bool) {
	var c uint64
	for i, x := range b {
		if !x.isConst() {
			return 0, false
		}
		if i < 64 {
			c |= uint64(x.k) << uint(i)
		}
	}
	return c, true
}

// atom makes the value of a named quantity of w bits.
func (m *bmach) atom(st *bstate, name string, w int, slot, base string) bv {
	if _, ok := m.atoms[name]; !ok {
		m.atoms[name] = batom{w, slot, base}
	}
	r := make(bv, w)
	for i := range r {
		r[i] = bit{a: name, k: i}
	}
	for pass := 0; pass < 2; pass++ {
		for _, as := range m.assume {
			if (as.name && as.slot == name || !as.name && slot != "" && as.slot == slot) && (pass == 1) == (as.op == "lo" || as.op == "ne") {
				m.apply(st, m.res(st, r), as)
			}
		}
	}
	return m.res(st, r)
}

func (m *bmach) apply(st *bstate, r bv, as bassume) {
	switch as.op {
	case "eq":
		for i, b := range r {
			if b.a != "" {
				st.known[bit{a: b.a, k: b.k}] = bit{k: int(as.v >> uint(i) & 1)}
			}
		}
	case "mask":
		for i, b := range r {
			if as.m>>uint(i)&1 == 1 && b.a != "" {
				st.known[bit{a: b.a, k: b.k}] = bit{k: int(as.v >> uint(i) & 1)}
			}
		}
	case "lo":
		if f := m.fact(st, r); as.v > f.lo {
			f.lo = as.v
		}
	case "hi":
		m.bound(st, r, as.v)
		if f := m.fact(st, m.res(st, r)); as.v < f.hi {
			f.hi = as.v
		}
	case "ne":
		m.fact(st, r).ne[as.v] = true
	}
}

func (m *bmach) bound(st *bstate, r bv, hi uint64) {
	n := mbits.Len64(hi)
	for i := n; i < len(r); i++ {
		if r[i].a != "" && r[i].a != "?" && !r[i].neg {
			st.known[r[i]] = bit0
		}
	}
}

func (m *bmach) fact(st *bstate, r bv) *bfact {
	k := bvKey(r)
	f := st.facts[k]
	if f == nil {
		f = &bfact{0, math.MaxUint64, map[uint64]bool{}}
		st.facts[k] = f
	}
	return f
}

// res replaces bits the path knows.
func (m *bmach) res(st *bstate, r bv) bv {
	var out bv
	for i, b := range r {
		if b.a == "" || b.a == "?" {
			continue
		}
		if k, ok := st.known[bit{a: b.a, k: b.k}]; ok {
			if out == nil {
				out = append(bv(nil), r...)
			}
			if b.neg {
				k.k = 1 - k.k
			}
			out[i] = k
		}
	}
	if out == nil {
		return r
	}
	return out
}

// bvKey names a value: the runs of its bits.
func bvKey(r bv) string {
	n := len(r)
	for n > 0 && r[n-1] == bit0 {
		n--
	}
	var s []string
	for i := 0; i < n; {
		j := i + 1
		b := r[i]
		if b.a == "?" {
			return "?"
		}
		if b.a == "" {
			s = append(s, strconv.Itoa(b.k))
			i = j
			continue
		}
		for j < n && r[j].a == b.a && r[j].k == b.k+(j-i) && r[j].neg == b.neg {
			j++
		}
		neg := ""
		if b.neg {
			neg = "~"
		}
		s = append(s, neg+b.a+"{"+strconv.Itoa(b.k)+":"+strconv.Itoa(b.k+j-i)+"}")
		i = j
	}
	return strings.Join(s, "|")
}

// lin gives the linear form of a value modulo 2^len(r).
func (m *bmach) lin(r bv) *blin {
	n := len(r)
	l := &blin{t: map[string]int64{}}
	for i := 0; i < n; {
		b := r[i]
		if b.a == "?" || b.neg {
			return nil
		}
		if b.a == "" {
			if b.k == 1 {
				l.c += int64(uint64(1) << uint(i))
			}
			i++
			continue
		}
		j := i + 1
		for j < n && r[j].a == b.a && r[j].k == b.k+(j-i) {
			j++
		}
		if x := m.lins[b.a]; x != nil && b.k == 0 && (j == n || j-i == m.atoms[b.a].w) && (i == 0 || j == n) {
			// the whole of a form, perhaps scaled
			if i == 0 && j-i == m.atoms[b.a].w && j < n {
				// widened: its bits above are zero, the form may have wrapped
				goto term
			}
			x = m.trunc(x, n)
			if x == nil {
				return nil
			}
			l = l.add(&blin{c: x.c << uint(i), t: scale(x.t, i)}, 1)
			i = j
			continue
		}
	term:
		name := b.a
		if b.k == 0 && j-i < m.atoms[b.a].w && m.restZero(b.a, j-i) {
			w := m.atoms[b.a].w
			full := make(bv, w)
			for q := range full {
				full[q] = bit{a: b.a, k: q}
			}
			m.terms[name] = full
			l.t[name] += int64(uint64(1) << uint(i))
			i = j
			continue
		}
		if b.k != 0 || j-i < m.atoms[b.a].w {
			name += "{" + strconv.Itoa(b.k) + ":" + strconv.Itoa(b.k+j-i) + "}"
		}
		m.terms[name] = append(bv(nil), r[i:j]...)
		l.t[name] += int64(uint64(1) << uint(i))
		i = j
	}
	return m.norm(l, n)
}

// restZero: the bits of an atom from k on are known to be clear.
func (m *bmach) restZero(a string, k int) bool {
	if m.cur == nil {
		return false
	}
	for i := k; i < m.atoms[a].w; i++ {
		if v, ok := m.cur.known[bit{a: a, k: i}]; !ok || v != bit0 {
			return false
		}
	}
	return true
}

func scale(t map[string]int64, s int) map[string]int64 {
	r := map[string]int64{}
	for a, v := range t {
		r[a] = v << uint(s)
	}
	return r
}

func signed(c int64, w int) int64 {
	if w >= 64 {
		return c
	}
	u := uint64(c) & (1<<uint(w) - 1)
	if u>>uint(w-1) == 1 {
		return int64(u) - int64(1)<<uint(w)
	}
	return int64(u)
}

func (m *bmach) norm(l *blin, w int) *blin {
	if l == nil {
		return nil
	}
	r := &blin{c: signed(l.c, w), t: map[string]int64{}}
	for a, v := range l.t {
		if k := signed(v, w); k != 0 {
			r.t[a] = k
		}
	}
	return r
}

// trunc gives the form modulo 2^w, its terms cut to the bits that matter.
func (m *bmach) trunc(l *blin, w int) *blin {
	if l == nil {
		return nil
	}
	r := &blin{c: signed(l.c, w), t: map[string]int64{}}
	for a, v := range l.t {
		k := signed(v, w)
		if k == 0 {
			continue
		}
		t := m.terms[a]
		if t == nil {
			r.t[a] += k
			continue
		}
		need := w - mbits.TrailingZeros64(uint64(k))
		if need > len(t) {
			need = len(t)
		}
		if need < len(t) || m.lins[t[0].a] == nil {
			x := m.lin(t[:need])
			if x == nil {
				return nil
			}
			r = r.add(x, k)
		} else {
			r.t[a] += k
		}
	}
	return m.norm(r, w)
}

// bits makes a value of w bits from a form.
func (m *bmach) bits(l *blin, w int) bv {
	l = m.norm(l, w)
	if l == nil {
		return bvUnknown(w)
	}
	if len(l.t) == 0 {
		return bvConst(uint64(l.c), w)
	}
	if len(l.t) == 1 && l.c == 0 {
		for a, v := range l.t {
			if v > 0 && v&(v-1) == 0 && m.terms[a] != nil {
				s := mbits.TrailingZeros64(uint64(v))
				r := make(bv, w)
				for i, b := range m.terms[a] {
					if i+s < w {
						r[i+s] = b
					}
				}
				return r
			}
		}
	}
	name := "(" + l.String() + ")%" + strconv.Itoa(w)
	if _, ok := m.atoms[name]; !ok {
		m.atoms[name] = batom{w: w}
		m.lins[name] = l
	}
	r := make(bv, w)
	for i := range r {
		r[i] = bit{a: name, k: i}
	}
	return r
}

// canon names a bit independently of the width it was computed with: bit k
// of a sum depends on the low k+1 bits of its terms only.
func (m *bmach) canon(b bit) bit {
	if l := m.lins[b.a]; l != nil {
		if t := m.trunc(l, b.k+1); t != nil {
			b.a = "(" + t.String() + ")"
		}
	}
	return b
}

func (m *bmach) sameBits(x, y bv) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].a == "?" || y[i].a == "?" {
			return false
		}
		if x[i] != y[i] && m.canon(x[i]) != m.canon(y[i]) {
			return false
		}
	}
	return true
}

func bwidth(t types.Type) (w int, sgn, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func byteArray(t types.Type) (int64, bool) {
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return a.Len(), ok && b.Kind() == types.Uint8
}

// fresh value of type t found at address at.
func (m *bmach) unknownAt(st *bstate, t types.Type, at, slot, base string) bval {
	if w, _, ok := bwidth(t); ok {
		return m.atom(st, at, w, slot, base)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return bptr{at}
	case *types.Slice:
		if isByteSlice(t) {
			if st.seqs[at] == nil {
				st.seqs[at] = &bseq{lazy: at}
			}
			m.noteSeg(at, slot, base)
		}
		return bslice{at, linC(0), m.lenOf(at)}
	case *types.Struct:
		return bstruct{at}
	case *types.Array:
		return bstruct{at}
	case *types.Interface:
		if isErrorType(t) {
			if strings.HasPrefix(at, "g:") {
				return berr{} // a package's error value
			}
			return bnil{}
		}
		return bptr{at}
	case *types.Signature:
		return bopq{at}
	case *types.Tuple:
		var r btuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, m.unknownAt(st, u.At(i).Type(), at+"#"+strconv.Itoa(i), "", ""))
		}
		return r
	}
	return bopq{at}
}

func (m *bmach) noteSeg(at, slot, base string) {
	if _, ok := m.atoms["seg "+at]; !ok {
		m.atoms["seg "+at] = batom{0, slot, base}
	}
}

func (m *bmach) lenOf(obj string) *blin {
	name := "len(" + obj + ")"
	if _, ok := m.atoms[name]; !ok {
		m.atoms[name] = batom{w: 63}
		r := make(bv, 63)
		for i := range r {
			r[i] = bit{a: name, k: i}
		}
		m.terms[name] = r
	}
	return &blin{t: map[string]int64{name: 1}}
}

func bFieldSlot(t types.Type, i int) string {
	t = derefType(t)
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return "F:" + typeKey(n) + "." + strconv.Itoa(i)
	}
	return ""
}

// load reads the value of type t at an address.
func (m *bmach) load(st *bstate, at string, t types.Type, slot, base string) bval {
	if v, ok := st.mem[at]; ok {
		return m.again(st, v)
	}
	if _, ok := byteArray(t); ok {
		return bstruct{at}
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return bstruct{at}
	}
	src := m.source(st, at)
	if src == "zero" {
		return m.zero(st, t, at)
	}
	if strings.HasPrefix(at, "g:") && isByteSlice(t) {
		if b := m.p.globalBytes(at[2:]); b != nil {
			return *b.slice(m, st, at)
		}
	}
	if src != at {
		if v, ok := st.mem[src]; ok {
			return m.again(st, v)
		}
	}
	return m.unknownAt(st, t, src, slot, base)
}

func (m *bmach) again(st *bstate, v bval) bval {
	if x, ok := v.(bv); ok {
		return m.res(st, x)
	}
	return v
}

// source follows copies of whole structures.
func (m *bmach) source(st *bstate, at string) string {
	for n := 0; n < 20; n++ {
		best := ""
		for p := range st.alias {
			if len(p) > len(best) && (at == p || strings.HasPrefix(at, p+".") || strings.HasPrefix(at, p+"[") || strings.HasPrefix(at, p+"<")) {
				best = p
			}
		}
		if best == "" {
			return at
		}
		if st.alias[best] == "zero" {
			return "zero"
		}
		at = st.alias[best] + at[len(best):]
		if _, ok := st.mem[at]; ok {
			return at
		}
	}
	return at
}

func (m *bmach) zero(st *bstate, t types.Type, at string) bval {
	if w, _, ok := bwidth(t); ok {
		return bvConst(0, w)
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		return bslice{"", linC(0), linC(0)}
	case *types.Struct, *types.Array:
		st.fresh++
		z := "zero" + strconv.Itoa(st.fresh)
		st.alias[z] = "zero"
		return bstruct{z}
	}
	return bnil{}
}

func (m *bmach) store(st *bstate, at string, v bval) {
	if s, ok := v.(bstruct); ok {
		for k := range st.mem {
			if strings.HasPrefix(k, at+".") || strings.HasPrefix(k, at+"[") || k == at {
				delete(st.mem, k)
			}
		}
		for k := range st.alias {
			if strings.HasPrefix(k, at+".") || strings.HasPrefix(k, at+"[") || k == at {
				delete(st.alias, k)
			}
		}
		for k, x := range st.mem {
			if strings.HasPrefix(k, s.at+".") || strings.HasPrefix(k, s.at+"[") {
				st.mem[at+k[len(s.at):]] = x
			}
		}
		for k, x := range st.alias {
			if strings.HasPrefix(k, s.at+".") || strings.HasPrefix(k, s.at+"[") {
				st.alias[at+k[len(s.at):]] = x
			}
		}
		for k, q := range st.seqs {
			if k == s.at || strings.HasPrefix(k, s.at+".") || strings.HasPrefix(k, s.at+"[") {
				w := *q
				w.items = append([]bitem(nil), q.items...)
				st.seqs[at+k[len(s.at):]] = &w
			}
		}
		st.alias[at] = s.at
		st.writes = append(st.writes, at)
		return
	}
	st.mem[at] = v
	st.writes = append(st.writes, at)
}

// seq of a byte object.
func (m *bmach) seq(st *bstate, obj string) *bseq {
	q := st.seqs[obj]
	if q == nil {
		src := m.source(st, obj)
		q = &bseq{lazy: src}
		if src == "zero" {
			q = &bseq{zero: true}
		}
		st.seqs[obj] = q
	}
	return q
}

func (m *bmach) byteAt(st *bstate, obj string, i int) bv {
	q := m.seq(st, obj)
	if i < len(q.items) {
		n := 0
		for _, it := range q.items {
			if it.b == nil {
				break
			}
			if n == i {
				return m.res(st, it.b)
			}
			n++
		}
		return m.viaSeg(st, q, i)
	}
	if q.zero {
		return bvConst(0, 8)
	}
	if q.lazy != "" && len(q.items) == 0 {
		return m.atom(st, q.lazy+"["+strconv.Itoa(i)+"]", 8, "", q.lazy)
	}
	return m.viaSeg(st, q, i)
}

// viaSeg reads byte i of a sequence with runs in it.
func (m *bmach) viaSeg(st *bstate, q *bseq, i int) bv {
	pos := linC(0)
	for _, it := range q.items {
		if it.b != nil {
			if pos.isConst() && pos.c == int64(i) {
				return m.res(st, it.b)
			}
			pos = pos.add(linC(1), 1)
			continue
		}
		if pos.isConst() && int64(i) >= pos.c && (!it.n.isConst() || int64(i) < pos.c+it.n.c) && it.off.isConst() {
			return m.atom(st, it.seg+"["+strconv.FormatInt(int64(i)-pos.c+it.off.c, 10)+"]", 8, "", it.seg)
		}
		pos = pos.add(it.n, 1)
	}
	return bvUnknown(8)
}

func (m *bmach) setByte(st *bstate, obj string, i int, v bv) {
	q := m.seq(st, obj)
	if q.lazy != "" || q.zero {
		// make the listed part long enough
		for len(q.items) <= i {
			q.items = append(q.items, bitem{b: m.peek(st, q, len(q.items))})
		}
	}
	if i < len(q.items) {
		for j := 0; j <= i; j++ {
			if q.items[j].b == nil {
				return
			}
		}
		q.items[i] = bitem{b: v}
		return
	}
	m.give("write past the known part of a buffer")
}

func (m *bmach) peek(st *bstate, q *bseq, i int) bv {
	if q.zero {
		return bvConst(0, 8)
	}
	return m.atom(st, q.lazy+"["+strconv.Itoa(i)+"]", 8, "", q.lazy)
}

// items lists what a slice consists of.
func (m *bmach) items(st *bstate, s bslice) []bitem {
	s.off, s.n = m.fold(st, s.off), m.fold(st, s.n)
	if s.obj == "" || s.n.isConst() && s.n.c == 0 {
		return nil
	}
	q := m.seq(st, s.obj)
	if s.n.isConst() && s.n.c <= 256 && s.off.isConst() {
		var r []bitem
		pure := true
		for i := int64(0); i < s.n.c; i++ {
			b := m.byteAt(st, s.obj, int(s.off.c+i))
			if b[0].a == "?" {
				pure = false
			}
			r = append(r, bitem{b: b})
		}
		if pure {
			return r
		}
	}
	if q.lazy != "" && len(q.items) == 0 {
		return []bitem{{seg: q.lazy, off: s.off, n: s.n}}
	}
	// skip the first bytes of a listed sequence, and cut its end
	total := linC(0)
	for _, it := range q.items {
		if it.b != nil {
			total = total.add(linC(1), 1)
		} else {
			total = total.add(it.n, 1)
		}
	}
	if q.lazy == "" && !q.zero && s.off.isConst() {
		r := append([]bitem(nil), q.items...)
		k := s.off.c
		for k > 0 && len(r) > 0 && r[0].b != nil {
			r = r[1:]
			k--
		}
		if k == 0 {
			cut := total.add(s.off, -1).add(s.n, -1)
			for cut.isConst() && cut.c > 0 && len(r) > 0 && r[len(r)-1].b != nil {
				r = r[:len(r)-1]
				cut = cut.add(linC(1), -1)
			}
			if cut.isConst() && cut.c == 0 {
				return r
			}
			// the slice ends before a last run
			for len(r) > 0 && r[len(r)-1].b == nil {
				cut = cut.add(r[len(r)-1].n, -1)
				r = r[:len(r)-1]
				if cut.isConst() && cut.c == 0 {
					return r
				}
			}
		}
	}
	return []bitem{{seg: "?" + s.obj, off: s.off, n: s.n}}
}

func (m *bmach) mkSeq(st *bstate, items []bitem) bslice {
	st.fresh++
	o := "s" + strconv.Itoa(st.fresh)
	st.seqs[o] = &bseq{items: items}
	return bslice{o, linC(0), itemsLen(items)}
}

func itemsLen(items []bitem) *blin {
	n := linC(0)
	for _, it := range items {
		if it.b != nil {
			n = n.add(linC(1), 1)
		} else {
			n = n.add(it.n, 1)
		}
	}
	return n
}

// copyInto overwrites dst from its start with items.
func (m *bmach) copyInto(st *bstate, d bslice, items []bitem) {
	if d.obj == "" {
		return
	}
	d.off, d.n = m.fold(st, d.off), m.fold(st, d.n)
	q := m.seq(st, d.obj)
	if !d.off.isConst() {
		m.give("copy to an unknown position")
		q.items, q.lazy, q.zero = nil, "", false
		return
	}
	// a run that fills a hole exactly
	if len(items) == 1 && items[0].b == nil {
		pos := int64(0)
		for i, it := range q.items {
			if it.b == nil {
				if pos == d.off.c && linEq(it.n, items[0].n) {
					q.items[i] = items[0]
					return
				}
				break
			}
			pos++
		}
		if q.lazy != "" && len(q.items) == 0 && linEq(d.n, items[0].n) && d.off.c == 0 {
			q.items, q.lazy = items, ""
			return
		}
	}
	allBytes := true
	for _, it := range items {
		if it.b == nil {
			allBytes = false
		}
	}
	if allBytes {
		n := int64(len(items))
		if d.n.isConst() && d.n.c < n {
			n = d.n.c
		}
		for i := int64(0); i < n; i++ {
			m.setByte(st, d.obj, int(d.off.c+i), items[i].b)
		}
		return
	}
	// several items over a listed tail that ends in a hole
	if q.lazy == "" && linEq(itemsLen(items), d.n) {
		var head []bitem
		for i, it := range q.items {
			if int64(i) == d.off.c {
				break
			}
			if it.b == nil {
				m.give("copy over a run")
				return
			}
			head = append(head, it)
		}
		if int64(len(head)) == d.off.c {
			q.items = append(head, items...)
			return
		}
	}
	m.give("copy not understood")
	q.items, q.lazy, q.zero = nil, "?", false
}

// ---------------------------------------------------------------- operations

func (m *bmach) binop(st *bstate, op token.Token, x, y bv, sgn bool) bval {
	x, y = m.res(st, x), m.res(st, y)
	w := len(x)
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if v, ok := m.decide(st, op, x, y, sgn); ok {
			if v {
				return bv{bit1}
			}
			return bv{bit0}
		}
		return bcond{op, x, y}
	case token.SHL, token.SHR:
		k, ok := y.konst()
		if !ok {
			return bvUnknown(w)
		}
		r := make(bv, w)
		for i := range r {
			j := i - int(k)
			if op == token.SHR {
				j = i + int(k)
			}
			if k > 64 {
				j = -1
			}
			switch {
			case j >= 0 && j < w:
				r[i] = x[j]
			case op == token.SHR && sgn && j >= w:
				r[i] = x[w-1]
			}
		}
		return r
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		r := make(bv, w)
		for i := range r {
			a, b := x[i], y[i]
			if op == token.AND_NOT {
				b = notBit(b)
			}
			r[i] = bitOp(op, a, b)
		}
		return r
	case token.ADD:
		dis := true
		for i := range x {
			if x[i] != bit0 && y[i] != bit0 {
				dis = false
				break
			}
		}
		if dis {
			r := make(bv, w)
			for i := range r {
				r[i] = bitOp(token.OR, x[i], y[i])
			}
			return r
		}
		return m.res(st, m.bits(m.lin(x).add(m.lin(y), 1), w))
	case token.SUB:
		return m.res(st, m.bits(m.lin(x).add(m.lin(y), -1), w))
	case token.MUL:
		if _, ok := x.konst(); ok {
			x, y = y, x
		}
		if c, ok := y.konst(); ok {
			if c != 0 && c&(c-1) == 0 {
				return m.binop(st, token.SHL, x, bvConst(uint64(mbits.TrailingZeros64(c)), 64), sgn)
			}
			if l := m.lin(x); l != nil {
				return m.bits(linC(0).add(l, int64(c)), w)
			}
		}
	case token.QUO, token.REM:
		if c, ok := y.konst(); ok && c != 0 && c&(c-1) == 0 && (!sgn || x[w-1] == bit0 || m.below(st, x)) {
			k := mbits.TrailingZeros64(c)
			if op == token.QUO {
				return m.binop(st, token.SHR, x, bvConst(uint64(k), 64), false)
			}
			r := make(bv, w)
			copy(r, x[:k])
			return r
		}
	}
	kx, ky := bvKey(x), bvKey(y)
	if kx == "?" || ky == "?" {
		return bvUnknown(w)
	}
	if a, ok := x.konst(); ok {
		if b, ok := y.konst(); ok && b != 0 {
			switch op {
			case token.QUO:
				return bvConst(a/b, w)
			case token.REM:
				return bvConst(a%b, w)
			case token.MUL:
				return bvConst(a*b, w)
			}
		}
	}
	return m.atom(st, op.String()+"("+kx+","+ky+")", w, "", "")
}

func notBit(b bit) bit {
	switch b.a {
	case "":
		return bit{k: 1 - b.k}
	case "?":
		return b
	}
	b.neg = !b.neg
	return b
}

func bitOp(op token.Token, a, b bit) bit {
	if op == token.AND_NOT {
		op = token.AND
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch op {
		case token.AND:
			if b.k == 0 {
				return bit0
			}
			return a
		case token.OR:
			if b.k == 1 {
				return bit1
			}
			return a
		case token.XOR:
			if b.k == 1 {
				return notBit(a)
			}
			return a
		}
	}
	if a == b && a.a != "?" {
		if op == token.XOR {
			return bit0
		}
		return a
	}
	return bitQ
}

// span of a value, as unsigned or, when its sign is known clear, signed.
func (m *bmach) span(st *bstate, x bv) (lo, hi uint64) {
	for i, b := range x {
		if i >= 64 {
			break
		}
		if b.isConst() {
			lo |= uint64(b.k) << uint(i)
			hi |= uint64(b.k) << uint(i)
		} else {
			hi |= 1 << uint(i)
		}
	}
	if f := st.facts[bvKey(x)]; f != nil {
		if f.lo > lo {
			lo = f.lo
		}
		if f.hi < hi {
			hi = f.hi
		}
	}
	if l, h, ok := m.linSpan(st, x); ok {
		if l > lo {
			lo = l
		}
		if h < hi {
			hi = h
		}
	}
	return
}

// fold puts the known terms of a form into its constant.
func (m *bmach) fold(st *bstate, l *blin) *blin {
	if l == nil || len(l.t) == 0 {
		return l
	}
	r := &blin{c: l.c, t: map[string]int64{}}
	for a, k := range l.t {
		if t := m.terms[a]; t != nil {
			if strings.HasPrefix(a, "len(") {
				m.atom(st, a, 63, "", "")
			}
			if lo, hi := m.span(st, m.res(st, t)); lo == hi && lo < 1<<40 {
				r.c += k * int64(lo)
				continue
			}
		}
		r.t[a] = k
	}
	return r
}

// below: a signed value is not negative.
func (m *bmach) below(st *bstate, x bv) bool {
	_, h := m.span(st, x)
	return h>>uint(len(x)-1) == 0
}

// linSpan bounds a sum by the bounds of its terms, when it cannot wrap.
func (m *bmach) linSpan(st *bstate, x bv) (uint64, uint64, bool) {
	if len(x) == 0 || len(x) > 64 || x[0].a == "" || m.lins[x[0].a] == nil || x[0].k != 0 {
		return 0, 0, false
	}
	l := m.lins[x[0].a]
	w := m.atoms[x[0].a].w
	lo, hi := l.c, l.c
	for a, k := range l.t {
		t, ok := m.terms[a]
		if !ok || k > 1<<20 || k < -1<<20 {
			return 0, 0, false
		}
		tl, th := m.span(st, m.res(st, t))
		if th > 1<<40 && strings.HasPrefix(a, "len(") {
			th = 1 << 40 // no buffer is longer
		}
		if th > 1<<40 {
			return 0, 0, false
		}
		if k < 0 {
			tl, th = th, tl
		}
		lo += k * int64(tl)
		hi += k * int64(th)
	}
	if lo < 0 || w < 63 && hi >= 1<<uint(w) || len(x) < 63 && hi >= 1<<uint(len(x)) {
		return 0, 0, false
	}
	for i, b := range x {
		// the whole of the form, widened perhaps
		if i < w && (b.a != x[0].a || b.k != i) && b != bit0 || i >= w && b != bit0 {
			return 0, 0, false
		}
	}
	return uint64(lo), uint64(hi), true
}

func (m *bmach) decide(st *bstate, op token.Token, x, y bv, sgn bool) (val, ok bool) {
	if op == token.NEQ {
		v, ok := m.decide(st, token.EQL, x, y, sgn)
		return !v, ok
	}
	w := len(x)
	if w == 0 || len(y) != w {
		return false, false
	}
	if op == token.EQL {
		if m.sameBits(x, y) {
			return true, true
		}
		for i := range x {
			if x[i].isConst() && y[i].isConst() && x[i] != y[i] {
				return false, true
			}
		}
		for n := 0; n < 2; n++ {
			if c, isc := y.konst(); isc {
				if f := st.facts[bvKey(x)]; f != nil && f.ne[c] {
					return false, true
				}
			}
			x, y = y, x
		}
		if v, ok := st.facts["eq "+pairKey(x, y)]; ok && bvKey(x) != "?" && bvKey(y) != "?" {
			return v.lo == 1, true
		}
	}
	if sgn {
		if cx, a := x.konst(); a {
			if cy, b := y.konst(); b {
				sx, sy := signed(int64(cx), w), signed(int64(cy), w)
				switch op {
				case token.LSS:
					return sx < sy, true
				case token.LEQ:
					return sx <= sy, true
				case token.GTR:
					return sx > sy, true
				case token.GEQ:
					return sx >= sy, true
				}
			}
		}
	}
	xl, xh := m.span(st, x)
	yl, yh := m.span(st, y)
	if sgn && (xh>>uint(w-1) != 0 || yh>>uint(w-1) != 0) {
		return false, false
	}
	switch op {
	case token.EQL:
		if xh < yl || yh < xl {
			return false, true
		}
		if xl == xh && yl == yh && xl == yl {
			return true, true
		}
	case token.LSS:
		if xh < yl {
			return true, true
		}
		if xl >= yh {
			return false, true
		}
	case token.LEQ:
		if xh <= yl {
			return true, true
		}
		if xl > yh {
			return false, true
		}
	case token.GTR:
		return m.decide(st, token.LSS, y, x, sgn)
	case token.GEQ:
		return m.decide(st, token.LEQ, y, x, sgn)
	}
	return false, false
}

func pairKey(x, y bv) string {
	a, b := bvKey(x), bvKey(y)
	if a > b {
		a, b = b, a
	}
	return a + " == " + b
}

// learn takes a branch.
func (m *bmach) learn(st *bstate, c bcond, taken bool) bool {
	op := c.op
	if !taken {
		op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
	}
	x, y := c.x, c.y
	if _, ok := x.konst(); ok {
		x, y = y, x
		op = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GEQ: token.LEQ, token.GTR: token.LSS, token.LEQ: token.GEQ}[op]
	}
	if bvKey(x) != "?" && bvKey(y) != "?" && (op == token.EQL || op == token.NEQ) {
		f := &bfact{}
		if op == token.EQL {
			f.lo = 1
		}
		st.facts["eq "+pairKey(x, y)] = f
	}
	v, ok := y.konst()
	if !ok {
		return true
	}
	m.learnTerm(st, op, x, v)
	switch op {
	case token.EQL:
		for i, b := range x {
			if b.a == "" || b.a == "?" {
				continue
			}
			k := int(v >> uint(i) & 1)
			if b.neg {
				k = 1 - k
			}
			st.known[bit{a: b.a, k: b.k}] = bit{k: k}
		}
	case token.NEQ:
		if bvKey(x) != "?" {
			m.fact(st, x).ne[v] = true
		}
		// all but one bit known
		free := -1
		for i, b := range x {
			if b.isConst() {
				if b.k != int(v>>uint(i)&1) {
					return true
				}
				continue
			}
			if free >= 0 {
				return true
			}
			free = i
		}
		if free >= 0 && x[free].a != "?" {
			k := 1 - int(v>>uint(free)&1)
			if x[free].neg {
				k = 1 - k
			}
			st.known[bit{a: x[free].a, k: x[free].k}] = bit{k: k}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x[len(x)-1] != bit0 && len(x) == 64 || bvKey(x) == "?" {
			return true
		}
		f := m.fact(st, x)
		switch op {
		case token.LSS:
			if v > 0 && v-1 < f.hi {
				f.hi = v - 1
			}
		case token.LEQ:
			if v < f.hi {
				f.hi = v
			}
		case token.GTR:
			if v+1 > f.lo {
				f.lo = v + 1
			}
		case token.GEQ:
			if v > f.lo {
				f.lo = v
			}
		}
		if op == token.LSS || op == token.LEQ {
			m.bound(st, x, f.hi)
			g := m.fact(st, m.res(st, x))
			g.hi = f.hi
			if f.lo > g.lo {
				g.lo = f.lo
			}
			for v := range f.ne {
				g.ne[v] = true
			}
		}
	}
	return true
}

// learnTerm takes what a comparison of term+c, or c-term, says of the term.
func (m *bmach) learnTerm(st *bstate, op token.Token, x bv, v uint64) {
	if len(x) == 0 || m.lins[x[0].a] == nil || v > 1<<40 {
		return
	}
	if _, _, ok := m.linSpan(st, x); !ok {
		// it may wrap
		l := m.lins[x[0].a]
		if len(x) != 64 || len(l.t) != 1 || l.c > 1<<40 || l.c < -1<<40 {
			return
		}
	}
	l := m.lins[x[0].a]
	if len(l.t) != 1 {
		return
	}
	for a, k := range l.t {
		t := m.terms[a]
		if t == nil || k != 1 && k != -1 {
			return
		}
		t = m.res(st, t)
		if _, h := m.span(st, t); h > 1<<41 {
			return
		}
		c := (int64(v) - l.c) * k
		if k < 0 {
			op = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GEQ: token.LEQ, token.GTR: token.LSS, token.LEQ: token.GEQ}[op]
		}
		if c < 0 || len(t) == 0 {
			return
		}
		w := make(bv, len(t), 64)
		copy(w, t)
		for len(w) < 64 {
			w = append(w, bit0)
		}
		m.learn(st, bcond{op: op, x: w, y: bvConst(uint64(c), 64)}, true)
	}
}

func (m *bmach) convert(st *bstate, x bv, sgn bool, w int) bv {
	x = m.res(st, x)
	if w <= len(x) {
		r := append(bv(nil), x[:w]...)
		return r
	}
	r := make(bv, w)
	copy(r, x)
	if sgn {
		for i := len(x); i < w; i++ {
			r[i] = x[len(x)-1]
		}
	}
	return r
}

// asBits of a boolean condition that stayed undecided.
func (m *bmach) asBits(st *bstate, v bval) bv {
	switch v := v.(type) {
	case bv:
		return m.res(st, v)
	case bcond:
		op, neg := v.op, false
		x, y := v.x, v.y
		switch op {
		case token.NEQ:
			op, neg = token.EQL, true
		case token.GEQ:
			op, neg = token.LSS, true
		case token.LEQ:
			op, neg, x, y = token.LSS, true, y, x
		case token.GTR:
			op, x, y = token.LSS, y, x
		}
		if bvKey(x) == "?" || bvKey(y) == "?" {
			return bv{bitQ}
		}
		if _, ok := x.konst(); ok && op == token.EQL {
			x, y = y, x
		}
		// one bit against a constant is that bit
		if c, ok := y.konst(); ok && op == token.EQL {
			free, bad := -1, false
			for i, b := range x {
				if b.isConst() {
					if b.k != int(c>>uint(i)&1) {
						bad = true
					}
				} else if free >= 0 {
					bad = true
				} else {
					free = i
				}
			}
			if !bad && free >= 0 {
				b := x[free]
				if (c>>uint(free)&1 == 0) != neg {
					b = notBit(b)
				}
				return bv{b}
			}
		}
		a := m.atom(st, "["+bvKey(x)+" "+op.String()+" "+bvKey(y)+"]", 1, "", "")
		m.conds["["+bvKey(x)+" "+op.String()+" "+bvKey(y)+"]"] = bcond{op: op, x: x, y: y}
		if neg {
			return bv{notBit(a[0])}
		}
		return a
	}
	return bv{bitQ}
}

func bconst(c *ssa.Const) (uint64, bool) {
	if c.Value == nil {
		return 0, false
	}
	switch c.Value.Kind() {
	case constant.Int:
		if v, ok := constant.Uint64Val(c.Value); ok {
			return v, true
		}
		if v, ok := constant.Int64Val(c.Value); ok {
			return uint64(v), true
		}
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

var nil64 = types.Typ[types.Int]
