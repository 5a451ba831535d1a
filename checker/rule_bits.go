package main

// C29: headers are laid out, and read, bit for bit as the protocols say.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"runtime/debug"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bctx struct {
	p    *Prog
	r    *Report
	m    *bmach
	f    *ssa.Function
	st   *bstate
	args []bval
	res  []bval
	what string // the case
	bad  bool
	ok   int
}

// path of a field, promoted ones included, from a type.
func fieldPath(t types.Type, name string) (string, types.Type, string) {
	t = derefType(t)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil, ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if fieldIs(t, i, name) {
			return "." + strconv.Itoa(i), s.Field(i).Type(), bFieldSlot(t, i)
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if q, ft, sl := fieldPath(s.Field(i).Type(), name); q != "" {
				if _, isp := s.Field(i).Type().(*types.Pointer); isp {
					return "", nil, ""
				}
				return "." + strconv.Itoa(i) + q, ft, sl
			}
		}
	}
	return "", nil, ""
}

func (c *bctx) fail(key, f string, a ...interface{}) {
	if c.bad {
		return
	}
	c.bad = true
	c.r.find(fname(c.f)+":"+key, c.p.Fset.Position(c.f.Pos()).String(), "%s (%s)", fmt.Sprintf(f, a...), c.what)
}

// vague: something the interpretation lost track of, which nothing can be
// concluded from.
func (c *bctx) vague(v ...interface{}) bool {
	lost := func(x bv) bool {
		for _, b := range c.m.res(c.st, x) {
			if strings.HasPrefix(b.a, "?") {
				return true
			}
		}
		return false
	}
	for _, x := range v {
		switch x := x.(type) {
		case bv:
			if lost(x) {
				c.undecided()
				return true
			}
		case []bitem:
			for _, it := range x {
				if it.b != nil && lost(it.b) || it.b == nil && strings.HasPrefix(it.seg, "?") {
					c.undecided()
					return true
				}
			}
		}
	}
	return false
}

func (c *bctx) undecided() {
	c.bad = true
	if os.Getenv("GGUND") != "" {
		fmt.Fprintf(os.Stderr, "undecided %s, %s: %s\n%s", fname(c.f), c.what, c.m.why, debug.Stack())
	}
	c.r.count("cases not decided", 1)
	c.r.sample("not decided: %s, %s", fname(c.f), c.what)
}

// was: the value a field of an argument had on entry.
func (c *bctx) was(arg int, name string) bv {
	q, t, sl := fieldPath(c.f.Params[arg].Type(), name)
	if q == "" {
		c.undecided()
		return bv{bitQ}
	}
	at := "p" + strconv.Itoa(arg)
	x, ok := c.m.unknownAt(c.st, t, at+q, sl, at).(bv)
	if !ok {
		return bv{bitQ}
	}
	return x
}

func (c *bctx) wasSlice(arg int, name string) bslice {
	q, t, sl := fieldPath(c.f.Params[arg].Type(), name)
	at := "p" + strconv.Itoa(arg)
	s, _ := c.m.unknownAt(c.st, t, at+q, sl, at).(bslice)
	return s
}

// now: the value a field has at the end.
func (c *bctx) now(v bval, t types.Type, name string) bval {
	at := ""
	switch v := v.(type) {
	case bptr:
		at = v.at
	case bstruct:
		at = v.at
	default:
		return bopq{"?"}
	}
	q, ft, sl := fieldPath(t, name)
	if q == "" {
		c.undecided()
		return bopq{"?"}
	}
	return c.m.load(c.st, at+q, ft, sl, at)
}

func (c *bctx) arg(i int) bv { return c.m.bvOf(c.st, c.args[i], c.f.Params[i].Type()) }

func (c *bctx) byteOf(name string, i int) bv {
	return c.m.atom(c.st, name+"["+strconv.Itoa(i)+"]", 8, "", name)
}

func (c *bctx) be(name string, from, n int) bv {
	var r bv
	for i := n - 1; i >= 0; i-- {
		r = append(r, c.byteOf(name, from+i)...)
	}
	return r
}

func (c *bctx) le(name string, from, n int) bv {
	var r bv
	for i := 0; i < n; i++ {
		r = append(r, c.byteOf(name, from+i)...)
	}
	return r
}

func zext(x bv, w int) bv {
	r := make(bv, w)
	copy(r, x)
	return r
}

// layout: the expected bytes, most significant bit first.
type lay struct {
	bits []bit
	what []string
	segs map[int]bslice // after so many bits, a run
	any  bit
}

var bitAny = bit{a: "any"}

func (l *lay) u(what string, x bv, w int) *lay {
	for i := w - 1; i >= 0; i-- {
		b := bit0
		if i < len(x) {
			b = x[i]
		}
		l.bits = append(l.bits, b)
		l.what = append(l.what, what)
	}
	return l
}

func (l *lay) c(what string, v uint64, w int) *lay { return l.u(what, bvConst(v, 64), w) }

func (l *lay) skip(what string, w int) *lay {
	for i := 0; i < w; i++ {
		l.bits = append(l.bits, bitAny)
		l.what = append(l.what, what)
	}
	return l
}

func (l *lay) le(what string, x bv, bytes int) *lay {
	for i := 0; i < bytes; i++ {
		l.u(what, x[8*i:8*i+8], 8)
	}
	return l
}

func (l *lay) seg(what string, s bslice) *lay {
	if l.segs == nil {
		l.segs = map[int]bslice{}
	}
	l.segs[len(l.bits)] = s
	l.what = append(l.what, what)
	l.bits = append(l.bits, bit{a: "seg"})
	return l
}

func (c *bctx) okBit(got, want bit) bool {
	if want == bitAny {
		return true
	}
	w := c.m.res(c.st, bv{want})[0]
	g := c.m.res(c.st, bv{got})[0]
	return c.m.sameBits(bv{g}, bv{w})
}

func showBit(m *bmach, b bit) string {
	b = m.canon(b)
	switch b.a {
	case "":
		return strconv.Itoa(b.k)
	case "?":
		return "an unknown bit"
	}
	s := "bit " + strconv.Itoa(b.k) + " of " + b.a
	if b.neg {
		s = "not " + s
	}
	return s
}

// same compares a value with what it should be.
func (c *bctx) same(key string, got bval, want bv) {
	c.ok++
	g, ok := got.(bv)
	if cd, isc := got.(bcond); isc {
		g, ok = c.m.asBits(c.st, cd), true
	}
	if !ok {
		c.fail(key, "%s is not a number", key)
		return
	}
	if len(want) < len(g) {
		want = zext(want, len(g))
	}
	for i := range g {
		if !c.okBit(g[i], want[i]) {
			if c.vague(g) {
				return
			}
			c.fail(key, "bit %d of %s is %s, it should be %s", i, key, showBit(c.m, g[i]), showBit(c.m, c.m.res(c.st, bv{want[i]})[0]))
			return
		}
	}
	for i := len(g); i < len(want); i++ {
		if !c.okBit(bit0, want[i]) {
			c.fail(key, "%s has %d bits only", key, len(g))
			return
		}
	}
}

func (c *bctx) sameSlice(key string, got bval, obj string, off, n *blin) {
	c.ok++
	s, ok := got.(bslice)
	if !ok {
		c.fail(key, "%s is not a byte string", key)
		return
	}
	it := c.m.items(c.st, s)
	if len(it) == 1 && it[0].b == nil && it[0].seg == obj && linEq(it[0].off, off) && linEq(it[0].n, n) {
		return
	}
	if c.vague(it) {
		return
	}
	c.fail(key, "%s is not %s from %s, %s bytes", key, obj, off, n)
}

// match compares bytes with a layout; a run must come where it is expected.
func (c *bctx) match(items []bitem, l *lay) {
	if c.vague(items) {
		return
	}
	c.ok++
	i := 0
	for b := 0; b < len(l.bits); {
		if l.bits[b].a == "seg" {
			s := l.segs[b]
			want := c.m.items(c.st, s)
			for _, w := range want {
				if i >= len(items) {
					c.fail(l.what[b], "%s is missing", l.what[b])
					return
				}
				g := items[i]
				if (g.b == nil) != (w.b == nil) || g.b != nil && !c.m.sameBits(g.b, w.b) || g.b == nil && (g.seg != w.seg || !linEq(g.off, w.off) || !linEq(g.n, w.n)) {
					if g.b != nil {
						c.fail(l.what[b], "where %s should be there is a byte of a header", l.what[b])
					} else {
						c.fail(l.what[b], "where %s should be there are %s bytes of %s from %s", l.what[b], g.n, g.seg, g.off)
					}
					return
				}
				i++
			}
			b++
			continue
		}
		if i >= len(items) {
			c.fail(l.what[b], "the header ends before %s (byte %d)", l.what[b], i)
			return
		}
		if items[i].b == nil {
			c.fail(l.what[b], "where %s should be (byte %d) there are %s bytes of %s", l.what[b], i, items[i].n, items[i].seg)
			return
		}
		for k := 0; k < 8; k++ {
			if !c.okBit(items[i].b[7-k], l.bits[b+k]) {
				w := c.m.res(c.st, bv{l.bits[b+k]})[0]
				c.fail(l.what[b+k], "bit %d of byte %d (%s) is %s, it should be %s", 7-k, i, l.what[b+k], showBit(c.m, items[i].b[7-k]), showBit(c.m, w))
				return
			}
		}
		i++
		b += 8
	}
	if i < len(items) {
		c.fail("end", "%d bytes or runs too many follow the header", len(items)-i)
	}
}

func (c *bctx) bytesOf(v bval) []bitem {
	s, ok := v.(bslice)
	if !ok {
		return nil
	}
	return c.m.items(c.st, s)
}

type bcase struct {
	what string
	as   []bassume
}

type bspec struct {
	pkg, recv, fn string
	cases         []bcase
	calls         func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool)
	check         func(c *bctx)
}

func (p *Prog) bitFunc(pkg, recv, fn string) *ssa.Function {
	for _, f := range p.Funcs {
		if f.Name() != fn || f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/"+pkg || f.Parent() != nil {
			continue
		}
		rv := f.Signature.Recv()
		if recv == "" && rv == nil || recv != "" && rv != nil && isNamed(rv.Type(), modPath+"/"+pkg, recv) {
			return f
		}
	}
	return nil
}

// lenName is the name of the length of a field of the receiver.
func (p *Prog) lenName(pkg, typ, name string) string {
	for _, q := range p.Pkgs {
		if q.Types != nil && q.PkgPath == modPath+"/"+pkg {
			if o := q.Types.Scope().Lookup(typ); o != nil {
				at, _, _ := fieldPath(o.Type(), name)
				return "len(p0" + at + ")"
			}
		}
	}
	return "len(?)"
}

func isErrNonNil(v bval) bool {
	switch v := v.(type) {
	case berr:
		return true
	case biface:
		return isErrNonNil(v.v) || true
	case bptr:
		// a package variable holding an error
		return strings.HasPrefix(v.at, "g:")
	}
	return false
}

func (p *Prog) bitSpec(r *Report, s bspec, fns map[*ssa.Function]bool) {
	f := p.bitFunc(s.pkg, s.recv, s.fn)
	if f == nil || len(f.Blocks) == 0 {
		r.count("formats not found: "+s.pkg+"."+s.recv+"."+s.fn, 1)
		return
	}
	r.count("formats", 1)
	cases := s.cases
	if len(cases) == 0 {
		cases = []bcase{{what: "every case"}}
	}
	for _, cs := range cases {
		m := newBmach(p)
		lost := false
		for _, a := range cs.as {
			lost = lost || !a.name && a.op != "dyn" && a.slot == ""
		}
		if lost {
			// the case is about a field that has another name now
			r.count("cases not decided", 1)
			r.sample("not decided: %s, %s", fname(f), cs.what)
			continue
		}
		m.assume = cs.as
		c := &bctx{p: p, r: r, m: m, f: f, what: cs.what}
		if s.calls != nil {
			m.calls = s.calls(c)
		}
		good := 0
		m.run(f, func(st *bstate, args, res []bval) {
			if c.bad {
				return
			}
			if n := len(res); n > 0 && isErrorType(f.Signature.Results().At(n-1).Type()) && isErrNonNil(res[n-1]) {
				return
			}
			good++
			c.st, c.args, c.res = st, args, res
			s.check(c)
		})
		for q := range m.funcs {
			fns[q] = true
		}
		if m.why != "" {
			c.what = cs.what
			if !c.bad {
				c.undecided()
			}
		} else if good == 0 {
			c.fail("never", "no path gets through")
		}
		r.count("cases", 1)
		r.count("paths", good)
		r.count("obligations", c.ok)
		r.sample("%s, %s: %d paths, %d layouts or fields compared", fname(f), cs.what, good, c.ok)
	}
}

func eqA(slot string, v uint64) bassume    { return bassume{slot: slot, op: "eq", v: v} }
func loA(slot string, v uint64) bassume    { return bassume{slot: slot, op: "lo", v: v} }
func hiA(slot string, v uint64) bassume    { return bassume{slot: slot, op: "hi", v: v} }
func neA(slot string, v uint64) bassume    { return bassume{slot: slot, op: "ne", v: v} }
func nameA(n, op string, v uint64) bassume { return bassume{slot: n, name: true, op: op, v: v} }
func maskA(n string, mask, v uint64) bassume {
	return bassume{slot: n, name: true, op: "mask", v: v, m: mask}
}

// crcTable compares the table of the CRC with the one its polynomial makes.
func (p *Prog) crcTable(r *Report) {
	for _, pkg := range p.Pkgs {
		if pkg.PkgPath != modPath+"/libmpeg" {
			continue
		}
		for _, file := range pkg.Syntax {
			ast.Inspect(file, func(n ast.Node) bool {
				vs, ok := n.(*ast.ValueSpec)
				if !ok || len(vs.Values) != 1 {
					return true
				}
				lit, ok := vs.Values[0].(*ast.CompositeLit)
				if !ok || len(lit.Elts) != 256 {
					return true
				}
				for i, e := range lit.Elts {
					tv := pkg.TypesInfo.Types[e]
					if tv.Value == nil {
						return true
					}
					v, _ := constant.Uint64Val(constant.ToInt(tv.Value))
					c := uint32(i) << 24
					for k := 0; k < 8; k++ {
						if c>>31 == 1 {
							c = c<<1 ^ 0x04c11db7
						} else {
							c <<= 1
						}
					}
					if uint64(c) != v {
						r.find("libmpeg.crcTable", p.Fset.Position(e.Pos()).String(), "entry %d of the CRC table is %#x, the polynomial makes it %#x", i, v, c)
						return false
					}
				}
				r.count("entries of the CRC table", 256)
				return true
			})
		}
	}
}

func init() { register("C29", "other", bitLayouts) }

func bitLayouts(p *Prog, r *Report) {
	r.Rule = "bit-provenance interpretation of every serialiser and parser, case by case of its format; each output bit and each parsed field compared with the protocol's layout"
	fns := map[*ssa.Function]bool{}
	for _, s := range p.bitSpecs() {
		p.bitSpec(r, s, fns)
	}
	p.crcTable(r)
	r.count("functions", len(fns))
	r.atLeast("formats", 40)
}
