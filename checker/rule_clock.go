package main

// Media times keep their meaning and their unit on the way through the
// server: a units-of-measure inference over every integer and float of the
// program. A time is what it counts (decoding time, presentation time, the
// offset between the two, a difference) and how many ticks make a second.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tq is one thing an integer may be. kind: D decoding time, P presentation
// time, C composition offset P-D, A a time whose P and D are the same, d a
// difference, R bits taken from the wire, r a difference of those, B nonsense.
// scale: ticks per second, a rational times symbols. flags: m a negative offset
// is held as a large unsigned number; w wrapped at 32 bits and then widened or
// divided; l multiplied after a division that had dropped the remainder.
type tq struct {
	kind  byte
	scale string
	flags string
}

type tset map[tq]bool

func (s tset) String() string {
	var out []string
	for q := range s {
		out = append(out, q.String())
	}
	sort.Strings(out)
	return strings.Join(out, " or ")
}

func (q tq) String() string {
	k := map[byte]string{'D': "decoding time", 'P': "presentation time", 'C': "composition offset", 'A': "timestamp", 'd': "duration", 'R': "bits from the wire", 'r': "difference of wire fields", 'B': "meaningless mix"}[q.kind]
	if q.kind == 'R' || q.kind == 'r' || q.kind == 'B' {
		if strings.HasPrefix(q.scale, "@") {
			k += " at offset " + q.scale[1:]
		}
		return k
	}
	s := q.scale
	switch s {
	case "1":
		s = "seconds"
	case "1000":
		s = "milliseconds"
	case "1000000000":
		s = "nanoseconds"
	default:
		s = "ticks of 1/" + s + " s"
	}
	o := k + " in " + s
	for f, t := range map[string]string{"m": ", its sign lost", "w": ", after wrapping at 32 bits", "l": ", after a division dropped its remainder", "u": ", divided as an unsigned number"} {
		if strings.Contains(q.flags, f) {
			o += t
		}
	}
	return o
}

func withFlag(q tq, f string) tq {
	if !strings.Contains(q.flags, f) {
		cs := strings.Split(q.flags+f, "")
		sort.Strings(cs)
		q.flags = strings.Join(cs, "")
	}
	return q
}

func unflag(q tq, f string) tq {
	q.flags = strings.ReplaceAll(q.flags, f, "")
	return q
}

// scales: num "*"-joined symbols. Symbols have an exponent.
func scaleMul(s string, c *big.Rat, sym string, exp int) string {
	parts := strings.Split(s, "·")
	n, ok := new(big.Rat).SetString(parts[0])
	if !ok {
		return s
	}
	if c != nil {
		n.Mul(n, c)
	}
	m := map[string]int{}
	for _, x := range parts[1:] {
		i := strings.LastIndex(x, "^")
		e := atoi(x[i+1:])
		m[x[:i]] += e
	}
	if sym != "" {
		m[sym] += exp
	}
	var keys []string
	for k, e := range m {
		if e != 0 {
			keys = append(keys, fmt.Sprintf("%s^%d", k, e))
		}
	}
	sort.Strings(keys)
	out := n.RatString()
	for _, k := range keys {
		out += "·" + k
	}
	return out
}

type clock struct {
	p       *Prog
	val     map[ssa.Value]tset
	field   map[string]tset // union over the stores
	next    map[string]tset
	decl    map[string]tq
	sinks   map[string]bool
	changed bool
	ts      string // F:libflv.TagBase.TimeStamp
	cts     string
	pesPTS  string
	pesDTS  string
	rtpTS   string
	// inside the evaluation of one call of a small function
	here  []map[ssa.Value]tset
	bound map[*ssa.Parameter]string
}

// small: a function whose calls are each judged on their own.
func (c *clock) small(f *ssa.Function) bool {
	if f == nil || !c.p.isRepoFunc(f) || len(f.Blocks) == 0 || len(f.Blocks) > 8 {
		return false
	}
	n, has := 0, false
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	for _, x := range f.Params {
		has = has || numeric(x.Type())
	}
	return has && n <= 60
}

// inCall evaluates f as called by com and hands the state to then.
func (c *clock) inCall(com *ssa.CallCommon, f *ssa.Function, then func()) {
	env := map[ssa.Value]tset{}
	bound := map[*ssa.Parameter]string{}
	for k, v := range c.bound {
		bound[k] = v
	}
	for i, x := range f.Params {
		a := argAt(com, f, i)
		if a == nil || !numeric(x.Type()) {
			continue
		}
		env[x] = c.get(a)
		if isDuration(x.Type()) && len(env[x]) == 0 {
			env[x] = one('d', "1000000000")
		}
		bound[x] = c.origins(a)
	}
	saved, savedBound := c.changed, c.bound
	c.here = append(c.here, env)
	c.bound = bound
	for round := 0; round < 5; round++ {
		c.changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					c.step(v)
				}
			}
		}
		if !c.changed {
			break
		}
	}
	then()
	c.here = c.here[:len(c.here)-1]
	c.changed, c.bound = saved, savedBound
}

const rtpSym = "RTP"

func one(k byte, scale string) tset { return tset{tq{kind: k, scale: scale}: true} }

// intBits: width and signedness of an integer type; 0 for others.
func intBits(t types.Type) (bits int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64:
		return 64, true
	}
	return 64, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isDuration(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Duration" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
}

func numeric(t types.Type) bool { b, _ := intBits(t); return b > 0 || isFloat(t) }

func constRat(v ssa.Value) *big.Rat {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int && c.Value.Kind() != constant.Float {
		return nil
	}
	r, ok := new(big.Rat).SetString(c.Value.ExactString())
	if !ok {
		return nil
	}
	return r
}

// origins: a name for the number a value holds, by the constants and fields it
// may come from.
func (c *clock) origins(v ssa.Value) string {
	m := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, depth int)
	walk = func(v ssa.Value, depth int) {
		if seen[v] || depth > 12 {
			return
		}
		seen[v] = true
		if s := loadSlot(v); s != "" {
			m[s] = true
			return
		}
		switch x := v.(type) {
		case *ssa.Const:
			if r := constRat(x); r != nil {
				m[r.RatString()] = true
			}
		case *ssa.Convert:
			walk(x.X, depth)
		case *ssa.ChangeType:
			walk(x.X, depth)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, depth)
			}
		case *ssa.Parameter:
			if s, ok := c.bound[x]; ok {
				for _, k := range strings.Split(strings.Trim(s, "{}"), ",") {
					m[k] = true
				}
				return
			}
			n := 0
			for _, a := range c.args(x) {
				walk(a, depth+1)
				n++
			}
			if n == 0 {
				m["?"+x.Name()] = true
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f != nil && c.p.isRepoFunc(f) && f.Signature.Results().Len() == 1 {
				for _, r := range returnsOf(f) {
					walk(r.Results[0], depth+1)
				}
				return
			}
			m["?call"] = true
		case *ssa.Extract:
			m["?extract"] = true
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if ia, ok := x.X.(*ssa.IndexAddr); ok {
					if g, ok := ia.X.(*ssa.Global); ok {
						m["G:"+g.Name()] = true
						return
					}
				}
				if al, ok := x.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
							walk(s.Val, depth)
						}
					}
					return
				}
				if fv, ok := x.X.(*ssa.FreeVar); ok {
					if al, ok := freeVarBinding(fv).(*ssa.Alloc); ok {
						for _, r := range *al.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
								walk(s.Val, depth)
							}
						}
						return
					}
				}
			}
			m["?"] = true
		default:
			m["?"] = true
		}
	}
	walk(v, 0)
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ",") + "}"
}

func returnsOf(f *ssa.Function) (out []*ssa.Return) {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return
}

// args: what the call sites pass for a parameter.
func (c *clock) args(x *ssa.Parameter) (out []ssa.Value) {
	f := x.Parent()
	idx := -1
	for i, q := range f.Params {
		if q == x {
			idx = i
		}
	}
	for _, s := range c.p.Callers(f) {
		if a := argAt(s.Common(), f, idx); a != nil {
			out = append(out, a)
		}
	}
	return
}

func argAt(com *ssa.CallCommon, f *ssa.Function, idx int) ssa.Value {
	as := com.Args
	if com.IsInvoke() {
		if idx == 0 {
			return com.Value
		}
		idx--
	}
	if idx >= 0 && idx < len(as) && len(f.Params)-len(as) <= 1 {
		return as[idx]
	}
	return nil
}

func (c *clock) get(v ssa.Value) tset {
	if n := len(c.here); n > 0 {
		if s, ok := c.here[n-1][v]; ok {
			return s
		}
	}
	return c.val[v]
}

func sameTimes(a, b tset) bool {
	if len(a) != len(b) {
		return false
	}
	for q := range a {
		if !b[q] {
			return false
		}
	}
	return true
}

// put replaces what is known of v: a sum is one thing while an operand is not
// known to be a time, and another afterwards.
func (c *clock) put(v ssa.Value, s tset) {
	if len(s) > 10 {
		s = nil
	}
	if n := len(c.here); n > 0 {
		if !sameTimes(c.get(v), s) {
			c.changed = true
		}
		c.here[n-1][v] = s
		return
	}
	if !sameTimes(c.val[v], s) {
		c.val[v] = s
		c.changed = true
	}
}

// putField joins the stores of one round.
func (c *clock) putField(k string, s tset) {
	old := c.next[k]
	if old == nil {
		old = tset{}
		c.next[k] = old
	}
	for q := range s {
		if len(old) < 10 {
			old[q] = true
		}
	}
}

func mapSet(s tset, f func(tq) (tq, bool)) tset {
	out := tset{}
	for q := range s {
		if n, ok := f(q); ok {
			out[n] = true
		}
	}
	return out
}

func plain(k byte) bool { return k == 'D' || k == 'P' || k == 'C' || k == 'A' || k == 'd' }

// convert: what becomes of a time in another number type.
func convertTime(q tq, from, to types.Type) tq {
	fb, fs := intBits(from)
	tb, tsg := intBits(to)
	switch {
	case fb > 0 && tb > 0:
		if fb == 32 && tb == 32 && tsg {
			return unflag(q, "m") // the low bits read as signed
		}
		if fb == 64 && tb == 64 && tsg && !fs {
			return unflag(q, "m")
		}
		if strings.Contains(q.flags, "m") && tb > fb {
			q = withFlag(unflag(q, "m"), "u")
		}
		if q.kind == 'C' && fs && !tsg {
			q = withFlag(q, "m")
		}
		if strings.Contains(q.flags, "o") && tb > fb {
			q = withFlag(unflag(q, "o"), "w")
		}
		if fb > tb {
			q = withFlag(q, "n")
		}
	case fb > 0 && isFloat(to):
		if strings.Contains(q.flags, "m") {
			q = withFlag(unflag(q, "m"), "u")
		}
		if strings.Contains(q.flags, "o") {
			q = withFlag(unflag(q, "o"), "w")
		}
	}
	return q
}

func addKinds(a, b byte) byte {
	t := string([]byte{a, b})
	switch t {
	case "DC", "CD", "AC", "CA":
		return 'P'
	case "Dd", "dD", "Dr", "rD":
		return 'D'
	case "Pd", "dP":
		return 'P'
	case "Ad", "dA", "Ar", "rA":
		return 'A'
	case "dd":
		return 'd'
	case "RR", "Rr", "rR":
		return 'R'
	case "rr":
		return 'r'
	}
	return 'B'
}

func subKinds(a, b byte) byte {
	t := string([]byte{a, b})
	switch t {
	case "PD":
		return 'C'
	case "PC":
		return 'D'
	case "DD", "PP", "AA", "AD", "DA", "PA", "AP", "dd":
		return 'd'
	case "Dd", "Dr":
		return 'D'
	case "Pd":
		return 'P'
	case "Ad":
		return 'A'
	case "RR", "rr":
		return 'r'
	}
	return 'B'
}

func joinFlags(a, b string) (out string) {
	q := tq{flags: a}
	for _, f := range strings.Split(b, "") {
		if f != "" {
			q = withFlag(q, f)
		}
	}
	return q.flags
}

func (c *clock) binop(b *ssa.BinOp) tset {
	x, y := c.get(b.X), c.get(b.Y)
	bits, signed := intBits(b.Type())
	switch b.Op {
	case token.ADD, token.SUB:
		if len(x) == 0 && len(y) == 0 {
			return nil
		}
		if len(y) == 0 {
			return mapSet(x, func(q tq) (tq, bool) { return q, true })
		}
		if len(x) == 0 {
			if b.Op == token.SUB {
				return nil
			}
			return y
		}
		out := tset{}
		for p := range x {
			for q := range y {
				k := addKinds(p.kind, q.kind)
				if b.Op == token.SUB {
					k = subKinds(p.kind, q.kind)
				}
				sc := p.scale
				if plain(p.kind) && plain(q.kind) && p.scale != q.scale {
					k = 'B'
				}
				if !plain(p.kind) && plain(q.kind) {
					sc = q.scale
				}
				if k == 'R' || k == 'r' {
					sc = "1"
				}
				r := tq{kind: k, scale: sc, flags: joinFlags(p.flags, q.flags)}
				if k != 'C' && strings.Contains(r.flags, "m") {
					r = unflag(r, "m") // modular sum: the sign is accounted for
				}
				if k == 'C' && !signed && bits > 0 {
					r = withFlag(r, "m")
				}
				if (k == 'P' || k == 'D') && bits == 32 {
					r = withFlag(r, "o")
				}
				out[r] = true
			}
		}
		return out
	case token.MUL, token.SHL:
		if len(x) == 0 && b.Op == token.MUL {
			x, y = y, x
			if len(x) == 0 {
				return nil
			}
			return c.scaleBy(x, b.X, b, true)
		}
		if len(x) == 0 {
			return nil
		}
		if len(y) > 0 && b.Op == token.MUL {
			// a duration typed number times a unit constant is not a product of times
			return nil
		}
		return c.scaleBy(x, b.Y, b, true)
	case token.QUO, token.SHR:
		if len(x) == 0 {
			// a number of samples over a sampling rate
			if r := constRat(b.X); r != nil && b.Op == token.QUO && constRat(b.Y) == nil && c.rateLike(b.Y) {
				q := new(big.Rat).Quo(r, big.NewRat(1024, 1))
				return one('d', q.RatString())
			}
			return nil
		}
		if len(y) > 0 {
			return nil
		}
		return c.scaleBy(x, b.Y, b, false)
	case token.OR, token.XOR:
		out := tset{}
		for q := range x {
			if q.kind == 'R' {
				out[q] = true
			}
		}
		for q := range y {
			if q.kind == 'R' {
				out[q] = true
			}
		}
		return lowestOffset(out)
	case token.AND:
		r := constRat(b.Y)
		s := x
		if r == nil {
			r, s = constRat(b.X), y
		}
		if r == nil || len(s) == 0 {
			return nil
		}
		// keeps every bit a timestamp has
		if r.Cmp(big.NewRat(1<<33-1, 1)) >= 0 || r.Cmp(big.NewRat(1<<32-1, 1)) == 0 && bits == 32 {
			return s
		}
		return mapSet(s, func(q tq) (tq, bool) { return q, q.kind == 'R' })
	case token.REM, token.AND_NOT:
		return mapSet(x, func(q tq) (tq, bool) { return q, q.kind == 'R' })
	}
	return nil
}

// lowestOffset: fields put together from several bytes start at the first.
func lowestOffset(s tset) tset {
	best, n := "", -1
	for q := range s {
		if strings.HasPrefix(q.scale, "@") {
			if k := atoi(q.scale[1:]); n < 0 || k < n {
				n, best = k, q.scale
			}
		}
	}
	if best == "" {
		return s
	}
	return tset{tq{kind: 'R', scale: best}: true}
}

func (c *clock) rateLike(v ssa.Value) bool {
	o := c.origins(v)
	return strings.Contains(o, "G:AACRates") || strings.Contains(o, "44100")
}

func (c *clock) scaleBy(s tset, by ssa.Value, b *ssa.BinOp, mul bool) tset {
	r := constRat(by)
	if r != nil && (b.Op == token.SHL || b.Op == token.SHR) {
		if !r.IsInt() || r.Num().BitLen() > 6 {
			return nil
		}
		r = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(r.Num().Int64())))
	}
	if r != nil && r.Sign() <= 0 {
		return nil
	}
	sym := ""
	if r == nil {
		sym = c.origins(by)
		if q, ok := new(big.Rat).SetString(strings.Trim(sym, "{}")); ok && q.Sign() > 0 {
			r, sym = q, "" // a constant, whichever way it came here
		}
	}
	bits, signed := intBits(b.Type())
	return mapSet(s, func(q tq) (tq, bool) {
		if !plain(q.kind) {
			return q, true
		}
		if r != nil && r.Cmp(big.NewRat(1, 1)) == 0 {
			return q, true
		}
		if sym != "" && q.kind == 'd' && !strings.Contains(q.scale, "·") && !c.rateLike(by) {
			return q, true // so many times a duration
		}
		if mul {
			q.scale = scaleMul(q.scale, r, sym, 1)
			if strings.Contains(q.flags, "q") {
				q = withFlag(q, "l")
			}
			if bits == 32 && q.kind != 'C' && q.kind != 'd' {
				q = withFlag(q, "o")
			}
			return q, true
		}
		if r != nil {
			q.scale = scaleMul(q.scale, new(big.Rat).Inv(r), "", 0)
		} else {
			q.scale = scaleMul(q.scale, nil, sym, -1)
		}
		if bits > 0 {
			q = withFlag(q, "q")
			if strings.Contains(q.flags, "o") {
				q = withFlag(unflag(q, "o"), "w")
			}
			if strings.Contains(q.flags, "n") {
				q = withFlag(unflag(q, "n"), "w")
			}
			if strings.Contains(q.flags, "m") && !signed {
				q = withFlag(unflag(q, "m"), "u")
			}
		}
		return q, true
	})
}

// stored: what the stores in f that may reach the load leave in the field; nil
// and false when some path to it has none.
func (c *clock) reachingStores(load ssa.Instruction, slot string, depth int) (vals []ssa.Value, all bool) {
	f := load.Parent()
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	start := -1
	for i, in := range load.Block().Instrs {
		if in == load {
			start = i - 1
		}
	}
	all = true
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{load.Block(), start}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		found := false
		for i := w.i; i >= 0; i-- {
			if s, ok := w.b.Instrs[i].(*ssa.Store); ok && slotAddr(s.Addr) == slot {
				vals = append(vals, s.Val)
				found = true
				break
			}
		}
		if found {
			continue
		}
		if w.b == f.Blocks[0] {
			sites := c.p.Callers(f)
			if depth >= 3 || len(sites) == 0 {
				all = false
			}
			for _, site := range sites {
				if depth < 3 {
					vs, ok := c.reachingStores(site.(ssa.Instruction), slot, depth+1)
					vals = append(vals, vs...)
					all = all && ok
				}
			}
		}
		for _, q := range w.b.Preds {
			if !seen[q] {
				seen[q] = true
				work = append(work, pt{q, len(q.Instrs) - 1})
			}
		}
	}
	return
}

func (c *clock) load(x *ssa.UnOp) tset {
	slot := slotAddr(x.X)
	if slot == "" {
		switch a := x.X.(type) {
		case *ssa.Alloc:
			out := tset{}
			for _, r := range *a.Referrers() {
				switch s := r.(type) {
				case *ssa.Store:
					if s.Addr == ssa.Value(a) {
						for q := range c.get(s.Val) {
							out[q] = true
						}
					}
				case *ssa.MakeClosure:
					for i, bnd := range s.Bindings {
						if bnd == ssa.Value(a) {
							for q := range c.storesTo(s.Fn.(*ssa.Function).FreeVars[i]) {
								out[q] = true
							}
						}
					}
				}
			}
			return out
		case *ssa.FreeVar:
			if al, ok := freeVarBinding(a).(*ssa.Alloc); ok {
				out := c.storesTo(a)
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
						for q := range c.get(s.Val) {
							out[q] = true
						}
					}
				}
				return out
			}
		case *ssa.Parameter:
			// a pointer to a field
			out := tset{}
			for _, s := range c.pointed(a, 0) {
				if q, ok := c.decl[s]; ok {
					out[q] = true
				} else {
					for q := range c.field[s] {
						out[q] = true
					}
				}
			}
			return out
		case *ssa.IndexAddr:
			if bits, signed := intBits(x.Type()); bits == 8 && !signed {
				if k := constRat(a.Index); k != nil && k.IsInt() {
					return one('R', "@"+k.RatString())
				}
				return one('R', "1")
			}
		}
		return nil
	}
	if slot == c.pesPTS {
		vals, all := c.reachingStores(x, slot, 0)
		out := tset{}
		if !all {
			out[tq{kind: 'P', scale: "90000"}] = true
		}
		for _, v := range vals {
			for q := range c.get(v) {
				out[q] = true
			}
		}
		return out
	}
	if q, ok := c.decl[slot]; ok {
		return tset{q: true}
	}
	if len(c.field[slot]) == 0 && isDuration(x.Type()) {
		return one('d', "1000000000")
	}
	return c.field[slot]
}

func (c *clock) storesTo(fv *ssa.FreeVar) tset {
	out := tset{}
	if fv.Referrers() == nil {
		return out
	}
	for _, r := range *fv.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(fv) {
			for q := range c.get(s.Val) {
				out[q] = true
			}
		}
	}
	return out
}

// pointed: the fields a pointer parameter may point to.
func (c *clock) pointed(v ssa.Value, depth int) (out []string) {
	if s := slotAddr(v); s != "" {
		return []string{s}
	}
	x, ok := v.(*ssa.Parameter)
	if !ok || depth > 4 {
		return nil
	}
	for _, a := range c.args(x) {
		out = append(out, c.pointed(a, depth+1)...)
	}
	return
}

func (c *clock) callResult(com *ssa.CallCommon, idx int, t types.Type) tset {
	if b, ok := com.Value.(*ssa.Builtin); ok {
		_ = b
		return nil
	}
	name := calleeFull(com)
	f := com.StaticCallee()
	switch {
	case strings.HasPrefix(name, "(encoding/binary.") && (strings.HasSuffix(name, ".Uint32") || strings.HasSuffix(name, ".Uint64") || strings.HasSuffix(name, ".Uint16")):
		if sl, ok := com.Args[len(com.Args)-1].(*ssa.Slice); ok {
			if sl.Low == nil {
				return one('R', "@0")
			}
			if k := constRat(sl.Low); k != nil {
				return one('R', "@"+k.RatString())
			}
		}
		return one('R', "1")
	case name == "(time.Duration).Seconds":
		return mapSet(c.get(com.Args[0]), func(q tq) (tq, bool) {
			q.scale = scaleMul(q.scale, big.NewRat(1, 1e9), "", 0)
			return q, plain(q.kind)
		})
	case name == "(time.Duration).Milliseconds", name == "(time.Duration).Microseconds", name == "(time.Duration).Nanoseconds":
		k := map[string]int64{"Milliseconds": 1e6, "Microseconds": 1e3, "Nanoseconds": 1}[name[strings.LastIndex(name, ".")+1:]]
		return mapSet(c.get(com.Args[0]), func(q tq) (tq, bool) {
			q.scale = scaleMul(q.scale, big.NewRat(1, k), "", 0)
			return q, plain(q.kind)
		})
	case name == "math.Ceil" || name == "math.Floor" || name == "math.Round" || name == "math.Abs" || name == "math.Trunc":
		return c.get(com.Args[0])
	case name == "math.Max" || name == "math.Min":
		out := tset{}
		for _, a := range com.Args {
			for q := range c.get(a) {
				out[q] = true
			}
		}
		return out
	}
	var fs []*ssa.Function
	if f != nil {
		fs = []*ssa.Function{f}
	}
	out := tset{}
	known := false
	for _, g := range fs {
		if !c.p.isRepoFunc(g) || len(g.Blocks) == 0 {
			continue
		}
		known = true
		ctx := func(then func()) { then() }
		if c.small(g) && len(c.here) < 3 {
			ctx = func(then func()) { c.inCall(com, g, then) }
		}
		ctx(func() {
			for _, r := range returnsOf(g) {
				if idx < len(r.Results) {
					for q := range c.get(r.Results[idx]) {
						// bits read from a slice that was passed in
						if strings.HasPrefix(q.scale, "@") {
							base := "?"
							for _, a := range com.Args {
								if sl, ok := a.(*ssa.Slice); ok {
									if sl.Low == nil {
										base = "0"
									} else if k := constRat(sl.Low); k != nil {
										base = k.RatString()
									}
								} else if _, ok := a.Type().Underlying().(*types.Slice); ok {
									base = "0"
								}
							}
							if base == "?" {
								q.scale = "1"
							} else {
								q.scale = fmt.Sprintf("@%d", atoi(q.scale[1:])+atoi(base))
							}
						}
						out[q] = true
					}
				}
			}
		})
	}
	if !known && isDuration(t) {
		return one('d', "1000000000")
	}
	return out
}

func (c *clock) solve() bool {
	for round := 0; round < 60; round++ {
		c.changed = false
		c.next = map[string]tset{}
		for _, f := range c.p.Funcs {
			for _, x := range f.Params {
				if !numeric(x.Type()) {
					continue
				}
				in := tset{}
				for _, a := range c.args(x) {
					for q := range c.get(a) {
						in[q] = true
					}
				}
				if isDuration(x.Type()) && len(in) == 0 {
					in = one('d', "1000000000")
				}
				c.put(x, in)
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && numeric(s.Val.Type()) {
						k := slotAddr(s.Addr)
						if k != "" {
							c.putField(k, c.get(s.Val))
						} else if pr, ok := s.Addr.(*ssa.Parameter); ok {
							for _, k := range c.pointed(pr, 0) {
								c.putField(k, c.get(s.Val))
							}
						}
						continue
					}
					if v, ok := in.(ssa.Value); ok {
						c.step(v)
					}
				}
			}
		}
		for k, s := range c.next {
			c.changed = c.changed || !sameTimes(s, c.field[k])
		}
		c.field = c.next
		if !c.changed {
			return true
		}
	}
	return false
}

// step works out one value.
func (c *clock) step(v ssa.Value) {
	switch x := v.(type) {
	case *ssa.Call:
		if x.Call.Signature().Results().Len() == 1 && numeric(x.Type()) {
			c.put(x, c.callResult(&x.Call, 0, x.Type()))
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && numeric(x.Type()) {
			c.put(x, c.callResult(&call.Call, x.Index, x.Type()))
		}
	case *ssa.Phi:
		if numeric(x.Type()) {
			in := tset{}
			for _, e := range x.Edges {
				for q := range c.get(e) {
					in[q] = true
				}
			}
			c.put(x, in)
		}
	case *ssa.BinOp:
		if numeric(x.Type()) {
			c.put(x, c.binop(x))
		}
	case *ssa.Convert:
		if numeric(x.Type()) && numeric(x.X.Type()) {
			c.put(x, mapSet(c.get(x.X), func(q tq) (tq, bool) { return convertTime(q, x.X.Type(), x.Type()), true }))
		}
	case *ssa.ChangeType:
		if numeric(x.Type()) {
			c.put(x, c.get(x.X))
		}
	case *ssa.Field:
		if numeric(x.Type()) {
			if s, st := structOf(x.X.Type()); s != nil {
				k := fmt.Sprintf("F:%s.%d", typeKey(st), x.Field)
				if q, ok := c.decl[k]; ok {
					c.put(x, tset{q: true})
				} else if len(c.field[k]) == 0 && isDuration(x.Type()) {
					c.put(x, one('d', "1000000000"))
				} else {
					c.put(x, c.field[k])
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && numeric(x.Type()) {
			c.put(x, c.load(x))
		} else if x.Op == token.SUB {
			c.put(x, c.get(x.X))
		}
	case *ssa.FreeVar:
	}
}

// want says what a place that carries a time must be given.
type want struct {
	kinds string
	scale string
	what  string
	bits  bool // also bits taken from the wire
}

func (c *clock) judge(q tq, w want) bool {
	if q.kind == 'R' {
		return w.bits
	}
	if strings.ContainsAny(q.flags, "wlu") || !strings.ContainsRune(w.kinds, rune(q.kind)) {
		return false
	}
	if strings.Contains(q.flags, "m") && !strings.Contains(w.kinds, "m") {
		return false
	}
	return q.scale == w.scale || w.scale == "*"
}

// tagHolder: the struct value a field address belongs to, outermost.
func tagHolder(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.Alloc:
			// a struct put together on the side and copied into a larger one
			var into ssa.Value
			for _, ref := range *x.Referrers() {
				u, ok := ref.(*ssa.UnOp)
				if !ok || u.Op != token.MUL || u.Referrers() == nil {
					continue
				}
				for _, r2 := range *u.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Val == ssa.Value(u) {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
							into = fa
						}
					}
				}
			}
			if into != nil {
				v = into
				continue
			}
		}
		return v
	}
}

// storedIn: what is stored into the named field of the struct at base, in the
// same function.
func storedIn(base ssa.Value, slot string) (out []ssa.Value) {
	f := base.Parent()
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && slotAddr(s.Addr) == slot && tagHolder(s.Addr) == base {
				out = append(out, s.Val)
			}
		}
	}
	return
}

func (p *Prog) newClock() (*clock, []string) {
	c := &clock{p: p, val: map[ssa.Value]tset{}, field: map[string]tset{}, decl: map[string]tq{}}
	var gone []string
	d := func(pkg, typ, f string, k byte, scale, flags string) string {
		s := p.slot(pkg, typ, f)
		if s == "" {
			s = p.fieldNamed(pkg, f)
		}
		if s == "" {
			gone = append(gone, pkg+"."+typ+"."+f)
			return ""
		}
		c.decl[s] = tq{kind: k, scale: scale, flags: flags}
		return s
	}
	c.ts = d("libflv", "TagBase", "TimeStamp", 'D', "1000", "")
	c.cts = d("libflv", "VideoTag", "Cts", 'C', "1000", "m")
	d("libsrt", "AccessUnit", "PTS", 'P', "90000", "")
	d("libsrt", "AccessUnit", "DTS", 'D', "90000", "")
	d("libsrt", "AudioFrame", "PTS", 'A', "90000", "")
	c.rtpTS = d("librtsp", "RTPPacket", "Timestamp", 'A', "1·"+rtpSym+"^1", "")
	d("librtmp", "ChunkMessageHeader", "MessageTimeStamp", 'D', "1000", "")
	d("librtmp", "ChunkMessageHeader", "MessageTimeDelta", 'd', "1000", "")
	d("librtmp", "MessageBase", "messageTime", 'D', "1000", "")
	c.pesDTS = d("libmpeg", "PES", "DTS", 'D', "90000", "")
	c.pesPTS = d("libmpeg", "PES", "PTS", 'P', "90000", "")
	return c, gone
}

func (p *Prog) clocks(r *Report) {
	c, gone := p.newClock()
	for _, g := range gone {
		r.find("anchor|"+g, "-", "%s, which carries a media time, is gone", g)
	}
	if len(gone) > 0 {
		return
	}
	if !c.solve() {
		r.find("unsolved", "-", "the units of some values depend on themselves: nothing can be said about them")
		return
	}
	n := 0
	for _, s := range c.val {
		if len(s) > 0 {
			n++
		}
	}
	r.count("values that hold a time", n)
	c.sumsAndCompares(r)
	c.places(r)
	c.tags(r)
	c.rtp(r)
	c.messages(r)
	c.printed(r)
	c.timescales(r)
	c.frames(r)
	c.pairs(r)
}

// sumsAndCompares: no sum, difference or comparison mixes times that do not go
// together.
func (c *clock) sumsAndCompares(r *Report) {
	for _, f := range c.p.Funcs {
		sites := c.p.Callers(f)
		if !c.small(f) || len(sites) == 0 {
			c.sumsIn(r, f)
			continue
		}
		for _, site := range sites {
			c.inCall(site.Common(), f, func() { c.sumsIn(r, f) })
		}
	}
}

func (c *clock) sumsIn(r *Report, f *ssa.Function) {
	{
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				op, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				x, y := c.get(op.X), c.get(op.Y)
				if len(x) == 0 || len(y) == 0 {
					continue
				}
				switch op.Op {
				case token.ADD, token.SUB:
					r.count("sums and differences of two times", 1)
					bad := false
					for q := range c.binop(op) {
						bad = bad || q.kind == 'B'
					}
					// some pairing must make sense; wire bits alone do not count
					if bad && c.hasTime(x) && c.hasTime(y) || bad && (c.hasTime(x) || c.hasTime(y)) {
						r.find(fmt.Sprintf("mix|%s|%s", fname(f), op.Op), c.p.posOf(in), "%s: %q combines %s with %s", fname(f), op.Op.String(), x, y)
					}
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					if !c.hasTime(x) || !c.hasTime(y) {
						continue
					}
					r.count("comparisons of two times", 1)
					okPair := false
					for p := range x {
						for q := range y {
							if p.scale == q.scale && (p.kind == 'd') == (q.kind == 'd') && (p.kind == 'C') == (q.kind == 'C') {
								okPair = true
							}
						}
					}
					if !okPair {
						r.find(fmt.Sprintf("compare|%s", fname(f)), c.p.posOf(in), "%s compares %s with %s", fname(f), x, y)
					}
				}
			}
		}
	}
}

func (c *clock) hasTime(s tset) bool {
	for q := range s {
		if plain(q.kind) {
			return true
		}
	}
	return false
}

func (c *clock) check(r *Report, key string, in ssa.Instruction, v ssa.Value, w want) {
	for q := range c.get(v) {
		if !c.judge(q, w) {
			r.find(key, c.p.posOf(in), "%s: %s is given a %s", fname(in.Parent()), w.what, q)
			return
		}
	}
}

// places: every store into a field that carries a time fits it.
func (c *clock) places(r *Report) {
	w := map[string]want{}
	add := func(pkg, typ, f, kinds, scale, what string, bits bool) {
		if s := c.p.slot(pkg, typ, f); s != "" {
			w[s] = want{kinds, scale, what, bits}
		} else {
			r.find("anchor|"+pkg+"."+typ+"."+f, "-", "%s.%s.%s is gone", pkg, typ, f)
		}
	}
	add("libflv", "VideoTag", "Cts", "Cm", "1000", "the tag's composition offset (milliseconds)", true)
	add("librtmp", "ChunkMessageHeader", "MessageTimeStamp", "D", "1000", "the chunk's timestamp (decoding time in milliseconds)", true)
	add("libmpeg", "PES", "DTS", "DA", "90000", "PES.DTS (decoding time on the 90 kHz clock)", true)
	add("libmpeg", "PES", "PTS", "PDA", "90000", "PES.PTS (presentation time on the 90 kHz clock)", true)
	add("libmpeg", "AdaptationField", "ProgramClockReferenceBase", "D", "90000", "the PCR base (decoding time on the 90 kHz clock)", true)
	add("libmp4", "Sample", "Duration", "d", "1000", "the sample's duration (the track's timescale, 1000)", false)
	add("libmp4", "Sample", "CompositionTimeOffset", "C", "1000", "the sample's composition offset (the track's timescale, 1000)", false)
	add("libmp4", "MediaSegmentParams", "BaseDecodeTime", "D", "1000", "the fragment's base decode time (the track's timescale, 1000)", false)
	add("libhls", "segmentInfo", "duration", "d", "1", "the segment's duration (seconds)", false)
	add("libhls", "partInfo", "duration", "d", "1", "the part's duration (seconds)", false)
	must := map[string]bool{}
	for _, k := range []string{c.p.slot("libmp4", "Sample", "Duration"), c.p.slot("libmp4", "Sample", "CompositionTimeOffset"), c.p.slot("libmp4", "MediaSegmentParams", "BaseDecodeTime"),
		c.p.slot("libhls", "segmentInfo", "duration"), c.p.slot("libhls", "partInfo", "duration")} {
		must[k] = true
	}
	given := map[string]bool{}
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || !numeric(s.Val.Type()) {
					continue
				}
				var slots []string
				if k := slotAddr(s.Addr); k != "" {
					slots = []string{k}
				} else if pr, ok := s.Addr.(*ssa.Parameter); ok {
					slots = c.pointed(pr, 0)
				}
				for _, k := range slots {
					x, ok := w[k]
					if !ok {
						continue
					}
					r.count("stores into fields that carry a time", 1)
					key := fmt.Sprintf("store|%s|%s", fname(f), c.p.slotName(k))
					c.check(r, key, in, s.Val, x)
					if c.hasTime(c.get(s.Val)) {
						given[k] = true
					} else if must[k] {
						r.find(key, c.p.posOf(in), "%s: %s does not come from the stream's timestamps", fname(f), x.what)
					}
				}
			}
		}
	}
	for k, x := range w {
		if !given[k] {
			r.find("nothing|"+c.p.slotName(k), "-", "%s is never given a time", x.what)
		}
	}
	// where the bytes of a PES header come from
	for _, x := range [][4]string{{"AccessUnit", "PTS", "@9", ""}, {"AccessUnit", "DTS", "@14", "@9"}, {"AudioFrame", "PTS", "@9", ""}} {
		slot := c.p.slot("libsrt", x[0], x[1])
		got := tset{}
		where := "-"
		for _, f := range c.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && slotAddr(s.Addr) == slot {
						for q := range c.get(s.Val) {
							got[q] = true
						}
						where = c.p.posOf(in)
					}
				}
			}
		}
		main := false
		for q := range got {
			main = main || q.kind == 'R' && q.scale == x[2]
			if q.kind != 'R' || q.scale != x[2] && (x[3] == "" || q.scale != x[3]) {
				r.find("pes|"+x[0]+"."+x[1], where, "%s.%s is taken from %s of the PES header: its place is offset %s", x[0], x[1], q, x[2][1:])
			}
		}
		r.count("fields read from a PES header", 1)
		if !main {
			r.find("pes|"+x[0]+"."+x[1]+"|none", where, "%s.%s is not taken from offset %s of the PES header", x[0], x[1], x[2][1:])
		}
	}
}

// tags: every tag put together gets its timestamp in milliseconds, and a video
// tag made from a frame with both times carries their difference.
func (c *clock) tags(r *Report) {
	avcType := c.p.slot("libflv", "VideoTag", "AVCPacketType")
	aacType := c.p.slot("libflv", "AudioTag", "AACPacketType")
	rate := c.p.slot("librtsp", "ParsedSDP", "AudioRate")
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || slotAddr(s.Addr) != c.ts {
					continue
				}
				r.count("tags given a timestamp", 1)
				base := tagHolder(s.Addr)
				video, audio := isNamed(base.Type(), "libflv", "VideoTag"), isNamed(base.Type(), "libflv", "AudioTag")
				key := fmt.Sprintf("tag|%s|%s", fname(f), strings.TrimPrefix(base.Type().String(), "*"+modPath+"/"))
				got := c.get(s.Val)
				if !c.hasTime(got) {
					header := false
					for _, t := range []string{avcType, aacType} {
						for _, v := range storedIn(base, t) {
							header = header || isConstInt(v, 0)
						}
					}
					if (video || audio || isNamed(base.Type(), "libflv", "TagBase")) && !header {
						r.find(key, c.p.posOf(in), "%s makes a tag of media whose timestamp does not come from the stream", fname(f))
					}
					continue
				}
				fromDTS := false
				for q := range got {
					okq := q.kind == 'D' && q.scale == "1000" || q.kind == 'A' && q.scale == "1000"
					if video && q.kind == 'A' && q.scale == scaleMul("1·"+rtpSym+"^1", big.NewRat(1, 90), "", 0) {
						okq = true // RTP video always runs at 90 kHz
					}
					if audio && q.kind == 'A' && strings.HasPrefix(q.scale, "1000·") && strings.Contains(q.scale, rtpSym+"^1") && strings.Contains(q.scale, rate) && strings.Count(q.scale, "·") == 2 && strings.Contains(q.scale, "}^-1") {
						okq = true
					}
					if strings.ContainsAny(q.flags, "wlum") {
						okq = false
					}
					if !okq {
						r.find(key, c.p.posOf(in), "%s: a tag's timestamp (decoding time in milliseconds) is given a %s", fname(f), q)
					}
					fromDTS = fromDTS || q.kind == 'D'
				}
				if video && fromDTS {
					carried := false
					for _, v := range storedIn(base, c.cts) {
						carried = carried || c.hasTime(c.get(v))
					}
					if !carried {
						r.find(key+"|cts", c.p.posOf(in), "%s makes a video tag from a decoding time without the composition offset that goes with it", fname(f))
					}
				}
			}
		}
	}
	// tags that are put together without one
	tt := c.p.slot("libflv", "TagBase", "TagType")
	for _, f := range c.p.Funcs {
		seen := map[ssa.Value]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				k := slotAddr(s.Addr)
				if k != tt && k != avcType && k != aacType || k != tt && (constRat(s.Val) == nil || isConstInt(s.Val, 0)) {
					continue
				}
				base := tagHolder(s.Addr)
				if seen[base] {
					continue
				}
				seen[base] = true
				if _, ok := base.(*ssa.Alloc); !ok {
					continue
				}
				if k == tt {
					header := false
					for _, t := range []string{avcType, aacType} {
						for _, v := range storedIn(base, t) {
							header = header || isConstInt(v, 0)
						}
					}
					if header {
						continue
					}
				}
				if len(storedIn(base, c.ts)) == 0 && !copiedBase(base) {
					r.find(fmt.Sprintf("tag|%s|%s|unset", fname(f), strings.TrimPrefix(base.Type().String(), "*"+modPath+"/")), c.p.posOf(in), "%s makes a tag of media without a timestamp", fname(f))
				}
			}
		}
	}
	r.atLeast("tags given a timestamp", 6)
}

// copiedBase: the whole tag header is copied in from elsewhere.
func copiedBase(base ssa.Value) bool {
	for _, b := range base.Parent().Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || !isNamed(s.Val.Type(), modPath+"/libflv", "TagBase") || tagHolder(s.Addr) != base {
				continue
			}
			if u, ok := s.Val.(*ssa.UnOp); ok {
				if _, local := u.X.(*ssa.Alloc); local && tagHolder(u.X) == base {
					continue
				}
			}
			return true
		}
	}
	return false
}

// messages: a message made for a tag carries its time, and so do its chunks.
func (c *clock) messages(r *Report) {
	mt := c.p.slot("librtmp", "MessageBase", "messageTime")
	kind := c.p.slot("librtmp", "MessageBase", "messageType")
	cts, ctype := c.p.slot("librtmp", "ChunkMessageHeader", "MessageTimeStamp"), c.p.slot("librtmp", "ChunkMessageHeader", "MessageType")
	if mt == "" || kind == "" || cts == "" || ctype == "" {
		r.find("anchor|messages", "-", "the time or the type of an RTMP message is gone")
		return
	}
	ms := want{"D", "1000", "a message's time (decoding time in milliseconds)", false}
	media := func(v ssa.Value) bool {
		k := constRat(v)
		if k == nil {
			return true
		}
		switch k.RatString() {
		case "8", "9", "15", "18":
			return true
		}
		return false
	}
	for _, f := range c.p.Funcs {
		// which parameters of f end up as the time and type of a chunk
		pt, pk := -1, -1
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				for i, q := range f.Params {
					if s.Val == ssa.Value(q) && slotAddr(s.Addr) == cts {
						pt = i
					}
					if s.Val == ssa.Value(q) && slotAddr(s.Addr) == ctype {
						pk = i
					}
				}
				switch slotAddr(s.Addr) {
				case mt:
					r.count("messages given a time", 1)
					c.check(r, "message|"+fname(f), in, s.Val, ms)
				case kind:
					base := tagHolder(s.Addr)
					if constRat(s.Val) != nil {
						continue
					}
					timed := false
					for _, v := range storedIn(base, mt) {
						timed = timed || c.hasTime(c.get(v))
					}
					if !timed {
						r.find("message|"+fname(f)+"|none", c.p.posOf(in), "%s makes a message for media without its time", fname(f))
					}
				}
			}
		}
		if pt < 0 || pk < 0 {
			continue
		}
		var up func(f *ssa.Function, pt, pk, depth int)
		up = func(f *ssa.Function, pt, pk, depth int) {
			for _, site := range c.p.Callers(f) {
				tv, kv := argAt(site.Common(), f, pt), argAt(site.Common(), f, pk)
				if tv == nil || kv == nil {
					continue
				}
				in := site.(ssa.Instruction)
				if i, j := paramIndex(tv), paramIndex(kv); i >= 0 && j >= 0 && depth < 4 && len(c.p.Callers(in.Parent())) > 0 {
					up(in.Parent(), i, j, depth+1)
					continue
				}
				r.count("chunks given a time", 1)
				c.check(r, "chunk|"+fname(in.Parent()), in, tv, ms)
				if media(kv) && !c.hasTime(c.get(tv)) {
					r.find("chunk|"+fname(in.Parent())+"|none", c.p.posOf(in), "%s sends a chunk of media without its time", fname(in.Parent()))
				}
			}
		}
		up(f, pt, pk, 0)
	}
	r.atLeast("messages given a time", 4)
	r.atLeast("chunks given a time", 5)
}

// rtp: packets of the video track carry presentation times on the 90 kHz
// clock, those of the audio track times on the clock the SDP announces.
func (c *clock) rtp(r *Report) {
	vslot, aslot := c.p.fieldNamed("librtmp", "videoRTP"), c.p.fieldNamed("librtmp", "audioRTP")
	rateSlot := c.p.slot("librtsp", "SDPParams", "AudioRate")
	soundRate := c.p.slot("libflv", "AudioTag", "SoundRate")
	if vslot == "" || aslot == "" || rateSlot == "" || soundRate == "" {
		r.find("anchor|rtp", "-", "the RTP packers, the announced rate or AudioTag.SoundRate are gone")
		return
	}
	// the rates DESCRIBE announces, per sound rate code
	var announced []ssa.Value
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && slotAddr(s.Addr) == rateSlot && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/librtmp") {
					announced = append(announced, s.Val)
				}
			}
		}
	}
	var tables []string
	for _, v := range announced {
		tables = append(tables, c.table(v, soundRate))
	}
	nv, na := 0, 0
	// one packet, seen from a caller far enough up to know the track
	var packet func(in ssa.Instruction, packer string, tv ssa.Value, unmarked bool, env map[*ssa.Parameter]ssa.Value)
	packet = func(in ssa.Instruction, packer string, tv ssa.Value, unmarked bool, env map[*ssa.Parameter]ssa.Value) {
		f := in.Parent()
		got := c.get(tv)
		key := "rtp|" + fname(f)
		if !c.hasTime(got) {
			if unmarked && isConstInt(tv, 0) {
				return // parameter sets ahead of the stream end no picture
			}
			r.find(key+"|none", c.p.posOf(in), "%s sends an RTP packet whose timestamp does not come from the tag", fname(f))
			return
		}
		if packer == vslot {
			nv++
			for q := range got {
				if q.kind != 'P' || q.scale != "90000" || strings.ContainsAny(q.flags, "wlum") {
					r.find(key, c.p.posOf(in), "%s: the RTP timestamp of video (presentation time on the 90 kHz clock) is a %s", fname(f), q)
				}
			}
			return
		}
		na++
		for q := range got {
			bad := q.kind != 'D' && q.kind != 'A' || strings.ContainsAny(q.flags, "wlum")
			rateText := q.scale
			if i := strings.Index(q.scale, "·"); i >= 0 {
				// 1000/1000 · rate
				rateText = c.rateOf(tv, soundRate, env, 0)
				bad = bad || q.scale[:i] != "1" || !strings.HasSuffix(q.scale, "}^1")
			} else if n, ok := new(big.Rat).SetString(q.scale); !ok || !n.IsInt() {
				bad = true
			}
			hit := false
			for _, t := range tables {
				hit = hit || t == rateText
			}
			if bad {
				r.find(key, c.p.posOf(in), "%s: the RTP timestamp of audio (in samples) is a %s", fname(f), q)
			} else if !hit {
				r.find(key+"|rate", c.p.posOf(in), "%s: the RTP timestamp of audio runs at %s, the description announces %s", fname(f), rateText, strings.Join(tables, " or "))
			}
		}
	}
	var up func(in ssa.Instruction, packer, tv, mark ssa.Value, env map[*ssa.Parameter]ssa.Value, depth int)
	up = func(in ssa.Instruction, packer, tv, mark ssa.Value, env map[*ssa.Parameter]ssa.Value, depth int) {
		_, pp := packer.(*ssa.Parameter)
		_, tp := tv.(*ssa.Parameter)
		if (pp || tp) && depth < 4 {
			sites := c.p.Callers(in.Parent())
			for _, site := range sites {
				env2 := map[*ssa.Parameter]ssa.Value{}
				for i, q := range in.Parent().Params {
					env2[q] = argAt(site.Common(), in.Parent(), i)
				}
				in2 := func(v ssa.Value) ssa.Value {
					if q, ok := v.(*ssa.Parameter); ok && env2[q] != nil {
						return env2[q]
					}
					return v
				}
				up(site.(ssa.Instruction), in2(packer), in2(tv), in2(mark), env2, depth+1)
			}
			if len(sites) > 0 {
				return
			}
		}
		slot := c.p.fieldOrigin(packer)
		if slot != vslot && slot != aslot {
			return
		}
		unmarked := false
		if k, ok := mark.(*ssa.Const); ok && isBoolType(k.Type()) && !constant.BoolVal(k.Value) {
			unmarked = true
		}
		packet(in, slot, tv, unmarked, env)
	}
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				com := callOf(in)
				if com == nil || com.StaticCallee() == nil || com.StaticCallee().Signature.Recv() == nil || len(com.Args) < 3 || !c.isPacker(com.StaticCallee()) {
					continue
				}
				var tv, mark ssa.Value
				for _, a := range com.Args[1:] {
					if bt, ok := a.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint32 {
						tv = a
					}
					if isBoolType(a.Type()) {
						mark = a
					}
				}
				if tv == nil {
					continue
				}
				up(in, com.Args[0], tv, mark, nil, 0)
			}
		}
	}
	r.count("RTP packets of video given a timestamp", nv)
	r.count("RTP packets of audio given a timestamp", na)
	r.atLeast("RTP packets of video given a timestamp", 1)
	r.atLeast("RTP packets of audio given a timestamp", 2)
}

func (c *clock) isPacker(f *ssa.Function) bool {
	return isNamed(f.Signature.Recv().Type(), "librtsp", "RTPPacker")
}

// rateOf: the table of the multiplier that turned milliseconds into samples.
func (c *clock) rateOf(v ssa.Value, code string, env map[*ssa.Parameter]ssa.Value, depth int) string {
	for w := range backward(v) {
		switch b := w.(type) {
		case *ssa.BinOp:
			if b.Op != token.MUL {
				continue
			}
			for i, o := range []ssa.Value{b.X, b.Y} {
				other := []ssa.Value{b.Y, b.X}[i]
				if c.hasTime(c.get(other)) && len(c.get(o)) == 0 {
					if q, ok := stripConv(o).(*ssa.Parameter); ok && env[q] != nil {
						o = env[q]
					}
					return c.table(o, code)
				}
			}
		case *ssa.Call:
			f := b.Call.StaticCallee()
			if !c.small(f) || depth > 3 {
				continue
			}
			env2 := map[*ssa.Parameter]ssa.Value{}
			for i, q := range f.Params {
				a := argAt(&b.Call, f, i)
				if q2, ok := a.(*ssa.Parameter); ok && env[q2] != nil {
					a = env[q2]
				}
				env2[q] = a
			}
			for _, ret := range returnsOf(f) {
				for _, res := range ret.Results {
					if s := c.rateOf(res, code, env2, depth+1); s != "?" {
						return s
					}
				}
			}
		}
	}
	return "?"
}

// table: the constant a rate is for each value of the field that selects it.
func (c *clock) table(v ssa.Value, code string) string {
	out := ""
	same := true
	first := ""
	for k := int64(0); k < 4; k++ {
		s := c.under(v, code, k, 0)
		if k == 0 {
			first = s
		}
		same = same && s == first
		out += fmt.Sprintf("%d:%s ", k, s)
	}
	if same {
		return first
	}
	return strings.TrimSpace(out)
}

// under: v when the selecting field holds k, ignoring every other condition.
func (c *clock) under(v ssa.Value, code string, k int64, depth int) string {
	if depth > 6 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Const:
		if q := constRat(x); q != nil {
			return q.RatString()
		}
	case *ssa.Convert:
		return c.under(x.X, code, k, depth)
	case *ssa.ChangeType:
		return c.under(x.X, code, k, depth)
	case *ssa.Phi:
		live := c.liveEdges(x.Parent(), code, k, nil)
		m := map[string]bool{}
		for i, e := range x.Edges {
			if live[[2]int{x.Block().Preds[i].Index, x.Block().Index}] {
				m[c.under(e, code, k, depth+1)] = true
			}
		}
		return oneOf(m)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || !c.p.isRepoFunc(f) || f.Signature.Results().Len() != 1 {
			return "?"
		}
		var sel ssa.Value
		for i, a := range x.Call.Args {
			if c.p.fieldOrigin(a) == code || loadSlot(stripConv(a)) == code {
				sel = f.Params[i]
			}
		}
		live := c.liveEdges(f, code, k, sel)
		m := map[string]bool{}
		for _, ret := range returnsOf(f) {
			if ret.Block() == f.Blocks[0] || live[[2]int{-1, ret.Block().Index}] {
				m[c.underIn(ret.Results[0], code, k, sel, live, depth+1)] = true
			}
		}
		return oneOf(m)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s := slotAddr(x.X); s != "" {
				return s
			}
		}
	}
	return "?"
}

func (c *clock) underIn(v ssa.Value, code string, k int64, sel ssa.Value, live map[[2]int]bool, depth int) string {
	if x, ok := v.(*ssa.Phi); ok {
		m := map[string]bool{}
		for i, e := range x.Edges {
			if live[[2]int{x.Block().Preds[i].Index, x.Block().Index}] {
				m[c.underIn(e, code, k, sel, live, depth+1)] = true
			}
		}
		return oneOf(m)
	}
	return c.under(v, code, k, depth)
}

func oneOf(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "|")
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// liveEdges: the edges of f that are taken for some input while the selecting
// field (or parameter) holds k. {-1, b}: block b is reached.
func (c *clock) liveEdges(f *ssa.Function, code string, k int64, sel ssa.Value) map[[2]int]bool {
	live := map[[2]int]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	isSel := func(v ssa.Value) bool {
		v = stripConv(v)
		return v == sel && sel != nil || loadSlot(v) == code
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		live[[2]int{-1, b.Index}] = true
		succs := b.Succs
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if op, ok := i.Cond.(*ssa.BinOp); ok {
				x, y := op.X, op.Y
				o := op.Op
				if constRat(x) != nil {
					x, y = y, x
					o = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[o]
				}
				if n := constRat(y); n != nil && isSel(x) {
					cmp := big.NewRat(k, 1).Cmp(n)
					t := map[token.Token]bool{token.EQL: cmp == 0, token.NEQ: cmp != 0, token.LSS: cmp < 0, token.LEQ: cmp <= 0, token.GTR: cmp > 0, token.GEQ: cmp >= 0}[o]
					if t {
						succs = b.Succs[:1]
					} else {
						succs = b.Succs[1:]
					}
				}
			}
		}
		for _, s := range succs {
			live[[2]int{b.Index, s.Index}] = true
			work = append(work, s)
		}
	}
	return live
}

// printed: the attributes of playlists and manifests that state a time are
// given one in the unit they are read in.
func (c *clock) printed(r *Report) {
	attrs := []struct {
		before string
		w      want
	}{
		{"#EXTINF:", want{"d", "1", "EXTINF (seconds)", false}},
		{"#EXT-X-TARGETDURATION:", want{"d", "1", "EXT-X-TARGETDURATION (seconds)", false}},
		{"PART-TARGET=", want{"d", "1", "PART-TARGET (seconds)", false}},
		{"#EXT-X-PART:DURATION=", want{"d", "1", "a part's DURATION (seconds)", false}},
		{`minBufferTime="PT`, want{"d", "1", "minBufferTime (seconds)", false}},
		{`minimumUpdatePeriod="PT`, want{"d", "1", "minimumUpdatePeriod (seconds)", false}},
		{`timeShiftBufferDepth="PT`, want{"d", "1", "timeShiftBufferDepth (seconds)", false}},
		{`<SegmentTemplate timescale="%d" duration="`, want{"d", "1000", "SegmentTemplate's duration (the track's timescale, 1000)", false}},
		{` duration="`, want{"d", "1000", "SegmentTemplate's duration (the track's timescale, 1000)", false}},
	}
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				com := callOf(in)
				if com == nil || len(com.Args) < 2 {
					continue
				}
				name := calleeFull(com)
				if name != "fmt.Fprintf" && name != "fmt.Sprintf" {
					continue
				}
				fi := len(com.Args) - 2
				fc, ok := com.Args[fi].(*ssa.Const)
				if !ok || fc.Value == nil || fc.Value.Kind() != constant.String {
					continue
				}
				format := constant.StringVal(fc.Value)
				args := printedArgs(com.Args[fi+1])
				n := 0
				for i := 0; i+1 < len(format); i++ {
					if format[i] != '%' {
						continue
					}
					if format[i+1] == '%' {
						i++
						continue
					}
					j := i + 1
					for j < len(format) && strings.IndexByte("0123456789.+-# ", format[j]) >= 0 {
						j++
					}
					for _, a := range attrs {
						if strings.HasSuffix(format[:i], a.before) && n < len(args) && args[n] != nil {
							r.count("times printed", 1)
							v := args[n]
							key := fmt.Sprintf("print|%s|%s", fname(f), strings.TrimLeft(a.before, " #<"))
							c.check(r, key, in, v, a.w)
							if !c.hasTime(c.get(v)) {
								r.find(key, c.p.posOf(in), "%s: %s does not come from the segments' times", fname(f), a.w.what)
							}
							break
						}
					}
					n++
					i = j
				}
			}
		}
	}
	r.atLeast("times printed", 8)
}

// varargs: the values behind the ...interface{} of a call.
func printedArgs(v ssa.Value) (out []ssa.Value) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	m := map[int]ssa.Value{}
	max := -1
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k := constRat(ia.Index)
		if k == nil {
			continue
		}
		i := atoi(k.RatString())
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
				x := s.Val
				if mi, ok := x.(*ssa.MakeInterface); ok {
					x = mi.X
				}
				m[i] = x
				if i > max {
					max = i
				}
			}
		}
	}
	for i := 0; i <= max; i++ {
		out = append(out, m[i])
	}
	return
}

// timescales: the init segments and the manifest announce the timescale the
// times are written in.
func (c *clock) timescales(r *Report) {
	want := []string{c.p.slot("libmp4", "InitSegmentParams", "Timescale"), c.p.slot("libmp4", "HEVCInitParams", "Timescale"), c.p.slot("libdash", "manifestInputs", "timescale")}
	for _, w := range want {
		if w == "" {
			r.find("anchor|timescale", "-", "a timescale announced to players is gone")
			return
		}
		n := 0
		for _, f := range c.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok || slotAddr(s.Addr) != w {
						continue
					}
					n++
					r.count("timescales announced", 1)
					if got := c.constants(s.Val, 0); got != "1000" {
						r.find("timescale|"+fname(f)+"|"+c.p.slotName(w), c.p.posOf(in), "%s announces the timescale %s for times counted in milliseconds", fname(f), got)
					}
				}
			}
		}
		if n == 0 {
			r.find("timescale|none|"+c.p.slotName(w), "-", "%s is never set: nothing announces the unit of the times", c.p.slotName(w))
		}
	}
	// and the attribute prints it
	ok := false
	for _, f := range c.p.Funcs {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/libdash") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				com := callOf(in)
				if com == nil || len(com.Args) < 2 || calleeFull(com) != "fmt.Fprintf" {
					continue
				}
				fc, isC := com.Args[1].(*ssa.Const)
				if !isC || fc.Value == nil || fc.Value.Kind() != constant.String {
					continue
				}
				format := constant.StringVal(fc.Value)
				i := strings.Index(format, `timescale="%d"`)
				if i < 0 {
					continue
				}
				n := strings.Count(strings.ReplaceAll(format[:i], "%%", ""), "%")
				if as := printedArgs(com.Args[2]); n < len(as) && as[n] != nil {
					if c.constants(as[n], 0) == "1000" {
						ok = true
					} else {
						r.find("timescale|print", c.p.posOf(in), "the manifest announces the timescale %s for times counted in milliseconds", c.constants(as[n], 0))
						ok = true
					}
				}
			}
		}
	}
	if !ok {
		r.find("timescale|print|none", "-", "the manifest announces no timescale")
	}
}

// constants: the constants a value may be, through fields that only hold those.
func (c *clock) constants(v ssa.Value, depth int) string {
	m := map[string]bool{}
	var walk func(v ssa.Value, d int, seen map[ssa.Value]bool)
	walk = func(v ssa.Value, d int, seen map[ssa.Value]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		v = stripConv(v)
		if q := constRat(v); q != nil {
			m[q.RatString()] = true
			return
		}
		slot := loadSlot(v)
		if slot == "" {
			if x, ok := v.(*ssa.Field); ok {
				if s, st := structOf(x.X.Type()); s != nil {
					slot = fmt.Sprintf("F:%s.%d", typeKey(st), x.Field)
				}
			}
		}
		if slot != "" && d < 5 {
			n := 0
			for _, f := range c.p.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && slotAddr(s.Addr) == slot {
							walk(s.Val, d+1, seen)
							n++
						}
					}
				}
			}
			if n == 0 {
				m["0"] = true
			}
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, d, seen)
			}
			return
		case *ssa.Parameter:
			for _, a := range c.args(x) {
				walk(a, d+1, seen)
			}
			return
		}
		m["?"] = true
	}
	walk(v, depth, map[ssa.Value]bool{})
	return oneOf(m)
}

// frames: every PES written carries times stored for it, and the composition
// offset of its tag.
func (c *clock) frames(r *Report) {
	p := c.p
	write := func(in ssa.Instruction) bool {
		com := callOf(in)
		if com == nil {
			return false
		}
		f := com.StaticCallee()
		return f != nil && p.isRepoFunc(f) && f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), modPath+"/libmpeg", "TS") && errorIndex(f.Signature.Results()) >= 0 && f.Signature.Params().Len() > 2
	}
	kinds := func(v ssa.Value) string {
		s := c.get(v)
		k := ""
		for q := range s {
			t := ""
			switch q.kind {
			case 'P':
				t = "kP"
			case 'D', 'A':
				t = "kD"
			}
			if t == "" || k != "" && k != t {
				return ""
			}
			k = t
		}
		return k
	}
	wrote := map[ssa.Instruction]bool{}
	asserted := func(in ssa.Instruction) string {
		if t, ok := in.(*ssa.TypeAssert); ok {
			switch {
			case isNamed(t.AssertedType, modPath+"/libflv", "VideoTag"):
				return "v"
			case isNamed(t.AssertedType, modPath+"/libflv", "AudioTag"):
				return "a"
			}
		}
		return ""
	}
	pr := &PathRule{
		budget: 12000000,
		isEvent: func(in ssa.Instruction) bool {
			if s, ok := in.(*ssa.Store); ok && (slotAddr(s.Addr) == c.pesDTS || slotAddr(s.Addr) == c.pesPTS) {
				return true
			}
			if u, ok := in.(*ssa.UnOp); ok && loadSlot(u) == c.cts {
				return true
			}
			com := callOf(in)
			return write(in) || asserted(in) != "" || com != nil && calleeFull(com) == bcastRead
		},
	}
	pr.enter = func(f *ssa.Function) (yes, no bool) {
		return false, f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/libmpeg")
	}
	stale := func(px *PX, st *PState, in ssa.Instruction, what string) {
		if qget(st.q, "on") != "" && qget(st.q, what) == "" {
			px.report("stale|"+fname(in.Parent()), in, "%s uses the time of the previous frame", fname(in.Parent()))
		}
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		fn := fname(in.Parent())
		if com := callOf(in); com != nil && calleeFull(com) == bcastRead {
			q := qset(st.q, "dts", "", "pts", "", "cts", "", "tag", "", "did", "", "pid", "", "on", "1")
			return []POut{{q, nil, []AV{{k: avNonNil}, avBool(true)}}, {q, nil, []AV{{k: avNil}, avBool(false)}}}, true
		}
		if write(in) {
			if com := callOf(in); len(com.Args) > 1 {
				if mi, ok := com.Args[1].(*ssa.MakeInterface); ok && !isNamed(mi.X.Type(), modPath+"/libmpeg", "PES") {
					return failing(com, st.q, st.q), true
				}
			}
			wrote[in] = true
			switch {
			case qget(st.q, "dts") == "":
				px.report("frame|dts|"+fn, in, "%s writes a frame whose decoding time was not set for it", fn)
			case qget(st.q, "pts") == "":
				px.report("frame|pts|"+fn, in, "%s writes a frame whose presentation time was not set for it", fn)
			case qget(st.q, "tag") == "v" && qget(st.q, "cts") != "0":
				if qget(st.q, "pts") == "kP" {
					break
				}
				px.report("frame|cts|"+fn, in, "%s writes a video frame whose presentation time leaves out the composition offset", fn)
			case qget(st.q, "pts") != "kP" && qget(st.q, "pid") != qget(st.q, "did"):
				px.report("frame|apart|"+fn, in, "%s writes a frame without a composition offset whose presentation time is not its decoding time", fn)
			}
			return failing(callOf(in), st.q, st.q), true
		}
		if com := callOf(in); com != nil {
			for _, a := range com.Args {
				if slotAddr(a) == c.pesDTS {
					stale(px, st, in, "dts")
					st.q = qset(st.q, "did", "c"+strconv.Itoa(int(in.Pos())))
				}
			}
			return nil, false
		}
		if t := asserted(in); t != "" {
			st.q = qset(st.q, "tag", t)
			return nil, false
		}
		switch x := in.(type) {
		case *ssa.UnOp:
			switch loadSlot(x) {
			case c.cts:
				z, n := POut{qset(st.q, "cts", "0"), nil, []AV{{k: avConst, s: "0"}}}, POut{qset(st.q, "cts", "n"), nil, []AV{{k: avConst, s: "1"}}}
				switch qget(st.q, "cts") {
				case "0":
					return []POut{z}, true
				case "n":
					return []POut{n}, true
				}
				return []POut{z, n}, true
			case c.pesDTS:
				stale(px, st, in, "dts")
				return []POut{{st.q, nil, []AV{{tag: "kD#" + qget(st.q, "did")}}}}, true
			case c.pesPTS:
				stale(px, st, in, "pts")
				return []POut{{st.q, nil, []AV{{tag: qget(st.q, "pts") + "#" + qget(st.q, "pid")}}}}, true
			}
		case *ssa.BinOp:
			if t := kinds(x); t != "" && numeric(x.Type()) {
				return []POut{{st.q, nil, []AV{{tag: t}}}}, true
			}
		case *ssa.Store:
			t := px.val(st, x.Val).tag
			id := ""
			if i := strings.IndexByte(t, '#'); i >= 0 {
				t, id = t[:i], t[i+1:]
			}
			if t != "kP" && t != "kD" {
				if t = kinds(x.Val); t == "" {
					t = "?"
				}
			}
			if id == "" {
				id = "s" + strconv.Itoa(px.id(x.Val))
			}
			switch slotAddr(x.Addr) {
			case c.pesDTS:
				st.q = qset(st.q, "dts", "1", "did", id)
			case c.pesPTS:
				st.q = qset(st.q, "pts", t, "pid", id)
			}
		}
		return nil, false
	}
	px := newPX(p, r, pr)
	n := 0
	for _, f := range p.goRoots(func(f *ssa.Function) bool { return funcHas(f, write) }) {
		if f.Name() == "main" {
			continue
		}
		px.memo, px.Paths = map[string]*pSummary{}, 0
		px.Root(f, "", map[string]AV{}, nil)
		n += px.Paths
	}
	r.count("frame writing outcomes", n)
	r.count("frame writes", len(wrote))
	r.atLeast("frame writes", 1)
}

// pairs: the time and the bytes of a demuxed frame come from the same PES.
func (c *clock) pairs(r *Report) {
	for _, t := range []string{"AccessUnit", "AudioFrame"} {
		s, _ := structOf(c.p.namedType("libsrt", t))
		if s == nil {
			continue
		}
		data := ""
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Type().String() == "[]byte" {
				data = c.p.slot("libsrt", t, s.Field(i).Name())
			}
		}
		for _, tf := range []string{"PTS", "DTS"} {
			time := c.p.slot("libsrt", t, tf)
			if time == "" {
				continue
			}
			for _, f := range c.p.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok || slotAddr(st.Addr) != time {
							continue
						}
						tslot := loadSlot(st.Val)
						if tslot == "" {
							continue
						}
						bufs := map[string]bool{}
						for _, v := range storedIn(tagHolder(st.Addr), data) {
							for w := range backward(v) {
								if k := loadSlot(w); k != "" {
									bufs[k] = true
								}
							}
						}
						r.count("demuxed frames given a time", 1)
						if len(bufs) > 0 && !c.sameUnit(tslot, bufs) {
							r.find("pair|"+t+"."+tf, c.p.posOf(in), "%s gives a frame the %s of another PES than its bytes came from", fname(f), c.p.slotName(tslot))
						}
					}
				}
			}
		}
	}
	r.atLeast("demuxed frames given a time", 3)
}

// sameUnit: some function stores the time and, from the same header, the bytes.
func (c *clock) sameUnit(tslot string, bufs map[string]bool) bool {
	any := false
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || slotAddr(st.Addr) != tslot {
					continue
				}
				if constRat(st.Val) != nil {
					continue
				}
				ok = false
				src := map[ssa.Value]bool{}
				for w := range backward(st.Val) {
					if e, isE := w.(*ssa.Extract); isE {
						src[e.Tuple] = true
					}
				}
				for _, b2 := range f.Blocks {
					for _, in2 := range b2.Instrs {
						s2, is := in2.(*ssa.Store)
						if !is || !bufs[slotAddr(s2.Addr)] {
							continue
						}
						if len(src) == 0 {
							ok = true
						}
						for w := range backward(s2.Val) {
							if e, isE := w.(*ssa.Extract); isE && src[e.Tuple] {
								ok = true
							}
						}
					}
				}
				if !ok {
					return false
				}
				any = true
			}
		}
	}
	return any
}

func init() {
	register("C28", "other", func(p *Prog, r *Report) {
		r.Rule = "units-of-measure inference over the whole program"
		p.clocks(r)
	})
}

// paramIndex: which parameter of its function a value is, or -1.
func paramIndex(v ssa.Value) int {
	if x, ok := v.(*ssa.Parameter); ok {
		for i, q := range x.Parent().Params {
			if q == x {
				return i
			}
		}
	}
	return -1
}
