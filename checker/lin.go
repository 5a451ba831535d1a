package main

import (
	"fmt"
	"sort"
	"strings"
)

// Lin is a linear form c + sum t[i].k * atom(t[i].a), kept sorted by atom.
type term struct {
	a int
	k int64
}
type Lin struct {
	c  int64
	t  []term
	ok bool // false: not representable (overflow of the analysis' own arithmetic)
}

const linLimit = int64(1) << 61

func cst(c int64) Lin   { return Lin{c: c, ok: c < linLimit && c > -linLimit} }
func atomLin(a int) Lin { return Lin{t: []term{{a, 1}}, ok: true} }

func (l Lin) isConst() bool { return l.ok && len(l.t) == 0 }

func (l Lin) addScaled(m Lin, k int64) Lin {
	if !l.ok || !m.ok {
		return Lin{}
	}
	r := Lin{ok: true}
	mk, o := mulOK(m.c, k)
	if !o {
		return Lin{}
	}
	r.c = l.c + mk
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j >= len(m.t) || (i < len(l.t) && l.t[i].a < m.t[j].a):
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || m.t[j].a < l.t[i].a:
			v, o := mulOK(m.t[j].k, k)
			if !o {
				return Lin{}
			}
			if v != 0 {
				r.t = append(r.t, term{m.t[j].a, v})
			}
			j++
		default:
			v, o := mulOK(m.t[j].k, k)
			if !o {
				return Lin{}
			}
			s := l.t[i].k + v
			if s != 0 {
				r.t = append(r.t, term{l.t[i].a, s})
			}
			i++
			j++
		}
	}
	if r.c >= linLimit || r.c <= -linLimit {
		return Lin{}
	}
	return r
}
func (l Lin) add(m Lin) Lin { return l.addScaled(m, 1) }
func (l Lin) sub(m Lin) Lin { return l.addScaled(m, -1) }
func (l Lin) scale(k int64) Lin {
	return cst(0).addScaled(l, k)
}
func (l Lin) addc(c int64) Lin { return l.add(cst(c)) }

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || c >= linLimit || c <= -linLimit {
		return 0, false
	}
	return c, true
}

func (l Lin) coef(a int) int64 {
	for _, t := range l.t {
		if t.a == a {
			return t.k
		}
	}
	return 0
}

func (l Lin) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", l.c)
	for _, t := range l.t {
		fmt.Fprintf(&b, "|%d*%d", t.k, t.a)
	}
	return b.String()
}

// Cons is l >= 0, or l == 0.
type Cons struct {
	l  Lin
	eq bool
}

func ge0(l Lin) Cons { return Cons{l: l} }
func eq0(l Lin) Cons { return Cons{l: l, eq: true} }

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

// norm divides an inequality by the gcd of its coefficients (integers: the
// constant is rounded down).
func norm(l Lin) Lin {
	if len(l.t) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.t {
		g = gcd(g, t.k)
	}
	if g <= 1 {
		return l
	}
	r := Lin{ok: true, c: floorDiv(l.c, g)}
	for _, t := range l.t {
		r.t = append(r.t, term{t.a, t.k / g})
	}
	return r
}

// infeasible decides whether the conjunction has no integer solution (sound,
// incomplete): Gaussian elimination of equalities, then Fourier-Motzkin.
func infeasible(cons []Cons) bool {
	var eqs, ins []Lin
	for _, c := range cons {
		if !c.l.ok {
			continue
		}
		if c.eq {
			eqs = append(eqs, c.l)
		} else {
			ins = append(ins, c.l)
		}
	}
	for len(eqs) > 0 {
		e := eqs[0]
		eqs = eqs[1:]
		if len(e.t) == 0 {
			if e.c != 0 {
				return true
			}
			continue
		}
		g := int64(0)
		for _, t := range e.t {
			g = gcd(g, t.k)
		}
		if e.c%g != 0 {
			return true
		}
		if g > 1 {
			n := Lin{ok: true, c: e.c / g}
			for _, t := range e.t {
				n.t = append(n.t, term{t.a, t.k / g})
			}
			e = n
		}
		// pick a +-1 coefficient
		p := -1
		for i, t := range e.t {
			if t.k == 1 || t.k == -1 {
				p = i
				break
			}
		}
		if p < 0 {
			// keep as two inequalities
			ins = append(ins, e, e.scale(-1))
			continue
		}
		v, k := e.t[p].a, e.t[p].k
		sub := func(l Lin) Lin {
			c := l.coef(v)
			if c == 0 {
				return l
			}
			// l - (c/k) e
			return l.addScaled(e, -c*k)
		}
		for i := range eqs {
			eqs[i] = sub(eqs[i])
			if !eqs[i].ok {
				eqs[i] = cst(0)
			}
		}
		var n []Lin
		for _, l := range ins {
			if s := sub(l); s.ok {
				n = append(n, s)
			}
		}
		ins = n
	}
	return fm(ins)
}

func fm(ins []Lin) bool {
	for round := 0; round < 200; round++ {
		// dedupe, keep the strongest constant per coefficient vector
		best := map[string]Lin{}
		var order []string
		for _, l := range ins {
			if !l.ok {
				continue
			}
			l = norm(l)
			if len(l.t) == 0 {
				if l.c < 0 {
					return true
				}
				continue
			}
			k := Lin{t: l.t}.key()
			if o, ok := best[k]; !ok {
				best[k] = l
				order = append(order, k)
			} else if l.c < o.c {
				best[k] = l
			}
		}
		ins = ins[:0]
		for _, k := range order {
			ins = append(ins, best[k])
		}
		if len(ins) == 0 {
			return false
		}
		pos := map[int]int{}
		neg := map[int]int{}
		for _, l := range ins {
			for _, t := range l.t {
				if t.k > 0 {
					pos[t.a]++
				} else {
					neg[t.a]++
				}
			}
		}
		var vars []int
		for v := range pos {
			vars = append(vars, v)
		}
		for v := range neg {
			if pos[v] == 0 {
				vars = append(vars, v)
			}
		}
		sort.Ints(vars)
		bv, bc := -1, 1<<30
		for _, v := range vars {
			c := pos[v]*neg[v] - pos[v] - neg[v]
			if c < bc {
				bv, bc = v, c
			}
		}
		var ps, ns, rest []Lin
		for _, l := range ins {
			switch c := l.coef(bv); {
			case c > 0:
				ps = append(ps, l)
			case c < 0:
				ns = append(ns, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(ps)*len(ns)+len(rest) > 3000 {
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.coef(bv), -n.coef(bv)
				g := gcd(a, b)
				r := p.scale(b / g).add(n.scale(a / g))
				if r.ok {
					rest = append(rest, r)
				}
			}
		}
		ins = rest
	}
	return false
}
