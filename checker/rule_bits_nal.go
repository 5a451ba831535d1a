package main

// The layouts of RTP payloads, AVCC and WebSocket frames.

import (
	"go/types"
	"strconv"
)

var byteSlice = types.NewSlice(types.Typ[types.Uint8])

type brun struct {
	seg    string
	off, n int64
}

// pieces compares bytes with header bits followed by a known run.
func (c *bctx) pieces(key string, v bval, head *lay, want ...brun) {
	c.ok++
	s, ok := v.(bslice)
	if !ok {
		c.fail(key, "%s is not a byte string", key)
		return
	}
	items := c.m.items(c.st, s)
	if c.vague(items) {
		return
	}
	h := len(head.bits) / 8
	if len(items) < h {
		c.fail(key, "%s has no header of %d bytes", key, h)
		return
	}
	c.match(items[:h], head)
	if c.bad {
		return
	}
	// byte by byte
	var got []brun
	for _, it := range items[h:] {
		if it.b != nil {
			seg, k := byteAtom(it.b)
			got = append(got, brun{seg, k, 1})
			continue
		}
		o, n := c.m.fold(c.st, it.off), c.m.fold(c.st, it.n)
		if !o.isConst() || !n.isConst() {
			c.fail(key, "%s holds %s bytes of %s from %s", key, it.n, it.seg, it.off)
			return
		}
		if n.c > 0 {
			got = append(got, brun{it.seg, o.c, n.c})
		}
	}
	var m []brun
	for _, g := range got {
		if k := len(m) - 1; k >= 0 && m[k].seg == g.seg && m[k].off+m[k].n == g.off {
			m[k].n += g.n
			continue
		}
		m = append(m, g)
	}
	same := len(m) == len(want)
	for i := range m {
		same = same && m[i] == want[i]
	}
	if !same {
		c.fail(key, "after its header %s holds %v, it should hold %v", key, m, want)
	}
}

// byteAtom: the run and index a byte is a copy of.
func byteAtom(b bv) (string, int64) {
	if len(b) != 8 || b[0].a == "" {
		return "?", 0
	}
	a := b[0].a
	for i := range b {
		if b[i].a != a || b[i].k != i || b[i].neg {
			return "?", 0
		}
	}
	for i := len(a) - 1; i > 0; i-- {
		if a[i] == '[' && a[len(a)-1] == ']' {
			if n, err := strconv.ParseInt(a[i+1:len(a)-1], 10, 64); err == nil {
				return a[:i], n
			}
		}
	}
	return "?", 0
}

// elems of a slice of slices.
func (c *bctx) elemsOf(v bval, n int) []bval {
	s, ok := v.(bslice)
	if !ok {
		if _, isn := v.(bnil); !isn {
			c.undecided()
		}
		return nil
	}
	l := c.m.fold(c.st, s.n)
	if !l.isConst() || !s.off.isConst() {
		c.undecided()
		return nil
	}
	if int(l.c) != n {
		return nil
	}
	var out []bval
	for i := 0; i < n; i++ {
		out = append(out, c.m.load(c.st, s.obj+"["+strconv.FormatInt(s.off.c+int64(i), 10)+"]", byteSlice, "", s.obj))
	}
	return out
}

func (p *Prog) nalSpecs() []bspec {
	var out []bspec
	frag := func(fn string, hl, fl int, head func(c *bctx, first, last bool) *lay) {
		for _, q := range [][2]int{{10, 10}, {11, 10}, {20, 10}, {hl + 2*(10-fl), 10}} {
			n, mtu := q[0], q[1]
			what := strconv.Itoa(n) + " bytes in packets of " + strconv.Itoa(mtu)
			out = append(out, bspec{pkg: "librtsp", fn: fn, cases: []bcase{{what, []bassume{nameA("len(p0)", "eq", uint64(n)), nameA("p1", "eq", uint64(mtu))}}}, check: func(c *bctx) {
				k := 1
				if n > mtu {
					k = (n - hl + mtu - fl - 1) / (mtu - fl)
				}
				e := c.elemsOf(c.res[0], k)
				if e == nil {
					c.fail("packets", "a NAL unit is not cut into %d packets", k)
					return
				}
				if n <= mtu {
					c.pieces("a single NAL unit", e[0], &lay{}, brun{"p0", 0, int64(n)})
					return
				}
				at := hl
				for i := range e {
					w := mtu - fl
					if at+w > n {
						w = n - at
					}
					c.pieces("a fragment", e[i], head(c, i == 0, at+w == n), brun{"p0", int64(at), int64(w)})
					if c.bad {
						return
					}
					at += w
				}
			}})
		}
	}
	b := func(x bool) uint64 { return b2u(x) }
	frag("PackNAL", 1, 2, func(c *bctx, first, last bool) *lay {
		h := c.byteOf("p0", 0)
		return (&lay{}).skip("F", 1).u("NRI", h[5:7], 2).c("type 28", 28, 5).c("start", b(first), 1).c("end", b(last), 1).c("reserved", 0, 1).u("type", h[:5], 5)
	})
	frag("PackHEVCNAL", 2, 3, func(c *bctx, first, last bool) *lay {
		h0, h1 := c.byteOf("p0", 0), c.byteOf("p0", 1)
		return (&lay{}).u("F", h0[7:], 1).c("type 49", 49, 6).u("layer, TID", h0[:1], 1).u("layer, TID", h1, 8).c("start", b(first), 1).c("end", b(last), 1).u("type", h0[1:7], 6)
	})
	out = append(out, bspec{pkg: "librtsp", fn: "AVCCFromNALs", cases: []bcase{{"two NAL units", []bassume{nameA("len(p0)", "eq", 2), nameA("len(p0[0])", "eq", 5), nameA("len(p0[1])", "eq", 3)}}}, check: func(c *bctx) {
		it := c.bytesOf(c.res[0])
		l := (&lay{}).c("length of a NAL unit", 5, 32).seg("the first NAL unit", bslice{"p0[0]", linC(0), c.m.lenOf("p0[0]")}).c("length of a NAL unit", 3, 32).seg("the second NAL unit", bslice{"p0[1]", linC(0), c.m.lenOf("p0[1]")})
		c.match(it, l)
	}})
	at := func(obj string, vals ...uint64) []bassume {
		var as []bassume
		for i, v := range vals {
			if v < 256 {
				as = append(as, nameA(obj+"["+strconv.Itoa(i)+"]", "eq", v))
			}
		}
		return as
	}
	const x = 256
	split := at("p0", 0, 0, 0, 5, x, x, x, x, x, 0, 0, 0, 3)
	out = append(out, bspec{pkg: "librtsp", fn: "SplitAVCC", cases: []bcase{{"two NAL units", append(split, nameA("len(p0)", "eq", 16))}}, check: func(c *bctx) {
		e := c.elemsOf(c.res[0], 2)
		if e == nil {
			c.fail("units", "two NAL units are not split in two")
			return
		}
		c.pieces("the first NAL unit", e[0], &lay{}, brun{"p0", 4, 5})
		c.pieces("the second NAL unit", e[1], &lay{}, brun{"p0", 13, 3})
	}})
	out = append(out, bspec{pkg: "librtsp", fn: "AACAUExtract", cases: []bcase{{"two AUs", append(at("p0", 0, 32, 0, 5<<3, 0, 3<<3), nameA("len(p0)", "eq", 14))}}, check: func(c *bctx) {
		e := c.elemsOf(c.res[0], 2)
		if e == nil {
			c.fail("units", "two access units are not split in two")
			return
		}
		c.pieces("the first access unit", e[0], &lay{}, brun{"p0", 6, 5})
		c.pieces("the second access unit", e[1], &lay{}, brun{"p0", 11, 3})
	}})
	out = append(out, bspec{pkg: "librtsp", fn: "ParseRTP", cases: []bcase{{"plain", []bassume{maskA("p0[0]", 0x3f, 0), nameA("len(p0)", "eq", 100)}}, {"two CSRCs", []bassume{maskA("p0[0]", 0x3f, 2), nameA("len(p0)", "eq", 100)}}, {"an extension", append(at("p0", x, x, x, x, x, x, x, x, x, x, x, x, x, x, 0, 2), maskA("p0[0]", 0x3f, 0x10), nameA("len(p0)", "eq", 100))}, {"padding", []bassume{maskA("p0[0]", 0x3f, 0x20), nameA("len(p0)", "eq", 100), nameA("p0[(len(p0)-1)]", "eq", 4), nameA("p0[99]", "eq", 4)}}}, check: func(c *bctx) {
		t := c.f.Signature.Results().At(0).Type()
		get := func(n string) bval { return c.now(c.res[0], t, n) }
		c.same("PayloadType", get("PayloadType"), c.byteOf("p0", 1)[:7])
		c.same("Marker", get("Marker"), c.byteOf("p0", 1)[7:])
		c.same("SequenceNum", get("SequenceNum"), c.be("p0", 2, 2))
		c.same("Timestamp", get("Timestamp"), c.be("p0", 4, 4))
		c.same("SSRC", get("SSRC"), c.be("p0", 8, 4))
		off, n := int64(12), int64(88)
		switch c.what {
		case "two CSRCs":
			off, n = 20, 80
		case "an extension":
			off, n = 24, 76
		case "padding":
			n = 84
		}
		c.pieces("the payload", get("Payload"), &lay{}, brun{"p0", off, n})
	}})
	pl := p.lenName("librtsp", "RTPPacket", "Payload")
	pay := "p1" + pl[len("len(p0"):len(pl)-1]
	plen := func(n uint64) bassume { return nameA("len("+pay+")", "eq", n) }
	szlo := hiA(p.slot("librtsp", "H264Reassembler", "size"), 1000)
	mk := func(v uint64) bassume { return eqA(p.slot("librtsp", "RTPPacket", "Marker"), v) }
	pend := nameA(p.lenName("librtsp", "H264Reassembler", "pending"), "eq", 0)
	var cases []bcase
	cases = append(cases, bcase{"a single NAL unit", []bassume{maskA(pay+"[0]", 31, 5), plen(20), szlo, mk(1), pend}})
	cases = append(cases, bcase{"the first fragment", []bassume{maskA(pay+"[0]", 31, 28), maskA(pay+"[1]", 0xc0, 0x80), plen(20), szlo, mk(0), pend}})
	cases = append(cases, bcase{"two aggregated NAL units", append(at(pay, 24, 0, 5, x, x, x, x, x, 0, 3), plen(13), szlo, mk(1), pend)})
	out = append(out, bspec{pkg: "librtsp", recv: "H264Reassembler", fn: "Push", cases: cases, check: func(c *bctx) {
		t := c.f.Params[0].Type()
		h := c.byteOf(pay, 0)
		switch c.what {
		case "a single NAL unit":
			e := c.elemsOf(c.res[0], 1)
			if e == nil {
				c.fail("units", "a single NAL unit does not come out")
				return
			}
			c.pieces("a NAL unit", e[0], (&lay{}).u("header", h, 8), brun{pay, 1, 19})
			c.same("timestamp", c.res[1], c.was(1, "Timestamp"))
		case "two aggregated NAL units":
			e := c.elemsOf(c.res[0], 2)
			if e == nil {
				c.fail("units", "two aggregated NAL units do not come out")
				return
			}
			c.pieces("the first NAL unit", e[0], &lay{}, brun{pay, 3, 5})
			c.pieces("the second NAL unit", e[1], &lay{}, brun{pay, 10, 3})
		case "the first fragment":
			c.pieces("what is kept of the first fragment", c.now(c.args[0], t, "fuBuf"), (&lay{}).u("F, NRI", h[5:], 3).u("type", c.byteOf(pay, 1)[:5], 5), brun{pay, 2, 18})
		}
	}})

	// WebSocket
	ws := func(n string, lo, hi uint64) bcase {
		return bcase{n, []bassume{nameA("len(p2)", "lo", lo), nameA("len(p2)", "hi", hi)}}
	}
	out = append(out, bspec{pkg: "librtmp", recv: "wsConn", fn: "writeFrame", cases: []bcase{ws("a short frame", 1, 125), ws("a frame of 126 bytes or more", 126, 65535), ws("a frame of 65536 bytes or more", 65536, 1<<40)}, check: func(c *bctx) {
		op := c.arg(1)
		l := (&lay{}).c("FIN", 1, 1)
		for i := 6; i >= 0; i-- {
			if i >= 4 {
				// opcodes have four bits
				l.skip("reserved", 1)
			} else {
				l.u("opcode", op[i:i+1], 1)
			}
		}
		n := c.m.bits(c.m.lenOf("p2"), 64)
		switch c.what {
		case "a short frame":
			l.c("not masked", 0, 1).u("length", n, 7)
		case "a frame of 126 bytes or more":
			l.c("16-bit length", 126, 8).u("length", n, 16)
		default:
			l.c("64-bit length", 127, 8).u("length", n, 64)
		}
		c.match(c.st.out, l.seg("the payload", bslice{"p2", linC(0), c.m.lenOf("p2")}))
	}})
	out = append(out, bspec{pkg: "librtmp", recv: "wsConn", fn: "readFrame", cases: []bcase{{"a short frame", []bassume{maskA("in[0]", 0x80, 0x80), nameA("in[1]", "eq", 20)}}, {"a 16-bit length", append(at("in", x, 126, 1, 44), maskA("in[0]", 0x80, 0x80))}, {"a 64-bit length", append(at("in", x, 127, 0, 0, 0, 0, 0, 1, 1, 2), maskA("in[0]", 0x80, 0x80))}}, check: func(c *bctx) {
		c.same("opcode", c.res[0], c.byteOf("in", 0)[:4])
		off, n := int64(2), int64(20)
		switch c.what {
		case "a 16-bit length":
			off, n = 4, 300
		case "a 64-bit length":
			off, n = 10, 65794
		}
		c.pieces("the payload", c.res[1], &lay{}, brun{"in", off, n})
	}})
	out = append(out, bspec{pkg: "librtmp", fn: "buildAVCSequenceHeader", cases: []bcase{{"AVC", []bassume{nameA("len(p0)", "lo", 4), nameA("len(p0)", "hi", 65535), nameA("len(p1)", "hi", 65535)}}}, check: func(c *bctx) {
		sps, pps := bslice{"p0", linC(0), c.m.lenOf("p0")}, bslice{"p1", linC(0), c.m.lenOf("p1")}
		l := (&lay{}).c("version", 1, 8).u("profile and level", c.be("p0", 1, 3), 24).c("reserved", 63, 6).c("length size", 3, 2).c("reserved", 7, 3).c("SPS", 1, 5)
		l.u("SPS length", c.m.res(c.st, c.m.bits(sps.n, 16)), 16).seg("SPS", sps).c("PPS", 1, 8).u("PPS length", c.m.res(c.st, c.m.bits(pps.n, 16)), 16).seg("PPS", pps)
		c.match(c.bytesOf(c.res[0]), l)
	}})
	return out
}
