package main

// The parsers of libmpeg, and how a PES packet is cut into transport
// packets.

import (
	"go/token"
	"strconv"
)

// bvAtom: the atom a single bit is.
func bvAtom(b bv) string {
	if len(b) != 1 || b[0].neg || b[0].k != 0 {
		return ""
	}
	return b[0].a
}

func (p *Prog) psiSpecs() []bspec {
	var out []bspec
	get := func(c *bctx, n string) bval { return c.now(c.args[0], c.f.Params[0].Type(), n) }
	in := func(c *bctx, i int) bv { return c.byteOf("in", i) }
	stamp := func(c *bctx, at int) bv {
		var x bv
		x = append(x, in(c, at+4)[1:8]...)
		x = append(x, in(c, at+3)...)
		x = append(x, in(c, at+2)[1:8]...)
		x = append(x, in(c, at+1)...)
		return append(x, in(c, at)[1:4]...)
	}
	out = append(out, bspec{pkg: "libmpeg", recv: "TS", fn: "DeMux", cases: []bcase{{"payload only", []bassume{maskA("in[3]", 0x20, 0), maskA("in[1]", 0x40, 0)}}}, check: func(c *bctx) {
		c.same("SyncByte", get(c, "SyncByte"), in(c, 0))
		c.same("TransportErrorIndicator", get(c, "TransportErrorIndicator"), in(c, 1)[7:])
		c.same("PayloadUnitStartIndicator", get(c, "PayloadUnitStartIndicator"), in(c, 1)[6:7])
		c.same("TransportPriority", get(c, "TransportPriority"), in(c, 1)[5:6])
		c.same("PID", get(c, "PID"), append(append(bv{}, in(c, 2)...), in(c, 1)[:5]...))
		c.same("TransportScramblingControl", get(c, "TransportScramblingControl"), in(c, 3)[6:])
		c.same("AdaptationFieldExist", get(c, "AdaptationFieldExist"), in(c, 3)[4:6])
		c.same("ContinuityCounter", get(c, "ContinuityCounter"), in(c, 3)[:4])
	}})
	flags := []string{"AdaptationFieldExtensionFlag", "TransportPrivateDataFlag", "SplicingPointFlag", "OPCRFlag", "PCRFlag", "ElementaryStreamPriority", "RandomAccessIndicator", "DiscontinuityIndicator"}
	out = append(out, bspec{pkg: "libmpeg", recv: "AdaptationField", fn: "Parse", cases: []bcase{{"flags", []bassume{nameA("in[0]", "lo", 1), maskA("in[1]", 0x1f, 0)}}, {"both clocks", []bassume{nameA("in[0]", "lo", 13), maskA("in[1]", 0x1f, 0x18)}}, {"a splicing point", []bassume{nameA("in[0]", "lo", 2), maskA("in[1]", 0x1f, 4)}}}, check: func(c *bctx) {
		c.same("AdaptationFieldLength", get(c, "AdaptationFieldLength"), in(c, 0))
		for i, n := range flags {
			c.same(n, get(c, n), in(c, 1)[i:i+1])
		}
		pcr := func(at int) bv {
			x := append(bv{}, in(c, at+4)[7])
			for i := 3; i >= 0; i-- {
				x = append(x, in(c, at+i)...)
			}
			return x
		}
		switch c.what {
		case "both clocks":
			c.same("ProgramClockReferenceBase", get(c, "ProgramClockReferenceBase"), pcr(2))
			c.same("ProgramClockReferenceExtension", get(c, "ProgramClockReferenceExtension"), append(append(bv{}, in(c, 7)...), in(c, 6)[0]))
			c.same("OriginalProgramClockReferenceBase", get(c, "OriginalProgramClockReferenceBase"), pcr(8))
			c.same("OriginalProgramClockReferenceExtension", get(c, "OriginalProgramClockReferenceExtension"), append(append(bv{}, in(c, 13)...), in(c, 12)[0]))
		case "a splicing point":
			c.same("SpliceCountdown", get(c, "SpliceCountdown"), in(c, 2))
		}
	}})
	for _, f := range []uint64{0, 0x80, 0xc0} {
		f := f
		out = append(out, bspec{pkg: "libmpeg", recv: "PES", fn: "Parse", cases: []bcase{{"flags " + strconv.Itoa(int(f)), []bassume{nameA("in[3]", "eq", 0xe0), nameA("in[7]", "eq", f)}}}, check: func(c *bctx) {
			c.same("PacketStartCodePrefix", get(c, "PacketStartCodePrefix"), c.be("in", 0, 3))
			c.same("StreamID", get(c, "StreamID"), in(c, 3))
			c.same("PESPacketLength", get(c, "PESPacketLength"), c.be("in", 4, 2))
			c.same("PESHeaderDataLength", get(c, "PESHeaderDataLength"), in(c, 8))
			if f >= 0x80 {
				c.same("PTS", get(c, "PTS"), stamp(c, 9))
			}
			if f == 0xc0 {
				c.same("DTS", get(c, "DTS"), stamp(c, 14))
			}
		}})
	}
	for _, tb := range []string{"PAT", "PMT"} {
		tb := tb
		n, id := 8, uint64(0)
		if tb == "PMT" {
			n, id = 12, 2
		}
		as := []bassume{nameA("in[0]", "eq", id), nameA("in[1]", "eq", 0xb0), nameA("in[2]", "eq", 13)}
		if tb == "PMT" {
			as = append(as, nameA("in[2]", "eq", 13), nameA("in[10]", "eq", 0xf0), nameA("in[11]", "eq", 0))
		}
		_ = n
		out = append(out, bspec{pkg: "libmpeg", recv: tb, fn: "Parse", cases: []bcase{{"one section", as}}, calls: func(c *bctx) func(*bstate, string, []bval) (bval, bool) {
			return func(st *bstate, full string, args []bval) (bval, bool) {
				if full == modPath+"/libmpeg.CRC32" {
					return c.m.atom(st, "crc", 32, "", ""), true
				}
				return nil, false
			}
		}, check: func(c *bctx) {
			c.same("TableID", get(c, "TableID"), in(c, 0))
			c.same("SectionSyntaxIndicator", get(c, "SectionSyntaxIndicator"), in(c, 1)[7:])
			c.same("SectionLength", get(c, "SectionLength"), append(append(bv{}, in(c, 2)...), in(c, 1)[:4]...))
			if tb == "PAT" {
				c.same("TransportStreamID", get(c, "TransportStreamID"), c.be("in", 3, 2))
			} else {
				c.same("ProgramNumber", get(c, "ProgramNumber"), c.be("in", 3, 2))
				c.same("PCR_PID", get(c, "PCR_PID"), append(append(bv{}, in(c, 9)...), in(c, 8)[:5]...))
				c.same("ProgramInfoLength", get(c, "ProgramInfoLength"), append(append(bv{}, in(c, 11)...), in(c, 10)[:4]...))
			}
			c.same("VersionNumber", get(c, "VersionNumber"), in(c, 5)[1:6])
			c.same("CurrentNextIndicator", get(c, "CurrentNextIndicator"), in(c, 5)[:1])
			c.same("SectionNumber", get(c, "SectionNumber"), in(c, 6))
			c.same("LastSectionNumber", get(c, "LastSectionNumber"), in(c, 7))
			// nothing of the section is left unread
			c.ok++
			if want := linC(16); !linEq(c.st.in, want) {
				c.fail("length", "of a section of 16 bytes %s are read", c.st.in)
			}
		}})
	}

	hdr, data := p.lenName("libmpeg", "PES", "HeaderData"), p.lenName("libmpeg", "PES", "Data")
	hi, di := p.slot("libmpeg", "PES", "HeaderIndex"), p.slot("libmpeg", "PES", "Index")
	as := []bassume{nameA(hdr, "hi", 256), nameA(data, "hi", 1<<30), hiA(hi, 256), hiA(di, 1<<30)}
	out = append(out, bspec{pkg: "libmpeg", recv: "PES", fn: "Marshal", cases: []bcase{{"any part", as}}, check: func(c *bctx) {
		t := c.f.Params[0].Type()
		runs := c.st.out
		total := linC(0)
		part := func(name, index string) (full bool, ran bool) {
			q, _, _ := fieldPath(t, name)
			was := c.m.lin(c.was(0, index))
			now := c.m.lin(c.m.bvOf(c.st, c.now(c.args[0], t, index), nil64))
			n := linC(0)
			if len(runs) > 0 && runs[0].b == nil && runs[0].seg == "p0"+q {
				if !linEq(runs[0].off, was) {
					c.fail(name, "%s is written from %s, not from where it was left", name, runs[0].off)
				}
				n = runs[0].n
				runs = runs[1:]
				ran = true
			}
			total = total.add(n, 1)
			if now == nil || was == nil || !linEq(c.m.norm(now, 64), c.m.norm(was.add(n, 1), 64)) {
				c.fail(index, "after %s bytes of %s its index is %s", n, name, now)
			}
			full = linEq(n, c.m.lenOf("p0"+q).add(was, -1))
			return
		}
		hf, hr := part("HeaderData", "HeaderIndex")
		df, dr := part("Data", "Index")
		if len(runs) != 0 {
			c.fail("parts", "what is written is not the rest of the header and then the rest of the data")
			return
		}
		if hr && !hf && dr {
			c.fail("parts", "data are written before the end of the header")
		}
		if x, ok := c.res[0].(bv); ok && len(runs) == 0 && (hr || dr) {
			c.same("bytes written", x, c.m.bits(total, 64))
		}
		fin, ok := c.m.bvOf(c.st, c.res[1], nil).konst()
		if cd, isc := c.m.conds[bvAtom(c.m.bvOf(c.st, c.res[1], nil))]; !ok && isc && cd.op == token.EQL {
			// by definition: the index is at the end
			q, _, _ := fieldPath(t, "Data")
			d, e := c.m.lin(cd.x), c.m.lin(cd.y)
			now := c.m.lin(c.m.bvOf(c.st, c.now(c.args[0], t, "Index"), nil64))
			if d != nil && e != nil && now != nil {
				d, now = d.add(e, -1), now.add(c.m.lenOf("p0"+q), -1)
				if linEq(d, now) || linEq(d, linC(0).add(now, -1)) {
					return
				}
			}
		}
		if !ok {
			c.fail("finish", "whether the packet is finished is not known")
			return
		}
		done := (!hr || hf) && (!dr || df)
		if (fin == 1) != done {
			c.fail("finish", "a packet that is %s counts as finished, or the other way round", map[bool]string{true: "finished", false: "not finished"}[done])
		}
	}})
	return out
}
