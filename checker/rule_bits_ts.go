package main

// The layouts of SRT, MPEG-TS, ADTS, RTMP control messages and fMP4.

import (
	"fmt"
	"go/token"
	"strconv"
	"strings"
)

func (p *Prog) srtSpecs() []bspec {
	var out []bspec
	dst := func(c *bctx) []bitem {
		s := c.m.toSlice(c.st, c.args[0])
		return c.m.items(c.st, bslice{s.obj, s.off, linC(16)})
	}
	long := []bcase{{"a buffer that is long enough", []bassume{nameA("len(p0)", "lo", 16)}}}
	out = append(out, bspec{pkg: "libsrt", fn: "MarshalDataHeader", cases: long, check: func(c *bctx) {
		c.match(dst(c), (&lay{}).c("data packet", 0, 1).u("sequence number", c.arg(1), 31).u("message info", c.arg(2), 32).u("timestamp", c.arg(3), 32).u("destination socket", c.arg(4), 32))
	}})
	out = append(out, bspec{pkg: "libsrt", fn: "MarshalControlHeader", cases: long, check: func(c *bctx) {
		c.match(dst(c), (&lay{}).c("control packet", 1, 1).u("control type", c.arg(1), 15).u("subtype", c.arg(2), 16).u("type-specific information", c.arg(3), 32).u("timestamp", c.arg(4), 32).u("destination socket", c.arg(5), 32))
	}})
	out = append(out, bspec{pkg: "libsrt", fn: "ParseHeader", cases: []bcase{{"data", []bassume{maskA("p0[0]", 0x80, 0)}}, {"control", []bassume{maskA("p0[0]", 0x80, 0x80)}}}, check: func(c *bctx) {
		t := c.f.Signature.Results().At(0).Type()
		get := func(n string) bval { return c.now(c.res[0], t, n) }
		c.same("Timestamp", get("Timestamp"), c.be("p0", 8, 4))
		c.same("DestSocketID", get("DestSocketID"), c.be("p0", 12, 4))
		if c.what == "data" {
			c.same("Kind", get("Kind"), bvConst(0, 8))
			c.same("SeqNumber", get("SeqNumber"), c.be("p0", 0, 4)[:31])
			c.same("MessageInfo", get("MessageInfo"), c.be("p0", 4, 4))
		} else {
			c.same("Kind", get("Kind"), bvConst(1, 8))
			c.same("ControlType", get("ControlType"), c.be("p0", 0, 2)[:15])
			c.same("SubType", get("SubType"), c.be("p0", 2, 2))
			c.same("TypeInfo", get("TypeInfo"), c.be("p0", 4, 4))
		}
		c.sameSlice("the body", c.res[1], "p0", linC(16), c.m.lenOf("p0").add(linC(16), -1))
	}})
	hs := []struct {
		n string
		w int
	}{{"Version", 32}, {"EncryptionField", 16}, {"ExtensionField", 16}, {"InitialSequence", 32}, {"MaxPacketSize", 32}, {"MaxFlowWindow", 32}, {"HandshakeType", 32}, {"SrtSocketID", 32}, {"SyncCookie", 32}}
	out = append(out, bspec{pkg: "libsrt", recv: "Handshake", fn: "Marshal", check: func(c *bctx) {
		l := &lay{}
		for _, f := range hs {
			l.u(f.n, c.was(0, f.n), f.w)
		}
		q, _, _ := fieldPath(c.f.Params[0].Type(), "PeerIP")
		for i := 0; i < 16; i++ {
			l.u("PeerIP", c.byteOf("p0"+q, i), 8)
		}
		c.match(c.bytesOf(c.res[0]), l)
	}})
	out = append(out, bspec{pkg: "libsrt", fn: "ParseHandshake", check: func(c *bctx) {
		t := c.f.Signature.Results().At(0).Type()
		at := 0
		for _, f := range hs {
			c.same(f.n, c.now(c.res[0], t, f.n), c.be("p0", at, f.w/8))
			at += f.w / 8
		}
		if b, ok := c.now(c.res[0], t, "PeerIP").(bstruct); ok {
			for i := 0; i < 16; i++ {
				c.same("PeerIP", c.m.byteAt(c.st, b.at, i), c.byteOf("p0", at+i))
			}
		}
	}})
	out = append(out, bspec{pkg: "libsrt", recv: "ACKBody", fn: "Marshal", check: func(c *bctx) {
		l := &lay{}
		for _, n := range []string{"LastAckedSeq", "RTT", "RTTVariance", "AvailableBuffer", "ReceivingRate", "LinkCapacity", "ReceivingBytes"} {
			l.u(n, c.was(0, n), 32)
		}
		c.match(c.bytesOf(c.res[0]), l)
	}})
	out = append(out, bspec{pkg: "libsrt", fn: "MarshalNAK", cases: []bcase{{"one range", []bassume{nameA("len(p0)", "eq", 1)}}, {"two ranges", []bassume{nameA("len(p0)", "eq", 2)}}}, check: func(c *bctx) {
		n := 1
		if c.what == "two ranges" {
			n = 2
		}
		l := &lay{}
		fs, ts := p.slot("libsrt", "LossRange", "From"), p.slot("libsrt", "LossRange", "To")
		for i := 0; i < n; i++ {
			b := "p0[" + strconv.Itoa(i) + "]"
			from := c.m.atom(c.st, b+".0", 32, fs, b)
			to := c.m.atom(c.st, b+".1", 32, ts, b)
			one, known := c.m.decide(c.st, token.EQL, from, to, false)
			if !known {
				c.fail("range", "whether a range is a single packet is not looked at")
				return
			}
			if one {
				l.c("single", 0, 1).u("sequence number", from, 31)
			} else {
				l.c("range", 1, 1).u("first", from, 31).c("last", 0, 1).u("last", to, 31)
			}
		}
		c.match(c.bytesOf(c.res[0]), l)
	}})
	return out
}

func (p *Prog) tsSpecs() []bspec {
	var out []bspec
	sid := p.slot("libmpeg", "PES", "StreamID")
	idx := p.slot("libmpeg", "PES", "Index")
	dataLen := p.lenName("libmpeg", "PES", "Data")
	stamp := func(l *lay, mark uint64, x bv) {
		l.c("marker", mark, 4).u("timestamp 32-30", x[30:], 3).c("marker bit", 1, 1).u("timestamp 29-15", x[15:], 15).c("marker bit", 1, 1).u("timestamp 14-0", x, 15).c("marker bit", 1, 1)
	}
	out = append(out, bspec{pkg: "libmpeg", recv: "PES", fn: "Remain", cases: []bcase{{"video", []bassume{eqA(sid, 0xe0), eqA(idx, 0), nameA(dataLen, "hi", 65000)}}, {"long video", []bassume{eqA(sid, 0xe0), eqA(idx, 0), nameA(dataLen, "lo", 65536), nameA(dataLen, "hi", 1<<30)}}, {"audio", []bassume{eqA(sid, 0xc0), eqA(idx, 0), nameA(dataLen, "hi", 65000)}}}, check: func(c *bctx) {
		h := c.now(c.args[0], c.f.Params[0].Type(), "HeaderData")
		it := c.bytesOf(h)
		pts, dts := c.was(0, "PTS"), c.was(0, "DTS")
		if len(it) < 9 || it[7].b == nil {
			c.fail("length", "a PES header has %d bytes", len(it))
			return
		}
		fl, ok := it[7].b.konst()
		if !ok {
			c.fail("flags", "the flags of a PES header are not known")
			return
		}
		n := linC(8)
		both := fl == 0xc0
		if both {
			n = linC(13)
		} else if eq, known := c.m.decide(c.st, token.EQL, pts, dts, false); !known || !eq {
			c.fail("flags", "only the PTS is written although the DTS may differ")
			return
		}
		data := c.wasSlice(0, "Data")
		size := c.m.res(c.st, c.m.bits(data.n.add(n, 1), 64))
		l := (&lay{}).u("start code prefix", c.was(0, "PacketStartCodePrefix"), 24).u("stream id", c.was(0, "StreamID"), 8)
		if c.what == "long video" {
			l.c("packet length", 0, 16)
		} else {
			l.u("packet length", size, 16)
		}
		l.c("marker, scrambling, priority", 0x80, 8)
		if both {
			l.c("flags", 0xc0, 8).c("header length", 10, 8)
			stamp(l, 3, pts)
			stamp(l, 1, dts)
		} else {
			l.c("flags", 0x80, 8).c("header length", 5, 8)
			stamp(l, 2, pts)
		}
		c.match(it, l)
		c.same("what remains", c.res[0], c.m.bits(data.n.add(linC(int64(len(it))), 1), 64))
	}})
	// the demultiplexer's view of the same header
	flags := []bcase{}
	for _, f := range []uint64{0x80, 0xc0, 0} {
		flags = append(flags, bcase{"flags " + strconv.Itoa(int(f)), []bassume{maskA("p0[7]", 0xc0, f), nameA("p0[0]", "eq", 0), nameA("p0[1]", "eq", 0), nameA("p0[2]", "eq", 1)}})
	}
	read := func(c *bctx, at int) bv {
		b := func(i int) bv { return c.byteOf("p0", at+i) }
		var x bv
		x = append(x, b(4)[1:8]...)
		x = append(x, b(3)...)
		x = append(x, b(2)[1:8]...)
		x = append(x, b(1)...)
		return append(x, b(0)[1:4]...)
	}
	out = append(out, bspec{pkg: "libsrt", fn: "parsePESHeader", cases: flags, check: func(c *bctx) {
		if ok, is := c.res[3].(bv); !is || ok[0] != bit1 {
			return
		}
		pts, dts := bvConst(0, 64), bvConst(0, 64)
		switch c.what {
		case "flags 128":
			pts, dts = read(c, 9), read(c, 9)
		case "flags 192":
			pts, dts = read(c, 9), read(c, 14)
		}
		c.same("pts", c.res[0], pts)
		c.same("dts", c.res[1], dts)
		off := c.m.lin(zext(c.byteOf("p0", 8), 64)).add(linC(9), 1)
		c.sameSlice("the body", c.res[2], "p0", off, c.m.lenOf("p0").add(off, -1))
	}})

	al := p.slot("libmpeg", "AdaptationField", "AdaptationFieldLength")
	pcr := p.slot("libmpeg", "AdaptationField", "PCRFlag")
	out = append(out, bspec{pkg: "libmpeg", recv: "AdaptationField", fn: "Marshal", cases: []bcase{
		{"empty", []bassume{eqA(al, 0)}}, {"flags only", []bassume{loA(al, 1), hiA(al, 183), eqA(pcr, 0)}}, {"with PCR", []bassume{loA(al, 7), hiA(al, 183), eqA(pcr, 1)}}}, check: func(c *bctx) {
		l := &lay{}
		l.u("adaptation field length", c.was(0, "AdaptationFieldLength"), 8)
		k := 1
		if c.what != "empty" {
			for _, n := range []string{"DiscontinuityIndicator", "RandomAccessIndicator", "ElementaryStreamPriority", "PCRFlag", "OPCRFlag", "SplicingPointFlag", "TransportPrivateDataFlag", "AdaptationFieldExtensionFlag"} {
				l.u(n, c.was(0, n), 1)
			}
			k = 2
		}
		if c.what == "with PCR" {
			l.u("PCR base", c.was(0, "ProgramClockReferenceBase"), 33).c("reserved", 0x3f, 6).u("PCR extension", c.was(0, "ProgramClockReferenceExtension"), 9)
			k = 8
		}
		if len(c.st.out) < k {
			c.fail("length", "an adaptation field has %d bytes", len(c.st.out))
			return
		}
		c.match(c.st.out[:k], l)
		for _, it := range c.st.out[k:] {
			if v, ok := it.b.konst(); it.b == nil || !ok || v != 0xff {
				c.fail("stuffing", "an adaptation field is stuffed with something other than 0xff")
				return
			}
		}
		c.same("bytes written", c.res[0], c.m.bits(c.m.lin(c.was(0, "AdaptationFieldLength")).add(linC(1), 1), 8))
	}})
	pid := p.slot("libmpeg", "TS", "PID")
	var tc []bcase
	for _, w := range []struct {
		n string
		v uint64
	}{{"PAT", 0}, {"PMT", 0x1001}, {"video", 0x100}, {"audio", 0x101}} {
		tc = append(tc, bcase{w.n, []bassume{eqA(pid, w.v), eqA(p.slot("libmpeg", "TS", "AdaptationFieldExist"), 1), nameA("remain", "hi", 1<<30)}})
	}
	out = append(out, bspec{pkg: "libmpeg", recv: "TS", fn: "Mux", cases: tc, calls: func(c *bctx) func(*bstate, string, []bval) (bval, bool) {
		return func(st *bstate, full string, args []bval) (bval, bool) {
			if strings.HasSuffix(full, "libmpeg.AdaptationField).Marshal") {
				st.out = append(st.out, bitem{seg: "adaptation", off: linC(0), n: c.m.lenOf("adaptation")})
				return btuple{c.m.atom(st, "adaptation length", 8, "", ""), bnil{}}, true
			}
			if strings.HasSuffix(full, "libmpeg.Fill0XFF") {
				st.out = append(st.out, bitem{seg: "stuffing", off: linC(0), n: c.m.lin(c.m.bvOf(st, args[1], nil64))})
				return bnil{}, true
			}
			if full == "I:Remain" {
				return zextAtom(c.m, st, "remain"), true
			}
			if full == "I:Marshal" {
				st.out = append(st.out, bitem{seg: "payload", off: linC(0), n: c.m.lenOf("payload")})
				return btuple{zextAtom(c.m, st, "payload length"), c.m.atom(st, "finish", 1, "", ""), bnil{}}, true
			}
			return nil, false
		}
	}, check: func(c *bctx) {
		t := c.f.Params[0].Type()
		if c.what == "video" || c.what == "audio" {
			c.adaptation()
		}
		now := func(n string) bv { return c.m.bvOf(c.st, c.now(c.args[0], t, n), nil) }
		l := (&lay{}).u("sync byte", c.was(0, "SyncByte"), 8).u("transport error indicator", c.was(0, "TransportErrorIndicator"), 1).u("payload unit start indicator", c.was(0, "PayloadUnitStartIndicator"), 1)
		l.u("transport priority", c.was(0, "TransportPriority"), 1).u("PID", c.was(0, "PID"), 13).u("scrambling control", c.was(0, "TransportScramblingControl"), 2)
		l.u("adaptation field control", now("AdaptationFieldExist"), 2).u("continuity counter", c.was(0, "ContinuityCounter"), 4)
		if len(c.st.out) < 4 {
			c.fail("length", "a transport packet has %d bytes", len(c.st.out))
			return
		}
		c.match(c.st.out[:4], l)
		rest := c.st.out[4:]
		// what is left of 188 bytes after each part
		left := linC(184)
		afc := now("AdaptationFieldExist")[1]
		if len(rest) > 0 && rest[0].seg == "adaptation" {
			if c.m.res(c.st, bv{afc})[0] == bit0 {
				c.fail("adaptation", "an adaptation field is written that the header does not announce")
			}
			left = left.add(c.m.lin(c.m.atom(c.st, "adaptation length", 8, "", "")), -1)
			rest = rest[1:]
		} else if k := c.m.res(c.st, bv{afc})[0]; k == bit1 && (c.what == "video" || c.what == "audio") {
			c.fail("adaptation", "the header announces an adaptation field that is not written")
		}
		if c.what == "PAT" || c.what == "PMT" {
			us := c.m.res(c.st, c.was(0, "PayloadUnitStartIndicator"))
			start, known := us.konst()
			ptr := len(rest) > 0 && rest[0].b != nil
			if ptr != (known && start == 1) {
				c.fail("pointer", "a table packet has a pointer field when no table starts in it, or the other way round")
			}
			if ptr {
				c.match(rest[:1], (&lay{}).u("pointer field", c.was(0, "PayloadPointer"), 8))
				rest = rest[1:]
				left = left.add(linC(1), -1)
			}
		}
		if len(rest) != 2 || rest[0].seg != "payload" || rest[1].seg != "stuffing" {
			c.fail("parts", "a packet is not made of header, adaptation field, payload and stuffing, in this order")
			return
		}
		left = left.add(c.m.lin(zextAtom(c.m, c.st, "payload length")), -1)
		c.same("stuffing", c.m.bits(rest[1].n, 8), c.m.bits(left, 8))
	}})

	sr := p.slot("libaac", "AACHeader", "SampleRate")
	out = append(out, bspec{pkg: "libaac", recv: "AACHeader", fn: "Adts", cases: []bcase{{"a header Parse made", []bassume{hiA(sr, 15)}}}, check: func(c *bctx) {
		s, _ := c.args[1].(bslice)
		n := c.m.bits(s.n.add(linC(7), 1), 64)
		obj := c.m.bits(c.m.lin(c.was(0, "ObjectType")).add(linC(1), -1), 8)
		ch := c.was(0, "Channel")
		l := (&lay{}).c("syncword", 0xfff, 12).c("ID, layer, protection absent", 1, 4).u("profile", obj, 2).u("sampling frequency index", c.was(0, "SampleRate"), 4).c("private bit", 0, 1).u("channel configuration", ch, 3)
		l.c("originality to copyright start", 0, 4).u("frame length", n, 13).c("buffer fullness", 0x7ff, 11).c("frames", 0, 2)
		c.match(c.bytesOf(c.res[0]), l)
	}})
	out = append(out, bspec{pkg: "libaac", recv: "AACHeader", fn: "Parse", check: func(c *bctx) {
		t := c.f.Params[0].Type()
		b0, b1 := c.byteOf("p1", 0), c.byteOf("p1", 1)
		c.same("ObjectType", c.now(c.args[0], t, "ObjectType"), b0[3:8])
		c.same("SampleRate", c.now(c.args[0], t, "SampleRate"), append(append(bv{}, b1[7]), b0[:3]...))
		c.same("Channel", c.now(c.args[0], t, "Channel"), b1[3:7])
	}})
	for _, tb := range []string{"PAT", "PMT"} {
		tb := tb
		out = append(out, bspec{pkg: "libmpeg", recv: tb, fn: "Marshal", calls: func(c *bctx) func(*bstate, string, []bval) (bval, bool) {
			return func(st *bstate, full string, args []bval) (bval, bool) {
				if strings.HasSuffix(full, "libmpeg.CRC32") {
					return c.m.atom(st, "crc of "+fmt.Sprint(len(c.m.items(st, c.m.toSlice(st, args[0])))), 32, "", ""), true
				}
				return nil, false
			}
		}, check: func(c *bctx) {
			l := (&lay{}).u("table id", c.was(0, "TableID"), 8).u("section syntax indicator", c.was(0, "SectionSyntaxIndicator"), 1).c("zero", 0, 1).c("reserved", 3, 2).u("section length", c.was(0, "SectionLength"), 12)
			head, per := 8, 4
			if tb == "PAT" {
				l.u("transport stream id", c.was(0, "TransportStreamID"), 16)
			} else {
				head, per = 12, 5
				l.u("program number", c.was(0, "ProgramNumber"), 16)
			}
			l.c("reserved", 3, 2).u("version", c.was(0, "VersionNumber"), 5).u("current/next", c.was(0, "CurrentNextIndicator"), 1).u("section number", c.was(0, "SectionNumber"), 8).u("last section number", c.was(0, "LastSectionNumber"), 8)
			if tb == "PMT" {
				l.c("reserved", 7, 3).u("PCR PID", c.was(0, "PCR_PID"), 13).c("reserved", 15, 4).u("program info length", c.was(0, "ProgramInfoLength"), 12)
			}
			it := c.st.out
			if len(it) < head+4 || (len(it)-head-4)%per != 0 {
				c.fail("length", "a table has %d bytes", len(it))
				return
			}
			c.match(it[:head], l)
			crc := c.m.atom(c.st, "crc of "+fmt.Sprint(len(it)-4), 32, "", "")
			c.match(it[len(it)-4:], (&lay{}).u("CRC of everything before it", crc, 32))
			for k := head; k < len(it)-4; k += per {
				c.entry(tb, it[k:k+per])
			}
			if w, ok := c.arg(2).konst(); ok && w < uint64(len(it)) {
				c.fail("writable", "more is written than fits")
			}
			c.same("bytes written", c.res[0], bvConst(uint64(len(it)), 64))
		}})
	}
	out = append(out, bspec{pkg: "libmpeg", fn: "CRC32", cases: []bcase{{"one byte", []bassume{nameA("len(p0)", "eq", 1)}}}, check: func(c *bctx) {
		// one step from the initial value
		crc := bvConst(0xffffffff, 32)
		ix := c.m.binop(c.st, token.XOR, crc[24:32], c.byteOf("p0", 0), false).(bv)
		var tab bv
		for a, info := range c.m.atoms {
			if info.w == 32 && strings.Contains(a, "crcTable[") && (strings.HasSuffix(a, "["+bvKey(ix)+"]") || strings.HasSuffix(a, "["+bvKey(zext(ix, 64))+"]")) {
				tab = c.m.atom(c.st, a, 32, "", "")
			}
		}
		if tab == nil {
			c.fail("index", "the table is not indexed by the top byte of the remainder and the next byte")
			return
		}
		c.same("remainder", c.res[0], c.m.binop(c.st, token.XOR, append(bvConst(0, 8), crc[:24]...), tab, false).(bv))
	}})
	return out
}

// adaptation: the adaptation field of a media packet fills it up, and marks
// the beginning of a key frame with a clock.
func (c *bctx) adaptation() {
	t := c.f.Params[0].Type()
	_, at, _ := fieldPath(t, "AdaptationField")
	af := c.now(c.args[0], t, "AdaptationField")
	get := func(n string) bv { return c.m.bvOf(c.st, c.now(af, at, n), nil64) }
	written := false
	for _, it := range c.st.out {
		written = written || it.seg == "adaptation"
	}
	first, known := c.m.res(c.st, c.arg(2)).konst()
	if !known {
		c.fail("key frame", "a packet does not depend on whether it begins a key frame")
		return
	}
	room := uint64(184)
	if first == 1 {
		room = 176
	}
	remain := c.m.res(c.st, zextAtom(c.m, c.st, "remain"))
	short, known := c.m.decide(c.st, token.LSS, remain, bvConst(room, 64), true)
	if !known {
		c.fail("stuffing", "whether the rest of a PES packet fills a packet is not looked at")
		return
	}
	if written != (short || first == 1) {
		c.fail("stuffing", "an adaptation field is written in a packet that is full, or missing in one that is not")
		return
	}
	if !written {
		return
	}
	switch {
	case short:
		c.same("adaptation field length", get("AdaptationFieldLength"), c.m.bits(linC(183).add(c.m.lin(remain), -1), 64)[:8])
	default:
		c.same("adaptation field length", get("AdaptationFieldLength"), bvConst(7, 8))
	}
	c.same("random access indicator", get("RandomAccessIndicator"), bvConst(first, 8))
	c.same("PCR flag", get("PCRFlag"), bvConst(first, 8))
	if first == 1 {
		c.same("PCR", get("ProgramClockReferenceBase"), c.arg(3))
	}
}

func zextAtom(m *bmach, st *bstate, n string) bv { return m.atom(st, n, 64, "", "") }

// entry checks one element of a program table.
func (c *bctx) entry(tb string, it []bitem) {
	c.ok++
	run := func(from, w int) (string, bool) {
		// w bits, msb first, ending at the low bits of one atom
		a := ""
		for i := 0; i < w; i++ {
			pos := from + i
			b := it[pos/8].b[7-pos%8]
			if b.a == "" || b.a == "?" || b.k != w-1-i || a != "" && b.a != a {
				return "", false
			}
			a = b.a
		}
		return a, true
	}
	for _, x := range it {
		if x.b == nil {
			c.fail("entry", "an entry of a table holds a run of bytes")
			return
		}
	}
	bitsAre := func(from, w int, v uint64) bool {
		for i := 0; i < w; i++ {
			pos := from + i
			if it[pos/8].b[7-pos%8] != (bit{k: int(v >> uint(w-1-i) & 1)}) {
				return false
			}
		}
		return true
	}
	at := 16
	if tb == "PAT" {
		a, ok := run(0, 16)
		if !ok || c.m.atoms[a].slot != c.p.slot("libmpeg", "PMT", "ProgramNumber") {
			c.fail("program number", "an entry of the PAT does not begin with the program number")
		}
	} else {
		at = 8
		if v, ok := it[0].b.konst(); ok {
			// a guess, when the stream does not say
			want := false
			for a, info := range c.m.atoms {
				if info.slot == c.p.slot("libmpeg", "PES", "StreamType") {
					z, ok := c.m.res(c.st, c.m.atom(c.st, a, 8, "", "")).konst()
					want = want || ok && z == 0
				}
			}
			if !want {
				c.fail("stream type", "an entry of the PMT has the fixed stream type %#x", v)
			}
		} else if a, ok := run(0, 8); ok && c.m.atoms[a].slot != c.p.slot("libmpeg", "PES", "StreamType") {
			c.fail("stream type", "an entry of the PMT does not begin with the stream type")
		}
		if !bitsAre(24, 4, 15) || !bitsAre(28, 12, 0) {
			c.fail("descriptor length", "an entry of the PMT does not end with an empty descriptor list")
		}
	}
	a, ok := run(at+3, 13)
	if !ok || !strings.Contains(a, ".key") {
		c.fail("PID", "an entry of a table does not hold the 13 bits of its PID")
	}
	if !bitsAre(at, 3, 7) {
		c.fail("reserved", "the reserved bits before a PID are not set")
	}
}

func (p *Prog) controlSpecs() []bspec {
	var out []bspec
	body := func(typ, n int, mk func(c *bctx, l *lay)) func(c *bctx) {
		return func(c *bctx) {
			it := c.st.out
			if len(it) < 12+n {
				c.fail("length", "a control message has %d bytes", len(it))
				return
			}
			l := &lay{}
			l.c("message length", uint64(n), 24).c("message type", uint64(typ), 8)
			c.match(it[4:8], l)
			l = &lay{}
			mk(c, l)
			c.match(it[len(it)-n:], l)
			if e := len(it) - 12 - n; e != 0 && e != 4 {
				c.fail("length", "the body of a control message is not %d bytes", n)
			}
		}
	}
	simple := []struct {
		typ   string
		id, n int
		field string
	}{{"WindowAcknowledgeSizeMessage", 5, 4, "AcknowledgementWindowSize"}, {"SetPeerBandWidthMessage", 6, 5, "AcknowledgementWindowSize"}, {"SetChunkSizeMessage", 1, 4, "NewChunkSize"}, {"AbortMessage", 2, 4, "ChunkStreamID"}, {"AcknowledgeMessage", 3, 4, "SequenceNumber"}}
	for _, s := range simple {
		s := s
		var as []bassume
		if s.typ == "SetChunkSizeMessage" {
			as = append(as, hiA(p.slot("librtmp", s.typ, s.field), 0x7fffffff), loA(p.slot("librtmp", s.typ, s.field), 1))
		}
		out = append(out, bspec{pkg: "librtmp", recv: s.typ, fn: "Send", cases: []bcase{{s.typ, as}}, check: body(s.id, s.n, func(c *bctx, l *lay) {
			l.u(s.field, c.was(0, s.field), 32)
			if s.n == 5 {
				l.u("LimitType", c.was(0, "LimitType"), 8)
			}
		})})
		out = append(out, bspec{pkg: "librtmp", recv: s.typ, fn: "Parse", check: func(c *bctx) {
			q, _, _ := fieldPath(c.f.Params[0].Type(), "messagePayload")
			t := c.f.Params[0].Type()
			want := c.be("p0"+q, 0, 4)
			if s.typ == "SetChunkSizeMessage" {
				want = c.m.res(c.st, want)
			}
			c.same(s.field, c.now(c.args[0], t, s.field), want)
			if s.n == 5 {
				c.same("LimitType", c.now(c.args[0], t, "LimitType"), c.byteOf("p0"+q, 4))
			}
		}})
	}
	ev := p.slot("librtmp", "UserControlMessage", "EventType")
	for _, e := range []uint64{0, 1, 2, 3, 4, 6, 7} {
		e := e
		n := 6
		if e == 3 {
			n = 10
		}
		out = append(out, bspec{pkg: "librtmp", recv: "UserControlMessage", fn: "Send", cases: []bcase{{"event " + strconv.Itoa(int(e)), []bassume{eqA(ev, e), nameA("len(p0.2)", "lo", 4)}}}, check: body(4, n, func(c *bctx, l *lay) {
			l.c("event type", e, 16)
			q, _, _ := fieldPath(c.f.Params[0].Type(), "EventData")
			d := "p0" + q
			if e == 6 || e == 7 {
				l.u("timestamp", c.be(d, 0, 4), 32)
				return
			}
			l.u("stream id", c.was(0, "messageStreamID"), 32)
			if e == 3 {
				l.u("buffer length", c.be(d, 0, 4), 32)
			}
		})})
	}
	out = append(out, bspec{pkg: "librtmp", recv: "UserControlMessage", fn: "Parse", check: func(c *bctx) {
		q, _, _ := fieldPath(c.f.Params[0].Type(), "messagePayload")
		t := c.f.Params[0].Type()
		c.same("EventType", c.now(c.args[0], t, "EventType"), c.be("p0"+q, 0, 2))
		c.sameSlice("EventData", c.now(c.args[0], t, "EventData"), "p0"+q, linC(2), c.m.lenOf("p0"+q).add(linC(2), -1))
	}})
	return out
}
