package main

// The layouts of FLV, RTMP chunks and RTP.

import "strconv"

func (p *Prog) bitSpecs() []bspec {
	var s []bspec
	s = append(s, p.flvSpecs()...)
	s = append(s, p.rtmpSpecs()...)
	s = append(s, p.rtpSpecs()...)
	s = append(s, p.srtSpecs()...)
	s = append(s, p.tsSpecs()...)
	s = append(s, p.controlSpecs()...)
	s = append(s, p.boxSpecs()...)
	s = append(s, p.psiSpecs()...)
	s = append(s, p.nalSpecs()...)
	return s
}

func (p *Prog) flvSpecs() []bspec {
	codec := p.slot("libflv", "VideoTag", "CodecID")
	sound := p.slot("libflv", "AudioTag", "SoundFormat")
	var out []bspec
	dyn := func(n string) []bassume {
		return []bassume{{slot: "p0", op: "dyn", typ: modPath + "/libflv." + n}}
	}
	kinds := map[string]uint64{"audio": 8, "video": 9, "meta": 18}
	out = append(out, bspec{pkg: "libflv", fn: "FLVWrite",
		cases: []bcase{{"audio", dyn("AudioTag")}, {"video", dyn("VideoTag")}, {"meta", dyn("MetaTag")}},
		check: func(c *bctx) {
			it := c.bytesOf(c.res[0])
			if len(it) < 15 {
				c.fail("length", "a tag has %d bytes or runs", len(it))
				return
			}
			mid := it[11 : len(it)-4]
			if len(mid) == 1 && mid[0].b == nil && mid[0].seg != "call I:Marshal(p0)" {
				c.fail("body", "the body of a tag is %s, not what Marshal returns", mid[0].seg)
				return
			}
			n := itemsLen(mid)
			ts := c.m.atom(c.st, "p0.0.2", 32, p.slot("libflv", "TagBase", "TimeStamp"), "p0.0")
			l := &lay{}
			l.c("tag type", kinds[c.what], 8).u("data size", c.m.bits(n, 64), 24).u("timestamp", ts, 24).u("timestamp extended", ts[24:], 8).c("stream id", 0, 24)
			c.match(it[:11], l)
			c.match(it[len(it)-4:], (&lay{}).u("previous tag size", c.m.bits(n.add(linC(11), 1), 64), 32))
		}})
	var vc []bcase
	for _, v := range []uint64{7, 12, 13} {
		vc = append(vc, bcase{"codec " + strconv.Itoa(int(v)), []bassume{eqA(codec, v)}})
	}
	vc = append(vc, bcase{"other codecs", []bassume{neA(codec, 7), neA(codec, 12), neA(codec, 13), hiA(codec, 15)}})
	out = append(out, bspec{pkg: "libflv", recv: "VideoTag", fn: "Marshal", cases: vc, check: func(c *bctx) {
		l := &lay{}
		l.u("frame type", c.was(0, "FrameType"), 4).u("codec id", c.was(0, "CodecID"), 4)
		if c.what != "other codecs" {
			l.u("packet type", c.was(0, "AVCPacketType"), 8).u("composition time", c.was(0, "Cts"), 24)
		}
		l.seg("the payload", c.wasSlice(0, "VideoData"))
		c.match(c.bytesOf(c.res[0]), l)
	}})
	ac := []bcase{{"AAC", []bassume{eqA(sound, 10)}}, {"Opus", []bassume{eqA(sound, 13)}}, {"other codecs", []bassume{neA(sound, 10), neA(sound, 13), hiA(sound, 15)}}}
	out = append(out, bspec{pkg: "libflv", recv: "AudioTag", fn: "Marshal", cases: ac, check: func(c *bctx) {
		l := &lay{}
		l.u("sound format", c.was(0, "SoundFormat"), 4).u("sound rate", c.was(0, "SoundRate"), 2).u("sound size", c.was(0, "SoundSize"), 1).u("sound type", c.was(0, "SoundType"), 1)
		if c.what != "other codecs" {
			l.u("packet type", c.was(0, "AACPacketType"), 8)
		}
		l.seg("the payload", c.wasSlice(0, "SoundData"))
		c.match(c.bytesOf(c.res[0]), l)
	}})
	base := func(c *bctx) {
		t := c.f.Signature.Results().At(0).Type()
		for _, n := range []string{"TagType", "DataSize", "TimeStamp", "StreamID"} {
			c.same(n, c.now(c.res[0], t, n), c.was(0, n))
		}
	}
	var pv []bcase
	for _, v := range []uint64{7, 12, 13, 2, 4} {
		pv = append(pv, bcase{"codec " + strconv.Itoa(int(v)), []bassume{maskA("p1[0]", 15, v)}})
	}
	out = append(out, bspec{pkg: "libflv", fn: "ParseVideoTag", cases: pv, check: func(c *bctx) {
		t := c.f.Signature.Results().At(0).Type()
		base(c)
		b := c.byteOf("p1", 0)
		c.same("FrameType", c.now(c.res[0], t, "FrameType"), b[4:8])
		c.same("CodecID", c.now(c.res[0], t, "CodecID"), b[:4])
		if c.what == "codec 2" || c.what == "codec 4" {
			c.sameSlice("VideoData", c.now(c.res[0], t, "VideoData"), "p1", linC(1), c.m.lenOf("p1").add(linC(1), -1))
			return
		}
		c.same("AVCPacketType", c.now(c.res[0], t, "AVCPacketType"), c.byteOf("p1", 1))
		cts := c.be("p1", 2, 3)
		for len(cts) < 32 {
			cts = append(cts, cts[23])
		}
		c.same("Cts", c.now(c.res[0], t, "Cts"), cts)
		c.sameSlice("VideoData", c.now(c.res[0], t, "VideoData"), "p1", linC(5), c.m.lenOf("p1").add(linC(5), -1))
	}})
	var pa []bcase
	for _, v := range []uint64{10, 13, 2, 7, 8, 14} {
		pa = append(pa, bcase{"format " + strconv.Itoa(int(v)), []bassume{maskA("p1[0]", 0xf0, v<<4)}})
	}
	out = append(out, bspec{pkg: "libflv", fn: "ParseAudioTag", cases: pa, check: func(c *bctx) {
		t := c.f.Signature.Results().At(0).Type()
		base(c)
		b := c.byteOf("p1", 0)
		c.same("SoundFormat", c.now(c.res[0], t, "SoundFormat"), b[4:8])
		c.same("SoundRate", c.now(c.res[0], t, "SoundRate"), b[2:4])
		c.same("SoundSize", c.now(c.res[0], t, "SoundSize"), b[1:2])
		c.same("SoundType", c.now(c.res[0], t, "SoundType"), b[:1])
		k := int64(1)
		if c.what == "format 10" || c.what == "format 13" {
			k = 2
			c.same("AACPacketType", c.now(c.res[0], t, "AACPacketType"), c.byteOf("p1", 1))
		}
		c.sameSlice("SoundData", c.now(c.res[0], t, "SoundData"), "p1", linC(k), c.m.lenOf("p1").add(linC(k), -1))
	}})
	return out
}

func (p *Prog) rtmpSpecs() []bspec {
	var out []bspec
	fm := p.slot("librtmp", "ChunkBasicHeader", "Fmt")
	cs := p.slot("librtmp", "ChunkBasicHeader", "CsID")
	ts := p.slot("librtmp", "ChunkMessageHeader", "MessageTimeStamp")
	dt := p.slot("librtmp", "ChunkMessageHeader", "MessageTimeDelta")
	ex := p.slot("librtmp", "ChunkMessageHeader", "ExtendedTimestamp")
	ids := [][2]uint64{{3, 63}, {64, 319}, {320, 65599}}
	var cases []bcase
	type cinfo struct {
		fmt, form int
		ext       bool
	}
	info := map[string]cinfo{}
	for f := 0; f < 4; f++ {
		for i, id := range ids {
			for e := uint64(0); e < 2; e++ {
				as := []bassume{eqA(fm, uint64(f)), loA(cs, id[0]), hiA(cs, id[1]), eqA(ex, e)}
				t := ts
				if f == 1 || f == 2 {
					t = dt
				}
				if e == 1 {
					as = append(as, loA(t, 0xffffff))
				} else {
					as = append(as, hiA(t, 0xfffffe))
				}
				w := "fmt " + strconv.Itoa(f) + ", chunk stream id from " + strconv.Itoa(int(id[0])) + ", extended timestamp " + strconv.Itoa(int(e))
				info[w] = cinfo{f, i, e == 1}
				cases = append(cases, bcase{w, as})
			}
		}
	}
	out = append(out, bspec{pkg: "librtmp", recv: "Chunk", fn: "Send", cases: cases, check: func(c *bctx) {
		in := info[c.what]
		id := c.was(0, "CsID")
		l := (&lay{}).c("fmt", uint64(in.fmt), 2)
		rest := c.m.bits(c.m.lin(id).add(linC(64), -1), 32)
		switch in.form {
		case 0:
			l.u("chunk stream id", id, 6)
		case 1:
			l.c("chunk stream id form", 0, 6).u("chunk stream id", rest, 8)
		case 2:
			l.c("chunk stream id form", 1, 6).le("chunk stream id", rest, 2)
		}
		t := c.was(0, "MessageTimeStamp")
		if in.fmt == 1 || in.fmt == 2 {
			t = c.was(0, "MessageTimeDelta")
		}
		if in.fmt < 3 {
			if in.ext {
				l.c("timestamp", 0xffffff, 24)
			} else {
				l.u("timestamp", t, 24)
			}
		}
		if in.fmt < 2 {
			l.u("message length", c.was(0, "MessageLength"), 24).u("message type", c.was(0, "MessageType"), 8)
		}
		if in.fmt < 1 {
			l.le("message stream id", c.was(0, "MessageStreamID"), 4)
		}
		if in.ext {
			l.u("extended timestamp", t, 32)
		}
		l.seg("the payload", c.wasSlice(0, "Payload"))
		c.match(c.st.out, l)
	}})

	// reading a chunk
	forms := []struct {
		n    int
		mask bassume
		more []bassume
	}{
		{1, maskA("in[0]", 0, 0), []bassume{nameA("in[0]", "low6", 0)}},
		{2, maskA("in[0]", 63, 0), nil},
		{3, maskA("in[0]", 63, 1), nil},
	}
	type rinfo struct {
		fmt, form, n int
		ext, cont    bool
	}
	ri := map[string]rinfo{}
	var rc []bcase
	for f := 0; f < 4; f++ {
		for i, fo := range forms {
			for e := 0; e < 2; e++ {
				for cont := 0; cont < 2; cont++ {
					if cont == 1 && f != 3 {
						continue
					}
					w := "fmt " + strconv.Itoa(f) + ", id form " + strconv.Itoa(i) + ", extended timestamp " + strconv.Itoa(e)
					var as []bassume
					for j := 0; j < 3; j++ {
						n := "in[" + strconv.Itoa(fo.n+j) + "]"
						if f == 3 {
							break
						}
						if e == 1 {
							as = append(as, nameA(n, "eq", 255))
						} else if j == 0 {
							as = append(as, nameA(n, "eq", 254))
						}
					}
					if f == 3 {
						as = append(as, eqA(ex, uint64(e)))
					}
					as = append(as, nameA("nil p1", "eq", uint64(1-cont)))
					if cont == 1 {
						w += ", inside a message"
					}
					mask, v := uint64(0xc0), uint64(f)<<6
					if i > 0 {
						mask, v = 0xff, uint64(f)<<6|uint64(i-1)
					} else {
						mask, v = 0xfc, uint64(f)<<6|5<<2 // ids 20 to 23
					}
					as = append(as, maskA("in[0]", mask, v))
					ri[w] = rinfo{f, i, fo.n, e == 1, cont == 1}
					rc = append(rc, bcase{w, as})
				}
			}
		}
	}
	out = append(out, bspec{pkg: "librtmp", fn: "ParseChunk", cases: rc, check: func(c *bctx) {
		in := ri[c.what]
		t := c.f.Signature.Results().At(0).Type()
		get := func(n string) bval { return c.now(c.res[0], t, n) }
		c.same("Fmt", get("Fmt"), bvConst(uint64(in.fmt), 8))
		id := zext(c.byteOf("in", 0)[:6], 32)
		switch in.form {
		case 1:
			id = c.m.bits(c.m.lin(zext(c.byteOf("in", 1), 32)).add(linC(64), 1), 32)
		case 2:
			id = c.m.bits(c.m.lin(zext(c.le("in", 1, 2), 32)).add(linC(64), 1), 32)
		}
		c.same("CsID", get("CsID"), id)
		q, mt, _ := fieldPath(c.f.Params[0].Type(), "lastChunk")
		_ = mt
		last := "p0" + q + "<" + bvKey(c.m.res(c.st, id)) + ">"
		old := func(n string, w int) bv {
			q, _, sl := fieldPath(t, n)
			return c.m.atom(c.st, last+q, w, sl, last)
		}
		n := in.n
		tb := zext(c.be("in", n, 3), 32)
		hdr := []int{11, 7, 3, 0}[in.fmt]
		if in.ext {
			tb = c.be("in", n+hdr, 4)
		}
		switch in.fmt {
		case 0:
			c.same("MessageTimeStamp", get("MessageTimeStamp"), tb)
			c.same("MessageLength", get("MessageLength"), c.be("in", n+3, 3))
			c.same("MessageType", get("MessageType"), c.byteOf("in", n+6))
			c.same("MessageStreamID", get("MessageStreamID"), c.le("in", n+7, 4))
		case 1, 2:
			c.same("MessageTimeStamp", get("MessageTimeStamp"), c.m.bits(c.m.lin(old("MessageTimeStamp", 32)).add(c.m.lin(tb), 1), 32))
			c.same("MessageTimeDelta", get("MessageTimeDelta"), tb)
			if in.fmt == 1 {
				c.same("MessageLength", get("MessageLength"), c.be("in", n+3, 3))
				c.same("MessageType", get("MessageType"), c.byteOf("in", n+6))
			} else {
				c.same("MessageLength", get("MessageLength"), old("MessageLength", 32))
				c.same("MessageType", get("MessageType"), old("MessageType", 8))
			}
			c.same("MessageStreamID", get("MessageStreamID"), old("MessageStreamID", 32))
		case 3:
			want := old("MessageTimeStamp", 32)
			cont := in.cont
			if q, _, _ := fieldPath(c.f.Params[0].Type(), "partial"); q != "" {
				if k, ok := c.st.known[bit{a: "nil p0" + q + "<" + bvKey(c.m.res(c.st, id)) + ">"}]; ok && k == bit0 {
					cont = true
				}
			}
			if !cont {
				want = c.m.bits(c.m.lin(want).add(c.m.lin(old("MessageTimeDelta", 32)), 1), 32)
			}
			c.same("MessageTimeStamp", get("MessageTimeStamp"), want)
			c.same("MessageTimeDelta", get("MessageTimeDelta"), old("MessageTimeDelta", 32))
			c.same("MessageLength", get("MessageLength"), old("MessageLength", 32))
			c.same("MessageType", get("MessageType"), old("MessageType", 8))
			c.same("MessageStreamID", get("MessageStreamID"), old("MessageStreamID", 32))
		}
		c.same("ExtendedTimestamp", get("ExtendedTimestamp"), bvConst(b2u(in.ext), 1))
		at := n + hdr
		if in.ext {
			at += 4
		}
		pl, _ := get("Payload").(bslice)
		it := c.bytesOf(pl)
		if len(it) != 1 || it[0].b != nil || it[0].seg != "in" || !it[0].off.isConst() || it[0].off.c != int64(at) {
			c.fail("Payload", "the payload does not start at byte %d of the chunk", at)
		}
	}})
	return out
}

func (p *Prog) rtpSpecs() []bspec {
	var out []bspec
	out = append(out, bspec{pkg: "librtsp", recv: "RTPPacker", fn: "Pack", check: func(c *bctx) {
		l := (&lay{}).c("version, padding, extension, CSRC count", 0x80, 8).u("marker", c.arg(1), 1).u("payload type", c.was(0, "PayloadType"), 7)
		l.u("sequence number", c.was(0, "seq"), 16).u("timestamp", c.arg(2), 32).u("SSRC", c.was(0, "SSRC"), 32)
		s, _ := c.args[3].(bslice)
		l.seg("the payload", s)
		c.match(c.bytesOf(c.res[0]), l)
	}})
	out = append(out, bspec{pkg: "librtsp", fn: "InterleaveFrame", check: func(c *bctx) {
		s, _ := c.args[1].(bslice)
		l := (&lay{}).c("magic", '$', 8).u("channel", c.arg(0), 8).u("length", c.m.bits(s.n, 64), 16).seg("the packet", s)
		c.match(c.bytesOf(c.res[0]), l)
	}})
	out = append(out, bspec{pkg: "librtsp", fn: "PackAACFrame", cases: []bcase{{"an AAC frame", []bassume{nameA("len(p0)", "lo", 1), nameA("len(p0)", "hi", 1<<13-1)}}}, check: func(c *bctx) {
		s, _ := c.args[0].(bslice)
		l := (&lay{}).c("AU-headers-length", 16, 16).u("AU-size", c.m.bits(s.n, 64), 13).c("AU-index", 0, 3).seg("the frame", s)
		c.match(c.bytesOf(c.res[0]), l)
	}})
	return out
}
