package main

// C35: a frame that changes its container keeps its NAL units and its AAC
// frames, whole, in order and once.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C35", "other", carrying) }

func carrying(p *Prog, r *Report) {
	r.Rule = "bit-provenance interpretation of every conversion between the containers of a frame (AVCC, Annex B, RTP payloads, ADTS): the bytes that come out compared with the NAL units and frames that went in"
	fns := map[*ssa.Function]bool{}
	for _, s := range append(append(p.hlsCarry(), p.srtCarry()...), append(p.rtspCarry(), p.dashCarry()...)...) {
		p.bitSpec(r, s, fns)
	}
	r.count("functions", len(fns))
	r.atLeast("formats", 8)
}

// text: what a byte string is to hold, from numbers and runs of the input.
type text struct {
	m *bctx
	b []string
	w []string
}

func (c *bctx) text() *text { return &text{m: c} }

func (t *text) put(what string, v ...int) *text {
	for _, x := range v {
		t.b = append(t.b, bvKey(bvConst(uint64(x), 8)))
		t.w = append(t.w, what)
	}
	return t
}

func (t *text) one(what string, b bv) *text {
	t.b = append(t.b, bvKey(t.m.m.res(t.m.st, b)))
	t.w = append(t.w, what)
	return t
}

func (t *text) run(what, obj string, off, n int) *text {
	for i := off; i < off+n; i++ {
		t.one(what, t.m.byteOf(obj, i))
	}
	return t
}

// expand lists the bytes of what was found; nil if their number is unknown.
func (c *bctx) expand(it []bitem) ([]string, bool) {
	var out []string
	for _, i := range it {
		if i.b != nil {
			out = append(out, bvKey(c.m.res(c.st, i.b)))
			continue
		}
		o, n := c.m.fold(c.st, i.off), c.m.fold(c.st, i.n)
		if !o.isConst() || !n.isConst() || n.c > 1<<14 || n.c < 0 {
			return nil, false
		}
		for k := int64(0); k < n.c; k++ {
			out = append(out, bvKey(c.m.res(c.st, c.byteOf(i.seg, int(o.c+k)))))
		}
	}
	return out, true
}

// reads compares a byte string with what it is to hold.
func (c *bctx) reads(key string, v bval, t *text) {
	if c.bad {
		return
	}
	if _, isn := v.(bnil); isn {
		v = bslice{"", linC(0), linC(0)}
	}
	if _, isl := v.(bslice); !isl {
		c.undecided()
		return
	}
	c.readsItems(key, c.bytesOf(v), t)
}

func (c *bctx) readsItems(key string, it []bitem, t *text) {
	if c.bad || c.vague(it) {
		return
	}
	got, ok := c.expand(it)
	if !ok {
		for _, i := range it {
			if strings.HasPrefix(i.seg, "old buf ") {
				c.fail(key, "%s holds what an earlier frame left in a buffer", key)
				return
			}
		}
		c.undecided()
		return
	}
	c.ok++
	for i, w := range t.b {
		if i >= len(got) {
			c.fail(key, "%s ends before its byte %d (%s)", key, i, t.w[i])
			return
		}
		if got[i] != w {
			c.fail(key, "byte %d of %s is not that of %s", i, key, t.w[i])
			return
		}
	}
	if len(got) > len(t.b) {
		c.fail(key, "%s goes on for %d bytes after its end", key, len(got)-len(t.b))
	}
}

// unit: a NAL unit or a frame in the input.
type unit struct {
	typ    int // -1: any
	n, off int
}

// avccOf lays out NAL units behind their lengths.
func avccOf(obj string, hevc bool, us []unit) ([]bassume, []unit) {
	var as []bassume
	at := 0
	out := append([]unit(nil), us...)
	for i, u := range us {
		for k := 0; k < 4; k++ {
			as = append(as, nameA(obj+"["+strconv.Itoa(at+k)+"]", "eq", uint64(u.n>>(24-8*k)&255)))
		}
		at += 4
		out[i].off = at
		if u.typ >= 0 {
			n := obj + "[" + strconv.Itoa(at) + "]"
			if hevc {
				as = append(as, maskA(n, 0x7e, uint64(u.typ)<<1))
			} else {
				as = append(as, maskA(n, 0x1f, uint64(u.typ)))
			}
		}
		at += u.n
	}
	return append(as, nameA("len("+obj+")", "eq", uint64(at))), out
}

// name of a byte field as the machine spells it, in parameter k.
func (p *Prog) fieldObj(pkg, typ, name string, k int) string {
	n := p.lenName(pkg, typ, name)
	return "p" + strconv.Itoa(k) + strings.TrimSuffix(strings.TrimPrefix(n, "len(p0"), ")")
}

func renamed(pre string, cs []bcase) []bcase {
	var out []bcase
	for _, c := range cs {
		out = append(out, bcase{pre + c.what, c.as})
	}
	return out
}

// annexB: what an access unit becomes in a transport stream.
func (c *bctx) annexB(obj string, us []unit, info bslice) *text {
	t := c.text().put("the access unit delimiter", 0, 0, 0, 1, 9, 0xf0)
	var sets []unit
	done := false
	for _, u := range us {
		switch u.typ {
		case 9:
		case 7, 8:
			sets = append(sets, u)
		case 5, 1, 6:
			if u.typ == 5 && !done {
				done = true
				for _, s := range sets {
					t.put("a start code", 0, 0, 0, 1).run("a parameter set", obj, s.off, s.n)
				}
				if len(sets) == 0 {
					x, ok := c.expand(c.m.items(c.st, info))
					if !ok {
						c.undecided()
					}
					for _, b := range x {
						t.b, t.w = append(t.b, b), append(t.w, "the stored parameter sets")
					}
				}
			}
			t.put("a start code", 0, 0, 0, 1).run("a NAL unit", obj, u.off, u.n)
		}
	}
	return t
}

func (p *Prog) hlsCarry() []bspec {
	var out []bspec
	at := func(obj string, from int, vals ...int) []bassume {
		var as []bassume
		for i, v := range vals {
			as = append(as, nameA(obj+"["+strconv.Itoa(from+i)+"]", "eq", uint64(v)))
		}
		return as
	}
	out = append(out, bspec{pkg: "libavc", recv: "Parser", fn: "ParseSpecificInfo", cases: []bcase{
		{"one SPS, one PPS", append(append(at("p1", 6, 0, 12), at("p1", 21, 0, 5)...), nameA("len(p1)", "eq", 28))},
		{"a long SPS", append(append(at("p1", 6, 1, 4), at("p1", 269, 0, 3)...), nameA("len(p1)", "eq", 274))},
	}, check: func(c *bctx) {
		s, q := 12, 5
		if c.what == "a long SPS" {
			s, q = 260, 3
		}
		c.reads("SpecificInfo", c.now(c.args[0], c.f.Params[0].Type(), "SpecificInfo"), c.text().put("a start code", 0, 0, 0, 1).run("the SPS", "p1", 8, s).put("a start code", 0, 0, 0, 1).run("the PPS", "p1", 8+s+3, q))
	}})

	auOf := map[string][]unit{}
	au := func(what string, us ...unit) { auOf[what] = us }
	u := func(typ, n int) unit { return unit{typ: typ, n: n} }
	au("one slice", u(1, 20))
	au("one IDR slice", u(5, 20))
	au("two slices", u(1, 20), u(1, 30))
	au("two IDR slices", u(5, 20), u(5, 7))
	au("a delimiter, parameter sets, SEI and an IDR slice", u(9, 2), u(7, 10), u(8, 4), u(6, 5), u(5, 40))
	au("parameter sets before two IDR slices", u(7, 10), u(8, 4), u(5, 40), u(5, 3))
	au("SEI and a slice", u(6, 5), u(1, 400))
	au("a slice of one byte", u(1, 1))
	au("five slices", u(1, 300), u(1, 2), u(1, 300), u(1, 40), u(1, 41))
	au("small units", u(1, 5), u(6, 1), u(1, 2), u(1, 3), u(1, 1))
	cases := func(obj string, hevc bool, more ...bassume) []bcase {
		var cs []bcase
		for _, w := range sortedKeys(auOf) {
			us := auOf[w]
			if hevc {
				us = nil
				for range auOf[w] {
					us = append(us, unit{typ: 1, n: auOf[w][len(us)].n})
				}
			}
			as, _ := avccOf(obj, hevc, us)
			cs = append(cs, bcase{w, append(as, more...)})
		}
		return cs
	}
	infoLen := p.lenName("libavc", "Parser", "SpecificInfo")
	out = append(out, bspec{pkg: "libavc", recv: "Parser", fn: "GetAnnexbH264", cases: append(cases("p1", false, nameA(infoLen, "eq", 30)), renamed("nothing stored, ", cases("p1", false, nameA(infoLen, "eq", 0)))...), check: func(c *bctx) {
		_, us := avccOf("p1", false, auOf[strings.TrimPrefix(c.what, "nothing stored, ")])
		c.readsItems("an access unit in Annex B", c.st.out, c.annexB("p1", us, c.wasSlice(0, "SpecificInfo")))
	}})
	out = append(out, bspec{pkg: "libhls", fn: "avccToAnnexB", cases: cases("p0", true), check: func(c *bctx) {
		_, us := avccOf("p0", true, auOf[c.what])
		t := c.text()
		for _, u := range us {
			t.put("a start code", 0, 0, 0, 1).run("a NAL unit", "p0", u.off, u.n)
		}
		c.reads("an access unit in Annex B", c.res[0], t)
	}})

	// toPES
	vd, ad := p.fieldObj("libflv", "VideoTag", "VideoData", 1), p.fieldObj("libflv", "AudioTag", "SoundData", 1)
	dyn := func(n string) bassume {
		return bassume{slot: "p1", op: "dyn", typ: modPath + "/libflv." + n}
	}
	tt := p.slot("libflv", "TagBase", "TagType")
	vs := func(n string) string { return p.slot("libflv", "VideoTag", n) }
	as := func(n string) string { return p.slot("libflv", "AudioTag", n) }
	frameType := func(w string) uint64 {
		if strings.HasPrefix(w, "five") {
			return 3
		}
		for _, u := range auOf[w] {
			if u.typ == 5 {
				return 1
			}
		}
		return 2
	}
	var pes []bcase
	ht := p.namedType("libhls", "HLS")
	if ht == nil {
		return out
	}
	q, _, _ := fieldPath(ht, "AvcParser")
	info := "p0" + q + strings.TrimSuffix(strings.TrimPrefix(infoLen, "len(p0"), ")")
	for _, cs := range cases(vd, false, dyn("VideoTag"), eqA(tt, 9), eqA(vs("CodecID"), 7), eqA(vs("AVCPacketType"), 1), nameA("len("+info+")", "eq", 30)) {
		if cs.what != "a slice of one byte" {
			pes = append(pes, bcase{"H.264, " + cs.what, append(cs.as, eqA(vs("FrameType"), frameType(cs.what)))})
		}
	}
	for _, cs := range cases(vd, true, dyn("VideoTag"), eqA(tt, 9), eqA(vs("CodecID"), 12), eqA(vs("AVCPacketType"), 1)) {
		pes = append(pes, bcase{"HEVC, " + cs.what, append(cs.as, eqA(vs("FrameType"), frameType(cs.what)))})
	}
	audio := []bassume{dyn("AudioTag"), eqA(tt, 8), eqA(as("SoundFormat"), 10), eqA(as("AACPacketType"), 1), nameA("len("+ad+")", "eq", 50)}
	num := p.slot("libhls", "audioCache", "num")
	pes = append(pes, bcase{"AAC, the first of six", append([]bassume{eqA(num, 0)}, audio...)})
	pes = append(pes, bcase{"AAC, the second of six", append([]bassume{eqA(num, 1)}, audio...)})
	pes = append(pes, bcase{"AAC, the third of six", append([]bassume{eqA(num, 2)}, audio...)})
	pes = append(pes, bcase{"AAC, the last of six", append([]bassume{eqA(num, 5)}, audio...)})
	out = append(out, bspec{pkg: "libhls", recv: "HLS", fn: "toPES", cases: pes, check: func(c *bctx) {
		t := c.f.Signature.Results().At(0).Type()
		skip, _ := c.res[3].(bv)
		k, known := c.m.res(c.st, skip).konst()
		if !known {
			c.undecided()
			return
		}
		c.ok++
		switch {
		case strings.HasPrefix(c.what, "AAC"):
			h := c.now(c.args[0], ht, "audioCache")
			ct := p.namedType("libhls", "audioCache")
			buf := c.now(h, ct, "buf")
			b, ok := buf.(bptr)
			if !ok || ct == nil {
				c.undecided()
				return
			}
			last := c.what == "AAC, the last of six"
			if x, ok := c.now(h, ct, "num").(bv); ok && last {
				c.same("the number of cached frames after the sixth", x, bvConst(0, 8))
			}
			if last != (k == 0) {
				c.fail("six", "frames of audio do not leave in sixes (%s)", c.what)
				return
			}
			var it []bitem
			if q := c.st.seqs["buf "+b.at]; q != nil {
				it = append(it, q.items...)
			}
			if last {
				it = c.bytesOf(c.now(c.res[0], t, "Data"))
			}
			if c.what != "AAC, the first of six" {
				if len(it) == 0 || it[0].b != nil || it[0].seg != "old buf "+b.at {
					c.fail("cache", "the frames before this one are not kept")
					return
				}
				it = it[1:]
			}
			if len(it) < 7 {
				c.fail("cache", "the frame is not cached behind an ADTS header")
				return
			}
			c.readsItems("a cached AAC frame", it[7:], c.text().run("the AAC frame", ad, 0, 50))
		default:
			if k != 0 {
				c.fail("skip", "an access unit is dropped")
				return
			}
			w := c.what[strings.Index(c.what, ", ")+2:]
			c.same("videoKey", c.res[2], bvConst(b2u(frameType(w) == 1), 1))
			code := uint64(0x1b)
			if strings.HasPrefix(c.what, "HEVC") {
				code = 0x24
			}
			c.same("the stream type of video", c.now(c.res[0], t, "StreamType"), bvConst(code, 8))
			if strings.HasPrefix(c.what, "HEVC") {
				_, us := avccOf(vd, true, auOf[w])
				x := c.text()
				for _, u := range us {
					x.put("a start code", 0, 0, 0, 1).run("a NAL unit", vd, u.off, u.n)
				}
				c.reads("the data of a PES packet", c.now(c.res[0], t, "Data"), x)
				return
			}
			_, us := avccOf(vd, false, auOf[w])
			c.reads("the data of a PES packet", c.now(c.res[0], t, "Data"), c.annexB(vd, us, bslice{info, linC(0), linC(30)}))
		}
	}})
	return out
}

const gopType = "(*github.com/SmartBrave/Athena/broadcast.Broadcast)."

// wrote: a tag handed to the room's stream of tags.
func (c *bctx) wrote(st *bstate, v bval, typ string) (bval, types.Type) {
	c.st = st
	i, ok := v.(biface)
	if !ok {
		c.undecided()
		return nil, nil
	}
	n := c.p.namedType("libflv", typ)
	if n == nil || !types.Identical(derefType(i.t), n) {
		c.fail("tag", "a tag of another kind is written")
		return nil, nil
	}
	return i.v, n
}

func (p *Prog) srtCarry() []bspec {
	var out []bspec
	nal := p.fieldObj("libsrt", "AccessUnit", "NAL", 1)
	type sunit struct{ code, typ, n int }
	au := map[string][]sunit{}
	type found struct{ typ, off, n int }
	lay := func(us []sunit) ([]bassume, []found) {
		var as []bassume
		var fs []found
		at := 0
		put := func(op string, v ...int) {
			for _, x := range v {
				as = append(as, nameA(nal+"["+strconv.Itoa(at)+"]", op, uint64(x)))
				at++
			}
		}
		for _, u := range us {
			if u.code == 4 {
				put("eq", 0)
			}
			put("eq", 0, 0, 1)
			fs = append(fs, found{u.typ, at, u.n})
			as = append(as, maskA(nal+"["+strconv.Itoa(at)+"]", 0x1f, uint64(u.typ)))
			at++
			for k := 1; k < u.n; k++ {
				put("lo", 2)
			}
		}
		return append(as, nameA("len("+nal+")", "eq", uint64(at))), fs
	}
	au["one slice"] = []sunit{{4, 1, 20}}
	au["one slice behind a short start code"] = []sunit{{3, 1, 20}}
	au["a delimiter and two slices"] = []sunit{{4, 9, 2}, {4, 1, 9}, {3, 1, 12}}
	au["parameter sets and an IDR slice"] = []sunit{{4, 9, 2}, {4, 7, 8}, {4, 8, 4}, {3, 5, 30}}
	au["parameter sets, SEI and two IDR slices"] = []sunit{{4, 7, 8}, {4, 8, 4}, {4, 6, 4}, {4, 5, 10}, {3, 5, 1}}
	au["small units behind short start codes"] = []sunit{{3, 1, 5}, {3, 11, 1}, {3, 1, 4}, {3, 10, 2}, {3, 1, 3}, {3, 10, 3}, {3, 1, 1}}
	au["small units behind long start codes"] = []sunit{{4, 1, 5}, {4, 11, 1}, {4, 1, 4}, {4, 10, 2}, {4, 1, 3}, {4, 10, 3}, {4, 1, 1}}
	au["small units behind either start code"] = []sunit{{3, 6, 1}, {4, 11, 1}, {3, 1, 2}, {4, 10, 2}, {3, 1, 3}, {4, 10, 1}, {3, 1, 1}}
	emitted := p.slot("librtmp", "srtBridge", "emittedVideoSeqHdr")
	key := p.slot("libsrt", "AccessUnit", "Key")
	var cases []bcase
	for _, w := range sortedKeys(au) {
		as, _ := lay(au[w])
		idr := uint64(0)
		for _, u := range au[w] {
			idr |= b2u(u.typ == 5)
		}
		cases = append(cases, bcase{w, append(append([]bassume(nil), as...), eqA(emitted, 1), eqA(key, idr))})
		if idr == 1 {
			cases = append(cases, bcase{w + " at the start", append(append([]bassume(nil), as...), eqA(emitted, 0), eqA(key, idr))})
		}
	}
	out = append(out, bspec{pkg: "librtmp", recv: "srtBridge", fn: "onVideo", cases: cases, calls: func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
		return func(st *bstate, full string, args []bval) (bval, bool) {
			_, fs := lay(au[strings.TrimSuffix(c.what, " at the start")])
			switch full {
			case gopType + "WriteMeta":
				st.events = append(st.events, "meta")
				if v, n := c.wrote(st, args[1], "VideoTag"); !c.bad {
					c.same("AVCPacketType of the parameter sets", c.now(v, n, "AVCPacketType"), bvConst(0, 8))
					var s, q found
					for _, f := range fs {
						switch f.typ {
						case 7:
							s = f
						case 8:
							q = f
						}
					}
					t := c.text().put("the version", 1).run("the profile", nal, s.off+1, 3).put("the sizes", 0xff, 0xe1, 0, s.n).run("the SPS", nal, s.off, s.n).put("one PPS", 1, 0, q.n).run("the PPS", nal, q.off, q.n)
					c.reads("the parameter sets", c.now(v, n, "VideoData"), t)
				}
				return bopq{"void"}, true
			case gopType + "Reset":
				st.events = append(st.events, "reset")
				return bopq{"void"}, true
			case gopType + "Write":
				st.events = append(st.events, "write")
				if v, n := c.wrote(st, args[1], "VideoTag"); !c.bad {
					t := c.text()
					idr := false
					for _, f := range fs {
						if f.typ == 7 || f.typ == 8 {
							continue
						}
						idr = idr || f.typ == 5
						t.put("the length of a NAL unit", 0, 0, f.n>>8, f.n&255).run("a NAL unit", nal, f.off, f.n)
					}
					c.reads("the frame", c.now(v, n, "VideoData"), t)
					c.same("CodecID", c.now(v, n, "CodecID"), bvConst(7, 8))
					c.same("AVCPacketType", c.now(v, n, "AVCPacketType"), bvConst(1, 8))
					c.same("FrameType", c.now(v, n, "FrameType"), bvConst(2-b2u(idr), 8))
				}
				return bopq{"void"}, true
			}
			return nil, false
		}
	}, check: func(c *bctx) {
		want := "write"
		if strings.HasSuffix(c.what, " at the start") {
			want = "meta write"
		}
		var ev []string
		for _, e := range c.st.events {
			if e != "reset" {
				ev = append(ev, e)
			}
		}
		c.ok++
		if got := strings.Join(ev, " "); got != want {
			c.fail("once", "a frame is not handed on once, behind its parameter sets when they come first (%s)", got)
		}
	}})

	data := p.fieldObj("libsrt", "AudioFrame", "Data", 1)
	aem := p.slot("librtmp", "srtBridge", "emittedAudioSeqHdr")
	adts := []bassume{nameA("len("+data+")", "eq", 60), nameA(data+"[0]", "eq", 0xff), nameA(data+"[1]", "eq", 0xf1)}
	out = append(out, bspec{pkg: "librtmp", recv: "srtBridge", fn: "onAudio", cases: []bcase{{"a frame", append([]bassume{eqA(aem, 1)}, adts...)}, {"the first frame", append([]bassume{eqA(aem, 0)}, adts...)}}, calls: func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
		return func(st *bstate, full string, args []bval) (bval, bool) {
			switch full {
			case gopType + "WriteMeta":
				st.events = append(st.events, "meta")
				if v, n := c.wrote(st, args[1], "AudioTag"); !c.bad {
					c.same("AACPacketType of the configuration", c.now(v, n, "AACPacketType"), bvConst(0, 8))
					h2, h3 := c.byteOf(data, 2), c.byteOf(data, 3)
					a := c.bytesOf(c.now(v, n, "SoundData"))
					c.ok++
					if c.vague(a) {
						return bopq{"void"}, true
					}
					if len(a) != 2 || a[0].b == nil || a[1].b == nil {
						c.fail("configuration", "the AAC configuration has no two bytes")
						return bopq{"void"}, true
					}
					// the profile is one more than ADTS says; rate and channels are taken over
					obj := c.m.bits(c.m.lin(h2[6:8]).add(linC(1), 1), 8)
					for i := 0; i < 5; i++ {
						if !c.okBit(a[0].b[3+i], obj[i]) {
							c.fail("configuration", "the object type of the AAC configuration is not the profile of the ADTS header plus one")
							return bopq{"void"}, true
						}
					}
					want := append(bv(nil), bit0, bit0, bit0)
					want = append(want, h3[6], h3[7], h2[0], bit0)
					want = append(want, h2[2], h2[3], h2[4], h2[5])
					got := append(append(bv(nil), a[1].b...), a[0].b[:3]...)
					for i := range want {
						if !c.okBit(got[i], want[i]) {
							c.fail("configuration", "the rate or the channels of the AAC configuration are not those of the ADTS header")
							return bopq{"void"}, true
						}
					}
				}
				return bopq{"void"}, true
			case gopType + "Write":
				st.events = append(st.events, "write")
				if v, n := c.wrote(st, args[1], "AudioTag"); !c.bad {
					c.reads("the frame", c.now(v, n, "SoundData"), c.text().run("the AAC frame behind its ADTS header", data, 7, 53))
					c.same("SoundFormat", c.now(v, n, "SoundFormat"), bvConst(10, 8))
					c.same("AACPacketType", c.now(v, n, "AACPacketType"), bvConst(1, 8))
				}
				return bopq{"void"}, true
			}
			return nil, false
		}
	}, check: func(c *bctx) {
		want := "write"
		if c.what == "the first frame" {
			want = "meta write"
		}
		c.ok++
		if got := strings.Join(c.st.events, " "); got != want {
			c.fail("once", "a frame is not handed on once, behind its configuration when it is the first (%s)", got)
		}
	}})
	return out
}

func (p *Prog) rtspCarry() []bspec {
	var out []bspec
	// in
	video := map[string][]unit{
		"one slice":                       {{1, 20, 0}},
		"one IDR slice":                   {{5, 20, 0}},
		"parameter sets and an IDR slice": {{7, 8, 0}, {8, 4, 0}, {5, 30, 0}},
		"two slices":                      {{1, 300, 0}, {1, 3, 0}},
	}
	var cases []bcase
	for _, w := range sortedKeys(video) {
		var as []bassume
		for i, u := range video[w] {
			n := "nals[" + strconv.Itoa(i) + "]"
			as = append(as, nameA("len("+n+")", "eq", uint64(u.n)), maskA(n+"[0]", 0x1f, uint64(u.typ)))
		}
		cases = append(cases, bcase{w, as})
	}
	out = append(out, bspec{pkg: "librtmp", recv: "rtspSession", fn: "handleVideoRTP", cases: cases, calls: func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
		return func(st *bstate, full string, args []bval) (bval, bool) {
			us := video[c.what]
			switch {
			case strings.HasSuffix(full, "librtsp.H264Reassembler).Push"):
				return btuple{bslice{"nals", linC(0), linC(int64(len(us)))}, c.m.atom(st, "ts", 32, "", "")}, true
			case full == gopType+"Reset":
				return bopq{"void"}, true
			case full == gopType+"Write":
				st.events = append(st.events, "write")
				if v, n := c.wrote(st, args[1], "VideoTag"); !c.bad {
					t := c.text()
					idr := false
					for i, u := range us {
						idr = idr || u.typ == 5
						t.put("the length of a NAL unit", 0, 0, u.n>>8, u.n&255).run("a NAL unit", "nals["+strconv.Itoa(i)+"]", 0, u.n)
					}
					c.reads("the frame", c.now(v, n, "VideoData"), t)
					c.same("CodecID", c.now(v, n, "CodecID"), bvConst(7, 8))
					c.same("AVCPacketType", c.now(v, n, "AVCPacketType"), bvConst(1, 8))
					c.same("FrameType", c.now(v, n, "FrameType"), bvConst(2-b2u(idr), 8))
				}
				return bopq{"void"}, true
			}
			return nil, false
		}
	}, check: func(c *bctx) { c.once() }})
	pay := p.fieldObj("librtsp", "RTPPacket", "Payload", 1)
	aus := []unit{{0, 5, 6}, {0, 3, 11}}
	var aas []bassume
	for i, v := range []int{0, 32, 0, 5 << 3, 0, 3 << 3} {
		aas = append(aas, nameA(pay+"["+strconv.Itoa(i)+"]", "eq", uint64(v)))
	}
	out = append(out, bspec{pkg: "librtmp", recv: "rtspSession", fn: "handleAudioRTP", cases: []bcase{{"two AAC frames", append(aas, nameA("len("+pay+")", "eq", 14))}}, calls: func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
		return func(st *bstate, full string, args []bval) (bval, bool) {
			if full != gopType+"Write" {
				return nil, false
			}
			k := len(st.events)
			st.events = append(st.events, "write")
			if v, n := c.wrote(st, args[1], "AudioTag"); !c.bad && k < 2 {
				c.reads("the frame", c.now(v, n, "SoundData"), c.text().run("the AAC frame", pay, aus[k].off, aus[k].n))
				c.same("SoundFormat", c.now(v, n, "SoundFormat"), bvConst(10, 8))
				c.same("AACPacketType", c.now(v, n, "AACPacketType"), bvConst(1, 8))
			}
			return bopq{"void"}, true
		}
	}, check: func(c *bctx) {
		c.ok++
		if len(c.st.events) != 2 {
			c.fail("once", "of the two frames of a packet %d are written", len(c.st.events))
		}
	}})

	// out
	vd, ad := p.fieldObj("libflv", "VideoTag", "VideoData", 1), p.fieldObj("libflv", "AudioTag", "SoundData", 1)
	frames := map[string][]unit{
		"one slice":               {{1, 20, 0}},
		"a large slice":           {{5, 3000, 0}},
		"SEI and two slices":      {{6, 9, 0}, {1, 200, 0}, {1, 30, 0}},
		"a large slice, a small":  {{1, 1500, 0}, {1, 30, 0}},
		"a slice of a packet":     {{1, 1400, 0}},
		"a slice over one packet": {{1, 1401, 0}},
		"small units":             {{6, 2, 0}, {1, 3, 0}, {1, 4, 0}, {1, 3, 0}},
		"slices of two packets":   {{1, 2795, 0}, {1, 2796, 0}, {1, 2797, 0}, {1, 2798, 0}},
	}
	tag := func(n string) string { return p.slot("libflv", "VideoTag", n) }
	var sends []bcase
	for _, w := range sortedKeys(frames) {
		as, _ := avccOf(vd, false, frames[w])
		sends = append(sends, bcase{"H.264, " + w, append(as, eqA(tag("AVCPacketType"), 1), eqA(tag("CodecID"), 7))})
		us := append([]unit(nil), frames[w]...)
		for i := range us {
			us[i].typ = 1
		}
		as, _ = avccOf(vd, true, us)
		sends = append(sends, bcase{"HEVC, " + w, append(as, eqA(tag("AVCPacketType"), 1), eqA(tag("CodecID"), 12))})
	}
	// what has been sent: "unit,byte"
	where := func(st *bstate) (int, int) {
		if len(st.events) == 0 {
			return 0, 0
		}
		e := strings.Split(st.events[len(st.events)-1], ",")
		a, _ := strconv.Atoi(e[0])
		b, _ := strconv.Atoi(e[1])
		return a, b
	}
	hook := func(c *bctx, units func() ([]unit, int, string), marker bool) func(st *bstate, full string, args []bval) (bval, bool) {
		return func(st *bstate, full string, args []bval) (bval, bool) {
			switch {
			case strings.HasSuffix(full, "librtmp.rtspSession).writeInterleaved"):
				return bnil{}, true
			case !strings.HasSuffix(full, "librtsp.RTPPacker).Pack"):
				return nil, false
			}
			rtp := c.m.mkSeq(st, []bitem{{seg: "rtp", off: linC(0), n: c.m.lenOf("rtp")}})
			if c.bad {
				return rtp, true
			}
			c.st = st
			us, hdr, obj := units()
			k, at := where(st)
			it := c.bytesOf(args[3])
			if c.vague(it) {
				return rtp, true
			}
			got, ok := c.expand(it)
			if !ok {
				c.undecided()
				return rtp, true
			}
			c.ok++
			if k >= len(us) {
				c.fail("more", "more is sent than the frame has")
				return rtp, true
			}
			u := us[k]
			frag := false
			if len(it) > hdr && it[0].b != nil {
				x, known := c.m.res(st, it[0].b[:5]).konst()
				if hdr == 2 {
					x, known = c.m.res(st, it[0].b[1:7]).konst()
				}
				frag = known && (hdr == 1 && x == 28 || hdr == 2 && x == 49)
			}
			if frag {
				if at == 0 {
					at = hdr
				}
				got = got[hdr+1:]
			} else if at != 0 {
				c.fail("order", "a NAL unit is sent before another is complete")
				return rtp, true
			}
			for i, b := range got {
				if at+i >= u.n || b != bvKey(c.m.res(st, c.byteOf(obj, u.off+at+i))) {
					c.fail("bytes", "byte %d of a payload is not byte %d of the NAL unit", i, at+i)
					return rtp, true
				}
			}
			at += len(got)
			if !frag && at != u.n {
				c.fail("bytes", "a payload ends before its NAL unit does")
				return rtp, true
			}
			if at == u.n {
				k, at = k+1, 0
			}
			st.events = append(st.events, strconv.Itoa(k)+","+strconv.Itoa(at))
			if marker {
				c.same("marker (only on the last packet of a frame)", args[1], bvConst(b2u(k == len(us)), 1))
			}
			return rtp, true
		}
	}
	all := func(c *bctx, n int) {
		c.ok++
		if k, at := where(c.st); k != n || at != 0 {
			c.fail("less", "not every NAL unit of a frame is sent")
		}
	}
	split := func(c *bctx) ([]unit, int, string) {
		w := c.what[strings.Index(c.what, ", ")+2:]
		_, us := avccOf(vd, false, frames[w])
		if strings.HasPrefix(c.what, "HEVC") {
			return us, 2, vd
		}
		return us, 1, vd
	}
	out = append(out, bspec{pkg: "librtmp", recv: "rtspSession", fn: "sendVideo", cases: sends, calls: func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
		return hook(c, func() ([]unit, int, string) { return split(c) }, true)
	}, check: func(c *bctx) {
		us, _, _ := split(c)
		all(c, len(us))
	}})
	seq := []bassume{eqA(tag("AVCPacketType"), 0), nameA("len("+vd+")", "eq", 28)}
	for i, v := range map[int]int{5: 0xe1, 6: 0, 7: 12, 20: 1, 21: 0, 22: 5} {
		seq = append(seq, nameA(vd+"["+strconv.Itoa(i)+"]", "eq", uint64(v)))
	}
	out = append(out, bspec{pkg: "librtmp", recv: "rtspSession", fn: "sendVideoSeqHeader", cases: []bcase{{"parameter sets", seq}}, calls: func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
		return hook(c, func() ([]unit, int, string) { return []unit{{7, 12, 8}, {8, 5, 23}}, 1, vd }, false)
	}, check: func(c *bctx) { all(c, 2) }})
	at := func(n string) string { return p.slot("libflv", "AudioTag", n) }
	var sounds []bcase
	for _, q := range []struct {
		what string
		id   uint64
	}{{"AAC", 10}, {"Opus", 13}} {
		as := []bassume{eqA(at("SoundFormat"), q.id), eqA(at("AACPacketType"), 1), nameA("len("+ad+")", "eq", 90)}
		if q.what == "AAC" {
			as = append(as, hiA2(ad+"[0]", 0xfe))
		}
		sounds = append(sounds, bcase{q.what, as})
	}
	out = append(out, bspec{pkg: "librtmp", recv: "rtspSession", fn: "sendAudio", cases: sounds, calls: func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
		return func(st *bstate, full string, args []bval) (bval, bool) {
			switch {
			case strings.HasSuffix(full, "librtmp.rtspSession).writeInterleaved"):
				return bnil{}, true
			case !strings.HasSuffix(full, "librtsp.RTPPacker).Pack"):
				return nil, false
			}
			c.st = st
			st.events = append(st.events, "write")
			if !c.bad {
				t := c.text()
				if c.what == "AAC" {
					t.put("the header of an AAC payload", 0, 16, 90>>5, 90<<3&255)
				}
				c.reads("the payload", args[3], t.run("the frame", ad, 0, 90))
				c.same("marker", args[1], bvConst(1, 1))
			}
			return c.m.mkSeq(st, []bitem{{seg: "rtp", off: linC(0), n: c.m.lenOf("rtp")}}), true
		}
	}, check: func(c *bctx) { c.once() }})
	return out
}

func hiA2(n string, v uint64) bassume { return nameA(n, "hi", v) }

// once: what goes in goes out exactly once.
func (c *bctx) once() {
	c.ok++
	if len(c.st.events) != 1 {
		c.fail("once", "a frame is handed on %d times", len(c.st.events))
	}
}

// dashCarry: the samples of a fragment.
func (p *Prog) dashCarry() []bspec {
	var out []bspec
	dt, st := p.namedType("libdash", "DASH"), p.namedType("libdash", "sampleWithTime")
	if dt == nil || st == nil {
		return nil
	}
	q, _, _ := fieldPath(dt, "currentSamples")
	el := func(i int, f string) string {
		k, _, _ := fieldPath(st, f)
		return "p0" + q + "[" + strconv.Itoa(i) + "]" + k
	}
	type fr struct {
		dts []int
		dur []int
	}
	fs := map[string]fr{
		"two samples":              {[]int{1000, 1040}, []int{40, 40}},
		"three samples":            {[]int{5, 45, 145}, []int{40, 100, 100}},
		"two samples at once":      {[]int{70, 70, 110}, []int{0, 40, 40}},
		"a time that steps back":   {[]int{100, 80, 120}, []int{0, 40, 40}},
		"a time beyond 32 seconds": {[]int{1 << 20, 1<<20 + 33}, []int{33, 33}},
	}
	var cases []bcase
	for _, w := range sortedKeys(fs) {
		as := []bassume{nameA("len(p0"+q+")", "eq", uint64(len(fs[w].dts)))}
		for i, d := range fs[w].dts {
			as = append(as, nameA(el(i, "dts"), "eq", uint64(d)), nameA("len("+el(i, "data")+")", "eq", uint64(20+i)))
		}
		cases = append(cases, bcase{w, as})
	}
	mp, sm := p.namedType("libmp4", "MediaSegmentParams"), p.namedType("libmp4", "Sample")
	out = append(out, bspec{pkg: "libdash", recv: "DASH", fn: "flushCurrent", cases: cases, calls: func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
		return func(st *bstate, full string, args []bval) (bval, bool) {
			if !strings.HasSuffix(full, "libmp4.BuildMediaSegment") {
				return nil, false
			}
			frag := c.m.mkSeq(st, []bitem{{seg: "frag", off: linC(0), n: c.m.lenOf("frag")}})
			st.events = append(st.events, "fragment")
			if c.bad || mp == nil || sm == nil {
				return frag, true
			}
			c.st = st
			x := fs[c.what]
			c.same("BaseDecodeTime", c.now(args[0], mp, "BaseDecodeTime"), bvConst(uint64(x.dts[0]), 64))
			v := c.now(args[0], mp, "Samples")
			e := c.elemsOfType(v, len(x.dts), sm)
			if c.bad {
				return frag, true
			}
			if e == nil {
				c.fail("samples", "not every sample gets in the fragment")
				return frag, true
			}
			for i := range e {
				d := el(i, "data")
				c.reads("the data of a sample", c.now(e[i], sm, "Data"), c.text().run("the frame", d, 0, 20+i))
				c.same("Size", c.now(e[i], sm, "Size"), bvConst(uint64(20+i), 32))
				c.same("Duration", c.now(e[i], sm, "Duration"), bvConst(uint64(x.dur[i]), 32))
				c.same("IsKey", c.now(e[i], sm, "IsKey"), c.m.atom(st, el(i, "key"), 1, "", ""))
				c.same("CompositionTimeOffset", c.now(e[i], sm, "CompositionTimeOffset"), c.m.atom(st, el(i, "cts"), 32, "", ""))
			}
			return frag, true
		}
	}, check: func(c *bctx) {
		c.ok++
		if len(c.st.events) != 1 {
			c.fail("once", "the samples make %d fragments", len(c.st.events))
		}
	}})

	// a tag becomes a sample
	tag := func(n string) string { return p.slot("libflv", "VideoTag", n) }
	vt := p.namedType("libflv", "VideoTag")
	if vt == nil {
		return out
	}
	vq, _, _ := fieldPath(vt, "VideoData")
	one := func(codec, frame, have uint64) []bassume {
		as := []bassume{eqA(tag("CodecID"), codec), eqA(tag("AVCPacketType"), 1), eqA(tag("FrameType"), frame), nameA("len(tag"+vq+")", "eq", 50), nameA("len(p0"+q+")", "eq", have)}
		if have > 0 {
			as = append(as, nameA(el(0, "dts"), "eq", 0))
		}
		return as
	}
	out = append(out, bspec{pkg: "libdash", recv: "DASH", fn: "Start", cases: []bcase{
		{"a key frame, the first sample", one(7, 1, 0)}, {"a frame after it", one(7, 2, 1)}, {"a HEVC frame", one(12, 2, 1)},
		{"a frame before any key frame", one(7, 2, 0)},
	}, calls: func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
		return func(st *bstate, full string, args []bval) (bval, bool) {
			switch {
			case strings.HasSuffix(full, "broadcast.BroadcastReader).Read"):
				st.events = append(st.events, "read")
				if len(st.events) == 1 {
					return btuple{biface{bptr{"tag"}, types.NewPointer(vt)}, bvConst(1, 1)}, true
				}
				return btuple{bnil{}, bvConst(0, 1)}, true
			case strings.HasSuffix(full, "libdash.DASH).stopRequested"):
				return bvConst(0, 1), true
			case strings.HasSuffix(full, "libdash.DASH).flushCurrent"):
				return bnil{}, true
			}
			return nil, false
		}
	}, check: func(c *bctx) {
		if len(c.st.events) < 2 {
			return // the directory could not be made
		}
		v, _ := c.now(c.args[0], dt, "currentSamples").(bslice)
		n := 1
		switch c.what {
		case "a frame after it", "a HEVC frame":
			n = 2
		case "a frame before any key frame":
			n = 0
		}
		l := c.m.fold(c.st, v.n)
		if l == nil || !l.isConst() {
			c.undecided()
			return
		}
		// without a decoder configuration nothing can be kept
		iq, _, _ := fieldPath(dt, "initBytes")
		k, known := c.m.res(c.st, c.m.atom(c.st, "nil p0"+iq, 1, "", "")).konst()
		c.ok++
		if known && k == 1 {
			return
		}
		if int(l.c) != n {
			c.fail("kept", "of %d samples %d are kept", n, l.c)
			return
		}
		if n == 0 {
			return
		}
		e := c.elemsOfType(v, n, st)
		if e == nil || c.bad {
			c.undecided()
			return
		}
		x := e[n-1]
		c.reads("the data of a sample", c.now(x, st, "data"), c.text().run("the frame", "tag"+vq, 0, 50))
		c.same("key", c.now(x, st, "key"), bvConst(b2u(c.what == "a key frame, the first sample"), 1))
	}})
	return out
}

// elemsOfType: the addresses of the elements of a slice of structures.
func (c *bctx) elemsOfType(v bval, n int, t types.Type) []bval {
	s, ok := v.(bslice)
	if !ok {
		c.undecided()
		return nil
	}
	l, o := c.m.fold(c.st, s.n), c.m.fold(c.st, s.off)
	if !l.isConst() || !o.isConst() {
		c.undecided()
		return nil
	}
	if int(l.c) != n {
		return nil
	}
	var out []bval
	for i := 0; i < n; i++ {
		out = append(out, bstruct{s.obj + "[" + strconv.FormatInt(o.c+int64(i), 10) + "]"})
	}
	return out
}
