package main

// The layouts of fragmented MP4: the boxes are walked as a player walks
// them, each by its own size.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

type bbox struct {
	typ  string
	at   *blin // from the beginning of the file
	size *blin
	body []bitem
	kids []bbox
}

func (b *bbox) find(path ...string) *bbox {
	if len(path) == 0 {
		return b
	}
	for i := range b.kids {
		if b.kids[i].typ == path[0] {
			if r := b.kids[i].find(path[1:]...); r != nil {
				return r
			}
		}
	}
	return nil
}

var boxParents = map[string]int{"moov": 0, "trak": 0, "mdia": 0, "minf": 0, "dinf": 0, "stbl": 0, "mvex": 0, "moof": 0, "traf": 0, "stsd": 8, "dref": 8, "avc1": 78, "hev1": 78, "hvc1": 78}

func itemBits(items []bitem, n int) bv {
	// the first n bytes as a big-endian number
	var r bv
	for i := n - 1; i >= 0; i-- {
		if i >= len(items) || items[i].b == nil {
			return nil
		}
		r = append(r, items[i].b...)
	}
	return r
}

// boxes cuts a run of bytes into boxes; each must end where its size says.
func (c *bctx) boxes(in string, items []bitem, at *blin) []bbox {
	var out []bbox
	if c.vague(items) {
		return nil
	}
	for len(items) > 0 {
		size := itemBits(items, 4)
		tb := bv(nil)
		if len(items) >= 8 {
			tb = itemBits(items[4:], 4)
		}
		v, ok := uint64(0), false
		if tb != nil {
			v, ok = tb.konst()
		}
		if size == nil || !ok {
			c.fail("box", "in %s a box should begin, there is no size and type", in)
			return nil
		}
		typ := string([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
		c.ok++
		size = c.m.res(c.st, size)
		end, n := -1, linC(0)
		for i := 0; i <= len(items); i++ {
			if i >= 8 && c.m.sameBits(size, c.m.res(c.st, c.m.bits(n, 32))) {
				end = i
				break
			}
			if i == len(items) {
				break
			}
			if items[i].b != nil {
				n = n.add(linC(1), 1)
			} else {
				n = n.add(items[i].n, 1)
			}
		}
		if end < 0 {
			c.fail("size", "the size of box %s does not end at the end of a box of %s", typ, in)
			return nil
		}
		b := bbox{typ: typ, at: at, size: n, body: items[8:end]}
		if skip, isp := boxParents[typ]; isp {
			if len(b.body) < skip {
				c.fail("size", "box %s is too short", typ)
				return nil
			}
			b.kids = c.boxes(typ, b.body[skip:], at.add(linC(int64(8+skip)), 1))
			b.body = b.body[:skip]
			if c.bad {
				return nil
			}
		}
		out = append(out, b)
		items = items[end:]
		at = at.add(n, 1)
	}
	return out
}

func (c *bctx) need(b *bbox, path ...string) *bbox {
	r := b.find(path...)
	if r == nil {
		c.fail("boxes", "there is no box %s", strings.Join(path, "/"))
	}
	return r
}

// box compares the body of a box with its layout.
func (c *bctx) box(b *bbox, l *lay) {
	if b == nil || c.bad {
		return
	}
	what := c.what
	c.what += ", box " + b.typ
	c.match(b.body, l)
	c.what = what
}

func version(b *bbox) int {
	if b != nil && len(b.body) > 0 {
		if v, ok := b.body[0].b.konst(); ok && v == 1 {
			return 1
		}
	}
	return 0
}

func full(l *lay, ver int, flags uint64) *lay {
	return l.c("version", uint64(ver), 8).c("flags", flags, 24)
}

func matrix(l *lay) {
	for _, v := range []uint64{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000} {
		l.c("matrix", v, 32)
	}
}

func (c *bctx) initSegment(entry, config string, configBody func(l *lay)) {
	top := bbox{kids: c.boxes("the file", c.bytesOf(c.res[0]), linC(0))}
	if c.bad {
		return
	}
	if len(top.kids) != 2 || top.kids[0].typ != "ftyp" || top.kids[1].typ != "moov" {
		c.fail("boxes", "an init segment is not a ftyp and a moov")
		return
	}
	trak := []string{"moov", "trak"}
	mdia := append(trak[:2:2], "mdia")
	minf := append(mdia[:3:3], "minf")
	stbl := append(minf[:4:4], "stbl")
	at := func(p []string, s ...string) *bbox { return c.need(&top, append(p[:len(p):len(p)], s...)...) }
	w := func(b *bbox) int { return 32 + 32*version(b) }

	b := at(trak[:1], "mvhd")
	l := full(&lay{}, version(b), 0).skip("creation time", w(b)).skip("modification time", w(b)).u("timescale", c.was(0, "Timescale"), 32).skip("duration", w(b)).c("rate", 0x10000, 32).skip("volume", 16).c("reserved", 0, 16).c("reserved", 0, 64)
	matrix(l)
	c.box(b, l.skip("pre-defined", 192).skip("next track", 32))

	b = at(trak, "tkhd")
	l = (&lay{}).c("version", uint64(version(b)), 8).c("flags", 0, 21).skip("in preview", 1).c("in movie, enabled", 3, 2).skip("creation time", w(b)).skip("modification time", w(b)).u("track id", c.was(0, "TrackID"), 32).c("reserved", 0, 32).skip("duration", w(b)).c("reserved", 0, 64)
	l.skip("layer, group, volume", 48).c("reserved", 0, 16)
	matrix(l)
	c.box(b, l.u("width", c.was(0, "Width"), 16).c("width", 0, 16).u("height", c.was(0, "Height"), 16).c("height", 0, 16))

	b = at(mdia, "mdhd")
	c.box(b, full(&lay{}, version(b), 0).skip("creation time", w(b)).skip("modification time", w(b)).u("timescale", c.was(0, "Timescale"), 32).skip("duration", w(b)).skip("language", 16).skip("pre-defined", 16))

	if b = at(mdia, "hdlr"); b != nil {
		l = full(&lay{}, 0, 0).skip("pre-defined", 32)
		for _, ch := range "vide" {
			l.c("handler", uint64(ch), 8)
		}
		l.skip("reserved", 96)
		if n := len(b.body) - 24; n > 0 {
			l.skip("name", 8*(n-1)).c("end of the name", 0, 8)
		}
		c.box(b, l)
	}
	c.box(at(minf, "vmhd"), full(&lay{}, 0, 1).skip("graphics mode", 64))
	c.box(at(minf, "dinf", "dref"), full(&lay{}, 0, 0).c("entries", 1, 32))
	c.box(at(minf, "dinf", "dref", "url "), full(&lay{}, 0, 1))
	for _, n := range []string{"stts", "stsc", "stco"} {
		c.box(at(stbl, n), full(&lay{}, 0, 0).c("entries", 0, 32))
	}
	c.box(at(stbl, "stsz"), full(&lay{}, 0, 0).c("size", 0, 32).c("samples", 0, 32))
	c.box(at(stbl, "stsd"), full(&lay{}, 0, 0).c("entries", 1, 32))
	c.box(at(stbl, "stsd", entry), (&lay{}).c("reserved", 0, 48).c("data reference", 1, 16).c("pre-defined and reserved", 0, 128).u("width", c.was(0, "Width"), 16).u("height", c.was(0, "Height"), 16).c("resolution", 0x480000, 32).c("resolution", 0x480000, 32).c("reserved", 0, 32).c("frame count", 1, 16).skip("compressor", 256).c("depth", 24, 16).c("pre-defined", 0xffff, 16))
	l = &lay{}
	configBody(l)
	c.box(at(stbl, "stsd", entry, config), l)
	c.box(c.need(&top, "moov", "mvex", "trex"), full(&lay{}, 0, 0).u("track id", c.was(0, "TrackID"), 32).c("sample description", 1, 32).skip("defaults", 96))
}

func (c *bctx) mediaSegment(n int) {
	top := bbox{kids: c.boxes("the file", c.bytesOf(c.res[0]), linC(0))}
	if c.bad {
		return
	}
	moof, mdat := c.need(&top, "moof"), c.need(&top, "mdat")
	if moof == nil || mdat == nil {
		return
	}
	q, st, _ := fieldPath(c.f.Params[0].Type(), "Samples")
	elem := st.Underlying().(*types.Slice).Elem()
	sample := func(i int, name string, w int) (string, bv) {
		fp, _, sl := fieldPath(elem, name)
		b := "p0" + q + "[" + strconv.Itoa(i) + "]"
		if w == 0 {
			return b + fp, nil
		}
		return b + fp, c.m.atom(c.st, b+fp, w, sl, b)
	}
	// what is in mdat
	for i := 0; i < n; i++ {
		obj, _ := sample(i, "Data", 0)
		c.ok++
		if i >= len(mdat.body) || mdat.body[i].b != nil || mdat.body[i].seg != obj || mdat.body[i].off.String() != "0" || !linEq(mdat.body[i].n, c.m.lenOf(obj)) {
			c.fail("mdat", "the data of sample %d are not where they belong in mdat", i)
			return
		}
	}
	if len(mdat.body) != n {
		c.fail("mdat", "mdat holds more than the samples")
		return
	}
	c.box(c.need(moof, "mfhd"), full(&lay{}, 0, 0).u("sequence number", c.was(0, "SequenceNumber"), 32))
	c.box(c.need(moof, "traf", "tfhd"), full(&lay{}, 0, 0x020000).u("track id", c.was(0, "TrackID"), 32))
	b := c.need(moof, "traf", "tfdt")
	c.box(b, full(&lay{}, 1, 0).u("base decode time", c.was(0, "BaseDecodeTime"), 64))
	b = c.need(moof, "traf", "trun")
	if b == nil || c.bad {
		return
	}
	if len(b.body) < 8 {
		c.fail("trun", "trun has no header")
		return
	}
	fl, ok := itemBits(b.body[1:], 3).konst()
	if !ok || fl&0xb01 != 0xb01 {
		c.fail("trun", "trun does not announce duration, size and composition offset of each sample and where the data are")
		return
	}
	l := (&lay{}).skip("version", 8).c("flags", fl, 24).c("samples", uint64(n), 32)
	// the data offset counts from the beginning of moof
	off := mdat.at.add(linC(8), 1).add(moof.at, -1)
	l.u("data offset", c.m.res(c.st, c.m.bits(off, 32)), 32)
	if fl&4 != 0 {
		l.skip("first sample flags", 32)
	}
	for i := 0; i < n; i++ {
		_, d := sample(i, "Duration", 32)
		l.u(fmt.Sprintf("duration of sample %d", i), d, 32)
		_, s := sample(i, "Size", 32)
		l.u(fmt.Sprintf("size of sample %d", i), s, 32)
		_, k := sample(i, "IsKey", 1)
		if fl&0x400 != 0 {
			l.skip("leading", 6).u("depends on others", bv{notBit(k[0]), k[0]}, 2).skip("dependency", 7).u("not a sync sample", bv{notBit(k[0])}, 1).skip("priority", 16)
		}
		_, t := sample(i, "CompositionTimeOffset", 32)
		l.u(fmt.Sprintf("composition offset of sample %d", i), t, 32)
	}
	if v := version(b); v != 1 {
		c.fail("trun", "trun has version 0, in which composition offsets are unsigned")
	}
	c.box(b, l)
}

func (p *Prog) boxSpecs() []bspec {
	var out []bspec
	ln := func(typ, f string, lo, hi uint64) []bassume {
		n := p.lenName("libmp4", typ, f)
		return []bassume{nameA(n, "lo", lo), nameA(n, "hi", hi)}
	}
	out = append(out, bspec{pkg: "libmp4", fn: "BuildInitSegment", cases: []bcase{{"AVC", append(ln("InitSegmentParams", "SPS", 4, 65535), ln("InitSegmentParams", "PPS", 0, 65535)...)}}, check: func(c *bctx) {
		c.initSegment("avc1", "avcC", func(l *lay) {
			q, _, _ := fieldPath(c.f.Params[0].Type(), "SPS")
			sps, pps := c.wasSlice(0, "SPS"), c.wasSlice(0, "PPS")
			l.c("version", 1, 8)
			for i := 1; i < 4; i++ {
				l.u("profile and level", c.byteOf("p0"+q, i), 8)
			}
			l.c("reserved", 63, 6).c("length size", 3, 2).c("reserved", 7, 3).c("SPS", 1, 5)
			l.u("SPS length", c.m.res(c.st, c.m.bits(sps.n, 16)), 16).seg("SPS", sps).c("PPS", 1, 8).u("PPS length", c.m.res(c.st, c.m.bits(pps.n, 16)), 16).seg("PPS", pps)
		})
	}})
	out = append(out, bspec{pkg: "libmp4", fn: "BuildHEVCInitSegment", cases: []bcase{{"HEVC", ln("HEVCInitParams", "HVCCRecord", 1, 65535)}}, check: func(c *bctx) {
		c.initSegment("hev1", "hvcC", func(l *lay) { l.seg("configuration record", c.wasSlice(0, "HVCCRecord")) })
	}})
	n := p.lenName("libmp4", "MediaSegmentParams", "Samples")
	data := strings.TrimSuffix(strings.TrimPrefix(n, "len("), ")")
	dataAt := p.lenName("libmp4", "Sample", "Data")
	var cases []bcase
	for k := 1; k <= 2; k++ {
		as := []bassume{nameA(n, "eq", uint64(k))}
		for i := 0; i < k; i++ {
			as = append(as, nameA("len("+data+"["+strconv.Itoa(i)+"]"+strings.TrimPrefix(dataAt, "len(p0"), "hi", 1<<24))
		}
		cases = append(cases, bcase{strconv.Itoa(k) + " samples", as})
	}
	out = append(out, bspec{pkg: "libmp4", fn: "BuildMediaSegment", cases: cases, check: func(c *bctx) {
		k, _ := strconv.Atoi(c.what[:1])
		c.mediaSegment(k)
	}})
	return out
}
