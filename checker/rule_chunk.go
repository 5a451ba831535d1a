package main

// C30: RTMP messages are cut into chunks and put together again exactly.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C30", "other", chunking) }

func chunking(p *Prog, r *Report) {
	r.Rule = "bit-provenance interpretation of the senders and the receiver of RTMP messages: every chunk on the wire, and every message put together, compared with the chunk stream the protocol demands"
	fns := map[*ssa.Function]bool{}
	for _, s := range append(p.cutSpecs(), p.joinSpecs()...) {
		p.bitSpec(r, s, fns)
	}
	p.announcedChunks(r)
	r.count("functions", len(fns))
	r.atLeast("formats", 6)
	r.atLeast("chunk sizes announced", 1)
}

// announcedChunks: the chunk size the peer is told is the one its messages
// are cut into.
func (p *Prog) announcedChunks(r *Report) {
	t := p.namedType("librtmp", "SetChunkSizeMessage")
	own := p.slot("librtmp", "RTMP", "ownMaxChunkSize")
	if t == nil || own == "" {
		r.find("coverage|announced", "-", "the message that announces the chunk size, or the size in use, was not found: the rule cannot be decided")
		return
	}
	for _, f := range p.Funcs {
		if f.Blocks == nil || f.Pkg == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !types.Identical(derefType(c.Type()), t) || len(c.Call.Args) == 0 {
					continue
				}
				vs, ok := varargs(c.Call.Args[len(c.Call.Args)-1])
				if !ok || len(vs) != 1 {
					continue
				}
				r.count("chunk sizes announced", 1)
				v := unbox(vs[0])
				if pv, ok := v.(*ssa.Parameter); ok {
					if !p.alwaysOwn(pv, own, 3) {
						r.find("announced|"+fname(f), p.pos(in.Pos()), "the chunk size announced is not the one messages are cut into")
					}
					continue
				}
				if loadSlot(v) == own {
					r.count("obligations", 1)
					continue
				}
				k, isK := intOf(v)
				if !isK {
					r.find("announced|"+fname(f), p.pos(in.Pos()), "the chunk size announced is not the one messages are cut into")
					continue
				}
				same := false
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && slotAddr(st.Addr) == own {
							if m, ok := intOf(unbox(st.Val)); ok && m == k {
								same = true
							}
						}
					}
				}
				if !same {
					r.find("announced|"+fname(f), p.pos(in.Pos()), "the chunk size announced (%d) is not the one messages are cut into", k)
				}
			}
		}
	}
}

// unbox looks through conversions and interfaces.
func unbox(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func intOf(v ssa.Value) (int64, bool) {
	if k, ok := v.(*ssa.Const); ok {
		return constInt(k)
	}
	return 0, false
}

// alwaysOwn: every caller passes the slot's value for the parameter.
func (p *Prog) alwaysOwn(v *ssa.Parameter, own string, depth int) bool {
	f := v.Parent()
	i := -1
	for j, q := range f.Params {
		if q == v {
			i = j
		}
	}
	cs := p.Callers(f)
	if depth == 0 || i < 0 || len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		as := c.Common().Args
		if i >= len(as) {
			return false
		}
		a := unbox(as[i])
		if pv, ok := a.(*ssa.Parameter); ok && p.alwaysOwn(pv, own, depth-1) {
			continue
		}
		if loadSlot(a) != own {
			return false
		}
	}
	return true
}

// cutSpecs: what the senders write.
func (p *Prog) cutSpecs() []bspec {
	var out []bspec
	chunk := p.slot("librtmp", "RTMP", "ownMaxChunkSize")
	sizes := [][2]int{{1, 128}, {128, 128}, {129, 128}, {256, 128}, {300, 128}, {4097, 4096}}
	add := func(recv, fn, what string, id uint64, body string, timed bool) {
		var cases []bcase
		type info struct {
			n, s int
			ext  bool
		}
		in := map[string]info{}
		for _, q := range sizes {
			for e := 0; e < 2; e++ {
				if e == 1 && !timed {
					continue
				}
				w := what + " of " + strconv.Itoa(q[0]) + " bytes in chunks of " + strconv.Itoa(q[1])
				as := []bassume{nameA("len("+body+")", "eq", uint64(q[0])), eqA(chunk, uint64(q[1]))}
				if e == 1 {
					w += ", extended timestamp"
					as = append(as, loA(p.slot("librtmp", "MessageBase", "messageTime"), 0xffffff))
				} else {
					as = append(as, hiA(p.slot("librtmp", "MessageBase", "messageTime"), 0xfffffe))
				}
				in[w] = info{q[0], q[1], e == 1}
				cases = append(cases, bcase{w, as})
			}
		}
		calls := func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
			return func(st *bstate, full string, args []bval) (bval, bool) {
				switch {
				case full == "I:Encode" || strings.Contains(full, "libamf") && strings.HasSuffix(full, ".Encode"):
					return bnil{}, true
				case full == "io.ReadAll" || full == "io/ioutil.ReadAll" || full == "I:ReadAll":
					return btuple{bslice{"body", linC(0), c.m.lenOf("body")}, bnil{}}, true
				case full == "(*bytes.Buffer).Bytes":
					return bslice{"body", linC(0), c.m.lenOf("body")}, true
				case strings.Contains(full, "structs."):
					return bopq{"map"}, true
				}
				return nil, false
			}
		}
		out = append(out, bspec{pkg: "librtmp", recv: recv, fn: fn, cases: cases, calls: calls, check: func(c *bctx) {
			x := in[c.what]
			it := c.st.out
			if c.vague(it) {
				return
			}
			if len(it) < 12 || it[0].b == nil {
				c.fail("chunks", "no chunk is written")
				return
			}
			cs := it[0].b[:6]
			t := bvConst(0, 32)
			if timed {
				t = c.was(0, "messageTime")
			}
			l := &lay{}
			for at := 0; at < x.n; at += x.s {
				n := x.n - at
				if n > x.s {
					n = x.s
				}
				if at == 0 {
					l.c("format of the first chunk", 0, 2).u("chunk stream id", cs, 6)
					if x.ext {
						l.c("timestamp", 0xffffff, 24)
					} else {
						l.u("timestamp", t, 24)
					}
					l.c("message length", uint64(x.n), 24).c("message type", id, 8).skip("message stream id", 32)
				} else {
					l.c("format of a further chunk", 3, 2).u("chunk stream id of a further chunk", cs, 6)
				}
				if x.ext {
					l.u("extended timestamp", t, 32)
				}
				l.seg("the part of the message from byte "+strconv.Itoa(at), bslice{body, linC(int64(at)), linC(int64(n))})
			}
			c.match(it, l)
		}})
	}
	pay := func(typ string) string {
		n := p.lenName("librtmp", typ, "messagePayload")
		return strings.TrimSuffix(strings.TrimPrefix(n, "len("), ")")
	}
	add("VideoMessage", "Send", "video", 9, pay("VideoMessage"), true)
	add("AudioMessage", "Send", "audio", 8, pay("AudioMessage"), true)
	add("DataMessage", "Send", "metadata", 18, pay("DataMessage"), true)
	add("CommandMessageResponse", "Send", "a command", 20, "body", true)
	add("RTMP", "sendCommandRaw", "a request", 20, "body", false)
	return out
}

// joinSpecs: what the receiver makes of chunks.
func (p *Prog) joinSpecs() []bspec {
	var out []bspec
	peer := p.slot("librtmp", "RTMP", "peerMaxChunkSize")
	type msg struct {
		typ   string
		id    int
		ts    [4]int // byte positions of the timestamp in the stream
		n     int
		parts []brun
	}
	type hist struct {
		as    []bassume
		done  msg
		open  map[int][]brun
		css   []int
		total int
	}
	hs := map[string]hist{}
	var cases []bcase
	rt := p.namedType("librtmp", "RTMP")
	if rt == nil {
		return nil
	}
	q1, _, _ := fieldPath(rt, "partial")
	q2, _, _ := fieldPath(rt, "lastChunk")
	key := func(q string, cs int) string { return "p0" + q + "<" + bvKey(bvConst(uint64(cs), 32)) + ">" }

	// a chunk stream, written from its chunks
	type ck struct {
		cs, typ, n int
		ext        bool
	}
	mk := func(what string, size int, seq []ck) {
		h := hist{open: map[int][]brun{}}
		at := 0
		put := func(v ...int) {
			for _, x := range v {
				if x >= 0 {
					h.as = append(h.as, nameA("in["+strconv.Itoa(at)+"]", "eq", uint64(x)))
				}
				at++
			}
		}
		left := map[int]int{}
		first := map[int]ck{}
		ms := map[int]*msg{}
		names := map[int]string{1: "SetChunkSizeMessage", 2: "AbortMessage", 3: "AcknowledgeMessage", 4: "UserControlMessage", 5: "WindowAcknowledgeSizeMessage", 6: "SetPeerBandWidthMessage", 8: "AudioMessage", 9: "VideoMessage", 15: "DataMessage", 16: "DiscardMessage", 17: "CommandMessage", 18: "DataMessage", 19: "DiscardMessage", 20: "CommandMessage", 22: "AggregateMessage"}
		seen := map[int]bool{}
		for _, k := range seq {
			if left[k.cs] == 0 {
				put(k.cs)
				m := &msg{typ: names[k.typ], id: k.typ, n: k.n}
				if k.ext {
					put(255, 255, 255)
				} else {
					m.ts = [4]int{-1, at, at + 1, at + 2}
					put(0, -1, -1)
				}
				put(k.n>>16, k.n>>8&255, k.n&255, k.typ, -1, -1, -1, -1)
				if k.ext {
					m.ts = [4]int{at, at + 1, at + 2, at + 3}
					put(-1, -1, -1, -1)
				}
				left[k.cs], first[k.cs], ms[k.cs] = k.n, k, m
				if !seen[k.cs] {
					h.as = append(h.as, nameA("nil "+key(q1, k.cs), "eq", 1), nameA("nil "+key(q2, k.cs), "eq", 1))
					seen[k.cs] = true
					h.css = append(h.css, k.cs)
				}
			} else {
				put(0xc0 | k.cs)
				if first[k.cs].ext {
					put(-1, -1, -1, -1)
				}
			}
			n := left[k.cs]
			if n > size {
				n = size
			}
			m := ms[k.cs]
			m.parts = append(m.parts, brun{"in", int64(at), int64(n)})
			at += n
			left[k.cs] -= n
			if left[k.cs] == 0 {
				h.done = *m
			}
		}
		for cs, n := range left {
			if n > 0 {
				h.open[cs] = ms[cs].parts
			}
		}
		h.total = at
		h.as = append(h.as, eqA(peer, uint64(size)))
		hs[what] = h
		cases = append(cases, bcase{what, h.as})
	}
	mk("a message in one chunk", 128, []ck{{6, 9, 20, false}})
	mk("a message of exactly one chunk", 128, []ck{{6, 9, 128, false}})
	mk("a message in two chunks", 128, []ck{{6, 9, 200, false}, {6, 9, 200, false}})
	mk("a message of exactly two chunks", 128, []ck{{4, 8, 256, false}, {4, 8, 256, false}})
	mk("a message in three chunks, extended timestamp", 128, []ck{{6, 9, 300, true}, {6, 9, 300, true}, {6, 9, 300, true}})
	mk("a message in one large chunk", 4096, []ck{{6, 9, 3000, false}})
	mk("audio between the chunks of video", 128, []ck{{6, 9, 300, false}, {4, 8, 200, false}, {6, 9, 300, false}, {4, 8, 200, false}})
	mk("a whole message between the chunks of another comes first", 128, []ck{{6, 9, 300, false}, {6, 9, 300, false}, {4, 8, 100, false}})
	mk("three messages interleaved", 128, []ck{{6, 9, 300, false}, {4, 8, 200, false}, {8, 18, 400, false}, {8, 18, 400, false}, {6, 9, 300, false}, {6, 9, 300, false}})
	for _, t := range []int{1, 2, 3, 4, 5, 6, 15, 16, 17, 18, 19, 20, 22} {
		mk("a message of type "+strconv.Itoa(t), 128, []ck{{3, t, 10, false}})
	}
	msgOf := func(full, meth string) string {
		if !strings.HasPrefix(full, "(*"+modPath+"/librtmp.") || !strings.HasSuffix(full, ")."+meth) {
			return ""
		}
		return full[len("(*"+modPath+"/librtmp.") : len(full)-len(")."+meth)]
	}
	out = append(out, bspec{pkg: "librtmp", fn: "ParseMessage", cases: cases, calls: func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
		return func(st *bstate, full string, args []bval) (bval, bool) {
			if msgOf(full, "Do") != "" {
				st.events = append(st.events, "do")
				return bnil{}, true
			}
			typ := msgOf(full, "Parse")
			if typ == "" || c.bad {
				return bnil{}, typ != ""
			}
			st.events = append(st.events, "parse")
			h := hs[c.what]
			c.st = st
			if typ != h.done.typ {
				c.fail("type", "a message of type %d becomes a %s", h.done.id, typ)
				return bnil{}, true
			}
			n := p.namedType("librtmp", typ)
			if n == nil {
				c.undecided()
				return bnil{}, true
			}
			c.parts("a message that was put together", c.now(args[0], n, "messagePayload"), h.done.parts)
			c.same("messageLength", c.now(args[0], n, "messageLength"), bvConst(uint64(h.done.n), 32))
			c.same("messageType", c.now(args[0], n, "messageType"), bvConst(uint64(h.done.id), 8))
			var ts bv
			for i := 3; i >= 0; i-- {
				if h.done.ts[i] < 0 {
					ts = append(ts, bvConst(0, 8)...)
					continue
				}
				ts = append(ts, c.byteOf("in", h.done.ts[i])...)
			}
			c.same("messageTime", c.now(args[0], n, "messageTime"), ts)
			return bnil{}, true
		}
	}, check: func(c *bctx) {
		h := hs[c.what]
		c.ok++
		if len(c.st.events) != 2 || c.st.events[0] != "parse" || c.st.events[1] != "do" {
			c.fail("once", "a message that is complete is not parsed and acted on once (%s)", strings.Join(c.st.events, ", "))
			return
		}
		if c.bad {
			return
		}
		// what is still incomplete is kept, what is complete is not
		ft, _ := rt.Underlying().(*types.Struct)
		var pt types.Type
		for i := 0; i < ft.NumFields(); i++ {
			if fieldIs(rt, i, "partial") {
				pt = ft.Field(i).Type()
			}
		}
		if pt != nil {
			mp := bstr(c.m.load(c.st, "p0"+q1, pt, "", "p0"))
			for _, cs := range h.css {
				v, stored := c.st.mem[mp+"<"+bvKey(bvConst(uint64(cs), 32))+">"]
				i, isi := v.(biface)
				if h.open[cs] == nil {
					if stored && isi {
						c.fail("finished", "a message that is complete is still kept as one whose chunks are arriving")
						return
					}
					continue
				}
				if !isi {
					c.fail("kept", "a message whose chunks are still arriving is not kept")
					return
				}
				c.parts("a message whose chunks are still arriving", c.now(i.v, derefType(i.t), "messagePayload"), h.open[cs])
				if c.bad {
					return
				}
			}
		}
		if in := c.m.fold(c.st, c.st.in); !in.isConst() || in.c != int64(h.total) {
			c.fail("consumed", "%s bytes of the stream are read, its chunks have %d", in, h.total)
		}
	}})
	out = append(out, bspec{pkg: "librtmp", recv: "SetChunkSizeMessage", fn: "Do", check: func(c *bctx) {
		q, _, _ := fieldPath(c.f.Params[0].Type(), "rtmp")
		v := c.m.load(c.st, "p0"+q, types.NewPointer(rt), "", "p0")
		c.same("peerMaxChunkSize", c.now(v, rt, "peerMaxChunkSize"), c.was(0, "NewChunkSize"))
	}})
	out = append(out, bspec{pkg: "librtmp", recv: "AbortMessage", fn: "Do", check: func(c *bctx) {
		q, _, _ := fieldPath(c.f.Params[0].Type(), "rtmp")
		v := c.m.load(c.st, "p0"+q, types.NewPointer(rt), "", "p0")
		mp := bstr(c.now(v, rt, "partial"))
		x, ok := c.st.mem[mp+"<"+bvKey(c.m.res(c.st, c.was(0, "ChunkStreamID")))+">"]
		if _, isn := x.(bnil); !ok || !isn {
			c.fail("abort", "the message of the named chunk stream is not given up")
		}
		c.ok++
	}})

	// a message of messages
	pl := p.lenName("librtmp", "AggregateMessage", "messagePayload")
	pay := strings.TrimSuffix(strings.TrimPrefix(pl, "len("), ")")
	type sub struct{ typ, n int }
	as := map[string][]sub{}
	var ac []bcase
	agg := func(what string, rest int, subs ...sub) {
		at := 0
		var b []bassume
		put := func(v ...int) {
			for _, x := range v {
				if x >= 0 {
					b = append(b, nameA(pay+"["+strconv.Itoa(at)+"]", "eq", uint64(x)))
				}
				at++
			}
		}
		for _, k := range subs {
			put(k.typ, k.n>>16, k.n>>8&255, k.n&255, -1, -1, -1, -1, -1, -1, -1)
			at += k.n + 4
		}
		as[what] = subs
		ac = append(ac, bcase{what, append(b, nameA(pl, "eq", uint64(at-4+rest)))})
	}
	agg("one tag", 4, sub{9, 20})
	agg("one tag, no trailing size", 0, sub{9, 20})
	agg("two tags", 4, sub{9, 300}, sub{8, 20})
	agg("three tags", 4, sub{9, 30}, sub{8, 5}, sub{18, 40})
	agg("a tag of an unknown type between two", 4, sub{9, 30}, sub{99, 7}, sub{8, 5})
	agg("a tag of one byte", 0, sub{8, 1})
	agg("audio first", 4, sub{8, 5}, sub{8, 6}, sub{9, 7})
	agg("metadata first", 4, sub{18, 5}, sub{9, 6}, sub{8, 7})
	out = append(out, bspec{pkg: "librtmp", recv: "AggregateMessage", fn: "Do", cases: ac, calls: func(c *bctx) func(st *bstate, full string, args []bval) (bval, bool) {
		return func(st *bstate, full string, args []bval) (bval, bool) {
			if msgOf(full, "Do") != "" {
				st.events = append(st.events, "do")
				return bnil{}, true
			}
			typ := msgOf(full, "Parse")
			if typ == "" || c.bad {
				return bnil{}, typ != ""
			}
			c.st = st
			at, k, n0 := 0, 0, len(st.events)/2
			st.events = append(st.events, "parse")
			subs := as[c.what]
			for k < len(subs) && (subs[k].typ == 99 || n0 > 0) {
				if subs[k].typ != 99 {
					n0--
				}
				at += 11 + subs[k].n + 4
				k++
			}
			n := p.namedType("librtmp", typ)
			if k == len(subs) || n == nil {
				c.fail("tags", "more tags come out of an aggregate than are in it")
				return bnil{}, true
			}
			if want := map[int]string{8: "AudioMessage", 9: "VideoMessage", 18: "DataMessage"}[subs[k].typ]; want != typ {
				c.fail("type", "a tag of type %d becomes a %s", subs[k].typ, typ)
				return bnil{}, true
			}
			c.parts("a tag of an aggregate", c.now(args[0], n, "messagePayload"), []brun{{pay, int64(at + 11), int64(subs[k].n)}})
			stamp := func(at int) bv {
				x := append(bv(nil), c.be(pay, at+4, 3)...)
				return append(x, c.byteOf(pay, at+7)...)
			}
			d := c.m.lin(c.was(0, "messageTime")).add(c.m.lin(stamp(at)), 1).add(c.m.lin(stamp(0)), -1)
			c.same("messageTime", c.now(args[0], n, "messageTime"), c.m.bits(d, 32))
			return bnil{}, true
		}
	}, check: func(c *bctx) {
		n := 0
		for _, k := range as[c.what] {
			if k.typ != 99 {
				n++
			}
		}
		c.ok++
		if len(c.st.events) != 2*n {
			c.fail("tags", "of %d tags of an aggregate %d are parsed and acted on", n, len(c.st.events)/2)
		}
	}})
	return out
}

// parts compares bytes with pieces of the input.
func (c *bctx) parts(key string, v bval, want []brun) { c.pieces(key, v, &lay{}, want...) }
