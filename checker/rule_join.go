package main

// What someone who joins a running stream gets: the codec headers first, then
// every packet, each once, starting at a key frame.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const flvPkg = modPath + "/libflv"

func bcastWriteKind(com *ssa.CallCommon) string {
	if com == nil {
		return ""
	}
	switch calleeFull(com) {
	case "(*" + bcast + ".Broadcast).Write":
		return "Write"
	case "(*" + bcast + ".Broadcast).WriteMeta":
		return "WriteMeta"
	case "(*" + bcast + ".Broadcast).Reset":
		return "Reset"
	}
	return ""
}

// tagType: which kind of tag a value handed on as an interface is.
func tagType(v ssa.Value) string {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		break
	}
	for _, n := range []string{"VideoTag", "AudioTag", "MetaTag"} {
		if isNamed(v.Type(), flvPkg, n) {
			return n
		}
	}
	return ""
}

// publishSide: headers are kept for those who join later, a key frame restarts
// the cache and nothing else does.
func (p *Prog) publishSide(r *Report) {
	ft, pt := p.slot("libflv", "VideoTag", "FrameType"), p.slot("libflv", "VideoTag", "AVCPacketType")
	sf, ap := p.slot("libflv", "AudioTag", "SoundFormat"), p.slot("libflv", "AudioTag", "AACPacketType")
	role, room := p.slot("librtmp", "RTMP", "role"), p.slot("librtmp", "RTMP", "room")
	hdrs := map[string]string{p.slot("librtmp", "Room", "videoSeqHdr"): "VideoTag", p.slot("librtmp", "Room", "audioSeqHdr"): "AudioTag", p.slot("librtmp", "Room", "metaTag"): "MetaTag"}
	if ft == "" || pt == "" || sf == "" || ap == "" || role == "" || room == "" || len(hdrs) != 3 {
		r.find("anchor|tags", "-", "the tag types or the room's cached headers are gone")
		return
	}
	c := func(n int) AV { return AV{k: avConst, s: strconv.Itoa(n)} }
	konst := func(pkg, name string) (int, bool) {
		for _, q := range p.Pkgs {
			if q.PkgPath == modPath+"/"+pkg {
				if k, ok := q.Types.Scope().Lookup(name).(*types.Const); ok {
					n, err := strconv.Atoi(k.Val().ExactString())
					return n, err == nil
				}
			}
		}
		return 0, false
	}
	key, ok1 := konst("libflv", "KEY_FRAME")
	inter, ok2 := konst("libflv", "INTER_FRAME")
	seqV, ok3 := konst("libflv", "AVC_SEQUENCE_HEADER")
	nalu, ok4 := konst("libflv", "AVC_NALU")
	aac, ok5 := konst("libflv", "FLV_AUDIO_AAC")
	seqA, ok6 := konst("libflv", "AAC_SEQUENCE_HEADER")
	raw, ok7 := konst("libflv", "AAC_RAW")
	pub, ok8 := konst("librtmp", "rolePublisher")
	if !(ok1 && ok2 && ok3 && ok4 && ok5 && ok6 && ok7 && ok8) {
		r.find("anchor|constants", "-", "the frame type, packet type, codec or role constants are gone")
		return
	}
	tracked := map[string][]AV{
		ft: {c(key), c(inter)}, pt: {c(seqV), c(nalu)}, sf: {c(aac), c(-9)}, ap: {c(seqA), c(raw)},
		role: {c(pub), c(-9)}, room: nil,
	}
	// flags that arrive with a frame
	for _, f := range p.Funcs {
		if !funcHas(f, func(in ssa.Instruction) bool { return bcastWriteKind(callOf(in)) != "" }) {
			continue
		}
		for _, q := range f.Params {
			t := q.Type()
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if isBoolType(s.Field(i).Type()) {
						tracked["F:"+typeKey(t)+"."+strconv.Itoa(i)] = nil
					}
				}
			}
		}
	}
	storeOf := func(in ssa.Instruction) string {
		s, ok := in.(*ssa.Store)
		if !ok {
			return ""
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		_, st := structOf(fa.X.Type())
		return hdrs["F:"+typeKey(st)+"."+strconv.Itoa(fa.Field)]
	}
	newTag := func(in ssa.Instruction) bool {
		a, ok := in.(*ssa.Alloc)
		return ok && tagType(a) != "" && a.Heap
	}
	writes := map[ssa.Instruction]bool{}
	stores := map[ssa.Instruction]bool{}
	var pr *PathRule
	settle := func(px *PX, in ssa.Instruction, st *PState) {
		for _, n := range []string{"VideoTag", "AudioTag", "MetaTag"} {
			if qget(st.q, "c"+n) == "1" && qget(st.q, "m"+n) != "1" {
				px.report("unsent|"+fname(in.Parent())+"|"+n, in, "a %s was kept as a stream header but not passed on to those already watching", n)
			}
			st.q = qset(st.q, "c"+n, "", "m"+n, "")
		}
	}
	pr = &PathRule{
		tracked: tracked,
		budget:  20000000,
		isEvent: func(in ssa.Instruction) bool {
			return bcastWriteKind(callOf(in)) != "" || storeOf(in) != "" || newTag(in)
		},
		event: func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
			fn := fname(in.Parent())
			if newTag(in) {
				settle(px, in, st)
				st.q = qset(st.q, "reset", "", "w", "")
				return nil, false
			}
			if n := storeOf(in); n != "" {
				stores[in] = true
				st.q = qset(st.q, "c"+n, "1")
				return nil, false
			}
			com := callOf(in)
			kind := bcastWriteKind(com)
			if kind == "" {
				return nil, false
			}
			writes[in] = true
			if kind == "Reset" {
				st.q = qset(st.q, "reset", "1")
				return []POut{{st.q, nil, nil}}, true
			}
			if qget(st.q, "w") != "" {
				px.report("twice|"+fn, in, "the same packet is passed on a second time")
			}
			st.q = qset(st.q, "w", "1")
			t := tagType(com.Args[1])
			if kind == "WriteMeta" {
				if t != "" {
					if qget(st.q, "c"+t) != "1" {
						px.report("uncached|"+fn+"|"+t, in, "a stream header (%s) is passed on but not kept for those who join later", t)
					}
					st.q = qset(st.q, "m"+t, "1")
				}
				return []POut{{st.q, nil, nil}}, true
			}
			switch t {
			case "VideoTag":
				f, k := st.mem[ft], st.mem[pt]
				isKey, maybeKey := f == c(key), f.k != avConst || f == c(key)
				isSeq := k == c(seqV)
				if isKey && isSeq {
					px.report("headerasmedia|"+fn, in, "a video sequence header is passed on like a frame: those who join later never get it")
				} else if maybeKey && !isSeq && qget(st.q, "reset") == "" {
					px.report("noreset|"+fn, in, "a key frame can be passed on without restarting the cached group of pictures")
				}
				if !isKey && qget(st.q, "reset") != "" {
					px.report("badreset|"+fn, in, "the cached group of pictures is restarted at a frame that is not a key frame")
				}
			case "AudioTag":
				if st.mem[sf] == c(aac) && st.mem[ap] == c(seqA) {
					px.report("headerasmedia|"+fn, in, "an AAC sequence header is passed on like a frame: those who join later never get it")
				}
				if qget(st.q, "reset") != "" {
					px.report("badreset|"+fn, in, "the cached group of pictures is restarted at an audio frame")
				}
			case "MetaTag":
				px.report("headerasmedia|"+fn, in, "stream metadata is passed on like a frame: those who join later never get it")
			}
			return []POut{{st.q, nil, nil}}, true
		},
		atReturn: func(px *PX, f *ssa.Function, st *PState, ret *ssa.Return, res []AV) {
			if f.Name() != "Do" || f.Signature.Recv() == nil {
				return
			}
			for _, n := range []string{"AudioMessage", "VideoMessage", "DataMessage"} {
				if !isNamed(f.Signature.Recv().Type(), modPath+"/librtmp", n) {
					continue
				}
				settle(px, ret, st)
				if st.mem[role] == c(pub) && st.mem[room].k == avNonNil && qget(st.q, "w") == "" {
					px.report("dropped|"+fname(f), ret, "a publisher's %s can be handled without being passed on", n)
				}
				st.q = qset(st.q, "w", "", "reset", "")
			}
			// the next message starts afresh
			for sl := range tracked {
				st.setMem(sl, top)
			}
		},
	}
	px := newPX(p, r, pr)
	roots := p.goRoots(func(f *ssa.Function) bool {
		return funcHas(f, func(in ssa.Instruction) bool { return bcastWriteKind(callOf(in)) == "Write" })
	})
	paths := 0
	for _, f := range roots {
		px.memo, px.Paths = map[string]*pSummary{}, 0
		px.Root(f, "", map[string]AV{}, nil)
		paths += px.Paths
		r.sample("publishing root %s: %d outcomes", fname(f), px.Paths)
	}
	r.count("publishing roots", len(roots))
	r.count("publishing outcomes", paths)
	r.count("places that pass media on", len(writes))
	r.count("header stores", len(stores))
	r.atLeast("publishing roots", 3)
	r.atLeast("places that pass media on", 10)
	r.atLeast("header stores", 3)
}

// subscribeSide: headers before media, every packet once.
func (p *Prog) subscribeSide(r *Report) {
	isSnap := func(com *ssa.CallCommon) bool {
		if com == nil {
			return false
		}
		f := com.StaticCallee()
		if f == nil || f.Signature.Recv() == nil || !isNamed(f.Signature.Recv().Type(), modPath+"/librtmp", "Room") {
			return false
		}
		rs := f.Signature.Results()
		return rs.Len() == 3 && isNamed(rs.At(0).Type(), flvPkg, "MetaTag") && isNamed(rs.At(1).Type(), flvPkg, "VideoTag") && isNamed(rs.At(2).Type(), flvPkg, "AudioTag")
	}
	sendLike := func(com *ssa.CallCommon) bool {
		if com == nil || errorIndex(com.Signature().Results()) < 0 {
			return false
		}
		if com.IsInvoke() {
			t := typeShort(com.Value.Type())
			return strings.HasPrefix(com.Method.Name(), "Write") && strings.HasSuffix(t, "EasyWriter")
		}
		f := com.StaticCallee()
		return f != nil && f.Name() == "Send" && f.Signature.Recv() != nil && p.isRepoFunc(f)
	}
	convert := func(com *ssa.CallCommon) bool {
		f := com.StaticCallee()
		if f == nil || !p.isRepoFunc(f) {
			return false
		}
		rs := f.Signature.Results()
		if rs.Len() != 1 {
			return false
		}
		if strings.HasPrefix(f.Name(), "New") && strings.HasSuffix(f.Name(), "Message") {
			return true
		}
		if _, ok := rs.At(0).Type().Underlying().(*types.Slice); ok {
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if typeShort(f.Signature.Params().At(i).Type()) == "libflv.Tag" {
					return true
				}
			}
		}
		return false
	}
	headers := []string{"metadata", "video sequence header", "audio sequence header"}
	tags := []string{"@h0", "@h1", "@h2"}
	kindOf := map[string]string{"*libflv.MetaTag": "M", "*libflv.VideoTag": "V", "*libflv.AudioTag": "A"}
	reads, sends := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	// the tag a call was given
	given := func(px *PX, st *PState, com *ssa.CallCommon) string {
		t := ""
		see := func(a AV) {
			if strings.HasPrefix(a.tag, "@") {
				t = a.tag
			}
		}
		if com.IsInvoke() {
			see(px.val(st, com.Value))
		}
		for _, a := range com.Args {
			see(px.val(st, a))
			if sl, ok := a.(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					for _, u := range *al.Referrers() {
						ia, ok := u.(*ssa.IndexAddr)
						if !ok {
							continue
						}
						for _, w := range *ia.Referrers() {
							if s, ok := w.(*ssa.Store); ok {
								see(px.val(st, s.Val))
							}
						}
					}
				}
			}
		}
		return t
	}
	pr := &PathRule{
		tracked: map[string][]AV{},
		budget:  12000000,
		isEvent: func(in ssa.Instruction) bool {
			c := callOf(in)
			if c == nil {
				return false
			}
			return isSnap(c) || calleeFull(c) == bcastRead || sendLike(c) || convert(c)
		},
		branch: func(px *PX, st *PState, cond ssa.Value, truth bool) {
			// a packet that is none of the three kinds does not exist
			e, ok := cond.(*ssa.Extract)
			for !ok {
				u, isU := cond.(*ssa.UnOp)
				if !isU {
					return
				}
				cond, truth = u.X, !truth
				e, ok = cond.(*ssa.Extract)
			}
			ta, ok := e.Tuple.(*ssa.TypeAssert)
			if !ok || e.Index != 1 || truth {
				return
			}
			k := kindOf[typeShort(ta.AssertedType)]
			if typeShort(ta.AssertedType) == "libflv.Tag" {
				k = "T"
			}
			if k == "" || px.val(st, ta.X).tag != "@pkt" {
				return
			}
			n := qget(st.q, "not")
			if !strings.Contains(n, k) {
				st.q = qset(st.q, "not", n+k)
			}
		},
	}
	impossible := func(q string) bool {
		n := qget(q, "not")
		return strings.Contains(n, "T") || strings.Contains(n, "M") && strings.Contains(n, "V") && strings.Contains(n, "A")
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		if qget(st.q, "not") != "" && impossible(st.q) {
			return nil, true
		}
		com := callOf(in)
		if com == nil {
			return nil, false
		}
		fn := fname(in.Parent())
		switch {
		case isSnap(com):
			outs := []POut{}
			for m := 0; m < 8; m++ {
				q := st.q
				res := make([]AV, 3)
				for i := range headers {
					if m>>uint(i)&1 == 1 {
						res[i] = AV{k: avNonNil, tag: tags[i]}
						q = qset(q, "h"+strconv.Itoa(i), "due")
					} else {
						res[i] = AV{k: avNil}
						q = qset(q, "h"+strconv.Itoa(i), "none")
					}
				}
				outs = append(outs, POut{q, nil, res})
			}
			return outs, true
		case calleeFull(com) == bcastRead:
			reads[in] = true
			for i, h := range headers {
				switch qget(st.q, "h"+strconv.Itoa(i)) {
				case "":
					px.report("nosnap|"+fn, in, "media is read for a subscriber that was not given the stream's headers")
				case "due":
					px.report("header|"+fn+"|"+h, in, "media is read for a subscriber before the %s was sent", h)
				}
			}
			if qget(st.q, "pkt") == "due" {
				px.report("lost|"+fn, in, "the next packet is read although the one before was not sent")
			}
			return []POut{{qset(st.q, "pkt", "due", "not", ""), nil, []AV{{k: avNonNil, tag: "@pkt"}, avBool(true)}},
				{qset(st.q, "pkt", "", "not", ""), nil, []AV{{k: avNil}, avBool(false)}}}, true
		case convert(com):
			if t := given(px, st, com); t != "" {
				return []POut{{st.q, nil, []AV{{k: avNonNil, tag: t}}}}, true
			}
		case sendLike(com):
			t := given(px, st, com)
			if t == "" {
				return nil, false
			}
			sends[in] = true
			q := st.q
			if t == "@pkt" {
				if qget(q, "pkt") != "due" {
					px.report("dup|"+fn, in, "a packet is sent twice")
				}
				q = qset(q, "pkt", "sent", "not", "")
			} else {
				i := strings.TrimPrefix(t, "@")
				if qget(q, i) == "sent" {
					px.report("duphdr|"+fn+"|"+i, in, "a stream header is sent twice")
				}
				q = qset(q, i, "sent")
			}
			return failing(com, q, q), true
		}
		return nil, false
	}
	px := newPX(p, r, pr)
	roots := p.goRoots(func(f *ssa.Function) bool {
		return funcHas(f, func(in ssa.Instruction) bool { c := callOf(in); return c != nil && calleeFull(c) == bcastRead })
	})
	n, paths := 0, 0
	for _, f := range roots {
		// only those that hand the packets themselves to a peer
		conv, read := false, false
		for g := range p.reach(f, true) {
			if funcHas(g, func(in ssa.Instruction) bool {
				c := callOf(in)
				return c != nil && convert(c)
			}) {
				conv = true
			}
			if funcHas(g, func(in ssa.Instruction) bool { c := callOf(in); return c != nil && calleeFull(c) == bcastRead }) {
				read = true
			}
		}
		_ = read
		if !conv || p.segmenterRoot(f) {
			continue
		}
		px.memo, px.Paths = map[string]*pSummary{}, 0
		px.Root(f, "", map[string]AV{}, nil)
		paths += px.Paths
		n++
		r.sample("subscriber root %s: %d outcomes", fname(f), px.Paths)
	}
	r.count("subscriber roots", n)
	r.count("subscriber outcomes", paths)
	r.count("subscriber reads", len(reads))
	r.count("subscriber sends", len(sends))
	r.atLeast("subscriber roots", 3)
	r.atLeast("subscriber reads", 2)
	r.atLeast("subscriber sends", 8)
}

// segmenterRoot: the goroutine belongs to an output that writes files.
func (p *Prog) segmenterRoot(f *ssa.Function) bool {
	for g := range p.reach(f, false) {
		if g.Pkg != nil && (strings.HasSuffix(g.Pkg.Pkg.Path(), "/libhls") || strings.HasSuffix(g.Pkg.Pkg.Path(), "/libdash")) {
			if funcHas(g, func(in ssa.Instruction) bool { c := callOf(in); return c != nil && calleeFull(c) == bcastRead }) {
				return true
			}
		}
	}
	return false
}

// freshStart: an endpoint that serves one stream after another starts each with
// nothing left from the one before: what it remembers of headers that were
// passed on, and the parser the media of the last one went through.
func (p *Prog) freshStart(r *Report) {
	slotAt := func(v ssa.Value) string {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		_, st := structOf(fa.X.Type())
		return "F:" + typeKey(st) + "." + strconv.Itoa(fa.Field)
	}
	named := func(t types.Type) *types.Named {
		n, _ := derefType(t).(*types.Named)
		return n
	}
	rooms := map[string]string{} // room slot -> type
	zeroed := map[string]AV{}
	kept := map[string]string{} // remembered field -> type
	parser := map[string]string{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					n := named(fa.X.Type())
					if n != nil && isNamed(derefType(fa.Type()), modPath+"/librtmp", "Room") && n.Obj().Pkg() != nil && p.Repo[n.Obj().Pkg()] {
						zeroed[slotAt(fa)] = AV{k: avNil}
						rooms[slotAt(fa)] = n.Obj().Name()
					}
				}
			}
		}
	}
	owner := map[string]bool{}
	for _, n := range rooms {
		owner[n] = true
	}
	for _, f := range p.Funcs {
		media := funcHas(f, func(in ssa.Instruction) bool { k := bcastWriteKind(callOf(in)); return k != "" && k != "Reset" })
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && media {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if _, fresh := fa.X.(*ssa.Alloc); fresh {
							continue
						}
						if n := named(fa.X.Type()); n != nil && owner[n.Obj().Name()] && rooms[slotAt(fa)] == "" {
							zeroed[slotAt(fa)] = zeroAV(derefType(fa.Type()))
							kept[slotAt(fa)] = n.Obj().Name()
						}
					}
				}
				if com := callOf(in); com != nil && !com.IsInvoke() && len(com.Args) > 0 && com.Signature().Recv() != nil {
					if u, ok := com.Args[0].(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							n := named(fa.X.Type())
							t := named(u.Type())
							if n != nil && t != nil && owner[n.Obj().Name()] && p.Repo[t.Obj().Pkg()] && t.Obj().Pkg() != n.Obj().Pkg() {
								parser[slotAt(fa)] = n.Obj().Name()
							}
						}
					}
				}
			}
		}
	}
	started := map[ssa.Instruction]bool{}
	tracked := map[string][]AV{}
	for sl := range rooms {
		tracked[sl] = nil
	}
	for sl := range kept {
		tracked[sl] = nil
	}
	pr := &PathRule{tracked: tracked, budget: 8000000}
	pr.isEvent = func(in ssa.Instruction) bool {
		if a, ok := in.(*ssa.Alloc); ok && isNamed(derefType(a.Type()), modPath+"/librtmp", "Room") {
			return true
		}
		if s, ok := in.(*ssa.Store); ok {
			sl := slotAt(s.Addr)
			if rooms[sl] != "" || kept[sl] != "" || parser[sl] != "" {
				return true
			}
		}
		return bcastWriteKind(callOf(in)) != ""
	}
	// what is looked at when the first media of a new stream is taken
	check := func(px *PX, in ssa.Instruction, st *PState) {
		t := qget(st.q, "new")
		if t == "" {
			return
		}
		st.q = qset(st.q, "new", "")
		for k, n := range kept {
			a := st.mem[k]
			if n == t && (a.k == avNonNil || a.k == avConst && a.s != "false" && a.s != "0") {
				px.report("stale|"+p.slotName(k), in, "a stream is started while %s still holds what the one before it left: what its players need can be taken as already passed on, or be that of the other stream", p.slotName(k))
			}
		}
		for k, n := range parser {
			if n == t && qget(st.q, "u"+k) == "1" {
				px.report("stale|"+p.slotName(k), in, "a stream is started on the %s that the one before it used: what was left in it becomes media of the new stream", p.slotName(k))
			}
		}
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		if s, ok := in.(*ssa.Store); ok {
			sl := slotAt(s.Addr)
			if parser[sl] != "" {
				st.q = qset(st.q, "u"+sl, "")
			}
			fresh := false
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
				_, fresh = fa.X.(*ssa.Alloc)
			}
			if t := rooms[sl]; t != "" && !fresh && px.val(st, s.Val).k != avNil {
				started[in] = true
				st.q = qset(st.q, "new", t)
			}
			return nil, false
		}
		if bcastWriteKind(callOf(in)) != "" {
			check(px, in, st)
			return nil, false
		}
		if com := callOf(in); com != nil && !com.IsInvoke() && len(com.Args) > 0 && com.Signature().Recv() != nil {
			if u, ok := com.Args[0].(*ssa.UnOp); ok {
				if sl := slotAt(u.X); parser[sl] != "" {
					check(px, in, st)
					st.q = qset(st.q, "u"+sl, "1")
				}
			}
		}
		return nil, false
	}
	px := newPX(p, r, pr)
	for _, f := range p.goRoots(func(f *ssa.Function) bool {
		return funcHas(f, func(in ssa.Instruction) bool { return bcastWriteKind(callOf(in)) == "Write" })
	}) {
		px.memo, px.Paths = map[string]*pSummary{}, 0
		mem := map[string]AV{} // an endpoint begins with nothing
		for sl := range tracked {
			mem[sl] = zeroed[sl]
		}
		px.Root(f, "", mem, nil)
		r.count("stream start outcomes", px.Paths)
	}
	r.count("places where a stream is started", len(started))
	r.count("fields kept from frame to frame", len(kept)+len(parser))
	r.atLeast("places where a stream is started", 1)
}

func init() {
	register("C18", "other", func(p *Prog, r *Report) {
		r.Rule = "typestate of a stream's headers and of each packet, on the publishing and on the subscribing side"
		p.publishSide(r)
		p.freshStart(r)
		p.subscribeSide(r)
	})
}
