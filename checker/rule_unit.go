package main

// What a segment consists of: a transport stream segment carries its program
// tables before media, counts its packets from the start and holds whole
// frames; an fMP4 segment has an initialisation segment on disk.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const mpegPkg = modPath + "/libmpeg"

func (p *Prog) pkgInt(pkg, name string) (string, bool) {
	for _, q := range p.Pkgs {
		if q.PkgPath == modPath+"/"+pkg {
			if k, ok := q.Types.Scope().Lookup(name).(*types.Const); ok {
				return k.Val().ExactString(), true
			}
		}
	}
	return "", false
}

// newPacket: a call that makes a transport stream packet; pid and first are
// the arguments that say what it is for and whether it begins a unit.
func newPacket(com *ssa.CallCommon) (pid, counters, first ssa.Value) {
	if com == nil || com.IsInvoke() {
		return
	}
	f := com.StaticCallee()
	if f == nil || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || !isNamed(f.Signature.Results().At(0).Type(), mpegPkg, "TS") {
		return
	}
	for _, a := range com.Args {
		switch t := a.Type().Underlying().(type) {
		case *types.Map:
			counters = a
		case *types.Basic:
			if t.Info()&types.IsBoolean != 0 {
				first = a
			} else if t.Info()&types.IsInteger != 0 {
				pid = a
			}
		}
	}
	if pid == nil || counters == nil || first == nil {
		return nil, nil, nil
	}
	return
}

// muxCall: the call that writes a packet made by newPacket.
func muxCall(com *ssa.CallCommon) bool {
	if com == nil || com.IsInvoke() {
		return false
	}
	f := com.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || !isNamed(f.Signature.Recv().Type(), mpegPkg, "TS") || len(com.Args) < 3 {
		return false
	}
	rs := f.Signature.Results()
	return rs.Len() == 2 && isBoolType(rs.At(0).Type()) && isErrorType(rs.At(1).Type())
}

func (p *Prog) tsSegments(r *Report, ss *segSpec) {
	ft := p.slot("libflv", "VideoTag", "FrameType")
	pt := p.slot("libflv", "VideoTag", "AVCPacketType")
	cc := p.slot("libhls", "HLS", "Cc")
	pos := map[string]string{p.slot("libmpeg", "PES", "Index"): "i", p.slot("libmpeg", "PES", "HeaderIndex"): "j"}
	pat, ok1 := p.pkgInt("libmpeg", "PAT_PID")
	pmt, ok2 := p.pkgInt("libmpeg", "PMT_PID")
	vid, ok3 := p.pkgInt("libmpeg", "VIDEO_PID")
	aud, ok4 := p.pkgInt("libmpeg", "AUDIO_PID")
	key, ok5 := p.pkgInt("libflv", "KEY_FRAME")
	inter, ok6 := p.pkgInt("libflv", "INTER_FRAME")
	seqV, ok7 := p.pkgInt("libflv", "AVC_SEQUENCE_HEADER")
	nalu, ok8 := p.pkgInt("libflv", "AVC_NALU")
	if !(ok1 && ok2 && ok3 && ok4 && ok5 && ok6 && ok7 && ok8) || ft == "" || pt == "" || cc == "" || len(pos) != 2 {
		r.find("anchor|segments", "-", "the packet identifiers, frame types, counters or frame positions the rule is stated over are gone")
		return
	}
	c := func(s string) AV { return AV{k: avConst, s: s} }
	tables := map[string]string{pat: "program association table", pmt: "program map table"}
	made, muxed, files := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	pr := &PathRule{
		tracked: map[string][]AV{ft: {c(key), c(inter)}, pt: {c(seqV), c(nalu)}, ss.file: nil},
		budget:  8000000,
		opaque: func(px *PX, com *ssa.CallCommon, f *ssa.Function, args []AV, st *PState) []AV {
			if f != nil && f.Signature.Results().Len() == 1 && nilable(f.Signature.Results().At(0).Type()) && strings.HasPrefix(strings.ToLower(f.Name()), "new") {
				return []AV{{k: avNonNil}}
			}
			return opaqueResult(f, com, args, st, px)
		},
		enter: func(f *ssa.Function) (yes, no bool) {
			return false, f.Pkg == nil || f.Pkg.Pkg.Path() != ss.pkg
		},
	}
	fresh := map[string]AV{ss.file: {k: avNil}}
	if s, ok := ss.t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if strings.HasSuffix(typeShort(s.Field(i).Type()), "EasyWriter") {
				sl := "F:" + typeKey(ss.t) + "." + strconv.Itoa(i)
				pr.tracked[sl] = nil
				fresh[sl] = AV{k: avNil}
			}
		}
	}
	posStore := func(in ssa.Instruction) string {
		if s, ok := in.(*ssa.Store); ok {
			return pos[slotAddr(s.Addr)]
		}
		return ""
	}
	ccStore := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		return ok && slotAddr(s.Addr) == cc
	}
	pr.isEvent = func(in ssa.Instruction) bool {
		com := callOf(in)
		if com == nil {
			return posStore(in) != "" || ccStore(in)
		}
		n := calleeFull(com)
		pid, _, _ := newPacket(com)
		return n == bcastRead || n == "os.Create" || n == "os.OpenFile" || n == "(*os.File).Close" || pid != nil || muxCall(com)
	}
	whole := func(px *PX, in ssa.Instruction, st *PState, what string) {
		if qget(st.q, "part") == "1" {
			px.report("partial|"+fname(in.Parent()), in, "%s although the frame being written is not complete", what)
			st.q = qset(st.q, "part", "")
		}
		switch qget(st.q, "psi") {
		case "pat":
			px.report("patonly|"+fname(in.Parent()), in, "%s although only one of the two program tables was written", what)
			st.q = qset(st.q, "psi", "done")
		}
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		fn := fname(in.Parent())
		if k := posStore(in); k != "" {
			if isConstInt(in.(*ssa.Store).Val, 0) {
				st.q = qset(st.q, k, "0")
			} else {
				st.q = qset(st.q, k, "")
			}
			return nil, false
		}
		if ccStore(in) {
			_, fresh := in.(*ssa.Store).Val.(*ssa.MakeMap)
			if fresh {
				st.q = qset(st.q, "cc", "1")
			} else {
				st.q = qset(st.q, "cc", "")
			}
			return nil, false
		}
		com := callOf(in)
		if com == nil {
			return nil, false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return nil, false
		}
		n := calleeFull(com)
		switch {
		case n == bcastRead:
			whole(px, in, st, "the next packet is read")
			st.setMem(ft, top)
			st.setMem(pt, top)
			q := qset(st.q, "i", "", "j", "", "u", "", "rd", "1")
			return []POut{{q, nil, []AV{{k: avNonNil}, avBool(true)}}, {q, nil, []AV{{k: avNil}, avBool(false)}}}, true
		case n == "os.Create" || n == "os.OpenFile":
			if !ss.seqPath(com.Args[0]) {
				return nil, false
			}
			files[in] = true
			whole(px, in, st, "a new segment is begun")
			if st.mem[ft] != c(key) || st.mem[pt] == c(seqV) {
				px.report("nokey|"+fn, in, "a segment is begun at a packet that is not known to be a key frame")
			}
			return []POut{{qset(st.q, "psi", "none", "open", "1"), nil, []AV{{k: avNonNil}, {k: avNil}}}, {st.q, nil, []AV{{k: avNil}, {k: avNonNil}}}}, true
		case n == "(*os.File).Close":
			whole(px, in, st, "the segment is closed")
			st.q = qset(st.q, "open", "", "cc", "")
			return []POut{{st.q, nil, []AV{top}}}, true
		}
		if pid, counters, first := newPacket(com); pid != nil {
			made[in] = true
			if p.fieldOrigin(counters) != cc {
				px.report("counters|"+fn, in, "a packet is numbered from something else than the segment's counters")
			}
			id, one := px.val(st, pid), px.val(st, first)
			switch {
			case id == c(pat) || id == c(pmt):
				if one != avBool(true) {
					px.report("unitstart|"+fn, in, "a packet with a %s does not say that a unit begins in it", tables[id.s])
				}
			case one == avBool(true):
				if qget(st.q, "u") == "1" {
					px.report("unitstart|"+fn, in, "a second packet of the same frame says that a unit begins in it")
				}
			case one == avBool(false):
				if qget(st.q, "u") != "1" {
					px.report("unitstart|"+fn, in, "the first packet of a frame does not say that a unit begins in it")
				}
			default:
				px.report("unitstart|"+fn, in, "it cannot be told whether this packet begins a frame")
			}
			b := "?"
			if one.k == avConst {
				b = one.s
			}
			i := "?"
			if id.k == avConst {
				i = id.s
			}
			return []POut{{qset(st.q, "made", "1"), nil, []AV{{k: avNonNil, tag: "ts:" + i + ":" + b}}}}, true
		}
		if muxCall(com) {
			muxed[in] = true
			t := strings.Split(px.val(st, com.Args[0]).tag, ":")
			if len(t) != 3 {
				px.report("packet|"+fn, in, "it cannot be told which packet is written here")
				return []POut{{st.q, nil, []AV{avBool(true), {k: avNil}}}}, true
			}
			if qget(st.q, "made") != "1" {
				px.report("again|"+fn, in, "the same packet is written twice: its counter repeats")
			}
			q := qset(st.q, "made", "")
			if qget(q, "open") != "1" && st.mem[ss.file].k != avNonNil {
				px.report("noseg|"+fn, in, "a packet is written while no segment is open")
			}
			var random AV
			for i, a := range com.Args[1:] {
				if isBoolType(a.Type()) {
					random = px.val(st, com.Args[i+1])
					break
				}
			}
			switch {
			case t[1] == pat || t[1] == pmt:
				if random == avBool(true) {
					px.report("random|"+fn, in, "a %s is marked as a key frame", tables[t[1]])
				}
				if qget(q, "part") == "1" {
					px.report("tablein|"+fn, in, "a %s is written in the middle of a frame", tables[t[1]])
				}
				cur := qget(q, "psi")
				if t[1] == pat {
					if cur == "none" && qget(q, "cc") != "1" {
						px.report("ccold|"+fn, in, "a segment goes on with the packet counters of the one before")
					}
					q = qset(q, "psi", "pat")
				} else {
					if cur != "pat" {
						px.report("order|"+fn, in, "a program map table is written without a program association table before it")
					}
					q = qset(q, "psi", "done")
				}
				q = qset(q, "cc", "")
				return []POut{{q, nil, []AV{avBool(true), top}}}, true
			}
			switch qget(q, "psi") {
			case "none":
				px.report("nopsi|"+fn, in, "media is written to a segment before its program tables")
			case "pat":
				px.report("nopsi|"+fn, in, "media is written between the two program tables")
			}
			if t[2] == "true" {
				if qget(q, "i") != "0" || qget(q, "j") != "0" {
					px.report("stale|"+fn, in, "a frame is written from where the one before it ended, not from its own start")
				}
				want := t[1] == vid && st.mem[ft] == c(key)
				if random != avBool(want) {
					if want {
						px.report("random|"+fn, in, "the first packet of a key frame is not marked as one")
					} else {
						px.report("random|"+fn, in, "the first packet of a frame that is no key frame is marked as one")
					}
				}
				if st.mem[pt] == c(seqV) && t[1] == vid {
					px.report("hdrframe|"+fn, in, "a sequence header is written like a frame")
				}
				if t[1] != vid && t[1] != aud {
					px.report("pid|"+fn, in, "a frame is written under a packet identifier the program map does not name")
				}
			} else if random == avBool(true) {
				px.report("random|"+fn, in, "a packet inside a frame is marked as the beginning of a key frame")
			}
			q = qset(q, "i", "", "j", "", "u", "1")
			return []POut{{qset(q, "part", ""), nil, []AV{avBool(true), {k: avNil}}},
				{qset(q, "part", "1"), nil, []AV{avBool(false), {k: avNil}}},
				{qset(q, "part", ""), nil, []AV{avBool(true), {k: avNonNil}}},
				{qset(q, "part", ""), nil, []AV{avBool(false), {k: avNonNil}}}}, true
		}
		return nil, false
	}
	paths := 0
	for _, f := range ss.start {
		px := newPX(p, r, pr)
		px.Root(f, "", fresh, nil)
		paths += px.Paths
		r.sample("segmenter %s: %d outcomes", fname(f), px.Paths)
	}
	r.count("segmenter outcomes", paths)
	r.count("packets made", len(made))
	r.count("packets written", len(muxed))
	r.count("segment files", len(files))
	r.atLeast("packets made", 3)
	r.atLeast("packets written", 3)
	r.atLeast("segment files", 1)
}

// initSegment: samples are collected and a manifest is given out only once the
// initialisation segment they need is there.
func (p *Prog) initSegment(r *Report, ss *segSpec) {
	tn := ss.t.Obj().Name()
	pk := strings.TrimPrefix(ss.pkg, modPath+"/")
	bytesSlot, done, id := p.slot(pk, tn, "initBytes"), p.slot(pk, tn, "initWritten"), p.slot(pk, tn, "streamID")
	pt := p.slot("libflv", "VideoTag", "AVCPacketType")
	seqV, ok1 := p.pkgInt("libflv", "AVC_SEQUENCE_HEADER")
	nalu, ok2 := p.pkgInt("libflv", "AVC_NALU")
	if bytesSlot == "" || done == "" || id == "" || pt == "" || !ok1 || !ok2 {
		r.find("anchor|init", "-", "the initialisation segment's fields are gone")
		return
	}
	c := func(s string) AV { return AV{k: avConst, s: s} }
	slotStore := func(in ssa.Instruction) string {
		if s, ok := in.(*ssa.Store); ok {
			return slotAddr(s.Addr)
		}
		return ""
	}
	ofInit := func(v ssa.Value) bool {
		for w := range ss.deep(v, 0) {
			if loadSlot(w) == bytesSlot {
				return true
			}
		}
		// the bytes themselves, kept in the field too
		for w := range backward(v) {
			if refs := w.Referrers(); refs != nil {
				for _, u := range *refs {
					if s, ok := u.(*ssa.Store); ok && s.Val == w && slotAddr(s.Addr) == bytesSlot {
						return true
					}
				}
			}
		}
		return false
	}
	idTest := func(v ssa.Value) (ne bool, ok bool) {
		b, isB := v.(*ssa.BinOp)
		if !isB || b.Op != token.EQL && b.Op != token.NEQ {
			return
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			k, isC := pr[1].(*ssa.Const)
			if !isC || k.Value == nil {
				continue
			}
			if loadSlot(pr[0]) == id && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "" {
				return b.Op == token.NEQ, true
			}
		}
		return
	}
	marks, wrote, apps := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	pr := &PathRule{
		tracked: map[string][]AV{bytesSlot: nil, done: nil, pt: {c(seqV), c(nalu), c("-9")}},
		enter: func(f *ssa.Function) (yes, no bool) {
			return false, f.Pkg == nil || f.Pkg.Pkg.Path() != ss.pkg
		},
		fork: func(b *ssa.BinOp) bool { _, ok := idTest(b); return ok },
		branch: func(px *PX, st *PState, cond ssa.Value, truth bool) {
			for {
				u, ok := cond.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				cond, truth = u.X, !truth
			}
			if ne, ok := idTest(cond); ok {
				if ne == truth {
					st.q = qset(st.q, "id", "set")
				} else {
					st.q = qset(st.q, "id", "none")
				}
			}
		},
		isEvent: func(in ssa.Instruction) bool {
			if sl := slotStore(in); sl != "" && (sl == bytesSlot || sl == done || sl == ss.samples) {
				return true
			}
			com := callOf(in)
			return com != nil && (calleeFull(com) == bcastRead || calleeFull(com) == "os.WriteFile" || strings.HasSuffix(calleeFull(com), "Unlock"))
		},
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		fn := fname(in.Parent())
		switch sl := slotStore(in); {
		case sl == "":
		case sl == bytesSlot:
			st.q = qset(st.q, "w", "")
			if k, ok := in.(*ssa.Store).Val.(*ssa.Const); ok && k.IsNil() {
				st.q = qset(st.q, "b", "")
			} else {
				st.q = qset(st.q, "b", "1")
			}
			return nil, false
		case sl == done:
			marks[in] = true
			v := px.val(st, in.(*ssa.Store).Val)
			if v != avBool(false) && qget(st.q, "w") != "1" && qget(st.q, "id") != "none" {
				px.report("initmark|"+fn, in, "the initialisation segment is taken as written although it was not (or is not known to have been)")
			}
			st.q = qset(st.q, "d", "1")
			return nil, false
		case sl == ss.samples:
			if appendTo(in.(*ssa.Store).Val, sl) == nil {
				return nil, false
			}
			apps[in] = true
			if st.mem[bytesSlot].k != avNonNil {
				px.report("noinit|"+fn, in, "frames are collected before there is an initialisation segment they can be decoded with")
			}
			if st.mem[pt] != c(nalu) {
				px.report("hdrsample|"+fn, in, "a packet that is not known to be a frame is collected like one")
			}
			return nil, false
		}
		com := callOf(in)
		if com == nil {
			return nil, false
		}
		switch calleeFull(com) {
		case bcastRead:
			if qget(st.q, "b") == "1" && qget(st.q, "d") != "1" && qget(st.q, "fail") != "1" {
				px.report("initlost|"+fn, in, "an initialisation segment was made but not written before the next packet is read")
			}
			st.setMem(pt, top)
			q := qset(st.q, "b", "", "d", "", "w", "", "fail", "", "id", "")
			return []POut{{q, nil, []AV{{k: avNonNil}, avBool(true)}}, {q, nil, []AV{{k: avNil}, avBool(false)}}}, true
		case "os.WriteFile":
			if ofInit(com.Args[1]) {
				wrote[in] = true
				return []POut{{qset(st.q, "w", "1"), nil, []AV{{k: avNil}}}, {qset(st.q, "fail", "1"), nil, []AV{{k: avNonNil}}}}, true
			}
		}
		return nil, false
	}
	paths := 0
	for _, f := range ss.start {
		px := newPX(p, r, pr)
		px.Root(f, "", map[string]AV{}, nil)
		paths += px.Paths
		r.sample("segmenter %s: %d outcomes", fname(f), px.Paths)
	}
	// what is given out
	given := 0
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != ss.pkg || f.Signature.Recv() == nil || f.Parent() != nil || !isNamed(f.Signature.Recv().Type(), ss.pkg, tn) {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() != 1 || rs.At(0).Type().String() != "[]byte" {
			continue
		}
		lists := false
		for g := range p.reach(f, false) {
			if g.Pkg != nil && g.Pkg.Pkg.Path() == ss.pkg && funcHas(g, func(in ssa.Instruction) bool { u, ok := in.(*ssa.UnOp); return ok && loadSlot(u) == ss.list }) {
				lists = true
			}
		}
		if !lists {
			continue
		}
		given++
		mr := &PathRule{
			tracked: map[string][]AV{done: nil},
			enter:   pr.enter,
			isEvent: func(in ssa.Instruction) bool { return false },
			atReturn: func(px *PX, g *ssa.Function, st *PState, ret *ssa.Return, res []AV) {
				if g == f && len(res) == 1 && res[0].k != avNil && st.mem[done] != avBool(true) {
					px.report("manifest|"+fname(f), ret, "a manifest is given out without the initialisation segment having been written")
				}
			},
		}
		px := newPX(p, r, mr)
		px.Root(f, "", map[string]AV{}, nil)
		paths += px.Paths
	}
	r.count("fMP4 outcomes", paths)
	r.count("initialisation segments written", len(wrote))
	r.count("initialisation segments marked", len(marks))
	r.count("places that collect frames", len(apps))
	r.count("manifests given out", given)
	r.atLeast("initialisation segments written", 1)
	r.atLeast("initialisation segments marked", 1)
	r.atLeast("places that collect frames", 1)
	r.atLeast("manifests given out", 1)
}

func init() {
	register("C19", "other", func(p *Prog, r *Report) {
		r.Rule = "typestate of a segment: begun at a key frame, program tables and fresh counters before media, whole frames; initialisation segment written before frames are collected or a manifest is given out"
		ts, mp4 := 0, 0
		for _, ss := range p.segmenters(r, segWait) {
			if ss.file != "" {
				ts++
				p.tsSegments(r, ss)
			}
			if ss.samples != "" {
				mp4++
				p.initSegment(r, ss)
			}
		}
		r.count("transport stream segmenters", ts)
		r.count("fMP4 segmenters", mp4)
		r.atLeast("transport stream segmenters", 1)
		r.atLeast("fMP4 segmenters", 1)
	})
}
