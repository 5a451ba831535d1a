package main

// Publisher lifecycle: claim, ownership of the room's media, attachment of the
// segmenters and teardown, on every path of every ingest.

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type lifeSpec struct {
	p                            *Prog
	rooms, hls, dash             string // slots of App's maps
	gop                          string // Room.GOP
	hlsMode, dashOn              string
	immediate                    AV
	roomT                        *types.Named
	appPrefix                    string
	role                         string
	tracked                      map[string][]AV
	writes, metas, claims, reads map[ssa.Instruction]bool
	releases, segs               map[ssa.Instruction]bool
	typed                        map[string]string // sync.Map field -> the one type stored in it
	keys                         map[string]bool   // slots of names streams are filed under
	closers                      map[*ssa.Function]bool
}

// syncMapKinds: what each sync.Map field holds, from the values stored in it.
func (p *Prog) syncMapKinds() map[string]map[string]bool {
	m := map[string]map[string]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := c.Common()
				n := calleeFull(com)
				if !strings.HasPrefix(n, "(*sync.Map).") || len(com.Args) < 3 {
					continue
				}
				cl := p.fieldOrigin(com.Args[0])
				if cl == "" {
					continue
				}
				v := com.Args[len(com.Args)-1]
				t := "?"
				if mi, ok := v.(*ssa.MakeInterface); ok {
					t = typeShort(mi.X.Type())
				}
				if m[cl] == nil {
					m[cl] = map[string]bool{}
				}
				m[cl][t] = true
			}
		}
	}
	return m
}

// fieldsWhere lists the slots of struct fields of a package that satisfy pred.
func (p *Prog) fieldsWhere(pkg string, pred func(owner *types.Named, f *types.Var) bool) []string {
	var out []string
	for _, q := range p.Pkgs {
		if q.PkgPath != modPath+"/"+pkg {
			continue
		}
		for _, nm := range q.Types.Scope().Names() {
			tn, ok := q.Types.Scope().Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			n, _ := tn.Type().(*types.Named)
			if n == nil {
				continue
			}
			s, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if pred(n, s.Field(i)) {
					out = append(out, "F:"+typeKey(n)+"."+strconv.Itoa(i))
				}
			}
		}
	}
	return out
}

func (p *Prog) lifeSpec(r *Report) *lifeSpec {
	ls := &lifeSpec{p: p, tracked: map[string][]AV{}, writes: map[ssa.Instruction]bool{}, metas: map[ssa.Instruction]bool{}, claims: map[ssa.Instruction]bool{}, reads: map[ssa.Instruction]bool{},
		releases: map[ssa.Instruction]bool{}, segs: map[ssa.Instruction]bool{}, typed: map[string]string{}, keys: map[string]bool{}, closers: map[*ssa.Function]bool{}}
	for cl, ts := range p.syncMapKinds() {
		for t := range ts {
			switch t {
			case "*librtmp.Room":
				ls.rooms = cl
			case "*libhls.HLS":
				ls.hls = cl
			case "*libdash.DASH":
				ls.dash = cl
			}
			if len(ts) == 1 {
				ls.typed[cl] = t
			}
		}
	}
	one := func(what string, xs []string) string {
		if len(xs) != 1 {
			r.find("coverage|"+what, "-", "expected exactly one %s, found %d", what, len(xs))
			return ""
		}
		return xs[0]
	}
	isApp := func(n *types.Named) bool { return n.Obj().Name() == "App" }
	ls.hlsMode = one("field holding the app's HLS mode", p.fieldsWhere("librtmp", func(n *types.Named, f *types.Var) bool {
		return isApp(n) && isNamed(f.Type(), "libhls", "HLS_MODE")
	}))
	ls.dashOn = one("bool field of App (DASH enabled)", p.fieldsWhere("librtmp", func(n *types.Named, f *types.Var) bool {
		return isApp(n) && isBoolType(f.Type())
	}))
	ls.role = one("field holding the connection role", p.fieldsWhere("librtmp", func(n *types.Named, f *types.Var) bool {
		return n.Obj().Name() == "RTMP" && isNamed(f.Type(), "librtmp", "connRole")
	}))
	ls.gop = one("broadcast field of Room", p.fieldsWhere("librtmp", func(n *types.Named, f *types.Var) bool {
		return n.Obj().Name() == "Room" && typeShort(f.Type()) == "*broadcast.Broadcast"
	}))
	for k, v := range map[string]string{"room table": ls.rooms, "HLS table": ls.hls, "DASH table": ls.dash} {
		if v == "" {
			r.find("coverage|"+k, "-", "no sync.Map field serves as the %s", k)
		}
	}
	ls.immediate, _ = p.constAV("libhls", "IMMEDIATELY")
	ls.roomT = p.namedType("librtmp", "Room")
	if n := p.namedType("librtmp", "App"); n != nil {
		ls.appPrefix = "F:" + typeKey(n) + "."
	}
	if ls.roomT == nil || ls.appPrefix == "" {
		r.find("coverage|type Room", "-", "type Room is gone")
		return nil
	}
	// every field that can hold a room, an RTMP endpoint or an ingest
	for _, sl := range p.fieldsWhere("librtmp", func(n *types.Named, f *types.Var) bool {
		if _, ptr := f.Type().(*types.Pointer); !ptr {
			return false
		}
		return isNamed(f.Type(), "librtmp", "Room") || isNamed(f.Type(), "librtmp", "rtspIngest") ||
			isNamed(f.Type(), "librtmp", "RTMP") && n.Obj().Name() != "MessageBase"
	}) {
		ls.tracked[sl] = nil
	}
	// the names a stream is filed under, and the flags of a room
	for _, sl := range p.fieldsWhere("librtmp", func(n *types.Named, f *types.Var) bool {
		if n.Obj().Name() == "Room" && isBoolType(f.Type()) {
			return true
		}
		return n.Obj().Name() == "Room" && isStringType(f.Type())
	}) {
		ls.tracked[sl] = nil
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if l, ok := in.(*ssa.Lookup); ok && ls.isAppsMap(l.X.Type()) {
					if k := p.fieldOrigin(l.Index); strings.Contains(k, "/librtmp.RTMP.") {
						ls.tracked[k] = nil
					}
				}
			}
		}
	}
	for sl := range ls.tracked {
		if t := p.slotType(sl); t != nil && isStringType(t) {
			ls.keys[sl] = true
		}
	}
	if n := p.namedType("libhls", "HLS_MODE"); n != nil {
		ls.tracked[ls.hlsMode] = p.enumAVs(n)
	}
	ls.tracked[ls.dashOn] = []AV{avBool(true), avBool(false)}
	if n := p.namedType("librtmp", "connRole"); n != nil {
		ls.tracked[ls.role] = p.enumAVs(n)
	}
	// callbacks telling that an SRT publisher is gone
	for _, f := range p.Funcs {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/libsrt") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.IsInvoke() || c.Call.StaticCallee() != nil {
					continue
				}
				s := c.Call.Signature()
				if s.Params().Len() == 1 && isStringType(s.Params().At(0).Type()) {
					for _, g := range p.Callees(c) {
						ls.closers[g] = true
					}
				}
			}
		}
	}
	return ls
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ls *lifeSpec) isAppsMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isStringType(m.Key()) && isNamed(m.Elem(), "librtmp", "App")
}

// slotType is the type of the field a slot names.
func (p *Prog) slotType(slot string) types.Type {
	if !strings.HasPrefix(slot, "F:") {
		return nil
	}
	i := strings.LastIndex(slot, ".")
	idx, err := strconv.Atoi(slot[i+1:])
	if err != nil {
		return nil
	}
	t := slot[2:i]
	for _, q := range p.Pkgs {
		if strings.HasPrefix(t, q.PkgPath+".") {
			if o := q.Types.Scope().Lookup(t[len(q.PkgPath)+1:]); o != nil {
				if s, ok := o.Type().Underlying().(*types.Struct); ok && idx < s.NumFields() {
					return s.Field(idx).Type()
				}
			}
		}
	}
	return nil
}

const bcast = athena + "broadcast"

// isMapOp recognises a sync.Map method on the given App field.
func (ls *lifeSpec) mapOp(com *ssa.CallCommon) (field, op string) {
	n := calleeFull(com)
	if !strings.HasPrefix(n, "(*sync.Map).") || len(com.Args) == 0 {
		return "", ""
	}
	switch ls.p.fieldOrigin(com.Args[0]) {
	case ls.rooms:
		return "rooms", n[len("(*sync.Map)."):]
	case ls.hls:
		return "hls", n[len("(*sync.Map)."):]
	case ls.dash:
		return "dash", n[len("(*sync.Map)."):]
	}
	return "", ""
}

func (ls *lifeSpec) isEvent(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Alloc:
		return isNamed(x.Type(), "librtmp", "Room")
	case ssa.CallInstruction:
		com := x.Common()
		if f, _ := ls.mapOp(com); f != "" {
			return true
		}
		if op, ok := syncOp(com); ok && strings.HasPrefix(op.key, ls.appPrefix) {
			return true
		}
		n := calleeFull(com)
		if strings.Contains(n, bcast+".") {
			return true
		}
		switch n {
		case "(*" + modPath + "/libhls.HLS).Stop", "(*" + modPath + "/libdash.DASH).Stop",
			"(*" + modPath + "/libhls.HLS).Start", "(*" + modPath + "/libdash.DASH).Start":
			return true
		}
	}
	return false
}

type lifeMode struct {
	claim, release, owner, seg bool
}

func (ls *lifeSpec) rule(mode lifeMode) *PathRule {
	pr := &PathRule{tracked: ls.tracked, isEvent: ls.isEvent}
	pr.enter = func(f *ssa.Function) (yes, no bool) {
		n := f.String()
		if strings.Contains(n, bcast+".") {
			return false, true
		}
		switch n {
		case "(*" + modPath + "/libhls.HLS).Stop", "(*" + modPath + "/libdash.DASH).Stop":
			return false, true
		}
		return false, false
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		switch x := in.(type) {
		case *ssa.Alloc:
			if isNamed(x.Type(), "librtmp", "Room") {
				if _, ok := derefType(x.Type()).Underlying().(*types.Struct); ok {
					if qget(st.q, "claim") == "own" && mode.release {
						// a new room while the old one is still owned: the old one must have been released
						px.leak(st, in, "a second room is created")
					}
					st.q = qset(st.q, "claim", "none", "del", "", "dis", "", "hOn", "", "hReg", "", "hS", "", "hR", "", "dOn", "", "dReg", "", "dS", "", "dR", "")
					// rooms seen so far are no longer the new one
					for k, v := range st.mem {
						if v.tag == "@1new" {
							v.tag = "@old"
							st.mem[k] = v
						}
					}
					for k, v := range st.vals {
						if v.tag == "@1new" {
							v.tag = "@old"
							st.vals[k] = v
						}
					}
					st.setVal(x, AV{k: avNonNil, tag: "@1new"})
				}
			}
			return nil, false
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, false
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				cl := classOf(fa).class
				if b := px.val(st, fa.X).tag; (b == "@old" || strings.HasPrefix(b, "@reg")) && isBoolType(x.Type()) {
					// a flag of a room another endpoint registered
					return []POut{{st.q, nil, []AV{avBool(true)}}, {st.q, nil, []AV{avBool(false)}}}, true
				}
				if cl == ls.gop || cl == ls.rooms || cl == ls.hls || cl == ls.dash {
					a := px.val(st, fa.X)
					st.setVal(x, AV{k: avNonNil, tag: a.tag})
				} else if isStringType(x.Type()) && !ls.keys[cl] {
					st.setVal(x, AV{tag: "s:" + cl})
				}
			}
			return nil, false
		case *ssa.Field:
			if isStringType(x.Type()) {
				_, sT := structOf(x.X.Type())
				st.setVal(x, AV{tag: "s:F:" + typeKey(sT) + "." + strconv.Itoa(x.Field)})
			}
			return nil, false
		case *ssa.Store:
			// renaming what a claimed stream is filed under
			sl := px.slotOf(x.Addr)
			if ls.keys[sl] && qget(st.q, "claim") == "own" && qget(st.q, "del") != "1" {
				old := keyTag(st.mem[sl])
				if old != "" && (old == qget(st.q, "key") || old == qget(st.q, "app")) {
					st.setMem(sl, AV{tag: "s:changed"})
					return []POut{{st.q, nil, nil}}, true
				}
			}
			return nil, false
		case *ssa.TypeAssert:
			if x.CommaOk {
				// the table holds one type only
				a := px.val(st, x.X)
				if a.k == avNonNil && strings.HasPrefix(a.tag, "@t:") && a.tag[3:] == typeShort(x.AssertedType) {
					return []POut{{st.q, nil, []AV{{k: avNonNil, tag: a.tag}, avBool(true)}}}, true
				}
			}
			return nil, false
		case *ssa.Lookup:
			if ls.isAppsMap(x.X.Type()) {
				key := keyTag(px.val(st, x.Index))
				here := AV{k: avNonNil, tag: "@app:" + key}
				if qget(st.q, "claim") == "own" && key != "" && key == qget(st.q, "app") {
					// the table of apps does not change once the server runs
					if !x.CommaOk {
						return []POut{{st.q, nil, []AV{here}}}, true
					}
					return []POut{{st.q, nil, []AV{here, avBool(true)}}}, true
				}
				if !x.CommaOk {
					return []POut{{st.q, nil, []AV{here}}, {st.q, nil, []AV{{k: avNil}}}}, true
				}
				return []POut{{st.q, nil, []AV{here, avBool(true)}}, {st.q, nil, []AV{{k: avNil}, avBool(false)}}}, true
			}
			return nil, false
		case *ssa.Go:
			if ls.p.goRuns(x, "(*"+modPath+"/libhls.HLS).Start") {
				ls.segs[in] = true
				st.q = qset(st.q, "hOn", "1")
			}
			if ls.p.goRuns(x, "(*"+modPath+"/libdash.DASH).Start") {
				ls.segs[in] = true
				st.q = qset(st.q, "dOn", "1")
			}
			return nil, false
		}
		com := callOf(in)
		if com == nil {
			return nil, false
		}
		if op, ok := syncOp(com); ok && strings.HasPrefix(op.key, ls.appPrefix) {
			switch op.op {
			case "Unlock", "RUnlock":
				st.q = qset(st.q, "abs", "", "lk", "", "chk", "")
				// segmenters removed in a section that left the room in the table
				for _, h := range []string{"h", "d"} {
					if qget(st.q, h+"L") == "1" && qget(st.q, "del") != "1" {
						st.q = qset(st.q, h+"L", "2")
					}
				}
			case "Lock":
				st.q = qset(st.q, "lk", "1")
			}
		}
		fld, op := ls.mapOp(com)
		switch fld {
		case "rooms":
			return ls.roomsOp(px, in, com, op, st, mode)
		case "hls", "dash":
			return ls.segOp(px, in, fld[:1], op, st, mode)
		}
		n := calleeFull(com)
		switch n {
		case "(*" + modPath + "/libhls.HLS).Stop":
			st.q = qset(st.q, "hS", "1")
			return []POut{{st.q, nil, nil}}, true
		case "(*" + modPath + "/libdash.DASH).Stop":
			st.q = qset(st.q, "dS", "1")
			return []POut{{st.q, nil, nil}}, true
		case "(*" + modPath + "/libhls.HLS).Start":
			st.q = qset(st.q, "hOn", "1")
		case "(*" + modPath + "/libdash.DASH).Start":
			st.q = qset(st.q, "dOn", "1")
		}
		if strings.HasPrefix(n, "(*"+bcast+".Broadcast).") {
			return ls.gopOp(px, in, com, n[strings.LastIndex(n, ".")+1:], st, mode)
		}
		if n == "(*"+bcast+".BroadcastReader).Read" {
			ls.reads[in] = true
			return []POut{{st.q, nil, []AV{{k: avNonNil}, avBool(true)}}, {st.q, nil, []AV{{k: avNil}, avBool(false)}}}, true
		}
		return nil, false
	}
	pr.branch = func(px *PX, st *PState, cond ssa.Value, truth bool) {
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, truth = u.X, !truth
		}
		b, ok := cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.EQL) != truth {
			return
		}
		x, y := px.val(st, b.X), px.val(st, b.Y)
		if x.k == avNonNil && y.k == avNonNil && (x.tag == "@reg!" || y.tag == "@reg!") && isNamed(b.X.Type(), "librtmp", "Room") && qget(st.q, "lk") == "1" {
			st.q = qset(st.q, "chk", "1")
		}
	}
	pr.opaque = func(px *PX, com *ssa.CallCommon, f *ssa.Function, args []AV, st *PState) []AV {
		// strings are known by the call that made them
		res := f.Signature.Results()
		var out []AV
		some := false
		for i := 0; i < res.Len(); i++ {
			a := top
			if isStringType(res.At(i).Type()) {
				a.tag = "s:" + px.p.pos(com.Pos()) + "#" + strconv.Itoa(i)
				some = true
			}
			out = append(out, a)
		}
		if !some {
			return nil
		}
		return out
	}
	return pr
}

func typeShort(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (ls *lifeSpec) roomsOp(px *PX, in ssa.Instruction, com *ssa.CallCommon, op string, st *PState, mode lifeMode) ([]POut, bool) {
	own := qget(st.q, "claim") == "own" && qget(st.q, "del") != "1"
	switch op {
	case "Load":
		ls.segs[in] = true
		if own {
			// the entry under our own name is our room
			return []POut{{st.q, nil, []AV{{k: avNonNil, tag: "@1new"}, avBool(true)}}}, true
		}
		q0, reg := st.q, "@reg"
		if qget(st.q, "lk") == "1" {
			reg = "@reg!"
		}
		if qget(st.q, "lk") == "1" {
			q0 = qset(st.q, "abs", "1")
		}
		return []POut{
			{qset(st.q, "abs", ""), nil, []AV{{k: avNonNil, tag: reg}, avBool(true)}},
			{q0, nil, []AV{{k: avNil}, avBool(false)}}}, true
	case "LoadOrStore", "CompareAndSwap":
		ls.claims[in] = true
		if own && mode.release {
			px.leak(st, in, "another stream is claimed")
		}
		o := qset(st.q, "claim", "own", "del", "0", "dis", "0", "hS", "1", "hR", "1", "dS", "1", "dR", "1", "key", argTag(px, st, com, 1), "app", strings.TrimPrefix(px.val(st, com.Args[0]).tag, "@app:"))
		l := qset(st.q, "claim", "lost")
		return []POut{
			{o, nil, []AV{{k: avNonNil, tag: "@1new"}, avBool(false)}},
			{l, nil, []AV{{k: avNonNil, tag: "@reg"}, avBool(true)}}}, true
	case "Store", "Swap":
		ls.claims[in] = true
		if qget(st.q, "abs") != "1" && mode.claim {
			px.report("overwrite|"+fname(in.Parent()), in, "the room table entry is overwritten without an atomic check that the stream has no publisher: two publishers can both own the stream")
		}
		o := qset(st.q, "claim", "own", "del", "0", "dis", "0", "hS", "1", "hR", "1", "dS", "1", "dR", "1", "key", argTag(px, st, com, 1), "app", strings.TrimPrefix(px.val(st, com.Args[0]).tag, "@app:"))
		return []POut{{o, nil, []AV{top, top}}}, true
	case "Delete", "LoadAndDelete", "CompareAndDelete", "Clear":
		ls.releases[in] = true
		if qget(st.q, "claim") != "own" && mode.owner {
			px.report("delete-foreign|"+fname(in.Parent()), in, "the room is removed by an endpoint that does not own it")
		}
		q := st.q
		if k := argTag(px, st, com, 1); k != qget(q, "key") {
			if mode.release && qget(q, "claim") == "own" {
				px.report("wrong-key|"+fname(in.Parent()), in, "the entry removed is filed under %q, but the stream was claimed under %q", ls.keyName(k), ls.keyName(qget(q, "key")))
			}
		} else if ap := strings.TrimPrefix(px.val(st, com.Args[0]).tag, "@app:"); ap != qget(q, "app") {
			if mode.release && qget(q, "claim") == "own" {
				px.report("wrong-app|"+fname(in.Parent()), in, "the entry is removed from the app %q, but the stream was claimed in %q", ls.keyName(ap), ls.keyName(qget(q, "app")))
			}
		} else {
			q = qset(q, "del", "1")
			for h, nm := range map[string]string{"h": "HLS", "d": "DASH"} {
				if mode.release && qget(q, h+"L") == "2" {
					px.report("late-seg|"+nm, in, "the room leaves the table in a later critical section than its %s segmenter: one registered in between is never stopped", nm)
				}
			}
		}
		return []POut{{q, nil, []AV{top, top}}}, true
	}
	return nil, false
}

func argTag(px *PX, st *PState, com *ssa.CallCommon, i int) string {
	if i >= len(com.Args) {
		return ""
	}
	return keyTag(px.val(st, com.Args[i]))
}

// keyTag names a string: where it came from, or the constant it is.
func keyTag(a AV) string {
	if a.k == avConst {
		return "c:" + a.s
	}
	return a.tag
}

func (ls *lifeSpec) keyName(t string) string {
	t = strings.TrimPrefix(t, "s:")
	if t == "" {
		return "a value that is not traced"
	}
	return ls.p.slotName(t)
}

func (ls *lifeSpec) segOp(px *PX, in ssa.Instruction, h, op string, st *PState, mode lifeMode) ([]POut, bool) {
	ls.segs[in] = true
	switch op {
	case "Load", "LoadAndDelete":
		rm := ""
		if op == "LoadAndDelete" {
			rm = "1"
		}
		if op == "LoadAndDelete" && qget(st.q, "claim") == "own" {
			l := "1"
			if qget(st.q, "lk") != "1" {
				l = "2"
			}
			st.q = qset(st.q, h+"L", l)
		}
		absent := qset(st.q, h+"S", "1", h+"R", "1", h+"On", "0", h+"Reg", "0")
		pq := qset(st.q, h+"S", "0", h+"R", "0", h+"On", "1", h+"Reg", "1")
		if rm != "" {
			pq = qset(pq, h+"R", "1", h+"Reg", "0")
		}
		pres := POut{pq, nil, []AV{{k: avNonNil, tag: "@t:" + ls.typed[map[string]string{"h": ls.hls, "d": ls.dash}[h]]}, avBool(true)}}
		abs := POut{absent, nil, []AV{{k: avNil}, avBool(false)}}
		if qget(st.q, "claim") == "own" && qget(st.q, h+"Reg") == "1" {
			return []POut{pres}, true // registered on this very path
		}
		return []POut{pres, abs}, true
	case "Store", "LoadOrStore":
		if mode.seg && (qget(st.q, "claim") != "own" || qget(st.q, "del") == "1") && qget(st.q, "chk") != "1" {
			px.report("seg-stale|"+h+"|"+fname(in.Parent()), in, "a segmenter is registered without checking, in the same critical section, that the room is still the one in the table: it would run for a departed publisher")
		}
		st.q = qset(st.q, h+"Reg", "1", h+"S", "0", h+"R", "0")
		return []POut{{st.q, nil, []AV{top, top}}}, true
	case "Delete":
		st.q = qset(st.q, h+"R", "1")
		return []POut{{st.q, nil, nil}}, true
	}
	return nil, false
}

func (ls *lifeSpec) gopOp(px *PX, in ssa.Instruction, com *ssa.CallCommon, op string, st *PState, mode lifeMode) ([]POut, bool) {
	a := px.val(st, com.Args[0])
	switch op {
	case "Write", "WriteMeta", "Reset", "DisAlive":
		if op == "DisAlive" {
			ls.releases[in] = true
		} else {
			ls.writes[in] = true
		}
		claim := qget(st.q, "claim")
		if mode.owner {
			switch {
			case strings.HasPrefix(a.tag, "@reg") || a.tag == "@old":
				px.report("foreign-room|"+op+"|"+fname(in.Parent()), in, "Broadcast.%s on a room another endpoint publishes", op)
			case a.tag != "@1new":
				px.dbg(st)
				px.report("unknown-room|"+op+"|"+fname(in.Parent()), in, "Broadcast.%s on a room that is not shown to be the endpoint's own", op)
			}
		}
		if mode.claim && op != "DisAlive" && a.tag == "@1new" && claim != "own" {
			px.report("unclaimed|"+op+"|"+fname(in.Parent()), in, "media is accepted for a stream whose claim was not won (claim state %q)", claim)
		}
		if mode.release && op != "DisAlive" && a.tag == "@1new" && (qget(st.q, "del") == "1" || qget(st.q, "dis") == "1") {
			px.report("after-release|"+op+"|"+fname(in.Parent()), in, "media is accepted after the room was released")
		}
		if mode.seg && op == "Write" && a.tag == "@1new" && claim == "own" {
			m := st.mem[ls.hlsMode]
			if m.k != avConst {
				px.report("seg-undecided|hls", in, "media is accepted without having consulted the HLS mode of the app")
			} else if m == ls.immediate && (qget(st.q, "hOn") != "1" || qget(st.q, "hReg") != "1") {
				px.report("seg-missing|hls", in, "media is accepted in IMMEDIATELY mode without a registered, running HLS segmenter")
			}
			d := st.mem[ls.dashOn]
			if d.k != avConst {
				px.report("seg-undecided|dash", in, "media is accepted without having consulted whether DASH is enabled")
			} else if d.s == "true" && (qget(st.q, "dOn") != "1" || qget(st.q, "dReg") != "1") {
				px.report("seg-missing|dash", in, "media is accepted with DASH enabled without a registered, running DASH segmenter")
			}
		}
		if op == "DisAlive" && a.tag == "@1new" {
			st.q = qset(st.q, "dis", "1")
		}
		return []POut{{st.q, nil, nil}}, true
	}
	return nil, false
}

// leak reports what an endpoint still holds.
func (px *PX) leak(st *PState, in ssa.Instruction, when string) {
	q := st.q
	if qget(q, "claim") != "own" {
		return
	}
	fn := "?"
	if in != nil {
		fn = fname(in.Parent())
	}
	for _, w := range [][2]string{{"del", "the stream's entry in the room table is not removed"}, {"dis", "the room's broadcast is not closed, so subscribers never stop"},
		{"hS", "a running HLS segmenter is not stopped"}, {"hR", "the HLS segmenter stays registered"}, {"dS", "a running DASH segmenter is not stopped"}, {"dR", "the DASH segmenter stays registered"}} {
		if qget(q, w[0]) != "1" {
			px.report("leak|"+w[0]+"|"+fn, in, "when %s (%s): %s", when, fn, w[1])
		}
	}
}

// lifeRoot is a goroutine or HTTP request with the state it starts in.
type lifeRoot struct {
	f   *ssa.Function
	q   string
	mem map[string]AV
	ps  []AV
	via string
}

func (rt lifeRoot) key() string {
	k := rt.f.String() + "|" + rt.q + "|" + memKey(rt.mem)
	for _, a := range rt.ps {
		k += "," + a.String()
	}
	return k
}

// spawned lists what a go statement starts and in which state.
func (px *PX) spawned(g *ssa.Go, st *PState) (out []lifeRoot) {
	for _, t := range px.p.Callees(g) {
		if t.Blocks == nil || !px.p.isRepoFunc(t) || !px.relevant[t] {
			continue
		}
		mem := map[string]AV{}
		for k, v := range st.mem {
			if strings.HasPrefix(k, "A:") && !lexicallyVisible(k, t) {
				continue
			}
			mem[k] = v
		}
		var ps []AV
		if args := g.Call.Args; len(args) == len(t.Params) {
			for _, a := range args {
				ps = append(ps, px.val(st, a))
			}
		}
		out = append(out, lifeRoot{t, st.q, mem, ps, px.p.posOf(g)})
	}
	return
}

// httpHandlers: closures and functions with the http.HandlerFunc signature.
func (p *Prog) httpHandlers() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		s := f.Signature
		if s.Recv() == nil && s.Params().Len() == 2 && typeShort(s.Params().At(0).Type()) == "http.ResponseWriter" && typeShort(s.Params().At(1).Type()) == "*http.Request" && p.addressTaken(f) || f.Parent() != nil && s.Params().Len() == 2 && s.Results().Len() == 0 && typeShort(s.Params().At(0).Type()) == "http.ResponseWriter" && typeShort(s.Params().At(1).Type()) == "*http.Request" {
			out = append(out, f)
		}
	}
	return out
}

func (ls *lifeSpec) run(r *Report, mode lifeMode) {
	var queue []lifeRoot
	seen := map[string]bool{}
	push := func(rt lifeRoot) {
		if k := rt.key(); !seen[k] {
			seen[k] = true
			queue = append(queue, rt)
		}
	}
	for _, f := range ls.p.Funcs {
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Parent() == nil {
			push(lifeRoot{f, "claim=none", map[string]AV{}, nil, "program start"})
		}
	}
	for _, f := range ls.p.httpHandlers() {
		push(lifeRoot{f, "claim=none", map[string]AV{}, nil, "http"})
	}
	pr := ls.rule(mode)
	inner := pr.event
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		if g, ok := in.(*ssa.Go); ok {
			for _, rt := range px.spawned(g, st) {
				push(rt)
			}
		}
		return inner(px, in, st)
	}
	var cur lifeRoot
	if mode.release {
		pr.atReturn = func(px *PX, f *ssa.Function, st *PState, ret *ssa.Return, res []AV) {
			if ls.closers[f] {
				px.leak(st, ret, "the SRT publisher is gone")
			}
			// a goroutine that inherits an owned stream is not its owner
			if f == cur.f && len(px.callStk) == 0 && qget(cur.q, "claim") == "none" && !ls.viaCallbacks(f) {
				px.leak(st, ret, "the endpoint's goroutine ends")
			}
		}
	}
	px := newPX(ls.p, r, pr)
	fns := map[*ssa.Function]bool{}
	nroots, paths := 0, 0
	for len(queue) > 0 {
		cur = queue[0]
		queue = queue[1:]
		if !px.relevant[cur.f] {
			continue
		}
		nroots++
		px.memo, px.Fns, px.Paths = map[string]*pSummary{}, map[*ssa.Function]bool{}, 0
		px.Root(cur.f, cur.q, cur.mem, cur.ps)
		for f := range px.Fns {
			fns[f] = true
		}
		paths += px.Paths
		r.sample("root %s (started at %s): %d functions, %d summary outcomes", fname(cur.f), cur.via, len(px.Fns), px.Paths)
	}
	r.count("roots", nroots)
	r.count("functions", len(fns))
	r.count("outcomes", paths)
	r.count("claim sites", len(ls.claims))
	r.count("media writes", len(ls.writes))
	r.count("release sites", len(ls.releases))
	r.count("segmenter operations", len(ls.segs))
	r.count("broadcast reads", len(ls.reads))
}

// viaCallbacks: the goroutine serves several publishers through callbacks; their
// end is announced by the close callback, not by the goroutine's end.
func (ls *lifeSpec) viaCallbacks(f *ssa.Function) bool {
	rs := ls.p.reach(f, false)
	for g := range ls.closers {
		if rs[g] {
			return true
		}
	}
	return false
}

func init() {
	pathAssume := []string{"path feasibility is over-approximated except for nil tests, constants, tracked fields and comma-ok results", "struct fields are tracked once per type along a path (one endpoint, its room, its ingest); other endpoints are explored as roots of their own", "the table of apps does not change while the server runs", "sync.Map operations are atomic; Athena's Broadcast closes its readers on DisAlive"}
	for _, m := range []struct {
		id, rule string
		mode     lifeMode
	}{
		{"C07", "a room enters the room table only by LoadOrStore/CompareAndSwap or under the table's lock with absence established; no Write/WriteMeta/Reset on the room of an endpoint unless that operation reported success on the path", lifeMode{claim: true}},
		{"C08", "on every path on which an endpoint's claim succeeded, before its goroutine ends (SRT: before its close callback returns) the entry under the claimed key in the claimed app is deleted, the room's broadcast closed and its HLS and DASH segmenters stopped and unregistered; no media is accepted afterwards; segmenters go in the critical section in which the room goes or later", lifeMode{release: true}},
		{"C09", "Write, WriteMeta, Reset and DisAlive on a broadcast, and removal from the room table, happen only on paths on which the room is the one this endpoint created and claimed", lifeMode{owner: true}},
		{"C10", "when an endpoint that owns a room passes on media, the app's HLS mode and DASH switch have been consulted and each enabled segmenter is registered and started; other registrations check in the same critical section that the room is the one in the table", lifeMode{seg: true}},
	} {
		m := m
		register(m.id, "other", func(p *Prog, r *Report) {
			r.Rule = m.rule
			r.Assume = pathAssume
			if ls := p.lifeSpec(r); ls != nil {
				ls.run(r, m.mode)
				r.atLeast("roots", 6)
				r.atLeast("claim sites", 1)
				r.atLeast("media writes", 8)
				r.atLeast("release sites", 2)
				r.atLeast("segmenter operations", 6)
			}
		})
	}
}
