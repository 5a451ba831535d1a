package main

// Each protocol step is taken only after the one it depends on: the RTMP
// handshake and the commands of a pull, the WebSocket upgrade, the SRT
// handshake, RTSP's PLAY and RECORD.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// chunkParser: the function decodes one chunk of a connection.
func (p *Prog) chunkParser(f *ssa.Function) bool {
	if f == nil || !p.isRepoFunc(f) {
		return false
	}
	res := f.Signature.Results()
	return res.Len() == 2 && isNamed(res.At(0).Type(), modPath+"/librtmp", "Chunk") && errorIndex(res) == 1
}

// handlesMessage: a method of one of the RTMP messages.
func handlesMessage(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	s, st := structOf(f.Signature.Recv().Type())
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && isNamed(s.Field(i).Type(), modPath+"/librtmp", "MessageBase") {
			return true
		}
	}
	return isNamed(st, modPath+"/librtmp", "MessageBase")
}

func lenTag(a AV) int {
	if strings.HasPrefix(a.tag, "len=") {
		n, err := strconv.Atoi(a.tag[4:])
		if err == nil {
			return n
		}
	}
	return -1
}

// sliceLen: the length of what a slice expression makes, -1 when not constant.
func (px *PX) sliceLen(st *PState, v ssa.Value) int {
	ci := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		a := px.val(st, v)
		n, err := strconv.Atoi(a.s)
		if a.k != avConst || err != nil {
			return -1
		}
		return n
	}
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return ci(x.Len, -1)
	case *ssa.Slice:
		whole := -1
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				whole = int(at.Len())
			}
		} else {
			whole = lenTag(px.val(st, x.X))
		}
		lo, hi := ci(x.Low, 0), ci(x.High, whole)
		if lo < 0 || hi < 0 {
			return -1
		}
		return hi - lo
	}
	return -1
}

const handshakeBytes = 1 + 1536 + 1536

var pullCommands = map[string]bool{"connect": true, "createStream": true, "play": true}
var pullOrder = map[string]string{"connect": "", "createStream": "connect", "play": "createStream"}

func (p *Prog) stepRTMP(r *Report) {
	count := p.slot("librtmp", "RTMP", "resultCount")
	if count == "" {
		r.find("anchor|resultCount", "-", "RTMP.resultCount is gone: what tells a pull that its command was accepted?")
		return
	}
	isLoad := func(v ssa.Value) *ssa.Call {
		c, ok := v.(*ssa.Call)
		if ok && strings.HasPrefix(calleeFull(&c.Call), "sync/atomic.Load") && slotAddr(c.Call.Args[0]) == count {
			return c
		}
		return nil
	}
	// the comparison that holds once a result arrived
	advanced := func(in ssa.Instruction) (yes, is bool) {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			return
		}
		x, y := isLoad(b.X), isLoad(b.Y)
		switch b.Op {
		case token.GTR, token.LSS, token.GEQ, token.LEQ, token.NEQ, token.EQL:
		default:
			return
		}
		if x == nil && y == nil {
			return
		}
		xLater := y == nil || x != nil && y.Block().Dominates(x.Block())
		switch b.Op {
		case token.NEQ:
			return true, true
		case token.EQL:
			return false, true
		case token.GTR: // later > earlier
			return xLater, true
		case token.LSS:
			return !xLater, true
		case token.LEQ: // later <= earlier: false once advanced
			return false, xLater
		case token.GEQ:
			return false, !xLater
		}
		return
	}
	writesPeer := map[*ssa.Function]bool{}
	command := func(in ssa.Instruction) string {
		com := callOf(in)
		if com == nil || in.Parent().Pkg == nil || !strings.HasSuffix(in.Parent().Pkg.Pkg.Path(), "/librtmp") {
			return ""
		}
		f := com.StaticCallee()
		if f == nil || !p.isRepoFunc(f) {
			return ""
		}
		w, ok := writesPeer[f]
		if !ok {
			for h := range p.reach(f, false) {
				if funcHas(h, peerWrite) {
					w = true
				}
			}
			writesPeer[f] = w
		}
		if !w {
			return ""
		}
		for _, a := range com.Args {
			if s, ok := constStr(a); ok && pullCommands[s] {
				return s
			}
		}
		return ""
	}
	isConn := func(in ssa.Instruction) bool {
		a, ok := in.(*ssa.Alloc)
		return ok && isNamed(a.Type(), modPath+"/librtmp", "RTMP")
	}
	// reads and writes of the bare connection
	bare := func(com *ssa.CallCommon) (op string, buf ssa.Value) {
		if com == nil || !com.IsInvoke() {
			return
		}
		t := typeShort(com.Value.Type())
		if !strings.HasSuffix(t, "EasyReader") && !strings.HasSuffix(t, "EasyWriter") && !strings.HasSuffix(t, "EasyReadWriter") {
			return
		}
		switch com.Method.Name() {
		case "ReadFull", "ReadN":
			return "r", com.Args[0]
		case "Write", "WriteFull":
			return "w", nil
		}
		return
	}
	version := func(in ssa.Instruction) *ssa.BinOp {
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return nil
		}
		t, ok := b.X.Type().Underlying().(*types.Basic)
		if !ok || t.Kind() != types.Uint8 {
			return nil
		}
		_, xc := b.X.(*ssa.Const)
		_, yc := b.Y.(*ssa.Const)
		if xc && yc || sameLoad(b.X, b.Y) {
			return nil
		}
		return b
	}
	parses, cmds, steps := map[ssa.Instruction]bool{}, map[string]bool{}, map[ssa.Instruction]bool{}
	pr := &PathRule{
		tracked: map[string][]AV{},
		budget:  12000000,
		isEvent: func(in ssa.Instruction) bool {
			com := callOf(in)
			if com != nil && p.chunkParser(com.StaticCallee()) || command(in) != "" || isConn(in) {
				return true
			}
			if _, is := advanced(in); is {
				return true
			}
			op, _ := bare(com)
			return op != "" && strings.HasSuffix(in.Parent().Pkg.Pkg.Path(), "/librtmp")
		},
		enter: func(f *ssa.Function) (bool, bool) {
			return false, handlesMessage(f)
		},
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		fn := fname(in.Parent())
		switch x := in.(type) {
		case *ssa.Slice, *ssa.MakeSlice:
			if n := px.sliceLen(st, in.(ssa.Value)); n >= 0 && qget(st.q, "hs") == "" {
				return []POut{{st.q, nil, []AV{{k: avNonNil, tag: "len=" + strconv.Itoa(n)}}}}, true
			}
			return nil, false
		case *ssa.Alloc:
			if isConn(x) {
				st.q = ""
			}
			return nil, false
		case *ssa.BinOp:
			if yes, is := advanced(in); is {
				steps[in] = true
				q := st.q
				if qget(q, "cmd") != "" && qget(q, "got") == "1" {
					q = qset(q, "res", "1")
				}
				return []POut{{q, nil, []AV{avBool(yes)}}, {st.q, nil, []AV{avBool(!yes)}}}, true
			}
			if b := version(in); b != nil && qget(st.q, "rd") == "1" && qget(st.q, "hs") == "" {
				steps[in] = true
				return []POut{{qset(st.q, "ver", "1"), nil, []AV{avBool(b.Op == token.EQL)}}, {st.q, nil, []AV{avBool(b.Op != token.EQL)}}}, true
			}
			return nil, false
		}
		com := callOf(in)
		if com == nil {
			return nil, false
		}
		rd := qget(st.q, "rd")
		if c := command(in); c != "" {
			cmds[c] = true
			steps[in] = true
			if qget(st.q, "hs") == "" {
				// the first command ends the handshake
				px.handshakeOver(st, in, fn)
			}
			if prev := pullOrder[c]; prev != "" && (qget(st.q, "cmd") != prev || qget(st.q, "res") == "") {
				px.report("order|"+fn+"|"+c, in, "%s is sent although the upstream did not accept %s before", c, prev)
			}
			st.q = qset(st.q, "cmd", c, "res", "", "got", "")
			return nil, false
		}
		if p.chunkParser(com.StaticCallee()) {
			parses[in] = true
			if qget(st.q, "hs") == "" {
				px.handshakeOver(st, in, fn)
			}
			st.q = qset(st.q, "got", "1")
			return []POut{{st.q, nil, []AV{{k: avNonNil}, {k: avNil}}}, {st.q, nil, []AV{{k: avNil}, {k: avNonNil}}}}, true
		}
		op, buf := bare(com)
		if op == "" || qget(st.q, "hs") != "" {
			return nil, false
		}
		steps[in] = true
		if rd == "" {
			rd = "0"
			role := "server"
			if op == "w" {
				role = "client"
			}
			st.q = qset(st.q, "role", role, "rd", rd)
		}
		if op == "w" {
			st.q = qset(st.q, "wr", "1")
			if k, err := strconv.Atoi(rd); err == nil && k >= 1537 {
				st.q = qset(st.q, "cw", "1")
			}
			return failing(com, st.q, st.q), true
		}
		n := lenTag(px.val(st, buf))
		if com.Method.Name() == "ReadN" {
			n = -1
			if a := px.val(st, buf); a.k == avConst {
				n, _ = strconv.Atoi(a.s)
			}
		}
		k, err := strconv.Atoi(rd)
		next := "?"
		if err == nil && n >= 0 {
			if next = strconv.Itoa(k + n); k+n > handshakeBytes {
				next = "?"
			}
		}
		if k == 1+1536 && qget(st.q, "wr") == "" {
			px.report("wait|"+fn, in, "the last part of the handshake is awaited although nothing was answered to the first: both sides wait for ever")
		}
		if k >= 1 && qget(st.q, "ver") == "" {
			px.report("version|"+fn, in, "the handshake goes on although the peer's version was not found to be the server's own")
		}
		outs := failing(com, qset(st.q, "rd", next), st.q)
		return outs, true
	}
	px := newPX(p, r, pr)
	n, paths := 0, 0
	for _, f := range p.goRoots(func(f *ssa.Function) bool {
		return funcHas(f, func(in ssa.Instruction) bool { c := callOf(in); return c != nil && p.chunkParser(c.StaticCallee()) })
	}) {
		if f.Name() == "main" {
			continue
		}
		px.memo, px.Paths = map[string]*pSummary{}, 0
		px.Root(f, "", map[string]AV{}, nil)
		paths += px.Paths
		n++
		r.sample("RTMP root %s: %d outcomes", fname(f), px.Paths)
	}
	r.count("RTMP connection roots", n)
	r.count("RTMP step outcomes", paths)
	r.count("chunk reads", len(parses))
	r.count("RTMP steps", len(steps))
	r.count("commands of a pull", len(cmds))
	r.atLeast("RTMP connection roots", 2)
	r.atLeast("chunk reads", 1)
	r.atLeast("RTMP steps", 8)
	r.atLeast("commands of a pull", 3)
	p.stepResults(r, count)
}

// handshakeOver checks the handshake where something else is read or sent.
func (px *PX) handshakeOver(st *PState, in ssa.Instruction, fn string) {
	role := qget(st.q, "role")
	switch {
	case role == "":
		px.report("nohandshake|"+fn, in, "a message is read or sent before the handshake")
	case qget(st.q, "rd") != strconv.Itoa(handshakeBytes):
		px.report("length|"+role+"|"+fn, in, "the first message is read or sent when %s bytes of the peer's handshake were read, not %d: what follows is misframed", qget(st.q, "rd"), handshakeBytes)
	case qget(st.q, "ver") == "":
		px.report("version|"+role+"|"+fn, in, "a message is read or sent although the peer's version was not found to be the server's own")
	case qget(st.q, "wr") == "":
		px.report("mute|"+role+"|"+fn, in, "a message is read or sent although the handshake was not answered")
	case role == "client" && qget(st.q, "cw") == "":
		px.report("noc2|"+fn, in, "a command is sent although the server's part of the handshake was not acknowledged")
	}
	st.q = qset(st.q, "hs", "1", "rd", "", "ver", "", "wr", "", "cw", "")
}

// sameLoad: both are loads of the same field, of the same object.
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.Field == g.Field && (f.X == g.X || sameLoad(f.X, g.X))
}

// stepResults: only an accepted command advances a pull; a refusal ends it.
func (p *Prog) stepResults(r *Report, count string) {
	level := p.slot("librtmp", "CommandMessage", "StatusLevel")
	client := p.slot("librtmp", "RTMP", "connectApp")
	if client == "" || level == "" {
		r.find("anchor|refusal", "-", "RTMP.connectApp or CommandMessage.StatusLevel is gone: what tells a pull that it was refused?")
		return
	}
	names := map[string]bool{"_result": true, "_error": true, "onStatus": true}
	adds := map[ssa.Instruction]bool{}
	set, empty := avLit("<set>"), AV{k: avConst, s: `""`}
	pr := &PathRule{
		tracked: map[string][]AV{client: {set, empty}, level: {avLit("error"), avLit("<other>")}},
		budget:  12000000,
		isEvent: func(in ssa.Instruction) bool {
			c := callOf(in)
			return c != nil && strings.HasPrefix(calleeFull(c), "sync/atomic.Add") && slotAddr(c.Args[0]) == count
		},
		branch: func(px *PX, st *PState, cond ssa.Value, truth bool) {
			if qget(st.q, "m") == "" {
				matchConst(st, cond, truth, names, "m")
			}
		},
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		if pr.isEvent(in) {
			adds[in] = true
			if qget(st.q, "m") != "_result" {
				px.report("accepted|"+fname(in.Parent()), in, "a message that is not a command's result (%q) lets the pull go on to its next step", qget(st.q, "m"))
			}
			return nil, false
		}
		return nil, false
	}
	px := newPX(p, r, pr)
	n := 0
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || !isNamed(f.Signature.Recv().Type(), modPath+"/librtmp", "CommandMessage") || f.Name() != "Do" {
			continue
		}
		for _, m := range []AV{set} {
			for _, l := range []AV{avLit("error"), avLit("<other>")} {
				px.memo, px.Paths = map[string]*pSummary{}, 0
				for _, o := range px.Root(f, "", map[string]AV{client: m, level: l}, nil) {
					nilErr := len(o.res) == 0 || o.res[len(o.res)-1].k != avNonNil
					switch qget(o.q, "m") {
					case "_error":
						if nilErr {
							r.find("refused|_error", p.posOf(f.Blocks[0].Instrs[0]), "a pull goes on although the upstream answered a command with _error")
						}
					case "onStatus":
						if nilErr && l == avLit("error") {
							r.find("refused|onStatus", p.posOf(f.Blocks[0].Instrs[0]), "a pull goes on although the upstream refused it with an onStatus of level error")
						}
					case "":
						if l == avLit("error") {
							n++
						}
					}
				}
			}
		}
		r.count("handlers of an upstream's answers", 1)
	}
	r.count("places that let a pull go on", len(adds))
	r.atLeast("handlers of an upstream's answers", 1)
	r.atLeast("places that let a pull go on", 1)
	// the level must be read from the message
	stores := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && slotAddr(s.Addr) == level {
					if _, c := s.Val.(*ssa.Const); !c {
						stores++
					}
				}
			}
		}
	}
	r.count("places that read the level of a status", stores)
	r.atLeast("places that read the level of a status", 1)
}

// stepWebSocket: the connection is taken over only for a valid upgrade.
func (p *Prog) stepWebSocket(r *Report) {
	need := []string{"upgrade", "connection", "sec-websocket-key"}
	header := func(v ssa.Value) string {
		for x := range backward(v) {
			in, ok := x.(ssa.Instruction)
			if !ok {
				continue
			}
			if op, k, _ := p.headerCall(in); op == "Get" {
				for _, n := range need {
					if n == k {
						return k
					}
				}
			}
		}
		return ""
	}
	// test: in compares what header k says; good is the outcome that accepts it
	test := func(in ssa.Instruction) (k string, good bool) {
		switch x := in.(type) {
		case *ssa.Call:
			n := calleeFull(&x.Call)
			if strings.HasPrefix(n, "strings.") && isBoolType(x.Type()) {
				for _, a := range x.Call.Args {
					if h := header(a); h != "" {
						return h, true
					}
				}
			}
		case *ssa.BinOp:
			h, o := header(x.X), x.Y
			if h == "" {
				h, o = header(x.Y), x.X
			}
			c, ok := o.(*ssa.Const)
			if h == "" || !ok || c.Value == nil {
				return
			}
			zero := c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" || c.Value.Kind() == constant.Int && c.Value.ExactString() == "0"
			switch x.Op {
			case token.EQL:
				return h, !zero
			case token.NEQ:
				return h, zero
			case token.GTR:
				return h, zero
			}
		}
		return
	}
	hijack := func(in ssa.Instruction) bool {
		com := callOf(in)
		return com != nil && (com.IsInvoke() && com.Method.Name() == "Hijack" || calleeFull(com) == "(*net/http.ResponseController).Hijack")
	}
	hj, tests := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	pr := &PathRule{
		tracked: map[string][]AV{},
		isEvent: func(in ssa.Instruction) bool {
			if hijack(in) {
				return true
			}
			k, _ := test(in)
			return k != ""
		},
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		if hijack(in) {
			hj[in] = true
			for _, n := range need {
				if qget(st.q, n) == "" {
					px.report("upgrade|"+fname(in.Parent())+"|"+n, in, "the connection is taken over although the request's %s header was not found to ask for it", n)
				}
			}
			return nil, false
		}
		if k, good := test(in); k != "" {
			tests[in] = true
			return []POut{{qset(st.q, k, "1"), nil, []AV{avBool(good)}}, {st.q, nil, []AV{avBool(!good)}}}, true
		}
		return nil, false
	}
	px := newPX(p, r, pr)
	n := 0
	for _, f := range p.httpHandlers() {
		px.memo, px.Paths = map[string]*pSummary{}, 0
		px.Root(f, "", map[string]AV{}, nil)
		n += px.Paths
	}
	r.count("HTTP outcomes", n)
	r.count("connection take-overs", len(hj))
	r.count("tests of upgrade headers", len(tests))
	r.atLeast("connection take-overs", 1)
	r.atLeast("tests of upgrade headers", 3)
}

// stepSRT: a session is concluded only by the peer its cookie was sent to, and
// only a concluded session delivers.
func (p *Prog) stepSRT(r *Report) {
	conc := p.slot("libsrt", "session", "concluded")
	cookie := p.slot("libsrt", "session", "cookie")
	sent := p.slot("libsrt", "HandshakePacket", "SyncCookie")
	if sent == "" {
		sent = p.fieldNamed("libsrt", "SyncCookie")
	}
	if conc == "" || cookie == "" || sent == "" {
		r.find("anchor|session", "-", "the SRT session's concluded flag or cookie is gone")
		return
	}
	// deliver: a call through a function field of the listener that takes bytes
	deliver := func(in ssa.Instruction) bool {
		com := callOf(in)
		if com == nil || com.IsInvoke() || com.StaticCallee() != nil || in.Parent().Pkg == nil || !strings.HasSuffix(in.Parent().Pkg.Pkg.Path(), "/libsrt") {
			return false
		}
		if _, b := com.Value.(*ssa.Builtin); b {
			return false
		}
		ps := com.Signature().Params()
		for i := 0; i < ps.Len(); i++ {
			if ps.At(i).Type().String() == "[]byte" {
				return true
			}
		}
		return false
	}
	read := func(in ssa.Instruction) bool {
		com := callOf(in)
		return com != nil && readTarget(com) != nil && strings.Contains(calleeFull(com), "UDPConn")
	}
	from := func(v ssa.Value, slot string) bool {
		for x := range backward(v) {
			if loadSlot(x) == slot {
				return true
			}
		}
		return false
	}
	// cmp classifies comparisons of the cookie
	cmp := func(in ssa.Instruction) (kind string, eq bool) {
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return
		}
		x, y := b.X, b.Y
		if _, c := x.(*ssa.Const); c {
			x, y = y, x
		}
		if isConstInt(y, 0) && from(x, cookie) {
			return "zero", b.Op == token.EQL
		}
		if from(x, cookie) && from(y, sent) || from(x, sent) && from(y, cookie) {
			return "match", b.Op == token.EQL
		}
		return
	}
	other := func(in ssa.Instruction) bool {
		com := callOf(in)
		if com == nil {
			return false
		}
		f := com.StaticCallee()
		if f == nil || !p.isRepoFunc(f) || f.Signature.Results().Len() != 1 || !isBoolType(f.Signature.Results().At(0).Type()) {
			return false
		}
		// asks the sessions whether another one is concluded
		return funcHas(f, func(in ssa.Instruction) bool {
			u, ok := in.(*ssa.UnOp)
			return ok && loadSlot(u) == conc
		}) && funcHas(f, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Range); return ok })
	}
	concl, dels, mints := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	pr := &PathRule{
		tracked: map[string][]AV{conc: nil},
		noZero:  map[string]bool{conc: true},
		isEvent: func(in ssa.Instruction) bool {
			if k, _ := cmp(in); k != "" {
				return true
			}
			if s, ok := in.(*ssa.Store); ok && (slotAddr(s.Addr) == conc || slotAddr(s.Addr) == cookie) {
				return true
			}
			return deliver(in) || read(in) || other(in)
		},
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		fn := fname(in.Parent())
		if k, eq := cmp(in); k == "zero" {
			return []POut{{st.q, nil, []AV{avBool(eq)}}, {qset(st.q, "nz", "1"), nil, []AV{avBool(!eq)}}}, true
		} else if k == "match" {
			return []POut{{qset(st.q, "ck", "1"), nil, []AV{avBool(eq)}}, {st.q, nil, []AV{avBool(!eq)}}}, true
		}
		if s, ok := in.(*ssa.Store); ok {
			switch slotAddr(s.Addr) {
			case conc:
				if px.val(st, s.Val) == avBool(false) {
					return nil, false
				}
				concl[in] = true
				if qget(st.q, "ck") == "" || qget(st.q, "nz") == "" {
					px.report("cookie|"+fn, in, "an SRT session is concluded although the peer did not return the cookie it was sent")
				}
				if qget(st.q, "free") == "" {
					px.report("busy|"+fn, in, "an SRT session is concluded although another one may be publishing the stream")
				}
			case cookie:
				mints[in] = true
				if _, c := s.Val.(*ssa.Const); c {
					px.report("fixed|"+fn, in, "the cookie of an SRT session is a constant: any peer knows it")
				}
			}
			return nil, false
		}
		switch {
		case read(in):
			st.setMem(conc, top)
			q := ""
			return failing(callOf(in), q, q), true
		case other(in):
			return []POut{{st.q, nil, []AV{avBool(true)}}, {qset(st.q, "free", "1"), nil, []AV{avBool(false)}}}, true
		case deliver(in):
			dels[in] = true
			if st.mem[conc] != avBool(true) {
				px.report("early|"+fn, in, "data of an SRT session is delivered although its handshake was not concluded")
			}
		}
		return nil, false
	}
	px := newPX(p, r, pr)
	n := 0
	for _, f := range p.goRoots(func(f *ssa.Function) bool {
		return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/libsrt") && funcHas(f, read)
	}) {
		if f.Name() == "main" {
			continue
		}
		px.memo, px.Paths = map[string]*pSummary{}, 0
		px.Root(f, "", map[string]AV{}, nil)
		n += px.Paths
	}
	r.count("SRT outcomes", n)
	r.count("SRT sessions concluded", len(concl))
	r.count("SRT deliveries", len(dels))
	r.count("SRT cookies minted", len(mints))
	r.atLeast("SRT sessions concluded", 1)
	r.atLeast("SRT deliveries", 1)
	r.atLeast("SRT cookies minted", 1)
}

// fieldNamed: the slot of the only struct field of a package with that name.
func (p *Prog) fieldNamed(pkg, field string) string {
	for _, f := range p.Funcs {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/"+pkg) {
			continue
		}
		for _, n := range f.Pkg.Pkg.Scope().Names() {
			if s := p.slot(pkg, n, field); s != "" {
				return s
			}
		}
		return ""
	}
	return ""
}

func init() {
	register("C24", "other", func(p *Prog, r *Report) {
		r.Rule = "typestate of a connection's protocol: each step is taken only in the state the step before it leaves"
		p.stepRTMP(r)
		p.stepWebSocket(r)
		p.stepSRT(r)
		p.stepRTSP(r)
	})
}

// stepRTSP: media flows to a player only after SETUP and from a publisher only
// after ANNOUNCE and SETUP, once at a time, and over UDP only from its address.
func (p *Prog) stepRTSP(r *Report) {
	sl := map[string]string{}
	for _, n := range []string{"sessionID", "streamID", "publishRTMP", "ingest", "playing", "recording"} {
		if sl[n] = p.slot("librtmp", "rtspSession", n); sl[n] == "" {
			r.find("anchor|"+n, "-", "rtspSession.%s is gone", n)
			return
		}
	}
	isRead := func(com *ssa.CallCommon) bool {
		if com == nil {
			return false
		}
		f := com.StaticCallee()
		return f != nil && p.isRepoFunc(f) && f.Signature.Results().Len() == 2 && isNamed(f.Signature.Results().At(0).Type(), modPath+"/librtsp", "Request") && errorIndex(f.Signature.Results()) == 1
	}
	readsBcast := func(f *ssa.Function) bool {
		return funcHas(f, func(in ssa.Instruction) bool { c := callOf(in); return c != nil && calleeFull(c) == bcastRead })
	}
	starts := func(in ssa.Instruction) bool {
		g, ok := in.(*ssa.Go)
		if !ok {
			return false
		}
		for _, f := range p.Callees(g) {
			for h := range p.reach(f, false) {
				if readsBcast(h) && f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), modPath+"/librtmp", "rtspSession") {
					return true
				}
				if readsBcast(h) && f.Parent() != nil && f.Parent().Signature.Recv() != nil && isNamed(f.Parent().Signature.Recv().Type(), modPath+"/librtmp", "rtspSession") {
					return true
				}
			}
		}
		return false
	}
	atom := func(in ssa.Instruction) (slot, op string, com *ssa.CallCommon) {
		com = callOf(in)
		if com == nil {
			return
		}
		n := calleeFull(com)
		if !strings.HasPrefix(n, "sync/atomic.") || len(com.Args) == 0 {
			return
		}
		s := slotAddr(com.Args[0])
		for _, k := range []string{"playing", "recording"} {
			if s == sl[k] {
				for _, o := range []string{"Load", "Store", "CompareAndSwap", "Swap", "Add"} {
					if strings.HasPrefix(n, "sync/atomic."+o) {
						return k, o, com
					}
				}
			}
		}
		return
	}
	media := func(com *ssa.CallCommon) bool {
		return com != nil && strings.HasPrefix(calleeFull(com), "(*"+bcast+".Broadcast).Write")
	}
	udp := func(com *ssa.CallCommon) bool {
		return com != nil && strings.HasPrefix(calleeFull(com), "(*net.UDPConn).Read")
	}
	frame := func(com *ssa.CallCommon) bool { // bytes of an interleaved frame
		return com != nil && calleeFull(com) == "io.ReadFull"
	}
	// sameHost: in compares the address a datagram came from with the peer's
	fromRead := func(v ssa.Value) bool {
		for x := range backward(v) {
			if e, ok := x.(*ssa.Extract); ok {
				if c, ok := e.Tuple.(*ssa.Call); ok && udp(&c.Call) && e.Index == 1 {
					return true
				}
			}
		}
		return false
	}
	isIP := func(t types.Type) bool { return typeShort(t) == "net.IP" }
	sameHost := func(in ssa.Instruction) (is, eq bool) {
		switch x := in.(type) {
		case *ssa.Call:
			if n := calleeFull(&x.Call); n == "(net.IP).Equal" || n == "bytes.Equal" || n == "net.IP.Equal" {
				a, b := x.Call.Args[0], x.Call.Args[1]
				if isIP(a.Type()) && (fromRead(a) != fromRead(b) || param(a) && param(b)) {
					return true, true
				}
				if n == "bytes.Equal" && fromRead(a) != fromRead(b) {
					return true, true
				}
			}
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return
			}
			if t, ok := x.X.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 && fromRead(x.X) != fromRead(x.Y) {
				if _, c := x.X.(*ssa.Const); c {
					return
				}
				if _, c := x.Y.(*ssa.Const); c {
					return
				}
				return true, x.Op == token.EQL
			}
		}
		return
	}
	set, empty := avLit("<set>"), AV{k: avConst, s: `""`}
	plays, records, writes, hosts := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	pr := &PathRule{
		tracked: map[string][]AV{sl["sessionID"]: {set, empty}, sl["streamID"]: {set, empty}, sl["publishRTMP"]: {{k: avNil}, {k: avNonNil}}, sl["ingest"]: {{k: avNil}, {k: avNonNil}}},
		budget:  12000000,
		isEvent: func(in ssa.Instruction) bool {
			if a, _, _ := atom(in); a != "" {
				return true
			}
			com := callOf(in)
			is, _ := sameHost(in)
			return is || starts(in) || com != nil && (isRead(com) || media(com) || udp(com)) && in.Parent().Pkg != nil && strings.HasSuffix(in.Parent().Pkg.Pkg.Path(), "/librtmp")
		},
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		fn := fname(in.Parent())
		if is, eq := sameHost(in); is {
			hosts[in] = true
			return []POut{{qset(st.q, "host", "1"), nil, []AV{avBool(eq)}}, {st.q, nil, []AV{avBool(!eq)}}}, true
		}
		if starts(in) {
			plays[in] = true
			if st.mem[sl["sessionID"]] != set {
				px.report("nosetup|"+fn, in, "media starts to flow to a player although SETUP may not have been done")
			}
			if st.mem[sl["streamID"]] != set {
				px.report("nostream|"+fn, in, "media starts to flow to a player although no stream was described")
			}
			if qget(st.q, "playing") != "0" {
				px.report("again|"+fn, in, "media starts to flow to a player although it may be flowing already: packets are sent twice")
			}
			st.q = qset(st.q, "playing", "")
			return nil, false
		}
		if k, op, com := atom(in); k != "" {
			one, zero := AV{k: avConst, s: "1"}, AV{k: avConst, s: "0"}
			switch op {
			case "Load":
				if qget(st.q, k) == "0" {
					return []POut{{st.q, nil, []AV{zero}}}, true
				}
				if qget(st.q, k) == "1" {
					// still so unless someone ended it meanwhile
					return []POut{{st.q, nil, []AV{one}}, {qset(st.q, k, "0"), nil, []AV{zero}}}, true
				}
				return []POut{{qset(st.q, k, "0"), nil, []AV{zero}}, {st.q, nil, []AV{one}}}, true
			case "CompareAndSwap":
				if isConstInt(com.Args[1], 0) {
					q := qset(st.q, k, "0") // it was 0, and this path made it 1
					if k == "recording" {
						q = px.beginRecord(st, in, fn, sl, set, true)
						records[in] = true
					}
					return []POut{{q, nil, []AV{avBool(true)}}, {st.q, nil, []AV{avBool(false)}}}, true
				}
			case "Store":
				if k == "recording" {
					if px.val(st, com.Args[1]).s == "1" {
						records[in] = true
						q := px.beginRecord(st, in, fn, sl, set, false)
						return []POut{{q, nil, nil}}, true
					}
					return []POut{{qset(st.q, "rec", "", k, ""), nil, nil}}, true
				}
				if px.val(st, com.Args[1]).s == "1" && qget(st.q, k) == "0" {
					return []POut{{st.q, nil, nil}}, true
				}
				return []POut{{qset(st.q, k, ""), nil, nil}}, true
			}
			return nil, false
		}
		com := callOf(in)
		switch {
		case isRead(com):
			q := qset(st.q, "playing", "", "host", "", "fr", "")
			if qget(q, "rec") == "" {
				q = qset(q, "recording", "")
			}
			return []POut{{q, nil, []AV{{k: avNonNil}, {k: avNil}}}, {q, nil, []AV{{k: avNil}, {k: avNonNil}}}}, true
		case udp(com):
			q := qset(st.q, "host", "", "udp", "1")
			return failing(com, q, q), true
		case frame(com):
			q := qset(st.q, "fr", "1")
			return failing(com, q, q), true
		case media(com):
			writes[in] = true
			if qget(st.q, "udp") == "1" && qget(st.q, "host") == "" {
				px.report("stranger|"+fn, in, "a datagram is taken into the stream although it may not come from the publisher's address")
			}
			if qget(st.q, "fr") == "1" && qget(st.q, "rec") == "" {
				px.report("norecord|"+fn, in, "an interleaved frame is taken into the stream although RECORD was not done")
			}
		}
		return nil, false
	}
	px := newPX(p, r, pr)
	n := 0
	for _, f := range p.goRoots(func(f *ssa.Function) bool {
		return funcHas(f, func(in ssa.Instruction) bool {
			c := callOf(in)
			return c != nil && (isRead(c) || udp(c)) && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/librtmp")
		})
	}) {
		if f.Name() == "main" {
			continue
		}
		px.memo, px.Paths = map[string]*pSummary{}, 0
		px.Root(f, "", map[string]AV{sl["sessionID"]: {}, sl["streamID"]: {}}, nil)
		n += px.Paths
		r.sample("RTSP root %s: %d outcomes", fname(f), px.Paths)
	}
	r.count("RTSP step outcomes", n)
	r.count("places where playing starts", len(plays))
	r.count("places where recording starts", len(records))
	r.count("RTSP media writes", len(writes))
	r.count("tests of a datagram's origin", len(hosts))
	r.atLeast("places where playing starts", 1)
	r.atLeast("places where recording starts", 1)
	r.atLeast("RTSP media writes", 2)
}

func param(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }

func (px *PX) beginRecord(st *PState, in ssa.Instruction, fn string, sl map[string]string, set AV, cas bool) string {
	if st.mem[sl["publishRTMP"]].k != avNonNil && st.mem[sl["ingest"]].k != avNonNil {
		px.report("noannounce|"+fn, in, "recording starts although no stream was announced")
	}
	if st.mem[sl["sessionID"]] != set {
		px.report("norecsetup|"+fn, in, "recording starts although SETUP may not have been done")
	}
	if !cas && qget(st.q, "recording") != "0" {
		px.report("recagain|"+fn, in, "recording starts although it may be going on already")
	}
	return qset(st.q, "rec", "1", "recording", "1")
}
