package main

// Every request is answered, once, and the answer tells the truth: RTSP
// requests, RTMP commands and HTTP requests.

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// avLit is an abstract non-empty string that can be recognised again.
func avLit(s string) AV { return AV{k: avConst, s: strconv.Quote(s)} }

// headerCall: a Get or Set of a header map of the repository, with its key.
func (p *Prog) headerCall(in ssa.Instruction) (op, key string, val ssa.Value) {
	switch x := in.(type) {
	case *ssa.Lookup:
		if isNamed(x.X.Type(), modPath+"/librtsp", "Headers") {
			if k, ok := constStr(x.Index); ok {
				return "Get", strings.ToLower(k), nil
			}
		}
		return
	case *ssa.MapUpdate:
		if isNamed(x.Map.Type(), modPath+"/librtsp", "Headers") {
			if k, ok := constStr(x.Key); ok {
				return "Set", strings.ToLower(k), x.Value
			}
		}
		return
	}
	com := callOf(in)
	if com == nil {
		return
	}
	f := com.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(com.Args) < 2 {
		return
	}
	t := typeShort(f.Signature.Recv().Type())
	if t != "librtsp.Headers" && t != "http.Header" {
		return
	}
	k, ok := constStr(com.Args[1])
	if !ok {
		return
	}
	switch f.Name() {
	case "Get":
		return "Get", strings.ToLower(k), nil
	case "Set", "Add":
		return "Set", strings.ToLower(k), com.Args[2]
	}
	return
}

// lookupFails: the call asks for something the request names or for a step the
// request needs, and may be told no.  miss gives the results in that case.
func (p *Prog) lookupFails(in ssa.Instruction) (what string, yes, no []AV) {
	if l, ok := in.(*ssa.Lookup); ok && l.CommaOk {
		if m, ok := l.X.Type().Underlying().(*types.Map); ok && isNamed(m.Elem(), modPath+"/librtmp", "App") {
			return "the application is not known", []AV{{k: avNonNil}, avBool(true)}, []AV{{k: avNil}, avBool(false)}
		}
		return
	}
	com := callOf(in)
	if com == nil {
		return
	}
	f := com.StaticCallee()
	if f == nil || !p.isRepoFunc(f) {
		return
	}
	res := f.Signature.Results()
	last := res.Len() - 1
	mk := func(a AV) []AV {
		out := make([]AV, res.Len())
		out[last] = a
		return out
	}
	recvApp := f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), modPath+"/librtmp", "App")
	asked := false // what is decoded is text or belongs to the request
	for _, a := range com.Args {
		if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			asked = true
		}
		if strings.HasPrefix(p.slotName(p.fieldOrigin(a)), "librtsp.Request.") {
			asked = true
		}
	}
	opens := strings.HasPrefix(strings.ToLower(f.Name()), "open")
	switch {
	case recvApp && !p.methodOfApp(in.Parent()) && res.Len() == 1 && isNamed(res.At(0).Type(), modPath+"/librtmp", "Room"):
		return "the stream does not exist", mk(AV{k: avNonNil}), mk(AV{k: avNil})
	case last >= 0 && errorIndex(res) == last && (asked && decoderName(f) || opens):
		return f.Name() + " failed", mk(AV{k: avNil}), mk(AV{k: avNonNil})
	case last >= 1 && isBoolType(res.At(last).Type()) && asked && decoderName(f):
		return f.Name() + " failed", mk(avBool(true)), mk(avBool(false))
	}
	return
}

func (p *Prog) methodOfApp(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), modPath+"/librtmp", "App")
}

var rtspMethods = map[string]bool{"OPTIONS": true, "DESCRIBE": true, "ANNOUNCE": true, "SETUP": true, "PLAY": true, "RECORD": true, "TEARDOWN": true, "GET_PARAMETER": true}

// commands that a client waits on
var rtmpAnswered = map[string]bool{"connect": true, "createStream": true, "publish": true, "play": true, "pause": true, "seek": true, "releaseStream": true, "FCPublish": true}

// mentionsConst records which of the given strings a branch has matched.
func matchConst(st *PState, cond ssa.Value, truth bool, set map[string]bool, key string) {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, truth = u.X, !truth
	}
	var a, b ssa.Value
	switch x := cond.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != truth {
			return
		}
		a, b = x.X, x.Y
	case *ssa.Call:
		if calleeFull(&x.Call) != "strings.EqualFold" || !truth {
			return
		}
		a, b = x.Call.Args[0], x.Call.Args[1]
	default:
		return
	}
	for _, v := range []ssa.Value{a, b} {
		if s, ok := constStr(v); ok && set[s] {
			st.q = qset(st.q, key, s)
		}
	}
}

func (p *Prog) answerRTSP(r *Report) {
	status := p.slot("librtsp", "Response", "StatusCode")
	body := p.slot("librtsp", "Response", "Body")
	if status == "" || body == "" {
		r.find("anchor|Response", "-", "librtsp.Response has no StatusCode or Body")
		return
	}
	reads, answers, refusals := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[string]bool{}
	isRead := func(com *ssa.CallCommon) bool {
		if com == nil {
			return false
		}
		f := com.StaticCallee()
		return f != nil && p.isRepoFunc(f) && f.Signature.Results().Len() == 2 && isNamed(f.Signature.Results().At(0).Type(), modPath+"/librtsp", "Request") && errorIndex(f.Signature.Results()) == 1
	}
	isBytes := func(com *ssa.CallCommon) bool {
		if com == nil {
			return false
		}
		f := com.StaticCallee()
		return f != nil && f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), modPath+"/librtsp", "Response") && f.Signature.Results().Len() > 0
	}
	starts := func(in ssa.Instruction) string {
		if g, ok := in.(*ssa.Go); ok {
			for _, f := range p.Callees(g) {
				for h := range p.reach(f, false) {
					if funcHas(h, func(in ssa.Instruction) bool {
						c := callOf(in)
						return c != nil && (calleeFull(c) == bcastRead || calleeFull(c) == "(*"+bcast+".Broadcast).Write")
					}) {
						return "media started to flow"
					}
				}
			}
		}
		return ""
	}
	claimed := func(com *ssa.CallCommon) bool {
		return com != nil && calleeFull(com) == "(*sync.Map).LoadOrStore"
	}
	fresh := func(q string) string {
		return qset(q, "req", "open", "ans", "", "cseq", "", "sess", "", "m", "", "fail", "", "eff", "", "ser", "", "type", "")
	}
	pr := &PathRule{
		tracked: map[string][]AV{status: nil, body: nil},
		isEvent: func(in ssa.Instruction) bool {
			c := callOf(in)
			if c != nil && (isRead(c) || isBytes(c) || claimed(c)) {
				return true
			}
			if op, k, _ := p.headerCall(in); op != "" && (k == "cseq" || k == "session" || k == "content-type") {
				return true
			}
			if starts(in) != "" {
				return true
			}
			w, _, _ := p.lookupFails(in)
			return w != "" && strings.HasSuffix(in.Parent().Pkg.Pkg.Path(), "/librtmp")
		},
		budget: 12000000,
	}
	pr.branch = func(px *PX, st *PState, cond ssa.Value, truth bool) {
		if qget(st.q, "m") == "" {
			matchConst(st, cond, truth, rtspMethods, "m")
		}
	}
	pr.fork = func(b *ssa.BinOp) bool { return false }
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		if w := starts(in); w != "" {
			if qget(st.q, "ans") == "" {
				st.q = qset(st.q, "eff", w)
			}
			return nil, false
		}
		if op, k, v := p.headerCall(in); op == "Get" && k == "cseq" {
			o := []POut{{st.q, nil, []AV{avLit("<cseq>")}}, {qset(st.q, "cseq", "none"), nil, []AV{{k: avConst, s: `""`}}}}
			if l, ok := in.(*ssa.Lookup); ok && l.CommaOk {
				o[0].res = append(o[0].res, avBool(true))
				o[1].res = append(o[1].res, avBool(false))
			}
			return o, true
		} else if op == "Set" {
			switch k {
			case "cseq":
				if px.val(st, v) == avLit("<cseq>") {
					st.q = qset(st.q, "cseq", "echo")
				} else if c := px.val(st, v); c.k == avConst {
					st.q = qset(st.q, "cseq", "wrong")
				}
			case "session":
				st.q = qset(st.q, "sess", "set")
			case "content-type":
				st.q = qset(st.q, "type", "set")
			}
			if k == "cseq" || k == "session" || k == "content-type" {
				return []POut{{st.q, nil, nil}}, true
			}
		}
		com := callOf(in)
		if w, yes, no := p.lookupFails(in); w != "" && !isRead(com) {
			if qget(st.q, "req") == "open" && qget(st.q, "ans") == "" {
				return []POut{{st.q, nil, yes}, {qset(st.q, "fail", w), nil, no}}, true
			}
		}
		if com == nil {
			return nil, false
		}
		fn := fname(in.Parent())
		switch {
		case isRead(com):
			reads[in] = true
			if qget(st.q, "req") == "open" && qget(st.q, "ans") == "" {
				px.report("unanswered|"+fn+"|"+qget(st.q, "m"), in, "the next request is read although the %s request before it was not answered", qget(st.q, "m"))
			}
			return []POut{{fresh(st.q), nil, []AV{{k: avNonNil}, {k: avNil}}}, {qset(st.q, "req", ""), nil, []AV{{k: avNil}, {k: avNonNil}}}}, true
		case claimed(com):
			// stored, or already there
			return []POut{{qset(st.q, "eff", "the stream was claimed"), nil, []AV{{k: avNonNil}, avBool(false)}},
				{qset(st.q, "fail", "the stream already has a publisher"), nil, []AV{{k: avNonNil}, avBool(true)}}}, true
		case isBytes(com):
			st.q = qset(st.q, "ser", "1")
			return []POut{{st.q, nil, []AV{{k: avNonNil}}}}, true
		case qget(st.q, "ser") == "1" && peerWrite(in):
			answers[in] = true
			m := qget(st.q, "m")
			if qget(st.q, "req") != "open" {
				px.report("unasked|"+fn, in, "a response is sent although no request is open")
			} else if qget(st.q, "ans") != "" {
				px.report("twice|"+fn+"|"+m, in, "the %s request is answered twice", m)
			}
			switch qget(st.q, "cseq") {
			case "":
				px.report("cseq|"+fn+"|"+m, in, "the response to %s does not carry the request's CSeq", m)
			case "wrong":
				px.report("cseq|"+fn+"|"+m, in, "the response to %s carries a CSeq that is not the request's", m)
			}
			code := st.mem[status]
			n, err := strconv.Atoi(code.s)
			if code.k != avConst || err != nil {
				px.report("code|"+fn+"|"+m, in, "the status of the response to %s is not one of the codes the server assigns", m)
			} else if n >= 200 && n < 300 {
				if f := qget(st.q, "fail"); f != "" {
					px.report("success|"+fn+"|"+m+"|"+f, in, "%s is answered %d although %s", m, n, f)
				}
				if (m == "SETUP" || m == "PLAY" || m == "RECORD") && qget(st.q, "sess") == "" {
					px.report("session|"+fn+"|"+m, in, "the successful response to %s names no session", m)
				}
				if m == "DESCRIBE" && (st.mem[body].k != avNonNil || qget(st.q, "type") == "") {
					px.report("describe|"+fn, in, "DESCRIBE is answered %d without a description and its content type", n)
				}
			} else if n < 200 || n >= 600 {
				px.report("code|"+fn+"|"+m, in, "the status of the response to %s is %d", m, n)
			} else {
				refusals[m+" "+code.s+" "+qget(st.q, "fail")] = true
				if e := qget(st.q, "eff"); e != "" {
					px.report("refused|"+fn+"|"+m+"|"+e, in, "%s is answered %d although %s", m, n, e)
				}
			}
			q := qset(st.q, "ans", "1", "ser", "")
			return failing(com, q, q), true
		}
		return nil, false
	}
	px := newPX(p, r, pr)
	roots := p.goRoots(func(f *ssa.Function) bool {
		return funcHas(f, func(in ssa.Instruction) bool { return isRead(callOf(in)) })
	})
	paths := 0
	n := 0
	for _, f := range roots {
		if f.Name() == "main" || len(p.goTargets()) == 0 {
			continue
		}
		px.memo, px.Paths = map[string]*pSummary{}, 0
		for _, o := range px.Root(f, "", map[string]AV{}, nil) {
			if qget(o.q, "req") == "open" && qget(o.q, "ans") == "" {
				m := qget(o.q, "m")
				r.find("noanswer|"+fname(f)+"|"+m, "-", "%s can end without answering the %s request it read", fname(f), m)
			}
		}
		paths += px.Paths
		n++
		r.sample("RTSP root %s: %d outcomes", fname(f), px.Paths)
	}
	for k := range refusals {
		r.sample("refusal: %s", k)
	}
	r.count("RTSP roots", n)
	r.count("RTSP outcomes", paths)
	r.count("RTSP requests read", len(reads))
	r.count("RTSP response writes", len(answers))
	r.count("RTSP refusals", len(refusals))
	r.atLeast("RTSP requests read", 1)
	r.atLeast("RTSP response writes", 1)
	r.atLeast("RTSP refusals", 8)
}

// servedTypes: the media types registered or used for what is served.
var servedTypes = map[string]map[string]bool{
	"m3u8": {"application/vnd.apple.mpegurl": true, "application/x-mpegurl": true, "audio/mpegurl": true, "audio/x-mpegurl": true},
	"ts":   {"video/mp2t": true},
	"mpd":  {"application/dash+xml": true},
	"mp4":  {"video/mp4": true, "video/iso.segment": true},
	"m4s":  {"video/mp4": true, "video/iso.segment": true},
	"flv":  {"video/x-flv": true, "video/flv": true},
}

// servedKind: a test of the name of what is asked for.
func servedKind(cond ssa.Value, truth bool) (string, bool) {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, truth = u.X, !truth
	}
	var vs []ssa.Value
	switch x := cond.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return "", truth
		}
		if x.Op == token.NEQ {
			truth = !truth
		}
		vs = []ssa.Value{x.X, x.Y}
	case *ssa.Call:
		if n := calleeFull(&x.Call); n != "strings.EqualFold" && n != "strings.HasSuffix" {
			return "", truth
		}
		vs = x.Call.Args
	}
	for _, v := range vs {
		if s, ok := constStr(v); ok {
			if i := strings.LastIndexByte(s, '.'); i >= 0 && servedTypes[s[i+1:]] != nil {
				return s[i+1:], truth
			}
		}
	}
	return "", truth
}

// answerHTTP: every HTTP request gets one status, a refusal is an error
// status, and what is served says what it is and may be used by web players.
func (p *Prog) answerHTTP(r *Report) {
	isW := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.ChangeInterface:
				v = x.X
				continue
			case *ssa.MakeInterface:
				v = x.X
				continue
			}
			break
		}
		return typeShort(v.Type()) == "http.ResponseWriter"
	}
	// classify: status write, body or hand-over
	classify := func(in ssa.Instruction) (kind string, code ssa.Value) {
		com := callOf(in)
		if com == nil {
			return
		}
		if com.IsInvoke() {
			t := typeShort(com.Value.Type())
			switch {
			case t == "http.ResponseWriter" && com.Method.Name() == "WriteHeader":
				return "status", com.Args[0]
			case t == "http.ResponseWriter" && com.Method.Name() == "Write":
				return "body", nil
			case strings.HasSuffix(t, "EasyWriter") && peerWrite(in):
				return "stream", nil
			case t == "http.Hijacker" && com.Method.Name() == "Hijack":
				return "hijack", nil
			}
			return
		}
		n := calleeFull(com)
		switch n {
		case "net/http.Error":
			return "error", com.Args[2]
		case "net/http.NotFound":
			return "error", nil
		case "net/http.ServeFile", "net/http.ServeContent", "net/http.Redirect", "net/http.ServeFileFS":
			return "file", nil
		case "(*net/http.ResponseController).Hijack":
			return "hijack", nil
		case "io.WriteString", "io.Copy", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.CopyN":
			if len(com.Args) > 0 && isW(com.Args[0]) {
				return "body", nil
			}
		case bcastRead:
			return "stream", nil
		}
		return
	}
	hdr := func(in ssa.Instruction) string {
		if op, k, _ := p.headerCall(in); op == "Set" {
			switch k {
			case "content-type":
				return "type"
			case "access-control-allow-origin":
				return "cors"
			}
		}
		return ""
	}
	served, refused := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	typed := map[ssa.Instruction]bool{}
	pr := &PathRule{
		tracked: map[string][]AV{},
		budget:  12000000,
		isEvent: func(in ssa.Instruction) bool {
			if k, _ := classify(in); k != "" || hdr(in) != "" {
				return true
			}
			w, _, _ := p.lookupFails(in)
			return w != "" && strings.HasSuffix(in.Parent().Pkg.Pkg.Path(), "/librtmp")
		},
	}
	pr.branch = func(px *PX, st *PState, cond ssa.Value, truth bool) {
		k, truth := servedKind(cond, truth)
		switch {
		case k == "" || qget(st.q, "ext") == "?":
		case truth:
			st.q = qset(st.q, "ext", k)
		case qget(st.q, "ext") == k:
			st.q = qset(st.q, "ext", "?") // no request is on this path
		}
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		if h := hdr(in); h != "" {
			_, _, v := p.headerCall(in)
			if h == "type" && v != nil {
				flv := ""
				if a := px.val(st, v); a.k == avConst && !servedTypes["flv"][strings.ToLower(strings.Trim(a.s, "\" "))] {
					flv = "no"
				}
				st.q = qset(st.q, "flv", flv)
			}
			if e := qget(st.q, "ext"); h == "type" && e != "" && e != "?" && v != nil {
				if a := px.val(st, v); a.k == avConst {
					typed[in] = true
					if !servedTypes[e][strings.ToLower(strings.Trim(strings.SplitN(a.s, ";", 2)[0], "\" "))] {
						px.report("wrongtype|"+fname(in.Parent())+"|"+e, in, "a request for %s is answered with the content type %s", e, a.s)
					}
				}
			}
			if qget(st.q, "h") != "" {
				px.report("late|"+fname(in.Parent())+"|"+h, in, "the header is set after the response began")
			}
			return []POut{{qset(st.q, h, "1"), nil, nil}}, true
		}
		if w, yes, no := p.lookupFails(in); w != "" && qget(st.q, "h") == "" {
			return []POut{{st.q, nil, yes}, {qset(st.q, "fail", w), nil, no}}, true
		}
		kind, code := classify(in)
		if kind == "" {
			return nil, false
		}
		fn := fname(in.Parent())
		h := qget(st.q, "h")
		if kind == "status" || kind == "error" {
			n := 404
			if code != nil {
				a := px.val(st, code)
				c, err := strconv.Atoi(a.s)
				if a.k != avConst || err != nil {
					px.report("code|"+fn, in, "the status of the answer is not one of the codes the server assigns")
					return nil, false
				}
				n = c
			}
			if h == "hijack" {
				return nil, false
			}
			if h != "" {
				px.report("twice|"+fn+"|"+h, in, "the request is answered a second time")
			}
			if n >= 400 && n < 600 {
				refused[in] = true
				return []POut{{qset(st.q, "h", "refused"), nil, nil}}, true
			}
			if n < 200 || n >= 600 {
				px.report("code|"+fn, in, "the request is answered with status %d", n)
			}
			if f := qget(st.q, "fail"); f != "" {
				px.report("success|"+fn+"|"+f, in, "the request is answered %d although %s", n, f)
			}
			return []POut{{qset(st.q, "h", "ok"), nil, nil}}, true
		}
		served[in] = true
		switch {
		case h == "refused" && kind == "body":
			return nil, false // the text of an error
		case h == "refused":
			px.report("refused|"+fn+"|"+kind, in, "content is served after the request was refused")
		case kind == "file" && h != "":
			px.report("twice|"+fn+"|"+h, in, "the request is answered a second time")
		}
		if f := qget(st.q, "fail"); f != "" && kind != "hijack" {
			px.report("success|"+fn+"|"+f, in, "the request is served although %s", f)
		}
		if h == "hijack" {
			return nil, false
		}
		if kind != "hijack" {
			if qget(st.q, "type") == "" {
				px.report("type|"+fn+"|"+kind, in, "content is served without its content type")
			}
			if kind == "stream" && qget(st.q, "flv") == "no" {
				px.report("wrongtype|"+fn+"|flv", in, "a stream of FLV tags is served with another content type")
			}
			if qget(st.q, "cors") == "" {
				px.report("cors|"+fn+"|"+kind, in, "content is served without the header that lets web players use it")
			}
			return nil, func() bool { st.q = qset(st.q, "h", "ok"); return false }()
		}
		return failing(callOf(in), qset(st.q, "h", "hijack"), st.q), true
	}
	px := newPX(p, r, pr)
	paths, n := 0, 0
	for _, f := range p.httpHandlers() {
		px.memo, px.Paths = map[string]*pSummary{}, 0
		for _, o := range px.Root(f, "", map[string]AV{}, nil) {
			if qget(o.q, "h") == "" {
				why := qget(o.q, "fail")
				if why != "" {
					why = " although " + why
				}
				r.find("empty|"+fname(f)+"|"+why, p.posOf(f.Blocks[0].Instrs[0]), "%s can return without answering: the client sees an empty 200%s", fname(f), why)
			}
		}
		paths += px.Paths
		n++
	}
	r.count("HTTP handlers", n)
	r.count("HTTP outcomes", paths)
	r.count("HTTP refusals", len(refused))
	r.count("content types compared with what was asked for", len(typed))
	r.count("HTTP places that serve", len(served))
	r.atLeast("HTTP handlers", 2)
	r.atLeast("HTTP refusals", 5)
	r.atLeast("HTTP places that serve", 5)
}

// answerRTMP: every command that asks for something is answered with the
// transaction it belongs to; success is claimed only when the command took
// effect and failure only when it did not.
func (p *Prog) answerRTMP(r *Report) {
	respT := p.namedType("librtmp", "CommandMessageResponse")
	lvl := p.slot("librtmp", "ConnectRespCommandObject", "Level")
	txn := p.slot("librtmp", "CommandMessageResponse", "TranscationID")
	name := p.slot("librtmp", "CommandMessage", "CommandName")
	reqTxn := p.slot("librtmp", "CommandMessage", "TranscationID")
	if respT == nil || lvl == "" || txn == "" || name == "" || reqTxn == "" {
		r.find("anchor|CommandMessageResponse", "-", "the command response type or its fields are gone")
		return
	}
	isSend := func(com *ssa.CallCommon) bool {
		if com == nil {
			return false
		}
		f := com.StaticCallee()
		return f != nil && f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), modPath+"/librtmp", "CommandMessageResponse") && errorIndex(f.Signature.Results()) >= 0
	}
	claimed := func(com *ssa.CallCommon) bool {
		return com != nil && calleeFull(com) == "(*sync.Map).LoadOrStore"
	}
	isResp := func(in ssa.Instruction) bool {
		a, ok := in.(*ssa.Alloc)
		return ok && isNamed(a.Type(), modPath+"/librtmp", "CommandMessageResponse")
	}
	class := func(v ssa.Value) string {
		if fa, ok := v.(*ssa.FieldAddr); ok {
			_, st := structOf(fa.X.Type())
			return "F:" + typeKey(st) + "." + strconv.Itoa(fa.Field)
		}
		return ""
	}
	joins := func(in ssa.Instruction) bool {
		g, ok := in.(*ssa.Go)
		if !ok {
			return false
		}
		for _, f := range p.Callees(g) {
			for h := range p.reach(f, false) {
				if funcHas(h, func(in ssa.Instruction) bool { c := callOf(in); return c != nil && calleeFull(c) == bcastRead }) {
					return true
				}
			}
		}
		return false
	}
	tracked := map[string][]AV{}
	if s := p.slot("librtmp", "RTMP", "room"); s != "" {
		tracked[s] = nil
	}
	sends := map[ssa.Instruction]bool{}
	answered := map[string]bool{}
	pr := &PathRule{
		tracked: tracked,
		budget:  12000000,
		isEvent: func(in ssa.Instruction) bool {
			c := callOf(in)
			if isSend(c) || claimed(c) || isResp(in) || joins(in) {
				return true
			}
			if s, ok := in.(*ssa.Store); ok && (class(s.Addr) == lvl || class(s.Addr) == txn) {
				return true
			}
			w, _, _ := p.lookupFails(in)
			return w != ""
		},
		branch: func(px *PX, st *PState, cond ssa.Value, truth bool) {
			if qget(st.q, "m") == "" {
				matchConst(st, cond, truth, rtmpAnswered, "m")
			}
		},
	}
	pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
		if isResp(in) {
			st.q = qset(st.q, "lvl", "", "txn", "")
			return nil, false
		}
		if joins(in) {
			st.q = qset(st.q, "eff", "the stream was started")
			return nil, false
		}
		if s, ok := in.(*ssa.Store); ok {
			switch class(s.Addr) {
			case lvl:
				v := px.val(st, s.Val)
				st.q = qset(st.q, "lvl", strings.Trim(v.s, "\""))
			case txn:
				if p.valueFrom(s.Val, reqTxn, 0) {
					st.q = qset(st.q, "txn", "1")
				}
			}
			return nil, false
		}
		if w, yes, no := p.lookupFails(in); w != "" {
			return []POut{{st.q, nil, yes}, {qset(st.q, "fail", w), nil, no}}, true
		}
		com := callOf(in)
		if claimed(com) {
			return []POut{{qset(st.q, "eff", "the stream was claimed"), nil, []AV{{k: avNonNil}, avBool(false)}},
				{qset(st.q, "fail", "the stream already has a publisher"), nil, []AV{{k: avNonNil}, avBool(true)}}}, true
		}
		if !isSend(com) {
			return nil, false
		}
		sends[in] = true
		fn := fname(in.Parent())
		m := qget(st.q, "m")
		answered[m] = true
		if qget(st.q, "txn") == "" {
			px.report("txn|"+fn+"|"+m, in, "the answer to %s does not carry the command's transaction id", m)
		}
		if qget(st.q, "lvl") == "error" {
			if e := qget(st.q, "eff"); e != "" {
				px.report("refused|"+fn+"|"+m+"|"+e, in, "%s is refused although %s", m, e)
			}
		} else {
			if f := qget(st.q, "fail"); f != "" {
				px.report("success|"+fn+"|"+m+"|"+f, in, "%s is answered as successful although %s", m, f)
			}
			if (m == "publish" || m == "play") && qget(st.q, "eff") == "" {
				px.report("noeffect|"+fn+"|"+m, in, "%s is answered as successful although no stream was claimed or started for it", m)
			}
		}
		q := qset(st.q, "ans", "1")
		return failing(com, q, q), true
	}
	px := newPX(p, r, pr)
	n, paths := 0, 0
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || !isNamed(f.Signature.Recv().Type(), modPath+"/librtmp", "CommandMessage") || f.Name() != "Do" {
			continue
		}
		px.memo, px.Paths = map[string]*pSummary{}, 0
		for _, o := range px.Root(f, "", map[string]AV{}, nil) {
			m := qget(o.q, "m")
			if m != "" && qget(o.q, "ans") == "" && (len(o.res) == 0 || o.res[len(o.res)-1].k != avNonNil) {
				r.find("unanswered|"+m, p.posOf(f.Blocks[0].Instrs[0]), "the command %s can be handled without an answer or an error", m)
			}
		}
		paths += px.Paths
		n++
	}
	for m := range rtmpAnswered {
		if !answered[m] {
			r.find("never|"+m, "-", "no answer to the command %s exists", m)
		}
	}
	r.count("RTMP command handlers", n)
	r.count("RTMP outcomes", paths)
	r.count("RTMP answers", len(sends))
	r.atLeast("RTMP command handlers", 1)
	r.atLeast("RTMP answers", 8)
}

// valueFrom: v is, through conversions, parameters and locals, a load of the
// given field.
func (p *Prog) valueFrom(v ssa.Value, slot string, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return p.valueFrom(x.X, slot, depth+1)
	case *ssa.ChangeType:
		return p.valueFrom(x.X, slot, depth+1)
	case *ssa.MakeInterface:
		return p.valueFrom(x.X, slot, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.valueFrom(e, slot, depth+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.Field:
		return "F:"+typeKey(x.X.Type())+"."+strconv.Itoa(x.Field) == slot
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			_, st := structOf(a.X.Type())
			return "F:"+typeKey(st)+"."+strconv.Itoa(a.Field) == slot
		case *ssa.Alloc:
			return p.cellFrom(a, slot, depth)
		case *ssa.FreeVar:
			if b, ok := freeVarBinding(a).(*ssa.Alloc); ok {
				return p.cellFrom(b, slot, depth)
			}
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return p.valueFrom(b, slot, depth+1)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return p.resultFrom(c, x.Index, slot, depth)
		}
	case *ssa.Call:
		return p.resultFrom(x, 0, slot, depth)
	case *ssa.Parameter:
		f := x.Parent()
		cs := p.Callers(f)
		for i, q := range f.Params {
			if q != x {
				continue
			}
			for _, c := range cs {
				as := c.Common().Args
				if c.Common().IsInvoke() {
					as = append([]ssa.Value{c.Common().Value}, as...)
				}
				if i >= len(as) || !p.valueFrom(as[i], slot, depth+1) {
					return false
				}
			}
		}
		return len(cs) > 0
	}
	return false
}

func (p *Prog) resultFrom(c *ssa.Call, idx int, slot string, depth int) bool {
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !p.isRepoFunc(f) {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if idx >= len(ret.Results) || !p.valueFrom(ret.Results[idx], slot, depth+1) {
				return false
			}
			n++
		}
	}
	return n > 0
}

func (p *Prog) cellFrom(a *ssa.Alloc, slot string, depth int) bool {
	n := 0
	for _, u := range *a.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
			if !p.valueFrom(s.Val, slot, depth+1) {
				return false
			}
			n++
		}
	}
	return n > 0
}

func init() {
	register("C22", "other", func(p *Prog, r *Report) {
		r.Rule = "typestate of a request, from the read that yields it to its answer"
		p.answerRTSP(r)
		p.answerHTTP(r)
		p.answerRTMP(r)
	})
}
