package main

// Path containment: every path handed to the file system is made of trusted
// parts and single, harmless name components.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pathKind int

const (
	pBad  pathKind = iota // anything a peer likes
	pComp                 // no separator, but may be empty, "." or ".."
	pName                 // one harmless component
	pDir                  // a trusted path, or one contained in a trusted directory
)

func (k pathKind) String() string {
	return [...]string{"untrusted", "component", "name", "contained path"}[k]
}

type pathEnv struct {
	fn     *ssa.Function
	site   ssa.CallInstruction
	parent *pathEnv
}

type pathAn struct {
	p     *Prog
	busy  map[ssa.Value]int
	steps int
	why   string
	field map[string]pathKind
	fbusy map[string]bool
}

func meetPath(a, b pathKind) pathKind {
	if a == b {
		return a
	}
	if a == pBad || b == pBad {
		return pBad
	}
	// a name is a component; a trusted path is no component
	if a == pDir || b == pDir {
		if a == pName || b == pName {
			return pDir // a bare name is a path relative to the working directory
		}
		return pBad
	}
	return pComp
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func kindOfText(s string) pathKind {
	switch {
	case strings.Contains(s, ".."):
		return pBad
	case strings.ContainsAny(s, "/\\"):
		return pDir
	case s == "" || s == ".":
		return pComp
	}
	return pName
}

func (a *pathAn) fail(format string, v ssa.Value) pathKind {
	if a.why == "" {
		a.why = format
	}
	return pBad
}

func (a *pathAn) eval(v ssa.Value, at ssa.Instruction, env *pathEnv) pathKind {
	k := a.eval1(v, at, env)
	if k == pDir || k == pName {
		return k
	}
	return a.facts(v, at, k, env)
}

// facts improves k with what the branches dominating at have established.
func (a *pathAn) facts(v ssa.Value, at ssa.Instruction, k pathKind, env *pathEnv) pathKind {
	if at == nil || at.Block() == nil {
		return k
	}
	noSep, noDots := k == pComp, false
	contained := false
	for _, t := range dominatingTests(at) {
		a.fact(v, t.cond, t.truth, env, &noSep, &noDots, &contained)
	}
	switch {
	case contained:
		return pDir
	case noSep && noDots:
		return pName
	case noSep:
		return pComp
	}
	return k
}

type domTest struct {
	cond  ssa.Value
	truth bool
}

// dominatingTests lists the conditions known to hold when control is at in.
func dominatingTests(at ssa.Instruction) (out []domTest) {
	if at == nil {
		return nil
	}
	for b := at.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range d.Succs {
			if s == b && len(b.Preds) == 1 {
				c, t := iff.Cond, i == 0
				for {
					u, ok := c.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					c, t = u.X, !t
				}
				out = append(out, domTest{c, t})
			}
		}
	}
	return
}

// excluded: the call's caller has tested another result of it in a way that
// rules this return out.
func excluded(c *ssa.Call, ret *ssa.Return, tests []domTest) bool {
	for _, t := range tests {
		if e, ok := t.cond.(*ssa.Extract); ok && e.Tuple == ssa.Value(c) && e.Index < len(ret.Results) {
			if k, ok := ret.Results[e.Index].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != t.truth {
				return true
			}
		}
		if b, ok := t.cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			if e, ok := b.X.(*ssa.Extract); ok && e.Tuple == ssa.Value(c) && e.Index < len(ret.Results) {
				if k, ok := b.Y.(*ssa.Const); ok && k.Value == nil {
					isNil := (b.Op == token.EQL) == t.truth
					switch r := ret.Results[e.Index].(type) {
					case *ssa.MakeInterface:
						if isNil {
							return true
						}
					case *ssa.Const:
						if r.Value == nil && !isNil {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (a *pathAn) fact(v, cond ssa.Value, truth bool, env *pathEnv, noSep, noDots, contained *bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			a.fact(v, x.X, !truth, env, noSep, noDots, contained)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return
		}
		eq := (x.Op == token.EQL) == truth
		for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if s, ok := constStr(pr[1]); ok && sameString(pr[0], v) && eq {
				switch kindOfText(s) {
				case pName:
					*noSep, *noDots = true, true
				case pComp:
					*noSep = true
				}
			}
		}
	case *ssa.Call:
		n := calleeFull(&x.Call)
		if len(x.Call.Args) != 2 {
			return
		}
		s, isC := constStr(x.Call.Args[1])
		if !isC {
			return
		}
		if sameString(x.Call.Args[0], v) {
			switch n {
			case "strings.HasSuffix", "strings.HasPrefix":
				if truth && strings.Trim(s, "./\\") != "" && !strings.ContainsAny(s, "/\\") {
					*noDots = true
				}
				if !truth && n == "strings.HasPrefix" && s != "" && strings.Trim(s, ".") == "" {
					*noDots = true
				}
			case "strings.Contains":
				if truth && strings.Trim(s, "./\\") != "" {
					*noDots = true
				}
				if !truth && s == "/" {
					*noSep = true
				}
				if !truth && strings.Trim(s, ".") == "" && s != "" && len(s) <= 2 {
					*noDots = true
				}
			case "strings.ContainsAny":
				if !truth && strings.Contains(s, "/") {
					*noSep = true
				}
			}
			return
		}
		// rel, err := filepath.Rel(dir, v); !HasPrefix(rel, "..")
		if n == "strings.HasPrefix" && !truth && (s == ".." || s == ".") {
			if e, ok := x.Call.Args[0].(*ssa.Extract); ok && e.Index == 0 {
				if c, ok := e.Tuple.(*ssa.Call); ok && calleeFull(&c.Call) == "path/filepath.Rel" && c.Call.Args[1] == v {
					if a.eval(c.Call.Args[0], c, env) == pDir {
						*contained = true
					}
				}
			}
		}
	}
}

func sameString(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	// two loads of one never-reassigned local
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL && la.X == lb.X && rootAlloc(la.X) != nil
}

func (a *pathAn) eval1(v ssa.Value, at ssa.Instruction, env *pathEnv) pathKind {
	a.steps++
	if a.steps > 60000 {
		return a.fail("the analysis gave up", v)
	}
	if a.busy[v] > 1 {
		return pDir // cyclic definition: contributes nothing new
	}
	a.busy[v]++
	defer func() { a.busy[v]-- }()
	if isBasicInt(v.Type()) || isBoolType(v.Type()) {
		return pName
	}
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := constStr(x); ok {
			return kindOfText(s)
		}
		return pComp
	case *ssa.MakeInterface:
		return a.eval(x.X, at, env)
	case *ssa.ChangeType:
		return a.eval(x.X, at, env)
	case *ssa.Phi:
		k, first := pBad, true
		for i, e := range x.Edges {
			if e == v {
				continue
			}
			pred := x.Block().Preds[i]
			ek := a.eval(e, pred.Instrs[len(pred.Instrs)-1], env)
			if first {
				k, first = ek, false
			} else {
				k = meetPath(k, ek)
			}
		}
		return k
	case *ssa.BinOp:
		if x.Op == token.ADD {
			var parts []ssa.Value
			var flat func(y ssa.Value)
			flat = func(y ssa.Value) {
				if b, ok := y.(*ssa.BinOp); ok && b.Op == token.ADD {
					flat(b.X)
					flat(b.Y)
					return
				}
				parts = append(parts, y)
			}
			flat(x)
			var items []pathItem
			for _, q := range parts {
				if s, ok := constStr(q); ok {
					items = append(items, pathItem{text: s, lit: true})
				} else {
					items = append(items, pathItem{k: a.eval(q, at, env)})
				}
			}
			return concatKind(items)
		}
	case *ssa.Parameter:
		return a.param(x, env)
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return a.eval(b, nil, a.outer(env))
		}
	case *ssa.Alloc:
		return a.stores(x, env)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			return a.fieldKind(y)
		case *ssa.Alloc:
			return a.stores(y, env)
		case *ssa.FreeVar:
			if b := freeVarBinding(y); b != nil {
				if al, ok := b.(*ssa.Alloc); ok {
					return a.stores(al, a.outer(env))
				}
			}
		case *ssa.Global:
			return a.global(y)
		case *ssa.IndexAddr:
			return a.elem(y.X, env)
		}
	case *ssa.Field:
		_, st := structOf(x.X.Type())
		if st == nil {
			break
		}
		return a.fieldSlot("F:"+typeKey(st)+"."+itoa(x.Field), x.X.Type())
	case *ssa.Index:
		return a.elem(x.X, env)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.call(c, x.Index, at, env)
		}
		if nx, ok := x.Tuple.(*ssa.Next); ok && !nx.IsString && x.Index == 2 {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return a.elem(rg.X, env)
			}
		}
	case *ssa.Call:
		return a.call(x, 0, at, env)
	case *ssa.Slice:
		k := a.eval(x.X, at, env)
		if k == pName || k == pComp {
			return pComp
		}
	case *ssa.Convert:
		if sl, ok := x.X.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Uint8]) {
			if k := a.byteSlice(x.X, env, map[ssa.Value]bool{}); k != pBad {
				return k
			}
		}
		return a.eval(x.X, at, env)
	}
	return a.fail("it comes from a value outside the program's control ("+valDesc(v)+")", v)
}

func valDesc(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Call:
		return "result of " + calleeFull(&x.Call)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return "result of " + calleeFull(&c.Call)
		}
	case *ssa.Parameter:
		return "parameter " + x.Name() + " of " + fname(x.Parent())
	}
	return typeShort(v.Type())
}

func itoa(n int) string { return constant.MakeInt64(int64(n)).ExactString() }

type pathItem struct {
	text string
	lit  bool
	k    pathKind
}

// concatKind of adjacent pieces without separators between them.
func concatKind(items []pathItem) pathKind {
	// split at separators in literals
	type seg struct {
		lit  string
		ks   []pathKind
		many bool
	}
	segs := []seg{{}}
	for _, it := range items {
		if !it.lit {
			s := &segs[len(segs)-1]
			s.ks = append(s.ks, it.k)
			continue
		}
		for i, part := range strings.Split(it.text, "/") {
			if i > 0 {
				segs = append(segs, seg{})
			}
			segs[len(segs)-1].lit += part
		}
	}
	if len(segs) == 1 {
		s := segs[0]
		if len(s.ks) == 1 && s.lit == "" {
			return s.ks[0]
		}
		return nameOf(s.lit, s.ks)
	}
	for i, s := range segs {
		if i == 0 {
			if s.lit == "" && len(s.ks) == 1 && s.ks[0] == pDir {
				continue // trusted directory
			}
			if s.lit == "" && len(s.ks) == 0 {
				continue // absolute literal
			}
			if s.lit == "." && len(s.ks) == 0 {
				continue
			}
		}
		if s.lit == "" && len(s.ks) == 0 && i == len(segs)-1 {
			continue // trailing separator
		}
		if nameOf(s.lit, s.ks) != pName {
			return pBad
		}
	}
	return pDir
}

func nameOf(lit string, ks []pathKind) pathKind {
	k := pComp
	for _, x := range ks {
		switch x {
		case pBad, pDir:
			return pBad
		case pName:
			if len(ks) == 1 && lit == "" {
				k = pName
			}
		}
	}
	if strings.Trim(lit, ".") != "" {
		return pName
	}
	for _, x := range ks {
		if x == pName {
			return pName
		}
	}
	return k
}

func (a *pathAn) outer(env *pathEnv) *pathEnv {
	if env == nil {
		return nil
	}
	return env.parent
}

func (a *pathAn) param(x *ssa.Parameter, env *pathEnv) pathKind {
	f := x.Parent()
	idx := -1
	for i, q := range f.Params {
		if q == x {
			idx = i
		}
	}
	for e := env; e != nil; e = e.parent {
		if e.fn == f && e.site != nil {
			args := e.site.Common().Args
			if !e.site.Common().IsInvoke() && idx < len(args) && len(args) == len(f.Params) {
				return a.eval(args[idx], e.site, e.parent)
			}
		}
	}
	sites := a.p.Callers(f)
	if len(sites) == 0 {
		if a.p.addressTaken(f) || f.Parent() != nil {
			return a.fail("it is a parameter of "+fname(f)+", which is called from outside the program", x)
		}
		return pDir // operator's own configuration call
	}
	k, first := pBad, true
	for _, c := range sites {
		args := c.Common().Args
		var ak pathKind
		if c.Common().IsInvoke() {
			if idx == 0 || idx-1 >= len(args) {
				return a.fail("unresolved call", x)
			}
			ak = a.eval(args[idx-1], c, nil)
		} else if idx < len(args) && len(args) == len(f.Params) {
			ak = a.eval(args[idx], c, nil)
		} else {
			return a.fail("unresolved call", x)
		}
		if first {
			k, first = ak, false
		} else {
			k = meetPath(k, ak)
		}
	}
	return k
}

func (a *pathAn) stores(al *ssa.Alloc, env *pathEnv) pathKind {
	k, first := pComp, true
	var walk func(addr ssa.Value)
	walk = func(addr ssa.Value) {
		for _, r := range *addr.Referrers() {
			switch s := r.(type) {
			case *ssa.Store:
				if s.Addr == addr {
					sk := a.eval(s.Val, s, env)
					if first {
						k, first = sk, false
					} else {
						k = meetPath(k, sk)
					}
				}
			case *ssa.MakeClosure:
				for i, b := range s.Bindings {
					if b == addr {
						walk(s.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	walk(al)
	return k
}

func (a *pathAn) fieldKind(fa *ssa.FieldAddr) pathKind {
	if fv, ok := fa.X.(*ssa.Alloc); ok && !escapes(fv) {
		_ = fv
	}
	return a.fieldSlot(classOf(fa).class, fa.X.Type())
}

func (a *pathAn) fieldSlot(slot string, owner types.Type) pathKind {
	if k, ok := a.field[slot]; ok {
		return k
	}
	if a.fbusy[slot] {
		return pDir
	}
	if n, ok := derefType(owner).(*types.Named); ok && n.Obj().Pkg() != nil && !isRepoPath(n.Obj().Pkg().Path()) {
		return a.fail("it comes from "+typeShort(n), nil)
	}
	a.fbusy[slot] = true
	k, first := pDir, true
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || slotAddr(s.Addr) != slot {
					continue
				}
				sk := a.eval(s.Val, s, nil)
				if first {
					k, first = sk, false
				} else {
					k = meetPath(k, sk)
				}
			}
		}
	}
	delete(a.fbusy, slot)
	a.field[slot] = k
	return k
}

func (a *pathAn) global(g *ssa.Global) pathKind {
	k, first := pDir, true
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					sk := a.eval(s.Val, s, nil)
					if first {
						k, first = sk, false
					} else {
						k = meetPath(k, sk)
					}
				}
			}
		}
	}
	return k
}

// elem: an element of the slice v.
func (a *pathAn) elem(v ssa.Value, env *pathEnv) pathKind {
	switch x := v.(type) {
	case *ssa.Call:
		n := calleeFull(&x.Call)
		if n == "strings.Split" {
			if s, ok := constStr(x.Call.Args[1]); ok && s == "/" {
				return pComp
			}
			return a.eval(x.Call.Args[0], x, env)
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if a.busy[v] > 1 {
				return pDir
			}
			a.busy[v]++
			defer func() { a.busy[v]-- }()
			k := a.elem(x.Call.Args[0], env)
			if len(x.Call.Args) > 1 {
				k2 := a.elem(x.Call.Args[1], env)
				if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.Value == nil {
					return k2
				}
				k = meetPath(k, k2)
			}
			return k
		}
	case *ssa.Slice:
		return a.elem(x.X, env)
	case *ssa.Phi:
		if a.busy[v] > 1 {
			return pDir
		}
		a.busy[v]++
		defer func() { a.busy[v]-- }()
		k, first := pBad, true
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			ek := a.elem(e, env)
			if first {
				k, first = ek, false
			} else {
				k = meetPath(k, ek)
			}
		}
		return k
	case *ssa.Const:
		return pDir
	case *ssa.Alloc:
		k, first := pComp, true
		for _, r := range *x.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, s := range *ia.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					sk := a.eval(st.Val, st, env)
					if first {
						k, first = sk, false
					} else {
						k = meetPath(k, sk)
					}
				}
			}
		}
		return k
	}
	return a.fail("it is an element of "+valDesc(v), v)
}

func variadic(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := derefType(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, arr.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		i, _ := constant.Int64Val(c.Value)
		for _, s := range *ia.Referrers() {
			if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				out[i] = st.Val
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil, false
		}
	}
	return out, true
}

func (a *pathAn) format(f string, args []ssa.Value, at ssa.Instruction, env *pathEnv) pathKind {
	var items []pathItem
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			items = append(items, pathItem{text: string(f[i]), lit: true})
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("0123456789+-# .", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			return pBad
		}
		if f[i] == '%' {
			items = append(items, pathItem{text: "%", lit: true})
			continue
		}
		if n >= len(args) {
			return pBad
		}
		k := pName
		switch f[i] {
		case 'd', 'x', 'X', 'o', 'b', 't', 'c':
			if !isBasicInt(ifaceArg(args[n]).Type()) && f[i] != 't' {
				k = a.eval(args[n], at, env)
				if f[i] == 'x' || f[i] == 'X' {
					k = pComp // hex digits
				}
			} else if f[i] == 'c' {
				return pBad
			}
		case 's', 'v':
			k = a.eval(args[n], at, env)
		default:
			return pBad
		}
		n++
		items = append(items, pathItem{k: k})
	}
	return concatKind(items)
}

func ifaceArg(v ssa.Value) ssa.Value {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X
	}
	return v
}

func (a *pathAn) call(c *ssa.Call, idx int, at ssa.Instruction, env *pathEnv) pathKind {
	n := calleeFull(&c.Call)
	args := c.Call.Args
	switch n {
	case "path/filepath.Join", "path.Join":
		parts, ok := variadic(args[0])
		if !ok || len(parts) == 0 {
			return a.fail("the joined parts are not known", c)
		}
		k0 := a.eval(parts[0], at, env)
		if k0 != pDir && k0 != pName {
			if _, isC := constStr(parts[0]); !isC {
				return pBad
			}
		}
		for _, q := range parts[1:] {
			k := a.eval(q, at, env)
			if k != pName && k != pDir {
				if k == pComp && a.why == "" {
					a.why = "the joined component can be \"..\""
				}
				return pBad
			}
			if s, isC := constStr(q); k == pDir && !isC {
				_ = s
				if !a.relative(q) {
					return a.fail("a path with separators is joined below the directory", c)
				}
			}
		}
		return pDir
	case "path/filepath.Base", "path.Base":
		if cc, ok := args[0].(*ssa.Call); ok && calleeFull(&cc.Call) == "(*os.File).Name" {
			return pName
		}
		if a.eval(args[0], at, env) == pName {
			return pName
		}
		a.why = ""
		return pComp
	case "path/filepath.Clean", "path.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash", "strings.TrimSpace", "path/filepath.Abs", "path/filepath.Dir":
		return a.eval(args[0], at, env)
	case "strings.TrimSuffix", "strings.TrimPrefix", "strings.ToLower", "strings.ToUpper", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		if k := a.eval(args[0], at, env); k == pName || k == pComp {
			return pComp
		}
		return pBad
	case "(*os.File).Name":
		return pDir // a path that was opened: checked where it was
	case "net/url.PathEscape", "net/url.QueryEscape", "encoding/hex.EncodeToString", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		if strings.HasPrefix(n, "strconv") {
			return pName
		}
		return pComp
	case "strings.ReplaceAll":
		if o, ok := constStr(args[1]); ok && o == "/" {
			if w, ok := constStr(args[2]); ok && !strings.Contains(w, "/") {
				return pComp
			}
		}
	case "fmt.Sprintf":
		if f, ok := constStr(args[0]); ok {
			if vs, ok := variadic(args[1]); ok {
				return a.format(f, vs, at, env)
			}
		}
	case "fmt.Sprint":
		if vs, ok := variadic(args[0]); ok {
			var items []pathItem
			for _, q := range vs {
				items = append(items, pathItem{k: a.eval(q, at, env)})
			}
			return concatKind(items)
		}
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return a.builder(args[0], env)
	}
	f := c.Call.StaticCallee()
	if f == nil || !a.p.isRepoFunc(f) || f.Blocks == nil {
		return a.fail("it is the result of "+valDesc(c), c)
	}
	depth := 0
	for e := env; e != nil; e = e.parent {
		if e.fn == f {
			depth++
		}
	}
	if depth > 1 {
		return pDir
	}
	ne := &pathEnv{f, c, env}
	tests := dominatingTests(at)
	k, first := pDir, true
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
			if failed(ret, idx) || excluded(c, ret, tests) {
				continue
			}
			rk := a.eval(ret.Results[idx], ret, ne)
			if first {
				k, first = rk, false
			} else {
				k = meetPath(k, rk)
			}
		}
	}
	return k
}

// failed: the return reports failure (non-nil error or false) and an empty string.
func failed(ret *ssa.Return, idx int) bool {
	s, ok := constStr(ret.Results[idx])
	return ok && s == "" && len(ret.Results) > 1
}

func (a *pathAn) relative(v ssa.Value) bool { return false }

// builder: everything written to a local strings.Builder.
func (a *pathAn) builder(recv ssa.Value, env *pathEnv) pathKind {
	if _, ok := recv.(*ssa.Alloc); !ok {
		return a.fail("the builder is not local", recv)
	}
	return a.builderUses(recv, env)
}

// builderUses checks what is written through one reference to the builder,
// following it into the functions it is passed to.
func (a *pathAn) builderUses(recv ssa.Value, env *pathEnv) pathKind {
	depth := 0
	for e := env; e != nil; e = e.parent {
		depth++
	}
	if depth > 12 {
		return a.fail("the builder is handed on too deep", recv)
	}
	k := pComp
	for _, r := range *recv.Referrers() {
		switch c := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.MakeInterface:
			for _, r2 := range *c.Referrers() {
				call, ok := r2.(*ssa.Call)
				if !ok || calleeFull(&call.Call) != "fmt.Fprintf" {
					return a.fail("the builder is handed away", recv)
				}
				f, ok1 := constStr(call.Call.Args[1])
				vs, ok2 := variadic(call.Call.Args[2])
				if !ok1 || !ok2 {
					return a.fail("the builder is written with an unknown format", recv)
				}
				if fk := a.format(f, vs, call, env); fk == pBad || fk == pDir {
					return a.fail("the builder receives separators", recv)
				}
			}
			continue
		case *ssa.Call:
			n := calleeFull(&c.Call)
			m := n[strings.LastIndexByte(n, '.')+1:]
			switch m {
			case "String", "Len", "Grow", "Reset", "Cap":
				continue
			case "WriteByte", "WriteRune":
				set, ok := byteSetIn(c.Call.Args[1], c, env)
				if !ok || set['/'] || set['\\'] || set[0] {
					return a.fail("the name under construction can receive a path separator", recv)
				}
				continue
			case "WriteString":
				if sk := a.eval(c.Call.Args[1], c, env); sk == pName || sk == pComp {
					continue
				}
				return a.fail("the name under construction can receive a path separator", recv)
			}
			if f := c.Call.StaticCallee(); f != nil && a.p.isRepoFunc(f) && f.Blocks != nil && len(f.Params) == len(c.Call.Args) {
				for i, arg := range c.Call.Args {
					if arg != recv {
						continue
					}
					if rk := a.builderUses(f.Params[i], &pathEnv{f, c, env}); rk != pComp {
						return rk
					}
				}
				continue
			}
		}
		return a.fail("the builder is handed away", recv)
	}
	return k
}

// byteSlice: a name assembled in a byte slice by append.
func (a *pathAn) byteSlice(v ssa.Value, env *pathEnv, busy map[ssa.Value]bool) pathKind {
	if busy[v] {
		return pComp
	}
	busy[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return pComp
		}
	case *ssa.MakeSlice:
		if k, ok := v.Len.(*ssa.Const); ok && k.Int64() == 0 {
			return pComp
		}
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok && v.High != nil {
			if k, ok := v.High.(*ssa.Const); ok && k.Int64() == 0 && al.Comment == "makeslice" {
				return pComp
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if a.byteSlice(e, env, busy) != pComp {
				return pBad
			}
		}
		return pComp
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || a.byteSlice(v.Call.Args[0], env, busy) != pComp {
			return pBad
		}
		arg := v.Call.Args[1]
		if bt, ok := arg.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			if k := a.eval(arg, v, env); k == pName || k == pComp {
				return pComp
			}
			return pBad
		}
		vs, ok := variadic(arg)
		if !ok {
			return pBad
		}
		for _, e := range vs {
			set, ok := byteSetIn(e, v, env)
			if !ok || set['/'] || set['\\'] || set[0] {
				return pBad
			}
		}
		return pComp
	}
	return pBad
}

// byteSetIn also looks at the caller when the byte is a parameter.
func byteSetIn(v ssa.Value, at ssa.Instruction, env *pathEnv) (*[256]bool, bool) {
	set, ok := byteSet(v, at)
	w := v
	for {
		c, isC := w.(*ssa.Convert)
		if !isC {
			break
		}
		w = c.X
	}
	p, isP := w.(*ssa.Parameter)
	if !isP || env == nil || env.site == nil || env.fn != at.Parent() {
		return set, ok
	}
	for i, q := range env.fn.Params {
		if q == p && i < len(env.site.Common().Args) {
			up, ok2 := byteSetIn(env.site.Common().Args[i], env.site, env.parent)
			if !ok2 {
				return set, ok
			}
			if !ok {
				return up, true
			}
			s := *set
			for n := range s {
				s[n] = s[n] && up[n]
			}
			return &s, true
		}
	}
	return set, ok
}

// byteSet: the values a byte or rune can have when control is at in, given the
// comparisons with constants on the way from its definition.
func byteSet(v ssa.Value, at ssa.Instruction) (*[256]bool, bool) {
	for {
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
			continue
		}
		break
	}
	if c, ok := v.(*ssa.Const); ok {
		var s [256]bool
		if k, exact := constant.Int64Val(constant.ToInt(c.Value)); exact && k >= 0 && k < 256 {
			s[k] = true
		}
		return &s, true
	}
	var start *ssa.BasicBlock
	if p, ok := v.(*ssa.Parameter); ok && p.Parent() == at.Parent() {
		start = at.Parent().Blocks[0]
	} else if def, ok := v.(ssa.Instruction); ok && def.Parent() == at.Parent() {
		start = def.Block()
	} else {
		return nil, false
	}
	bf := &byteFlow{v: v, def: start}
	bf.run(start)
	if at.Block() == start {
		return &fullSet, true
	}
	s := bf.at(at.Block())
	return &s, true
}

type byteVals = [256]bool

var fullSet = func() (s byteVals) {
	for i := range s {
		s[i] = true
	}
	return
}()

// byteFlow propagates the possible values of v along control-flow edges.
type byteFlow struct {
	v     ssa.Value
	def   *ssa.BasicBlock
	edges map[[2]*ssa.BasicBlock]*byteVals
	depth int
}

func (bf *byteFlow) same(w ssa.Value) bool {
	for {
		if c, ok := w.(*ssa.Convert); ok {
			w = c.X
			continue
		}
		return w == bf.v
	}
}

func (bf *byteFlow) at(b *ssa.BasicBlock) (s byteVals) {
	if b == bf.def {
		return fullSet
	}
	for _, p := range b.Preds {
		if e := bf.edges[[2]*ssa.BasicBlock{p, b}]; e != nil {
			for n := range e {
				s[n] = s[n] || e[n]
			}
		}
	}
	return
}

func (bf *byteFlow) run(start *ssa.BasicBlock) {
	bf.edges = map[[2]*ssa.BasicBlock]*byteVals{}
	work := []*ssa.BasicBlock{start}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		in := bf.at(b)
		outs := [2]byteVals{in, in}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
			outs[0], outs[1] = bf.split(iff.Cond, b, in)
		}
		for i, s := range b.Succs {
			if s == bf.def {
				continue
			}
			k := [2]*ssa.BasicBlock{b, s}
			old := bf.edges[k]
			if old == nil {
				cp := outs[i&1]
				bf.edges[k] = &cp
				work = append(work, s)
				continue
			}
			ch := false
			for n := range old {
				if outs[i&1][n] && !old[n] {
					old[n] = true
					ch = true
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
}

// split in into the values for which cond can be true and can be false.
func isConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil
}

func (bf *byteFlow) member(set string, in byteVals) (t, f byteVals) {
	for n := range in {
		if !in[n] {
			continue
		}
		if strings.IndexByte(set, byte(n)) >= 0 {
			t[n] = true
		} else {
			f[n] = true
		}
	}
	return
}

func (bf *byteFlow) split(cond ssa.Value, b *ssa.BasicBlock, in byteVals) (t, f byteVals) {
	switch c := cond.(type) {
	case *ssa.Const:
		if c.Value != nil && constant.BoolVal(c.Value) {
			return in, f
		}
		return t, in
	case *ssa.UnOp:
		if c.Op == token.NOT {
			f, t = bf.split(c.X, b, in)
			return
		}
	case *ssa.BinOp:
		x, y, op := c.X, c.Y, c.Op
		if bf.same(y) {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if call, ok := x.(*ssa.Call); ok && isConst(y) {
			switch calleeFull(&call.Call) {
			case "strings.IndexByte", "strings.IndexRune":
				set, ok := constStr(call.Call.Args[0])
				k, exact := constant.Int64Val(constant.ToInt(y.(*ssa.Const).Value))
				if !ok || !exact || !bf.same(call.Call.Args[1]) {
					break
				}
				m, nm := bf.member(set, in)
				switch {
				case op == token.GEQ && k == 0, op == token.GTR && k == -1, op == token.NEQ && k == -1:
					return m, nm
				case op == token.LSS && k == 0, op == token.LEQ && k == -1, op == token.EQL && k == -1:
					return nm, m
				}
			}
		}
		if k, ok := y.(*ssa.Const); ok && bf.same(x) && k.Value != nil {
			for n := range in {
				if !in[n] {
					continue
				}
				if constant.Compare(constant.MakeInt64(int64(n)), op, k.Value) {
					t[n] = true
				} else {
					f[n] = true
				}
			}
			return
		}
	case *ssa.Phi:
		if c.Block() == b && b != bf.def {
			for i, p := range b.Preds {
				e := bf.edges[[2]*ssa.BasicBlock{p, b}]
				if e == nil {
					continue
				}
				et, ef := bf.split(c.Edges[i], p, *e)
				for n := range in {
					t[n] = t[n] || et[n]
					f[n] = f[n] || ef[n]
				}
			}
			return
		}
	case *ssa.Call:
		g := c.Call.StaticCallee()
		switch n := calleeFull(&c.Call); n {
		case "strings.ContainsRune":
			if set, ok := constStr(c.Call.Args[0]); ok && bf.same(c.Call.Args[1]) {
				return bf.member(set, in)
			}
		}
		if g != nil && g.Blocks != nil && bf.depth < 3 && g.Signature.Results().Len() == 1 {
			for i, a := range c.Call.Args {
				if !bf.same(a) || i >= len(g.Params) {
					continue
				}
				sub := &byteFlow{v: g.Params[i], def: g.Blocks[0], depth: bf.depth + 1}
				sub.run(g.Blocks[0])
				var gt, gf byteVals
				for _, rb := range g.Blocks {
					if ret, ok := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return); ok {
						rt, rf := sub.split(ret.Results[0], rb, sub.at(rb))
						for n := range gt {
							gt[n] = gt[n] || rt[n]
							gf[n] = gf[n] || rf[n]
						}
					}
				}
				for n := range in {
					t[n] = in[n] && gt[n]
					f[n] = in[n] && gf[n]
				}
				return
			}
		}
	}
	return in, in
}

// fileSinks: functions that take file-system paths, and which arguments.
var fileSinks = map[string][]int{
	"os.Create": {0}, "os.Open": {0}, "os.OpenFile": {0}, "os.WriteFile": {0}, "os.ReadFile": {0}, "os.Remove": {0}, "os.RemoveAll": {0},
	"os.Mkdir": {0}, "os.MkdirAll": {0}, "os.Rename": {0, 1}, "os.Stat": {0}, "os.Lstat": {0}, "os.Link": {0, 1}, "os.Symlink": {0, 1}, "os.Truncate": {0},
	"os.Chmod": {0}, "os.ReadDir": {0}, "os.DirFS": {0}, "io/ioutil.ReadFile": {0}, "io/ioutil.WriteFile": {0}, "io/ioutil.ReadDir": {0},
	"net/http.ServeFile": {2}, "path/filepath.Walk": {0}, "path/filepath.WalkDir": {0}, "path/filepath.Glob": {0}, "os.CreateTemp": {0}, "os.MkdirTemp": {0}, "os.Chdir": {0},
	"os/exec.Command": {0},
}

func init() {
	register("C17", "other", func(p *Prog, r *Report) {
		r.Rule = "every path argument of a file operation evaluates, over all its sources, to a trusted path or to a trusted directory joined with single components that contain no separator and cannot be \"..\""
		r.Assume = []string{"parameters of exported functions nobody calls, and fields nobody writes, are the operator's configuration", "Linux path syntax", "the configured directories contain no symbolic links placed by peers"}
		for _, f := range p.Funcs {
			if !p.isRepoFunc(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					com := callOf(in)
					if com == nil {
						continue
					}
					n := calleeFull(com)
					for _, i := range fileSinks[n] {
						r.count("path arguments", 1)
						a := &pathAn{p: p, busy: map[ssa.Value]int{}, field: map[string]pathKind{}, fbusy: map[string]bool{}}
						k := a.eval(com.Args[i], in, nil)
						if k == pDir || k == pName {
							r.count("proven contained", 1)
							r.sample("%s: %s argument of %s is a %s", p.posOf(in), "path", n, k)
							continue
						}
						why := a.why
						if why == "" {
							why = "a component can be \"..\" or empty"
						}
						r.find("path|"+fname(f)+"|"+n, p.posOf(in), "the path handed to %s is not provably inside a configured directory: %s", n, why)
					}
				}
			}
		}
		r.atLeast("path arguments", 8)
	})
}
