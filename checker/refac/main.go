// Command refac rewrites a copy of the repository with behaviour-preserving
// transformations. It is a development aid: the checks must stay quiet on
// what it produces.
//
//	refac -dir COPY -t KIND [-f FUNCTION] [-list]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	dir  = flag.String("dir", "", "copy to rewrite")
	kind = flag.String("t", "", "transformation")
	only = flag.String("f", "", "only this function (Recv.Name or Name)")
	pkgf = flag.String("p", "", "only this package (base name)")
	list = flag.Bool("list", false, "list functions changed")
)

type ctx struct {
	pkg     *packages.Package
	file    *ast.File
	fn      *ast.FuncDecl
	n       int
	extra   []ast.Decl
	counter *int
}

func main() {
	flag.Parse()
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: *dir}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	total, counter := 0, 0
	var changed []string
	for _, p := range pkgs {
		if *pkgf != "" && !strings.HasSuffix(p.PkgPath, "/"+*pkgf) {
			continue
		}
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			f.Comments = nil
			dirty := false
			var extra []ast.Decl
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				nm := fnName(fd)
				if *only != "" && nm != *only {
					continue
				}
				c := &ctx{pkg: p, file: f, fn: fd, counter: &counter}
				apply(c, *kind)
				if c.n > 0 {
					dirty = true
					total += c.n
					changed = append(changed, p.Name+"."+nm)
					extra = append(extra, c.extra...)
				}
			}
			if dirty {
				f.Decls = append(f.Decls, extra...)
				ast.Inspect(f, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.FuncDecl:
						n.Doc = nil
					case *ast.GenDecl:
						n.Doc = nil
					case *ast.Field:
						n.Doc, n.Comment = nil, nil
					case *ast.ValueSpec:
						n.Doc, n.Comment = nil, nil
					case *ast.TypeSpec:
						n.Doc, n.Comment = nil, nil
					}
					return true
				})
				var b bytes.Buffer
				if err := format.Node(&b, token.NewFileSet(), f); err != nil {
					fmt.Println("format", name, err)
					os.Exit(2)
				}
				os.WriteFile(name, b.Bytes(), 0o644)
			}
		}
	}
	if *list {
		sort.Strings(changed)
		fmt.Println(strings.Join(changed, "\n"))
	} else {
		fmt.Println(*kind, "applied", total, "times in", len(changed), "functions")
	}
}

func fnName(fd *ast.FuncDecl) string {
	if fd.Recv != nil && len(fd.Recv.List) > 0 {
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			return id.Name + "." + fd.Name.Name
		}
	}
	return fd.Name.Name
}

func not(e ast.Expr) ast.Expr {
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return u.X
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func hasBranch(n ast.Node, toks ...token.Token) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if b, ok := m.(*ast.BranchStmt); ok {
			for _, t := range toks {
				if b.Tok == t {
					found = true
				}
			}
		}
		return true
	})
	return found
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK
	}
	return false
}

func apply(c *ctx, kind string) {
	switch kind {
	case "invert":
		astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
			s, ok := cur.Node().(*ast.IfStmt)
			if !ok || s.Else == nil {
				return true
			}
			e, ok := s.Else.(*ast.BlockStmt)
			if !ok {
				e = &ast.BlockStmt{List: []ast.Stmt{s.Else}}
			}
			s.Cond, s.Body, s.Else = not(s.Cond), e, s.Body
			c.n++
			return true
		})
	case "guard":
		// if c {..terminates}; rest  =>  if !c {rest} else {..}
		guard(c, c.fn.Body, c.fn.Type.Results == nil)
		ast.Inspect(c.fn.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ForStmt:
				guard(c, n.Body, true)
			case *ast.RangeStmt:
				guard(c, n.Body, true)
			}
			return true
		})
	case "forcond":
		ast.Inspect(c.fn.Body, func(n ast.Node) bool {
			s, ok := n.(*ast.ForStmt)
			if !ok || s.Cond == nil {
				return true
			}
			g := &ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
			s.Cond = nil
			s.Body.List = append([]ast.Stmt{g}, s.Body.List...)
			c.n++
			return true
		})
	case "condvar":
		ast.Inspect(c.fn.Body, func(n ast.Node) bool {
			s, ok := n.(*ast.IfStmt)
			if !ok || s.Init != nil {
				return true
			}
			if _, ok := s.Cond.(*ast.Ident); ok {
				return true
			}
			s.Init = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("cnd")}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Cond}}
			s.Cond = ast.NewIdent("cnd")
			c.n++
			return true
		})
	case "condand":
		// if a && b {X} (no else) => if a { if b {X} }
		ast.Inspect(c.fn.Body, func(n ast.Node) bool {
			s, ok := n.(*ast.IfStmt)
			if !ok || s.Else != nil {
				return true
			}
			b, ok := s.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND {
				return true
			}
			s.Cond = b.X
			s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
			c.n++
			return true
		})
	case "condor":
		// if a || b {X terminating} => if a {X}; if b {X}   only when X is a bare return/continue/break
		astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
			s, ok := cur.Node().(*ast.IfStmt)
			if !ok || s.Else != nil || s.Init != nil || !terminates(s.Body) || cur.Index() < 0 {
				return true
			}
			b, ok := s.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LOR {
				return true
			}
			cur.InsertAfter(&ast.IfStmt{Cond: b.Y, Body: s.Body})
			s.Cond = b.X
			c.n++
			return true
		})
	case "flip":
		// a < b => b > a, a == b => b == a
		m := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		ast.Inspect(c.fn.Body, func(n ast.Node) bool {
			b, ok := n.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			if op, ok := m[b.Op]; ok {
				b.X, b.Op, b.Y = b.Y, op, b.X
				c.n++
			}
			return true
		})
	case "switchif":
		astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
			s, ok := cur.Node().(*ast.SwitchStmt)
			if !ok || hasBranch(s, token.BREAK, token.FALLTHROUGH) {
				return true
			}
			if _, lab := cur.Parent().(*ast.LabeledStmt); lab {
				return true
			}
			var blk []ast.Stmt
			if s.Init != nil {
				blk = append(blk, s.Init)
			}
			tag := s.Tag
			if tag != nil {
				if _, ok := tag.(*ast.Ident); !ok {
					id := ast.NewIdent("swt")
					blk = append(blk, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{tag}})
					tag = id
				}
			}
			var first, last *ast.IfStmt
			var def *ast.BlockStmt
			for i, cl := range s.Body.List {
				cc := cl.(*ast.CaseClause)
				if cc.List == nil {
					if i != len(s.Body.List)-1 {
						return true
					}
					def = &ast.BlockStmt{List: cc.Body}
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					x := e
					if tag != nil {
						x = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: &ast.ParenExpr{X: e}}
					}
					if cond == nil {
						cond = x
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: x}
					}
				}
				n := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
				if first == nil {
					first = n
				} else {
					last.Else = n
				}
				last = n
			}
			if first == nil {
				return true
			}
			if def != nil {
				last.Else = def
			}
			if c.fn.Type.Results != nil && cur.Index() >= 0 {
				// keep "missing return" analysis happy only when not last
			}
			blk = append(blk, first)
			cur.Replace(&ast.BlockStmt{List: blk})
			c.n++
			return true
		})
		if c.n > 0 && c.fn.Type.Results != nil {
			c.fn.Body.List = append(c.fn.Body.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}})
			if _, ok := c.fn.Body.List[len(c.fn.Body.List)-2].(*ast.ReturnStmt); ok {
				c.fn.Body.List = c.fn.Body.List[:len(c.fn.Body.List)-1]
			} else if len(c.fn.Body.List) >= 2 {
				if _, ok := c.fn.Body.List[len(c.fn.Body.List)-2].(*ast.ForStmt); ok {
					c.fn.Body.List = c.fn.Body.List[:len(c.fn.Body.List)-1]
				}
			}
		}
	case "range":
		ast.Inspect(c.fn.Body, func(n ast.Node) bool { return true })
		astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
			s, ok := cur.Node().(*ast.RangeStmt)
			if !ok || s.Tok != token.DEFINE {
				return true
			}
			t := c.pkg.TypesInfo.TypeOf(s.X)
			if t == nil {
				return true
			}
			switch t.Underlying().(type) {
			case *types.Slice:
			default:
				return true
			}
			if _, lab := cur.Parent().(*ast.LabeledStmt); lab {
				return true
			}
			*c.counter++
			sl, ix := ast.NewIdent(fmt.Sprintf("rsl%d", *c.counter)), ast.NewIdent(fmt.Sprintf("rix%d", *c.counter))
			body := []ast.Stmt{}
			if k, ok := s.Key.(*ast.Ident); ok && k.Name != "_" {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{k}, Tok: token.DEFINE, Rhs: []ast.Expr{ix}})
			}
			if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: sl, Index: ix}}})
			}
			f := &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{ix}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
				Cond: &ast.BinaryExpr{X: ix, Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{sl}}},
				Post: &ast.IncDecStmt{X: ix, Tok: token.INC},
				Body: &ast.BlockStmt{List: append(body, s.Body.List...)},
			}
			cur.Replace(&ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{sl}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}}, f}})
			c.n++
			return true
		})
	case "defer":
		ast.Inspect(c.fn.Body, func(n ast.Node) bool {
			d, ok := n.(*ast.DeferStmt)
			if !ok || len(d.Call.Args) > 0 {
				return true
			}
			if _, ok := d.Call.Fun.(*ast.FuncLit); ok {
				return true
			}
			d.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: d.Call}}}}}
			c.n++
			return false
		})
	case "delegate":
		delegate(c)
	case "extract":
		extract(c)
	case "extractstmt":
		extractStmts(c, func(s ast.Stmt) bool {
			switch s.(type) {
			case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				return true
			}
			return false
		})
	case "extractcall":
		extractStmts(c, func(s ast.Stmt) bool {
			switch s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.SendStmt:
				return true
			case *ast.AssignStmt:
				return s.(*ast.AssignStmt).Tok != token.DEFINE
			}
			return false
		})
	case "elseless":
		// if c {...return} else {X} => if c {...return}; X
		astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
			s, ok := cur.Node().(*ast.IfStmt)
			if !ok || s.Else == nil || s.Init != nil || !terminates(s.Body) || cur.Index() < 0 {
				return true
			}
			if e, ok := s.Else.(*ast.BlockStmt); ok {
				cur.InsertAfter(&ast.BlockStmt{List: e.List})
			} else {
				cur.InsertAfter(s.Else)
			}
			s.Else = nil
			c.n++
			return true
		})
	case "goclosure":
		astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
			g, ok := cur.Node().(*ast.GoStmt)
			if !ok || cur.Index() < 0 {
				return true
			}
			if _, ok := g.Call.Fun.(*ast.FuncLit); ok {
				return true
			}
			for i, a := range g.Call.Args {
				if tv := c.pkg.TypesInfo.Types[a]; tv.Value != nil || tv.IsNil() {
					continue
				}
				*c.counter++
				id := ast.NewIdent(fmt.Sprintf("ga%d", *c.counter))
				cur.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				g.Call.Args[i] = id
			}
			if se, ok := g.Call.Fun.(*ast.SelectorExpr); ok {
				if _, isId := se.X.(*ast.Ident); !isId {
					*c.counter++
					id := ast.NewIdent(fmt.Sprintf("ga%d", *c.counter))
					cur.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{se.X}})
					se.X = id
				}
			}
			inner := g.Call
			g.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}}
			c.n++
			return true
		})
	case "lockscope":
		lockscope(c)
	case "closure":
		// func f(...) T { body } => func f(...) T { return func() T { body }() }
		if c.fn.Name.Name == "main" || c.fn.Name.Name == "init" {
			return
		}
		ft := &ast.FuncType{Params: &ast.FieldList{}}
		named := false
		if c.fn.Type.Results != nil {
			for _, f := range c.fn.Type.Results.List {
				if len(f.Names) > 0 {
					named = true
				}
			}
			ft.Results = c.fn.Type.Results
		}
		if named {
			return
		}
		call := &ast.CallExpr{Fun: &ast.FuncLit{Type: ft, Body: &ast.BlockStmt{List: c.fn.Body.List}}}
		if ft.Results != nil {
			c.fn.Body.List = []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}
		} else {
			c.fn.Body.List = []ast.Stmt{&ast.ExprStmt{X: call}}
		}
		c.n++
	case "hoist":
		hoist(c)
	case "ifinit":
		// if x := e; c {..} => { x := e; if c {..} }
		astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
			s, ok := cur.Node().(*ast.IfStmt)
			if !ok || s.Init == nil || cur.Index() < 0 {
				return true
			}
			in := s.Init
			s.Init = nil
			cur.Replace(&ast.BlockStmt{List: []ast.Stmt{in, s}})
			c.n++
			return true
		})
	case "noop":
		ast.Inspect(c.fn.Body, func(n ast.Node) bool {
			if b, ok := n.(*ast.BlockStmt); ok && len(b.List) > 0 {
				switch b.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
				b.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, b.List...)
				c.n++
			}
			return true
		})
	case "named":
		// return f(x) with several results => a, b := f(x); return a, b
		astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
			r, ok := cur.Node().(*ast.ReturnStmt)
			if !ok || len(r.Results) != 1 || cur.Index() < 0 {
				return true
			}
			call, ok := r.Results[0].(*ast.CallExpr)
			if !ok {
				return true
			}
			t := c.pkg.TypesInfo.TypeOf(call)
			tv := c.pkg.TypesInfo.Types[call.Fun]
			if t == nil || tv.IsType() || tv.IsBuiltin() {
				return true
			}
			k := 1
			if tup, ok := t.(*types.Tuple); ok {
				k = tup.Len()
			}
			var ids []ast.Expr
			for i := 0; i < k; i++ {
				*c.counter++
				ids = append(ids, ast.NewIdent(fmt.Sprintf("ret%d", *c.counter)))
			}
			cur.InsertBefore(&ast.AssignStmt{Lhs: ids, Tok: token.DEFINE, Rhs: []ast.Expr{call}})
			r.Results = ids
			c.n++
			return true
		})
	default:
		fmt.Println("unknown", kind)
		os.Exit(2)
	}
}

func guard(c *ctx, b *ast.BlockStmt, ok bool) {
	if !ok {
		return
	}
	for i, st := range b.List {
		s, isIf := st.(*ast.IfStmt)
		if !isIf || s.Else != nil || s.Init != nil || !terminates(s.Body) || i == len(b.List)-1 {
			continue
		}
		rest := b.List[i+1:]
		for _, r := range rest {
			if _, lab := r.(*ast.LabeledStmt); lab {
				return
			}
		}
		nb := &ast.BlockStmt{List: append([]ast.Stmt(nil), rest...)}
		s.Cond, s.Body, s.Else = not(s.Cond), nb, s.Body
		b.List = b.List[:i+1]
		c.n++
		guard(c, nb, true)
		return
	}
}

// delegate renames f to fImpl and makes f call it.
func delegate(c *ctx) {
	fd := c.fn
	if fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Type.TypeParams != nil {
		return
	}
	impl := *fd
	impl.Name = ast.NewIdent(fd.Name.Name + "Impl")
	var args []ast.Expr
	params := &ast.FieldList{}
	variadic := false
	k := 0
	if fd.Type.Params != nil {
		for _, f := range fd.Type.Params.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for j := 0; j < n; j++ {
				id := ast.NewIdent(fmt.Sprintf("arg%d", k))
				k++
				params.List = append(params.List, &ast.Field{Names: []*ast.Ident{id}, Type: f.Type})
				args = append(args, id)
				if _, v := f.Type.(*ast.Ellipsis); v {
					variadic = true
				}
			}
		}
	}
	call := &ast.CallExpr{Args: args}
	if variadic {
		call.Ellipsis = 1
	}
	wrap := &ast.FuncDecl{Name: fd.Name, Type: &ast.FuncType{Params: params}}
	if fd.Type.Results != nil {
		rs := &ast.FieldList{}
		for _, f := range fd.Type.Results.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for j := 0; j < n; j++ {
				rs.List = append(rs.List, &ast.Field{Type: f.Type})
			}
		}
		wrap.Type.Results = rs
	}
	if fd.Recv != nil {
		r := ast.NewIdent("rcv")
		wrap.Recv = &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{r}, Type: fd.Recv.List[0].Type}}}
		call.Fun = &ast.SelectorExpr{X: r, Sel: impl.Name}
	} else {
		call.Fun = impl.Name
	}
	if wrap.Type.Results != nil {
		wrap.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
	} else {
		wrap.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
	}
	cp := impl
	c.extra = append(c.extra, &cp)
	*fd = *wrap
	c.n++
}

// hoist moves call arguments that are calls into variables before the statement.
func hoist(c *ctx) {
	astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
		if cur.Index() < 0 {
			return true
		}
		var call *ast.CallExpr
		switch s := cur.Node().(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 {
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 1 {
				call, _ = s.Results[0].(*ast.CallExpr)
			}
		}
		if call == nil {
			return true
		}
		if tv := c.pkg.TypesInfo.Types[call.Fun]; tv.IsType() {
			return true
		}
		for i, a := range call.Args {
			tv, ok := c.pkg.TypesInfo.Types[a]
			if !ok || tv.Value != nil || tv.IsNil() || tv.IsType() {
				continue
			}
			switch a.(type) {
			case *ast.CallExpr, *ast.BinaryExpr, *ast.SliceExpr, *ast.SelectorExpr:
			default:
				continue
			}
			if _, tup := tv.Type.(*types.Tuple); tup {
				continue
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				continue
			}
			*c.counter++
			id := ast.NewIdent(fmt.Sprintf("hst%d", *c.counter))
			cur.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
			call.Args[i] = id
			c.n++
		}
		return true
	})
}

// extract turns the bodies of if, else, for and case branches into functions
// of their own.
func (c *ctx) outline(list []ast.Stmt, min int) []ast.Stmt {
	info := c.pkg.TypesInfo
	{
		if len(list) < min {
			return nil
		}
		lo, hi := list[0].Pos(), list[len(list)-1].End()
		bad := false
		var free []*types.Var
		seen := map[*types.Var]bool{}
		inner := 0
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				inner++
				ast.Inspect(n.Body, walk)
				inner--
				return false
			case *ast.ReturnStmt, *ast.DeferStmt:
				if inner == 0 {
					bad = true
				}
			case *ast.BranchStmt, *ast.LabeledStmt:
				if inner == 0 {
					bad = true
				}
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Name != "_" {
						if o := info.ObjectOf(id); o != nil && (o.Pos() < lo || o.Pos() > hi) {
							bad = true
						}
					}
				}
			case *ast.IncDecStmt:
				if id, ok := n.X.(*ast.Ident); ok {
					if o := info.ObjectOf(id); o != nil && (o.Pos() < lo || o.Pos() > hi) {
						bad = true
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					if id, ok := n.X.(*ast.Ident); ok {
						if o := info.ObjectOf(id); o != nil && (o.Pos() < lo || o.Pos() > hi) {
							bad = true
						}
					}
				}
			case *ast.Ident:
				if v, ok := info.ObjectOf(n).(*types.Var); ok && !v.IsField() && v.Pkg() == c.pkg.Types && v.Parent() != nil && v.Parent() != c.pkg.Types.Scope() && v.Parent() != types.Universe {
					if (v.Pos() < lo || v.Pos() > hi) && !seen[v] {
						seen[v] = true
						free = append(free, v)
					}
				}
			}
			return !bad
		}
		for _, s := range list {
			ast.Inspect(s, walk)
		}
		if bad {
			return nil
		}
		*c.counter++
		name := fmt.Sprintf("extracted%d", *c.counter)
		fd := &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: list}}
		call := &ast.CallExpr{Fun: ast.NewIdent(name)}
		var recv *types.Var
		if c.fn.Recv != nil && len(c.fn.Recv.List[0].Names) > 0 {
			recv, _ = info.ObjectOf(c.fn.Recv.List[0].Names[0]).(*types.Var)
		}
		qual := func(p *types.Package) string {
			if p == c.pkg.Types {
				return ""
			}
			return p.Name()
		}
		for _, v := range free {
			if v == recv && recv != nil {
				fd.Recv = c.fn.Recv
				call.Fun = &ast.SelectorExpr{X: ast.NewIdent(v.Name()), Sel: ast.NewIdent(name)}
				continue
			}
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return nil
			}
			ts := strings.ReplaceAll(types.TypeString(v.Type(), qual), "any", "interface{}")
			if ts == "any" {
				ts = "interface{}"
			}
			if strings.Contains(ts, "untyped") {
				return nil
			}
			imp := map[string]bool{}
			for _, is := range c.file.Imports {
				pth := strings.Trim(is.Path.Value, `"`)
				imp[pth[strings.LastIndex(pth, "/")+1:]] = true
			}
			okImp := true
			types.TypeString(v.Type(), func(p *types.Package) string {
				if p != c.pkg.Types && !imp[p.Name()] {
					okImp = false
				}
				return ""
			})
			if !okImp {
				return nil
			}
			fd.Type.Params.List = append(fd.Type.Params.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: ast.NewIdent(ts)})
			call.Args = append(call.Args, ast.NewIdent(v.Name()))
		}
		c.extra = append(c.extra, fd)
		c.n++
		return []ast.Stmt{&ast.ExprStmt{X: call}}
	}
}

func extract(c *ctx) {
	do := c.outline
	astutil.Apply(c.fn.Body, func(cur *astutil.Cursor) bool {
		switch s := cur.Node().(type) {
		case *ast.IfStmt:
			if r := do(s.Body.List, 1); r != nil {
				s.Body = &ast.BlockStmt{List: r}
			}
			if e, ok := s.Else.(*ast.BlockStmt); ok {
				if r := do(e.List, 1); r != nil {
					s.Else = &ast.BlockStmt{List: r}
				}
			}
		case *ast.ForStmt:
			if r := do(s.Body.List, 2); r != nil {
				s.Body = &ast.BlockStmt{List: r}
			}
		case *ast.RangeStmt:
			if r := do(s.Body.List, 2); r != nil {
				s.Body = &ast.BlockStmt{List: r}
			}
		case *ast.CaseClause:
			if r := do(s.Body, 2); r != nil {
				s.Body = r
			}
		case *ast.FuncLit:
			return false
		}
		return true
	}, nil)
}

func extractStmts(c *ctx, pick func(ast.Stmt) bool) {
	used := map[*types.Var]ast.Node{}
	_ = used
	each := func(list []ast.Stmt) {
		for i, st := range list {
			if !pick(st) {
				continue
			}
			if r := c.outline([]ast.Stmt{st}, 1); r != nil {
				list[i] = r[0]
			}
		}
	}
	astutil.Apply(c.fn.Body, func(cur *astutil.Cursor) bool {
		switch s := cur.Node().(type) {
		case *ast.BlockStmt:
			each(s.List)
		case *ast.CaseClause:
			each(s.Body)
		case *ast.FuncLit:
			return false
		}
		return true
	}, nil)
}

// lockscope turns x.Lock(); ...; x.Unlock() into a function literal with a
// deferred unlock.
func lockscope(c *ctx) {
	name := func(s ast.Stmt) (string, string) {
		e, ok := s.(*ast.ExprStmt)
		if !ok {
			return "", ""
		}
		call, ok := e.X.(*ast.CallExpr)
		if !ok || len(call.Args) > 0 {
			return "", ""
		}
		se, ok := call.Fun.(*ast.SelectorExpr)
		if !ok {
			return "", ""
		}
		var b bytes.Buffer
		format.Node(&b, token.NewFileSet(), se.X)
		return b.String(), se.Sel.Name
	}
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return true
		}
		for i := 0; i < len(b.List); i++ {
			m, op := name(b.List[i])
			if op != "Lock" && op != "RLock" {
				continue
			}
			for j := i + 1; j < len(b.List); j++ {
				m2, op2 := name(b.List[j])
				if m2 != m || op2 != strings.Replace(op, "Lock", "Unlock", 1) && op2 != "RUnlock" {
					continue
				}
				bad := false
				for _, s := range b.List[i+1 : j] {
					ast.Inspect(s, func(n ast.Node) bool {
						switch n := n.(type) {
						case *ast.FuncLit:
							return false
						case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt:
							bad = true
						case *ast.DeclStmt:
							bad = true
						case *ast.AssignStmt:
							if n.Tok == token.DEFINE {
								for _, l := range n.Lhs {
									id, ok := l.(*ast.Ident)
									if !ok {
										continue
									}
									for _, rest := range b.List[j+1:] {
										ast.Inspect(rest, func(m ast.Node) bool {
											if u, ok := m.(*ast.Ident); ok && u.Name == id.Name {
												bad = true
											}
											return true
										})
									}
								}
							}
						}
						return true
					})
				}
				if bad {
					break
				}
				unlock := b.List[j].(*ast.ExprStmt).X.(*ast.CallExpr)
				body := append([]ast.Stmt{b.List[i], &ast.DeferStmt{Call: unlock}}, b.List[i+1:j]...)
				lit := &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}}}
				b.List = append(append(append([]ast.Stmt(nil), b.List[:i]...), lit), b.List[j+1:]...)
				c.n++
				break
			}
		}
		return true
	})
}
