package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sbraveyoung/GGmpeg"

// Prog is the resolved program every rule works on.
type Prog struct {
	Dir   string
	Tier  string
	Fset  *token.FileSet
	Pkgs  []*packages.Package // the repository's own packages
	SSA   *ssa.Program
	Repo  map[*types.Package]bool
	Funcs []*ssa.Function // every function with a body declared in the repository (closures included)
	CG    *callgraph.Graph
	Files int
	Reach map[*ssa.Function]bool // reachable from the roots

	callees map[ssa.CallInstruction][]*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	taken   map[*ssa.Function]bool
	eng     *Eng

	gbytesOnce sync.Once
	gbytes     map[string]*gbytes
}

func isRepoPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

func load(dir string) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Fset:  fset,
		Tests: false,
		Env:   append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("load %s: %w", dir, err)
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("load %s: no packages", dir)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("type check of %s: %v", p.PkgPath, e)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	pr := &Prog{Dir: dir, Fset: fset, Repo: map[*types.Package]bool{}}
	sp := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	// Create all packages; standard-library ones from types only.
	seen := map[*packages.Package]bool{}
	var create func(p *packages.Package)
	create = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		keys := make([]string, 0, len(p.Imports))
		for k := range p.Imports {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			create(p.Imports[k])
		}
		withSyntax := p.Module != nil && len(p.Syntax) > 0 && (isRepoPath(p.PkgPath) || strings.Contains(p.PkgPath, "SmartBrave/"))
		if withSyntax {
			sp.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		} else {
			sp.CreatePackage(p.Types, nil, nil, true)
		}
	}
	for _, p := range pkgs {
		create(p)
		if isRepoPath(p.PkgPath) {
			pr.Pkgs = append(pr.Pkgs, p)
			pr.Repo[p.Types] = true
			pr.Files += len(p.Syntax)
		}
	}
	sp.Build()
	pr.SSA = sp
	all := ssautil.AllFunctions(sp)
	for f := range all {
		if f.Blocks == nil {
			continue
		}
		if pr.isRepoFunc(f) && f.Synthetic == "" {
			pr.Funcs = append(pr.Funcs, f)
		}
	}
	sort.Slice(pr.Funcs, func(i, j int) bool {
		a, b := pr.Funcs[i], pr.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	pr.CG = vta.CallGraph(all, cha.CallGraph(sp))
	pr.indexCalls()
	return pr, nil
}

func (p *Prog) isRepoFunc(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.Repo[f.Pkg.Pkg]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return p.Repo[o.Pkg()]
	}
	return false
}

func (p *Prog) indexCalls() {
	p.callees = map[ssa.CallInstruction][]*ssa.Function{}
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	var add func(site ssa.CallInstruction, f *ssa.Function, depth int)
	add = func(site ssa.CallInstruction, f *ssa.Function, depth int) {
		// look through synthetic wrappers (promoted methods, bound methods, thunks)
		if f.Synthetic != "" && f.Blocks != nil && depth < 4 && !strings.HasPrefix(f.Synthetic, "package init") && !strings.HasPrefix(f.Synthetic, "instance") {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if s := c.Common().StaticCallee(); s != nil {
							add(site, s, depth+1)
						}
					}
				}
			}
			return
		}
		for _, g := range p.callees[site] {
			if g == f {
				return
			}
		}
		p.callees[site] = append(p.callees[site], f)
		p.callers[f] = append(p.callers[f], site)
	}
	var nodes []*callgraph.Node
	for _, n := range p.CG.Nodes {
		if n.Func != nil {
			nodes = append(nodes, n)
		}
	}
	sort.Slice(nodes, func(i, j int) bool {
		if nodes[i].Func.String() != nodes[j].Func.String() {
			return nodes[i].Func.String() < nodes[j].Func.String()
		}
		return nodes[i].Func.Pos() < nodes[j].Func.Pos()
	})
	for _, n := range nodes {
		if n.Func.Synthetic != "" && !strings.HasPrefix(n.Func.Synthetic, "package init") {
			continue
		}
		out := append([]*callgraph.Edge(nil), n.Out...)
		sort.Slice(out, func(i, j int) bool {
			if out[i].Callee.Func.String() != out[j].Callee.Func.String() {
				return out[i].Callee.Func.String() < out[j].Callee.Func.String()
			}
			return out[i].Pos() < out[j].Pos()
		})
		for _, e := range out {
			if e.Site != nil {
				add(e.Site, e.Callee.Func, 0)
			}
		}
	}
	for f := range p.callers {
		cs := p.callers[f]
		sort.Slice(cs, func(i, j int) bool { return cs[i].Pos() < cs[j].Pos() })
	}
}

// Callees of a call site (resolved through the call graph), repo and others.
func (p *Prog) Callees(site ssa.CallInstruction) []*ssa.Function {
	if s := site.Common().StaticCallee(); s != nil && s.Synthetic == "" {
		return []*ssa.Function{s}
	}
	return p.callees[site]
}

func (p *Prog) Callers(f *ssa.Function) []ssa.CallInstruction { return p.callers[f] }

func (p *Prog) pos(pos token.Pos) string {
	ps := p.Fset.Position(pos)
	if !ps.IsValid() {
		return "?"
	}
	if r, err := filepath.Rel(p.Dir, ps.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, ps.Line)
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func (p *Prog) posOf(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	// nearest instruction with a position in the same block
	b := in.Block()
	idx := -1
	for i, x := range b.Instrs {
		if x == in {
			idx = i
		}
	}
	for d := 1; d < len(b.Instrs); d++ {
		for _, j := range []int{idx - d, idx + d} {
			if j >= 0 && j < len(b.Instrs) && b.Instrs[j].Pos().IsValid() {
				return p.pos(b.Instrs[j].Pos())
			}
		}
	}
	return p.pos(in.Parent().Pos())
}

// fname is a short stable name of a function.
func fname(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// repoCallees: the repository functions a call may reach.
func (p *Prog) repoCallees(c ssa.CallInstruction) (out []*ssa.Function) {
	for _, f := range p.Callees(c) {
		if p.isRepoFunc(f) {
			out = append(out, f)
		}
	}
	return
}
