package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Bounds rules: every index, slice, sized allocation, division and fixed-width
// decode in a group of packages is an obligation that must be discharged.
func init() {
	bounds := func(id string, min int, sel func(pkg, file string) bool) {
		register(id, "proof", func(p *Prog, r *Report) { boundsRule(p, r, min, sel) })
	}
	bounds("C01", 250, func(pkg, file string) bool {
		return pkg == "libamf" || pkg == "libflv" || pkg == "librtmp" && !rtspSrtFile(file)
	})
	bounds("C02", 150, func(pkg, file string) bool {
		return pkg == "librtsp" || pkg == "librtmp" && strings.HasPrefix(file, "rtsp")
	})
	bounds("C03", 150, func(pkg, file string) bool {
		return pkg == "libsrt" || pkg == "librtmp" && strings.HasPrefix(file, "srt")
	})
	bounds("C04", 300, func(pkg, file string) bool {
		switch pkg {
		case "libamf", "libflv", "librtmp", "librtsp", "libsrt":
			return false
		}
		return true
	})
}

func rtspSrtFile(f string) bool { return strings.HasPrefix(f, "rtsp") || strings.HasPrefix(f, "srt") }

func boundsRule(p *Prog, r *Report, min int, sel func(pkg, file string) bool) {
	r.Rule = "Each index, slice expression, make, division, shift and fixed-width decode is an obligation: the operands must satisfy the Go run-time check on every path. Obligations are discharged by an abstract interpretation over SSA (linear inequalities between integer values and slice lengths, path facts, loop and field invariants, callers on demand); an obligation that is not discharged is reported."
	r.Assume = []string{"memory is not corrupted by data races", "int is 64 bits", "standard-library and Athena contracts as written in prove.go"}
	e := p.engine()
	n := map[string]int{}
	for _, fn := range p.Funcs {
		file := p.pos(fn.Pos())
		if i := strings.LastIndex(file, ":"); i > 0 {
			file = file[:i]
		}
		parts := strings.Split(file, "/")
		pkg := ""
		if len(parts) > 1 {
			pkg = parts[len(parts)-2]
		}
		if !sel(pkg, parts[len(parts)-1]) {
			continue
		}
		r.count("functions", 1)
		for _, ob := range p.boundsObligations(fn) {
			r.Obligations++
			v := e.discharge(ob, 3)
			if v.ok {
				r.Discharged++
				continue
			}
			k := fmt.Sprintf("bounds|%s|%s|%s", fname(fn), ob.kind, v.goal)
			n[k]++
			if n[k] > 1 {
				k += fmt.Sprintf("#%d", n[k])
			}
			r.find(k, p.posOf(ob.in), "%s in %s: cannot show %q; calling context%s", ob.kind, fname(fn), v.goal, v.trail)
		}
	}
	r.count("obligations", r.Obligations)
	r.count("discharged", r.Discharged)
	r.atLeast("obligations", min)
}

func (p *Prog) engine() *Eng {
	if p.eng == nil {
		p.eng = newEng(p)
		p.eng.inferFields()
	}
	return p.eng
}

// repoFunc reports whether f is declared in the repository.
func (p *Prog) repoFunc(f *ssa.Function) bool {
	for f != nil && f.Parent() != nil {
		f = f.Parent()
	}
	return f != nil && f.Pkg != nil && p.Repo[f.Pkg.Pkg]
}

func keysOf(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
