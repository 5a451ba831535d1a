package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "proof", nilRule)
}

func nilRule(p *Prog, r *Report) {
	r.Rule = "Each use of a reference (field access, load, store, method or function call, map store, channel close, unchecked type assertion) and each explicit panic is an obligation: the reference is not nil, the assertion succeeds, the panic is unreachable, on every path."
	for _, x := range assumedSet {
		r.Assume = append(r.Assume, fmt.Sprintf("field of type %s in %s is set where it is used: %s", x.typ, x.owner, x.why))
	}
	r.Assume = append(r.Assume,
		"an FLV tag whose TagType was compared with the audio, video or data value is of that concrete type",
		"library functions return a usable result whenever they return a nil error (or a true ok)",
		"a function value, channel or map of the standard library is not nil",
	)
	n := newNilEng(p)
	cnt := map[string]int{}
	for _, fn := range n.funcs {
		if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil {
			continue
		}
		if n.configOnly(fn, 3) {
			// what an embedding program calls to set the server up may
			// reject its arguments by panicking
			r.count("configuration functions, not examined", 1)
			continue
		}
		r.count("functions", 1)
		for _, u := range n.uses(fn) {
			r.Obligations++
			ok, trail, _ := n.discharge(u, 8)
			if ok {
				r.Discharged++
				continue
			}
			k := fmt.Sprintf("nil|%s|%s|%s", fname(fn), u.kind, u.v.Type().String())
			cnt[k]++
			if cnt[k] > 1 {
				k += fmt.Sprintf("#%d", cnt[k])
			}
			r.find(k, p.posOf(u.in), "%s in %s: cannot show that %s is not nil; calling context%s", u.kind, fname(fn), u.v.Name(), trail)
		}
	}
	n.basis(func(in ssa.Instruction, what string) {
		r.Discharged--
		r.find("basis|"+fname(in.Parent())+"|"+what, p.posOf(in), "%s in %s", what, fname(in.Parent()))
	}, func() { r.Obligations++; r.Discharged++ })
	r.count("obligations", r.Obligations)
	r.count("discharged", r.Discharged)
	r.count("fields never nil", len(n.fields))
	r.atLeast("obligations", 1000)
}

// configOnly: an exported function that the server itself does not call, or a
// helper of such functions.
func (n *nilEng) configOnly(fn *ssa.Function, d int) bool {
	cs := n.callers(fn)
	if len(cs) == 0 {
		return token.IsExported(fn.Name()) && fn.Parent() == nil
	}
	for _, c := range cs {
		if _, ok := c.(*ssa.Call); !ok || d == 0 || !n.configOnly(c.Parent(), d-1) {
			return false
		}
	}
	return true
}
