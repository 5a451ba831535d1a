package main

// Mutex discipline: every lock is released on every path, never taken twice,
// never released unheld, taken in one global order, and nothing waits for a
// peer, a timer or another goroutine while holding one.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rootless: functions nothing in the repository calls or starts, goroutine
// entries and HTTP handlers.
func (p *Prog) rootless() (out []*ssa.Function) {
	gos := p.goTargets()
	for _, f := range p.Funcs {
		if f.Blocks == nil || !p.isRepoFunc(f) {
			continue
		}
		if len(gos[f]) > 0 {
			out = append(out, f)
			continue
		}
		called := false
		for _, c := range p.Callers(f) {
			if p.isRepoFunc(c.Parent()) {
				called = true
			}
		}
		if !called {
			out = append(out, f)
		}
	}
	sortFuncs(out)
	return
}

// waits recognises operations that may wait without bound for a peer, a timer
// or another goroutine.
func waits(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Send:
		return "sends on a channel"
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "receives from a channel"
		}
		return ""
	case *ssa.Select:
		if x.Blocking {
			return "waits in a select"
		}
		return ""
	}
	com := callOf(in)
	if com == nil {
		return ""
	}
	n := calleeFull(com)
	switch n {
	case "time.Sleep", "(*sync.WaitGroup).Wait", "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "io.Copy", "io.CopyN", "ioutil.ReadAll":
		return "calls " + n
	}
	var name string
	var recv types.Type
	switch {
	case com.IsInvoke():
		name, recv = com.Method.Name(), com.Value.Type()
	case com.StaticCallee() != nil && com.Signature().Recv() != nil:
		name, recv = com.StaticCallee().Name(), com.Signature().Recv().Type()
	default:
		if strings.HasPrefix(n, "net.Dial") || n == "net.Listen" && false {
			return "calls " + n
		}
		return ""
	}
	nt, ok := derefType(recv).(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return ""
	}
	path := nt.Obj().Pkg().Path()
	net := path == "net" || path == "net/http" || path == "bufio" || strings.HasSuffix(path, "/easyio") || strings.HasSuffix(path, "/broadcast") || path == "os/exec"
	if !net {
		return ""
	}
	for _, m := range []string{"Read", "Accept", "Dial", "ListenAndServe", "Serve", "Do", "Wait"} {
		if strings.HasPrefix(name, m) && !strings.HasPrefix(name, "Done") {
			return "calls " + typeShort(recv) + "." + name
		}
	}
	return ""
}

func init() {
	register("C12", "other", func(p *Prog, r *Report) {
		r.Rule = "typestate exploration of every function nothing calls, every goroutine and every HTTP handler, with one automaton per mutex: no lock is taken while held, none is released unheld or still held at the end, condition variables are waited on with their lock only, no operation that waits for a peer, a timer or another goroutine runs under a lock, writes to a peer run only under locks that guard nothing else, and the order in which nested locks are taken is acyclic"
		r.Assume = append(r.Assume,
			"a lock is identified by the struct field or variable it lives in",
			"file operations and writes to UDP sockets complete")
		keys := map[string]int{}
		var names []string
		idx := func(k string) string {
			i, ok := keys[k]
			if !ok {
				i = len(names)
				keys[k] = i
				names = append(names, k)
			}
			return fmt.Sprintf("m%02d", i)
		}
		// the mutexes condition variables release
		condLock := map[string]bool{"F:sync.Cond.1": true}
		ops := 0
		for _, f := range p.Funcs {
			if !p.isRepoFunc(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if lo, ok := syncOp(c.Common()); ok {
						if lo.op != "Wait" {
							idx(lo.key)
						}
						ops++
					}
					if calleeFull(c.Common()) == "sync.NewCond" {
						a := c.Common().Args[0]
						if mi, ok := a.(*ssa.MakeInterface); ok {
							a = mi.X
						}
						if fa, ok := a.(*ssa.FieldAddr); ok {
							condLock[classOf(fa).class] = true
						}
					}
				}
			}
		}
		short := func(q string) string { return p.slotName(names[keys2(q)]) }
		edges := map[string]map[string]string{}
		type section struct{ write, bare string }
		sections := map[string]*section{}
		sec := func(m string) *section {
			s := sections[m]
			if s == nil {
				s = &section{}
				sections[m] = s
			}
			return s
		}
		held := func(q string) (out []string) {
			for _, kv := range strings.Split(q, ",") {
				if len(kv) > 4 && kv[0] == 'm' && kv[3] == '=' {
					out = append(out, kv[:3])
				}
			}
			return
		}
		checked := map[string]bool{}
		dec := func(in ssa.Instruction) {
			checked[p.posOf(in)] = true
		}
		where := func(in ssa.Instruction) ssa.Instruction {
			if d, ok := in.(deferredCall); ok {
				return d.Defer
			}
			return in
		}
		pr := &PathRule{tracked: map[string][]AV{}}
		pr.isEvent = func(in ssa.Instruction) bool {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := syncOp(c.Common()); ok {
					return true
				}
			}
			return waits(in) != "" || peerWrite(in)
		}
		pr.event = func(px *PX, in ssa.Instruction, st *PState) ([]POut, bool) {
			switch in.(type) {
			case *ssa.Go, *ssa.Defer:
				return nil, false
			}
			w := where(in)
			if com := callOf(in); com != nil {
				if lo, ok := syncOp(com); ok && calleeFull(com) != "(*sync.WaitGroup).Wait" {
					dec(w)
					if lo.op == "Wait" {
						n := 0
						for _, m := range held(st.q) {
							if condLock[names[keys2(m)]] {
								n++
							} else {
								px.report("wait|"+fname(w.Parent())+"|"+short(m), w, "waits on a condition variable while holding %s, which the wait does not release", short(m))
							}
						}
						if n == 0 {
							px.report("wait|"+fname(w.Parent()), w, "waits on a condition variable without holding its lock")
						}
						return nil, false
					}
					m := idx(lo.key)
					cur := qget(st.q, m)
					switch lo.op {
					case "Lock", "RLock":
						if cur != "" && !(lo.op == "RLock" && cur[0] == 'R') {
							px.report("twice|"+fname(w.Parent())+"|"+short(m), w, "%s is locked while this goroutine already holds it: it deadlocks with itself", short(m))
							return nil, false
						}
						for _, h := range held(st.q) {
							if edges[h] == nil {
								edges[h] = map[string]string{}
							}
							if _, ok := edges[h][m]; !ok {
								edges[h][m] = p.posOf(w)
							}
						}
						st.q = qset(st.q, m, lo.op[:1]+"0")
					case "Unlock", "RUnlock":
						if cur == "" {
							px.report("unheld|"+fname(w.Parent())+"|"+short(m), w, "%s may be released here without being held", short(m))
							return nil, false
						}
						if (lo.op == "RUnlock") != (cur[0] == 'R') {
							px.report("mode|"+fname(w.Parent())+"|"+short(m), w, "%s of %s, which is held the other way", lo.op, short(m))
						}
						if cur[1] == '1' {
							sec(m)
						} else if sec(m).bare == "" {
							sec(m).bare = p.posOf(w)
						}
						st.q = qset(st.q, m, "")
					}
					return nil, false
				}
			}
			hs := held(st.q)
			if len(hs) == 0 {
				if s := waits(in); s != "" || peerWrite(in) {
					dec(w)
				}
				return nil, false
			}
			if s := waits(in); s != "" {
				dec(w)
				for _, m := range hs {
					px.report("blocks|"+fname(w.Parent())+"|"+short(m), w, "%s while holding %s: everyone who needs the lock waits with it", s, short(m))
				}
			}
			if peerWrite(in) && !strings.Contains(calleeFull(callOf(in)), "UDP") {
				dec(w)
				for _, m := range hs {
					if sec(m).write == "" {
						sec(m).write = p.posOf(w)
					}
					v := qget(st.q, m)
					st.q = qset(st.q, m, v[:1]+"1")
				}
			}
			return nil, false
		}
		px := newPX(p, r, pr)
		roots := 0
		for _, f := range p.rootless() {
			if !px.isRelevant(f) {
				continue
			}
			roots++
			for _, o := range px.Root(f, "", map[string]AV{}, nil) {
				for _, m := range held(o.q) {
					r.find("left|"+fname(f)+"|"+short(m), p.pos(f.Pos()), "%s can return with %s still locked", fname(f), short(m))
				}
			}
		}
		var ms []string
		for m := range sections {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if s := sections[m]; s.write != "" && s.bare != "" {
				r.find("shared|"+short(m), s.write, "a peer is written to while holding %s, which also guards sections that write nothing (%s): a slow peer stalls them", short(m), s.bare)
			}
		}
		// cycles in the order
		var path []string
		on, done := map[string]bool{}, map[string]bool{}
		var dfs func(m string)
		dfs = func(m string) {
			if on[m] {
				i := 0
				for path[i] != m {
					i++
				}
				var s []string
				for j := i; j < len(path); j++ {
					nx := m
					if j+1 < len(path) {
						nx = path[j+1]
					}
					s = append(s, short(path[j])+" then "+short(nx)+" at "+edges[path[j]][nx])
				}
				r.find("order|"+short(m), edges[path[len(path)-1]][m], "locks are taken in a cyclic order: %s", strings.Join(s, "; "))
				return
			}
			if done[m] {
				return
			}
			on[m] = true
			path = append(path, m)
			for _, n := range sortedKeys(edges[m]) {
				dfs(n)
			}
			path = path[:len(path)-1]
			on[m] = false
			done[m] = true
		}
		for _, m := range sortedKeys(edges) {
			dfs(m)
		}
		r.count("mutexes", len(names))
		r.count("mutex operations", ops)
		r.count("entry points explored", roots)
		r.count("path outcomes", px.Paths)
		r.count("operations reached", len(checked))
		r.Obligations = ops + len(checked)
		r.Discharged = ops + len(checked)
		for _, m := range sortedKeys(edges) {
			for n, at := range edges[m] {
				r.sample("order: %s before %s (%s)", short(m), short(n), at)
			}
		}
		r.atLeast("mutex operations", 20)
		r.atLeast("operations reached", 30)
	})
}

func keys2(m string) (i int) { fmt.Sscanf(m, "m%d", &i); return }
