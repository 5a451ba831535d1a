// ggverif decides the properties of /verif/properties.jsonl from the source of
// the repository: it loads and type-checks the tree, builds SSA and a call
// graph, and runs one static rule per property.  It never executes the code.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A Finding is one construct that breaks (or is not shown to satisfy) a rule.
type Finding struct {
	Key   string // rule|function|construct: stable under edits elsewhere
	Where string // file:line
	Msg   string
}

// A Report is what one rule did on this run.
type Report struct {
	Prop     string
	Findings []Finding
	Counts   map[string]int // what was analysed
	Samples  []string
	Rule     string
	Assume   []string
	// obligations of proof-level rules
	Obligations, Discharged int
}

func (r *Report) find(key, where, f string, a ...interface{}) {
	r.Findings = append(r.Findings, Finding{key, where, fmt.Sprintf(f, a...)})
}
func (r *Report) count(k string, n int) {
	if r.Counts == nil {
		r.Counts = map[string]int{}
	}
	r.Counts[k] += n
}

// atLeast guards against a rule that passes because it matched nothing.
func (r *Report) atLeast(k string, n int) {
	if r.Counts[k] < n {
		r.find("coverage|"+k, "-", "only %d instances of %q were found, at least %d are expected: the rule no longer sees the code it judges", r.Counts[k], k, n)
	}
}
func (r *Report) sample(f string, a ...interface{}) {
	if len(r.Samples) < 60 {
		r.Samples = append(r.Samples, fmt.Sprintf(f, a...))
	}
}

type ruleFn func(p *Prog, r *Report)

type ruleDef struct {
	id    string
	level string
	run   ruleFn
}

var rules = map[string]*ruleDef{}

func register(id, level string, run ruleFn) { rules[id] = &ruleDef{id, level, run} }

func runRule(d *ruleDef, p *Prog) (r *Report) {
	r = &Report{Prop: d.id, Counts: map[string]int{}}
	defer func() {
		if x := recover(); x != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 24 {
				st = st[:24]
			}
			r.find("internal|panic", "-", "the analysis could not complete: %v\n%s", x, strings.Join(st, "\n"))
		}
	}()
	d.run(p, r)
	return r
}

func main() {
	repo := flag.String("repo", "/repo", "")
	home := flag.String("home", "/verif", "")
	prop := flag.String("prop", "", "property id, comma separated, or all")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "")
	fields := flag.Bool("fields", false, "print the table of field names")
	dev := flag.Bool("dev", false, "print findings only, write nothing")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	start := time.Now()
	var ids []string
	if *prop == "all" {
		for id := range rules {
			ids = append(ids, id)
		}
	} else {
		ids = strings.Split(*prop, ",")
	}
	sort.Strings(ids)
	p, err := load(*repo)
	if *fields && err == nil {
		p.dumpFields()
		return
	}
	bad := false
	for _, id := range ids {
		d := rules[id]
		if d == nil {
			fmt.Printf("no rule for property %q\n", id)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, "-")
			bad = true
			continue
		}
		t0 := time.Now()
		var r *Report
		if err != nil {
			r = &Report{Prop: id, Counts: map[string]int{}}
			r.find("load", "-", "the repository cannot be analysed: %v", err)
		} else {
			p.Tier = *tier
			r = runRule(d, p)
		}
		wall := time.Since(t0)
		if len(ids) == 1 {
			wall = time.Since(start)
		}
		if finish(r, d, *home, *tier, *dev, wall, p) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

// known-findings file: "finding: property=ID key=KEY :: text"
func knownFindings(home, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(home, "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" key=")
		if i := strings.Index(l, " :: "); i > 0 {
			m[l[:i]] = l[i+4:]
		}
	}
	return m
}

func finish(r *Report, d *ruleDef, home, tier string, dev bool, wall time.Duration, p *Prog) (bad bool) {
	known := knownFindings(home, r.Prop)
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	var open []Finding
	var kn []string
	seenKnown := map[string]bool{}
	for _, f := range r.Findings {
		if t, ok := known[f.Key]; ok {
			if !seenKnown[f.Key] {
				kn = append(kn, fmt.Sprintf("KNOWN-FINDING: property=%s %s", r.Prop, t))
			}
			seenKnown[f.Key] = true
			continue
		}
		open = append(open, f)
	}
	for _, l := range kn {
		fmt.Println(l)
	}
	ks := make([]string, 0, len(r.Counts))
	for k := range r.Counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var cs []string
	for _, k := range ks {
		cs = append(cs, fmt.Sprintf("%s=%d", k, r.Counts[k]))
	}
	fmt.Printf("property=%s analysed: %s (%.1fs)\n", r.Prop, strings.Join(cs, ", "), wall.Seconds())
	for _, f := range open {
		fmt.Printf("  [%s] %s: %s\n", f.Key, f.Where, f.Msg)
	}
	replay := filepath.Join(home, "evidence", r.Prop+".replay.txt")
	if !dev {
		writeEvidence(r, d, home, tier, wall, len(open), kn, p)
		_ = os.Remove(replay)
	}
	if len(open) > 0 {
		if !dev {
			var b strings.Builder
			fmt.Fprintf(&b, "property %s\nrule: %s\n", r.Prop, r.Rule)
			for _, f := range open {
				fmt.Fprintf(&b, "%s\n  at %s\n  %s\n", f.Key, f.Where, f.Msg)
			}
			_ = os.WriteFile(replay, []byte(b.String()), 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
		return true
	}
	return false
}

func writeEvidence(r *Report, d *ruleDef, home, tier string, wall time.Duration, viol int, kn []string, p *Prog) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation": r.Rule,
		"analysed":    r.Counts,
		"samples":     r.Samples,
		"known":       kn,
	}
	if p != nil {
		cov["packages"] = len(p.Pkgs)
		cov["files"] = p.Files
		cov["functions"] = len(p.Funcs)
	}
	if d.level == "proof" {
		cov["obligations"] = r.Obligations
		cov["discharged"] = r.Discharged
		cov["checker_cmd"] = "./check.sh " + r.Prop
		cov["trusted_base"] = []string{"go/types and golang.org/x/tools/go/ssa", "the abstract domain in /verif/checker", "the contracts of the Go standard library written in the checker"}
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": d.level,
		"coverage": cov, "wall_s": wall.Seconds(), "assumptions": r.Assume, "violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return
	}
	_ = os.MkdirAll(filepath.Join(home, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(home, "evidence", r.Prop+".json"), append(b, '\n'), 0o644)
}
