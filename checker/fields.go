package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// A field is known by the name it had when the rules were written. When that
// name is gone the field in its place, of its type, is the one meant: a
// renamed field is no reason for an alarm.

// fieldName: the name the rules know field i of a type by.
func fieldName(t types.Type, i int) string {
	t = derefType(t)
	s, ok := t.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return ""
	}
	own := s.Field(i).Name()
	key := strings.TrimPrefix(typeKey(types.Unalias(t)), modPath+"/")
	base, ok := baseFields[key]
	if !ok {
		return own
	}
	known := map[string]bool{}
	for _, b := range base {
		known[b[0]] = true
	}
	if known[own] {
		return own
	}
	here := map[string]bool{}
	for j := 0; j < s.NumFields(); j++ {
		here[s.Field(j).Name()] = true
	}
	typ := s.Field(i).Type().String()
	if i < len(base) && !here[base[i][0]] && base[i][1] == typ {
		return base[i][0]
	}
	var gone []string
	for _, b := range base {
		if !here[b[0]] && b[1] == typ {
			gone = append(gone, b[0])
		}
	}
	n := 0
	for j := 0; j < s.NumFields(); j++ {
		if !known[s.Field(j).Name()] && s.Field(j).Type().String() == typ {
			n++
		}
	}
	if n == 1 && len(gone) == 1 {
		return gone[0]
	}
	return own
}

// fieldIs: field i is the one called name.
func fieldIs(t types.Type, i int, name string) bool {
	s, ok := derefType(t).Underlying().(*types.Struct)
	return ok && (s.Field(i).Name() == name || fieldName(t, i) == name)
}

// dumpFields prints the table of names.
func (p *Prog) dumpFields() {
	var out []string
	for _, q := range p.Pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			o, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := o.Type().Underlying().(*types.Struct)
			if !ok || s.NumFields() == 0 {
				continue
			}
			l := ""
			for i := 0; i < s.NumFields(); i++ {
				l += fmt.Sprintf("{%q, %q}, ", s.Field(i).Name(), s.Field(i).Type().String())
			}
			out = append(out, fmt.Sprintf("\t%q: {%s},", strings.TrimPrefix(typeKey(o.Type()), modPath+"/"), strings.TrimSuffix(l, ", ")))
		}
	}
	sort.Strings(out)
	fmt.Printf("package main\n\n// Written by ggverif -fields.\nvar baseFields = map[string][][2]string{\n%s\n}\n", strings.Join(out, "\n"))
}
