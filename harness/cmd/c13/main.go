// C13: version specifiers match exactly the versions they denote.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep345"
	"github.com/datawire/ocibuild/pkg/python/pep440"

	"verif/h"
)

type verdict struct {
	Skip, Ok bool
	Match    []bool
	N        int
	Model    interface{}
}

var spaces = []string{"", "", "", " ", "  ", "\t", "\n", " \t ", "\r\n", "\f", "\v"}

func ws(t *h.T) string { return spaces[t.Intn(len(spaces))] }

func genSpec(t *h.T, pool []string, pep345 bool) string {
	n := t.Intn(4)
	if t.P(0.6) {
		n = 1
	}
	var cls []string
	for i := 0; i < n; i++ {
		v := pool[t.Intn(len(pool))]
		if t.P(0.3) {
			v = t.NearVersion(v)
		}
		var op string
		if pep345 {
			op = t.Pick("", "", "<", ">", "<=", ">=", "==", "!=")
			if t.P(0.02) {
				op = t.Pick("~=", "===", "=", "=>", "<>", "!")
			}
		} else {
			op = t.Pick("~=", "==", "==", "!=", "<=", ">=", "<", ">")
			if t.P(0.03) {
				op = t.Pick("", "===", "=", "=>", "<>", "!", "~", "=<", "><")
			}
		}
		if !(op == "==" || op == "!=") || pep345 {
			if t.P(0.97) {
				if i := strings.IndexByte(v, '+'); i >= 0 {
					v = v[:i]
				}
			}
		}
		suffix := ""
		if !pep345 && (op == "==" || op == "!=") && t.P(0.5) {
			suffix = ".*"
			if t.P(0.9) {
				if i := strings.IndexByte(v, '+'); i >= 0 {
					v = v[:i]
				}
				if i := strings.Index(strings.ToLower(v), "dev"); i > 0 {
					v = strings.TrimRight(v[:i], ".-_")
				}
			}
		} else if t.P(0.03) {
			suffix = t.Pick(".*", "*", ".", ".*.1", ".x", " .", "-")
		}
		// whitespace between a version and its wildcard is not generated: PEP 440 is silent
		v = strings.TrimSpace(v)
		cls = append(cls, ws(t)+op+ws(t)+v+suffix+ws(t))
	}
	sep := ","
	s := strings.Join(cls, sep)
	if !pep345 && t.P(0.1) {
		s = t.Pick(",", ", ,", " , ") + s + t.Pick("", ",", " ,")
	}
	if pep345 && t.P(0.03) && s != "" {
		s = "," + s + ","
	}
	return s
}

func shape(v pep440.Version) string {
	s := ""
	if v.Epoch != 0 {
		s += "e"
	}
	s += fmt.Sprint("r", len(v.Release))
	if v.Pre != nil {
		s += v.Pre.L
	}
	if v.Post != nil {
		s += "post"
	}
	if v.Dev != nil {
		s += "dev"
	}
	if v.Local != nil {
		s += "+"
	}
	return s
}

func parsePool(t *h.T, cand []string) ([]string, []pep440.Version) {
	var strs []string
	var vs []pep440.Version
	for _, s := range cand {
		if v, err := pep440.ParseVersion(s); err == nil {
			strs = append(strs, s)
			vs = append(vs, *v)
		}
	}
	return strs, vs
}

func run(t *h.T, pep345mode bool) {
	o := h.VersionOpts{NoSpace: true, NoBig: t.P(0.9), NoLocal: pep345mode}
	cand := []string{t.GenVersion(o)}
	for len(cand) < 24 {
		s := cand[t.Intn(len(cand))]
		if t.P(0.85) {
			s = t.NearVersion(s)
		} else {
			s = t.GenVersion(o)
		}
		if pep345mode {
			if i := strings.IndexByte(s, '+'); i >= 0 {
				s = s[:i]
			}
		}
		if len(s) < 40 {
			cand = append(cand, s)
		}
	}
	strs, vs := parsePool(t, cand)
	if len(strs) == 0 {
		return
	}
	var specs []string
	for i := 0; i < 25; i++ {
		specs = append(specs, genSpec(t, strs, pep345mode))
	}
	judge(t, pep345mode, specs, strs, vs)
}

func judge(t *h.T, pep345mode bool, specs, strs []string, vs []pep440.Version) {
	t.Inputf(true, "pep345=%v specs=%q versions=%q", pep345mode, specs, strs)
	var want []verdict
	t.Py(h.SpecOracle, map[string]interface{}{"pep345": pep345mode, "specs": specs, "versions": strs}, &want)
	for i, spec := range specs {
		w := want[i]
		if w.Skip {
			continue
		}
		if w.Model != nil {
			// a self-check of the model, not a verdict
			t.Observe("model_and_packaging_differ", 1)
			t.State("model_and_packaging_differ", fmt.Sprint(w.Model))
		}
		if pep345mode {
			check345(t, spec, w, strs, vs)
		} else {
			check440(t, spec, w, strs, vs)
		}
	}
}

func check440(t *h.T, spec string, w verdict, strs []string, vs []pep440.Version) {
	got, err := pep440.ParseSpecifier(spec)
	if (err == nil) != w.Ok {
		t.Failf("specifier %q: well-formed=%v, but parsing gives %v, %v", spec, w.Ok, got, err)
	}
	if err != nil {
		t.Observe("refused", 1)
		return
	}
	if len(got) != w.N {
		t.Failf("specifier %q has %d clauses, parsed %d", spec, w.N, len(got))
	}
	back, err := pep440.ParseSpecifier(got.String())
	if err != nil {
		t.Failf("specifier %q is formatted as %q, which is refused: %v", spec, got, err)
	}
	if back.String() != got.String() || !reflect.DeepEqual(ops(back), ops(got)) {
		t.Failf("specifier %q is formatted as %q, which reads as %q", spec, got, back)
	}
	// the same clauses in another order
	perm := make(pep440.Specifier, len(got))
	for i, j := range t.Perm(len(got)) {
		perm[i] = got[j]
	}
	for i, v := range vs {
		if m := got.Match(v); m != w.Match[i] {
			t.Failf("%q matches %q: got %v, want %v", spec, strs[i], m, w.Match[i])
		}
		if back.Match(v) != w.Match[i] {
			t.Failf("%q, formatted as %q, means something else for %q", spec, got, strs[i])
		}
		if perm.Match(v) != w.Match[i] {
			t.Failf("%q with its clauses reordered means something else for %q", spec, strs[i])
		}
		all := true
		for _, cl := range got {
			all = all && cl.Match(v)
		}
		if all != w.Match[i] {
			t.Failf("the clauses of %q separately mean something else for %q", spec, strs[i])
		}
		if len(got) == 1 {
			t.State("op/spec/candidate", fmt.Sprintf("%s %s %s=%v", got[0].CmpOp, shape(got[0].Version), shape(v), w.Match[i]))
			t.Observe(fmt.Sprintf("%s %v", got[0].CmpOp, w.Match[i]), 1)
		}
	}
	t.Observe("specifiers", 1)
	t.Observe("matches", len(vs))
}

func ops(s pep440.Specifier) []string {
	var r []string
	for _, c := range s {
		r = append(r, c.CmpOp.String()+" "+c.Version.String())
	}
	return r
}

func check345(t *h.T, spec string, w verdict, strs []string, vs []pep440.Version) {
	got, err := pep345.ParseVersionSpecifier(spec)
	if (err == nil) != w.Ok {
		t.Failf("Requires-Python %q: well-formed=%v, but parsing gives %v, %v", spec, w.Ok, got, err)
	}
	if err != nil {
		t.Observe("refused345", 1)
	}
	for i, v := range vs {
		have, err2 := pep345.HaveRequiredPython(v, spec)
		if (err2 == nil) != w.Ok {
			t.Failf("Requires-Python %q: HaveRequiredPython: %v, %v", spec, have, err2)
		}
		if err2 != nil {
			if have {
				t.Failf("Requires-Python %q: satisfied and an error", spec)
			}
			continue
		}
		if m := got.Match(v); m != w.Match[i] || have != w.Match[i] {
			t.Failf("Requires-Python %q satisfied by %q: got %v/%v, want %v", spec, strs[i], m, have, w.Match[i])
		}
		if len(got) == 1 {
			t.State("op345", fmt.Sprintf("%s %s %s=%v", got[0].CmpOp, shape(got[0].Version), shape(v), w.Match[i]))
			t.Observe(fmt.Sprintf("345 %s %v", got[0].CmpOp, w.Match[i]), 1)
		}
		t.Observe("matches345", 1)
	}
}

func main() {
	var req []string
	for _, op := range []string{"~=", "strict ==", "prefix ==", "strict !=", "prefix !=", "<=", ">=", "<", ">"} {
		req = append(req, op+" true", op+" false")
	}
	for _, op := range []string{"==", "!=", "<=", ">=", "<", ">"} {
		req = append(req, "345 "+op+" true", "345 "+op+" false")
	}
	h.Main(h.Config{
		ID:          "C13",
		Rule:        "Specifiers of up to three clauses over pools of near-identical versions, with every operator, wildcards, odd whitespace, stray commas and malformed operators, each matched against the whole pool; plus the full grid of operators over a grid of version shapes. Judged by a model on packaging's version order that is itself checked against packaging's specifiers. A case is one pool and is non-trivial when it holds a valid version.",
		Require:     append(req, "refused", "refused345", "specifiers"),
		Assumptions: []string{"the order of versions is packaging's (C12)", "< and > follow the version order on public versions, as the project's own tests pin (1.7a1 < 1.7)", "whitespace between a version and its wildcard is not judged", "Requires-Python is matched against versions without local label"},
	}, func(c *h.C) {
		c.Group("pep440", c.N(1500, 40000), func(t *h.T) { run(t, false) })
		c.Group("pep345", c.N(1000, 30000), func(t *h.T) { run(t, true) })
		shapes := []string{"1", "1.0", "1.1", "1.1.0", "1.1.1", "1.10", "1!1.1", "2", "0"}
		tails := []string{"", "a1", "rc1", ".post1", ".dev1", "a1.post1", "rc1.dev1", ".post1.dev1", "rc1.post1.dev1", "a1.dev0"}
		for _, mode := range []bool{false, true} {
			mode := mode
			c.Group(fmt.Sprintf("grid%v", mode), len(shapes)*len(tails), func(t *h.T) {
				var k int
				fmt.Sscanf(t.Name[strings.LastIndex(t.Name, "/")+1:], "%d", &k)
				sv := shapes[k%len(shapes)] + tails[k/len(shapes)]
				var cand []string
				for _, s := range shapes {
					for _, tl := range tails {
						cand = append(cand, s+tl)
						if !mode {
							cand = append(cand, s+tl+"+loc.1")
						}
					}
				}
				var specs []string
				for _, op := range []string{"", "~=", "==", "!=", "<=", ">=", "<", ">", "==="} {
					specs = append(specs, op+sv, op+sv+".*", " "+op+" "+sv+" ", op+sv+"+loc.1", op+sv+"+loc.2", op+sv+"+loc.1.*")
				}
				strs, vs := parsePool(t, cand)
				judge(t, mode, specs, strs, vs)
			})
		}
	})
}
