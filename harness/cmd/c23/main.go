// C23: wheel filenames and compatibility tags are understood exactly.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"

	"verif/h"
)

const oracle = `
from pip._vendor.packaging.version import Version, InvalidVersion
LIM = 2**63 - 1
def one(s):
    if not s.endswith(".whl"): return None
    p = s[:-4].split("-")
    if len(p) not in (5, 6) or not all(p): return None
    build = None
    if len(p) == 6:
        b = p[2]
        k = 0
        while k < len(b) and b[k] in "0123456789": k += 1
        if k == 0: return None
        build = [str(int(b[:k])), b[k:]]
    try:
        v = Version(p[1])
    except InvalidVersion:
        return None
    ns = [v.epoch] + list(v.release) + ([v.pre[1]] if v.pre else []) + ([v.post] if v.post is not None else []) + ([v.dev] if v.dev is not None else [])
    return {"dist": p[0], "version": str(v), "build": build, "tag": p[-3:], "big": max(ns) > LIM or (build is not None and int(build[0]) > LIM)}
def answer(req):
    return [one(s) for s in req]
`

type parsed struct {
	Dist, Version string
	Build         []string
	Tag           []string
	Big           bool
}

func part(t *h.T) string {
	return t.Pick("py3", "py2.py3", "cp310", "none", "abi3", "any", "linux_x86_64", "manylinux1_x86_64.manylinux2010_x86_64", "cp33.cp34.cp35", "x", "é", "1", "3a")
}

func build(t *h.T) string {
	return t.Pick("1", "0", "10", "007", "20210101123456", "1a", "1_a", "12.b", "1é", "9223372036854775807", "9223372036854775808", "1a2", "5+x", "2 x")
}

func checkParse(t *h.T, s string, w *parsed) {
	got, err := bdist.ParseFilename(s)
	if w == nil {
		if err == nil {
			t.Errorf("%q accepted: %+v", s, got)
		} else if got != nil {
			t.Errorf("%q: a result and an error", s)
		}
		t.Observe("refused", 1)
		return
	}
	if w.Big {
		t.Observe("beyond_64_bits", 1)
		if err == nil && (got.Version.String() != w.Version || got.BuildTag == nil || fmt.Sprint(got.BuildTag.Int) != w.Build[0]) {
			t.Errorf("%q: misread as %+v", s, got)
		}
		return
	}
	if err != nil {
		t.Errorf("%q refused: %v", s, err)
		return
	}
	if got.Distribution != w.Dist || got.Version.String() != w.Version {
		t.Errorf("%q: distribution %q version %q, want %q %q", s, got.Distribution, got.Version.String(), w.Dist, w.Version)
	}
	if (got.BuildTag == nil) != (w.Build == nil) {
		t.Errorf("%q: build tag %v, want %v", s, got.BuildTag, w.Build)
	} else if w.Build != nil && (fmt.Sprint(got.BuildTag.Int) != w.Build[0] || got.BuildTag.Str != w.Build[1]) {
		t.Errorf("%q: build tag %+v, want %q", s, got.BuildTag, w.Build)
	}
	if want := (pep425.Tag{Python: w.Tag[0], ABI: w.Tag[1], Platform: w.Tag[2]}); got.CompatibilityTag != want {
		t.Errorf("%q: tag %v, want %v", s, got.CompatibilityTag, want)
	}
	t.Observe("parsed", 1)
	if w.Build != nil {
		t.Observe("parsed_with_build", 1)
	}
	if strings.ContainsAny(w.Dist, ".") {
		return
	}
	regen, err := bdist.GenerateFilename(*got)
	if err != nil {
		t.Errorf("%q: parsed, but cannot be generated: %v", s, err)
		return
	}
	again, err := bdist.ParseFilename(regen)
	if err != nil || again.Version.String() != w.Version || again.CompatibilityTag != got.CompatibilityTag || again.BuildTag.Cmp(got.BuildTag) != 0 {
		t.Errorf("%q: generated as %q, which parses as %+v %v", s, regen, again, err)
	}
}

func parseCase(t *h.T) {
	var names []string
	for i := 0; i < 60; i++ {
		dist := t.Pick("foo", "Foo_Bar", "foo.bar", "a", "été", "foo_bar_baz", "zope.interface", "3to2")
		ver := t.GenVersion(h.VersionOpts{NoSpace: true})
		if t.P(0.9) {
			ver = strings.ReplaceAll(ver, "-", "_")
		}
		parts := []string{dist, ver}
		if t.P(0.4) {
			parts = append(parts, build(t))
		}
		parts = append(parts, part(t), part(t), part(t))
		suffix := ".whl"
		if t.P(0.25) {
			switch t.Intn(6) {
			case 0:
				parts = append(parts[:2], parts[3:]...)
			case 1:
				k := t.Intn(len(parts))
				parts[k] = ""
			case 2:
				suffix = t.Pick(".WHL", ".zip", "", ".whl.", ".whl\n", "whl", ".wh", ".whl ")
			case 3:
				parts = append(parts, "x")
			case 4:
				parts = append(append([]string{}, parts[:2]...), append([]string{t.Pick("x1", "a", "", "_1", "-1", "é1", "¹")}, parts[2:]...)...)
			case 5:
				parts[0] = t.Pick("", "a-b", " ", "-")
			}
		}
		names = append(names, strings.Join(parts, "-")+suffix)
	}
	t.Inputf(true, "%q", names)
	var want []*parsed
	t.Py(oracle, names, &want)
	for i, s := range names {
		checkParse(t, s, want[i])
		if t.Failed() {
			return
		}
	}
}

var reRun = regexp.MustCompile(`[-_.]+`)

func genCase(t *h.T) {
	for i := 0; i < 20; i++ {
		vs := t.GenVersion(h.VersionOpts{})
		v, err := pep440.ParseVersion(vs)
		if err != nil {
			continue
		}
		d := bdist.FileNameData{
			Distribution:     t.Pick("foo", "foo-bar", "Foo--._Bar", "a.b", "zope.interface", "été", "-", "f_", "x__y", "a b"),
			Version:          *v,
			CompatibilityTag: pep425.Tag{Python: part(t), ABI: part(t), Platform: part(t)},
		}
		bad := ""
		if t.P(0.5) {
			d.BuildTag = &bdist.BuildTag{Int: t.Intn(30), Str: t.Pick("", "", "a", "_b", "x1", "é", "+")}
		}
		if t.P(0.3) {
			switch t.Intn(8) {
			case 0:
				d.Distribution, bad = "", "empty distribution"
			case 1:
				d.CompatibilityTag.Python, bad = t.Pick("", "a-b", "-", "py3-none"), "python tag"
			case 2:
				d.CompatibilityTag.ABI, bad = t.Pick("", "a-b", "-"), "abi tag"
			case 3:
				d.CompatibilityTag.Platform, bad = t.Pick("", "a-b", "-"), "platform tag"
			case 4:
				d.BuildTag, bad = &bdist.BuildTag{Int: 1, Str: t.Pick("-", "a-b", "-1")}, "dash in the build tag"
			case 5:
				d.BuildTag, bad = &bdist.BuildTag{Int: 1, Str: t.Pick("2", "0a", "9")}, "build tag whose text begins with a digit"
			case 6:
				d.BuildTag, bad = &bdist.BuildTag{Int: -1 - t.Intn(5)}, "negative build number"
			case 7:
				pre := pep440.PreRelease{L: t.Pick("x", "gamma"), N: 1}
				d.Version.Pre, bad = &pre, "impossible version"
			}
		}
		bs, _ := json.Marshal(d)
		t.Inputf(true, "%s bad=%s", bs, bad)
		name, err := bdist.GenerateFilename(d)
		if bad != "" {
			if err == nil {
				t.Failf("%s: generated %q", bad, name)
			}
			if name != "" {
				t.Failf("%s: a name and an error", bad)
			}
			t.Observe("generate_refused", 1)
			t.State("refused for", bad)
			continue
		}
		if err != nil {
			t.Failf("refused: %v", err)
		}
		want := reRun.ReplaceAllString(d.Distribution, "_") + "-" + v.String()
		if d.BuildTag != nil {
			want += "-" + fmt.Sprint(d.BuildTag.Int) + d.BuildTag.Str
		}
		want += "-" + d.CompatibilityTag.Python + "-" + d.CompatibilityTag.ABI + "-" + d.CompatibilityTag.Platform + ".whl"
		if name != want {
			t.Failf("generated %q, want %q", name, want)
		}
		back, err := bdist.ParseFilename(name)
		if err != nil {
			t.Failf("generated %q, which does not parse: %v", name, err)
		}
		if back.Distribution != reRun.ReplaceAllString(d.Distribution, "_") || back.Version.Cmp(d.Version) != 0 || back.Version.String() != v.String() || back.CompatibilityTag != d.CompatibilityTag || (back.BuildTag == nil) != (d.BuildTag == nil) || (back.BuildTag != nil && *back.BuildTag != *d.BuildTag) {
			t.Failf("generated %q, which parses back as %+v", name, back)
		}
		t.Observe("generated", 1)
	}
}

func component(t *h.T, xs []string) string {
	n := 1
	if t.P(0.4) {
		n = 1 + t.Intn(3)
	}
	var ys []string
	for _, i := range t.Perm(len(xs))[:n] {
		ys = append(ys, xs[i])
	}
	return strings.Join(ys, ".")
}

func genTag(t *h.T) pep425.Tag {
	return pep425.Tag{Python: component(t, []string{"py2", "py3", "cp310", "p"}), ABI: component(t, []string{"none", "abi3", "cp310"}), Platform: component(t, []string{"any", "linux_x86_64", "win32"})}
}

func expand(tg pep425.Tag) []string {
	var r []string
	for _, a := range strings.Split(tg.Python, ".") {
		for _, b := range strings.Split(tg.ABI, ".") {
			for _, c := range strings.Split(tg.Platform, ".") {
				r = append(r, a+"-"+b+"-"+c)
			}
		}
	}
	sort.Strings(r)
	return r
}

func overlap(a, b pep425.Tag) bool {
	for _, x := range expand(a) {
		for _, y := range expand(b) {
			if x == y {
				return true
			}
		}
	}
	return false
}

func tagCase(t *h.T) {
	var inst pep425.Installer
	for i := t.Intn(7); i > 0; i-- {
		inst = append(inst, genTag(t))
	}
	for k := 0; k < 10; k++ {
		tg := genTag(t)
		t.Inputf(len(inst) > 1, "installer=%v tag=%v", inst, tg)
		var dec []string
		for _, d := range tg.Decompress() {
			dec = append(dec, d.String())
		}
		sort.Strings(dec)
		if fmt.Sprint(dec) != fmt.Sprint(expand(tg)) {
			t.Failf("%v expands to %v, want %v", tg, dec, expand(tg))
		}
		str := tg.Python + "-" + tg.ABI + "-" + tg.Platform
		if tg.String() != str {
			t.Failf("%+v prints as %q", tg, tg.String())
		}
		back, err := pep425.ParseTag(str)
		if err != nil || back != tg {
			t.Failf("%q parses as %v %v", str, back, err)
		}
		js, err := json.Marshal(tg)
		var back2 pep425.Tag
		if err != nil || json.Unmarshal(js, &back2) != nil || back2 != tg || string(js) != `"`+str+`"` {
			t.Failf("%v goes through JSON as %s, %v", tg, js, back2)
		}
		for _, b := range []string{tg.Python + "-" + tg.ABI, str + "-x", "", strings.ReplaceAll(str, "-", "_")} {
			if x, err := pep425.ParseTag(b); err == nil {
				t.Failf("%q parses as the tag %v", b, x)
			}
		}
		pref := 0
		for i, it := range inst {
			if pref == 0 && overlap(it, tg) {
				pref = i + 1
			}
		}
		if got := inst.Supports(tg); got != (pref > 0) {
			t.Failf("Supports(%v)=%v", tg, got)
		}
		got := inst.Preference(tg)
		if pref > 0 && got != pref {
			t.Failf("Preference(%v)=%d, want %d", tg, got, pref)
		}
		if pref == 0 && got <= len(inst) {
			t.Failf("Preference(%v)=%d, but it is not supported", tg, got)
		}
		other := []pep425.Tag{genTag(t), genTag(t)}[:t.Intn(3)]
		want := false
		for _, o := range other {
			for _, it := range inst {
				want = want || overlap(o, it)
			}
		}
		if pep425.Intersect(other, inst) != want || pep425.Intersect(inst, other) != want {
			t.Failf("Intersect(%v, %v) != %v", other, inst, want)
		}
		t.Observe(fmt.Sprintf("supported_%v", pref > 0), 1)
		t.State("preference", fmt.Sprint(pref, "/", len(inst)))
	}
}

func buildCase(t *h.T) {
	gen := func() *bdist.BuildTag {
		if t.P(0.15) {
			return nil
		}
		n := t.Intn(12)
		if t.P(0.2) {
			n = []int{0, 9, 10, 99, 100, 1 << 31, 1 << 32, 1<<63 - 1, 20210101123456}[t.Intn(9)]
		}
		return &bdist.BuildTag{Int: n, Str: t.Pick("", "", "a", "b", "ab", "_", "é", "A")}
	}
	for i := 0; i < 40; i++ {
		a, b := gen(), gen()
		want := 0
		switch {
		case a == nil && b == nil:
		case a == nil:
			want = -1
		case b == nil:
			want = 1
		default:
			want = big.NewInt(int64(a.Int)).Cmp(big.NewInt(int64(b.Int)))
			if want == 0 {
				want = strings.Compare(a.Str, b.Str)
			}
		}
		t.Inputf(a != nil && b != nil, "%+v %+v", a, b)
		got := a.Cmp(b)
		if got > 0 {
			got = 1
		} else if got < 0 {
			got = -1
		}
		if got != want {
			t.Failf("build tags %v and %v compare as %d, want %d", a, b, got, want)
		}
		t.Observe("build_pairs", 1)
	}
}

func main() {
	h.Main(h.Config{
		ID:          "C23",
		Rule:        "Wheel filenames over all version spellings, build tags, compressed and non-ASCII parts and one structural fault each, judged by an independent splitter and packaging's versions in CPython; generated filenames from data with and without an unparsable part; tags and installer lists over a small alphabet so that overlaps are common, judged by explicit expansion; pairs of build tags. Non-trivial: everything but single-element lists.",
		Require:     []string{"parsed", "parsed_with_build", "refused", "beyond_64_bits", "generated", "generate_refused", "supported_true", "supported_false", "build_pairs"},
		Assumptions: []string{"numbers beyond 64 bits may be refused, never misread", "whitespace inside filenames is not judged"},
	}, func(c *h.C) {
		c.Group("parse", c.N(1000, 30000), parseCase)
		c.Group("generate", c.N(1000, 30000), genCase)
		c.Group("tags", c.N(3000, 60000), tagCase)
		c.Group("build", c.N(300, 6000), buildCase)
	})
}
