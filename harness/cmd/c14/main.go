// C14: the best allowed candidate is selected.
package main

import (
	"bytes"
	"context"
	"fmt"
	"html"
	"io"
	"net/http"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pep592"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"

	"verif/h"
)

type excluder struct {
	t    *h.T
	excl []pep440.Version
}

func (e excluder) Allow(v pep440.Version) bool {
	e.t.Observe("allow_calls", 1)
	for _, x := range e.excl {
		if x.String() == v.String() {
			return false
		}
	}
	return true
}

func pool(t *h.T, n int) []string {
	o := h.VersionOpts{NoSpace: true, NoBig: true}
	o.NoLocal = t.P(0.7)
	cand := []string{t.GenVersion(o)}
	for len(cand) < n*2 {
		s := cand[t.Intn(len(cand))]
		if t.P(0.7) {
			s = t.NearVersion(s)
		} else {
			s = t.GenVersion(o)
		}
		if len(s) < 30 && (!o.NoLocal || !strings.Contains(s, "+")) {
			cand = append(cand, s)
		}
	}
	var ret []string
	for _, s := range cand {
		if _, err := pep440.ParseVersion(s); err == nil && len(ret) < n {
			ret = append(ret, s)
		}
	}
	return ret
}

func genSpec(t *h.T, vs []string) string {
	if t.P(0.3) || len(vs) == 0 {
		return ""
	}
	var cls []string
	for i := t.Intn(2); i >= 0; i-- {
		v := vs[t.Intn(len(vs))]
		if i := strings.IndexByte(v, '+'); i >= 0 {
			v = v[:i]
		}
		op := t.Pick("==", "!=", "<=", ">=", "<", ">", "~=", "<=", ">=")
		if op == "~=" && !strings.Contains(v, ".") {
			op = ">="
		}
		cls = append(cls, op+v)
	}
	s := strings.Join(cls, ",")
	if _, err := pep440.ParseSpecifier(s); err != nil {
		return ""
	}
	return s
}

func selectCase(t *h.T) {
	strs := pool(t, t.Intn(9))
	if strs == nil {
		strs = []string{}
	}
	spec := genSpec(t, strs)
	mode := t.Pick("nil", "all", "pre", "custom", "both", "pre")
	excluded := []int{}
	allowlist := []string{}
	vs := make([]pep440.Version, len(strs))
	for i, s := range strs {
		v, _ := pep440.ParseVersion(s)
		vs[i] = *v
	}
	var exVers []pep440.Version
	for i := range strs {
		if t.P(0.4) {
			exVers = append(exVers, vs[i])
		}
		if t.P(0.2) {
			allowlist = append(allowlist, strs[i])
		}
	}
	for i := range strs {
		for _, x := range exVers {
			if x.String() == vs[i].String() {
				excluded = append(excluded, i)
				break
			}
		}
	}
	if mode == "pre" && t.P(0.5) || mode == "both" && t.P(0.5) {
		allowlist = []string{}
	}
	var al []pep440.Version
	for _, s := range allowlist {
		v, _ := pep440.ParseVersion(s)
		al = append(al, *v)
	}
	var eb pep440.ExclusionBehavior
	switch mode {
	case "all":
		eb = pep440.AllowAll{}
		if t.P(0.3) {
			eb = pep440.MultiExcluder{}
		}
	case "pre":
		eb = pep440.ExcludePreReleases{AllowList: al}
		if t.P(0.3) {
			eb = pep440.MultiExcluder{eb, pep440.AllowAll{}}
		}
	case "custom":
		eb = excluder{t, exVers}
	case "both":
		a, b := pep440.ExclusionBehavior(pep440.ExcludePreReleases{AllowList: al}), pep440.ExclusionBehavior(excluder{t, exVers})
		if t.P(0.5) {
			a, b = b, a
		}
		eb = pep440.MultiExcluder{a, b}
	}
	t.Inputf(len(strs) > 1, "spec=%q versions=%q mode=%s excluded=%v allowlist=%q", spec, strs, mode, excluded, allowlist)
	var want struct {
		None, Fallback bool
		Best           []int
		Matching       int
	}
	t.Py(h.SpecOracle, map[string]interface{}{"select": true, "spec": spec, "versions": strs, "mode": mode, "excluded": excluded, "allowlist": allowlist}, &want)
	sp, err := pep440.ParseSpecifier(spec)
	if err != nil {
		t.Failf("%q: %v", spec, err)
	}
	for k := 0; k < 3; k++ {
		choices := make([]pep440.Version, len(vs))
		perm := t.Perm(len(vs))
		if k == 0 {
			for i := range perm {
				perm[i] = i
			}
		}
		for i, j := range perm {
			choices[i] = vs[j]
		}
		got := sp.Select(choices, eb)
		for i, j := range perm {
			if choices[i].String() != vs[j].String() {
				t.Failf("selecting changed the candidates")
			}
		}
		if want.None {
			if got != nil {
				t.Failf("nothing matches, but %s was selected", got)
			}
			t.Observe("select_none", 1)
			continue
		}
		if got == nil {
			t.Failf("nothing selected, want one of %v", want.Best)
		}
		ok := false
		for _, b := range want.Best {
			ok = ok || got.String() == vs[b].String()
		}
		if !ok {
			t.Failf("selected %s, want %s", got, vs[want.Best[0]])
		}
		t.Observe("select_some", 1)
		if want.Fallback {
			t.Observe("select_fallback", 1)
		}
		t.State("mode", fmt.Sprint(mode, " fallback=", want.Fallback, " matching=", want.Matching))
	}
}

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type link struct {
	Text     string `json:"text"`
	Yanked   bool   `json:"yanked"`
	Requires string `json:"requires"`
}

func wheelCase(t *h.T) {
	pys := []string{"cp310", "cp39", "py3", "py310", "py2", "py2.py3", "cp38"}
	abis := []string{"cp310", "abi3", "none", "cp39"}
	plats := []string{"any", "linux_x86_64", "manylinux1_x86_64", "manylinux2014_x86_64.manylinux_2_17_x86_64", "linux_x86_64.any", "win32", "macosx_11_0_arm64"}
	var tags pep425.Installer
	tagsJ := [][]string{}
	many := 1 + t.Intn(8)
	if t.P(0.05) { // real ones are this long
		many = 20 + t.Intn(300)
	}
	for i := many; i > 0; i-- {
		tg := pep425.Tag{Python: t.Pick(pys...), ABI: t.Pick(abis...), Platform: t.Pick(plats...)}
		if t.P(0.85) {
			tg.Python = strings.Split(tg.Python, ".")[0]
			tg.Platform = strings.Split(tg.Platform, ".")[0]
		}
		tags = append(tags, tg)
		tagsJ = append(tagsJ, []string{tg.Python, tg.ABI, tg.Platform})
	}
	var python string
	var pyv *pep440.Version
	if t.P(0.7) {
		python = t.Pick("3.10.0", "3.9.5", "3.8", "3.11.0rc2", "2.7.18")
		pyv, _ = pep440.ParseVersion(python)
	}
	vers := pool(t, 1+t.Intn(5))
	for i, v := range vers {
		vers[i] = strings.ReplaceAll(v, "-", "_")
		if _, err := pep440.ParseVersion(vers[i]); err != nil {
			vers[i] = "1.0"
		}
	}
	nl := t.Intn(10)
	links := []link{}
	var body strings.Builder
	body.WriteString("<!DOCTYPE html><html><body>\n")
	seen := map[string]bool{}
	for i := 0; i < nl; i++ {
		v := vers[t.Intn(len(vers))]
		if t.P(0.15) {
			v += ".0"
			if _, err := pep440.ParseVersion(v); err != nil {
				v = strings.TrimSuffix(v, ".0")
			}
		}
		build := ""
		if t.P(0.4) {
			build = "-" + t.Pick("1", "2", "10", "9", "1a", "1b", "2a", "0", "20210101", "07")
		}
		var p, a, f string
		if t.P(0.8) {
			tg := tags[t.Intn(len(tags))]
			p, a, f = tg.Python, tg.ABI, tg.Platform
			if t.P(0.3) {
				p = p + "." + t.Pick("py2", "cp310", "zz")
			}
		} else {
			p, a, f = t.Pick(pys...), t.Pick(abis...), t.Pick(plats...)
		}
		l := link{Text: fmt.Sprintf("proj-%s%s-%s-%s-%s.whl", v, build, p, a, f), Yanked: t.P(0.3)}
		if t.P(0.08) {
			l.Text = t.Pick("proj-1.0.tar.gz", "proj-99.whl", "proj-99-notes", "proj-99-py3-none-any.whl.asc", "proj-99-x-py3-none-any.whl", "proj-zz-py3-none-any.whl")
		}
		if t.P(0.3) {
			l.Requires = t.Pick(">=3.6", ">=3.10", "<3", ">=2.7,<3.10", "!=3.9", ">=3.11", "3", "==3.9", "~=3.9", "bogus")
		}
		if seen[l.Text] {
			continue
		}
		seen[l.Text] = true
		links = append(links, l)
		fmt.Fprintf(&body, `<a href="../../f/%d/x.whl"`, len(links)-1)
		if l.Yanked {
			body.WriteString(t.Pick(` data-yanked`, ` data-yanked=""`, ` data-yanked="broken"`))
		}
		if l.Requires != "" {
			fmt.Fprintf(&body, ` data-requires-python="%s"`, html.EscapeString(l.Requires))
		}
		fmt.Fprintf(&body, ">%s</a><br>\n", html.EscapeString(l.Text))
	}
	body.WriteString("</body></html>\n")
	spec := genSpec(t, vers)
	t.Inputf(len(links) > 1, "spec=%q python=%q tags=%v links=%+v", spec, python, tags, links)
	var want []int
	t.Py(h.SpecOracle, map[string]interface{}{"links": links, "tags": tagsJ, "python": python, "spec": spec}, &want)
	sp, err := pep440.ParseSpecifier(spec)
	if err != nil {
		t.Failf("%q: %v", spec, err)
	}
	client := simple_repo_api.NewClient(pyv, tags)
	client.BaseURL = "http://index.invalid/simple/"
	client.HTTPClient = &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		t.Observe("index_requests", 1)
		return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader([]byte(body.String()))), Request: r}, nil
	})}
	got, err := client.SelectWheel(context.Background(), "proj", sp)
	if len(want) == 0 {
		if err == nil {
			t.Failf("no wheel qualifies, but %q was chosen", got.Text)
		}
		if got != nil {
			t.Failf("a link and an error")
		}
		t.Observe("wheel_none", 1)
		return
	}
	if err != nil {
		t.Failf("no wheel chosen (%v), want %q", err, links[want[0]].Text)
	}
	for _, w := range want {
		if got.Text == links[w].Text && strings.HasSuffix(got.HRef, fmt.Sprintf("/f/%d/x.whl", w)) {
			t.Observe("wheel_some", 1)
			if links[w].Yanked {
				t.Observe("wheel_yanked", 1)
			}
			if strings.Count(links[w].Text, "-") == 5 {
				t.Observe("wheel_build", 1)
			}
			return
		}
	}
	t.Failf("chose %q (%s), want %q", got.Text, got.HRef, links[want[0]].Text)
}

func yankCase(t *h.T) {
	vers := pool(t, 1+t.Intn(5))
	var links []pep503.FileLink
	yanked := map[string]bool{}
	for i, v := range vers {
		vers[i] = strings.ReplaceAll(v, "-", "_")
		if _, err := pep440.ParseVersion(vers[i]); err != nil {
			vers[i] = "1.0"
		}
	}
	for _, v := range vers {
		ver, _ := pep440.ParseVersion(v)
		k := ver.String()
		for i, prev := range vers {
			// equal versions share their fate here
			pv, _ := pep440.ParseVersion(prev)
			if pv.Cmp(*ver) == 0 {
				k = fmt.Sprint(i)
				break
			}
		}
		y, ok := yanked[k]
		if !ok {
			y = t.P(0.5)
			yanked[k] = y
		}
		l := pep503.Link{Text: "proj-" + v + "-py3-none-any.whl", DataAttrs: map[string]string{}}
		if y {
			l.DataAttrs["data-yanked"] = t.Pick("", "broken")
		}
		links = append(links, pep503.FileLink{Link: l})
		if t.P(0.25) { // another file of the version, yanked or not
			l := pep503.Link{Text: "proj-" + v + "-" + t.Pick("1-", "") + "cp39-cp39-any.whl", DataAttrs: map[string]string{}}
			if t.P(0.5) {
				l.DataAttrs["data-yanked"] = ""
			}
			links = append(links, pep503.FileLink{Link: l})
		}
		if t.P(0.2) {
			links = append(links, pep503.FileLink{Link: pep503.Link{Text: "proj-1.0.tar.gz", DataAttrs: map[string]string{"data-yanked": ""}}})
		}
	}
	t.Inputf(true, "%+v", links)
	eb := pep592.ExcludeYanked(links)
	for _, l := range links {
		if !strings.HasSuffix(l.Text, ".whl") {
			continue
		}
		v, _ := pep440.ParseVersion(strings.Split(l.Text, "-")[1])
		_, y := l.DataAttrs["data-yanked"]
		if pep592.IsYanked(l) != y {
			t.Failf("IsYanked is %v for %+v", !y, l.Link)
		}
		all := true // every file of the version is yanked
		for _, o := range links {
			if strings.HasSuffix(o.Text, ".whl") {
				ov, _ := pep440.ParseVersion(strings.Split(o.Text, "-")[1])
				if _, oy := o.DataAttrs["data-yanked"]; ov.Cmp(*v) == 0 && !oy {
					all = false
				}
			}
		}
		if eb.Allow(*v) == all {
			t.Failf("version %s: all yanked=%v, allowed=%v", v, all, eb.Allow(*v))
		}
		if y && !all {
			t.Observe("yanked_partly", 1)
		}
		t.Observe(fmt.Sprintf("yanked_%v", y), 1)
	}
	v, _ := pep440.ParseVersion("77!1")
	if !eb.Allow(*v) {
		t.Failf("a version without links is excluded")
	}
}

func main() {
	h.Main(h.Config{
		ID:          "C14",
		Rule:        "Random candidate sets of near-identical versions under random specifiers and exclusion behaviours (none, all, pre-releases with and without allow-list, caller-defined, both), each tried in three orders; and random index pages of wheels with yanked files, Requires-Python, build tags, compressed tags and non-wheel links under random platforms, served to the real client. Judged by a model in CPython on packaging's order. Non-trivial with two or more candidates.",
		Require:     []string{"select_some", "select_none", "select_fallback", "wheel_some", "wheel_none", "wheel_yanked", "wheel_build", "yanked_true", "yanked_false", "yanked_partly", "allow_calls"},
		Assumptions: []string{"when several links tie in version, tag and build number any of them may be chosen", "a pre-release that is not yanked is preferred to a yanked release"},
	}, func(c *h.C) {
		c.Group("select", c.N(30000, 400000), selectCase)
		c.Group("wheel", c.N(30000, 400000), wheelCase)
		c.Group("yank", c.N(400, 5000), yankCase)
	})
}
