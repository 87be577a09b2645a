// C12: version parsing and ordering follow PEP 440.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"k8s.io/apimachinery/pkg/util/intstr"

	"github.com/datawire/ocibuild/pkg/python/pep440"

	"verif/h"
)

// The reference is the packaging library that pip carries; numbers are sent as decimal strings.
const oracle = `
from pip._vendor.packaging.version import Version, InvalidVersion
def one(s):
    try:
        v = Version(s)
    except InvalidVersion:
        return None
    return {
        "norm": str(v), "public": v.public, "epoch": str(v.epoch), "release": [str(n) for n in v.release],
        "pre": None if v.pre is None else [v.pre[0], str(v.pre[1])],
        "post": None if v.post is None else str(v.post),
        "dev": None if v.dev is None else str(v.dev),
        "local": v.local, "isint": None if v._version.local is None else [isinstance(x, int) for x in v._version.local],
        "ispre": v.is_prerelease, "isdev": v.is_devrelease, "ispost": v.is_postrelease,
        "mmm": [str(v.major), str(v.minor), str(v.micro)],
    }
def rank(vs):
    uniq = sorted(set(vs))
    ix = {v: i for i, v in enumerate(uniq)}
    return [ix[v] for v in vs]
def answer(req):
    if "rank" in req:
        vs = [Version(s) for s in req["rank"]]
        return {"full": rank(vs), "public": rank([Version(v.public) for v in vs])}
    return [one(s) for s in req["parse"]]
`

type parsed struct {
	Norm, Public, Epoch string
	Release             []string
	Pre                 []string
	Post, Dev           *string
	Local               *string
	Isint               []bool
	Ispre               bool
	Mmm                 []string
}

func tooBig(p *parsed) bool {
	lim := new(big.Int).SetInt64(1<<63 - 1)
	chk := func(s string) bool {
		n, ok := new(big.Int).SetString(s, 10)
		return !ok || n.Cmp(lim) > 0
	}
	all := append([]string{p.Epoch}, p.Release...)
	if p.Pre != nil {
		all = append(all, p.Pre[1])
	}
	if p.Post != nil {
		all = append(all, *p.Post)
	}
	if p.Dev != nil {
		all = append(all, *p.Dev)
	}
	for _, s := range all {
		if chk(s) {
			return true
		}
	}
	return false
}

func str(n *int) string {
	if n == nil {
		return "none"
	}
	return fmt.Sprint(*n)
}

func strp(s *string) string {
	if s == nil {
		return "none"
	}
	return *s
}

func checkOne(t *h.T, s string, want *parsed) {
	v, err := pep440.ParseVersion(s)
	if want == nil {
		if err == nil {
			t.Errorf("%q is not a PEP 440 version but was accepted as %q", s, v)
		} else if v != nil {
			t.Errorf("%q: an error and a version", s)
		}
		t.Observe("rejected", 1)
		return
	}
	if tooBig(want) {
		t.Observe("beyond_64_bits", 1)
		if err == nil && v.String() != want.Norm {
			t.Errorf("%q: misread as %q", s, v)
		}
		return
	}
	if err != nil {
		t.Errorf("%q is a PEP 440 version (%s) but was refused: %v", s, want.Norm, err)
		return
	}
	t.Observe("accepted", 1)
	if got := v.String(); got != want.Norm {
		t.Errorf("%q: normalized to %q, PEP 440 says %q", s, got, want.Norm)
	}
	if got := v.PublicVersion.String(); got != want.Public {
		t.Errorf("%q: public version %q, PEP 440 says %q", s, got, want.Public)
	}
	var rel []string
	for _, n := range v.Release {
		rel = append(rel, fmt.Sprint(n))
	}
	pre, wpre := "none", "none"
	if v.Pre != nil {
		pre = fmt.Sprint(v.Pre.L, " ", v.Pre.N)
	}
	if want.Pre != nil {
		wpre = want.Pre[0] + " " + want.Pre[1]
	}
	var local []string
	for i, seg := range v.Local {
		local = append(local, seg.String())
		if i < len(want.Isint) && seg.Type == intstr.Int && !want.Isint[i] {
			t.Errorf("%q: local segment %d taken for a number", s, i)
		}
	}
	got := fmt.Sprintf("epoch=%d release=%s pre=%s post=%s dev=%s local=%s", v.Epoch, strings.Join(rel, "."), pre, str(v.Post), str(v.Dev), strings.Join(local, "."))
	wl := ""
	if want.Local != nil {
		wl = *want.Local
	}
	exp := fmt.Sprintf("epoch=%s release=%s pre=%s post=%s dev=%s local=%s", want.Epoch, strings.Join(want.Release, "."), wpre, strp(want.Post), strp(want.Dev), wl)
	if got != exp {
		t.Errorf("%q: parts %s, PEP 440 says %s", s, got, exp)
	}
	if got, exp := fmt.Sprint(v.Major(), v.Minor(), v.Micro()), strings.Join(want.Mmm, " "); got != exp {
		t.Errorf("%q: major/minor/micro %s, want %s", s, got, exp)
	}
	if v.IsPreRelease() != want.Ispre {
		t.Errorf("%q: IsPreRelease=%v", s, v.IsPreRelease())
	}
	final := want.Pre == nil && want.Post == nil && want.Dev == nil
	if v.PublicVersion.IsFinal() != final {
		t.Errorf("%q: public IsFinal=%v", s, v.PublicVersion.IsFinal())
	}
	if v.IsFinal() != (final && want.Local == nil) {
		t.Errorf("%q: IsFinal=%v", s, v.IsFinal())
	}
	n, err := v.Normalize()
	if err != nil || n.String() != want.Norm || n.Cmp(*v) != 0 || v.Cmp(*n) != 0 {
		t.Errorf("%q: normalizing is not idempotent: %v %v", s, n, err)
	}
	pn, err := v.PublicVersion.Normalize()
	if err != nil || pn.String() != want.Public || pn.Cmp(v.PublicVersion) != 0 {
		t.Errorf("%q: normalizing the public version is not idempotent: %v %v", s, pn, err)
	}
	back, err := pep440.ParseVersion(v.String())
	if err != nil || back.Cmp(*v) != 0 || v.Cmp(*back) != 0 || back.String() != v.String() {
		t.Errorf("%q: formatted as %q, which does not parse back to an equal version: %v %v", s, v.String(), back, err)
	}
	t.State("shape", fmt.Sprintf("e%v r%d p%v o%v d%v l%d", v.Epoch != 0, len(v.Release), v.Pre != nil, v.Post != nil, v.Dev != nil, len(v.Local)))
}

func sgn(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func mutate(t *h.T, s string) string {
	const alpha = "0123456789.abcdeoprstvw+-_! \t*=<>,"
	bs := []byte(s)
	for k := 1 + t.Intn(2); k > 0; k-- {
		switch t.Intn(4) {
		case 0:
			if len(bs) > 0 {
				i := t.Intn(len(bs))
				bs = append(bs[:i], bs[i+1:]...)
			}
		case 1:
			i := t.Intn(len(bs) + 1)
			bs = append(bs[:i], append([]byte{alpha[t.Intn(len(alpha))]}, bs[i:]...)...)
		case 2:
			if len(bs) > 0 {
				bs[t.Intn(len(bs))] = alpha[t.Intn(len(alpha))]
			}
		default:
			if len(bs) > 1 {
				i, j := t.Intn(len(bs)), t.Intn(len(bs))
				bs[i], bs[j] = bs[j], bs[i]
			}
		}
	}
	return string(bs)
}

func checkAll(t *h.T, strs []string) {
	var want []*parsed
	t.Py(oracle, map[string]interface{}{"parse": strs}, &want)
	for i, s := range strs {
		checkOne(t, s, want[i])
		if t.Failed() {
			return
		}
	}
}

func checkOrder(t *h.T, strs []string) {
	var ranks struct{ Full, Public []int }
	t.Py(oracle, map[string]interface{}{"rank": strs}, &ranks)
	vs := make([]pep440.Version, len(strs))
	for i, s := range strs {
		v, err := pep440.ParseVersion(s)
		if err != nil {
			t.Failf("%q: %v", s, err)
		}
		vs[i] = *v
	}
	for i := range vs {
		for j := range vs {
			if got, exp := sgn(vs[i].Cmp(vs[j])), sgn(ranks.Full[i]-ranks.Full[j]); got != exp {
				t.Failf("comparing %q with %q gives %d, PEP 440 says %d", strs[i], strs[j], got, exp)
			}
			if got, exp := sgn(vs[i].PublicVersion.Cmp(vs[j].PublicVersion)), sgn(ranks.Public[i]-ranks.Public[j]); got != exp {
				t.Failf("comparing the public parts of %q and %q gives %d, PEP 440 says %d", strs[i], strs[j], got, exp)
			}
			t.State("verdict", fmt.Sprint(sgn(ranks.Full[i]-ranks.Full[j])))
		}
	}
	t.Observe("pairs", len(vs)*len(vs))
	ix := t.Perm(len(vs))
	sort.SliceStable(ix, func(a, b int) bool { return vs[ix[a]].Cmp(vs[ix[b]]) < 0 })
	for k := 1; k < len(ix); k++ {
		if ranks.Full[ix[k-1]] > ranks.Full[ix[k]] {
			t.Failf("sorting puts %q before %q", strs[ix[k-1]], strs[ix[k]])
		}
	}
}

func main() {
	h.Main(h.Config{
		ID:          "C12",
		Rule:        "Version strings from the PEP 440 grammar in all spellings (case, separators, implicit numbers, whitespace, leading zeros, numbers around 2^31, 2^32, 2^53 and 2^63), their one-character mutations, every concatenation of up to four (thorough: five) tokens of the grammar, and all pairs out of pools of near-identical versions; each is judged by the packaging library in a separate CPython. A case is one batch and is non-trivial when it holds an accepted version.",
		Require:     []string{"accepted", "rejected", "pairs", "beyond_64_bits", "respelled"},
		Assumptions: []string{"pip's packaging 21.3 is the meaning of PEP 440", "numbers of the public version that exceed 64 bits may be refused, never misread"},
	}, func(c *h.C) {
		c.Group("spellings", c.N(1500, 20000), func(t *h.T) {
			var strs []string
			for i := 0; i < 150; i++ {
				s := t.GenVersion(h.VersionOpts{})
				if t.P(0.3) {
					s = mutate(t, s)
				}
				strs = append(strs, s)
			}
			t.Inputf(true, "%q", strs)
			checkAll(t, strs)
		})
		c.Group("limits", 8, func(t *h.T) {
			var strs []string
			for _, n := range []string{"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551617", "99999999999999999999", "340282366920938463463374607431768211457", "4294967295", "4294967296", "2147483648", "00000000000000000000000000000000000007", "000000000000000000000"} {
				for _, f := range []string{"%s", "1.%s", "1.0.0.%s", "%s!1", "1a%s", "1rc.%s", "1.post%s", "1-%s", "1.dev%s", "1+%s", "1+a.%s", "1+%s.%s"} {
					strs = append(strs, strings.ReplaceAll(f, "%s", n))
				}
			}
			t.Rand.Shuffle(len(strs), func(i, j int) { strs[i], strs[j] = strs[j], strs[i] })
			t.Inputf(true, "%q", strs)
			checkAll(t, strs)
		})
		toks := []string{"1", "0", ".", "a", "rc", "post", "dev", "+", "-", "_", "!", "v", " ", "x"}
		depth := c.N(4, 5)
		n := 1
		for i := 1; i < depth; i++ {
			n *= len(toks)
		}
		const per = 300
		c.Group("tokens", (n+per-1)/per, func(t *h.T) {
			var k int
			fmt.Sscanf(t.Name, "tokens/%d", &k)
			var strs []string
			for i := k * per; i < (k+1)*per && i < n; i++ {
				for last := range toks {
					s, x := toks[last], i
					for d := 1; d < depth; d++ {
						// token 0 doubles as "nothing" in leading positions via the shorter strings below
						s = toks[x%len(toks)] + s
						x /= len(toks)
						if d >= 1 && i < 40 {
							strs = append(strs, s)
						}
					}
					strs = append(strs, s)
				}
			}
			t.Inputf(true, "%q", strs)
			checkAll(t, strs)
		})
		c.Group("noise", c.N(40, 600), func(t *h.T) {
			var strs []string
			for i := 0; i < 200; i++ {
				m := t.Intn(9)
				bs := make([]byte, m)
				const alpha = "0123459.abcdevlphtrsw+-_!\x00\x01~*/\\#"
				for j := range bs {
					bs[j] = alpha[t.Intn(len(alpha))]
				}
				s := string(bs)
				if t.P(0.2) {
					s += t.Pick("é", "\u0661", "\uff11", "1\u2028x", "½", "²", "①")
				}
				strs = append(strs, s)
			}
			strs = append(strs, "", " ", "v", "1", "1.")
			t.Inputf(true, "%q", strs)
			checkAll(t, strs)
		})
		c.Group("order", c.N(2000, 40000), func(t *h.T) {
			base := t.GenVersion(h.VersionOpts{NoSpace: true})
			cand := []string{base}
			for len(cand) < 40 {
				s := cand[t.Intn(len(cand))]
				if t.P(0.8) {
					s = t.NearVersion(s)
				} else {
					s = t.GenVersion(h.VersionOpts{NoSpace: true, Canonical: t.P(0.5)})
				}
				if len(s) < 60 {
					cand = append(cand, s)
				}
			}
			var want []*parsed
			t.Py(oracle, map[string]interface{}{"parse": cand}, &want)
			var strs []string
			for i, s := range cand {
				if want[i] != nil && !tooBig(want[i]) {
					strs = append(strs, s)
				}
			}
			t.Inputf(true, "%q", strs)
			checkOrder(t, strs)
		})
		c.Group("grid", c.N(30, 300), func(t *h.T) {
			// a full grid around one release
			rel := t.Pick("1", "1.0", "0", "2020.1", "1.2.0")
			var strs []string
			for _, e := range []string{"", "1!"} {
				for _, p := range []string{"", "a0", "a1", "b1", "rc1", "rc10"} {
					for _, o := range []string{"", ".post0", ".post1"} {
						for _, d := range []string{"", ".dev0", ".dev1"} {
							l := t.Pick("", "", "+1", "+a", "+1.0", "+a.1")
							strs = append(strs, e+rel+t.Pick("", ".0", ".0.0")+p+o+d+l)
						}
					}
				}
			}
			t.Inputf(true, "%q", strs)
			checkOrder(t, strs)
		})
		c.Group("struct", c.N(40, 400), func(t *h.T) {
			// versions built by hand, with the alternative spellings the ordering knows
			for i := 0; i < 40; i++ {
				v, err := pep440.ParseVersion(t.GenVersion(h.VersionOpts{NoBig: true}))
				if err != nil {
					continue
				}
				if v.Pre == nil {
					continue
				}
				alt := *v
				alts := map[string][]string{"a": {"alpha"}, "b": {"beta"}, "rc": {"c", "pre", "preview"}}[v.Pre.L]
				pre := pep440.PreRelease{L: t.Pick(alts...), N: v.Pre.N}
				alt.Pre = &pre
				bs, _ := json.Marshal(v.String())
				t.Input(true, string(bs)+pre.L)
				if alt.Cmp(*v) != 0 || v.Cmp(alt) != 0 {
					t.Failf("%s and its spelling with %q compare unequal", v, pre.L)
				}
				n, err := alt.Normalize()
				if err != nil || n.String() != v.String() {
					t.Failf("normalizing the spelling of %s with %q gives %v %v", v, pre.L, n, err)
				}
				t.Observe("respelled", 1)
			}
		})
	})
}
