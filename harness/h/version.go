package h

import (
	"fmt"
	"strings"
)

// VersionNum returns the digits of a version number, biased to values where comparisons go wrong.
func (t *T) VersionNum(big bool) string {
	r := t.Intn(20)
	switch {
	case r < 13:
		return fmt.Sprint(t.Intn(4))
	case r < 15:
		return fmt.Sprint(t.Intn(30))
	case r < 16:
		return "0" + fmt.Sprint(t.Intn(12))
	case r < 17:
		return t.Pick("2020", "20210101", "99", "100", "1000000")
	case r < 18 && big:
		return t.Pick("2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "9007199254740993", "9007199254740992")
	case r < 19 && big:
		return t.Pick("9223372036854775807", "9223372036854775806", "4611686018427387904", "20210101123456")
	}
	return fmt.Sprint(t.Intn(200))
}

func (t *T) caseMix(s string) string {
	if t.P(0.8) {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		if t.P(0.5) {
			b.WriteString(strings.ToUpper(string(r)))
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// VersionOpts restricts GenVersion.
type VersionOpts struct {
	Canonical, NoLocal, NoBig, NoSpace bool
}

// GenVersion makes a string that is (nearly always) a valid PEP 440 version in one of its spellings.
func (t *T) GenVersion(o VersionOpts) string {
	sep := func(def string) string {
		if o.Canonical {
			return def
		}
		return t.Pick(def, def, "", ".", "-", "_")
	}
	num := func() string { return t.VersionNum(!o.NoBig) }
	var b strings.Builder
	if !o.Canonical && t.P(0.1) {
		b.WriteString(t.Pick("v", "V"))
	}
	if t.P(0.15) {
		b.WriteString(num() + "!")
	}
	n := 1 + t.Intn(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(".")
		}
		if i > 0 && t.P(0.35) {
			b.WriteString("0")
		} else {
			b.WriteString(num())
		}
	}
	word := func(xs ...string) string {
		if o.Canonical {
			return xs[0]
		}
		return t.caseMix(t.Pick(xs...))
	}
	tail := func(sepL, w string) {
		b.WriteString(sep(sepL))
		b.WriteString(w)
		if o.Canonical || t.P(0.85) {
			b.WriteString(sep(""))
			b.WriteString(num())
		}
	}
	if t.P(0.35) {
		switch t.Intn(3) {
		case 0:
			tail("", word("a", "alpha"))
		case 1:
			tail("", word("b", "beta"))
		default:
			tail("", word("rc", "c", "pre", "preview"))
		}
	}
	if t.P(0.3) {
		if !o.Canonical && t.P(0.25) {
			b.WriteString("-" + num())
		} else {
			tail(".", word("post", "rev", "r"))
		}
	}
	if t.P(0.3) {
		tail(".", word("dev"))
	}
	if !o.NoLocal && t.P(0.3) {
		n := 1 + t.Intn(3)
		for i := 0; i < n; i++ {
			if i == 0 {
				b.WriteString("+")
			} else if o.Canonical {
				b.WriteString(".")
			} else {
				b.WriteString(t.Pick(".", ".", "-", "_"))
			}
			switch t.Intn(5) {
			case 0, 1:
				b.WriteString(num())
			case 2:
				b.WriteString(t.caseMix(t.Pick("a", "ab", "abc", "b", "ubuntu", "z")))
			case 3:
				b.WriteString(t.caseMix(t.Pick("a1", "1a", "0a", "01b", "foo0100", "9z", "10a", "e5", "1e5", "0x10")))
			default:
				if o.NoBig {
					b.WriteString(num())
				} else {
					b.WriteString(t.Pick("99999999999999999999", "100000000000000000000", "018446744073709551616", "9223372036854775808", "000", "00012"))
				}
			}
		}
	}
	s := b.String()
	if !o.Canonical && !o.NoSpace {
		ws := []string{" ", "\t", "\n", "\r", "\f", "\v", "  "}
		if t.P(0.08) {
			s = ws[t.Intn(len(ws))] + s
		}
		if t.P(0.08) {
			s += ws[t.Intn(len(ws))]
		}
	}
	return s
}

// NearVersion changes one small thing about a version string.
func (t *T) NearVersion(s string) string {
	switch t.Intn(9) {
	case 0:
		return s + t.Pick(".post1", ".post0", "-1", ".post2")
	case 1:
		return s + t.Pick(".dev1", ".dev0", "dev")
	case 2:
		return s + t.Pick("a1", "rc1", "b0", "a0")
	case 3:
		if !strings.Contains(s, "+") {
			return s + t.Pick("+1", "+a", "+1.a", "+0", "+10", "+2", "+a.1")
		}
		return s + t.Pick(".1", ".a", ".0")
	case 4:
		return s + t.Pick(".0", ".0.0", ".1")
	case 5:
		return t.Pick("0!", "1!", "v") + s
	case 6:
		if i := strings.IndexAny(s, "+"); i >= 0 {
			return s[:i]
		}
		return s
	case 7:
		if i := strings.IndexAny(s, "0123456789"); i >= 0 {
			return s[:i] + fmt.Sprint(t.Intn(10)) + s[i+1:]
		}
		return s
	default:
		if i := strings.LastIndexAny(s, "0123456789"); i >= 0 {
			return s[:i] + fmt.Sprint(t.Intn(10)) + s[i+1:]
		}
		return s
	}
}
