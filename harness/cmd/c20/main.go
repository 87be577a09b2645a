// C20: Python file formats are interpreted as Python interprets them.
package main

import (
	"archive/zip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"reflect"
	"strings"
	"testing/iotest"

	"github.com/datawire/ocibuild/pkg/python"

	"verif/h"
)

const oracle = `
import configparser, stat, sys
# where an inline comment starts, according to CPython before and since 3.14
def rounds(line, prefixes):
    inline, start = {p: -1 for p in prefixes}, sys.maxsize
    while start == sys.maxsize and inline:
        nxt = {}
        for p, i in inline.items():
            i = line.find(p, i+1)
            if i == -1:
                continue
            nxt[p] = i
            if i == 0 or line[i-1].isspace():
                start = min(start, i)
        inline = nxt
    return start
def first(line, prefixes):
    return min([i for i in range(len(line)) for p in prefixes if line.startswith(p, i) and (i == 0 or line[i-1].isspace())] or [sys.maxsize])
def answer(req):
    if "modes" in req:
        return [[stat.filemode(m), stat.S_ISDIR(m), stat.S_ISREG(m)] for m in range(req["modes"], req["modes"] + req["n"])]
    if "attrs" in req:
        d = {k: getattr(stat, k) for k in dir(stat) if k.startswith("FILE_ATTRIBUTE_")}
        d.update({k: getattr(stat, k) for k in dir(stat) if k.startswith("S_I") and isinstance(getattr(stat, k), int)})
        return d
    out = []
    for r in req["texts"]:
        if len(r["inline"]) > 1 and any(first(l, r["inline"]) != rounds(l, r["inline"]) for l in r["text"].split("\n")):
            out.append({"skip": True})
            continue
        kw = {}
        cp = configparser.ConfigParser(
            delimiters=tuple(r["delims"]), comment_prefixes=tuple(r["comments"]), inline_comment_prefixes=tuple(r["inline"]),
            strict=r["strict"], empty_lines_in_values=r["empty"], interpolation=None)
        if not r["lower"]:
            cp.optionxform = lambda s: s
        try:
            cp.read_string(r["text"])
        except configparser.Error as e:
            out.append({"err": type(e).__name__})
            continue
        out.append({"ok": {s: dict(cp.items(s)) for s in cp.sections()}})
    return out
`

type text struct {
	Text     string   `json:"text"`
	Delims   []string `json:"delims"`
	Comments []string `json:"comments"`
	Inline   []string `json:"inline"`
	Strict   bool     `json:"strict"`
	Empty    bool     `json:"empty"`
	Lower    bool     `json:"lower"`
}

type verdict struct {
	Skip bool                         `json:"skip"`
	Err  string                       `json:"err"`
	OK   map[string]map[string]string `json:"ok"`
}

var (
	keys   = []string{"key", "Key", "KEY", "a b", "k[0]", "é", "É", "x", "y.z", "a-b", "", "key ", "k#1", "k;2", "%x", "_"}
	vals   = []string{"", "v", "value one", "a = b", "a:b", "x ; y", "x # y", "x;y", "x#y", "[z]", "mod:func", "mod:obj.attr [extra]", "%(x)s", "\"q\"", "é€", "a\tb", "  sp  "}
	sects  = []string{"s", "S", "console_scripts", "gui_scripts", "a b", " pad ", "é", "x:y", "x=y", "#c", "DEFAULT", "default", "a.b"}
	spaces = []string{"", "", "", " ", "  ", "\t", " \t ", "\v", "\f", "\u00a0", "\u2003", "\x1c", "\x1f", "\u0085", "\u3000"}
)

func sp(t *h.T) string {
	if t.P(0.85) {
		return spaces[t.Intn(7)]
	}
	return spaces[t.Intn(len(spaces))]
}

func (x text) delim(t *h.T) string { return x.Delims[t.Intn(len(x.Delims))] }

func comment(t *h.T, x text) string {
	all := append(append([]string{}, x.Comments...), x.Inline...)
	all = append(all, "#", ";", "//")
	return all[t.Intn(len(all))] + t.Pick("", " ", "c", " comment = x", "[x]")
}

func line(t *h.T, x text) string {
	switch t.Intn(16) {
	case 0:
		return sp(t)
	case 1:
		return ""
	case 2:
		return sp(t) + comment(t, x)
	case 3, 4, 5:
		return sp(t) + "[" + sects[t.Intn(len(sects))] + "]" + sp(t)
	case 6:
		// header with something after it, or unfinished
		return sp(t) + t.Pick("[s] x", "[s]x = y", "[]", "[", "]", "[s", "s]", "[ ]", "[s] ; c", "[s] # c", "[[s]", "[]]")
	case 7:
		// continuation
		return " " + sp(t) + t.Pick("more", "more = x", "[s]", "é") + sp(t)
	case 8:
		return sp(t) + t.Pick("noseparator", "word word")
	case 9:
		return sp(t) + keys[t.Intn(len(keys))] + sp(t) + x.delim(t) + sp(t) + vals[t.Intn(len(vals))] + t.Pick(" ", "", "\t") + comment(t, x)
	}
	return sp(t) + keys[t.Intn(len(keys))] + sp(t) + x.delim(t) + sp(t) + vals[t.Intn(len(vals))] + sp(t)
}

func genText(t *h.T) text {
	x := text{Delims: []string{"=", ":"}, Comments: []string{"#", ";"}, Inline: []string{}, Strict: true, Empty: true, Lower: true}
	switch t.Intn(4) {
	case 0: // entry points
		x.Delims, x.Lower = []string{"="}, false
	case 1:
		x.Strict = t.P(0.5)
		x.Empty = t.P(0.5)
		x.Lower = t.P(0.5)
		x.Inline = [][]string{{}, {"#"}, {";"}, {"#", ";"}, {"//", "#"}, {" #"}}[t.Intn(6)]
		x.Comments = [][]string{{"#", ";"}, {"#"}, {"//"}, {}, {"REM"}}[t.Intn(5)]
		x.Delims = [][]string{{"=", ":"}, {"="}, {":"}, {"=>", "="}, {"=", "=>"}, {"->"}}[t.Intn(6)]
	case 2:
		x.Empty = t.P(0.3)
		x.Inline = [][]string{{"#"}, {";"}, {"#", ";"}}[t.Intn(3)]
	}
	if t.P(0.15) {
		return x.structured(t)
	}
	var ls []string
	if t.P(0.9) {
		ls = append(ls, "["+sects[t.Intn(4)]+"]")
	}
	n := t.Intn(10)
	if t.P(0.05) {
		n = 60
	}
	uniq := t.P(0.6)
	for i := 0; i < n; i++ {
		l := line(t, x)
		if uniq && !strings.ContainsAny(l, "[]") {
			if k := strings.Index(l, x.Delims[0]); k > 0 {
				l = l[:k] + fmt.Sprint(i) + l[k:]
			}
		} else if uniq && strings.HasSuffix(l, "]") {
			l = strings.TrimSuffix(l, "]") + fmt.Sprint(i) + "]"
		}
		ls = append(ls, l)
	}
	eol := "\n"
	if t.P(0.1) {
		eol = "\r\n"
	}
	x.Text = strings.Join(ls, eol)
	if t.P(0.8) {
		x.Text += eol
	}
	return x
}

// structured is text that is mostly in order: sections (which may take defaults) with their own keys, some of them empty, and
// now and then continuation, comment and blank lines.
func (x text) structured(t *h.T) text {
	var sb strings.Builder
	nl := t.Pick("\n", "\n", "\r\n")
	ss := []string{"DEFAULT", "s", "t", "S", "default", "u v"}
	ks := []string{"a", "b", "c", "A", "key", "a b"}
	sp := t.Perm(len(ss))
	for _, i := range sp[:1+t.Intn(len(ss))] {
		sb.WriteString("[" + ss[i] + "]" + nl)
		kp := t.Perm(len(ks))
		for _, j := range kp[:t.Intn(len(ks))] {
			if x.Lower && ks[j] == "A" {
				continue
			}
			sb.WriteString(ks[j] + t.Pick("", " ") + x.delim(t) + t.Pick("", " ", "", " 1", "x", " "+ss[i], "two words") + nl)
			for t.P(0.2) {
				sb.WriteString(t.Pick(" ", "\t", "    ") + t.Pick("more", "more "+x.delim(t)+" x", "[t]", "b"+x.delim(t)+"1") + nl)
			}
			if t.P(0.15) {
				sb.WriteString(t.Pick("", "  ", comment(t, x), " "+comment(t, x)) + nl)
				if t.P(0.4) {
					sb.WriteString(strings.Repeat(" ", []int{1, 2, 8, 130, 300}[t.Intn(5)]) + t.Pick("more", "z"+x.delim(t)+"1") + nl)
				}
			}
		}
	}
	x.Text = sb.String()
	return x
}

// ambiguous: text on whose section names Python versions disagree
func ambiguous(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		v := strings.TrimSpace(l)
		if strings.HasPrefix(v, "[") && strings.Count(v, "]") > 1 {
			return true
		}
	}
	return false
}

func (x text) parser() *python.ConfigParser {
	p := python.NewConfigParser()
	p.Delimiters, p.CommentPrefixes, p.InlineCommentPrefixes = x.Delims, x.Comments, x.Inline
	p.Strict, p.EmptyLinesInValues = x.Strict, x.Empty
	if !x.Lower {
		p.OptionTransform = func(s string) string { return s }
	}
	return p
}

func parse(t *h.T, x text, style int) (map[string]map[string]string, error) {
	p := x.parser()
	var r io.Reader = strings.NewReader(x.Text)
	switch style {
	case 1:
		r = iotest.OneByteReader(r)
	case 2:
		r = iotest.DataErrReader(r)
	}
	cfg, err := p.Parse(r)
	if err != nil {
		return nil, err
	}
	m := map[string]map[string]string{}
	for s, kv := range cfg {
		m[s] = map[string]string{}
		for k, v := range kv {
			m[s][k] = v
		}
	}
	return m, nil
}

func main() {
	h.Main(h.Config{
		ID: "C20",
		Rule: "all 65536 Python modes and all Go modes with one type, all 32-bit attribute halves plus random words, and random INI texts under random parser settings, judged by CPython's stat and configparser. " +
			"non-trivial for a text: CPython accepts it and it has at least one key",
		Require: []string{"modes", "gomodes", "attributes", "texts_accepted", "texts_rejected", "constants", "read_errors", "large_texts"},
		Assumptions: []string{"the sandbox's CPython is the reference; texts whose section line holds several ] are not judged (CPython versions disagree), nor are lines where several inline comment prefixes compete in a way that CPython versions read differently",
			"types that Go cannot express (whiteouts, unassigned codes) map to irregular", "lower-casing is compared on letters whose lower case is a single letter"},
	}, func(c *h.C) {
		c.Group("modes", 64, func(t *h.T) {
			var i int
			_, _ = fmt.Sscanf(t.Name, "modes/%d", &i)
			var want [][]interface{}
			t.Py(oracle, map[string]int{"modes": i * 1024, "n": 1024}, &want)
			t.Inputf(true, "modes %d...", i*1024)
			for k, w := range want {
				m := python.StatMode(i*1024 + k)
				if m&0o170000 == 0o160000 {
					// the C and Python implementations of stat.filemode disagree on whiteouts
					w[0] = m.String()[:1] + w[0].(string)[1:]
				}
				if m.String() != w[0] || m.IsDir() != w[1] || m.IsRegular() != w[2] {
					t.Errorf("%06o is %q dir=%v reg=%v, Python says %v", uint16(m), m.String(), m.IsDir(), m.IsRegular(), w)
				}
				g := m.ToGo()
				if g.Perm() != fs.FileMode(m&0o777) || (g&fs.ModeSetuid != 0) != (m&0o4000 != 0) || (g&fs.ModeSetgid != 0) != (m&0o2000 != 0) || (g&fs.ModeSticky != 0) != (m&0o1000 != 0) {
					t.Errorf("%06o has Go permissions %v", uint16(m), g)
				}
				known := map[python.StatMode]fs.FileMode{0o010000: fs.ModeNamedPipe, 0o020000: fs.ModeDevice | fs.ModeCharDevice, 0o040000: fs.ModeDir, 0o060000: fs.ModeDevice, 0o100000: 0, 0o120000: fs.ModeSymlink, 0o140000: fs.ModeSocket}
				want, ok := known[m&0o170000]
				if !ok {
					want = fs.ModeIrregular
				}
				if g.Type() != want {
					t.Errorf("%06o has Go type %v, want %v", uint16(m), g.Type(), want)
				}
				if ok && g&^(fs.ModeType|fs.ModePerm|fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky) != 0 {
					t.Errorf("%06o has extra Go bits: %v", uint16(m), g)
				}
				back := python.ModeFromGo(g)
				if ok && back != m || !ok && back&0o7777 != m&0o7777 {
					t.Errorf("%06o goes to %v and comes back as %06o", uint16(m), g, uint16(back))
				}
				if ok {
					zh := zip.FileHeader{CreatorVersion: 3 << 8, ExternalAttrs: uint32(m) << 16}
					if z := zh.Mode(); z != g {
						t.Errorf("%06o is %v, archive/zip says %v", uint16(m), g, z)
					}
				}
				t.Observe("modes", 1)
			}
		})
		c.Directed("go-modes", func(t *h.T) {
			t.Inputf(true, "Go modes")
			for _, typ := range []fs.FileMode{0, fs.ModeDir, fs.ModeSymlink, fs.ModeDevice, fs.ModeDevice | fs.ModeCharDevice, fs.ModeNamedPipe, fs.ModeSocket} {
				for _, x := range []fs.FileMode{0, fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky, fs.ModeSetuid | fs.ModeSetgid, fs.ModeSetuid | fs.ModeSticky, fs.ModeSetgid | fs.ModeSticky, fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky} {
					for p := fs.FileMode(0); p < 0o1000; p++ {
						m := typ | x | p
						if back := python.ModeFromGo(m).ToGo(); back != m {
							t.Errorf("%v goes to %v and comes back as %v", m, python.ModeFromGo(m), back)
						}
						t.Observe("gomodes", 1)
					}
				}
			}
		})
		c.Directed("constants", func(t *h.T) {
			t.Inputf(true, "constants")
			var d map[string]int64
			t.Py(oracle, map[string]int{"attrs": 1}, &d)
			for name, got := range map[string]int64{
				"READONLY": int64(python.FileAttributeReadonly), "HIDDEN": int64(python.FileAttributeHidden), "SYSTEM": int64(python.FileAttributeSystem),
				"DIRECTORY": int64(python.FileAttributeDirectory), "ARCHIVE": int64(python.FileAttributeArchive), "DEVICE": int64(python.FileAttributeDevice),
				"NORMAL": int64(python.FileAttributeNormal), "TEMPORARY": int64(python.FileAttributeTemporary), "SPARSE_FILE": int64(python.FileAttributeSparseFile),
				"REPARSE_POINT": int64(python.FileAttributeReparsePoint), "COMPRESSED": int64(python.FileAttributeCompressed), "OFFLINE": int64(python.FileAttributeOffline),
				"NOT_CONTENT_INDEXED": int64(python.FileAttributeNotContentIndexed), "ENCRYPTED": int64(python.FileAttributeEncrypted),
				"INTEGRITY_STREAM": int64(python.FileAttributeIntegrityStream), "VIRTUAL": int64(python.FileAttributeVirtual), "NO_SCRUB_DATA": int64(python.FileAttributeNoScrubData),
			} {
				w, ok := d["FILE_ATTRIBUTE_"+name]
				if !ok {
					h.Fatalf("CPython has no FILE_ATTRIBUTE_%s", name)
				}
				if w != got {
					t.Errorf("FileAttribute %s is %#x, Python says %#x", name, got, w)
				}
				t.Observe("constants", 1)
			}
			// documented by Microsoft, newer than CPython's list
			if python.FileAttributeRecallOnOpen != 0x40000 || python.FileAttributeRecallOnDataAccess != 0x400000 {
				t.Errorf("FileAttributeRecallOnOpen %#x, FileAttributeRecallOnDataAccess %#x", python.FileAttributeRecallOnOpen, python.FileAttributeRecallOnDataAccess)
			}
			for name, got := range map[string]int64{"S_IFIFO": int64(python.ModeFmtNamedPipe), "S_IFCHR": int64(python.ModeFmtCharDevice), "S_IFDIR": int64(python.ModeFmtDir), "S_IFBLK": int64(python.ModeFmtBlockDevice),
				"S_IFREG": int64(python.ModeFmtRegular), "S_IFLNK": int64(python.ModeFmtSymlink), "S_IFSOCK": int64(python.ModeFmtSocket),
				"S_ISUID": int64(python.ModePermSetUID), "S_ISGID": int64(python.ModePermSetGID), "S_ISVTX": int64(python.ModePermSticky),
				"S_IRUSR": int64(python.ModePermUsrR), "S_IWUSR": int64(python.ModePermUsrW), "S_IXUSR": int64(python.ModePermUsrX),
				"S_IRGRP": int64(python.ModePermGrpR), "S_IWGRP": int64(python.ModePermGrpW), "S_IXGRP": int64(python.ModePermGrpX),
				"S_IROTH": int64(python.ModePermOthR), "S_IWOTH": int64(python.ModePermOthW), "S_IXOTH": int64(python.ModePermOthX)} {
				if d[name] != got {
					t.Errorf("%s is %#o, Python says %#o", name, got, d[name])
				}
				t.Observe("constants", 1)
			}
			if python.DOSReadOnly != 1 || python.DOSHidden != 2 || python.DOSSystem != 4 || python.DOSDirectory != 0x10 || python.DOSArchive != 0x20 {
				t.Errorf("DOS attributes: %#x %#x %#x %#x %#x", python.DOSReadOnly, python.DOSHidden, python.DOSSystem, python.DOSDirectory, python.DOSArchive)
			}
			if python.ModeFmt != 0o170000 || python.ModePerm != 0o7777 {
				t.Errorf("masks: %#o %#o", python.ModeFmt, python.ModePerm)
			}
		})
		c.Group("attributes", 16, func(t *h.T) {
			var i int
			_, _ = fmt.Sscanf(t.Name, "attributes/%d", &i)
			t.Inputf(true, "attribute words %d", i)
			try := func(raw uint32) {
				ea := python.ParseZIPExternalAttributes(raw)
				if uint16(ea.UNIX) != uint16(raw>>16) || ea.Unused != uint8(raw>>8) || uint8(ea.MSDOS) != uint8(raw) {
					t.Errorf("%#08x splits in to %#x %#x %#x", raw, uint16(ea.UNIX), ea.Unused, uint8(ea.MSDOS))
				}
				if ea.Raw() != raw {
					t.Errorf("%#08x splits and joins to %#08x", raw, ea.Raw())
				}
				if d := python.StatFileAttribute(raw).ToDOS(); uint32(d) != raw&0x37 {
					t.Errorf("%#08x has DOS attributes %#x", raw, d)
				}
				t.Observe("attributes", 1)
			}
			for k := 0; k < 65536/16; k++ {
				v := uint32(i*65536/16 + k)
				try(v)
				try(v << 16)
				try(v<<16 | uint32(t.Intn(65536)))
				try(t.Uint32())
			}
		})
		run := func(t *h.T, xs []text) {
			var vs []verdict
			t.Py(oracle, map[string]interface{}{"texts": xs}, &vs)
			for i, x := range xs {
				js, _ := json.Marshal(x)
				v := vs[i]
				if v.Skip {
					t.Observe("texts_skipped", 1)
					continue
				}
				n := 0
				for _, kv := range v.OK {
					n += len(kv)
				}
				t.Input(v.Err == "" && n > 0, string(js))
				got, err := parse(t, x, t.Intn(3))
				switch {
				case v.Err != "" && err == nil:
					t.Errorf("accepted as %q, Python raises %s", got, v.Err)
				case v.Err == "" && err != nil:
					t.Errorf("rejected (%v), Python reads %q", err, v.OK)
				case v.Err == "":
					if !reflect.DeepEqual(got, v.OK) {
						t.Errorf("read as %q, Python reads %q", got, v.OK)
					}
					t.Observe("texts_accepted", 1)
				default:
					t.State("python_error", v.Err)
					t.Observe("texts_rejected", 1)
				}
				if t.Failed() {
					return
				}
			}
		}
		c.Group("config", c.N(12000, 300000), func(t *h.T) {
			var xs []text
			for len(xs) < 10 {
				x := genText(t)
				if !ambiguous(x.Text) {
					xs = append(xs, x)
				}
			}
			run(t, xs)
		})
		c.Group("config-scale", c.N(150, 3000), func(t *h.T) {
			// the same, with something that is large
			var xs []text
			for len(xs) < 3 {
				x := genText(t)
				n := []int{4080, 4096, 8192, 32768, 65530, 65536, 131072, 1 << 20}[t.Intn(8)] + t.Intn(20)
				big := strings.Repeat(t.Pick("x", " ", "long words ", "é", "=", "\t", "ab "), n)
				if len(big) > n {
					big = strings.ToValidUTF8(big[:n], "")
				}
				d := x.delim(t)
				switch t.Intn(8) {
				case 0: // a long value
					x.Text = "[s]\nfirst " + d + " 1\nk " + d + " v" + big + "e\nlast " + d + " 2\n"
				case 1: // a long name
					x.Text = "[s]\nk" + strings.TrimSpace(strings.NewReplacer("=", "x", ":", "x", "\t", " ").Replace(big)) + "e " + d + " v\nlast " + d + " 2\n"
				case 2: // a long section name
					x.Text = "[s" + big + "e]\nk " + d + " v\n"
				case 3: // a long comment
					x.Text = "[s]\nk " + d + " v\n" + comment(t, x) + big + "\nlast " + d + " 2\n"
				case 4: // many lines of a value
					var b strings.Builder
					b.WriteString("[s]\nk " + d + " v\n")
					for i := 0; i < t.BigCount(); i++ {
						fmt.Fprintf(&b, "%s%d\n", t.Pick("  ", "\t", "      ", "  a "+d+" "), i)
					}
					x.Text = b.String() + "last " + d + " 2\n"
				case 5: // many keys
					var b strings.Builder
					b.WriteString("[s]\n")
					for i := 0; i < t.BigCount(); i++ {
						fmt.Fprintf(&b, "%s%d %s %d\n", t.Pick("k", "K", "key "), i, d, i)
					}
					x.Text = b.String() + t.Pick("", "k1 "+d+" again\n", "bad line\n")
				case 6: // many sections
					var b strings.Builder
					for i := 0; i < t.BigCount(); i++ {
						fmt.Fprintf(&b, "[s%d]\nk %s %d\n", i, d, i)
					}
					x.Text = b.String() + t.Pick("", "[s1]\nk "+d+" again\n", "[t\n")
				case 7: // deep indentation
					x.Text = "[s]\nk " + d + " v\n" + strings.Repeat(" ", n) + "more\n" + strings.Repeat(" ", n/2) + "last " + d + " 2\n"
				}
				if !ambiguous(x.Text) {
					xs = append(xs, x)
				}
			}
			run(t, xs)
			t.Observe("large_texts", 1)
		})
		c.Group("config-chars", c.N(4000, 100000), func(t *h.T) {
			// short texts over a tiny alphabet
			var xs []text
			for len(xs) < 30 {
				x := genText(t)
				var b strings.Builder
				b.WriteString(t.Pick("[s]\n", "", "[s]\nk=v\n"))
				for i := 0; i < t.Intn(14); i++ {
					b.WriteString(t.Pick("[", "]", "a", "B", "=", ":", " ", "\t", "\n", "\n", "\n ", "#", ";", "k=v"))
				}
				x.Text = b.String()
				if !ambiguous(x.Text) {
					xs = append(xs, x)
				}
			}
			run(t, xs)
		})
		c.Group("read-errors", c.N(200, 2000), func(t *h.T) {
			x := genText(t)
			bad := errors.New("injected")
			n := 0
			if len(x.Text) > 0 {
				n = t.Intn(len(x.Text))
			}
			t.Inputf(true, "read error after %d bytes", n)
			if cfg, err := x.parser().Parse(io.MultiReader(strings.NewReader(x.Text[:n]), iotest.ErrReader(bad))); err == nil {
				t.Errorf("a read error after %d bytes gives %q", n, cfg)
			}
			t.Observe("read_errors", 1)
		})
	})
}
