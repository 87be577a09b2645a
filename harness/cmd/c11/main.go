// C11: a wheel cannot place anything outside the directories it may write to.
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"

	"verif/h"
)

const uid = 65534

// escapes says whether a member name leaves the directory the archive is unpacked to.
func escapes(name string) bool {
	if strings.HasPrefix(name, "/") {
		return true
	}
	depth := 0
	for _, c := range strings.Split(name, "/") {
		switch c {
		case "", ".":
		case "..":
			depth--
			if depth < 0 {
				return true
			}
		default:
			depth++
		}
	}
	return false
}

// leavesCategory says whether a data member climbs out of its category directory on the way.
func category(dist, name string) string {
	parts := strings.Split(name, "/")
	if len(parts) > 2 && parts[0] == dist+".data" {
		switch parts[1] {
		case "purelib", "platlib", "headers", "scripts", "data":
			return parts[1]
		}
	}
	return ""
}

func under(p, dir string) bool { return dir == "" || strings.HasPrefix(p, dir+"/") }

// hostileNames makes one hostile or messy member name.
func hostileName(t *h.T, dist string, id int) string {
	base := fmt.Sprintf("verif-escape-%d%s", id, t.Pick(".py", ".txt", ""))
	up := strings.Repeat("../", 1+t.Intn(9))
	data := dist + ".data/" + t.Pick("scripts", "data", "purelib", "platlib", "headers")
	bs := strings.ReplaceAll(up, "/", "\\")
	switch t.Intn(23) {
	case 18:
		return data + "/" + bs + base
	case 19:
		return t.Pick("", "pkg/", "pkg\\", dist+".data/", dist+".data\\scripts\\", dist+".dist-info/", data+"/sub/", data+"\\") + bs + base
	case 20:
		enc := strings.ReplaceAll(up, t.Pick("..", "/", "."), t.Pick("%2e%2e", "%2f", "%2F", "%5c", "%2e", "%c0%af"))
		return t.Pick("", "pkg/", data+"/") + "x" + enc + base
	case 21:
		// characters that some normalisations turn into dots and slashes
		like := strings.NewReplacer("/", t.Pick("\u2215", "\u2044", "\uff0f", "\\", "/"), "..", t.Pick("\u2025", "\uff0e\uff0e", "..", ".\u200b.", ". .", ".. ")).Replace(up)
		return t.Pick("", "pkg/", data+"/") + like + base
	case 22:
		return t.Pick("", "pkg/", data+"/") + t.Pick("~/", "~root/", "$HOME/", "C:/", "C:\\", "\\\\host\\share\\", "file:/", "file:///", "${x}/../../", "`x`/", "-/", "--/", "@/", "*/", "a\nb/", "\x7f/", "\ttab/", " /", " ../", "../ ", ".../") + base
	case 0:
		return up + base
	case 1:
		return "/" + base
	case 2:
		return "//" + base
	case 3:
		return "pkg/" + up + base
	case 4:
		return "pkg/sub/../" + base
	case 5:
		return data + "/" + up + base
	case 6:
		return data + "/../" + base
	case 7:
		return dist + ".data/" + up + base
	case 8:
		return dist + ".dist-info/" + up + base
	case 9:
		return "./" + base
	case 10:
		return "pkg//sub/" + base
	case 11:
		return "pkg/./" + base
	case 12:
		return data + "//" + base
	case 13:
		return data + "/./x/../" + base
	case 14:
		return "/" + up + base
	case 15:
		return data + "/../" + t.Pick("scripts", "data", "purelib", "headers") + "/" + base
	case 16:
		return "..\\..\\" + base
	case 17:
		return t.Pick("...", "..x", "~", "C:", "%2e%2e", "..%2f..") + "/" + base
	}
	return base
}

var hostileDirs = []string{"../", "../../x/", "/", "/abs/", "./", "a/../../", "a/..//", "../verif-escape-d/"}
var hostileFiles = []string{"..", ".", "a/..", "/..", "a/../..", "./.", "../."}

var badKeys = []string{"../verif-escape-k", "a/b", "/abs", "..", ".", "x/../../verif-escape-k", "../../lib/python3.9/site-packages/pkg/init.py", "sub/../x", "a//b", "/", "//x", "./x", "x/", "x/.", " ..", "../", "../.", "./..", "x/..", "x/../y", "../../../../../etc/verif-escape-k", "../bin/x"}

func judge(t *h.T, w *h.Wheel, plat python.Platform, es []h.Entry) {
	marks := map[string]h.Member{}
	for _, m := range w.Members {
		if bytes.HasPrefix(m.Body, []byte("MARK")) {
			marks[string(m.Body)] = m
		}
	}
	lib := w.LibDir(plat)
	dirs := []string{lib}
	for _, k := range []string{"purelib", "platlib", "headers", "scripts", "data"} {
		dirs = append(dirs, h.SchemeDir(plat, k))
	}
	seen := map[string]bool{}
	for _, e := range es {
		raw := e.Hdr.Name
		n := strings.TrimSuffix(raw, "/")
		if n == "" || path.Clean(n) != n || path.IsAbs(n) || n == "." || n == ".." || strings.HasPrefix(n, "../") {
			t.Errorf("entry name %q is not canonical", raw)
		}
		if seen[n] {
			t.Errorf("%q occurs twice", n)
		}
		seen[n] = true
		t.Observe("entries judged", 1)
		if e.Hdr.Typeflag == '5' {
			ok := false
			for _, d := range dirs {
				if n == d || under(n, d) || under(d, n) {
					ok = true
				}
			}
			if !ok {
				t.Errorf("directory %q lies outside every scheme directory", n)
			}
			continue
		}
		if e.Hdr.Linkname != "" {
			t.Errorf("%q links to %q", n, e.Hdr.Linkname)
		}
		in := false
		for _, d := range dirs {
			in = in || under(n, d)
		}
		if !in {
			t.Errorf("%q lies outside every scheme directory", n)
		}
		if m, ok := marks[string(e.Body)]; ok {
			t.Observe("hostile members that stayed inside", 1)
			if escapes(m.Name) {
				t.Errorf("member %q escapes but was installed as %q", m.Name, n)
			}
			home := lib
			if k := category(w.Dist, m.Name); k != "" {
				home = h.SchemeDir(plat, k)
			}
			// a name that wanders between directories of the archive may end up where its
			// canonical spelling belongs
			alt := lib
			if k := category(w.Dist, path.Clean(m.Name)); k != "" {
				alt = h.SchemeDir(plat, k)
			}
			if !under(n, home) && !under(n, alt) {
				t.Errorf("member %q was installed as %q, outside %q", m.Name, n, home)
			}
		}
	}
}

func snapshot(root string) string {
	var lines []string
	_ = filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			lines = append(lines, p+" error")
			return nil
		}
		s := fmt.Sprintf("%s %v %d", p, info.Mode(), info.Size())
		if info.Mode().IsRegular() {
			bs, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %x", sha256.Sum256(bs))
		}
		lines = append(lines, s)
		return nil
	})
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

func main() {
	h.Main(h.Config{
		ID:          "C11",
		Rule:        "wheels with parent references, absolute names, redundant separators, wandering data paths and hostile entry-point names, all correctly listed in RECORD, are installed in process (no host writes) and through the CLI as an unprivileged user with a real compile tree; layer entries and the host files around the temporary directory are compared; non-trivial: at least one hostile name",
		Require:     []string{"entries judged", "escaping members refused", "hostile members that stayed inside", "hostile launchers refused", "host snapshots compared", "hostile file names refused"},
		Assumptions: []string{"redundant but harmless spellings may be installed canonically or refused"},
	}, func(c *h.C) {
		addMark := func(w *h.Wheel, name string, id int) {
			body := fmt.Sprintf("MARK = %d # %d\n", id, len(name))
			w.Members = append(w.Members, h.Member{Name: name, Body: []byte(body), Unix: 0o100644, Creator: 3, Time: time.Unix(1400000000, 0)})
		}
		gen := func(t *h.T) (w *h.Wheel, must bool) {
			o := h.WheelOpts{MaxFiles: 6}
			if t.P(0.2) {
				o.EntryPoints = "[console_scripts]\nok = a:b\n"
			}
			w = h.GenWheel(t, o)
			n := 1 + t.Intn(3)
			for i := 0; i < n; i++ {
				name := hostileName(t, w.Dist, i)
				addMark(w, name, i)
				must = must || escapes(name)
			}
			if t.P(0.2) {
				d := hostileDirs[t.Intn(len(hostileDirs))]
				w.Members = append(w.Members, h.Member{Name: d, Unix: 0o40755, Creator: 3, Time: time.Unix(1400000000, 0)})
			}
			t.Shuffle(len(w.Members), func(i, j int) { w.Members[i], w.Members[j] = w.Members[j], w.Members[i] })
			if t.P(0.004) {
				h.EnlargeWheel(t, w, h.WheelScales[t.Intn(len(h.WheelScales))])
				t.Observe("large wheels", 1)
			}
			w.Rows = nil
			return
		}
		hooks := func(plat python.Platform) bdist.PostInstallHook {
			return bdist.PostInstallHooks(entry_points.CreateScripts(plat), recording_installs.Record("", "x", nil))
		}
		c.Group("members", c.N(8000, 120000), func(t *h.T) {
			w, must := gen(t)
			plat := h.GenPlat(t)
			t.Inputf(true, "plat %+v\n%s", plat, w)
			p := plat
			p.PyCompile = h.FakeCompiler(nil)
			es, err := t.Install(p, w.Bytes(), time.Time{}, time.Time{}, hooks(plat))
			if err != nil {
				if must {
					t.Observe("escaping members refused", 1)
				} else {
					t.Observe("harmless wheels refused", 1)
				}
				return
			}
			judge(t, w, plat, es)
			if must && !t.Failed() {
				t.Errorf("a wheel with an escaping member was installed")
			}
		})
		for i, n := range hostileFiles {
			n := n
			for k, pre := range []string{"", "demo-1.0.data/scripts/", "demo-1.0.data/", "pkg/"} {
				pre := pre
				c.Directed(fmt.Sprintf("file-%d-%d", i, k), func(t *h.T) {
					w := &h.Wheel{Dist: "demo-1.0", Purelib: true}
					w.Members = []h.Member{
						{Name: "pkg/a.txt", Body: []byte("a"), Unix: 0o100644, Creator: 3},
						{Name: "demo-1.0.dist-info/WHEEL", Body: []byte("Wheel-Version: 1.0\nRoot-Is-Purelib: true\n"), Unix: 0o100644, Creator: 3},
					}
					addMark(w, pre+n, 77)
					plat := h.GenPlat(t)
					t.Inputf(true, "plat %+v\n%s", plat, w)
					p := plat
					p.PyCompile = h.FakeCompiler(nil)
					es, err := t.Install(p, w.Bytes(), time.Time{}, time.Time{}, hooks(plat))
					if err == nil {
						judge(t, w, plat, es)
						if escapes(pre + n) {
							t.Errorf("a file member called %q was installed", pre+n)
						}
						return
					}
					t.Observe("hostile file names refused", 1)
				})
			}
		}
		for i, k := range badKeys {
			k := k
			for _, g := range []string{"console_scripts", "gui_scripts"} {
				g := g
				for j, at := range []string{"/usr/bin", "/opt/scr/bin", "/bin", "/a/b/c/d/e"} {
					j, at := j, at
					c.Directed(fmt.Sprintf("launcher-%d-%s-%d", i, g, j), func(t *h.T) {
						w := h.GenWheel(t, h.WheelOpts{MaxFiles: 4, NoExotic: true, EntryPoints: "[" + g + "]\n" + k + " = a:b\n"})
						plat := h.GenPlat(t)
						plat.Scheme.Scripts = at
						if _, conflict, _ := w.Place(plat); conflict != "" {
							return
						}
						t.Inputf(true, "plat %+v\n%s", plat, w)
						p := plat
						p.PyCompile = h.FakeCompiler(nil)
						es, err := t.Install(p, w.Bytes(), time.Time{}, time.Time{}, hooks(plat))
						if err == nil {
							judge(t, w, plat, es)
							t.Errorf("an entry point called %q was installed", k)
						}
						t.Observe("hostile launchers refused", 1)
					})
				}
			}
		}
		// names that are plain on the target but that a normalisation would turn into paths
		c.Group("odd-launchers", c.N(1500, 15000), func(t *h.T) {
			up := strings.Repeat("..\\", 1+t.Intn(5))
			k := t.Pick(up+"verif-escape-k", "\\abs", "a\\b", "C:\\x", "%2e%2e%2fverif", "..%2fverif", "\u2025\u2215verif", "..\u2044verif", "~", "~root", "$HOME", "...", "..x", "x..", "-x", "*", "..\\", "%2f", "&#47;x", "\\x2fetc", "\\\\h\\s")
			w := h.GenWheel(t, h.WheelOpts{MaxFiles: 4, NoExotic: true, EntryPoints: "[" + t.Pick("console_scripts", "gui_scripts") + "]\n" + k + " = a:b\n"})
			plat := h.GenPlat(t)
			if _, conflict, _ := w.Place(plat); conflict != "" {
				return
			}
			t.Inputf(true, "plat %+v\n%s", plat, w)
			p := plat
			p.PyCompile = h.FakeCompiler(nil)
			es, err := t.Install(p, w.Bytes(), time.Time{}, time.Time{}, hooks(plat))
			if err != nil {
				return
			}
			t.Observe("odd launcher names installed", 1)
			judge(t, w, plat, es)
			want := h.SchemeDir(plat, "scripts") + "/" + k
			for _, e := range es {
				n := e.Hdr.Name
				if e.Hdr.Typeflag != '5' && bytes.Contains(e.Body, []byte("from a import b")) && n != want {
					t.Errorf("the launcher %q was written to %q, not %q", k, n, want)
				}
			}
		})
		c.Group("host", c.N(80, 800), func(t *h.T) {
			w, must := gen(t)
			if t.P(0.7) { // only sources reach the compile tree
				for k := range w.Members {
					m := &w.Members[k]
					if bytes.HasPrefix(m.Body, []byte("MARK")) && !strings.HasSuffix(m.Name, ".py") {
						m.Name += ".py"
					}
				}
			}
			w.Rows = nil
			plat := h.GenPlat(t)
			user := t.OpenScratch(uid)
			base := filepath.Join(user, "l1/l2/l3/l4")
			tmp := filepath.Join(base, "tmp")
			for _, d := range []string{tmp, filepath.Join(base, "in")} {
				if err := os.MkdirAll(d, 0o755); err != nil {
					h.Fatalf("%v", err)
				}
			}
			t.WriteFile(filepath.Join(user, "l1/sentinel.py"), []byte("s"), 0o666)
			t.WriteFile(filepath.Join(base, "verif-escape-0.py"), []byte("sentinel"), 0o666)
			t.WriteFile(filepath.Join(user, "l1/l2/verif-escape-1.py"), []byte("sentinel"), 0o666)
			wf := t.WriteFile(filepath.Join(base, "in/demo-1.0-py3-none-any.whl"), w.Bytes(), 0o644)
			yf := t.WriteFile(filepath.Join(base, "in/plat.yaml"), h.PlatYAML(plat, []string{"true"}), 0o644)
			_ = filepath.Walk(user, func(p string, _ os.FileInfo, _ error) error { return os.Chown(p, uid, uid) })
			t.Inputf(true, "plat %+v\n%s", plat, w)
			before := snapshot(user)
			r := t.CLI(h.Cmd{Args: []string{"layer", "wheel", "--platform-file", yf, wf}, UID: uid, Tmp: tmp, Dir: base})
			after := snapshot(user)
			t.Observe("host snapshots compared", 1)
			if before != after {
				t.Errorf("files outside the temporary directory changed:\nbefore\n%s\nafter\n%s", before, after)
			}
			for _, d := range []string{"/tmp", "/var/tmp", "/dev/shm"} {
				if ms, _ := filepath.Glob(d + "/verif-escape-*"); len(ms) > 0 {
					t.Errorf("files were written outside: %q", ms)
					for _, m := range ms {
						_ = os.Remove(m)
					}
				}
			}
			if r.Code != 0 {
				if len(r.Out) > 0 {
					t.Errorf("failed but wrote %d bytes", len(r.Out))
				}
				if must {
					t.Observe("escaping members refused", 1)
				}
				return
			}
			es, err := h.ParseTar(r.Out)
			if err != nil {
				t.Failf("output is not an archive: %v", err)
			}
			judge(t, w, plat, es)
			if must && !t.Failed() {
				t.Errorf("a wheel with an escaping member was installed")
			}
		})
	})
}
