// C10: entry points become working launcher scripts.
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"

	"verif/h"
)

// module text of the package that entry points refer to; every callable prints what it is.
const modText = `import sys
NAME = __name__
def _mk(what, ret):
    def f():
        print("CALLED", NAME + ":" + what, "ARGS", sys.argv[1:])
        return ret
    return f
main = _mk("main", None)
_under = _mk("_under", 0)
f7 = _mk("f7", 7)
Main2 = _mk("Main2", True)
fail = _mk("fail", "some message")
empty_str = _mk("empty_str", "")
empty_list = _mk("empty_list", [])
minus = _mk("minus", -1)
big = _mk("big", 256)
async_ = _mk("async_", {})
def leave():
    _mk("leave", 0)()
    sys.exit(9)
def boom():
    _mk("boom", 0)()
    raise ValueError("x")
class Obj:
    run = staticmethod(_mk("Obj.run", 3))
    main = staticmethod(_mk("Obj.main", None))
    class Inner:
        go = staticmethod(_mk("Obj.Inner.go", 42))
        class Most:
            deep_1 = staticmethod(_mk("Obj.Inner.Most.deep_1", 0))
`

var rets = map[string]int{"main": 0, "_under": 0, "f7": 7, "Main2": 1, "fail": 1, "Obj.run": 3, "Obj.main": 0, "Obj.Inner.go": 42, "Obj.Inner.Most.deep_1": 0, "empty_str": 1, "empty_list": 1, "minus": 255, "big": 0, "async_": 1, "leave": 9, "boom": 1}
var objs = []string{"main", "_under", "f7", "Main2", "fail", "Obj.run", "Obj.main", "Obj.Inner.go", "Obj.Inner.Most.deep_1", "empty_str", "empty_list", "minus", "big", "async_", "leave", "boom"}
var mods = []string{"epmod", "ep_pkg", "ep_pkg.sub", "ep_pkg.sub.Deep9", "_e"}
var modFiles = []string{"epmod.py", "ep_pkg/__init__.py", "ep_pkg/sub/__init__.py", "ep_pkg/sub/Deep9.py", "_e.py"}

type decl struct{ key, mod, obj, text string }

func newWheel(t *h.T, eps string, ship ...string) *h.Wheel {
	w := &h.Wheel{Dist: "demo-1.0", Purelib: true}
	tm := time.Unix(1400000000, 0)
	add := func(n, b string) {
		w.Members = append(w.Members, h.Member{Name: n, Body: []byte(b), Unix: 0o100644, Creator: 3, Time: tm})
	}
	for _, f := range modFiles {
		add(f, modText)
	}
	add("demo-1.0.dist-info/WHEEL", "Wheel-Version: 1.0\nRoot-Is-Purelib: true\n")
	add("demo-1.0.dist-info/METADATA", "Name: demo\n")
	if eps != "" {
		add("demo-1.0.dist-info/entry_points.txt", eps)
	}
	if t.P(0.3) {
		add("demo-1.0.data/scripts/shipped", "#!python\nprint(1)\n")
	}
	for _, k := range ship { // the launcher takes its place
		add("demo-1.0.data/scripts/"+k, t.Pick("#!python\nprint('shipped instead')\n", "#!/bin/sh\necho shipped\n", ""))
		t.Observe("shipped under the name of a launcher", 1)
	}
	return w
}

func genDecl(t *h.T, i int) decl {
	d := decl{mod: mods[t.Intn(len(mods))], obj: objs[t.Intn(len(objs))]}
	d.key = t.Pick("tool", "Tool", "my-tool", "a.b", "x_y", "t+p", "with space", "日本", "UPPER", "9start", "-dash", "..two", ".dot", "tool.exe", "a:b", "q'uote", "per%cent", "tool-script") + fmt.Sprint(i)
	if t.P(0.2) {
		d.key = t.Pick("tool", "Tool", "TOOL", "z")
	}
	sp := func() string { return t.Pick("", "", " ", "  ", "\t") }
	ref := d.mod + ":" + d.obj
	if t.P(0.1) {
		ref = d.mod + t.Pick(" :", ": ", " : ") + d.obj
	}
	d.text = d.key + sp() + "=" + sp() + ref
	switch t.Intn(6) {
	case 0:
		d.text += t.Pick("[extra]", " [extra]", " [a,b]", "  [ a , b.c-d ]", " []")
	case 1:
		d.text += sp()
	}
	return d
}

func section(t *h.T, name string, ds []decl) string {
	eol := "\n"
	if t.P(0.1) {
		eol = "\r\n"
	}
	s := "[" + name + "]" + eol
	for _, d := range ds {
		if t.P(0.1) {
			s += t.Pick("# comment = x:y", "; comment", "", "#tool=nope", "   ") + eol
		}
		s += d.text + eol
	}
	if t.P(0.3) {
		s += eol
	}
	return s
}

func checkScripts(t *h.T, w *h.Wheel, plat python.Platform, es []h.Entry, console, gui []decl, withRecord bool) {
	dir := h.SchemeDir(plat, "scripts")
	scripts := map[string]h.Entry{}
	root := filepath.Join(t.Scratch(), "root")
	for _, e := range es {
		n := path.Clean(e.Hdr.Name)
		if e.Hdr.Typeflag == '5' {
			continue
		}
		if path.Dir(n) == dir && path.Base(n) != "shipped" {
			if _, dup := scripts[path.Base(n)]; dup {
				t.Errorf("script %q occurs twice", n)
			}
			scripts[path.Base(n)] = e
		}
		fn := filepath.Join(root, n)
		_ = os.MkdirAll(filepath.Dir(fn), 0o755)
		if err := os.WriteFile(fn, e.Body, 0o755); err != nil {
			h.Fatalf("%v", err)
		}
	}
	cs, gs := h.Shebangs(plat)
	type exp struct {
		d       decl
		shebang string
	}
	exps := map[string][]exp{}
	for _, d := range console {
		exps[d.key] = append(exps[d.key], exp{d, cs})
	}
	for _, d := range gui {
		exps[d.key] = append(exps[d.key], exp{d, gs})
	}
	for n := range scripts {
		if _, ok := exps[n]; !ok {
			t.Errorf("script %q was generated but never declared as a console or gui script", n)
		}
	}
	for key, alts := range exps {
		e, ok := scripts[key]
		if !ok {
			t.Errorf("no script %q", key)
			continue
		}
		t.Observe("scripts checked", 1)
		if e.Hdr.Mode&0o7777 != 0o755 {
			t.Errorf("script %q has mode %o", key, e.Hdr.Mode)
		}
		if e.Hdr.Uid != plat.UID || e.Hdr.Gid != plat.GID {
			t.Errorf("script %q is owned by %d:%d", key, e.Hdr.Uid, e.Hdr.Gid)
		}
		first := strings.SplitN(string(e.Body), "\n", 2)[0]
		// run it
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
		cmd := exec.CommandContext(ctx, "python3", filepath.Join(root, dir, key), "one", "t wo")
		cmd.Env = append(os.Environ(), "PYTHONPATH="+filepath.Join(root, w.LibDir(plat)), "PYTHONDONTWRITEBYTECODE=1", "PYTHONIOENCODING=utf-8")
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		_ = cmd.Run()
		cancel()
		code := cmd.ProcessState.ExitCode()
		t.Observe("scripts executed", 1)
		var msgs []string
		for _, a := range alts {
			var m []string
			if first != "#!"+a.shebang {
				m = append(m, fmt.Sprintf("the first line is %q, want %q", first, "#!"+a.shebang))
			}
			wantOut := fmt.Sprintf("CALLED %s:%s ARGS ['one', 't wo']\n", a.d.mod, a.d.obj)
			if so.String() != wantOut {
				m = append(m, fmt.Sprintf("running it prints %q, want %q; stderr %q", so.String(), wantOut, se.String()))
			}
			if code != rets[a.d.obj] {
				m = append(m, fmt.Sprintf("it exits with %d, want %d (stderr %q)", code, rets[a.d.obj], se.String()))
			}
			if a.d.obj == "fail" && !strings.Contains(se.String(), "some message") {
				m = append(m, fmt.Sprintf("the returned message is not on stderr: %q", se.String()))
			}
			if len(m) == 0 {
				msgs = nil
				break
			}
			msgs = append(msgs, strings.Join(m, "; "))
		}
		if len(msgs) > 0 {
			t.Errorf("script %q (%q): %s\n%s", key, alts[0].d.text, strings.Join(msgs, " / "), e.Body)
		}
		t.State("entry point shape", fmt.Sprintf("dots=%d/%d ret=%d", strings.Count(alts[0].d.mod, "."), strings.Count(alts[0].d.obj, "."), rets[alts[0].d.obj]))
	}
}

var badValues = []string{"ep", "ep:", ":f", "epmod:main:x", "ep mod:main", "ep-mod:main", "1mod:f", "epmod:1f", "ep..mod:f", "epmod.:f", ".epmod:f", "epmod:main.", "epmod:.main", "epmod:main()", "epmod:main; import os",
	"epmod:main extra", "epmod:main [x", "epmod:main x]", "", "epmod:a..b", "epmod:main\n  evil", "epmod:main\n  evil()", "epmod.main", "epmod/main:x", "epmod:main #c", "epmod:main,epmod:main", "epmod:a b", "import os:x", "epmod:main\n\tprint(1)", "os:system('x')", "epmod:2.x", "epmod.3x:main", "9:9", "[extra]", "epmod:[x]", "é mod:x"}

var badTexts = []string{
	"tool = epmod:main\n",                                                     // no section
	"[console_scripts]\ntool\n",                                               // no delimiter
	"[console_scripts]\ntool epmod:main\n",                                    // no delimiter
	"[console_scripts]\ntool = epmod:main\ntool = epmod:f7\n",                 // duplicate option
	"[console_scripts]\ntool = epmod:main\n[console_scripts]\nx = epmod:f7\n", // duplicate section
	"[console_scripts\ntool = epmod:main\n",                                   // broken header
	"[console_scripts]\n= epmod:main\n",                                       // no name
	"[console_scripts]\ntool: epmod:main\n",                                   // only = is a delimiter
	"garbage\n[console_scripts]\ntool = epmod:main\n",
}

func main() {
	h.Main(h.Config{
		ID:          "C10",
		Rule:        "random entry_points.txt files (console, gui and other groups, dotted modules and objects, extras, odd names, comments) installed; every generated script is executed under CPython against a package that prints what was called; malformed values and files must fail; non-trivial: at least one script declared",
		Require:     []string{"scripts checked", "scripts executed", "malformed refused", "shipped under the name of a launcher", "wheels without launchers", "large texts", "CLI runs"},
		Assumptions: []string{"a name declared both as console and as gui script may get either launcher, but exactly one", "Python keywords as names are not generated"},
	}, func(c *h.C) {
		gen := func(t *h.T) (console, gui []decl, text string) {
			used := map[string]bool{}
			for i, n := 0, t.Intn(4); i < n; i++ {
				d := genDecl(t, i)
				if !used[d.key] {
					console = append(console, d)
					used[d.key] = true
				}
			}
			used = map[string]bool{}
			for i, n := 0, t.Intn(3); i < n; i++ {
				d := genDecl(t, i+10)
				if !used[d.key] {
					gui = append(gui, d)
					used[d.key] = true
				}
			}
			secs := []string{}
			if len(console) > 0 || t.P(0.3) {
				secs = append(secs, section(t, "console_scripts", console))
			}
			if len(gui) > 0 || t.P(0.3) {
				secs = append(secs, section(t, "gui_scripts", gui))
			}
			if t.P(0.4) {
				secs = append(secs, section(t, t.Pick("myapp.plugins", "Console_Scripts", "console_scripts2", "pytest11", "scripts", "distutils.commands", "console_scripts.x"), []decl{genDecl(t, 20), {text: "notaref = just words here"}, {text: "../evil = epmod:main"}}))
			}
			t.Shuffle(len(secs), func(i, j int) { secs[i], secs[j] = secs[j], secs[i] })
			return console, gui, strings.Join(secs, t.Pick("", "\n"))
		}
		c.Group("random", c.N(600, 12000), func(t *h.T) {
			console, gui, text := gen(t)
			var ship []string
			if len(console) > 0 && t.P(0.25) {
				ship = append(ship, console[t.Intn(len(console))].key)
			}
			w := newWheel(t, text, ship...)
			plat := h.GenPlat(t)
			t.Inputf(len(console)+len(gui) > 0, "plat %+v\n%s", plat, text)
			p := plat
			p.PyCompile = h.FakeCompiler(nil)
			hook := entry_points.CreateScripts(plat)
			if t.P(0.3) {
				hook = bdist.PostInstallHooks(hook, recording_installs.Record("", "x", nil))
			}
			es, err := t.Install(p, w.Bytes(), time.Time{}, time.Time{}, hook)
			if err != nil {
				t.Failf("install failed: %v", err)
			}
			if len(console)+len(gui) == 0 {
				t.Observe("wheels without launchers", 1)
			}
			checkScripts(t, w, plat, es, console, gui, false)
		})
		c.Group("scale", c.N(20, 300), func(t *h.T) {
			// texts, lines and groups that are large
			var console, gui []decl
			var secs []string
			pad := func() string {
				n := []int{4090, 4096, 5000, 65530, 65536, 70000, 200000, 1 << 20}[t.Intn(8)] + t.Intn(8)
				switch t.Intn(3) {
				case 0:
					return "# " + strings.Repeat("c", n) + "\n"
				case 1:
					return strings.Repeat("; comment = x:y\n", n/16+1)
				}
				return strings.Repeat(" ", n) + "\n"
			}
			for i, n := 0, []int{1, 5, 60}[t.Intn(3)]; i < n; i++ {
				d := genDecl(t, i)
				d.key = fmt.Sprintf("tool-%d", i)
				d.text = d.key + " = " + d.mod + ":" + d.obj
				switch t.Intn(12) {
				case 0:
					d.text += " [" + strings.Repeat("extra,", 800+t.Intn(15000)) + "x]"
				case 1:
					d.text = d.key + strings.Repeat(" ", 4090+t.Intn(70000)) + "=" + d.mod + ":" + d.obj
				case 2:
					d.text += strings.Repeat(" ", 4090+t.Intn(70000))
				}
				if t.P(0.7) {
					console = append(console, d)
				} else {
					gui = append(gui, d)
				}
			}
			secs = append(secs, section(t, "console_scripts", console)+"\n"+pad(), section(t, "gui_scripts", gui)+"\n"+pad())
			var other []decl
			for i := t.BigCount(); i > 0; i-- {
				other = append(other, decl{text: fmt.Sprintf("plugin%d = epmod:main", i)})
			}
			secs = append(secs, section(t, "myapp.plugins", other)+"\n")
			if t.P(0.3) {
				for i := 0; i < 300; i++ {
					secs = append(secs, fmt.Sprintf("[group%d]\nx = y\n", i))
				}
			}
			t.Shuffle(len(secs), func(i, j int) { secs[i], secs[j] = secs[j], secs[i] })
			text := strings.Join(secs, "")
			w := newWheel(t, text)
			plat := h.GenPlat(t)
			t.Inputf(true, "plat %+v\n%d bytes of entry points, %d and %d launchers", plat, len(text), len(console), len(gui))
			p := plat
			p.PyCompile = h.FakeCompiler(nil)
			es, err := t.Install(p, w.Bytes(), time.Time{}, time.Time{}, entry_points.CreateScripts(plat))
			if err != nil {
				t.Failf("install failed: %v", err)
			}
			checkScripts(t, w, plat, es, console, gui, false)
			t.Observe("large texts", 1)
		})
		refuse := func(t *h.T, text string) {
			t.Inputf(true, "%s", text)
			w := newWheel(t, text)
			plat := h.GenPlat(t)
			p := plat
			p.PyCompile = h.FakeCompiler(nil)
			es, err := t.Install(p, w.Bytes(), time.Time{}, time.Time{}, entry_points.CreateScripts(plat))
			if err == nil {
				var got string
				for _, e := range es {
					if path.Dir(path.Clean(e.Hdr.Name)) == h.SchemeDir(plat, "scripts") {
						got += fmt.Sprintf("%s:\n%s\n", e.Hdr.Name, e.Body)
					}
				}
				t.Errorf("malformed entry points were installed:\n%s\ngave:\n%s", text, got)
			}
			t.Observe("malformed refused", 1)
		}
		for i, v := range badValues {
			v := v
			for _, g := range []string{"console_scripts", "gui_scripts"} {
				g := g
				c.Directed(fmt.Sprintf("badvalue-%d-%s", i, g), func(t *h.T) { refuse(t, "["+g+"]\ngood = epmod:main\nbad = "+v+"\n") })
			}
		}
		for i, text := range badTexts {
			text := text
			c.Directed(fmt.Sprintf("badtext-%d", i), func(t *h.T) { refuse(t, text) })
			c.Directed(fmt.Sprintf("badtext-gui-%d", i), func(t *h.T) { refuse(t, strings.ReplaceAll(text, "console_scripts", "gui_scripts")) })
		}
		c.Directed("none", func(t *h.T) {
			w := newWheel(t, "")
			plat := h.GenPlat(t)
			t.Inputf(false, "no entry_points.txt")
			p := plat
			p.PyCompile = h.FakeCompiler(nil)
			es, err := t.Install(p, w.Bytes(), time.Time{}, time.Time{}, entry_points.CreateScripts(plat))
			if err != nil {
				t.Failf("install failed: %v", err)
			}
			t.Observe("wheels without launchers", 1)
			checkScripts(t, w, plat, es, nil, nil, false)
		})
		c.Group("cli", c.N(40, 400), func(t *h.T) {
			console, gui, text := gen(t)
			bad := t.P(0.3)
			if bad {
				text = "[console_scripts]\nx=" + badValues[t.Intn(len(badValues))] + "\n"
			}
			w := newWheel(t, text)
			plat := h.GenPlat(t)
			t.Inputf(true, "plat %+v\n%s", plat, text)
			wf := t.WriteFile("in/demo-1.0-py3-none-any.whl", w.Bytes(), 0o644)
			yf := t.WriteFile("in/plat.yaml", h.PlatYAML(plat, []string{"true"}), 0o644)
			r := t.CLI(h.Cmd{Args: []string{"layer", "wheel", "--platform-file", yf, wf}})
			t.Observe("CLI runs", 1)
			if bad {
				if r.Code == 0 || len(r.Out) > 0 {
					t.Errorf("malformed entry points: exit status %d, %d bytes", r.Code, len(r.Out))
				}
				return
			}
			if r.Code != 0 {
				t.Failf("failed: %s", r.Err)
			}
			es, err := h.ParseTar(r.Out)
			if err != nil {
				t.Failf("output is not an archive: %v", err)
			}
			checkScripts(t, w, plat, es, console, gui, true)
		})
	})
}
