// C08: every wheel member is installed at the place and mode the scheme says.
package main

import (
	"bytes"
	"fmt"
	"path"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"

	"verif/h"
)

func clean(n string) string { return path.Clean(strings.TrimSuffix(n, "/")) }

type opts struct {
	min, max  time.Time
	generated map[string][]byte // allowed extra regular files; nil body: any contents
	anyPyc    bool
	record    bool // INSTALLER and RECORD are added
}

// judge compares the entries of a layer with what the scheme says.
func judge(t *h.T, w *h.Wheel, plat python.Platform, ps []h.Placed, es []h.Entry, o opts) {
	got := map[string]h.Entry{}
	for _, e := range es {
		n := clean(e.Hdr.Name)
		if _, dup := got[n]; dup {
			t.Errorf("%q occurs twice in the layer", n)
		}
		got[n] = e
		if e.Hdr.Name != n && e.Hdr.Name != n+"/" || path.IsAbs(n) || n == "." || n == ".." || strings.HasPrefix(n, "../") {
			t.Errorf("entry name %q is not canonical", e.Hdr.Name)
		}
		if e.Hdr.Uid != plat.UID || e.Hdr.Gid != plat.GID || e.Hdr.Uname != plat.UName || e.Hdr.Gname != plat.GName {
			t.Errorf("%q is owned by %d:%d %q:%q, the platform says %d:%d %q:%q", n, e.Hdr.Uid, e.Hdr.Gid, e.Hdr.Uname, e.Hdr.Gname, plat.UID, plat.GID, plat.UName, plat.GName)
		}
		t.Observe("owners compared", 1)
		if d := path.Dir(n); d != "." {
			if p, ok := got[d]; !ok {
				t.Errorf("%q comes before its parent directory, or has none", n)
			} else if p.Hdr.Typeflag != '5' {
				t.Errorf("the parent of %q is not a directory", n)
			}
			t.Observe("parents seen", 1)
		}
		switch e.Hdr.Typeflag {
		case '5':
			if e.Hdr.Mode&0o7777 != 0o755 {
				t.Errorf("directory %q has mode %o", n, e.Hdr.Mode)
			}
		case '0', 0:
		default:
			t.Errorf("%q has type %q", n, e.Hdr.Typeflag)
		}
	}
	want := map[string]h.Placed{}
	wantDirs := map[string]bool{}
	addParents := func(p string) {
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			wantDirs[d] = true
		}
	}
	for _, p := range ps {
		addParents(p.Path)
		if p.Dir {
			wantDirs[p.Path] = true
		} else {
			want[p.Path] = p
		}
		e, ok := got[p.Path]
		if !ok {
			t.Errorf("member %q is missing from the layer; it belongs at %q", p.Member.Name, p.Path)
			continue
		}
		if p.Dir {
			t.Observe("directory members placed", 1)
			if e.Hdr.Typeflag != '5' {
				t.Errorf("directory member %q became type %q", p.Member.Name, e.Hdr.Typeflag)
			}
			continue
		}
		if o.generated != nil {
			if _, gen := o.generated[p.Path]; gen {
				continue // replaced by a generated file; not specified
			}
		}
		t.Observe("file members placed", 1)
		key := p.Key
		if key == "" {
			key = "lib"
		}
		t.State("category", fmt.Sprintf("%s exec=%v rewritten=%v purelib=%v", key, p.Member.Exec(), p.Rewritten, w.Purelib))
		if e.Hdr.Typeflag == '5' {
			t.Errorf("file member %q became a directory", p.Member.Name)
			continue
		}
		if !bytes.Equal(e.Body, p.Body) {
			t.Errorf("%q (member %q): contents are %.80q (%d bytes), want %.80q (%d bytes)", p.Path, p.Member.Name, e.Body, len(e.Body), p.Body, len(p.Body))
		}
		if e.Hdr.Mode&0o7777 != p.Mode {
			t.Errorf("%q (member %q with archive mode %o, rewritten=%v): mode is %o, want %o", p.Path, p.Member.Name, p.Member.Unix, p.Rewritten, e.Hdr.Mode, p.Mode)
		}
		if p.Rewritten {
			t.Observe("scripts rewritten", 1)
		}
		wt := p.Member.Time
		if !o.min.IsZero() {
			wt = o.min
		}
		if !o.max.IsZero() && wt.After(o.max) {
			wt = o.max
		}
		if d := e.Hdr.ModTime.Sub(wt); d <= -time.Second || d >= time.Second {
			t.Errorf("%q (member %q): dated %v, want %v", p.Path, p.Member.Name, e.Hdr.ModTime.UTC(), wt.UTC())
		}
	}
	for n, body := range o.generated {
		addParents(n)
		e, ok := got[n]
		if !ok {
			t.Errorf("generated file %q is missing", n)
		} else if body != nil && !bytes.Equal(e.Body, body) {
			t.Errorf("generated file %q has the wrong contents", n)
		}
	}
	lib := w.LibDir(plat)
	for n, e := range got {
		if e.Hdr.Typeflag == '5' {
			if !wantDirs[n] && !(o.anyPyc && path.Base(n) == "__pycache__") && !(o.record && strings.HasPrefix(path.Join(lib, w.DistInfo()), n)) {
				t.Errorf("directory %q is neither a member nor the parent of one", n)
			}
			continue
		}
		if _, ok := want[n]; ok {
			continue
		}
		if _, ok := o.generated[n]; ok {
			continue
		}
		if o.anyPyc && strings.HasSuffix(n, ".pyc") {
			continue
		}
		if o.record && (n == path.Join(lib, w.DistInfo(), "RECORD") || n == path.Join(lib, w.DistInfo(), "INSTALLER")) {
			continue
		}
		t.Errorf("%q is in the layer but no member belongs there", n)
	}
}

func install(t *h.T, w *h.Wheel, plat python.Platform) {
	var rec []h.Compiled
	p := plat
	p.PyCompile = h.FakeCompiler(&rec)
	ps, conflict, bad := w.Place(plat)
	var o opts
	if t.P(0.3) {
		o.min = time.Unix(1400000000+t.Int63n(1000000), 0)
	}
	if t.P(0.4) || !o.min.IsZero() {
		o.max = time.Unix(1300000000+t.Int63n(300000000), 0)
		if tm := w.Members[t.Intn(len(w.Members))].Time.Unix(); t.P(0.4) && tm > 0 {
			o.max = time.Unix(tm+int64(t.Intn(4)-2), 0) // close to a member's time
		}
	}
	var hook bdist.PostInstallHook
	switch t.Intn(4) {
	case 0:
		hook = bdist.PostInstallHooks(entry_points.CreateScripts(plat), recording_installs.Record("sha256", "verif", nil))
		o.record = true
	case 1:
		hook = bdist.PostInstallHooks()
	}
	es, err := t.Install(p, w.Bytes(), o.min, o.max, hook)
	switch {
	case bad != "":
		t.Observe("unsupported categories refused", 1)
		if err == nil {
			t.Failf("member %q of an unsupported data category was installed", bad)
		}
		return
	case conflict != "":
		t.Observe("conflicting members refused", 1)
		if err == nil {
			t.Failf("two members want %q, but the wheel was installed (one of them cannot be there)", conflict)
		}
		return
	case err != nil:
		t.Failf("a valid wheel was refused: %v", err)
	}
	t.Observe("wheels installed", 1)
	o.generated = map[string][]byte{}
	for _, c := range rec {
		for n, b := range c.Out {
			o.generated[n] = b
		}
	}
	judge(t, w, plat, ps, es, o)
}

func main() {
	h.Main(h.Config{
		ID:   "C08",
		Rule: "random valid wheels (library files, all data categories, directory members, modes, creators, shebang variants, signatures, exotic names) installed for random platforms through bdist.InstallWheel and the CLI; non-trivial: at least one data-category member or script",
		Require: []string{"wheels installed", "file members placed", "directory members placed", "scripts rewritten", "unsupported categories refused", "conflicting members refused", "owners compared", "large wheels",
			"parents seen", "major versions refused", "unusable platforms refused", "CLI runs"},
		Assumptions: []string{"a #!python prefix followed by other word characters (#!python3) and wheels whose generated bytecode or scripts replace a member are not judged"},
	}, func(c *h.C) {
		c.Group("random", c.N(9000, 150000), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{SubSec: true})
			plat := h.GenPlat(t)
			nontriv := false
			for _, m := range w.Members {
				if strings.HasPrefix(m.Name, w.Dist+".data/") {
					nontriv = true
				}
			}
			t.Inputf(nontriv, "plat %+v\n%s", plat, w)
			install(t, w, plat)
		})
		c.Group("scale", c.N(70, 1500), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{MaxFiles: 5})
			kind := h.WheelScales[t.Intn(len(h.WheelScales))]
			h.EnlargeWheel(t, w, kind)
			plat := h.GenPlat(t)
			t.Inputf(true, "plat %+v\n%s", plat, w)
			install(t, w, plat)
			t.Observe("large wheels", 1)
			t.State("large", kind)
		})
		c.Group("platform", c.N(200, 2000), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{MaxFiles: 4, NoExotic: true})
			plat := h.GenPlat(t)
			plat.PyCompile = h.FakeCompiler(nil)
			what := t.Pick("shebang", "purelib", "platlib", "headers", "scripts", "data")
			bad := t.Pick("", ".", "usr/lib", "./usr", "../usr", "C:/x", " /usr")
			switch what {
			case "shebang":
				plat.ConsoleShebang, plat.GraphicalShebang = "", ""
			case "purelib":
				plat.Scheme.PureLib = bad
			case "platlib":
				plat.Scheme.PlatLib = bad
			case "headers":
				plat.Scheme.Headers = bad
			case "scripts":
				plat.Scheme.Scripts = bad
			case "data":
				plat.Scheme.Data = bad
			}
			t.Inputf(true, "unusable platform (%s) %+v\n%s", what, plat, w)
			if _, err := t.Install(plat, w.Bytes(), time.Time{}, time.Time{}, nil); err == nil {
				t.Errorf("a platform with an unusable %s was accepted", what)
			}
			t.Observe("unusable platforms refused", 1)
		})
		c.Group("conflict", c.N(600, 8000), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{MaxFiles: 8})
			plat := h.GenPlat(t)
			cat := t.Pick("purelib", "platlib", "headers", "scripts", "data")
			add := func(n string, b string) {
				w.Members = append(w.Members, h.Member{Name: n, Body: []byte(b), Unix: 0o100644, Creator: 3, Time: time.Unix(1400000000, 0)})
			}
			data := w.Dist + ".data/"
			addDir := func(n string) {
				w.Members = append(w.Members, h.Member{Name: n + "/", Unix: 0o40755, Creator: 3, Time: time.Unix(1400000000, 0)})
			}
			switch t.Intn(11) {
			case 8: // a file where another member says there is an (empty) directory
				addDir("dup")
				add(data+"purelib/dup", "y")
				plat.Scheme.PlatLib = plat.Scheme.PureLib
			case 9: // and the other way round
				add("dup", "y")
				addDir(data + "purelib/dup")
				plat.Scheme.PlatLib = plat.Scheme.PureLib
			case 10: // the same directory several times is fine
				addDir("dup")
				addDir(data + "purelib/dup")
				addDir(data + "platlib/dup")
				add(data+"platlib/dup/f", "x")
				plat.Scheme.PlatLib = plat.Scheme.PureLib
			case 0:
				add(data+t.Pick("unknown", "include", "Scripts", "script", "scripts2", "bin", "doc", "purelib ", "")+"/f", "x")
			case 1:
				add(data+"file.txt", "x")
			case 2:
				add(data+"purelib/dup/f.txt", "x")
				add(data+"platlib/dup/f.txt", "y")
				plat.Scheme.PlatLib = plat.Scheme.PureLib
			case 3:
				add("dup/f.txt", "x")
				add(data+"purelib/dup/f.txt", "y")
				plat.Scheme.PlatLib = plat.Scheme.PureLib
			case 4:
				add("dup/f.txt", "x")
				add(data+"purelib/dup", "y")
				plat.Scheme.PlatLib = plat.Scheme.PureLib
			case 5:
				add(data+cat, "x")
			case 6:
				plat.Scheme.Data = "/usr"
				plat.Scheme.Scripts = "/usr/bin"
				add(data+"data/bin/tool", "x")
				add(data+"scripts/tool", "#!python\ny")
			case 7: // the same name in different places is fine
				plat.Scheme = python.Scheme{PureLib: "/p/pure", PlatLib: "/p/plat", Headers: "/p/h", Scripts: "/p/s", Data: "/p/d"}
				for _, k := range []string{"purelib", "platlib", "headers", "scripts", "data"} {
					add(data+k+"/same/name.txt", k)
				}
			}
			w.Rows = nil
			t.Inputf(true, "plat %+v\n%s", plat, w)
			install(t, w, plat)
		})
		for _, v := range []string{"2.0", "2", "10.0", "1000000.1", "2.0a1", "3.1", "1!1.0", "garbage", "", "1.0", "1.00", "1.99", "0.9", "1.0.1", "1"} {
			v := v
			c.Directed("wheel-version-"+v, func(t *h.T) {
				w := &h.Wheel{Dist: "demo-1.0", Purelib: true}
				tm := time.Unix(1400000000, 0)
				hdr := "Wheel-Version: " + v + "\n"
				w.Members = []h.Member{
					{Name: "a.txt", Body: []byte("x"), Creator: 3, Unix: 0o100644, Time: tm},
					{Name: "demo-1.0.dist-info/WHEEL", Body: []byte(hdr + "Root-Is-Purelib: true\n"), Creator: 3, Unix: 0o100644, Time: tm},
				}
				t.Inputf(true, "%s", w)
				plat := h.GenPlat(t)
				plat.PyCompile = h.FakeCompiler(nil)
				es, err := t.Install(plat, w.Bytes(), time.Time{}, time.Time{}, nil)
				switch {
				case v == "1!1.0": // an epoch; not judged
				case v == "garbage" || v == "" || strings.HasPrefix(v, "2") || strings.HasPrefix(v, "3") || strings.HasPrefix(v, "10"):
					t.Observe("major versions refused", 1)
					if err == nil {
						t.Errorf("Wheel-Version %q was accepted: %v", v, len(es))
					}
				default:
					if err != nil {
						t.Errorf("Wheel-Version %q was refused: %v", v, err)
					}
				}
			})
		}
		c.Group("cli", c.N(60, 600), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{})
			plat := h.GenPlat(t)
			ps, conflict, bad := w.Place(plat)
			real := t.P(0.25)
			compiler := []string{"true"}
			if real {
				compiler = []string{"python3", "-m", "compileall"}
			}
			t.Inputf(true, "compiler %q plat %+v\n%s", compiler, plat, w)
			wf := t.WriteFile("in/demo-1.0-py3-none-any.whl", w.Bytes(), 0o644)
			yf := t.WriteFile("in/plat.yaml", h.PlatYAML(plat, compiler), 0o644)
			r := t.CLI(h.Cmd{Args: []string{"layer", "wheel", "--platform-file", yf, wf}})
			t.Observe("CLI runs", 1)
			if conflict != "" || bad != "" {
				if r.Code == 0 {
					t.Errorf("a conflicting wheel was installed")
				}
				return
			}
			if r.Code != 0 {
				t.Failf("a valid wheel was refused: %s", r.Err)
			}
			es, err := h.ParseTar(r.Out)
			if err != nil {
				t.Failf("output is not an archive: %v", err)
			}
			judge(t, w, plat, ps, es, opts{record: true, anyPyc: real})
		})
	})
}
