// C19: inspecting a Python yields a platform file that describes that Python.
package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/user"
	"path"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
	"sigs.k8s.io/yaml"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pyinspect"

	"verif/h"
)

// -------------------------------------------------------------------------------------------------
// Pythons with chosen properties: the real interpreter, with the modules that describe it replaced.

func genSpec(t *h.T) h.PySpec {
	s := h.PySpec{Magic: t.Bytes(4), Level: t.Pick("alpha", "beta", "candidate", "final", "final"), Serial: t.Intn(12)}
	s.Ver = [3]int{3, t.Intn(20), t.Intn(30)}
	if t.P(0.1) {
		s.Ver[0] = 4
	}
	if t.P(0.2) {
		s.Magic = []byte{0xcb, 0x0d, 0x0d, 0x0a}
	}
	if t.P(0.1) {
		s.Magic = append(s.Magic, t.Bytes(t.Intn(3))...)
	}
	for i, n := 0, 1+t.Intn(8); i < n; i++ {
		s.Tags = append(s.Tags, t.Pick("cp39", "py3", "py2.py3", "1e3", "0x1")+"-"+t.Pick("cp39", "none", "abi3", "1_0")+"-"+t.Pick("any", "linux_x86_64", "manylinux_2_17_x86_64", "win32", "12"))
	}
	return s
}

// -------------------------------------------------------------------------------------------------
// An image with Pythons in it, and the reference for lookups in it.

type img struct {
	layers [][]h.Entry
	tree   *h.Tree
	cfg    map[string]interface{}
	wd     string
	path   []string
	names  []string
	dirs   []string
	raw    []byte
	descr  string
}

var binDirs = []string{"usr/bin", "usr/local/bin", "bin", "opt/x y/bin", "app", "usr/sbin", ".venv/bin", ".local", "opt/py.", "..x/bin"}
var progs = []string{"python", "python3", "python3.9", "pythonw", "pythonw3", "pythonw3.9", "foo", "pythonx"}

func genImg(t *h.T) *img {
	m := &img{cfg: map[string]interface{}{"architecture": "amd64", "os": "linux"}}
	perm := t.Perm(len(binDirs))
	for i := 0; i < 2+t.Intn(3); i++ {
		m.dirs = append(m.dirs, binDirs[perm[i]])
	}
	perm = t.Perm(len(progs))
	for i := 0; i < 2+t.Intn(4); i++ {
		m.names = append(m.names, progs[perm[i]])
	}
	if t.P(0.5) {
		m.names = append(m.names, "python3", "pythonw3")
	}
	m.tree = h.NewTree()
	owner := func(hd *tar.Header) {
		hd.Uid, hd.Gid = []int{0, 0, 1000, 65534, 70000}[t.Intn(5)], []int{0, 0, 50, 1001}[t.Intn(4)]
		hd.Uname, hd.Gname = t.Pick("root", "", "app", "yes", "1000", "null", "~", "é"), t.Pick("root", "", "staff", "0x10", "no")
		hd.ModTime = time.Unix(1e9, 0)
	}
	nl := 1 + t.Intn(3)
	for l := 0; l < nl; l++ {
		var es []h.Entry
		add := func(e h.Entry) {
			owner(&e.Hdr)
			trial := m.tree.Clone()
			if err := trial.ApplyLayer(append(append([]h.Entry(nil), es...), e)); err != nil {
				return
			}
			es = append(es, e)
		}
		if t.P(0.2) {
			add(h.Entry{Hdr: tar.Header{Typeflag: tar.TypeDir, Name: "./", Mode: 0o755}})
		}
		for _, d := range m.dirs {
			switch r := t.Float64(); {
			case r < 0.45:
				add(h.Entry{Hdr: tar.Header{Typeflag: tar.TypeDir, Name: d + t.Pick("", "/"), Mode: 0o755}})
			case r < 0.55 && l == 0:
				to := m.dirs[t.Intn(len(m.dirs))]
				if t.P(0.5) {
					to = "/" + to
				} else {
					to = strings.Repeat("../", strings.Count(d, "/")) + to
				}
				add(h.Entry{Hdr: tar.Header{Typeflag: tar.TypeSymlink, Name: d, Linkname: to, Mode: 0o777}})
			case r < 0.6 && l > 0:
				add(h.Entry{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: path.Dir(d) + "/.wh." + path.Base(d), Mode: 0o644}})
			case r < 0.65 && l > 0:
				add(h.Entry{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: d + "/.wh..wh..opq", Mode: 0o644}})
			}
			for _, n := range m.names {
				p := d + "/" + n
				switch r := t.Float64(); {
				case r < 0.3:
					mode := []int64{0o755, 0o755, 0o755, 0o644, 0o111, 0o700, 0o001, 0o010, 0o4755, 0, 0o600}[t.Intn(11)]
					add(h.Entry{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: p, Mode: mode}, Body: []byte("#!")})
				case r < 0.45:
					to := t.Pick(m.names...)
					switch t.Intn(4) {
					case 0:
						to = "/" + m.dirs[t.Intn(len(m.dirs))] + "/" + to
					case 1:
						to = strings.Repeat("../", 1+strings.Count(d, "/")) + m.dirs[t.Intn(len(m.dirs))] + "/" + to
					case 2:
						to = t.Pick(to, "./"+to, "nowhere", "/etc/alternatives/"+to)
					}
					add(h.Entry{Hdr: tar.Header{Typeflag: tar.TypeSymlink, Name: p, Linkname: to, Mode: 0o777}})
				case r < 0.5:
					add(h.Entry{Hdr: tar.Header{Typeflag: tar.TypeDir, Name: p, Mode: 0o755}})
				case r < 0.56 && l > 0:
					add(h.Entry{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: d + "/.wh." + n, Mode: 0o644}})
				}
			}
		}
		if err := m.tree.ApplyLayer(es); err != nil {
			h.Fatalf("%v", err)
		}
		m.layers = append(m.layers, es)
	}
	conf := map[string]interface{}{}
	m.wd = "/"
	if w := t.Pick("", "/", "/app", "app", "/usr/", "/usr/local", "usr", "/.venv", ".venv/bin/.."); w != "" {
		conf["WorkingDir"] = w
		m.wd = path.Clean("/" + w)
	}
	env := []string{}
	if t.P(0.3) {
		env = append(env, "XPATH=/"+m.dirs[0], "PATHX=/"+m.dirs[0], "path=/"+m.dirs[0])
	}
	if t.P(0.93) {
		n := t.Intn(6)
		for i := 0; i < n; i++ {
			d := m.dirs[t.Intn(len(m.dirs))]
			m.path = append(m.path, []string{"/" + d, "/" + d, "/" + d + "/", "//" + d, d, "", ".", "/nonexistent", "/" + path.Dir(d) + "/./" + path.Base(d), path.Base(d)}[t.Intn(10)])
		}
		env = append(env, "PATH="+strings.Join(m.path, ":"))
		if len(m.path) == 1 && m.path[0] == "" {
			m.path = nil
		}
	}
	if t.P(0.3) {
		env = append(env, "HOME=/root", "LANG=C")
	}
	if len(env) > 0 {
		conf["Env"] = env
	}
	m.cfg["config"] = conf
	m.pack(t)
	return m
}

func (m *img) pack(t *h.T) {
	im := h.Image{Tags: []string{"x/y:1"}, Config: m.cfg}
	var sb strings.Builder
	for _, es := range m.layers {
		bs, err := h.TarBytes(es)
		if err != nil {
			h.Fatalf("%v", err)
		}
		im.Layers = append(im.Layers, bs)
		sb.WriteString(h.EntriesString(es) + "--\n")
	}
	m.raw = im.Tar(t.P(0.3))
	m.descr = fmt.Sprintf("config=%v\n%s", m.cfg["config"], sb.String())
}

func (m *img) image() ociv1.Image {
	im, err := ociv1tarball.Image(func() (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(m.raw)), nil }, nil)
	if err != nil {
		h.Fatalf("%v", err)
	}
	return im
}

func (m *img) executable(p string) bool {
	n, err := m.tree.Lookup(p, true)
	return err == nil && n != nil && n.Children == nil && n.Inode.Type == tar.TypeReg && n.Inode.Mode&0o111 != 0
}

// look is the reference of the lookup.
func (m *img) look(name string) string {
	abs := func(p string) string {
		if !path.IsAbs(p) {
			p = path.Join(m.wd, p)
		}
		return path.Clean(p)
	}
	if strings.Contains(name, "/") {
		if p := abs(name); m.executable(p) {
			return p
		}
		return ""
	}
	for _, d := range m.path {
		if p := abs(path.Join(d, name)); m.executable(p) {
			return p
		}
	}
	return ""
}

// pair is the reference of the pairing of console and graphical interpreters.
func pair(found string, exe func(string) bool) (console, graphical string) {
	console, graphical = found, found
	dir, base := path.Split(found)
	if strings.HasPrefix(base, "pythonw") {
		if p := dir + "python" + strings.TrimPrefix(base, "pythonw"); exe(p) {
			console = p
		}
		return
	}
	if strings.HasPrefix(base, "python") {
		if p := dir + "pythonw" + strings.TrimPrefix(base, "python"); exe(p) {
			graphical = p
		}
	}
	return
}

func clean(p string) string {
	if p == "" {
		return ""
	}
	return path.Clean(p)
}

func lookups(t *h.T) {
	m := genImg(t)
	t.Input(true, m.descr)
	sys := &pyinspect.ImageFS{Image: m.image()}
	var qs []string
	for _, n := range m.names {
		qs = append(qs, n)
		d := m.dirs[t.Intn(len(m.dirs))]
		qs = append(qs, "/"+d+"/"+n, d+"/"+n, "./"+n, t.Pick("/"+d+"//"+n, "//"+d+"/"+n, "/./"+d+"/"+n, "bin/"+n))
	}
	qs = append(qs, "absent", "/absent", "python3")
	for _, q := range qs {
		want := m.look(q)
		got, err := sys.LookPath(q)
		if (err == nil) != (want != "") || clean(got) != want {
			t.Errorf("LookPath(%q) = %q, %v; want %q\nPATH=%q WD=%q\n%s", q, got, err, want, m.path, m.wd, m.descr)
		}
		if err == nil && !path.IsAbs(got) {
			t.Errorf("LookPath(%q) = %q: not absolute", q, got)
		}
		t.Observe("lookups", 1)
		if want != "" {
			t.Observe("lookups_found", 1)
			t.State("lookup", want)
		}
		c, g, err := pyinspect.Shebangs(sys, q)
		if want == "" {
			if err == nil {
				t.Errorf("Shebangs(%q) = %q, %q for an interpreter that is not there\nPATH=%q WD=%q\n%s", q, c, g, m.path, m.wd, m.descr)
			}
			continue
		}
		wc, wg := pair(want, m.executable)
		if err != nil || clean(c) != wc || clean(g) != wg {
			t.Errorf("Shebangs(%q) = %q, %q, %v; want %q, %q\nPATH=%q WD=%q\n%s", q, c, g, err, wc, wg, m.path, m.wd, m.descr)
		}
		t.Observe("pairings", 1)
		if wc != wg {
			t.Observe("pairings_distinct", 1)
		}
	}
	// owners
	for p := range m.tree.Flat() {
		for _, q := range []string{"/" + p, "/" + p + "/", "//" + strings.ReplaceAll(p, "/", "//"), "/./" + p} {
			if p == "." {
				q = t.Pick("/", "//", "/.")
			}
			stat(t, m, sys, q)
			if t.P(0.5) {
				break
			}
		}
	}
	for _, d := range m.dirs {
		stat(t, m, sys, "/"+d+"/nothing")
		stat(t, m, sys, "/"+d+"/")
	}
	if fi, err := sys.Stat("usr"); err == nil {
		t.Errorf("Stat of a relative path gave %v", fi)
	}
}

func stat(t *h.T, m *img, sys *pyinspect.ImageFS, q string) {
	n, err := m.tree.Lookup(path.Clean(q), true)
	fi, gerr := sys.Stat(q)
	if err != nil || n == nil {
		if gerr == nil {
			t.Errorf("Stat(%q) of a missing file gave %v %d:%d\n%s", q, fi.Mode(), fi.UID(), fi.GID(), m.descr)
		}
		return
	}
	if n.Inode.Implied {
		return // the image does not say who owns it
	}
	if gerr != nil {
		t.Errorf("Stat(%q): %v\n%s", q, gerr, m.descr)
		return
	}
	i := n.Inode
	if fi.UID() != i.UID || fi.GID() != i.GID || fi.UName() != i.UName || fi.GName() != i.GName || fi.IsDir() != (i.Type == tar.TypeDir) || int64(fi.Mode().Perm()) != i.Mode&0o777 {
		t.Errorf("Stat(%q) = %v %d:%d %q:%q; want %o %d:%d %q:%q\n%s", q, fi.Mode(), fi.UID(), fi.GID(), fi.UName(), fi.GName(), i.Mode, i.UID, i.GID, i.UName, i.GName, m.descr)
	}
	t.Observe("stats", 1)
}

// -------------------------------------------------------------------------------------------------

type plat struct {
	python.Platform
	PyCompile []string
}

type expect struct {
	console, graphical string
	spec               h.PySpec
	uid, gid           int
	uname, gname       string
	compilers          map[string]bool // acceptable compilers
}

// judge compares a printed description with the truth, and installs a wheel with it.
func judge(t *h.T, out []byte, want expect) {
	var p plat
	if err := yaml.Unmarshal(out, &p, yaml.DisallowUnknownFields); err != nil {
		t.Failf("the wheel installer would not accept the description: %v\n%s", err, out)
	}
	var bad []string
	eq := func(what string, got, want interface{}) {
		if !reflect.DeepEqual(got, want) {
			bad = append(bad, fmt.Sprintf("%s is %#v, want %#v", what, got, want))
		}
	}
	eq("ConsoleShebang", clean(p.ConsoleShebang), want.console)
	eq("GraphicalShebang", clean(p.GraphicalShebang), want.graphical)
	s := want.spec
	eq("purelib", p.Scheme.PureLib, s.Scheme["purelib"])
	eq("platlib", p.Scheme.PlatLib, s.Scheme["platlib"])
	eq("headers", p.Scheme.Headers, s.Scheme["headers"])
	eq("scripts", p.Scheme.Scripts, s.Scheme["scripts"])
	eq("data", p.Scheme.Data, s.Scheme["data"])
	eq("UID", p.UID, want.uid)
	eq("GID", p.GID, want.gid)
	eq("UName", p.UName, want.uname)
	eq("GName", p.GName, want.gname)
	eq("MagicNumber", p.MagicNumber, s.Magic)
	var tags []string
	for _, tg := range p.Tags {
		tags = append(tags, tg.String())
	}
	eq("Tags", tags, s.Tags)
	if p.VersionInfo == nil {
		bad = append(bad, "no VersionInfo")
	} else {
		eq("VersionInfo", *p.VersionInfo, python.VersionInfo{Major: s.Ver[0], Minor: s.Ver[1], Micro: s.Ver[2], ReleaseLevel: s.Level, Serial: s.Serial})
	}
	if len(p.PyCompile) == 0 || !want.compilers[p.PyCompile[0]] {
		bad = append(bad, fmt.Sprintf("PyCompile is %q, want one of %v", p.PyCompile, want.compilers))
	}
	if len(bad) > 0 {
		t.Failf("%s\n%s", strings.Join(bad, "\n"), out)
	}
	t.Observe("descriptions_judged", 1)

	// and it is accepted unchanged
	w := &h.Wheel{Dist: "demo-1.0"}
	w.Members = []h.Member{
		{Name: "demo/__init__.py", Body: []byte("x = 1\n"), Unix: 0o100644, Creator: 3, Time: time.Unix(1e9, 0), Algo: "sha256"},
		{Name: "demo-1.0.data/scripts/run", Body: []byte("#!python\nprint(1)\n"), Unix: 0o100755, Creator: 3, Time: time.Unix(1e9, 0), Algo: "sha256"},
		{Name: "demo-1.0.dist-info/METADATA", Body: []byte("Metadata-Version: 2.1\nName: demo\nVersion: 1.0\n"), Unix: 0o100644, Creator: 3, Time: time.Unix(1e9, 0), Algo: "sha256"},
		{Name: "demo-1.0.dist-info/WHEEL", Body: []byte("Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\nTag: " + s.Tags[0] + "\n"), Unix: 0o100644, Creator: 3, Time: time.Unix(1e9, 0), Algo: "sha256"},
	}
	w.Rows = w.GenRows()
	wf := t.WriteFile("demo-1.0-py3-none-any.whl", w.Bytes(), 0o644)
	pf := t.WriteFile("plat.yml", out, 0o644)
	r := t.CLI(h.Cmd{Args: []string{"layer", "wheel", "--platform-file=" + pf, wf}})
	if r.Code != 0 {
		t.Failf("`layer wheel` refuses the printed description: %s\n%s", r.Err, out)
	}
	es, err := h.ParseTar(r.Out)
	if err != nil {
		t.Failf("%v", err)
	}
	lib := strings.Trim(path.Clean(s.Scheme["purelib"]), "/")
	found := map[string]bool{}
	for _, e := range es {
		switch n := strings.TrimSuffix(e.Hdr.Name, "/"); {
		case n == path.Join(lib, "demo/__init__.py"):
			found["py"] = true
		case strings.HasPrefix(n, path.Join(lib, "demo/__pycache__")) && strings.HasSuffix(n, ".pyc"):
			found["pyc"] = true
		case n == path.Join(strings.Trim(path.Clean(s.Scheme["scripts"]), "/"), "run"):
			found["script"] = bytes.HasPrefix(e.Body, []byte("#!"+p.ConsoleShebang+"\n"))
		}
		if e.Hdr.Uid != want.uid || e.Hdr.Gid != want.gid || e.Hdr.Uname != want.uname || e.Hdr.Gname != want.gname {
			t.Failf("%q is installed as %d:%d %q:%q, want %d:%d %q:%q", e.Hdr.Name, e.Hdr.Uid, e.Hdr.Gid, e.Hdr.Uname, e.Hdr.Gname, want.uid, want.gid, want.uname, want.gname)
		}
	}
	if len(found) != 3 || !found["script"] {
		t.Failf("installing with the printed description gave %v\n%s", found, h.EntriesString(es))
	}
	t.Observe("descriptions_accepted", 1)
}

// fails judges a run that has to fail.
func fails(t *h.T, r h.Result, why string) {
	if r.Code == 0 {
		t.Failf("succeeded although %s:\n%s", why, r.Out)
	}
	if len(r.Out) > 0 {
		t.Failf("failed because %s, but wrote to stdout:\n%s", why, r.Out)
	}
	if len(bytes.TrimSpace(r.Err)) == 0 {
		t.Failf("failed because %s, but did not say so", why)
	}
	t.State("failure", why)
	t.Observe("failures_judged", 1)
}

func uname(id int) string {
	if u, err := user.LookupId(fmt.Sprint(id)); err == nil {
		return u.Username
	}
	return ""
}

func gname(id int) string {
	if g, err := user.LookupGroupId(fmt.Sprint(id)); err == nil {
		return g.Name
	}
	return ""
}

// host inspects the host's Python.
func host(t *h.T) {
	root := filepath.Join(t.Scratch(), t.Pick("r", "r", "a b", "é# x"))
	nd := 1 + t.Intn(3)
	var dirs []string
	for i := 0; i < nd; i++ {
		dirs = append(dirs, fmt.Sprintf("%s/bin%d", root, i))
	}
	s := genSpec(t)
	s.Scheme = map[string]string{}
	var want expect
	owned := false
	for i, k := range h.SchemeKeys {
		d := fmt.Sprintf("%s/scheme/%s", root, k)
		if t.P(0.2) && i > 0 {
			d = s.Scheme[h.SchemeKeys[t.Intn(i)]]
			s.Scheme[k] = d
			continue
		}
		s.Scheme[k] = d + t.Pick("", "", "/", "/sub/", "/a: b")
		if t.P(0.5) {
			uid, gid := []int{0, 1, 33, 12345, 65534}[t.Intn(5)], []int{0, 1, 33, 54321, 65534}[t.Intn(5)]
			real := s.Scheme[k]
			if t.P(0.2) { // through a symlink
				real = strings.TrimSuffix(real, "/") + ".real"
				if err := os.MkdirAll(real, 0o755); err != nil {
					h.Fatalf("%v", err)
				}
				if err := os.Symlink(real, strings.TrimSuffix(s.Scheme[k], "/")); err != nil {
					h.Fatalf("%v", err)
				}
			}
			if err := os.MkdirAll(real, 0o755); err != nil {
				h.Fatalf("%v", err)
			}
			if err := os.Chown(real, uid, gid); err != nil {
				h.Fatalf("%v", err)
			}
			if !owned {
				want.uid, want.gid, want.uname, want.gname = uid, gid, uname(uid), gname(gid)
			}
			owned = true
		}
	}
	want.spec = s
	// programs
	type prog struct {
		path string
		spec h.PySpec
	}
	specs := map[string]h.PySpec{}
	for _, d := range dirs {
		if err := os.MkdirAll(d, 0o755); err != nil {
			h.Fatalf("%v", err)
		}
		for _, n := range []string{"python", "python3", "pythonw", "pythonw3", "python3.9"} {
			if !t.P(0.8) {
				continue
			}
			p := d + "/" + n
			switch r := t.Float64(); {
			case r < 0.6:
				specs[p] = s
				s.Install(t, p)
				if t.P(0.15) {
					_ = os.Chmod(p, 0o644)
					delete(specs, p)
				}
			case r < 0.75:
				// a link to an interpreter elsewhere
				s.Install(t, p+".impl")
				if err := os.Symlink(p+".impl", p); err != nil {
					h.Fatalf("%v", err)
				}
				specs[p] = s
			case r < 0.85:
				_ = os.Mkdir(p, 0o755)
			default:
				_ = os.Symlink("nowhere", p)
			}
		}
	}
	exe := func(p string) bool { _, ok := specs[p]; return ok }
	args := []string{"python", "inspect"}
	cwd := t.Scratch()
	name := "python3"
	found := ""
	switch t.Intn(5) {
	case 0, 1:
		name = "python3"
	case 2:
		name = t.Pick("python", "pythonw", "pythonw3", "python3.9", "nopython")
		args = append(args, "--interpreter="+name)
	case 3:
		name = dirs[0] + "/" + t.Pick("python3", "pythonw3", "python")
		args = append(args, "--interpreter", name)
	case 4:
		name = t.Pick("python3", "pythonw3", "python")
		if t.P(0.5) {
			cwd = dirs[len(dirs)-1]
			name = "./" + name
		} else {
			cwd = root
			name = filepath.Base(dirs[len(dirs)-1]) + "/" + name
		}
		args = append(args, "--interpreter="+name)
	}
	if strings.Contains(name, "/") {
		found = name
		if !path.IsAbs(found) {
			found = path.Join(cwd, found)
		}
		if !exe(found) {
			found = ""
		}
	} else {
		for _, d := range dirs {
			if exe(d + "/" + name) {
				found = d + "/" + name
				break
			}
		}
	}
	pathEnv := strings.Join(dirs, ":")
	// the tools that the stand-ins need come last, and hold no Python under these names
	tools := t.Scratch() + "/tools"
	for _, x := range []string{"sh", "env"} {
		_ = os.MkdirAll(tools, 0o755)
		_ = os.Symlink("/usr/bin/"+x, tools+"/"+x)
	}
	pathEnv += ":" + tools
	t.Inputf(true, "host %q cwd=%s PATH=%s\nprograms=%v\nscheme=%v owner=%v %d:%d", args, cwd, pathEnv, len(specs), s.Scheme, owned, want.uid, want.gid)
	r := t.CLI(h.Cmd{Args: args, Dir: cwd, Env: []string{"PATH=" + pathEnv}})
	t.Observe("host_inspections", 1)
	switch {
	case found == "":
		fails(t, r, "the interpreter is missing")
	case !owned:
		fails(t, r, "no scheme directory exists")
	default:
		if r.Code != 0 {
			t.Failf("exit status %d: %s", r.Code, r.Err)
		}
		want.console, want.graphical = pair(found, exe)
		want.compilers = map[string]bool{want.console: true}
		if want.console != want.graphical {
			t.Observe("host_pairs", 1)
		}
		judge(t, r.Out, want)
	}
}

// hostBroken inspects a Python that cannot be run.
func hostBroken(t *h.T) {
	d := t.Scratch() + "/bin"
	s := h.PySpec{Broken: t.Pick("exit", "garbage", "killed", "empty")}
	s.Install(t, d+"/python3")
	t.Inputf(true, "broken %s", s.Broken)
	r := t.CLI(h.Cmd{Args: []string{"python", "inspect"}, Env: []string{"PATH=" + d + ":/usr/bin:/bin"}})
	fails(t, r, "the interpreter is broken: "+s.Broken)
}

// image inspects an image's Python through a stand-in docker.
func image(t *h.T) {
	m := genImg(t)
	s := genSpec(t)
	s.Scheme = map[string]string{}
	var want expect
	// scheme directories, in a layer of their own
	var es []h.Entry
	owned := false
	for i, k := range h.SchemeKeys {
		d := "py/" + k
		if t.P(0.2) && i > 0 {
			s.Scheme[k] = s.Scheme[h.SchemeKeys[t.Intn(i)]]
			continue
		}
		if t.P(0.15) {
			d = "py/sub dir/" + k
		}
		s.Scheme[k] = t.Pick("/", "/", "//") + d + t.Pick("", "", "/")
		if t.P(0.5) {
			uid, gid := 1000+t.Intn(100), 2000+t.Intn(100)
			un, gn := t.Pick("root", "", "app", "yes", "null", "é x: y"), t.Pick("root", "", "12", "no", "- a")
			hd := tar.Header{Typeflag: tar.TypeDir, Name: d + "/", Mode: 0o755, Uid: uid, Gid: gid, Uname: un, Gname: gn, ModTime: time.Unix(1e9, 0)}
			if t.P(0.2) {
				es = append(es, h.Entry{Hdr: tar.Header{Typeflag: tar.TypeSymlink, Name: d, Linkname: "/real/" + k, Mode: 0o777, Uid: 7, Gid: 7, ModTime: time.Unix(1e9, 0)}})
				hd.Name = "real/" + k + "/"
			}
			es = append(es, h.Entry{Hdr: hd})
			if !owned {
				want.uid, want.gid, want.uname, want.gname = uid, gid, un, gn
			}
			owned = true
		}
	}
	m.layers = append(m.layers, es)
	m.pack(t)
	want.spec = s

	args := []string{"python", "inspect", "--imagefile=" + t.WriteFile("image.tar", m.raw, 0o644)}
	name := "python3"
	if t.P(0.6) {
		name = m.names[t.Intn(len(m.names))]
		if t.P(0.3) {
			name = t.Pick("/", "") + m.dirs[0] + "/" + name
		}
		args = append(args, "--interpreter="+name)
	}
	found := m.look(name)
	if found == "" && t.P(0.7) {
		// rather something that is there
		for _, n := range m.names {
			for _, d := range m.dirs {
				if q := "/" + d + "/" + n; found == "" && m.look(q) != "" {
					found, name = m.look(q), q
				}
			}
		}
		if found != "" {
			args = append(args[:3], "--interpreter="+name)
		}
	}
	want.console, want.graphical = pair(found, m.executable)

	dk := t.NewDocker(t.Scratch() + "/docker")
	inImage := t.Scratch() + "/inimage/python"
	s.Install(t, inImage)
	dk.Entries(map[string]string{want.console: inImage})
	if found == "" {
		dk.Entries(map[string]string{})
	}

	// host Pythons
	hb := t.Scratch() + "/hostbin"
	want.compilers = map[string]bool{}
	var descr []string
	cands := []string{fmt.Sprintf("python%d.%d", s.Ver[0], s.Ver[1]), fmt.Sprintf("python%d", s.Ver[0]), "python"}
	for _, n := range cands {
		o := genSpec(t)
		o.Scheme = s.Scheme
		p := hb + "/" + n
		switch r := t.Float64(); {
		case r < 0.35:
			continue
		case r < 0.6:
			o.Magic = s.Magic
			want.compilers[p] = true
			o.Install(t, p)
		case r < 0.8:
			for bytes.Equal(o.Magic, s.Magic) {
				o.Magic = t.Bytes(4)
			}
			if t.P(0.4) && len(s.Magic) == 4 {
				o.Magic = append([]byte(nil), s.Magic...)
				o.Magic[t.Intn(4)] ^= 1 << uint(t.Intn(8))
			}
			o.Ver, o.Level, o.Serial = s.Ver, s.Level, s.Serial
			o.Install(t, p)
		case r < 0.9:
			o.Broken = t.Pick("exit", "garbage", "killed")
			o.Install(t, p)
		default:
			t.WriteFile(p, []byte("not executable"), 0o644)
		}
		descr = append(descr, fmt.Sprintf("%s: %s %x", n, o.Broken, o.Magic))
	}
	tools := t.Scratch() + "/tools"
	_ = os.MkdirAll(tools, 0o755)
	for _, x := range []string{"sh", "env"} {
		_ = os.Symlink("/usr/bin/"+x, tools+"/"+x)
	}
	t.Inputf(true, "image %q\n%s\nscheme=%v magic=%x\nhost: %v", args[2:], m.descr, s.Scheme, s.Magic, descr)
	r := t.CLI(h.Cmd{Args: args, Env: []string{"PATH=" + hb + ":" + dk.Bin + ":" + tools}})
	t.Observe("image_inspections", 1)
	for _, tg := range dk.Tags() {
		t.Errorf("the tag %q was left behind", tg)
	}
	switch {
	case found == "":
		fails(t, r, "the interpreter is missing in the image")
		return
	case !owned:
		fails(t, r, "no scheme directory exists in the image")
		return
	case len(want.compilers) == 0:
		fails(t, r, "no compiler matches")
		return
	}
	if r.Code != 0 {
		t.Failf("exit status %d: %s\nwant console=%q compilers=%v", r.Code, r.Err, want.console, want.compilers)
	}
	t.Observe("image_descriptions", 1)
	judge(t, r.Out, want)
}

const truth = `
import sys, json, base64, importlib.util
sys.path.insert(0, SHIM) if SHIM else None
from packaging.tags import sys_tags
from pip._internal.locations import get_scheme
s = get_scheme("")
json.dump({"magic": base64.b64encode(importlib.util.MAGIC_NUMBER).decode(), "tags": [str(t) for t in sys_tags()],
  "ver": list(sys.version_info), "scheme": {k: getattr(s, k) for k in ("purelib","platlib","headers","scripts","data")}}, sys.stdout)
`

// realPython inspects an unmodified interpreter.
func realPython(t *h.T, name, shim string) {
	found, err := exec.LookPath(name)
	if err != nil {
		return
	}
	cmd := exec.Command(found, "-c", "SHIM = "+fmt.Sprintf("%q", shim)+"\n"+truth)
	bs, err := cmd.Output()
	if err != nil {
		t.Observe("real_python_unusable", 1)
		return
	}
	var tr struct {
		Magic  []byte
		Tags   []string
		Ver    []interface{}
		Scheme map[string]string
	}
	if err := json.Unmarshal(bs, &tr); err != nil {
		h.Fatalf("%v", err)
	}
	n := func(i int) int { f, _ := tr.Ver[i].(float64); return int(f) }
	s := h.PySpec{Magic: tr.Magic, Tags: tr.Tags, Ver: [3]int{n(0), n(1), n(2)}, Level: tr.Ver[3].(string), Serial: n(4), Scheme: tr.Scheme}
	want := expect{spec: s}
	exe := func(p string) bool { _, err := exec.LookPath(p); return err == nil }
	want.console, want.graphical = pair(found, exe)
	want.compilers = map[string]bool{want.console: true}
	own := false
	for _, k := range h.SchemeKeys {
		var o ownerOf
		if o.of(tr.Scheme[k]) {
			want.uid, want.gid, want.uname, want.gname = o.uid, o.gid, uname(o.uid), gname(o.gid)
			own = true
			break
		}
	}
	env := []string{"PATH=" + os.Getenv("PATH"), "PYTHONDONTWRITEBYTECODE=1"}
	if shim != "" {
		env = append(env, "PYTHONPATH="+shim)
	}
	t.Inputf(true, "real %s %+v", found, s.Scheme)
	r := t.CLI(h.Cmd{Args: []string{"python", "inspect", "--interpreter=" + name}, Env: env})
	if !own {
		fails(t, r, "no scheme directory exists")
		return
	}
	if r.Code != 0 {
		t.Failf("exit status %d: %s", r.Code, r.Err)
	}
	t.Observe("real_pythons", 1)
	judge(t, r.Out, want)
}

// versionInfos: the version of an interpreter as a version to match requirements with.
func versionInfos(t *h.T) {
	num := func() int { return []int{0, 1, 2, 3, 9, 10, 11, 100}[t.Intn(8)] }
	vi := python.VersionInfo{Major: num(), Minor: num(), Micro: num(), ReleaseLevel: t.Pick("alpha", "beta", "candidate", "final", "final", "", "rc", "Final", "dev"), Serial: num()}
	letter, ok := map[string]string{"alpha": "a", "beta": "b", "candidate": "rc", "final": ""}[vi.ReleaseLevel]
	want := fmt.Sprintf("%d.%d.%d", vi.Major, vi.Minor, vi.Micro)
	if letter != "" {
		want += fmt.Sprintf("%s%d", letter, vi.Serial)
	}
	t.Inputf(true, "%+v", vi)
	v, err := vi.PEP440()
	if (err == nil) != ok {
		t.Failf("%+v: %v, %v", vi, v, err)
	}
	t.Observe("version_infos", 1)
	if ok && v.String() != want {
		t.Failf("%+v is version %q, want %q", vi, v.String(), want)
	}
}

func main() {
	h.Main(h.Config{
		ID: "C19",
		Rule: "random images (several layers, whiteouts, symlinked directories, mode bits, PATH with empty, relative and non-canonical elements, working directories) with every lookup, pairing and ownership query compared with a reference tree; " +
			"`python inspect` of the host and of images with interpreters of chosen version, magic, tags and scheme (the real CPython with the describing modules replaced), a recording stand-in docker, host compilers of matching, differing and broken kinds, and the real CPythons installed here; every printed description is compared with the truth and used unchanged for `layer wheel`",
		Require: []string{"lookups_found", "pairings_distinct", "stats", "host_inspections", "host_pairs", "image_inspections", "image_descriptions", "descriptions_accepted", "failures_judged", "real_pythons"},
		Assumptions: []string{
			"docker is a stand-in that emulates load, run --entrypoint and rm",
			"lookup paths with '..' components and directories that the image implies without describing them are not judged",
			"an image that sets PATH twice is not judged (the code says that the first one counts, container runtimes let the last one count)",
		},
	}, func(c *h.C) {
		// packaging, as pip vendors it, for the system Python
		shim := ""
		bs, err := exec.Command("/usr/bin/python3", "-c", "import pip._vendor.packaging as p, os; print(os.path.dirname(p.__file__))").Output()
		if err == nil {
			shim = strings.TrimSpace(string(bs))
		}
		for _, n := range []string{"python3", "/usr/bin/python3", "/opt/veriftools/pyvenv/bin/python3", "/opt/veriftools/pyvenv/bin/python"} {
			n := n
			c.Directed("real:"+n, func(t *h.T) {
				d := ""
				if !strings.HasPrefix(n, "/opt/") {
					if shim == "" {
						return
					}
					d = t.Scratch() + "/shim"
					if err := exec.Command("cp", "-r", shim, func() string { _ = os.MkdirAll(d, 0o755); return d + "/packaging" }()).Run(); err != nil {
						h.Fatalf("%v", err)
					}
				}
				realPython(t, n, d)
			})
		}
		c.Group("lookup", c.N(1500, 60000), lookups)
		c.Group("host", c.N(160, 4000), host)
		c.Group("versions", c.N(2000, 20000), versionInfos)
		c.Group("broken", c.N(8, 40), hostBroken)
		c.Group("image", c.N(160, 4000), image)
	})
}
