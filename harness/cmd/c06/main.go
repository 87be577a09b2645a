// C06: outputs are reproducible and carry no timestamp past the clamp.
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/datawire/dlib/dlog"
	"github.com/sirupsen/logrus"

	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep376"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"

	"verif/h"
)

var quietCtx = func() context.Context {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return dlog.WithLogger(context.Background(), dlog.WrapLogrus(l))
}()

func must(err error) {
	if err != nil {
		h.Fatalf("%v", err)
	}
}

// node is one file of a directory that is built several times.
type node struct {
	path     string
	kind     byte // d f l p; h for a hard link to node "of"
	of       int
	body     []byte
	target   string
	mode     uint32
	uid, gid int
	sec, ns  int64
}

func genTree(t *h.T) []node {
	names := []string{"a", "b", "a-b", "a.b", "B", "é", "x y", ".h", "z", strings.Repeat("n", 110)}
	dirs := []string{""}
	used := map[string]bool{}
	var ns []node
	var files []int
	for i := 0; i < 2+t.Intn(18); i++ {
		p := path.Join(dirs[t.Intn(len(dirs))], names[t.Intn(len(names))])
		if used[p] {
			continue
		}
		used[p] = true
		n := node{path: p, uid: []int{0, 1000, 3000000}[t.Intn(3)], gid: []int{0, 5, 1000}[t.Intn(3)], sec: int64(t.Intn(2000000000)),
			mode: []uint32{0o644, 0o755, 0o600, 0o4755, 0o2755, 0o1777}[t.Intn(6)]}
		if t.P(0.3) {
			n.ns = int64(t.Intn(1000000000))
		}
		if t.P(0.2) {
			n.sec = 4000000000 + int64(t.Intn(1000))
		}
		switch r := t.Intn(10); {
		case r < 3:
			n.kind = 'd'
			dirs = append(dirs, p)
		case r < 7:
			n.kind, n.body = 'f', t.Bytes(t.Intn(2000))
			files = append(files, len(ns))
		case r < 8:
			n.kind, n.target = 'l', t.Pick("a", "/x", "../y")
		case len(files) > 0:
			n.kind, n.of = 'h', files[t.Intn(len(files))]
		default:
			n.kind = 'p'
		}
		ns = append(ns, n)
	}
	return ns
}

// genClamp picks a clamp, often one close to the time of a file.
func genClamp(t *h.T, ns []node) time.Time {
	if t.P(0.5) {
		if n := ns[t.Intn(len(ns))]; n.sec < 2100000000 {
			return time.Unix(n.sec+int64(t.Intn(4)-2), 0)
		}
	}
	return time.Unix(int64(t.Intn(2100000000)), 0)
}

// build makes the tree, in the order given by the case.
func build(t *h.T, root string, ns []node) {
	must(os.MkdirAll(root, 0o755))
	done := map[int]bool{}
	made := map[int]string{} // file group -> a path of it
	order := t.Perm(len(ns))
	if t.P(0.3) {
		sort.Ints(order)
	}
	for len(done) < len(ns) {
		for _, i := range order {
			n := ns[i]
			if done[i] {
				continue
			}
			if d := path.Dir(n.path); d != "." {
				if _, err := os.Lstat(filepath.Join(root, d)); err != nil {
					continue
				}
			}
			full := filepath.Join(root, n.path)
			grp := i
			if n.kind == 'h' {
				grp = n.of
			}
			switch n.kind {
			case 'd':
				must(os.Mkdir(full, 0o700))
			case 'f', 'h':
				if m, ok := made[grp]; ok {
					must(os.Link(m, full))
				} else {
					must(os.WriteFile(full, ns[grp].body, 0o600))
					made[grp] = full
				}
			case 'l':
				must(os.Symlink(n.target, full))
			case 'p':
				must(syscall.Mkfifo(full, 0o600))
			}
			done[i] = true
		}
	}
	for i := len(ns) - 1; i >= 0; i-- {
		n := ns[i]
		if n.kind == 'h' {
			continue
		}
		full := filepath.Join(root, n.path)
		must(os.Lchown(full, n.uid, n.gid))
		if n.kind != 'l' {
			must(syscall.Chmod(full, n.mode))
		}
		// access times differ between the copies
		must(h.Utimensat(full, []syscall.Timespec{{Sec: int64(t.Intn(1000000000)), Nsec: 7}, {Sec: n.sec, Nsec: n.ns}}))
	}
}

// env is one host the operation runs on.
func env(t *h.T, n int, epoch int64) h.Cmd {
	tmp := filepath.Join(t.Scratch(), fmt.Sprintf("tmp-%d%s", n, strings.Repeat("x", t.Intn(60))), "t")
	must(os.MkdirAll(tmp, 0o777))
	cwd := filepath.Join(t.Scratch(), fmt.Sprintf("cwd-%d", n), t.Pick("a", "b b", "c/d"))
	must(os.MkdirAll(cwd, 0o755))
	return h.Cmd{Dir: cwd, Tmp: tmp, Umask: []int{0, 0o022, 0o077, 0o027, 0o177, 0o002}[t.Intn(6)],
		Env: []string{fmt.Sprintf("SOURCE_DATE_EPOCH=%d", epoch),
			"TZ=" + t.Pick("UTC", "America/New_York", "Asia/Kolkata", "XYZ+11:45", "Pacific/Auckland", ""),
			"PYTHONHASHSEED=" + fmt.Sprint(t.Intn(1000)), "LC_ALL=" + t.Pick("C", "C.UTF-8", "POSIX"),
			"GOMAXPROCS=" + t.Pick("1", "2", "8"), "USER=" + t.Pick("root", "me", ""), "HOSTNAME=" + t.Pick("x", "y"),
			"HOME=" + t.Pick("/nonexistent", "/root")}}
}

func diffEntries(a, b []byte) string {
	ea, err1 := h.ParseTar(a)
	eb, err2 := h.ParseTar(b)
	if err1 != nil || err2 != nil {
		return fmt.Sprint(err1, err2)
	}
	for i := 0; i < len(ea) && i < len(eb); i++ {
		x, y := ea[i], eb[i]
		if fmt.Sprintf("%+v", x.Hdr) != fmt.Sprintf("%+v", y.Hdr) || !bytes.Equal(x.Body, y.Body) {
			j := 0
			for j < len(x.Body) && j < len(y.Body) && x.Body[j] == y.Body[j] {
				j++
			}
			return fmt.Sprintf("entry %d:\n %+v\n %+v\n (bodies differ from byte %d of %d/%d)", i, x.Hdr, y.Hdr, j, len(x.Body), len(y.Body))
		}
	}
	return fmt.Sprintf("%d and %d entries", len(ea), len(eb))
}

func noLater(t *h.T, what string, bs []byte, clamp int64, only func(name string) bool) {
	es, err := h.ParseTar(bs)
	if err != nil {
		t.Failf("%s: %v", what, err)
	}
	for _, e := range es {
		if only != nil && !only(strings.TrimSuffix(e.Hdr.Name, "/")) {
			continue
		}
		for k, tm := range map[string]time.Time{"modification": e.Hdr.ModTime, "access": e.Hdr.AccessTime, "change": e.Hdr.ChangeTime} {
			if !tm.IsZero() && tm.After(time.Unix(clamp, 0)) {
				t.Errorf("%s: the %s time of %q is %v, past the clamp %v", what, k, e.Hdr.Name, tm.UTC(), time.Unix(clamp, 0).UTC())
			}
		}
		t.Observe("times_checked", 1)
	}
}

const fakeGo = `#!/bin/sh
out=; prev=
for a in "$@"; do
	case "$prev" in -o) out=$a;; esac
	case "$a" in -o=*) out=${a#-o=};; --o=*) out=${a#--o=};; esac
	prev=$a
done
for n in $FAKE_NAMES; do echo "program $n" >"$out/$n"; chmod +x "$out/$n"; done
`

const seedCompile = `import compileall, os, sys
if not compileall.main():
    sys.exit(1)
for top, _, files in os.walk(sys.argv[-1]):
    for f in files:
        if f.endswith('.pyc'):
            with open(os.path.join(top, f), 'ab') as fh:
                fh.write(repr(list({'a', 'b', 'c', 'd', 'e', 'f'})).encode())
`

// op is an operation that is run on several hosts; it returns the output.
type op struct {
	name  string
	clamp func(bs []byte)
	run   func(n int, e h.Cmd) h.Result
}

func entryPoints(t *h.T) string {
	s := ""
	if t.P(0.8) {
		s += "[console_scripts]\n"
		for i := 0; i < 1+t.Intn(6); i++ {
			s += fmt.Sprintf("tool%d = pkg%d:main\n", i, i)
		}
		if t.P(0.5) {
			s += "both = c:main\n"
		}
	}
	if t.P(0.6) {
		s += "[gui_scripts]\n"
		for i := 0; i < 1+t.Intn(4); i++ {
			s += fmt.Sprintf("gui%d = g%d:main\n", i, i)
		}
	}
	return s
}

// genInstallable makes a wheel and platform whose files do not collide.
func genInstallable(t *h.T) (*h.Wheel, python.Platform) {
	for {
		w := h.GenWheel(t, h.WheelOpts{Future: true, SubSec: true, EntryPoints: entryPoints(t)})
		if t.P(0.01) {
			h.EnlargeWheel(t, w, h.WheelScales[t.Intn(len(h.WheelScales))])
			t.Observe("large_wheels", 1)
		}
		p := h.GenPlat(t)
		if p.ConsoleShebang == "" {
			continue
		}
		if _, conflict, bad := w.Place(p); conflict == "" && bad == "" {
			return w, p
		}
	}
}

func newest(w *h.Wheel) int64 {
	var max time.Time
	for _, m := range w.All() {
		if m.Time.After(max) {
			max = m.Time
		}
	}
	s := max.Unix()
	if max.Nanosecond() != 0 {
		s++
	}
	return s + 1
}

func genOps(t *h.T, epoch int64) []op {
	var ops []op
	sc := t.Scratch()

	// a directory, made anew on every host
	tree := genTree(t)
	var dargs []string
	prefix := t.Pick("", "srv", "usr/local/lib")
	if prefix != "" {
		dargs = append(dargs, "--prefix="+prefix)
	}
	if t.P(0.3) {
		dargs = append(dargs, "--chown-uid=5", "--chown-uname=u")
	}
	ops = append(ops, op{"dir", func(bs []byte) { noLater(t, "dir", bs, epoch, nil) }, func(n int, e h.Cmd) h.Result {
		d := filepath.Join(sc, fmt.Sprintf("dir-%d%s", n, strings.Repeat("y", n*5)))
		build(t, d, tree)
		e.Args = append(append([]string{"layer", "dir"}, dargs...), d)
		return t.CLI(e)
	}})

	// Go programs
	bin := filepath.Join(sc, "bin")
	t.WriteFile(filepath.Join(bin, "go"), []byte(fakeGo), 0o755)
	ops = append(ops, op{"gobuild", func(bs []byte) { noLater(t, "gobuild", bs, epoch, nil) }, func(n int, e h.Cmd) h.Result {
		progs := []string{"aa", "bb", "cc", "a-b"}
		t.Shuffle(len(progs), func(i, j int) { progs[i], progs[j] = progs[j], progs[i] })
		e.Args = []string{"layer", "gobuild", "./..."}
		e.Env = append(e.Env, "PATH="+bin+":/usr/bin:/bin", "FAKE_NAMES="+strings.Join(progs, " "))
		return t.CLI(e)
	}})

	// a wheel, compiled by CPython
	w, plat := genInstallable(t)
	wb := w.Bytes()
	comp := []string{"python3", "-m", "compileall"}
	if t.P(0.2) {
		comp = append(comp, "--invalidation-mode=checked-hash")
	}
	if t.P(0.3) {
		// like the sets in the bytecode of a Python before 3.11, whose order follows the string hashes
		script := t.WriteFile("seedcompile.py", []byte(seedCompile), 0o644)
		comp = []string{"python3", script}
		t.Observe("hash_seeded", 1)
	}
	yml := h.PlatYAML(plat, comp)
	noEpoch := t.P(0.5)
	ops = append(ops, op{"wheel", func(bs []byte) { noLater(t, "wheel", bs, newest(w), nil) }, func(n int, e h.Cmd) h.Result {
		wf := t.WriteFile(fmt.Sprintf("w%d/%s-py3-none-any.whl", n, w.Dist), wb, 0o644)
		pf := t.WriteFile(fmt.Sprintf("w%d/plat.yml", n), yml, 0o644)
		e.Args = []string{"layer", "wheel", "--platform-file", pf, wf}
		if noEpoch {
			// the clamp time comes from the wheel
			e.Env = e.Env[1:]
			t.Observe("no_epoch", 1)
		}
		return t.CLI(e)
	}})

	// squash and image build, of the same inputs in files of another name and age
	g := h.NewGenStack(t, h.StackOpts{MaxLayers: 3, MaxEntries: 8, HardLinks: true})
	var layers [][]byte
	for i := 0; i < 2+t.Intn(2); i++ {
		bs, err := h.TarBytes(g.Layer())
		must(err)
		if t.P(0.3) {
			bs = h.Gzip(bs)
		}
		layers = append(layers, bs)
	}
	inputs := func(n int) []string {
		var fs []string
		for i, l := range layers {
			fs = append(fs, t.WriteFile(fmt.Sprintf("in-%d/%d-%d", n, t.Intn(100), i), l, 0o644))
		}
		return fs
	}
	ops = append(ops, op{"squash", nil, func(n int, e h.Cmd) h.Result {
		e.Args = append([]string{"layer", "squash"}, inputs(n)...)
		return t.CLI(e)
	}})
	base := (&h.Image{Layers: [][]byte{}, Tags: []string{"base:1"}, Config: map[string]interface{}{"architecture": "amd64", "os": "linux", "created": "2020-01-01T00:00:00Z",
		"config": map[string]interface{}{"Env": []string{"A=1"}, "Labels": map[string]string{"a": "1", "b": "2", "c": "3"}}}}).Tar(true)
	withBase := t.P(0.5)
	ops = append(ops, op{"image", nil, func(n int, e h.Cmd) h.Result {
		e.Args = append([]string{"image", "build", "-t", "foo:bar", "-e", "B=2", "-c", "x"}, inputs(n+100)...)
		if withBase {
			e.Args = append(e.Args, "--base", t.WriteFile(fmt.Sprintf("base-%d.tar", n), base, 0o644))
		}
		return t.CLI(e)
	}})
	return ops
}

func main() {
	h.Main(h.Config{
		ID: "C06",
		Rule: "every operation is run two or three times on simulated hosts that differ in wall-clock second, umask, time zone, locale, working directory, temporary directory, input location, creation order, hash seed and scheduling, with the same SOURCE_DATE_EPOCH; in-process installs and directory layers are repeated. " +
			"non-trivial: inputs with more than one file",
		Require:     []string{"runs_compared", "times_checked", "clock_moved", "inprocess_compared", "real_go", "hash_seeded", "no_epoch", "far_future"},
		Assumptions: []string{"clamp times are whole seconds", "SOURCE_DATE_EPOCH lies in the past when Go programs are built", "the clamp of a wheel installed without one is derived from the wheel's newest member (at most two seconds later)", "CPython's compileall and go build are themselves reproducible"},
	}, func(c *h.C) {
		c.Group("hosts", c.N(90, 1500), func(t *h.T) {
			// go build dates the binaries itself: a SOURCE_DATE_EPOCH in the future clamps nothing
			epoch := int64(t.Intn(1700000000))
			if t.P(0.1) {
				epoch = int64(t.Intn(2))
			}
			future := t.P(0.2)
			if future {
				epoch = 4000000000 + t.Int63n(6000000000) // also beyond 32 and 33 bits
			}
			ops := genOps(t, epoch)
			if future {
				kept := ops[:0]
				for _, o := range ops {
					if o.name != "gobuild" {
						kept = append(kept, o)
					}
				}
				ops = kept
				t.Observe("far_future", 1)
			}
			t.Inputf(true, "SOURCE_DATE_EPOCH=%d %v", epoch, t.Int63())
			ref := make([][]byte, len(ops))
			refCode := make([]int, len(ops))
			runs := 2 + t.Intn(2)
			for n := 0; n < runs && !t.Failed(); n++ {
				if n == 1 {
					time.Sleep(1100 * time.Millisecond)
					t.Observe("clock_moved", 1)
				}
				for i, o := range ops {
					e := env(t, n*10+i, epoch)
					r := o.run(n, e)
					if r.Code != 0 && o.name != "squash" {
						t.Failf("%s fails under %q: exit %d: %s", o.name, e.Env, r.Code, r.Err)
					}
					if n == 0 {
						ref[i], refCode[i] = r.Out, r.Code
						if r.Code == 0 && o.clamp != nil {
							o.clamp(r.Out)
						}
						continue
					}
					t.Observe("runs_compared", 1)
					t.State("op", o.name)
					if refCode[i] != r.Code || !bytes.Equal(ref[i], r.Out) {
						t.Errorf("%s is not reproducible (exit %d/%d, umask %o, %q): %s", o.name, refCode[i], r.Code, e.Umask, e.Env, diffEntries(ref[i], r.Out))
					}
				}
			}
		})
		c.Group("install", c.N(1500, 40000), func(t *h.T) {
			w, plat := genInstallable(t)
			var rec []h.Compiled
			plat.PyCompile = h.FakeCompiler(&rec)
			fn := t.WriteFile("demo-1.0-py3-none-any.whl", w.Bytes(), 0o644)
			var min, max time.Time
			if t.P(0.3) {
				min = time.Unix(int64(400000000+t.Intn(1600000000)), 0)
			}
			if t.P(0.6) {
				max = time.Unix(int64(400000000+t.Intn(1600000000)), 0)
				if tm := w.Members[t.Intn(len(w.Members))].Time.Unix(); t.P(0.4) && tm > 0 && tm < 2000000000 {
					max = time.Unix(tm+int64(t.Intn(4)-2), 0)
				}
			}
			var du *direct_url.DirectURL
			if t.P(0.4) {
				du = &direct_url.DirectURL{URL: "https://example.com/x.whl", ArchiveInfo: &direct_url.ArchiveInfo{Hash: "sha256=00"}}
			}
			hooks := []bdist.PostInstallHook{}
			if t.P(0.8) {
				hooks = append(hooks, entry_points.CreateScripts(plat))
			}
			if t.P(0.5) {
				hooks = append(hooks, pep376.RecordRequested(""))
			}
			if t.P(0.9) {
				hooks = append(hooks, recording_installs.Record(t.Pick("sha256", "sha512"), "me", du))
			}
			t.Inputf(len(w.Members) > 1, "min=%v max=%v hooks=%d\n%s", min.Unix(), max.Unix(), len(hooks), w)
			var ref []byte
			for i := 0; i < 4; i++ {
				l, err := bdist.InstallWheel(quietCtx, plat, min, max, fn, bdist.PostInstallHooks(hooks...))
				if err != nil {
					if i > 0 {
						t.Failf("run %d: %v", i, err)
					}
					// a wheel with a file of the same name as a script, and the like
					t.Observe("not_installable", 1)
					for k := 0; k < 3; k++ {
						if _, err := bdist.InstallWheel(quietCtx, plat, min, max, fn, bdist.PostInstallHooks(hooks...)); err == nil {
							t.Failf("installs only sometimes: %v", err)
						}
					}
					return
				}
				bs, err := h.LayerBytes(l)
				if err != nil {
					t.Failf("%v", err)
				}
				if ref == nil {
					ref = bs
					lim := max.Unix()
					if max.IsZero() {
						lim = newest(w)
						if !min.IsZero() && min.Unix() > lim {
							lim = min.Unix()
						}
					}
					noLater(t, "install", bs, lim, nil)
					continue
				}
				t.Observe("inprocess_compared", 1)
				if !bytes.Equal(ref, bs) {
					t.Failf("run %d differs: %s", i, diffEntries(ref, bs))
				}
			}
		})
		c.Group("dir", c.N(600, 10000), func(t *h.T) {
			tree := genTree(t)
			clamp := genClamp(t, tree)
			var prefix *dir.Prefix
			if t.P(0.5) {
				prefix = &dir.Prefix{DirName: "usr/x", Ownership: dir.Ownership{UID: 1, GID: 2}}
			}
			t.Inputf(len(tree) > 1, "dir of %d files, clamp %d: %x", len(tree), clamp.Unix(), t.Int63())
			var ref []byte
			for i := 0; i < 3; i++ {
				d := filepath.Join(t.Scratch(), fmt.Sprintf("%d%s", i, strings.Repeat("q", 7*i)))
				build(t, d, tree)
				l, err := dir.LayerFromDir(d, prefix, nil, clamp)
				if err != nil {
					t.Failf("%v", err)
				}
				bs, err := h.LayerBytes(l)
				if err != nil {
					t.Failf("%v", err)
				}
				if ref == nil {
					ref = bs
					noLater(t, "dir", bs, clamp.Unix(), nil)
					continue
				}
				t.Observe("inprocess_compared", 1)
				if !bytes.Equal(ref, bs) {
					t.Failf("a copy of the directory gives other bytes: %s", diffEntries(ref, bs))
				}
			}
		})
		c.Group("references", c.N(600, 10000), func(t *h.T) {
			// the common layer writer, given the same files in any order
			tree := genTree(t)
			clamp := genClamp(t, tree)
			d := filepath.Join(t.Scratch(), "d")
			build(t, d, tree)
			mk := func() []fsutil.FileReference {
				var fr []fsutil.FileReference
				for _, n := range tree {
					if n.kind == 'l' || n.kind == 'p' {
						continue
					}
					info, err := os.Lstat(filepath.Join(d, n.path))
					must(err)
					body := n.body
					if n.kind == 'h' {
						body = tree[n.of].body
					}
					fr = append(fr, &fsutil.InMemFileReference{FileInfo: info, MFullName: n.path, MContent: body})
				}
				return fr
			}
			t.Inputf(len(tree) > 1, "%d references, clamp %d: %x", len(tree), clamp.Unix(), t.Int63())
			var ref []byte
			for i := 0; i < 4; i++ {
				fr := mk()
				t.Shuffle(len(fr), func(i, j int) { fr[i], fr[j] = fr[j], fr[i] })
				l, err := fsutil.LayerFromFileReferences(fr, clamp)
				if err != nil {
					t.Failf("%v", err)
				}
				bs, err := h.LayerBytes(l)
				if err != nil {
					t.Failf("%v", err)
				}
				if ref == nil {
					ref = bs
					noLater(t, "references", bs, clamp.Unix(), nil)
					continue
				}
				t.Observe("inprocess_compared", 1)
				if !bytes.Equal(ref, bs) {
					t.Failf("other bytes in another order: %s", diffEntries(ref, bs))
				}
			}
		})
		c.Directed("real-go", func(t *h.T) {
			t.Inputf(true, "real go build in two places")
			var ref []byte
			for i, place := range []string{"one/mod", "another/deeper/place"} {
				d := filepath.Join(t.Scratch(), place)
				t.WriteFile(filepath.Join(d, "go.mod"), []byte("module example.com/m\n\ngo 1.17\n"), 0o644)
				t.WriteFile(filepath.Join(d, "cmd/a/main.go"), []byte("package main\nfunc main() { panic(\"a\") }\n"), 0o644)
				t.WriteFile(filepath.Join(d, "cmd/b/main.go"), []byte("package main\nfunc main() { println(\"b\") }\n"), 0o644)
				e := env(t, i, 1500000000)
				e.Dir = d
				e.Args = []string{"layer", "gobuild", "./cmd/..."}
				e.Env = append(e.Env, "PATH="+os.Getenv("PATH"), "HOME="+os.Getenv("HOME"))
				for _, k := range []string{"GOPATH", "GOCACHE", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOROOT", "GOMODCACHE", "GO111MODULE"} {
					if v, ok := os.LookupEnv(k); ok {
						e.Env = append(e.Env, k+"="+v)
					}
				}
				r := t.CLI(e)
				if r.Code != 0 {
					t.Failf("exit %d: %s", r.Code, r.Err)
				}
				noLater(t, "gobuild", r.Out, 1500000000, nil)
				if ref == nil {
					ref = r.Out
					time.Sleep(1100 * time.Millisecond)
				} else if !bytes.Equal(ref, r.Out) {
					t.Errorf("go builds in two places differ: %s", diffEntries(ref, r.Out))
				}
			}
			t.Observe("real_go", 1)
		})
	})
}
