// C26: bytecode in a wheel layer is valid for the sources beside it.
package main

import (
	"archive/tar"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"

	"verif/h"
)

// standIn records what it sees and makes stand-in bytecode.
const standIn = `#!/usr/bin/python3 -SE
import json, os, sys, time, signal
log, mode = sys.argv[1], sys.argv[2]
root = sys.argv[-1]
files = {}
for d, ds, fs in os.walk(root):
    for f in fs:
        p = os.path.join(d, f)
        st = os.stat(p)
        with open(p, 'rb') as fh:
            files[os.path.relpath(p, root)] = [fh.read().hex(), st.st_mtime_ns]
with open(log, 'a') as fh:
    fh.write(json.dumps({'argv': sys.argv[3:], 'env': dict(os.environ), 'files': files, 'root': root, 'entries': sorted(files)}) + '\n')
if mode == 'fail':
    sys.stderr.write('stand-in failure\n')
    sys.exit(3)
if mode == 'kill':
    os.kill(os.getpid(), signal.SIGKILL)
if mode == 'none':
    sys.exit(0)
for f in list(files):
    if f.endswith('.py'):
        d = os.path.join(root, os.path.dirname(f), '__pycache__')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, os.path.basename(f)[:-3] + '.rec-1.pyc'), 'wb') as fh:
            fh.write(b'REC ' + f.encode('utf-8', 'surrogateescape') + b' ' + files[f][0][:40].encode())
        with open(os.path.join(d, 'junk.txt'), 'wb') as fh:
            fh.write(b'junk')
if mode == 'failafter':
    sys.exit(1)
`

type seen struct {
	Argv    []string
	Env     map[string]string
	Files   map[string][]interface{}
	Root    string
	Entries []string
}

func readLog(fn string) []seen {
	bs, err := os.ReadFile(fn)
	if err != nil {
		return nil
	}
	var ret []seen
	for _, l := range bytes.Split(bytes.TrimSpace(bs), []byte("\n")) {
		var s seen
		dec := json.NewDecoder(bytes.NewReader(l))
		dec.UseNumber()
		if err := dec.Decode(&s); err != nil {
			h.Fatalf("stand-in log: %v", err)
		}
		ret = append(ret, s)
	}
	return ret
}

type src struct {
	body []byte
	mt   time.Time
}

// judgeSeen compares what the compiler saw with the sources it should have seen.
func judgeSeen(t *h.T, log []seen, want map[string]src, clamp time.Time, tmp string) {
	if len(log) != 1 {
		t.Errorf("the compiler was run %d times", len(log))
		return
	}
	s := log[0]
	t.Observe("compiler runs recorded", 1)
	for n, w := range want {
		g, ok := s.Files[n]
		if !ok {
			t.Errorf("the compiler did not see %q, only %q", n, s.Entries)
			continue
		}
		if g[0].(string) != fmt.Sprintf("%x", w.body) {
			t.Errorf("the compiler saw %q with other contents", n)
		}
		ns, _ := g[1].(json.Number).Int64()
		wt := w.mt
		if !clamp.IsZero() && wt.After(clamp) {
			wt = clamp
		}
		if d := time.Unix(0, ns).Sub(wt); d >= time.Second || d <= -time.Second {
			t.Errorf("the compiler saw %q dated %v, want %v", n, time.Unix(0, ns).UTC(), wt.UTC())
		}
		t.Observe("sources seen by the compiler", 1)
	}
	for n := range s.Files {
		if _, ok := want[n]; !ok {
			t.Errorf("the compiler saw the extra file %q", n)
		}
	}
	if clamp.IsZero() {
		return
	}
	if g := s.Env["SOURCE_DATE_EPOCH"]; g != fmt.Sprint(clamp.Unix()) {
		t.Errorf("the compiler was given SOURCE_DATE_EPOCH=%q, the clamp time is %d", g, clamp.Unix())
	}
	if tmp != "" && !strings.HasPrefix(s.Root, tmp+"/") {
		t.Errorf("the compile tree %q is not in the temporary directory %q", s.Root, tmp)
	}
}

// judgePath looks at the compiler's module search path: the given directories of the compile tree, then the caller's own.
func judgePath(t *h.T, s seen, dirs []string, ordered bool, own string) {
	var got []string
	if p := s.Env["PYTHONPATH"]; p != "" {
		got = strings.Split(p, ":")
	}
	var exp []string
	for _, d := range dirs {
		exp = append(exp, filepath.Join(s.Root, d))
	}
	if !ordered {
		// each once or more, in any order
		m := map[string]bool{}
		for _, d := range exp {
			m[d] = true
		}
		exp = nil
		for d := range m {
			exp = append(exp, d)
		}
		sort.Strings(exp)
		n := len(got)
		if own != "" {
			n -= len(strings.Split(own, ":"))
		}
		m = map[string]bool{}
		var first []string
		for i, d := range got {
			if i < n && !m[d] {
				first = append(first, d)
				m[d] = true
			}
		}
		sort.Strings(first)
		if n >= 0 {
			got = append(first, got[n:]...)
		}
	}
	if own != "" {
		exp = append(exp, strings.Split(own, ":")...)
		t.Observe("search paths of the caller", 1)
	}
	t.Observe("search paths judged", 1)
	if strings.Join(got, ":") != strings.Join(exp, ":") {
		t.Errorf("the compiler's PYTHONPATH is %q, want %q (the caller's is %q)", s.Env["PYTHONPATH"], exp, own)
	}
}

// verifyPy checks bytecode against sources with CPython's own rules.
const verifyPy = `
import sys, io, tarfile, marshal, importlib.util, types, json, posixpath
t = tarfile.open(sys.argv[1])
skip_mode = sys.argv[2]
ents = {m.name.rstrip('/'): m for m in t.getmembers()}
n = 0
kinds = {}
def bad(msg):
    print("BAD", msg)
def walk(code, want, src):
    if code.co_filename != want:
        bad("%s: code object %s refers to %r, want %r" % (src, code.co_name, code.co_filename, want))
        return
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            walk(c, want, src)
for name, m in sorted(ents.items()):
    if not m.isfile() or not name.endswith('.py') or '__pycache__' in name.split('/') or name in sys.argv[3:]:
        continue
    cache = importlib.util.cache_from_source('/' + name, optimization='').lstrip('/')
    if cache not in ents:
        bad("%s has no bytecode at %s" % (name, cache))
        continue
    p = ents[cache]
    data = t.extractfile(p).read()
    source = t.extractfile(m).read()
    n += 1
    if data[:4] != importlib.util.MAGIC_NUMBER:
        bad("%s: wrong magic number" % cache)
        continue
    flags = int.from_bytes(data[4:8], 'little')
    if flags & 1:
        kinds['hash%d' % flags] = kinds.get('hash%d' % flags, 0) + 1
        if flags == 3 and importlib.util.source_hash(source) != data[8:16]:
            bad("%s: the hash of the source is stale" % cache)
        if skip_mode == 'timestamp': bad("%s: hash-based though timestamps were asked for" % cache)
    else:
        kinds['timestamp'] = kinds.get('timestamp', 0) + 1
        mt = int.from_bytes(data[8:12], 'little')
        sz = int.from_bytes(data[12:16], 'little')
        if mt != (int(m.mtime) & 0xffffffff):
            bad("%s records the source time %d, the layer's source has %d" % (cache, mt, int(m.mtime)))
        if sz != (len(source) & 0xffffffff):
            bad("%s records the source size %d, want %d" % (cache, sz, len(source)))
    code = marshal.loads(data[16:])
    walk(code, '/' + name, name)
    ref = compile(source, '/' + name, 'exec', dont_inherit=True)
    if marshal.dumps(ref) != marshal.dumps(code) and ref.co_code != code.co_code:
        bad("%s is not the bytecode of its source" % cache)
print("N", n, json.dumps(kinds))
`

func verify(t *h.T, layer []byte, mode string, exclude []string) {
	lf := t.WriteFile("layer.tar", layer, 0o644)
	args := append([]string{"-c", verifyPy, lf, mode}, exclude...)
	cmd := exec.Command("python3", args...)
	cmd.Env = append(os.Environ(), "PYTHONIOENCODING=utf-8:surrogateescape", "LC_ALL=C.UTF-8")
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	if err != nil {
		h.Fatalf("bytecode verifier: %v: %s", err, se.String())
	}
	for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
		if strings.HasPrefix(l, "BAD ") {
			t.Errorf("%s", l[4:])
		}
		var n int
		if _, err := fmt.Sscanf(l, "N %d", &n); err == nil {
			t.Observe("bytecode files verified", n)
			if i := strings.Index(l, "{"); i > 0 {
				t.State("bytecode kinds", l[i:])
			}
		}
	}
}

// judgePyc looks at the metadata of bytecode entries.
func judgePyc(t *h.T, es []h.Entry, plat python.Platform, clamp time.Time) {
	now := time.Now()
	for _, e := range es {
		if !strings.HasSuffix(e.Hdr.Name, ".pyc") || e.Hdr.Typeflag == '5' {
			continue
		}
		t.Observe("bytecode entries judged", 1)
		if e.Hdr.Mode&0o7777 != 0o644 {
			t.Errorf("%q has mode %o", e.Hdr.Name, e.Hdr.Mode)
		}
		if e.Hdr.Uid != plat.UID || e.Hdr.Gid != plat.GID {
			t.Errorf("%q is owned by %d:%d", e.Hdr.Name, e.Hdr.Uid, e.Hdr.Gid)
		}
		if e.Hdr.ModTime.After(clamp) {
			t.Errorf("%q is dated %v, after the clamp time %v", e.Hdr.Name, e.Hdr.ModTime.UTC(), clamp.UTC())
		}
		if d := e.Hdr.ModTime.Sub(now); d > -2*time.Hour && d < 2*time.Hour {
			t.Errorf("%q is dated %v, that is now", e.Hdr.Name, e.Hdr.ModTime.UTC())
		}
	}
}

func autoClamp(w *h.Wheel) time.Time {
	var max time.Time
	for _, m := range w.All() {
		if m.Time.After(max) {
			max = m.Time
		}
	}
	return max.Add(2 * time.Second)
}

func pySources(ps []h.Placed) map[string]src {
	ret := map[string]src{}
	for _, p := range ps {
		if !p.Dir && strings.HasSuffix(p.Path, ".py") {
			ret[p.Path] = src{p.Body, p.Member.Time}
		}
	}
	return ret
}

func ref(name string, body []byte, mt time.Time) fsutil.FileReference {
	return &fsutil.InMemFileReference{
		FileInfo:  (&tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644, Size: int64(len(body)), ModTime: mt}).FileInfo(),
		MFullName: name,
		MContent:  body,
	}
}

var _ = io.EOF

func main() {
	h.Main(h.Config{
		ID:          "C26",
		Rule:        "random wheels with Python sources installed with CPython's compileall in every invalidation mode and under several umasks; every .pyc in the layer is decoded and checked against the source entry with CPython's rules; a recording stand-in compiler reports the tree, arguments and environment it was given, and fails on demand; non-trivial: at least one source",
		Require:     []string{"bytecode files verified", "bytecode entries judged", "compiler runs recorded", "sources seen by the compiler", "compiler failures", "search paths judged", "search paths of the caller", "unusual umasks", "future dated wheels", "large wheels"},
		Assumptions: []string{"sources inside a __pycache__ directory are not compiled by compileall and are not judged; times are compared to the second"},
	}, func(c *h.C) {
		c.Group("compileall", c.N(400, 5000), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{SubSec: true, Future: true, MaxFiles: 18})
			if t.P(0.04) {
				h.EnlargeWheel(t, w, t.Pick("source", "many", "deep", "script"))
				t.Observe("large wheels", 1)
			}
			plat := h.GenPlat(t)
			ps, conflict, _ := w.Place(plat)
			if conflict != "" {
				return
			}
			mode := t.Pick("", "timestamp", "checked-hash", "unchecked-hash", "timestamp")
			compiler := []string{t.Pick("python3", "/usr/bin/python3"), "-m", "compileall"}
			if mode != "" {
				compiler = append(compiler, "--invalidation-mode", mode)
			}
			if t.P(0.3) {
				compiler = append(compiler, "-q")
			}
			umask := []int{0, 0o022, 0o077, 0o027, 0o002, 0o177 & 0o077}[t.Intn(6)]
			t.Inputf(len(pySources(ps)) > 0, "compiler %q umask %o plat %+v\n%s", compiler, umask, plat, w)
			wf := t.WriteFile("in/demo-1.0-py3-none-any.whl", w.Bytes(), 0o644)
			yf := t.WriteFile("in/plat.yaml", h.PlatYAML(plat, compiler), 0o644)
			r := t.CLI(h.Cmd{Args: []string{"layer", "wheel", "--platform-file", yf, wf}, Umask: umask})
			if r.Code != 0 {
				t.Failf("failed: %s", r.Err)
			}
			if len(r.Left) > 0 {
				t.Errorf("left %q in the temporary directory", r.Left)
			}
			if umask != 0o022 {
				t.Observe("unusual umasks", 1)
			}
			if autoClamp(w).After(time.Now()) {
				t.Observe("future dated wheels", 1)
			}
			es, err := h.ParseTar(r.Out)
			if err != nil {
				t.Failf("output is not an archive: %v", err)
			}
			judgePyc(t, es, plat, autoClamp(w))
			verify(t, r.Out, mode, nil)
		})
		c.Group("stand-in", c.N(300, 4000), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{SubSec: true, Future: true, MaxFiles: 16})
			if t.P(0.04) {
				h.EnlargeWheel(t, w, t.Pick("source", "many", "deep"))
				t.Observe("large wheels", 1)
			}
			plat := h.GenPlat(t)
			ps, conflict, _ := w.Place(plat)
			if conflict != "" {
				return
			}
			mode := t.Pick("ok", "ok", "ok", "none", "fail", "kill", "failafter")
			log := filepath.Join(t.Scratch(), "log")
			si := t.WriteFile("bin/standin", []byte(standIn), 0o755)
			umask := []int{0, 0o022, 0o077, 0o027}[t.Intn(4)]
			want := pySources(ps)
			t.Inputf(len(want) > 0, "mode %s umask %o plat %+v\n%s", mode, umask, plat, w)
			wf := t.WriteFile("in/demo-1.0-py3-none-any.whl", w.Bytes(), 0o644)
			yf := t.WriteFile("in/plat.yaml", h.PlatYAML(plat, []string{si, log, mode, "extra arg"}), 0o644)
			tmp := filepath.Join(t.Scratch(), "tmpd")
			_ = os.Mkdir(tmp, 0o755)
			env := []string{"SOURCE_DATE_EPOCH=12345"}
			if t.P(0.5) {
				env = nil
			}
			own := t.Pick("", "", "/nonexistent/py", "/nonexistent/a:/nonexistent/b c")
			if own != "" {
				env = append(env, "PYTHONPATH="+own)
			}
			env = append(env, "VERIF_MARK=of the caller")
			r := t.CLI(h.Cmd{Args: []string{"layer", "wheel", "--platform-file", yf, wf}, Umask: umask, Tmp: tmp, Env: env})
			if len(r.Left) > 0 {
				t.Errorf("left %q in the temporary directory", r.Left)
			}
			lg := readLog(log)
			judgeSeen(t, lg, want, time.Time{}, "")
			if len(lg) == 1 {
				g := lg[0].Env["SOURCE_DATE_EPOCH"]
				var n int64
				fmt.Sscan(g, &n)
				lo, hi := autoClamp(w).Add(-2*time.Second).Unix(), autoClamp(w).Unix()
				if n < lo || n > hi {
					t.Errorf("the compiler was given SOURCE_DATE_EPOCH=%q, the clamp time of this wheel lies in [%d,%d]", g, lo, hi)
				}
				judgePath(t, lg[0], []string{strings.Trim(plat.Scheme.PureLib, "/"), strings.Trim(plat.Scheme.PlatLib, "/")}, false, own)
				if lg[0].Env["VERIF_MARK"] != "of the caller" {
					t.Errorf("the compiler was not given the caller's environment")
				}
				if len(lg[0].Argv) == 0 || lg[0].Argv[0] != "extra arg" {
					t.Errorf("the configured arguments were not passed on: %q", lg[0].Argv)
				}
			}
			if mode == "fail" || mode == "kill" || mode == "failafter" {
				if r.Code == 0 || len(r.Out) > 0 {
					t.Errorf("the compiler failed (%s), but the exit status is %d with %d bytes of output", mode, r.Code, len(r.Out))
				}
				t.Observe("compiler failures", 1)
				return
			}
			if r.Code != 0 {
				t.Failf("failed: %s", r.Err)
			}
			es, err := h.ParseTar(r.Out)
			if err != nil {
				t.Failf("output is not an archive: %v", err)
			}
			judgePyc(t, es, plat, autoClamp(w))
			var got, exp []string
			for _, e := range es {
				if strings.HasSuffix(e.Hdr.Name, ".rec-1.pyc") {
					got = append(got, e.Hdr.Name)
				}
				if path.Base(e.Hdr.Name) == "junk.txt" {
					t.Errorf("%q is not bytecode", e.Hdr.Name)
				}
			}
			if mode == "ok" {
				for n := range want {
					exp = append(exp, path.Join(path.Dir(n), "__pycache__", strings.TrimSuffix(path.Base(n), ".py")+".rec-1.pyc"))
				}
			}
			sort.Strings(got)
			sort.Strings(exp)
			if strings.Join(got, "\n") != strings.Join(exp, "\n") {
				t.Errorf("bytecode in the layer: %q, the compiler made %q", got, exp)
			}
		})
		c.Group("library", c.N(500, 8000), func(t *h.T) {
			log := filepath.Join(t.Scratch(), "log")
			si := t.WriteFile("bin/standin", []byte(standIn), 0o755)
			mode := t.Pick("ok", "ok", "ok", "fail", "kill", "none", "failafter")
			tmp := filepath.Join(t.Scratch(), "tmp d")
			_ = os.Mkdir(tmp, 0o755)
			old := os.Getenv("TMPDIR")
			os.Setenv("TMPDIR", tmp)
			defer os.Setenv("TMPDIR", old)
			um := []int{0, 0o022, 0o077}[t.Intn(3)]
			oldUm := syscall.Umask(um)
			defer syscall.Umask(oldUm)
			var clamp time.Time
			if t.P(0.8) {
				clamp = time.Unix(1000000000+t.Int63n(2000000000), 0)
				if t.P(0.1) {
					// before the epoch, and after the range of 32 bits
					clamp = time.Unix([]int64{-1, -86400 * 365, 0, 1, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<32 + 86400}[t.Intn(8)], 0)
				}
			}
			want := map[string]src{}
			var in []fsutil.FileReference
			for i, n := 0, t.Intn(8); i < n; i++ {
				name := path.Join(t.Pick("usr/lib/py", "a", "b c", "é"), t.Pick("", "x", "y/z", "__pycache__", "_", ".h"), t.Pick(fmt.Sprintf("m%d.py", i), fmt.Sprintf("m%d.py", i), "_.py", "__init__.py", "__main__.py", "a.b.py", ".py", "test_x.py", "A.py", "0.py", "a b.py", "é.py", "x.pyc.py"))
				if want[name].body != nil {
					continue
				}
				s := src{[]byte(fmt.Sprintf("X=%d\n", t.Intn(100))), time.Unix(900000000+t.Int63n(1500000000), int64(t.Intn(2))*t.Int63n(1e9))}
				want[name] = s
				in = append(in, ref(name, s.body, s.mt))
			}
			pyPath := [][]string{nil, {"usr/lib/py"}, {"usr/lib/py", "b c"}}[t.Intn(3)]
			var names []string
			for _, f := range in {
				names = append(names, f.FullName())
			}
			t.Inputf(len(in) > 0, "mode %s clamp %v umask %o path %q in %q", mode, clamp, um, pyPath, names)
			comp, err := python.ExternalCompiler(si, log, mode)
			if err != nil {
				t.Failf("ExternalCompiler: %v", err)
			}
			own := t.Pick("", "", "/nonexistent/py", "/nonexistent/a:/nonexistent/b c")
			if own != "" {
				os.Setenv("PYTHONPATH", own)
				defer os.Unsetenv("PYTHONPATH")
			}
			outs, err := comp(context.Background(), clamp, pyPath, in)
			if left, _ := os.ReadDir(tmp); len(left) > 0 {
				t.Errorf("left %v in the temporary directory", left)
			}
			lg := readLog(log)
			judgeSeen(t, lg, want, clamp, tmp)
			if len(lg) == 1 {
				judgePath(t, lg[0], pyPath, true, own)
			}
			if mode == "fail" || mode == "kill" || mode == "failafter" {
				if err == nil {
					t.Errorf("the compiler failed (%s) but there is no error", mode)
				}
				t.Observe("compiler failures", 1)
				return
			}
			if err != nil {
				t.Failf("compile failed: %v", err)
			}
			got := map[string]bool{}
			for _, o := range outs {
				if got[o.FullName()] {
					t.Errorf("%q was returned twice", o.FullName())
				}
				got[o.FullName()] = true
				if o.Mode() != 0o644 {
					t.Errorf("%q has mode %v", o.FullName(), o.Mode())
				}
				if !clamp.IsZero() && o.ModTime().After(clamp) {
					t.Errorf("%q is dated %v, after the clamp time", o.FullName(), o.ModTime())
				}
				r, err := o.Open()
				if err != nil {
					t.Failf("open: %v", err)
				}
				bs, _ := io.ReadAll(r)
				r.Close()
				if int64(len(bs)) != o.Size() || !bytes.HasPrefix(bs, []byte("REC ")) {
					t.Errorf("%q: %d bytes, size says %d", o.FullName(), len(bs), o.Size())
				}
			}
			n := 0
			if mode == "ok" {
				n = len(want)
				for w := range want {
					if !got[path.Join(path.Dir(w), "__pycache__", strings.TrimSuffix(path.Base(w), ".py")+".rec-1.pyc")] {
						t.Errorf("the bytecode of %q was not returned", w)
					}
				}
			}
			if len(outs) != n {
				t.Errorf("%d files returned, the compiler made %d", len(outs), n)
			}
		})
		for i, bad := range []string{"def f(:\n", "x = (\n", "\x00", "  indent\n", "x = '\xff'\n"} {
			bad := bad
			c.Directed(fmt.Sprintf("broken-source-%d", i), func(t *h.T) {
				w := h.GenWheel(t, h.WheelOpts{NoExotic: true, MaxFiles: 3})
				plat := h.GenPlat(t)
				w.Members = append(w.Members, h.Member{Name: "brokenpkg/broken.py", Body: []byte(bad), Unix: 0o100644, Creator: 3, Time: time.Unix(1400000000, 0)})
				w.Rows = nil
				if _, conflict, _ := w.Place(plat); conflict != "" {
					return
				}
				t.Inputf(true, "%q", bad)
				wf := t.WriteFile("in/demo-1.0-py3-none-any.whl", w.Bytes(), 0o644)
				yf := t.WriteFile("in/plat.yaml", h.PlatYAML(plat, []string{"python3", "-m", "compileall"}), 0o644)
				r := t.CLI(h.Cmd{Args: []string{"layer", "wheel", "--platform-file", yf, wf}})
				if r.Code == 0 || len(r.Out) > 0 {
					t.Errorf("compileall fails for this source, but the exit status is %d with %d bytes of output", r.Code, len(r.Out))
				}
				t.Observe("compiler failures", 1)
			})
		}
		for i, cl := range [][]string{{}, {"/nonexistent/python"}, {"no-such-python-anywhere"}} {
			cl := cl
			c.Directed(fmt.Sprintf("no-compiler-%d", i), func(t *h.T) {
				t.Inputf(true, "%q", cl)
				if _, err := python.ExternalCompiler(cl...); err == nil {
					t.Errorf("a missing compiler is accepted")
				}
			})
		}
	})
}
