// C21: a failing step always fails the command and leaves no debris.
package main

import (
	"archive/tar"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"

	"verif/h"
)

const uid = 54321

func must(err error) {
	if err != nil {
		h.Fatalf("%v", err)
	}
}

// -------------------------------------------------------------------------------------------------
// The world: inputs, tools and servers with which every command works.

type world struct {
	t    *h.T
	in   string // inputs, owned by root and readable
	user string // the user's directory, current directory of the runs
	bin  string // PATH

	layers  []string
	base    string
	tree    string
	treeAll []string
	wheel   string
	plat    string
	image   string // with a Python, for inspect
	host    string // with host Pythons
	dk      *h.Docker
	inImage string
	spec    h.PySpec
	srv     *httptest.Server
	mode    string // how the server fails
	whl     []byte
	whlName string
	logs    int
}

const goTool = `#!/bin/sh
set -e
out=; prev=
for a in "$@"; do
	case "$prev" in -o) out=$a;; esac
	case "$a" in -o=*) out=${a#-o=};; --o=*) out=${a#--o=};; esac
	prev=$a
done
case "$FAKE_MODE" in early) exit 1;; earlykill) kill -9 $$;; esac
echo "program one, which is somewhat longer" >"$out/one"
case "$FAKE_MODE" in partial) printf 'prog' >"$out/two"; exit 2;; partialkill) printf 'prog' >"$out/two"; kill -15 $$;; esac
echo "program two" >"$out/two"
case "$FAKE_MODE" in
	late) exit 1;;
	latekill) kill -9 $$;;
	lock) /bin/mkdir -p "$out/d/e"; echo x >"$out/d/e/f"; /bin/chmod 0555 "$out/d/e";;
	vanish) /bin/rm -rf "$out";;
esac
exit 0
`

// pyTool is a compiler that runs the real one.
const pyTool = `#!/bin/sh
set -e
for d in "$@"; do :; done
case "$FAKE_MODE" in early) exit 1;; earlykill) kill -9 $$;; esac
case "$FAKE_MODE" in partial) printf 'x' >"$d/a.pyc"; exit 3;; partialkill) printf 'x' >"$d/a.pyc"; kill -15 $$;; esac
/usr/bin/python3 -m compileall -q "$@" || exit $?
case "$FAKE_MODE" in
	late) exit 1;;
	latekill) kill -9 $$;;
	lock) /bin/mkdir -p "$d/locked"; echo x >"$d/locked/notes.txt"; /bin/chmod 0555 "$d/locked";;
	vanish) /bin/rm -rf "$d";;
	unreadable) echo x >"$d/secret.pyc"; /bin/chmod 0 "$d/secret.pyc";;
esac
exit 0
`

func newWorld(t *h.T, op string) *world {
	w := &world{t: t}
	w.user = t.OpenScratch(uid)
	sc := t.Scratch()
	w.in, w.bin = sc+"/in", sc+"/bin"
	must(os.MkdirAll(w.in, 0o755))
	t.WriteFile(w.bin+"/go", []byte(goTool), 0o755)
	t.WriteFile(w.bin+"/pycomp", []byte(pyTool), 0o755)
	switch op {
	case "squash", "image":
		for i := 0; i < 2+t.Intn(2); i++ {
			es := []h.Entry{file(fmt.Sprintf("big%d", i), t.Bytes(3000+t.Intn(40000)))}
			for k := 0; k < t.Intn(5); k++ {
				es = append(es, file(fmt.Sprintf("d%d/f%d", t.Intn(3), t.Intn(5)), t.Bytes(t.Intn(2000))))
			}
			if i > 0 && t.P(0.5) {
				es = append(es, file(".wh.big0", nil))
			}
			bs, err := h.TarBytes(es)
			must(err)
			if t.P(0.5) {
				bs = h.Gzip(bs)
			}
			w.layers = append(w.layers, t.WriteFile(fmt.Sprintf("%s/layer%d.tar", w.in, i), bs, 0o644))
		}
		bl, err := h.TarBytes([]h.Entry{file("base", t.Bytes(5000))})
		must(err)
		im := h.Image{Tags: []string{"base:1"}, Layers: [][]byte{bl}, Config: map[string]interface{}{"architecture": "amd64", "os": "linux", "config": map[string]interface{}{"Env": []string{"A=1"}}}}
		w.base = t.WriteFile(w.in+"/base.tar", im.Tar(t.P(0.5)), 0o644)
	case "dir":
		w.tree = w.in + "/tree"
		n := 2 + t.Intn(4)
		for i := 0; i < n; i++ {
			d := w.tree + []string{"", "/a", "/a/b", "/c d"}[t.Intn(4)]
			w.treeAll = append(w.treeAll, t.WriteFile(fmt.Sprintf("%s/f%d", d, i), t.Bytes([]int{10, 3000, 70000}[t.Intn(3)]), 0o644))
		}
		w.treeAll = append(w.treeAll, filepath.Dir(t.WriteFile(w.tree+"/sub/x", []byte("x"), 0o644)), w.tree)
		must(os.Symlink("x", w.tree+"/sub/link"))
		must(os.Link(w.tree+"/sub/x", w.tree+"/sub/hard"))
		w.treeAll = append(w.treeAll, w.tree+"/sub/link")
	case "wheel":
		for {
			wh := h.GenWheel(t, h.WheelOpts{NoExotic: true})
			p := h.GenPlat(t)
			if p.ConsoleShebang == "" {
				continue
			}
			wh.Members = append(wh.Members, h.Member{Name: "zzz/big.py", Body: []byte("# " + strings.Repeat("x", 3000) + "\nx = 1\n"), Unix: 0o100644, Creator: 3, Time: time.Unix(1e9, 0), Algo: "sha256"})
			wh.Rows = nil
			if _, conflict, bad := wh.Place(p); conflict != "" || bad != "" {
				continue
			}
			w.wheel = t.WriteFile(w.in+"/"+wh.Dist+"-py3-none-any.whl", wh.Bytes(), 0o644)
			w.plat = t.WriteFile(w.in+"/plat.yml", h.PlatYAML(p, []string{w.bin + "/pycomp"}), 0o644)
			break
		}
	case "inspect", "inspectimage":
		w.spec = h.PySpec{Magic: []byte{1, 2, 3, byte(t.Intn(256))}, Level: "final", Ver: [3]int{3, 9, t.Intn(20)}, Tags: []string{"cp39-cp39-linux_x86_64", "py3-none-any"}, Scheme: map[string]string{}}
		for _, k := range h.SchemeKeys {
			d := w.in + "/scheme/" + k
			must(os.MkdirAll(d, 0o755))
			w.spec.Scheme[k] = d
		}
		w.host = w.in + "/host"
		if op == "inspect" {
			w.spec.Install(t, w.host+"/python3")
			break
		}
		var es []h.Entry
		for _, k := range h.SchemeKeys {
			w.spec.Scheme[k] = "/py/" + k
			e := file("py/"+k+"/", nil)
			e.Hdr.Typeflag, e.Hdr.Mode = '5', 0o755
			es = append(es, e)
		}
		py := file("usr/bin/python3", []byte("#!interpreter"))
		py.Hdr.Mode = 0o755
		es = append(es, py, file("data", t.Bytes(100000)))
		bs, err := h.TarBytes(es)
		must(err)
		im := h.Image{Tags: []string{"py:1"}, Layers: [][]byte{bs}, Config: map[string]interface{}{"architecture": "amd64", "os": "linux", "config": map[string]interface{}{"Env": []string{"PATH=/usr/bin"}}}}
		w.image = t.WriteFile(w.in+"/image.tar", im.Tar(t.P(0.5)), 0o644)
		w.spec.Install(t, w.host+"/python3.9")
		if t.P(0.5) {
			// the host has another Python of its own
			other := w.spec
			other.Magic = []byte{9, 9, 9, 9}
			other.Scheme = map[string]string{}
			for _, k := range h.SchemeKeys {
				other.Scheme[k] = w.in
			}
			other.Install(t, w.host+"/python3")
		}
		w.dk = t.NewDocker(sc + "/docker")
		must(os.Chmod(w.dk.Dir, 0o777))
		w.inImage = w.in + "/inimage/python"
		w.spec.Install(t, w.inImage)
		w.dk.Entries(map[string]string{"/usr/bin/python3": w.inImage})
	case "getwheel":
		w.whl = t.Bytes(1000 + t.Intn(300000))
		w.whlName = "demo-1.0-py3-none-any.whl"
		w.srv = httptest.NewServer(http.HandlerFunc(w.serve))
	}
	return w
}

func file(name string, body []byte) h.Entry {
	e := h.Entry{Body: body}
	e.Hdr.Typeflag, e.Hdr.Name, e.Hdr.Mode, e.Hdr.ModTime = '0', name, 0o644, time.Unix(1e9, 0)
	return e
}

func (w *world) close() {
	if w.srv != nil {
		w.srv.Close()
	}
}

func (w *world) serve(rw http.ResponseWriter, r *http.Request) {
	part := "index"
	if strings.HasPrefix(r.URL.Path, "/f/") {
		part = "wheel"
	}
	sum := w.whl
	if w.mode == "wheel-hash" {
		sum = append([]byte("x"), w.whl...)
	}
	body := []byte(fmt.Sprintf("<!DOCTYPE html><html><body><a href=\"/f/%s#sha256=%x\">%s</a></body></html>\n", w.whlName, sha256.Sum256(sum), w.whlName))
	if w.mode == "index-absent" {
		body = []byte("<!DOCTYPE html><html><body><a href=\"/f/x\">demo-2.0-py3-none-any.whl</a></body></html>\n")
	}
	ct := "text/html"
	if part == "wheel" {
		body, ct = w.whl, "application/octet-stream"
	}
	rw.Header().Set("Content-Type", ct)
	if strings.HasPrefix(w.mode, part) {
		switch strings.TrimPrefix(w.mode, part+"-") {
		case "404":
			http.NotFound(rw, r)
			return
		case "500":
			http.Error(rw, "broken", http.StatusInternalServerError)
			return
		case "503body":
			rw.WriteHeader(http.StatusServiceUnavailable)
		case "abort":
			panic(http.ErrAbortHandler)
		case "short": // promises more than it sends
			rw.Header().Set("Content-Length", strconv.Itoa(len(body)))
			_, _ = rw.Write(body[:len(body)*2/3])
			return
		case "chunked": // cut in the middle of the chunks
			_, _ = rw.Write(body[:len(body)*2/3])
			rw.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		case "flip":
			body = append([]byte(nil), body...)
			body[len(body)/2] ^= 4
		case "garbage":
			c, _, err := rw.(http.Hijacker).Hijack()
			if err == nil {
				_, _ = io.WriteString(c, "220 mail.example.com ESMTP\r\n")
				_ = c.Close()
			}
			return
		}
	}
	_, _ = rw.Write(body)
}

// snapshot describes everything that a run must not change.
func (w *world) snapshot() map[string]string {
	ret := map[string]string{}
	for _, root := range []string{w.in, w.bin, w.user} {
		_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				ret[p] = err.Error()
				return nil
			}
			st := fi.Sys().(*syscall.Stat_t)
			s := fmt.Sprintf("%v %d:%d ino=%d", fi.Mode(), st.Uid, st.Gid, st.Ino)
			switch {
			case fi.Mode().IsRegular():
				bs, _ := os.ReadFile(p)
				s += fmt.Sprintf(" mtime=%d size=%d %x", fi.ModTime().UnixNano(), fi.Size(), sha256.Sum256(bs))
			case fi.Mode()&os.ModeSymlink != 0:
				l, _ := os.Readlink(p)
				s += " -> " + l
			default:
				if p != w.user {
					s += fmt.Sprintf(" mtime=%d", fi.ModTime().UnixNano())
				}
			}
			ret[p] = s
			return nil
		})
	}
	return ret
}

func diff(a, b map[string]string, except string) string {
	var bad []string
	for k, v := range a {
		if b[k] != v && k != except {
			bad = append(bad, fmt.Sprintf("%s was %s, is %s", k, v, b[k]))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok && k != except {
			bad = append(bad, fmt.Sprintf("%s appeared: %s", k, v))
		}
	}
	sort.Strings(bad)
	return strings.Join(bad, "\n")
}

// -------------------------------------------------------------------------------------------------
// The commands.

type op struct {
	w      *world
	name   string
	args   []string
	out    string   // the output file; "" for stdout
	inputs []string // input files that the command has to read
	good   []byte   // what it writes when nothing fails
}

var opNames = []string{"dir", "squash", "image", "wheel", "gobuild", "gobuildout", "inspect", "inspectimage", "getwheel"}

func newOp(t *h.T, name string) *op {
	w := newWorld(t, name)
	o := &op{w: w, name: name}
	switch name {
	case "dir":
		o.args = []string{"layer", "dir", w.tree}
		if t.P(0.5) {
			o.args = append(o.args, "--prefix=opt/x")
		}
	case "squash":
		o.args = append([]string{"layer", "squash"}, w.layers...)
		o.inputs = w.layers
	case "image":
		o.args = append([]string{"image", "build", "-t", "foo:bar", "-e", "X=y"}, w.layers...)
		o.inputs = w.layers
		if t.P(0.7) {
			o.args = append(o.args, "--base="+w.base)
			o.inputs = append(append([]string(nil), w.layers...), w.base)
		}
	case "wheel":
		o.args = []string{"layer", "wheel", "--platform-file", w.plat, w.wheel}
		o.inputs = []string{w.plat, w.wheel}
	case "gobuild":
		o.args = []string{"layer", "gobuild", "./..."}
	case "gobuildout":
		o.out = w.user + "/out.tar"
		o.args = []string{"layer", "gobuild", "--output", o.out, "./..."}
	case "inspect":
		o.args = []string{"python", "inspect", "--interpreter=" + w.host + "/python3"}
		if t.P(0.5) {
			o.args = []string{"python", "inspect"}
		}
	case "inspectimage":
		o.args = []string{"python", "inspect", "--imagefile=" + w.image}
		o.inputs = []string{w.image}
	case "getwheel":
		o.args = []string{"python", "getwheel", "--index-server=" + w.srv.URL + "/simple/", w.whlName}
	}
	return o
}

func (o *op) cmd() h.Cmd {
	c := h.Cmd{Args: o.args, UID: uid, Dir: o.w.user}
	p := o.w.bin
	if o.w.host != "" {
		p = o.w.host + ":" + p
	}
	if o.w.dk != nil {
		p = o.w.dk.Bin + ":" + p
	}
	c.Env = []string{"PATH=" + p, "SOURCE_DATE_EPOCH=1600000000", "HOME=" + o.w.user}
	return c
}

// output gives what the run wrote.
func (o *op) output(r h.Result) []byte {
	if o.out == "" {
		return r.Out
	}
	bs, err := os.ReadFile(o.out)
	if err != nil {
		return nil
	}
	return bs
}

// fault is something that goes wrong.
type fault struct {
	name string
	// apply makes it so; undo is called after the run
	apply func(c *h.Cmd) (undo func())
	must  bool // the command cannot succeed
	left  bool // temporary files cannot be removed
	mute  bool // a diagnostic cannot be expected
	crash bool // the language runtime may give up
	// fired says after the run if the fault took place (nil: always)
	fired func() bool
	// got gives the output if it is not in the usual place
	got func() []byte
}

var nop = func() {}

// diagnostic says if stderr explains something.
func diagnostic(errb []byte) bool {
	for _, l := range strings.Split(string(errb), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || (strings.Contains(l, "level=") && !strings.Contains(l, "level=error") && !strings.Contains(l, "level=fatal")) {
			continue
		}
		if strings.HasPrefix(l, "tool:") {
			continue
		}
		return true
	}
	return false
}

func (o *op) run(t *h.T, f *fault) {
	w := o.w
	c := o.cmd()
	undo := nop
	if f.apply != nil {
		undo = f.apply(&c)
		if undo == nil {
			return // not applicable here
		}
	}
	before := w.snapshot()
	c.MayCrash = true
	r := t.CLI(c)
	after := w.snapshot()
	got := o.output(r)
	if f.got != nil {
		got = f.got()
	}
	fired := f.fired == nil || f.fired()
	undo()
	if o.out != "" {
		_ = os.RemoveAll(o.out)
	}
	what := fmt.Sprintf("%s with %s", o.name, f.name)
	if !fired {
		t.Observe("faults_not_reached", 1)
	} else {
		t.Observe("faults_injected", 1)
		t.State("fault", o.name+"/"+strings.SplitN(f.name, ":", 2)[0])
	}
	show := fmt.Sprintf("%q\nexit status %d %s\nstdout: %d bytes\nstderr: %.2000s", c.Args, r.Code, r.Signal, len(got), r.Err)
	switch {
	case r.Code == 0 && f.must && fired:
		t.Failf("%s: exits with status 0\n%s", what, show)
	case r.Code == 0:
		t.Observe("survived", 1)
		if !bytes.Equal(got, o.good) {
			t.Failf("%s: exits with status 0, but the output (%d bytes) is not the complete one (%d bytes)\n%s", what, len(got), len(o.good), show)
		}
	default:
		t.Observe("failures_reported", 1)
		if f.name == "nothing" || !fired {
			t.Failf("%s: fails although nothing is wrong\n%s", what, show)
		}
		if !f.mute && !diagnostic(r.Err) {
			t.Failf("%s: fails without saying why\n%s", what, show)
		}
		if !f.crash && (bytes.Contains(r.Err, []byte("panic:")) || bytes.Contains(r.Err, []byte("fatal error:"))) {
			t.Failf("%s: crashes\n%s", what, show)
		}
	}
	if len(r.Left) > 0 && !f.left {
		t.Failf("%s: leaves %q behind\n%s", what, r.Left, show)
	}
	except := ""
	if o.out != "" {
		except = o.out
	}
	if d := diff(before, after, except); d != "" {
		t.Failf("%s: changes the file system:\n%s\n%s", what, d, show)
	}
	t.Observe("runs_judged", 1)
}

// -------------------------------------------------------------------------------------------------
// The faults.

// limited runs the program under a resource limit.
func limited(flag string, n int) []string {
	return []string{"/bin/sh", "-c", `ulimit ` + flag + ` "$1" || exit 99; shift; exec "$@"`, "sh", strconv.Itoa(n)}
}

var straceOK = func() bool {
	return exec.Command("/usr/bin/strace", "-f", "-qq", "-o", "/dev/null", "/bin/true").Run() == nil
}()

// inject makes system calls on a path fail.
func (o *op) inject(path, calls, errno string, when string, lenient bool) *fault {
	var log string
	f := &fault{name: fmt.Sprintf("syscall %s %s:%s when=%s", calls, errno, strings.TrimPrefix(path, o.w.t.Scratch()), when)}
	f.must = !lenient
	f.apply = func(c *h.Cmd) func() {
		if !straceOK {
			return nil
		}
		o.w.logs++
		log = fmt.Sprintf("%s/strace.%d", o.w.t.Scratch(), o.w.logs)
		must(os.WriteFile(log, nil, 0o666))
		must(os.Chmod(log, 0o666))
		c.Wrap = []string{"/usr/bin/strace", "-f", "-qq", "-o", log, "-P", path, "-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:error=%s:when=%s", calls, errno, when)}
		return nop
	}
	f.fired = func() bool {
		bs, _ := os.ReadFile(log)
		if bytes.Contains(bs, []byte("(INJECTED)")) {
			o.w.t.Observe("syscalls_failed", bytes.Count(bs, []byte("(INJECTED)")))
			return true
		}
		return false
	}
	return f
}

func rename(a, b string) { must(os.Rename(a, b)) }

// replaced puts something else in place of an input.
func replaced(fn string, put func(aside string) bool) func(c *h.Cmd) func() {
	return func(c *h.Cmd) func() {
		dirOf := filepath.Dir(filepath.Dir(fn))
		aside := filepath.Join(dirOf, "aside."+filepath.Base(fn))
		rename(fn, aside)
		ok := put(aside)
		undo := func() {
			must(os.RemoveAll(fn))
			rename(aside, fn)
		}
		if !ok {
			undo()
			return nil
		}
		return undo
	}
}

func (o *op) inputFaults(t *h.T) (fs []*fault) {
	w := o.w
	for _, fn := range o.inputs {
		fn := fn
		b := filepath.Base(fn)
		add := func(name string, put func(aside string) bool) {
			fs = append(fs, &fault{name: name + ":" + b, must: true, apply: replaced(fn, put)})
		}
		add("missing input", func(string) bool { return true })
		add("unreadable input", func(a string) bool {
			bs, err := os.ReadFile(a)
			must(err)
			must(os.WriteFile(fn, bs, 0o600))
			return true
		})
		add("directory for input", func(string) bool { must(os.Mkdir(fn, 0o755)); return true })
		add("dangling link for input", func(string) bool { must(os.Symlink("nowhere", fn)); return true })
		add("link loop for input", func(string) bool { must(os.Symlink(b, fn)); return true })
		add("unreadable medium for input", func(string) bool { must(os.Symlink("/proc/self/mem", fn)); return true })
		add("no permission to get to input", func(a string) bool {
			d := w.in + "/closed"
			must(os.MkdirAll(d, 0o700))
			bs, err := os.ReadFile(a)
			must(err)
			must(os.WriteFile(d+"/"+b, bs, 0o644))
			must(os.Symlink("closed/"+b, fn))
			return true
		})
		cut := func(a string, at func(n int) int) bool {
			bs, err := os.ReadFile(a)
			must(err)
			gz := bytes.HasPrefix(bs, []byte{0x1f, 0x8b})
			bs = bs[:at(len(bs))]
			switch {
			case o.name == "squash" || (o.name == "image" && fn != w.base):
				if gz {
					if len(bs) < 2 {
						return false // not recognisable any more
					}
				} else {
					if o.name == "image" {
						return false // any bytes are a layer
					}
					if _, err := h.ParseTar(bs); err == nil {
						return false
					}
				}
			case fn == w.base || fn == w.image:
				if _, err := h.DecodeImage(bs); err == nil {
					return false
				}
			case fn == w.plat:
				return false
			}
			must(os.WriteFile(fn, bs, 0o644))
			return true
		}
		for i := 0; i < 3; i++ {
			add("truncated input", func(a string) bool { return cut(a, func(n int) int { return t.Intn(n) }) })
			fs[len(fs)-1].must = fn != w.base && fn != w.image // an archive may lack its trailer
		}
		add("input without its end", func(a string) bool { return cut(a, func(n int) int { return n - 1 - t.Intn(12) }) })
		fs[len(fs)-1].must = fn != w.base && fn != w.image
		add("corrupt compressed input", func(a string) bool {
			bs, err := os.ReadFile(a)
			must(err)
			if !bytes.HasPrefix(bs, []byte{0x1f, 0x8b}) || o.name == "inspectimage" || fn == w.base {
				return false
			}
			bs[len(bs)-1-t.Intn(8)] ^= 1 << uint(t.Intn(8)) // checksum and length
			must(os.WriteFile(fn, bs, 0o644))
			return true
		})
		if fn == w.plat {
			for i, txt := range []string{"{", "- a\n- b\n", "PyCompile: 3\n", "Unknown: 1\n", "", "UID: [1]\n", "\x00\x01"} {
				txt := txt
				fs = append(fs, &fault{name: fmt.Sprintf("bad platform file %d", i), must: true, apply: replaced(fn, func(string) bool { must(os.WriteFile(fn, []byte(txt), 0o644)); return true })})
			}
		}
		if fn == w.wheel || fn == w.image || fn == w.base {
			add("garbage for input", func(string) bool { must(os.WriteFile(fn, t.Bytes(5000), 0o644)); return true })
			add("empty input", func(string) bool { must(os.WriteFile(fn, nil, 0o644)); return true })
		}
		fs = append(fs,
			o.inject(fn, "open,openat,openat2", t.Pick("EACCES", "EIO", "EMFILE", "ENFILE", "ENOMEM"), strconv.Itoa(1+t.Intn(5)), true),
			o.inject(fn, "read,pread64,readv,copy_file_range,sendfile,splice,mmap", t.Pick("EIO", "EIO", "ESTALE", "EISDIR"), strconv.Itoa(1+t.Intn(6)), true),
			o.inject(fn, "read,pread64,readv,copy_file_range,sendfile,splice,mmap", "EIO", strconv.Itoa(1+t.Intn(12))+"+", true),
			o.inject(fn, "read,pread64,readv,copy_file_range,sendfile,splice,mmap", "EIO", "1+", false),
		)
	}
	if o.name == "dir" {
		for _, fn := range w.treeAll {
			fi, err := os.Lstat(fn)
			must(err)
			calls := "open,openat,openat2,read,pread64,readv,copy_file_range,sendfile,splice,mmap"
			switch {
			case fi.IsDir():
				calls = "open,openat,openat2,getdents64"
			case fi.Mode()&os.ModeSymlink != 0:
				calls = "readlink,readlinkat"
			}
			for _, call := range strings.Split(calls, ",") {
				if call == "open" || call == "openat2" || call == "readv" || call == "readlink" || call == "mmap" || call == "splice" || call == "sendfile" {
					continue // what another implementation might use goes with the others
				}
				fs = append(fs, o.inject(fn, call, t.Pick("EIO", "EACCES", "ENOMEM"), strconv.Itoa(1+t.Intn(3)), true))
			}
			fs = append(fs, o.inject(fn, calls, "EIO", "1+", false))
			fs = append(fs, o.inject(fn, "newfstatat,lstat,stat,statx", t.Pick("EIO", "EACCES"), strconv.Itoa(1+t.Intn(3)), true))
			if fi.Mode()&os.ModeSymlink == 0 {
				fn := fn
				fs = append(fs, &fault{name: "unreadable entry:" + filepath.Base(fn), must: true, apply: func(*h.Cmd) func() {
					must(os.Chmod(fn, 0))
					return func() { must(os.Chmod(fn, fi.Mode().Perm())) }
				}})
			}
		}
		add := func(name string, put func(aside string) bool) {
			fs = append(fs, &fault{name: name, must: true, apply: replaced(w.tree, put)})
		}
		add("missing directory", func(string) bool { return true })
		add("file for directory", func(string) bool { must(os.WriteFile(w.tree, []byte("x"), 0o644)); return true })
		add("dangling link for directory", func(string) bool { must(os.Symlink("nowhere", w.tree)); return true })
		add("link loop for directory", func(string) bool { must(os.Symlink("tree", w.tree)); return true })
		fs = append(fs, &fault{name: "unsearchable directory", must: true, apply: func(*h.Cmd) func() {
			must(os.Chmod(w.tree, 0o444))
			return func() { must(os.Chmod(w.tree, 0o755)) }
		}})
	}
	return fs
}

func (o *op) outputFaults(t *h.T) (fs []*fault) {
	w := o.w
	if o.out != "" {
		old := func(c *h.Cmd) { must(os.WriteFile(o.out, layer("old"), 0o644)); must(os.Chown(o.out, uid, uid)) }
		in := func(d string) func(c *h.Cmd) {
			return func(c *h.Cmd) {
				c.Args = append([]string(nil), c.Args...)
				c.Args[3] = d
			}
		}
		fs = append(fs,
			&fault{name: "an old output", apply: func(c *h.Cmd) func() { old(c); return nop }},
			&fault{name: "the same old output", apply: func(c *h.Cmd) func() {
				must(os.WriteFile(o.out, o.good, 0o644))
				must(os.Chown(o.out, uid, uid))
				return nop
			}},
			&fault{name: "output in a missing directory", must: true, apply: func(c *h.Cmd) func() { in(w.user + "/missing/out.tar")(c); return nop }},
			&fault{name: "output below a file", must: true, apply: func(c *h.Cmd) func() { in(w.bin + "/go/out.tar")(c); return nop }},
			&fault{name: "output in a read-only directory", must: true, apply: func(c *h.Cmd) func() { in(w.in + "/out.tar")(c); return nop }},
			&fault{name: "old output in a read-only directory", must: true, apply: func(c *h.Cmd) func() {
				fn := w.in + "/out.tar"
				must(os.WriteFile(fn, layer("old"), 0o666))
				must(os.Chmod(fn, 0o666))
				in(fn)(c)
				return func() { must(os.Remove(fn)) }
			}},
			&fault{name: "directory for output", must: true, apply: func(c *h.Cmd) func() {
				must(os.Mkdir(w.user+"/d", 0o777))
				must(os.Chown(w.user+"/d", uid, uid))
				in(w.user + "/d")(c)
				return func() { must(os.RemoveAll(w.user + "/d")) }
			}},
			&fault{name: "unreadable old output", apply: func(c *h.Cmd) func() {
				must(os.WriteFile(o.out, layer("old"), 0))
				must(os.Chmod(o.out, 0))
				return nop
			}},
			&fault{name: "corrupt old output", apply: func(c *h.Cmd) func() {
				must(os.WriteFile(o.out, t.Bytes(3000), 0o644))
				return nop
			}},
			&fault{name: "file size limit for output", must: true, crash: true, left: true, apply: func(c *h.Cmd) func() { c.Wrap = limited("-f", 1+t.Intn(3)); return nop }},
			o.inject(o.out, "write,writev,pwrite64", t.Pick("ENOSPC", "EIO", "EDQUOT"), strconv.Itoa(1+t.Intn(3)), false),
			o.inject(o.out, "write,writev,pwrite64", t.Pick("ENOSPC", "EIO", "EDQUOT"), "1", false),
			o.inject(o.out, "close", t.Pick("ENOSPC", "EIO", "EDQUOT"), "1", false),
			o.inject(o.out, "open,openat,openat2,creat", t.Pick("ENOSPC", "EACCES", "EROFS"), strconv.Itoa(1+t.Intn(2)), true),
		)
		return fs
	}
	open := func(name string, flag int) func(c *h.Cmd) func() {
		return func(c *h.Cmd) func() {
			f, err := os.OpenFile(name, flag, 0)
			must(err)
			c.Stdout = f
			return func() { _ = f.Close() }
		}
	}
	// to a file
	outFile := w.t.Scratch() + "/stdout"
	toFile := func(c *h.Cmd) func() {
		f, err := os.OpenFile(outFile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
		must(err)
		c.Stdout = f
		return func() { _ = f.Close() }
	}
	got := func() []byte { bs, _ := os.ReadFile(outFile); return bs }
	fs = append(fs,
		&fault{name: "stdout full", must: true, apply: open("/dev/full", os.O_WRONLY)},
		&fault{name: "stdout not writable", must: true, apply: open("/dev/null", os.O_RDONLY)},
		&fault{name: "stdout closed", must: true, apply: func(c *h.Cmd) func() { c.Wrap = []string{"/bin/sh", "-c", `exec "$@" >&-`, "sh"}; return nop }},
		&fault{name: "stdin and stdout closed", must: true, apply: func(c *h.Cmd) func() { c.Wrap = []string{"/bin/sh", "-c", `exec "$@" <&- >&-`, "sh"}; return nop }},
		&fault{name: "stdout without reader", must: true, mute: true, apply: func(c *h.Cmd) func() {
			r, wr, err := os.Pipe()
			must(err)
			_ = r.Close()
			c.Stdout = wr
			return func() { _ = wr.Close() }
		}},
		&fault{name: "stdout to a file", apply: toFile, got: got},
	)
	for i := 0; i < 2; i++ {
		var lim int
		fs = append(fs, &fault{name: "file size limit for stdout", crash: true, left: true, got: got, apply: func(c *h.Cmd) func() {
			lim = 1 + t.Intn(1+len(o.good)/512)
			c.Wrap = limited("-f", lim)
			return toFile(c)
		}})
		// strace knows the file by its name
		in := o.inject(outFile, "write,writev,pwrite64,copy_file_range,sendfile,splice", t.Pick("ENOSPC", "EIO", "EDQUOT"), strconv.Itoa(1+i*t.Intn(4)), false)
		ap := in.apply
		in.got = got
		in.apply = func(c *h.Cmd) func() {
			if ap(c) == nil {
				return nil
			}
			return toFile(c)
		}
		fs = append(fs, in)
	}
	return fs
}

func layer(body string) []byte {
	bs, err := h.TarBytes([]h.Entry{file("f", []byte(body))})
	must(err)
	return bs
}

// brokenTool gives the ways in which a program cannot be started.
func brokenTool(t *h.T, fn, what string) (fs []*fault) {
	for name, put := range map[string]func(aside string) bool{
		"missing " + what:        func(string) bool { return true },
		"not executable " + what: func(a string) bool { t.WriteFile(fn, []byte("#!/bin/sh\nexit 0\n"), 0o644); return true },
		"corrupt " + what:        func(a string) bool { t.WriteFile(fn, []byte("\x7fELFxxxx\x00\x01"), 0o755); return true },
		"uninterpretable " + what: func(a string) bool {
			t.WriteFile(fn, []byte("#!/nonexistent/interpreter\n"), 0o755)
			return true
		},
		"directory for " + what: func(a string) bool { must(os.Mkdir(fn, 0o755)); return true },
	} {
		fs = append(fs, &fault{name: name, must: true, apply: replaced(fn, put)})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].name < fs[j].name })
	return fs
}

func (o *op) toolFaults(t *h.T) (fs []*fault) {
	w := o.w
	modes := func(what string, more ...string) {
		for _, m := range append([]string{"early", "earlykill", "partial", "partialkill", "late", "latekill", "lock", "vanish"}, more...) {
			m := m
			fs = append(fs, &fault{name: what + " " + m, must: true, left: m == "lock", apply: func(c *h.Cmd) func() {
				c.Env = append(c.Env, "FAKE_MODE="+m)
				return nop
			}})
		}
	}
	// interp replaces an interpreter by one that misbehaves.
	interp := func(fn, what string) {
		for _, b := range []string{"exit", "garbage", "killed", "empty"} {
			b := b
			fs = append(fs, &fault{name: what + " " + b, must: true, apply: replaced(fn, func(string) bool { (h.PySpec{Broken: b}).Install(t, fn); return true })})
		}
		for name, script := range map[string]string{
			"cut":      `out=$('REAL' "$@") || exit 1; printf %s "${out%????}"`,
			"half":     `out=$('REAL' "$@") || exit 1; printf %.100s "$out"`,
			"lateexit": `'REAL' "$@"; exit 4`,
			"latekill": `'REAL' "$@"; kill -9 $$`,
			// an answer which is no answer
			"nomagic": `out=$('REAL' "$@") || exit 1; m='` + base64.StdEncoding.EncodeToString(w.spec.Magic) + `'; case "$out" in *"$m"*) printf '%s!!!!%s' "${out%%"$m"*}" "${out#*"$m"}";; *) exit 7;; esac`,
		} {
			name, script := name, script
			fs = append(fs, &fault{name: what + " " + name, must: true, apply: replaced(fn, func(a string) bool {
				t.WriteFile(fn, []byte("#!/bin/sh\n"+strings.ReplaceAll(script, "REAL", a)+"\n"), 0o755)
				return true
			})})
		}
		sort.SliceStable(fs, func(i, j int) bool { return fs[i].name < fs[j].name })
	}
	switch o.name {
	case "gobuild", "gobuildout":
		fs = append(fs, brokenTool(t, w.bin+"/go", "go")...)
		modes("go")
	case "wheel":
		fs = append(fs, brokenTool(t, w.bin+"/pycomp", "compiler")...)
		modes("compiler", "unreadable")
	case "inspect":
		fs = append(fs, brokenTool(t, w.host+"/python3", "interpreter")...)
		interp(w.host+"/python3", "interpreter")
	case "inspectimage":
		fs = append(fs, brokenTool(t, w.dk.Bin+"/docker", "docker")...)
		fs = append(fs, brokenTool(t, w.host+"/python3.9", "host interpreter")...)
		interp(w.inImage, "image interpreter")
		interp(w.host+"/python3.9", "host interpreter")
		for _, cmd := range []string{"load", "run", "rm"} {
			for _, st := range []h.DockerStep{{Exit: 1}, {Exit: 125, Apply: true}, {Signal: 9}, {Signal: 15, Apply: true}, {Read: -1, Exit: 1}, {Read: 1000, Exit: 1}, {Read: -1, Close: true, Exit: 1}} {
				cmd, st := cmd, st
				if cmd != "load" && st.Read != 0 {
					continue
				}
				fs = append(fs, &fault{name: fmt.Sprintf("docker %s %+v", cmd, st), must: true, apply: func(*h.Cmd) func() {
					w.dk.Plan(map[string]h.DockerStep{cmd: st})
					return func() { w.dk.Plan(map[string]h.DockerStep{}); _ = os.RemoveAll(w.dk.Dir + "/tags") }
				}})
			}
		}
	case "getwheel":
		for _, m := range []string{"index-404", "index-500", "index-503body", "index-abort", "index-short", "index-chunked", "index-garbage", "index-absent",
			"wheel-404", "wheel-500", "wheel-503body", "wheel-abort", "wheel-short", "wheel-chunked", "wheel-garbage", "wheel-flip", "wheel-hash"} {
			m := m
			fs = append(fs, &fault{name: "server " + m, must: true, apply: func(*h.Cmd) func() {
				w.mode = m
				return func() { w.mode = "" }
			}})
		}
		for _, bad := range []string{"proj.whl", "proj-1.0.tar.gz", "proj-x-py3-none-any.whl", "", "proj-1.0-x-py3-none-any.whl", "/proj-1.0-py3-none-any.whl"} {
			bad := bad
			fs = append(fs, &fault{name: "no wheel name " + bad, must: true, apply: func(c *h.Cmd) func() {
				c.Args = append([]string(nil), c.Args...)
				c.Args[len(c.Args)-1] = bad
				return nop
			}})
		}
		for _, bad := range []string{"http://", ":", "http://[::1", "/simple/", "ftp://127.0.0.1/simple/"} {
			bad := bad
			fs = append(fs, &fault{name: "no server " + bad, must: true, apply: func(c *h.Cmd) func() {
				c.Args = append([]string(nil), c.Args...)
				c.Args[2] = "--index-server=" + bad
				return nop
			}})
		}
		fs = append(fs, &fault{name: "server away", must: true, apply: func(c *h.Cmd) func() {
			c.Args = append([]string(nil), c.Args...)
			c.Args[2] = "--index-server=http://127.0.0.1:1/simple/"
			return nop
		}})
	}
	return fs
}

func (o *op) tmpFaults(t *h.T) (fs []*fault) {
	need := o.name == "wheel" || o.name == "gobuild" || o.name == "gobuildout"
	sc := t.Scratch()
	add := func(name string, mk func() string) {
		fs = append(fs, &fault{name: name, must: need, apply: func(c *h.Cmd) func() {
			c.Tmp = mk()
			return nop
		}})
	}
	add("TMPDIR missing", func() string { return sc + "/no/such/dir" })
	add("TMPDIR not writable", func() string { _ = os.Mkdir(sc+"/tmpro", 0o755); return sc + "/tmpro" })
	add("TMPDIR not searchable", func() string { _ = os.Mkdir(sc+"/tmpns", 0o700); return sc + "/tmpns" })
	add("TMPDIR a file", func() string { return t.WriteFile(sc+"/tmpfile", nil, 0o666) })
	if o.out == "" {
		for i := 0; i < 3; i++ {
			fs = append(fs, &fault{name: "file size limit for temporary files", left: false, crash: true, apply: func(c *h.Cmd) func() {
				c.Wrap = limited("-f", t.Intn(6))
				return nop
			}})
		}
	}
	for i := 0; i < 3; i++ {
		fs = append(fs, &fault{name: "few file descriptors", left: true, crash: true, apply: func(c *h.Cmd) func() {
			c.Wrap = limited("-n", 3+t.Intn(16))
			return nop
		}})
	}
	return fs
}

// mute: the diagnostic cannot be written either.
func (o *op) muteFaults(fs []*fault) (ret []*fault) {
	for _, f := range fs {
		if !f.must || f.fired != nil {
			continue
		}
		f := *f
		ap := f.apply
		f.name, f.mute = "stderr full and "+f.name, true
		f.apply = func(c *h.Cmd) func() {
			undo := ap(c)
			if undo == nil {
				return nil
			}
			e, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			must(err)
			c.Stderr = e
			return func() { _ = e.Close(); undo() }
		}
		ret = append(ret, &f)
	}
	return ret
}

func (o *op) faults(t *h.T) []*fault {
	var fs []*fault
	fs = append(fs, o.inputFaults(t)...)
	fs = append(fs, o.outputFaults(t)...)
	fs = append(fs, o.toolFaults(t)...)
	fs = append(fs, o.tmpFaults(t)...)
	return fs
}

func campaign(t *h.T, name string, limit int) {
	o := newOp(t, name)
	defer o.w.close()
	c := o.cmd()
	before := o.w.snapshot()
	c.MayCrash = true
	r := t.CLI(c)
	o.good = o.output(r)
	if r.Code != 0 || len(o.good) == 0 {
		t.Failf("%q fails although nothing is wrong: status %d\n%s", c.Args, r.Code, r.Err)
	}
	if len(r.Left) > 0 {
		t.Failf("%q succeeds and leaves %q behind", c.Args, r.Left)
	}
	if d := diff(before, o.w.snapshot(), o.out); d != "" {
		t.Failf("%q changes the file system:\n%s", c.Args, d)
	}
	t.Observe("clean_runs", 1)
	if o.out != "" {
		must(os.Remove(o.out))
	}
	fs := o.faults(t)
	if limit > 0 {
		m := o.muteFaults(fs)
		t.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
		if len(m) > 3 {
			m = m[:3]
		}
		fs = append(fs, m...)
		t.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		if len(fs) > limit {
			fs = fs[:limit]
		}
	} else {
		fs = append(fs, o.muteFaults(fs)...)
	}
	fs = append(fs, &fault{name: "nothing"})
	t.Inputf(true, "%s: %d faults, output of %d bytes, args %q", name, len(fs), len(o.good), o.args)
	for _, f := range fs {
		o.run(t, f)
	}
}

// -------------------------------------------------------------------------------------------------
// layers whose stream fails while it is written out

type badStream struct {
	ociv1.Layer
	bs                         []byte
	openErr, readErr, closeErr error
	at                         int
	opened, closed             int
}

func (b *badStream) Uncompressed() (io.ReadCloser, error) {
	if b.openErr != nil {
		return nil, b.openErr
	}
	b.opened++
	return &badReader{b: b}, nil
}

type badReader struct {
	b   *badStream
	pos int
}

func (r *badReader) Read(p []byte) (int, error) {
	lim := len(r.b.bs)
	if r.b.readErr != nil {
		lim = r.b.at
	}
	n := copy(p, r.b.bs[r.pos:lim])
	r.pos += n
	if r.pos == lim {
		if r.b.readErr != nil {
			return n, r.b.readErr
		}
		return n, io.EOF
	}
	return n, nil
}

func (r *badReader) Close() error {
	r.b.closed++
	return r.b.closeErr
}

type badSink struct {
	buf []byte
	at  int
}

func (b *badSink) Write(p []byte) (int, error) {
	n := b.at - len(b.buf)
	if n < len(p) {
		b.buf = append(b.buf, p[:n]...)
		return n, syscall.ENOSPC
	}
	b.buf = append(b.buf, p...)
	return len(p), nil
}

func streams(t *h.T) {
	bs := t.Bytes([]int{0, 1, 512, 1024, 32768, 32769, 100000}[t.Intn(7)])
	l := &badStream{bs: bs}
	sink := &badSink{at: 1 << 30}
	boom := fmt.Errorf("injected failure")
	what := t.Pick("none", "open", "read", "close", "write", "read+close", "write+close")
	if strings.Contains(what, "open") {
		l.openErr = boom
	}
	if strings.Contains(what, "read") {
		l.readErr, l.at = boom, t.Intn(len(bs)+1)
	}
	if strings.Contains(what, "close") {
		l.closeErr = fmt.Errorf("injected failure when closing")
	}
	if strings.Contains(what, "write") {
		if len(bs) == 0 {
			return
		}
		sink.at = t.Intn(len(bs))
	}
	t.Inputf(what != "none", "writing a layer of %d bytes, failing: %s at %d/%d", len(bs), what, l.at, sink.at)
	err := fsutil.WriteLayer(l, sink)
	t.Observe("streams", 1)
	t.State("stream", what)
	if (err == nil) != (what == "none") {
		t.Errorf("failing: %s, but the error is %v", what, err)
	}
	if what == "none" && !bytes.Equal(sink.buf, bs) {
		t.Errorf("wrote %d bytes, want %d", len(sink.buf), len(bs))
	}
	if !bytes.HasPrefix(bs, sink.buf) {
		t.Errorf("failing: %s: wrote something that is not a part of the layer", what)
	}
	if l.closed < l.opened {
		t.Errorf("failing: %s: opened %d streams, closed %d", what, l.opened, l.closed)
	}
}

// -------------------------------------------------------------------------------------------------
// files that cannot be read, as every library step that reads files sees them

type badRef struct {
	fsutil.InMemFileReference
	what           string
	at             int
	opened, closed int
}

func (b *badRef) Open() (io.ReadCloser, error) {
	if b.what == "open" {
		return nil, fmt.Errorf("injected failure when opening")
	}
	b.opened++
	return &badRefReader{b: b}, nil
}

type badRefReader struct {
	b   *badRef
	pos int
}

func (r *badRefReader) Read(p []byte) (int, error) {
	bs := r.b.MContent
	lim := len(bs)
	if r.b.what == "read" || r.b.what == "short" {
		lim = r.b.at
	}
	if r.b.what == "long" {
		bs = append(append([]byte(nil), bs...), "more"...)
		lim = len(bs)
	}
	if len(p) > 1000 {
		p = p[:1000]
	}
	n := copy(p, bs[r.pos:lim])
	r.pos += n
	if r.pos == lim {
		if r.b.what == "read" {
			return n, fmt.Errorf("injected failure when reading")
		}
		if n == 0 {
			return 0, io.EOF
		}
	}
	return n, nil
}

func (r *badRefReader) Close() error {
	r.b.closed++
	if r.b.what == "close" {
		return fmt.Errorf("injected failure when closing")
	}
	return nil
}

var stdPlat = python.Platform{
	ConsoleShebang: "/usr/bin/python3",
	Scheme:         python.Scheme{PureLib: "/usr/lib/py", PlatLib: "/usr/lib/py", Headers: "/usr/include/py", Scripts: "/usr/bin", Data: "/usr"},
	PyCompile:      h.FakeCompiler(nil),
}

func refs(t *h.T) {
	const di = "usr/lib/py/x-1.dist-info"
	step := t.Pick("layer", "layer", "compile", "record", "scripts", "hook", "wheel")
	what := t.Pick("none", "open", "read", "close", "short", "long")
	n := 1 + t.Intn(5)
	bad := t.Intn(n)
	clamp := time.Unix(1600000000, 0)
	var fs []fsutil.FileReference
	var all []*badRef
	for i := 0; i < n; i++ {
		body := t.Bytes([]int{1, 2, 511, 512, 513, 5000}[t.Intn(6)])
		name := fmt.Sprintf("usr/lib/py/%c.py", 'a'+i)
		if step == "scripts" && i == bad {
			name = di + "/entry_points.txt"
			body = []byte("[console_scripts]\n" + strings.Repeat("# comment\n", t.Intn(400)) + "x = m:f\n")
		}
		b := &badRef{InMemFileReference: fsutil.InMemFileReference{
			FileInfo:  (&tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644, Size: int64(len(body)), ModTime: clamp}).FileInfo(),
			MFullName: name,
			MContent:  body,
		}}
		if i == bad {
			b.what, b.at = what, t.Intn(len(body))
		}
		fs = append(fs, b)
		all = append(all, b)
	}
	t.Inputf(what != "none", "%s, %d files, failing: %s of file %d at %d", step, n, what, bad, all[bad].at)
	t.State("refs", step+"/"+what)
	vfs := map[string]fsutil.FileReference{}
	for _, f := range fs {
		vfs[f.FullName()] = f
	}
	ctx := h.QuietCtx()
	mustFail, mayFail := what != "none", false
	var err error
	switch step {
	case "layer":
		var l ociv1.Layer
		l, err = fsutil.LayerFromFileReferences(fs, clamp)
		if err == nil {
			r, oerr := l.Uncompressed()
			if oerr != nil {
				t.Failf("the layer cannot be opened: %v", oerr)
			}
			bs, rerr := io.ReadAll(r)
			if rerr != nil {
				t.Failf("the layer cannot be read: %v", rerr)
			}
			es, perr := h.ParseTar(bs)
			if perr != nil {
				t.Failf("the layer is not an archive: %v", perr)
			}
			if len(es) != n {
				t.Errorf("%d entries of %d", len(es), n)
			}
		}
	case "compile":
		tmp := filepath.Join(t.Scratch(), "tmp")
		must(os.Mkdir(tmp, 0o755))
		old := os.Getenv("TMPDIR")
		os.Setenv("TMPDIR", tmp)
		defer os.Setenv("TMPDIR", old)
		comp, cerr := python.ExternalCompiler("/bin/true")
		must(cerr)
		_, err = comp(ctx, clamp, nil, fs)
		if left, _ := os.ReadDir(tmp); len(left) > 0 {
			t.Errorf("left %v in the temporary directory", left)
		}
		mustFail = mustFail && what != "short" && what != "long"
	case "record":
		err = recording_installs.Record("sha256", "me", nil)(ctx, clamp, vfs, di)
		mayFail = what == "close" || what == "short" || what == "long"
	case "scripts":
		plat := stdPlat
		err = entry_points.CreateScripts(plat)(ctx, clamp, vfs, di)
		mustFail = what == "open" || what == "read"
		mayFail = !mustFail && what != "none"
		if err == nil && mustFail == false && !mayFail && vfs["usr/bin/x"] == nil {
			t.Errorf("no script was made")
		}
	case "hook", "wheel":
		// a step of an installation fails
		w := h.GenWheel(t, h.WheelOpts{MaxFiles: 6, NoExotic: true, NoPy: true})
		if _, conflict, bad := w.Place(stdPlat); conflict != "" || bad != "" {
			return
		}
		boom := fmt.Errorf("injected failure of a hook")
		hook := func(_ context.Context, _ time.Time, vfs map[string]fsutil.FileReference, dir string) error {
			if step == "hook" {
				if what != "none" {
					return boom
				}
				return nil
			}
			for i, f := range fs {
				vfs[fmt.Sprintf("opt/zz/%d", i)] = f
				all[i].MFullName = fmt.Sprintf("opt/zz/%d", i)
			}
			return nil
		}
		_, err = t.Install(stdPlat, w.Bytes(), time.Time{}, time.Time{}, hook)
		if step == "hook" && what != "none" && err != nil && !errors.Is(err, boom) {
			t.Errorf("the hook's error is not what is reported: %v", err)
		}
	}
	t.Observe("library_steps", 1)
	if (err != nil) != mustFail && !mayFail {
		t.Errorf("%s, failing: %s, but the error is %v", step, what, err)
	}
	for i, b := range all {
		if b.closed < b.opened {
			t.Errorf("%s, failing: %s: file %d was opened %d times and closed %d times", step, what, i, b.opened, b.closed)
		}
	}
}

// -------------------------------------------------------------------------------------------------
// the documentation generators

func aux(t *h.T, sub string) {
	user := t.OpenScratch(uid)
	good := user + "/good"
	read := func(d string) map[string]string {
		ret := map[string]string{}
		_ = filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				bs, _ := os.ReadFile(p)
				ret[strings.TrimPrefix(p, d)] = string(bs)
			}
			return nil
		})
		return ret
	}
	run := func(what, d string, must bool, c h.Cmd) {
		c.Args, c.Aux, c.UID, c.Dir = []string{sub, d}, true, uid, user
		c.MayCrash = true
		r := t.CLI(c)
		t.Observe("runs_judged", 1)
		t.State("fault", sub+"/"+what)
		if len(r.Left) > 0 {
			t.Failf("%s with %s leaves %q", sub, what, r.Left)
		}
		if r.Code == 0 {
			if must {
				t.Failf("%s with %s exits with status 0", sub, what)
			}
			if d := diff(read(good), read(d), ""); d != "" {
				t.Failf("%s with %s exits with status 0 but wrote other files:\n%.1000s", sub, what, d)
			}
			return
		}
		t.Observe("failures_reported", 1)
		if !diagnostic(r.Err) {
			t.Failf("%s with %s fails without saying why", sub, what)
		}
	}
	t.Inputf(true, "%s", sub)
	r := t.CLI(h.Cmd{Args: []string{sub, good}, Aux: true, UID: uid, Dir: user})
	if r.Code != 0 || len(read(good)) == 0 {
		t.Failf("%s fails: %s", sub, r.Err)
	}
	run("nothing", user+"/again", false, h.Cmd{})
	must(os.Mkdir(t.Scratch()+"/ro", 0o755))
	run("a read-only directory", t.Scratch()+"/ro/doc", true, h.Cmd{})
	t.WriteFile("plain", nil, 0o644)
	run("a file as directory", t.Scratch()+"/plain/doc", true, h.Cmd{})
	var max int
	for _, s := range read(good) {
		if len(s) > max {
			max = len(s)
		}
	}
	for i := 0; i < 4; i++ {
		n := i * max / 512 / 5
		d := fmt.Sprintf("%s/limit%d", user, n)
		run("a file size limit", d, true, h.Cmd{Wrap: limited("-f", n)})
	}
}

func main() {
	h.Main(h.Config{
		ID: "C21",
		Rule: "every command of the real program, run as an unprivileged user in a world of generated inputs, stand-in go, compiler, interpreters and docker, and a local index server, first without and then with one fault after the other: inputs missing, unreadable, cut, corrupt or failing to be read at the nth system call; stdout full, closed, unreadable or failing at the nth write; output files that cannot be made, written or closed; tools missing, corrupt, failing or killed before, amid and after their work; servers failing in every phase; unusable or limited temporary storage; few descriptors. " +
			"A run that exits with 0 has to have given exactly the fault-free output; every snapshot of inputs and temporary storage has to be unchanged",
		Require: []string{"clean_runs", "faults_injected", "failures_reported", "runs_judged", "library_steps"},
		Assumptions: []string{
			"system-call failures are injected by strace, where it may be used",
			"a run ended by a signal from outside is not judged",
		},
	}, func(c *h.C) {
		for _, n := range opNames {
			n := n
			c.Directed("all faults of "+n, func(t *h.T) { campaign(t, n, 0) })
		}
		c.Group("streams", c.N(2000, 50000), streams)
		c.Group("refs", c.N(3000, 60000), refs)
		c.Directed("man", func(t *h.T) { aux(t, "man") })
		c.Directed("mddoc", func(t *h.T) { aux(t, "mddoc") })
		c.Group("faults", c.N(150, 3000), func(t *h.T) { campaign(t, opNames[t.Intn(len(opNames))], 16) })
	})
}
