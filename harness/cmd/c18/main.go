// C18: how an input file is delivered does not change the result.
package main

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/fsutil"

	"verif/h"
)

// pipe is a named pipe that serves its bytes to the first reader, and nothing to later ones.
type pipe struct {
	path string
	stop chan struct{}
	done chan struct{}
	mu   sync.Mutex
	n    int
}

func newPipe(t *h.T, path string, bs []byte, chunk int) *pipe {
	if err := syscall.Mkfifo(path, 0o644); err != nil {
		h.Fatalf("%v", err)
	}
	p := &pipe{path: path, stop: make(chan struct{}), done: make(chan struct{})}
	go func() {
		defer close(p.done)
		for first := true; ; first = false {
			f, err := os.OpenFile(path, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			select {
			case <-p.stop:
				_ = f.Close()
				return
			default:
			}
			p.mu.Lock()
			p.n++
			p.mu.Unlock()
			if first {
				for o := 0; o < len(bs); o += chunk {
					e := o + chunk
					if e > len(bs) {
						e = len(bs)
					}
					if _, err := f.Write(bs[o:e]); err != nil {
						break
					}
				}
			}
			_ = f.Close()
			if !first {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	t.Observe("pipes", 1)
	return p
}

func (p *pipe) finish() {
	close(p.stop)
	for {
		// let a writer that waits for a reader go
		f, err := os.OpenFile(p.path, os.O_RDONLY|syscall.O_NONBLOCK, 0)
		select {
		case <-p.done:
			if err == nil {
				_ = f.Close()
			}
			return
		case <-time.After(2 * time.Millisecond):
		}
		if err == nil {
			_ = f.Close()
		}
	}
}

func gz(t *h.T, bs []byte) []byte {
	var buf bytes.Buffer
	parts := [][]byte{bs}
	if t.P(0.15) && len(bs) > 10 {
		// several members
		i := 1 + t.Intn(len(bs)-2)
		parts = [][]byte{bs[:i], bs[i:]}
	}
	for _, p := range parts {
		w, _ := gzip.NewWriterLevel(&buf, []int{0, 1, 6, 9, -2}[t.Intn(5)])
		if t.P(0.3) {
			w.Name, w.Comment, w.ModTime = "layer.tar", "c", time.Unix(1e9, 0)
		}
		_, _ = w.Write(p)
		_ = w.Close()
	}
	return buf.Bytes()
}

var ways = []string{"regular", "symlink", "symlink-chain", "relative", "pipe", "symlink-to-pipe", "stdin-pipe", "stdin-file", "hardlink"}

type delivery struct {
	arg   string
	stdin io.Reader
	pipe  *pipe
	close func()
}

// deliver puts bytes somewhere and says how the program should be told.
func deliver(t *h.T, dir, name, way string, bs []byte) delivery {
	p := filepath.Join(dir, name)
	put := func(fn string) { t.WriteFile(fn, bs, 0o644) }
	link := func(to, fn string) {
		if err := os.Symlink(to, fn); err != nil {
			h.Fatalf("%v", err)
		}
	}
	t.State("way", way)
	chunk := []int{1 + t.Intn(700), 4096, 65536, 100000}[t.Intn(4)]
	if len(bs) > 100000 && chunk < 1000 {
		chunk = 1000
	}
	switch way {
	case "regular":
		put(p)
		return delivery{arg: p}
	case "hardlink":
		put(p + ".orig")
		if err := os.Link(p+".orig", p); err != nil {
			h.Fatalf("%v", err)
		}
		return delivery{arg: p}
	case "symlink":
		put(p + ".real")
		link(p+".real", p)
		return delivery{arg: p}
	case "symlink-chain":
		put(filepath.Join(dir, "sub", name))
		link("sub", filepath.Join(dir, "lnk-"+name))
		link("lnk-"+name+"/"+name, p+".2")
		link(name+".2", p)
		return delivery{arg: p}
	case "relative":
		put(p)
		return delivery{arg: "./" + name}
	case "pipe":
		pp := newPipe(t, p, bs, chunk)
		return delivery{arg: p, pipe: pp}
	case "symlink-to-pipe":
		pp := newPipe(t, p+".fifo", bs, chunk)
		link(p+".fifo", p)
		return delivery{arg: p, pipe: pp}
	case "stdin-pipe":
		return delivery{arg: t.Pick("/dev/stdin", "/dev/fd/0", "/proc/self/fd/0"), stdin: bytes.NewReader(bs)}
	case "stdin-file":
		put(p)
		f, err := os.Open(p)
		if err != nil {
			h.Fatalf("%v", err)
		}
		return delivery{arg: t.Pick("/dev/stdin", "/dev/fd/0", "/proc/self/fd/0"), stdin: f, close: func() { _ = f.Close() }}
	}
	panic(way)
}

func genLayers(t *h.T, n int) [][]byte {
	g := h.NewGenStack(t, h.StackOpts{MaxEntries: 6, MaxLayers: 3, HardLinks: true, BigBodies: true})
	var ls [][]byte
	for i := 0; i < n; i++ {
		es := g.Layer()
		if t.P(0.2) {
			es = append(es, h.Entry{Body: t.Bytes(70000 + t.Intn(200000))})
			es[len(es)-1].Hdr.Typeflag, es[len(es)-1].Hdr.Name = '0', "big"
		}
		bs, err := h.TarBytes(es)
		if err != nil {
			h.Fatalf("%v", err)
		}
		ls = append(ls, bs)
	}
	return ls
}

// cli runs a command whose listed inputs are delivered in the given ways.
func cli(t *h.T, dir string, prefix []string, inputs [][]byte, names, in []string, baseFlag bool) h.Result {
	var args []string
	args = append(args, prefix...)
	var stdin io.Reader
	var pipes []*pipe
	for i, bs := range inputs {
		d := deliver(t, dir, names[i], in[i], bs)
		if d.close != nil {
			defer d.close()
		}
		if d.stdin != nil {
			stdin = d.stdin
		}
		if d.pipe != nil {
			pipes = append(pipes, d.pipe)
		}
		if baseFlag && i == 0 {
			args = append(args, "--base", d.arg)
		} else {
			args = append(args, d.arg)
		}
	}
	r := t.CLI(h.Cmd{Args: args, Stdin: stdin, Dir: dir})
	for _, p := range pipes {
		p.finish()
	}
	return r
}

func genWays(t *h.T, n int) []string {
	r := make([]string, n)
	stdin := false
	for i := range r {
		for {
			r[i] = ways[t.Intn(len(ways))]
			if strings.HasPrefix(r[i], "stdin") {
				if stdin {
					continue
				}
				stdin = true
			}
			break
		}
	}
	return r
}

func sub(t *h.T, n string) string {
	d := filepath.Join(t.Scratch(), n)
	if err := os.MkdirAll(d, 0o755); err != nil {
		h.Fatalf("%v", err)
	}
	return d
}

func drain(t *h.T, f func() (io.ReadCloser, error), style int) []byte {
	r, err := f()
	if err != nil {
		t.Failf("reading again: %v", err)
	}
	defer r.Close()
	switch style % 3 {
	case 1: // give up half way
		buf := make([]byte, 100)
		_, _ = r.Read(buf)
		return nil
	case 2:
		var out []byte
		buf := make([]byte, 37)
		for {
			n, err := r.Read(buf)
			out = append(out, buf[:n]...)
			if err != nil {
				if !errors.Is(err, io.EOF) {
					t.Failf("reading again: %v", err)
				}
				return out
			}
		}
	}
	bs, err := io.ReadAll(r)
	if err != nil {
		t.Failf("reading again: %v", err)
	}
	return bs
}

// reread reads the layer many times, also at the same time.
func reread(t *h.T, l ociv1.Layer, plain []byte) {
	var comp []byte
	for i := 0; i < 7; i++ {
		if bs := drain(t, l.Uncompressed, i); bs != nil && !bytes.Equal(bs, plain) {
			t.Failf("reading %d: %d bytes %s, want %d bytes %s", i, len(bs), h.Sum(bs)[:8], len(plain), h.Sum(plain)[:8])
		}
		bs := drain(t, l.Compressed, i)
		if bs == nil {
			continue
		}
		if comp == nil {
			comp = bs
		} else if !bytes.Equal(bs, comp) {
			t.Failf("reading %d: other compressed bytes than before", i)
		}
	}
	d, err := l.DiffID()
	if err != nil || d.Hex != h.Sum(plain) {
		t.Errorf("diff ID %v (%v), content is %s", d, err, h.Sum(plain))
	}
	if d, err := l.Digest(); err != nil || d.Hex != h.Sum(comp) {
		t.Errorf("digest %v (%v), compressed is %s", d, err, h.Sum(comp))
	}
	if n, err := l.Size(); err != nil || n != int64(len(comp)) {
		t.Errorf("size %v (%v), compressed is %d", n, err, len(comp))
	}
	a, err1 := l.Uncompressed()
	b, err2 := l.Uncompressed()
	if err1 != nil || err2 != nil {
		t.Failf("two readers: %v %v", err1, err2)
	}
	var ga, gb []byte
	buf := make([]byte, 300)
	for da, db := false, false; !da || !db; {
		if !da {
			n, err := a.Read(buf)
			ga = append(ga, buf[:n]...)
			da = err != nil
		}
		if !db {
			n, err := b.Read(buf[:100])
			gb = append(gb, buf[:n]...)
			db = err != nil
		}
	}
	_, _ = a.Close(), b.Close()
	if !bytes.Equal(ga, plain) || !bytes.Equal(gb, plain) {
		t.Errorf("two readers at once disturb each other")
	}
	var out bytes.Buffer
	if err := fsutil.WriteLayer(l, &out); err != nil || !bytes.Equal(out.Bytes(), plain) {
		t.Errorf("WriteLayer: %v, %d bytes, want %d", err, out.Len(), len(plain))
	}
	t.Observe("rereads", 10)
}

type failWriter struct{ n int }

var errFull = errors.New("injected write error")

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, errFull
	}
	w.n -= len(p)
	return len(p), nil
}

func main() {
	h.Main(h.Config{
		ID: "C18",
		Rule: "random layers and images, each delivered as regular file, symbolic link (chain), named pipe, /dev/stdin (pipe and file), plain and gzipped, to squash, image build and the openers; missing and unreadable inputs. " +
			"non-trivial if at least one input is not a plain regular file",
		Require:     []string{"cli_compared", "rereads", "pipes", "named_errors", "image_rereads", "write_errors", "unprivileged", "large"},
		Assumptions: []string{"inputs do not change while they are used", "a pipe or /dev/stdin is named once per command"},
	}, func(c *h.C) {
		c.Group("squash", c.N(350, 6000), func(t *h.T) {
			n := 2 + t.Intn(3)
			ls := genLayers(t, n)
			names := make([]string, n)
			reg := make([]string, n)
			for i := range ls {
				names[i], reg[i] = fmt.Sprintf("l%d.tar", i), "regular"
			}
			ref := cli(t, sub(t, "ref"), []string{"layer", "squash"}, ls, names, reg, false)
			for k := 0; k < 2; k++ {
				in := genWays(t, n)
				bs := make([][]byte, n)
				for i := range ls {
					bs[i] = ls[i]
					if t.P(0.5) {
						bs[i] = gz(t, ls[i])
					}
				}
				t.Inputf(true, "squash %d layers via %v", n, in)
				got := cli(t, sub(t, fmt.Sprintf("v%d", k)), []string{"layer", "squash"}, bs, names, in, false)
				if (ref.Code == 0) != (got.Code == 0) || !bytes.Equal(ref.Out, got.Out) {
					t.Failf("regular files: exit %d, %d bytes; %v: exit %d, %d bytes\n%s", ref.Code, len(ref.Out), in, got.Code, len(got.Out), got.Err)
				}
				t.Observe("cli_compared", 1)
			}
		})
		c.Group("image", c.N(300, 5000), func(t *h.T) {
			n := 1 + t.Intn(3)
			base := &h.Image{Layers: genLayers(t, 1+t.Intn(2)), Tags: []string{"b:1"}, Config: map[string]interface{}{
				"architecture": "amd64", "os": "linux", "created": "2020-01-01T00:00:00Z", "config": map[string]interface{}{"Env": []string{"A=1"}}, "history": []interface{}{map[string]string{"created": "2020-01-01T00:00:00Z"}}}}
			ls := genLayers(t, n)
			bt := base.Tar(t.P(0.5))
			ins := append([][]byte{bt}, ls...)
			names := []string{"base.tar"}
			reg := []string{"regular"}
			for i := range ls {
				names, reg = append(names, fmt.Sprintf("l%d.tar", i)), append(reg, "regular")
			}
			pre := []string{"image", "build", "-t", "xx:y"}
			ref := cli(t, sub(t, "ref"), pre, ins, names, reg, true)
			if ref.Code != 0 {
				t.Failf("regular files: exit %d: %s", ref.Code, ref.Err)
			}
			want, err := h.DecodeImage(ref.Out)
			if err != nil {
				t.Failf("%v", err)
			}
			for k := 0; k < 2; k++ {
				in := genWays(t, len(ins))
				bs := append([][]byte{}, ins...)
				same := true
				for i := 1; i < len(bs); i++ {
					if t.P(0.4) {
						bs[i] = gz(t, bs[i])
						same = false
					}
				}
				t.Inputf(true, "image build of %d layers via %v", n, in)
				r := cli(t, sub(t, fmt.Sprintf("v%d", k)), pre, bs, names, in, true)
				if r.Code != 0 {
					t.Failf("%v: exit %d: %s", in, r.Code, r.Err)
				}
				if same && !bytes.Equal(r.Out, ref.Out) {
					t.Failf("%v: other bytes than from regular files", in)
				}
				got, err := h.DecodeImage(r.Out)
				if err != nil {
					t.Failf("%v: %v", in, err)
				}
				if !reflect.DeepEqual(got.Layers, want.Layers) || !reflect.DeepEqual(got.Config, want.Config) || !reflect.DeepEqual(got.Tags, want.Tags) {
					t.Failf("%v: another image than from regular files", in)
				}
				t.Observe("cli_compared", 1)
			}
		})
		c.Group("open-layer", c.N(600, 10000), func(t *h.T) {
			ls := genLayers(t, 1)
			way := ways[t.Intn(len(ways))]
			for strings.HasPrefix(way, "stdin") || way == "relative" {
				way = ways[t.Intn(len(ways))]
			}
			bs := ls[0]
			z := t.P(0.5)
			if z {
				bs = gz(t, bs)
			}
			t.Inputf(way != "regular" || z, "OpenLayer of a %s (gzip %v) of %d bytes", way, z, len(bs))
			d := deliver(t, sub(t, "d"), "layer.tar", way, bs)
			l, err := fsutil.OpenLayer(d.arg)
			if err != nil {
				t.Failf("%v", err)
			}
			if d.pipe != nil && t.P(0.5) {
				d.pipe.finish()
				d.pipe = nil
				_ = os.Remove(d.arg) // whoever made the pipe is gone
			}
			reread(t, l, ls[0])
			if d.pipe != nil {
				d.pipe.finish()
			}
			// writing out fails when the output fails
			for _, n := range []int{0, t.Intn(len(ls[0])), len(ls[0]) - 1} {
				if err := fsutil.WriteLayer(l, &failWriter{n}); err == nil {
					t.Errorf("WriteLayer to a writer that fails after %d of %d bytes: no error", n, len(ls[0]))
				}
				t.Observe("write_errors", 1)
			}
		})
		c.Group("scale", c.N(40, 600), func(t *h.T) {
			kind := h.ScaleKinds[t.Intn(len(h.ScaleKinds))]
			stack := h.GenScale(t, kind)
			var ls [][]byte
			for _, es := range stack {
				bs, err := h.TarBytes(es)
				if err != nil {
					h.Fatalf("%v", err)
				}
				ls = append(ls, bs)
			}
			if len(ls) > 6 {
				ls = ls[:6]
			}
			t.State("large", kind)
			t.Observe("large", 1)
			if t.P(0.5) {
				l := ls[t.Intn(len(ls))]
				way := ways[t.Intn(len(ways))]
				for strings.HasPrefix(way, "stdin") || way == "relative" {
					way = ways[t.Intn(len(ways))]
				}
				bs := l
				if t.P(0.3) {
					bs = gz(t, bs)
				}
				t.Inputf(true, "OpenLayer of a %s of %d bytes", way, len(bs))
				d := deliver(t, sub(t, "d"), "layer.tar", way, bs)
				got, err := fsutil.OpenLayer(d.arg)
				if err != nil {
					t.Failf("%v", err)
				}
				reread(t, got, l)
				if d.pipe != nil {
					d.pipe.finish()
				}
				return
			}
			names := make([]string, len(ls))
			reg := make([]string, len(ls))
			in := genWays(t, len(ls))
			bs := make([][]byte, len(ls))
			for i := range ls {
				names[i], reg[i], bs[i] = fmt.Sprintf("l%d.tar", i), "regular", ls[i]
				if t.P(0.3) {
					bs[i] = gz(t, ls[i])
				}
			}
			t.Inputf(true, "squash and build of %d large layers (%s) via %v", len(ls), kind, in)
			if ref := cli(t, sub(t, "ref"), []string{"layer", "squash"}, ls, names, reg, false); len(ls) >= 2 {
				got := cli(t, sub(t, "got"), []string{"layer", "squash"}, bs, names, in, false)
				if (ref.Code == 0) != (got.Code == 0) || !bytes.Equal(ref.Out, got.Out) {
					t.Failf("regular files: exit %d, %d bytes; %v: exit %d, %d bytes\n%s", ref.Code, len(ref.Out), in, got.Code, len(got.Out), got.Err)
				}
			}
			r := cli(t, sub(t, "img"), []string{"image", "build", "-t", "xx:y"}, bs, names, in, false)
			if r.Code != 0 {
				t.Failf("%v: exit %d: %s", in, r.Code, r.Err)
			}
			img, err := h.DecodeImage(r.Out)
			if err != nil {
				t.Failf("%v: %v", in, err)
			}
			if !reflect.DeepEqual(img.Layers, ls) {
				t.Failf("%v: the image has other layers than the files", in)
			}
			t.Observe("cli_compared", 1)
		})
		c.Group("opener", c.N(300, 5000), func(t *h.T) {
			bs := t.Bytes([]int{0, 1, 100, 4096, 65536, 65537, 200000, 1<<20 + 1, 5<<20 + 3}[t.Intn(9)])
			way := ways[t.Intn(6)]
			if way == "relative" {
				way = "hardlink"
			}
			t.Inputf(way != "regular", "PathOpener of a %s of %d bytes", way, len(bs))
			d := deliver(t, sub(t, "d"), "f", way, bs)
			op := fsutil.PathOpener(d.arg)
			var wg sync.WaitGroup
			for i := 0; i < 4; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 3; k++ {
						r, err := op()
						if err != nil {
							t.Errorf("opening: %v", err)
							return
						}
						got, err := io.ReadAll(r)
						_ = r.Close()
						if err != nil || !bytes.Equal(got, bs) {
							t.Errorf("reading a %s: %d bytes (%v), want %d", way, len(got), err, len(bs))
						}
					}
				}()
			}
			wg.Wait()
			t.Observe("rereads", 12)
			if d.pipe != nil {
				d.pipe.finish()
			}
		})
		c.Group("open-image", c.N(300, 5000), func(t *h.T) {
			base := &h.Image{Layers: genLayers(t, 1+t.Intn(3)), Tags: []string{"b:1"}, Config: map[string]interface{}{
				"architecture": "amd64", "os": "linux", "config": map[string]interface{}{"Env": []string{"A=1"}}}}
			bs := base.Tar(t.P(0.5))
			way := ways[t.Intn(6)]
			if way == "relative" {
				way = "hardlink"
			}
			t.Inputf(way != "regular", "OpenImage of a %s of %d bytes", way, len(bs))
			d := deliver(t, sub(t, "d"), "image.tar", way, bs)
			img, err := fsutil.OpenImage(d.arg)
			if err != nil {
				t.Failf("%v", err)
			}
			for k := 0; k < 2; k++ {
				ll, err := img.Layers()
				if err != nil {
					t.Failf("%v", err)
				}
				if len(ll) != len(base.Layers) {
					t.Failf("%d layers, want %d", len(ll), len(base.Layers))
				}
				for i, l := range ll {
					reread(t, l, base.Layers[i])
				}
				cf, err := img.ConfigFile()
				if err != nil || len(cf.Config.Env) != 1 {
					t.Errorf("config %v %v", cf, err)
				}
				t.Observe("image_rereads", 1)
			}
			if d.pipe != nil {
				d.pipe.finish()
			}
		})
		c.Group("bad-inputs", c.N(400, 6000), func(t *h.T) {
			uid := uint32(0)
			dir := sub(t, "in")
			good := genLayers(t, 1)[0]
			name := t.Pick("in.layer", "with space", "ünï", "x.tar.gz", "-dash")
			p := filepath.Join(dir, name)
			kinds := []string{"missing", "missing-dir", "directory", "dangling", "loop", "not-a-dir", "unreadable", "unreadable-dir", "empty", "garbage", "broken-gzip", "truncated"}
			kind := kinds[t.Intn(len(kinds))]
			switch kind {
			case "missing":
			case "missing-dir":
				p = filepath.Join(dir, "no", name)
			case "directory":
				_ = os.Mkdir(p, 0o755)
			case "dangling":
				_ = os.Symlink("nowhere", p)
			case "loop":
				_ = os.Symlink(name, p)
			case "not-a-dir":
				t.WriteFile(filepath.Join(dir, "file"), nil, 0o644)
				p = filepath.Join(dir, "file", name)
			case "unreadable":
				uid = 12345
				t.WriteFile(p, good, 0o200)
			case "unreadable-dir":
				uid = 12345
				t.WriteFile(p, good, 0o644)
				_ = os.Chmod(dir, 0o700)
			case "empty":
				t.WriteFile(p, nil, 0o644)
			case "garbage":
				t.WriteFile(p, []byte(strings.Repeat("garbage!", 200)), 0o644)
			case "broken-gzip":
				z := h.Gzip(good)
				t.WriteFile(p, z[:len(z)-5], 0o644)
			case "truncated":
				t.WriteFile(p, good[:300], 0o644)
			}
			if uid != 0 {
				t.OpenScratch(int(uid))
				t.Observe("unprivileged", 1)
			}
			ok := t.WriteFile("ok.tar", good, 0o644)
			okImage := t.WriteFile("ok-image.tar", (&h.Image{Layers: [][]byte{good}, Config: map[string]interface{}{"config": map[string]interface{}{}}}).Tar(true), 0o644)
			_ = os.Chmod(ok, 0o644)
			cmds := [][]string{
				{"layer", "squash", "--", ok, p}, {"layer", "squash", "--", p, ok},
				{"image", "build", "--", p}, {"image", "build", "--", ok, p}, {"image", "build", "--base=" + p, ok},
				{"image", "build", "--base=" + okImage, "--", ok, p}, {"python", "inspect", "--imagefile=" + p},
				{"layer", "gobuild", "--output=" + p, "./x"},
			}
			i := t.Intn(7) // gobuild writes its file; see C17
			isImage := i == 4 || i == 6
			readable := kind == "empty" || kind == "garbage" || kind == "broken-gzip" || kind == "truncated"
			if readable && !isImage && kind != "broken-gzip" {
				return // whether that is a layer is C03's business
			}
			t.Inputf(true, "%s input: %q", kind, cmds[i])
			t.State("bad", kind)
			r := t.CLI(h.Cmd{Args: cmds[i], UID: uid})
			if r.Code == 0 || r.Signal != "" {
				t.Failf("exit %d %s", r.Code, r.Signal)
			}
			if len(r.Out) != 0 {
				t.Errorf("%d bytes on stdout", len(r.Out))
			}
			if !strings.Contains(string(r.Err), name) {
				t.Errorf("the diagnostic does not name %q: %s", p, r.Err)
			}
			t.Observe("named_errors", 1)
			if uid == 0 {
				if isImage {
					_, err := fsutil.OpenImage(p)
					if err == nil || !strings.Contains(err.Error(), name) {
						t.Errorf("OpenImage: %v", err)
					}
				} else {
					_, err := fsutil.OpenLayer(p)
					if err == nil || !strings.Contains(err.Error(), name) {
						t.Errorf("OpenLayer: %v", err)
					}
				}
				if !readable {
					for k := 0; k < 2; k++ {
						if rd, err := fsutil.PathOpener(p)(); err == nil {
							if _, err = io.ReadAll(rd); err == nil {
								t.Errorf("PathOpener reads a %s input", kind)
							}
						}
					}
				}
			}
		})
	})
}
