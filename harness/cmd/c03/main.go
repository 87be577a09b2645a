// C03: malformed or hostile layers are refused with an error, never a crash.
package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/squash"

	"verif/h"
)

// walkView touches everything reachable in the view; it must terminate and never panic.
func walkView(t *h.T, fsys fs.FS, extra []string) {
	n := 0
	var rec func(p string, depth int)
	rec = func(p string, depth int) {
		n++
		if n > 3000 {
			return
		}
		f, err := fsys.Open(p)
		if err != nil {
			return
		}
		defer f.Close()
		_, _ = f.Stat()
		if rd, ok := f.(fs.ReadDirFile); ok {
			if des, err := rd.ReadDir(-1); err == nil {
				for _, de := range des {
					_, _ = de.Info()
					_ = de.IsDir()
					if depth < 6 {
						rec(path.Join(p, de.Name()), depth+1)
					}
				}
				return
			}
		}
		_, _ = io.Copy(io.Discard, io.LimitReader(f, 1<<20))
	}
	rec(".", 0)
	for _, p := range extra {
		rec(p, 5)
		_, _ = fs.Stat(fsys, p)
		_, _ = fs.ReadFile(fsys, p)
	}
	t.Observe("view_paths_opened", n)
}

type verdict int

const (
	mustFail verdict = iota
	mayEither
	mustWork
)

// judge runs all consumers of layers over the given layers.
func judge(t *h.T, layers []ociv1.Layer, v verdict, why string, extra []string) {
	out, err := squash.Squash(layers)
	if err == nil && out == nil {
		t.Failf("Squash returned neither a layer nor an error")
	}
	if err != nil && out != nil {
		t.Failf("Squash returned both a layer and an error: %v", err)
	}
	if v == mustFail && err == nil {
		bs, _ := h.LayerBytes(out)
		es, _ := h.ParseTar(bs)
		t.Failf("Squash accepted %s; output:\n%s", why, h.EntriesString(es))
	}
	if v == mustWork && err != nil {
		t.Failf("Squash refused a good stack: %v", err)
	}
	if err == nil {
		bs, err := h.LayerBytes(out)
		if err != nil {
			t.Failf("reading the squashed layer: %v", err)
		}
		if _, err := h.ParseTar(bs); err != nil {
			t.Failf("the squashed layer is not a valid archive: %v", err)
		}
		t.Observe("accepted", 1)
	} else {
		t.Observe("refused", 1)
	}
	for _, omit := range []bool{false, true} {
		fsys, lerr := squash.Load(layers, omit)
		if lerr == nil && fsys == nil {
			t.Failf("Load returned neither a filesystem nor an error")
		}
		if lerr != nil && fsys != nil {
			t.Failf("Load(omitContent=%v) returned both a filesystem and an error", omit)
		}
		if v == mustFail && lerr == nil {
			t.Failf("Load(omitContent=%v) accepted %s", omit, why)
		}
		if v == mustWork && lerr != nil {
			t.Failf("Load(omitContent=%v) refused a good stack: %v", omit, lerr)
		}
		if lerr == nil {
			walkView(t, fsys, extra)
		}
	}
}

func judgeCLI(t *h.T, raws [][]byte, v verdict, why string) {
	args := []string{"layer", "squash"}
	for i, bs := range raws {
		args = append(args, t.WriteFile(fmt.Sprintf("%d.layer", i), bs, 0o644))
	}
	if len(raws) == 1 {
		empty, _ := h.TarBytes(nil)
		args = append(args, t.WriteFile("empty.layer", empty, 0o644))
	}
	r := t.CLI(h.Cmd{Args: args})
	if bytes.Contains(r.Err, []byte("goroutine ")) || r.Signal != "" || (r.Code != 0 && r.Code != 1) {
		t.Failf("the command crashed: exit %d signal %q\n%s", r.Code, r.Signal, r.Err)
	}
	if v == mustFail && r.Code == 0 {
		t.Failf("the command accepted %s", why)
	}
	if v == mustWork && r.Code != 0 {
		t.Failf("the command refused a good stack: %s", r.Err)
	}
	if r.Code != 0 && len(r.Out) > 0 {
		t.Failf("the command failed but wrote %d bytes of a layer", len(r.Out))
	}
	if r.Code != 0 && len(bytes.TrimSpace(r.Err)) == 0 {
		t.Failf("the command failed without a diagnostic")
	}
	t.Observe("cli_judged", 1)
}

// layerOf opens bytes as a layer; an error while opening is a legitimate place to refuse it.
func layerOf(t *h.T, bs []byte, v verdict) ociv1.Layer {
	l, err := h.LayerOf(bs)
	if err != nil {
		t.Observe("refused_at_open", 1)
		return nil
	}
	return l
}

// judgeImage judges the layers of an image archive.
func judgeImage(t *h.T, bs []byte, v verdict, why string) {
	img, err := fsutil.OpenImage(t.WriteFile("image.tar", bs, 0o644))
	var ls []ociv1.Layer
	if err == nil {
		ls, err = img.Layers()
	}
	if err != nil {
		if v == mustWork {
			t.Failf("cannot open a good image: %v", err)
		}
		t.Observe("refused_at_open", 1)
		return
	}
	judge(t, ls, v, why, nil)
}

func tarErr(bs []byte) error {
	_, err := h.ParseTar(bs)
	return err
}

func gzErr(bs []byte) ([]byte, error) {
	zr, err := gzip.NewReader(bytes.NewReader(bs))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(zr)
}

// failingLayer gives an I/O error after n bytes, or at open.
type failingLayer struct {
	ociv1.Layer
	bs     []byte
	n      int
	atOpen bool

	atClose bool
}

var errInjected = errors.New("injected I/O error")

func (l failingLayer) Uncompressed() (io.ReadCloser, error) {
	if l.atOpen {
		return nil, errInjected
	}
	if l.atClose {
		return errCloser{bytes.NewReader(l.bs)}, nil
	}
	return io.NopCloser(io.MultiReader(bytes.NewReader(l.bs[:l.n]), errReader{})), nil
}

type errCloser struct{ io.Reader }

func (errCloser) Close() error { return errInjected }

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errInjected }

func mk(typ byte, name, link string) h.Entry {
	e := h.Entry{Hdr: tar.Header{Typeflag: typ, Name: name, Linkname: link, Mode: 0o755, ModTime: time.Unix(5, 0)}}
	if typ == tar.TypeReg && !strings.HasSuffix(name, "/") {
		e.Body = []byte("body of " + path.Base(name))
	}
	return e
}

func fast(t *h.T, stack [][]h.Entry) ([]ociv1.Layer, [][]byte) {
	var ls []ociv1.Layer
	var raws [][]byte
	for _, es := range stack {
		bs, err := h.TarBytes(es)
		if err != nil {
			h.Fatalf("unencodable: %v\n%s", err, h.EntriesString(es))
		}
		ls = append(ls, h.FastLayer(bs))
		raws = append(raws, bs)
	}
	return ls, raws
}

// insert puts e at a random place of a random layer.
func insert(t *h.T, stack [][]h.Entry, e h.Entry) {
	i := t.Intn(len(stack))
	k := t.Intn(len(stack[i]) + 1)
	l := append([]h.Entry{}, stack[i][:k]...)
	l = append(l, e)
	stack[i] = append(l, stack[i][k:]...)
}

func noLoopStack(t *h.T, layers, entries int) [][]h.Entry {
	for {
		g := h.NewGenStack(t, h.StackOpts{MaxLayers: layers, MaxEntries: entries, HardLinks: true, BigBodies: true})
		s := g.Stack()
		tree := h.NewTree()
		ok := true
		for _, l := range s {
			if tree.ApplyLayer(l) != nil {
				ok = false
				break
			}
		}
		if ok {
			return s
		}
	}
}

func main() {
	h.Main(h.Config{
		ID: "C03",
		Rule: "valid stacks into which one fault is injected (an entry outside the root in any spelling, type, position and layer; truncation at any byte; bit flips and splices of the archive; " +
			"damaged gzip streams of layer files and of image layers; I/O errors at any byte, at open and at close; writes through looping, self-referencing or exponentially nested symlinks), plus garbage and adversarially large shapes, given to Squash, Load and the CLI. " +
			"Faults whose effect on the archive an independent reader confirms must be refused with an error and no layer; everything must end without a crash (each worker's CPU, memory and death are monitored per case). Non-trivial: the fault was injected.",
		Require:      []string{"refused", "accepted", "outside_root", "truncations", "gzip_faults", "io_faults", "image_layers", "loops", "view_paths_opened", "cli_judged"},
		Assumptions:  []string{"path names up to the system's limit of 4096 bytes", "an archive cut exactly between entries is indistinguishable from a shorter archive"},
		CPUPerCase:   60,
		RSSPerWorker: 3 << 30,
	}, func(c *h.C) {
		badNames := []string{
			"..", "../", "../x", "/x", "/", "//", "//x", "/.", "/..", "a/../../x", "a/b/../../../x", "./../x", "./..", ".//../x", "x/../..", "x/../../", "/etc/passwd",
			"../.wh.x", "/.wh.x", "../.wh..wh..opq", "/.wh..wh..opq", "a/../../.wh.x", "/a/b", "../../..", "././../y", "/../x", "..//x", "/./x", "a/./../../x", "...//../../x",
		}
		okNames := []string{"..x", "...", "..x/y", "a/..b", "a/../b", "./x", "x/..", "./", ".", "x/../", "a..", "a../b", ".../x", "x/./y", "..wh.x", "a/b/../../c"}
		types := []byte{tar.TypeReg, tar.TypeDir, tar.TypeSymlink, tar.TypeFifo, tar.TypeChar, tar.TypeLink}
		outside := func(t *h.T, name string, typ byte, cli bool) {
			stack := noLoopStack(t, 4, 6)
			e := mk(typ, name, "")
			switch typ {
			case tar.TypeSymlink, tar.TypeLink:
				e.Hdr.Linkname = "a"
			}
			if strings.HasSuffix(name, "/") {
				e.Hdr.Typeflag = tar.TypeDir
			}
			insert(t, stack, e)
			t.Inputf(true, "outside root %q type %c in\n%s", name, typ, h.StackString(stack))
			ls, raws := fast(t, stack)
			t.Observe("outside_root", 1)
			if cli {
				judgeCLI(t, raws, mustFail, fmt.Sprintf("an entry outside the image root: %q", name))
				return
			}
			judge(t, ls, mustFail, fmt.Sprintf("an entry outside the image root: %q", name), nil)
		}
		for _, n := range badNames {
			for _, typ := range types {
				n, typ := n, typ
				c.Group(fmt.Sprintf("outside %q %c", strings.ReplaceAll(n, "/", "|"), typ), c.N(2, 40), func(t *h.T) { outside(t, n, typ, false) })
			}
		}
		c.Group("outside-cli", c.N(60, 600), func(t *h.T) { outside(t, badNames[t.Intn(len(badNames))], types[t.Intn(len(types))], true) })
		for _, n := range okNames {
			n := n
			c.Group(fmt.Sprintf("inside %q", strings.ReplaceAll(n, "/", "|")), c.N(2, 20), func(t *h.T) {
				typ := byte(tar.TypeDir)
				if path.Clean(n) != "." && !strings.HasSuffix(n, "/") && t.P(0.5) {
					typ = tar.TypeReg
				}
				stack := [][]h.Entry{{mk(typ, n, "")}}
				ls, raws := fast(t, stack)
				t.Inputf(true, "inside root %q", n)
				judge(t, ls, mustWork, "", nil)
				judgeCLI(t, raws, mustWork, "")
			})
		}
		c.Group("truncated", c.N(3000*3, 100000), func(t *h.T) {
			stack := noLoopStack(t, 3, 6)
			ls, raws := fast(t, stack)
			i := t.Intn(len(raws))
			cut := t.Intn(len(raws[i]))
			if t.P(0.3) { // near block boundaries
				cut = cut/512*512 + t.Intn(3) - 1
				if cut < 0 {
					cut = 0
				}
			}
			bs := raws[i][:cut]
			v := mayEither
			if tarErr(bs) != nil {
				v = mustFail
				t.Observe("truncations", 1)
			}
			t.Inputf(v == mustFail, "layer %d cut to %d of %d bytes of\n%s", i, cut, len(raws[i]), h.StackString(stack))
			ls[i] = h.FastLayer(bs)
			judge(t, ls, v, "a truncated archive", nil)
			if t.P(0.02) {
				raws[i] = bs
				judgeCLI(t, raws, v, "a truncated archive")
			}
		})
		c.Group("mutated", c.N(3000*3, 150000), func(t *h.T) {
			stack := noLoopStack(t, 3, 6)
			ls, raws := fast(t, stack)
			i := t.Intn(len(raws))
			bs := append([]byte{}, raws[i]...)
			for k := 0; k < 1+t.Intn(4); k++ {
				switch t.Intn(4) {
				case 0:
					bs[t.Intn(len(bs))] ^= 1 << uint(t.Intn(8))
				case 1: // a header field, with the checksum recomputed
					off := t.Intn(len(bs)/512) * 512
					bs[off+[]int{0, 5, 100, 108, 124, 130, 156, 157, 257, 345}[t.Intn(10)]] = []byte("0127/.\x00xgLKS5")[t.Intn(13)]
					fixSum(bs[off : off+512])
				case 2: // splice
					a := t.Intn(len(bs)/512) * 512
					b := t.Intn(len(bs)/512) * 512
					copy(bs[a:a+512], bs[b:b+512])
				case 3:
					a := t.Intn(len(bs)/512) * 512
					for j := a; j < a+512; j++ {
						bs[j] = 0
					}
				}
			}
			v := mayEither
			es, err := h.ParseTar(bs)
			why := "a corrupted archive"
			if err != nil {
				v = mustFail
				t.Observe("corruptions", 1)
			} else {
				for _, e := range es {
					cl := path.Clean(e.Hdr.Name)
					if cl == ".." || strings.HasPrefix(cl, "../") || strings.HasPrefix(cl, "/") {
						v = mustFail
						why = "an entry outside the root"
					}
				}
			}
			t.Inputf(true, "mutated layer %d:\n%s", i, h.StackString(stack))
			ls[i] = h.FastLayer(bs)
			judge(t, ls, v, why, nil)
			if t.P(0.02) {
				raws[i] = bs
				judgeCLI(t, raws, v, why)
			}
		})
		c.Group("garbage", c.N(400, 10000), func(t *h.T) {
			bs := t.Bytes(t.Intn(4000))
			switch t.Intn(4) {
			case 0:
				bs = append([]byte{0x1f, 0x8b, 8, 0}, bs...)
			case 1:
				for i := range bs {
					bs[i] &= 0x0f
				}
			}
			v := mayEither
			dec := bs
			if bytes.HasPrefix(bs, []byte{0x1f, 0x8b}) {
				var err error
				if dec, err = gzErr(bs); err != nil {
					v = mustFail
				}
			}
			if tarErr(dec) != nil {
				v = mustFail
			}
			t.Inputf(true, "garbage %q", bs)
			if l := layerOf(t, bs, v); l != nil {
				judge(t, []ociv1.Layer{l}, v, "garbage", nil)
			}
			if t.P(0.2) {
				judgeCLI(t, [][]byte{bs}, v, "garbage")
			}
		})
		c.Group("gzip", c.N(800, 20000), func(t *h.T) {
			stack := noLoopStack(t, 3, 6)
			_, raws := fast(t, stack)
			plain := append([][]byte{}, raws...)
			i := t.Intn(len(raws))
			z := h.Gzip(raws[i])
			if t.P(0.5) {
				z = z[:2+t.Intn(len(z)-2)]
			} else {
				k := t.Intn(len(z)-10) + 10
				if t.P(0.3) {
					k = len(z) - 1 - t.Intn(8)
				}
				z[k] ^= 1 << uint(t.Intn(8))
			}
			dec, err := gzErr(z)
			v := mayEither
			if err != nil || tarErr(dec) != nil {
				v = mustFail
				t.Observe("gzip_faults", 1)
			}
			t.Inputf(v == mustFail, "gzip fault (%d bytes left) in layer %d of\n%s", len(z), i, h.StackString(stack))
			raws[i] = z
			if t.P(0.3) {
				// the same layers as those of an image
				img := &h.Image{Config: map[string]interface{}{"architecture": "amd64", "os": "linux"}, Layers: plain}
				for k, r := range raws {
					if k != i {
						r = h.Gzip(r)
					}
					img.Blobs = append(img.Blobs, r)
				}
				t.Observe("image_layers", 1)
				judgeImage(t, img.Tar(true), v, "an image with a damaged gzip stream")
				return
			}
			var ls []ociv1.Layer
			for _, r := range raws {
				l := layerOf(t, r, v)
				if l == nil {
					ls = nil
					break
				}
				ls = append(ls, l)
			}
			if ls != nil {
				judge(t, ls, v, "a damaged gzip stream", nil)
			}
			if t.P(0.2) {
				judgeCLI(t, raws, v, "a damaged gzip stream")
			}
		})
		c.Group("io-error", c.N(2000*3, 60000), func(t *h.T) {
			stack := noLoopStack(t, 3, 6)
			ls, raws := fast(t, stack)
			i := t.Intn(len(raws))
			n := t.Intn(len(raws[i]) + 1)
			l := failingLayer{Layer: ls[i], bs: raws[i], n: n, atOpen: t.P(0.1)}
			if !l.atOpen && t.P(0.1) {
				l.n, l.atClose = len(raws[i]), true
			}
			ls[i] = l
			t.Observe("io_faults", 1)
			t.Inputf(true, "I/O error at byte %d (open=%v, close=%v) of layer %d of\n%s", l.n, l.atOpen, l.atClose, i, h.StackString(stack))
			_, err := squash.Squash(ls)
			if err != nil && !errors.Is(err, errInjected) {
				t.Failf("the I/O error is not what is reported: %v", err)
			}
			judge(t, ls, mustFail, "a layer that cannot be read", nil)
		})
		// writes through looping symlinks
		loopShapes := func(t *h.T) (links []h.Entry, through string) {
			names := []string{"l0", "l1", "l2", "l3"}
			n := 1 + t.Intn(4)
			pre := ""
			if t.P(0.3) {
				pre = "deep/dir/"
			}
			switch t.Intn(4) {
			case 0: // a cycle
				for i := 0; i < n; i++ {
					tgt := names[(i+1)%n]
					if t.P(0.3) {
						tgt = "/" + pre + tgt
					}
					links = append(links, mk('2', pre+names[i], tgt))
				}
				return links, pre + names[t.Intn(n)]
			case 1: // through itself
				links = append(links, mk('2', pre+"l0", t.Pick("l0/x", "./l0", "l0/../l0", "/"+pre+"l0/y/z")))
				return links, pre + "l0"
			case 2: // a cycle with sub-paths
				for i := 0; i < n; i++ {
					links = append(links, mk('2', pre+names[i], names[(i+1)%n]+t.Pick("", "/s", "/s/t")))
				}
				return links, pre + names[t.Intn(n)]
			default: // lead-in chain to a cycle
				links = append(links, mk('2', pre+"in", "l0"), mk('2', pre+"l0", "l1"), mk('2', pre+"l1", "l0"))
				return links, pre + "in"
			}
		}
		c.Group("loops", c.N(2500*3, 60000), func(t *h.T) {
			links, through := loopShapes(t)
			stack := noLoopStack(t, 2, 4)
			var w h.Entry
			switch t.Intn(5) {
			case 0:
				w = mk('0', through+"/f", "")
			case 1:
				w = mk('5', through+"/d/e/", "")
			case 2:
				w = mk('0', through+"/.wh.x", "")
			case 3:
				w = mk('0', through+"/.wh..wh..opq", "")
			default:
				w = mk('2', through+"/s", "t")
			}
			isWh := strings.HasPrefix(path.Base(w.Hdr.Name), ".wh.")
			// the loop's links all come before the write: same layer (unless it is a marker) or an earlier one
			if isWh || t.P(0.5) {
				stack = append(stack, links, []h.Entry{w})
			} else {
				stack = append(stack, append(links, w))
			}
			t.Inputf(true, "%s", h.StackString(stack))
			t.Observe("loops", 1)
			ls, raws := fast(t, stack)
			judge(t, ls, mustFail, "a write through a symlink loop", nil)
			if t.P(0.05) {
				judgeCLI(t, raws, mustFail, "a write through a symlink loop")
			}
		})
		c.Group("loops-read", c.N(1500*3, 40000), func(t *h.T) {
			links, through := loopShapes(t)
			stack := append(noLoopStack(t, 2, 4), links)
			t.Inputf(true, "%s", h.StackString(stack))
			ls, _ := fast(t, stack)
			judge(t, ls, mustWork, "", []string{through, through + "/x", through + "/x/y"})
			fsys, err := squash.Load(ls, false)
			if err != nil {
				t.Failf("%v", err)
			}
			if _, err := fs.ReadFile(fsys, through+"/x"); err == nil {
				t.Failf("reading through a loop %q succeeded", through)
			}
			if _, err := fsys.Open(through); err == nil {
				t.Failf("opening a looping link %q succeeded", through)
			}
			t.Observe("loops", 1)
		})
		c.Group("random-loops", c.N(4000*3, 200000), func(t *h.T) {
			g := h.NewGenStack(t, h.StackOpts{MaxLayers: 5, MaxEntries: 10, HardLinks: true, Loops: true})
			stack := g.Stack()
			ls, _ := fast(t, stack)
			t.Inputf(true, "%s", h.StackString(stack))
			judge(t, ls, mayEither, "", []string{g.Path(), g.Path(), g.Path()})
		})
		c.Directed("exponential-symlinks", func(t *h.T) {
			es := []h.Entry{mk('2', "a0", ".")}
			for i := 1; i <= 60; i++ {
				es = append(es, mk('2', fmt.Sprintf("a%d", i), fmt.Sprintf("a%d/a%d", i-1, i-1)))
			}
			t.Input(true, "a60 -> a59/a59 -> ... -> a0/a0, a0 -> .")
			ls, _ := fast(t, [][]h.Entry{es})
			judge(t, ls, mustWork, "", []string{"a60", "a60/x", "a3/a3"})
			ls, _ = fast(t, [][]h.Entry{append(es, mk('0', "a60/x", ""))})
			judge(t, ls, mayEither, "", nil)
		})
		c.Directed("exponential-symlinks-dirs", func(t *h.T) {
			var es []h.Entry
			for i := 0; i <= 50; i++ {
				es = append(es, mk('5', fmt.Sprintf("d%d", i), ""), mk('2', fmt.Sprintf("d%d/x", i), fmt.Sprintf("../d%d/x/../x", i+1)))
			}
			t.Input(true, "d0/x -> ../d1/x/../x ...")
			ls, _ := fast(t, [][]h.Entry{append(es, mk('0', "d0/x/f", ""))})
			judge(t, ls, mayEither, "", []string{"d0/x", "d0/x/y"})
		})
		c.Group("deep", c.N(8, 60), func(t *h.T) {
			p := strings.TrimSuffix(strings.Repeat(t.Pick("a/", "ab/", "é/"), 200+t.Intn(1100)), "/")
			var es []h.Entry
			for i := 0; i < 20; i++ {
				es = append(es, mk('0', fmt.Sprintf("%s/f%d", p[:len(p)-2*i], i), ""))
			}
			t.Inputf(true, "%d-byte deep path", len(p))
			ls, _ := fast(t, [][]h.Entry{es})
			judge(t, ls, mayEither, "", []string{p})
		})
		c.Group("wide", c.N(4, 40), func(t *h.T) {
			var es []h.Entry
			n := 3000
			for i := 0; i < n; i++ {
				es = append(es, mk('0', fmt.Sprintf("d/f%d", t.Intn(n)), ""), mk('2', fmt.Sprintf("s%d", i), fmt.Sprintf("s%d", i+1)))
			}
			t.Input(true, "wide directory, very long symlink chain")
			ls, _ := fast(t, [][]h.Entry{es, append(es, mk('0', "d/.wh..wh..opq", ""))})
			judge(t, ls, mustWork, "", []string{"s0", "s0/x", "s2990"})
		})
		c.Directed("odd-types", func(t *h.T) {
			t.Input(true, "global PAX headers, unknown type flags, hard links to nowhere, to directories and to themselves, empty names")
			for _, typ := range []byte{'7', 'Z', 'A', '1', '2', '3', '4', '6', 'g'} {
				es := []h.Entry{mk('5', "d", ""), mk('0', "f", "")}
				e := mk(typ, "odd", "")
				if typ == 'g' {
					e = h.Entry{Hdr: tar.Header{Typeflag: 'g', Name: "pax_global_header", PAXRecords: map[string]string{"comment": "x"}}}
				}
				for _, ln := range []string{"", "odd", "d", "nowhere", "../f", "/f", "odd/odd"} {
					if typ == '1' || typ == '2' {
						e.Hdr.Linkname = ln
					}
					bs, err := h.TarBytes(append(es[:2:2], e))
					if err != nil {
						continue
					}
					judge(t, []ociv1.Layer{h.FastLayer(bs)}, mayEither, "", []string{"odd", "odd/odd"})
				}
			}
		})
	})
}

// fixSum recomputes a tar header's checksum.
func fixSum(b []byte) {
	for i := 148; i < 156; i++ {
		b[i] = ' '
	}
	sum := 0
	for _, c := range b {
		sum += int(c)
	}
	copy(b[148:156], fmt.Sprintf("%06o\x00 ", sum))
}
