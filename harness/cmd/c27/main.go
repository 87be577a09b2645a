// C27: what goes into the pipeline comes out of the image.
package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/squash"

	"verif/h"
)

const epoch = 1500000000

// source is one ingredient: the file that the pipeline gets, and what it means.
type source struct {
	file string
	es   []h.Entry
	desc string
}

type gen struct {
	t     *h.T
	g     *h.GenStack
	n     int
	links int
}

func (g *gen) name(suffix string) string {
	g.n++
	return fmt.Sprintf("w/%02d%s", g.n, suffix)
}

// layer makes entries without anything whose meaning depends on layers that a squash does not see:
// symlinks have names of their own, so that no other layer goes through them.
func (g *gen) layer() []h.Entry {
	for {
		es := g.g.Layer()
		for i := range es {
			if es[i].Hdr.Typeflag == tar.TypeSymlink {
				g.links++
				es[i].Hdr.Name = path.Join(path.Dir(path.Clean(es[i].Hdr.Name)), fmt.Sprintf("L%d", g.links))
			}
		}
		// a hard link may have lost what it links to
		if h.NewTree().ApplyLayer(es) == nil {
			return es
		}
	}
}

func flatEntries(tree *h.Tree) []h.Entry {
	flat := tree.Flat()
	var names []string
	for n := range flat {
		if n != "." {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	first := map[*h.Inode]string{}
	var es []h.Entry
	for _, n := range names {
		i := flat[n].Inode
		e := h.Entry{Body: i.Body, Hdr: tar.Header{Name: n, Typeflag: i.Type, Mode: i.Mode, Uid: i.UID, Gid: i.GID, Uname: i.UName, Gname: i.GName, ModTime: i.MTime, Linkname: i.Linkname, Size: int64(len(i.Body))}}
		if f, ok := first[i]; ok && i.Type != tar.TypeDir {
			e.Hdr.Typeflag, e.Hdr.Linkname, e.Body, e.Hdr.Size = tar.TypeLink, f, nil, 0
		} else {
			first[i] = n
		}
		es = append(es, e)
	}
	return es
}

func (g *gen) run(args ...string) []byte {
	r := g.t.CLI(h.Cmd{Args: args, Env: []string{"SOURCE_DATE_EPOCH=" + strconv.Itoa(epoch)}})
	if r.Code != 0 {
		g.t.Failf("%q failed with status %d: %s", args, r.Code, r.Err)
	}
	return r.Out
}

func (g *gen) raw() source {
	es := g.layer()
	bs, err := h.TarBytes(es)
	if err != nil {
		h.Fatalf("tar: %v", err)
	}
	s := source{es: es, desc: "layer\n" + h.EntriesString(es)}
	if g.t.P(0.4) {
		bs = h.Gzip(bs)
	}
	s.file = g.t.WriteFile(g.name(g.t.Pick(".tar", ".tar.gz", "")), bs, 0o644)
	g.t.Observe("layers from archives", 1)
	return s
}

// dir builds a real directory and knows what is in it.
func (g *gen) dir() source {
	t := g.t
	var es []h.Entry
	for _, e := range g.layer() {
		base := path.Base(path.Clean(e.Hdr.Name))
		if strings.HasPrefix(base, ".wh.") || e.Hdr.Typeflag == tar.TypeChar || e.Hdr.Typeflag == tar.TypeBlock {
			continue
		}
		es = append(es, e)
	}
	tree := h.NewTree()
	if err := tree.ApplyLayer(es); err != nil {
		// a hard link whose target the filter took away
		return g.raw()
	}
	root := filepath.Join(t.Scratch(), g.name(".d"))
	must := func(err error) {
		if err != nil {
			h.Fatalf("dir: %v", err)
		}
	}
	must(os.MkdirAll(root, 0o755))
	es = flatEntries(tree)
	for i := range es {
		hd := &es[i].Hdr
		full := filepath.Join(root, hd.Name)
		switch hd.Typeflag {
		case tar.TypeDir:
			must(os.Mkdir(full, 0o755))
		case tar.TypeReg:
			must(os.WriteFile(full, es[i].Body, 0o644))
		case tar.TypeSymlink:
			must(os.Symlink(hd.Linkname, full))
			hd.Mode = 0o777
		case tar.TypeFifo:
			must(syscall.Mkfifo(full, 0o644))
		case tar.TypeLink:
			must(os.Link(filepath.Join(root, hd.Linkname), full))
		default:
			h.Fatalf("type %c", hd.Typeflag)
		}
	}
	for i := len(es) - 1; i >= 0; i-- {
		hd := &es[i].Hdr
		full := filepath.Join(root, hd.Name)
		if hd.ModTime.IsZero() {
			hd.ModTime = time.Unix(1234567890, 0)
		}
		hd.ModTime = time.Unix(hd.ModTime.Unix(), 0)
		if hd.Typeflag == tar.TypeLink {
			continue
		}
		must(os.Lchown(full, hd.Uid, hd.Gid))
		if hd.Typeflag != tar.TypeSymlink {
			must(syscall.Chmod(full, uint32(hd.Mode)))
		}
		ts := syscall.Timespec{Sec: hd.ModTime.Unix()}
		must(h.Utimensat(full, []syscall.Timespec{ts, ts}))
		if hd.ModTime.Unix() > epoch {
			hd.ModTime = time.Unix(epoch, 0)
			t.Observe("times clamped", 1)
		}
	}
	args := []string{"layer", "dir", "--chown-uname=u1", "--chown-gname=g1"}
	uid, gid := -1, -1
	if t.P(0.3) {
		uid = t.Intn(5) * 100
		args = append(args, fmt.Sprintf("--chown-uid=%d", uid))
	}
	if t.P(0.3) {
		gid = t.Intn(5) * 100
		args = append(args, fmt.Sprintf("--chown-gid=%d", gid))
	}
	for i := range es {
		hd := &es[i].Hdr
		hd.Uname, hd.Gname = "u1", "g1"
		if uid >= 0 {
			hd.Uid = uid
		}
		if gid >= 0 {
			hd.Gid = gid
		}
	}
	var pre []h.Entry
	if t.P(0.4) {
		p := t.Pick("usr/local", "opt", g.g.Path(), g.g.Path())
		args = append(args, "--prefix="+p, "--prefix-uid=7", "--prefix-gname=pg")
		parts := strings.Split(p, "/")
		for i := range parts {
			pre = append(pre, h.Entry{Hdr: tar.Header{Name: strings.Join(parts[:i+1], "/"), Typeflag: tar.TypeDir, Mode: 0o755, Uid: 7, Uname: "root", Gname: "pg", ModTime: time.Unix(epoch, 0)}})
		}
		for i := range es {
			es[i].Hdr.Name = p + "/" + es[i].Hdr.Name
			if es[i].Hdr.Typeflag == tar.TypeLink {
				es[i].Hdr.Linkname = p + "/" + es[i].Hdr.Linkname
			}
		}
	}
	es = append(pre, es...)
	out := g.run(append(args, root)...)
	t.Observe("layers from directories", 1)
	return source{file: t.WriteFile(g.name(".tar"), out, 0o644), es: es, desc: fmt.Sprintf("dir %q\n", args) + h.EntriesString(es)}
}

// wheel installs a wheel; what its layer has to hold is the business of other checks, apart from the
// places of its members.
func (g *gen) wheel() source {
	t := g.t
	for {
		w := h.GenWheel(t, h.WheelOpts{MaxFiles: 5, NoExotic: true})
		plat := h.GenPlat(t)
		if t.P(0.5) {
			p := "/" + g.g.Path()
			plat.Scheme.PureLib, plat.Scheme.PlatLib = p, p
			plat.Scheme.Data = "/" + t.Pick(g.g.Path(), "usr")
		}
		ps, conflict, bad := w.Place(plat)
		if conflict != "" || bad != "" {
			continue
		}
		wf := t.WriteFile(g.name("-demo-1.0-py3-none-any.whl"), w.Bytes(), 0o644)
		yf := t.WriteFile(g.name(".yaml"), h.PlatYAML(plat, []string{"true"}), 0o644)
		r := t.CLI(h.Cmd{Args: []string{"layer", "wheel", "--platform-file", yf, wf}})
		if r.Code != 0 {
			t.Failf("a valid wheel was refused: %s\n%+v\n%s", r.Err, plat, w)
		}
		es, err := h.ParseTar(r.Out)
		if err != nil {
			t.Failf("wheel layer: %v", err)
		}
		at := map[string]h.Entry{}
		for _, e := range es {
			at[path.Clean(e.Hdr.Name)] = e
		}
		for _, p := range ps {
			e, ok := at[p.Path]
			if !ok || (!p.Dir && !bytes.Equal(e.Body, p.Body)) {
				t.Failf("member %q is not at %q with its contents\n%+v\n%s", p.Member.Name, p.Path, plat, w)
			}
		}
		t.Observe("layers from wheels", 1)
		return source{file: t.WriteFile(g.name(".tar"), r.Out, 0o644), es: es, desc: fmt.Sprintf("wheel %+v\n%s", plat.Scheme, h.EntriesString(es))}
	}
}

func (g *gen) squash(files []string) string {
	out := g.run(append([]string{"layer", "squash"}, files...)...)
	g.t.Observe("squashes in pipelines", 1)
	name := ".tar"
	if g.t.P(0.3) {
		out = h.Gzip(out)
		name = ".tgz"
	}
	return g.t.WriteFile(g.name(name), out, 0o644)
}

// group squashes some runs of consecutive layers, possibly several times over.
func (g *gen) group(files []string) []string {
	for rounds := g.t.Intn(3); rounds > 0; rounds-- {
		if len(files) < 2 {
			break
		}
		i := g.t.Intn(len(files) - 1)
		j := i + 2 + g.t.Intn(len(files)-i-1)
		files = append(append(append([]string(nil), files[:i]...), g.squash(files[i:j])), files[j:]...)
	}
	return files
}

func layersOf(t *h.T, what string, bs []byte) [][]h.Entry {
	img, err := h.DecodeImage(bs)
	if err != nil {
		t.Failf("%s: %v", what, err)
	}
	var ret [][]h.Entry
	for i, l := range img.Layers {
		es, err := h.ParseTar(l)
		if err != nil {
			t.Failf("%s: layer %d: %v", what, i, err)
		}
		ret = append(ret, es)
	}
	return ret
}

func apply(t *h.T, what string, stack [][]h.Entry) *h.Tree {
	tree := h.NewTree()
	for i, es := range stack {
		if err := tree.ApplyLayer(es); err != nil {
			t.Failf("%s: layer %d does not extract: %v\n%s", what, i, err, h.EntriesString(es))
		}
	}
	return tree
}

// view compares what the library's file system says about an image with the tree.
func view(t *h.T, file string, tree *h.Tree) {
	img, err := fsutil.OpenImage(file)
	if err != nil {
		t.Failf("OpenImage: %v", err)
	}
	layers, err := img.Layers()
	if err != nil {
		t.Failf("Layers: %v", err)
	}
	view, err := squash.Load(layers, false)
	if err != nil {
		t.Failf("Load: %v", err)
	}
	for p, n := range tree.Flat() {
		i := n.Inode
		switch i.Type {
		case tar.TypeReg:
			bs, err := fs.ReadFile(view, p)
			if err != nil || !bytes.Equal(bs, i.Body) {
				t.Errorf("the view of the image reads %q as %.40q, %v; want %.40q", p, bs, err, i.Body)
			}
			info, err := fs.Stat(view, p)
			if err != nil {
				t.Errorf("Stat %q: %v", p, err)
				continue
			}
			hd, ok := info.Sys().(*tar.Header)
			if !ok || hd.Uid != i.UID || hd.Gid != i.GID || hd.Mode&0o7777 != i.Mode || info.Size() != int64(len(i.Body)) {
				t.Errorf("the view says %q is %+v, want %s", p, hd, i)
			}
			t.Observe("files read back through the view", 1)
		case tar.TypeDir:
			ents, err := fs.ReadDir(view, p)
			if err != nil {
				if p == "." && len(n.Children) == 0 {
					continue
				}
				t.Errorf("ReadDir %q: %v", p, err)
				continue
			}
			var got, want []string
			for _, e := range ents {
				got = append(got, e.Name())
			}
			for k := range n.Children {
				want = append(want, k)
			}
			sort.Strings(want)
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				t.Errorf("the view lists %q as %q, want %q", p, got, want)
			}
			t.Observe("directories listed through the view", 1)
		}
	}
	for _, p := range []string{"gone/for/good", "nonexistent"} {
		if _, err := fs.Stat(view, p); !errors.Is(err, fs.ErrNotExist) {
			if _, lerr := tree.Lookup(p, true); lerr == nil {
				t.Errorf("Stat of the missing %q: %v", p, err)
			}
		}
	}
}

func pipeline(t *h.T) { pipelineOf(t, "") }

// pipelineOf: symlinks of the large stacks that later layers go through are left out (see the assumptions)
func pipelineOf(t *h.T, large string) {
	g := &gen{t: t, g: h.NewGenStack(t, h.StackOpts{MaxLayers: 1, MaxEntries: 2 + t.Intn(10), HardLinks: true, MarkerBodies: true, BigBodies: true})}
	var want [][]h.Entry
	var descs []string
	image := ""
	var all []source
	// a base from elsewhere
	if t.P(0.5) {
		base := &h.Image{Tags: []string{"base:1"}, Config: map[string]interface{}{"architecture": "amd64", "os": "linux", "config": map[string]interface{}{}, "history": []interface{}{}}}
		for n := 1 + t.Intn(3); n > 0; n-- {
			es := g.layer()
			bs, err := h.TarBytes(es)
			if err != nil {
				h.Fatalf("tar: %v", err)
			}
			base.Layers = append(base.Layers, bs)
			want = append(want, es)
			descs = append(descs, "base layer\n"+h.EntriesString(es))
		}
		image = t.WriteFile(g.name("-base.tar"), base.Tar(t.P(0.5)), 0o644)
		t.Observe("images on a foreign base", 1)
	}
	var bs []byte
	for steps := 1 + t.Intn(2); steps > 0; steps-- {
		var files []string
		for n := 1 + t.Intn(4); n > 0; n-- {
			var s source
			switch r := t.Intn(10); {
			case len(all) > 0 && t.P(0.15):
				s = all[t.Intn(len(all))]
				t.Observe("layers used again", 1)
			case r < 4:
				s = g.raw()
			case r < 8:
				s = g.dir()
			default:
				s = g.wheel()
			}
			all = append(all, s)
			files = append(files, s.file)
			want = append(want, s.es)
			descs = append(descs, s.desc)
		}
		if large != "" {
			// a few ingredients that are large
			for i, es := range h.GenScale(t, large) {
				if i == 12 {
					break
				}
				if h.NewTree().ApplyLayer(es) != nil {
					continue
				}
				bs, err := h.TarBytes(es)
				if err != nil {
					h.Fatalf("tar: %v", err)
				}
				files = append(files, t.WriteFile(g.name(".tar"), bs, 0o644))
				want = append(want, es)
				descs = append(descs, fmt.Sprintf("large %s: %.500s", large, h.EntriesString(es)))
			}
			t.Observe("large ingredients", 1)
			large = ""
		}
		files = g.group(files)
		args := []string{"image", "build"}
		if image != "" {
			args = append(args, "--base", image)
			t.Observe("images on a base", 1)
		}
		if t.P(0.5) {
			args = append(args, "--tag", "x/y:z")
		}
		args = append(args, files...)
		descs = append(descs, fmt.Sprintf("%q", args))
		bs = g.run(args...)
		image = t.WriteFile(g.name("-img.tar"), bs, 0o644)
	}
	t.Input(len(want) > 1, strings.Join(descs, "\n"))
	tree := apply(t, "model", want)
	if tree.IllFormed {
		return
	}
	got := layersOf(t, "image", bs)
	if d := h.DiffTrees(tree, apply(t, "image", got)); d != "" {
		t.Failf("the image's tree is not that of its ingredients: %s", d)
	}
	t.Observe("image trees compared", 1)
	view(t, image, tree)
	// everything squashed in to one layer
	if t.P(0.5) && len(got) >= 2 {
		var files []string
		img, err := h.DecodeImage(bs)
		if err != nil {
			t.Failf("%v", err)
		}
		for _, l := range img.Blobs {
			files = append(files, t.WriteFile(g.name(".layer"), l, 0o644))
		}
		es, err := h.ParseTar(g.run(append([]string{"layer", "squash"}, files...)...))
		if err != nil {
			t.Failf("squashed image: %v", err)
		}
		if d := h.DiffTrees(tree, apply(t, "squashed image", [][]h.Entry{es})); d != "" {
			t.Failf("the image's layers squash to another tree: %s", d)
		}
		t.Observe("flattened images compared", 1)
	}
}

func main() {
	h.Main(h.Config{
		ID:   "C27",
		Rule: "random pipelines of the real program: layers from generated archives, real directories and wheels, consecutive runs of them squashed (several times over), images built from them on no base, on a foreign base and on each other; the image's tree, extracted by the reference extractor, and the library's view of it are compared with the tree of the ingredients; non-trivial: at least two ingredients",
		Require: []string{"layers from archives", "layers from directories", "layers from wheels", "squashes in pipelines", "images on a base", "images on a foreign base", "image trees compared", "flattened images compared",
			"files read back through the view", "directories listed through the view", "times clamped", "layers used again", "large ingredients"},
		Assumptions: []string{"no ingredient writes through a symlink of another one"},
	}, func(c *h.C) {
		c.Group("pipeline", c.N(1600, 16000), pipeline)
		c.Group("scale", c.N(40, 800), func(t *h.T) { pipelineOf(t, t.Pick("bodies", "entries", "layers", "names")) })
	})
}
