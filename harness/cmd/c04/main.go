// C04: the layered filesystem view shows exactly the merged tree.
package main

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"sync"
	"testing/iotest"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/squash"

	"verif/h"
)

func goMode(i *h.Inode) fs.FileMode {
	m := fs.FileMode(i.Mode & 0o777)
	if i.Mode&0o4000 != 0 {
		m |= fs.ModeSetuid
	}
	if i.Mode&0o2000 != 0 {
		m |= fs.ModeSetgid
	}
	if i.Mode&0o1000 != 0 {
		m |= fs.ModeSticky
	}
	return m | typeBits(i)
}

func typeBits(i *h.Inode) fs.FileMode {
	switch i.Type {
	case tar.TypeDir:
		return fs.ModeDir
	case tar.TypeSymlink:
		return fs.ModeSymlink
	case tar.TypeFifo:
		return fs.ModeNamedPipe
	case tar.TypeChar:
		return fs.ModeDevice | fs.ModeCharDevice
	case tar.TypeBlock:
		return fs.ModeDevice
	}
	return 0
}

// checkInfo compares a FileInfo with the model's inode.
func checkInfo(what, base string, fi fs.FileInfo, i *h.Inode) error {
	hdr, ok := fi.Sys().(*tar.Header)
	switch {
	case fi.Name() != base:
		return fmt.Errorf("%s: name %q, want %q", what, fi.Name(), base)
	case fi.Mode() != goMode(i):
		return fmt.Errorf("%s: mode %v, want %v", what, fi.Mode(), goMode(i))
	case fi.IsDir() != (i.Type == tar.TypeDir):
		return fmt.Errorf("%s: IsDir=%v", what, fi.IsDir())
	case i.Type == tar.TypeReg && fi.Size() != int64(len(i.Body)):
		return fmt.Errorf("%s: size %d, want %d", what, fi.Size(), len(i.Body))
	case !fi.ModTime().Equal(i.MTime):
		return fmt.Errorf("%s: mtime %v, want %v", what, fi.ModTime(), i.MTime)
	case !ok:
		return fmt.Errorf("%s: no tar header in Sys()", what)
	case hdr.Uid != i.UID || hdr.Gid != i.GID || hdr.Uname != i.UName || hdr.Gname != i.GName:
		return fmt.Errorf("%s: owner %d(%s):%d(%s), want %d(%s):%d(%s)", what, hdr.Uid, hdr.Uname, hdr.Gid, hdr.Gname, i.UID, i.UName, i.GID, i.GName)
	case i.Type == tar.TypeSymlink && hdr.Linkname != i.Linkname:
		return fmt.Errorf("%s: link target %q, want %q", what, hdr.Linkname, i.Linkname)
	}
	return nil
}

// checkPath compares everything the view says about one path with the model.
func checkPath(fsys fs.FS, tree *h.Tree, p string, omit bool, seed int) (obs string, err error) {
	want, lerr := tree.Lookup(p, true)
	if lerr != nil {
		want = nil // loop
	}
	f, operr := fsys.Open(p)
	if want == nil {
		if operr == nil {
			_ = f.Close()
			return "", fmt.Errorf("Open(%q) works, but there is no such file", p)
		}
		var pe *fs.PathError
		if !errors.As(operr, &pe) || pe.Path != p {
			return "", fmt.Errorf("Open(%q) error does not name the path: %v", p, operr)
		}
		if plainMissing(tree, p) && !errors.Is(operr, fs.ErrNotExist) {
			return "", fmt.Errorf("Open(%q): want a does-not-exist error, got %v", p, operr)
		}
		return "absent", nil
	}
	if operr != nil {
		return "", fmt.Errorf("Open(%q): %v, want %v", p, operr, want.Inode)
	}
	defer f.Close()
	ino := want.Inode
	fi, err := f.Stat()
	if ino.Implied {
		if err == nil {
			if !fi.IsDir() {
				return "", fmt.Errorf("Stat(%q): a directory that no layer describes is shown as %v", p, fi.Mode())
			}
		}
	} else {
		if err != nil {
			return "", fmt.Errorf("Stat(%q): %v", p, err)
		}
		if err := checkInfo("Stat("+p+")", base(p), fi, ino); err != nil {
			return "", err
		}
	}
	if ino.Type == tar.TypeDir {
		var buf [8]byte
		if n, err := f.Read(buf[:]); err == nil || n != 0 || err == io.EOF {
			return "", fmt.Errorf("Read of directory %q: n=%d err=%v", p, n, err)
		}
		return "dir", checkDir(fsys, f, want, p, seed)
	}
	if rd, ok := f.(fs.ReadDirFile); ok {
		if des, err := rd.ReadDir(-1); err == nil {
			return "", fmt.Errorf("ReadDir of non-directory %q gives %d entries and no error", p, len(des))
		}
	}
	if ino.Type != tar.TypeReg {
		return "special", nil
	}
	if omit && len(ino.Body) > 0 {
		bs, err := io.ReadAll(f)
		if err == nil {
			return "", fmt.Errorf("reading %q without contents loaded: %d bytes and no error", p, len(bs))
		}
		if len(bs) != 0 {
			return "", fmt.Errorf("reading %q without contents loaded returned data: %q", p, bs)
		}
		if _, err := fs.ReadFile(fsys, p); err == nil {
			return "", fmt.Errorf("ReadFile(%q) without contents loaded: no error", p)
		}
		return "refused data", nil
	}
	var r io.Reader = f
	switch seed % 4 {
	case 0:
		r = iotest.OneByteReader(f)
	case 1:
		r = iotest.HalfReader(f)
	}
	if len(ino.Body) > 0 {
		// reading nothing is not the end
		if n, err := f.Read(nil); n != 0 || err != nil {
			return "", fmt.Errorf("reading nothing from %q: n=%d err=%v", p, n, err)
		}
	}
	bs, err := io.ReadAll(r)
	if err != nil {
		return "", fmt.Errorf("reading %q: %v", p, err)
	}
	if !bytes.Equal(bs, ino.Body) {
		return "", fmt.Errorf("reading %q: %q, want %q", p, bs, ino.Body)
	}
	var buf [4]byte
	if n, err := f.Read(buf[:]); n != 0 || err != io.EOF {
		return "", fmt.Errorf("reading %q past the end: n=%d err=%v", p, n, err)
	}
	return "file", nil
}

// plainMissing says whether p is missing because the last component is absent from an existing real directory.
func plainMissing(tree *h.Tree, p string) bool {
	if n, err := tree.Lookup(p, false); err != nil || n != nil {
		return false
	}
	d, err := tree.Lookup(path.Dir(p), true)
	return err == nil && d != nil && d.Children != nil
}

func base(p string) string { return path.Base(p) }

func checkDir(fsys fs.FS, f fs.File, want *h.Node, p string, seed int) error {
	rd, ok := f.(fs.ReadDirFile)
	if !ok {
		return fmt.Errorf("directory %q cannot be listed", p)
	}
	var names []string
	for n := range want.Children {
		names = append(names, n)
	}
	sort.Strings(names)
	var got []fs.DirEntry
	if seed%2 == 0 {
		all := -(seed / 2 % 2) // all that is left, by any count that is not positive
		des, err := rd.ReadDir(all)
		if err != nil {
			return fmt.Errorf("ReadDir(%q, %d): %v", p, all, err)
		}
		got = des
		if des, err := rd.ReadDir(all); err != nil || len(des) != 0 {
			return fmt.Errorf("second ReadDir(%q): %d entries, err=%v", p, len(des), err)
		}
	} else {
		n := 1 + seed/2%3
		for {
			des, err := rd.ReadDir(n)
			if err == io.EOF && len(des) == 0 {
				break
			}
			if err != nil {
				return fmt.Errorf("ReadDir(%q, %d): %v", p, n, err)
			}
			if len(des) == 0 || len(des) > n {
				return fmt.Errorf("ReadDir(%q, %d) returned %d entries without an error", p, n, len(des))
			}
			got = append(got, des...)
			if len(got) > len(names)+10 {
				break
			}
		}
	}
	var gn []string
	for _, de := range got {
		gn = append(gn, de.Name())
	}
	if strings.Join(gn, "\x00") != strings.Join(names, "\x00") {
		return fmt.Errorf("directory %q lists %q, want %q", p, gn, names)
	}
	for _, de := range got {
		ch := want.Children[de.Name()]
		if de.Type() != typeBits(ch.Inode) {
			return fmt.Errorf("directory %q: entry %q has type %v, want %v", p, de.Name(), de.Type(), typeBits(ch.Inode))
		}
		if de.IsDir() != (ch.Inode.Type == tar.TypeDir) {
			return fmt.Errorf("directory %q: entry %q: IsDir=%v", p, de.Name(), de.IsDir())
		}
		fi, err := de.Info()
		if ch.Inode.Implied {
			continue
		}
		if err != nil {
			return fmt.Errorf("directory %q: entry %q: Info: %v", p, de.Name(), err)
		}
		if err := checkInfo(fmt.Sprintf("entry %q of %q", de.Name(), p), de.Name(), fi, ch.Inode); err != nil {
			return err
		}
	}
	return nil
}

// paths lists every live path plus paths that should be absent.
func paths(g *h.GenStack, tree *h.Tree, stack [][]h.Entry) []string {
	m := map[string]struct{}{}
	for p := range tree.Flat() {
		m[p] = struct{}{}
	}
	for _, l := range stack {
		for _, e := range l {
			p := path.Clean(e.Hdr.Name)
			m[p] = struct{}{}
			if b := path.Base(p); strings.HasPrefix(b, ".wh.") {
				m[path.Join(path.Dir(p), strings.TrimPrefix(b, ".wh."))] = struct{}{}
			}
		}
	}
	if g != nil {
		for i := 0; i < 12; i++ {
			m[g.Path()] = struct{}{}
		}
	}
	var ret []string
	for p := range m {
		// (whether a deletion marker can be opened by its own name is left open)
		if fs.ValidPath(p) && !strings.Contains("/"+p, "/.wh.") {
			ret = append(ret, p)
		}
	}
	sort.Strings(ret)
	return ret
}

func run(t *h.T, g *h.GenStack, stack [][]h.Entry, concurrent bool) {
	tree := h.NewTree()
	for _, l := range stack {
		if err := tree.ApplyLayer(l); err != nil {
			t.Observe("stacks_not_extractable", 1)
			return
		}
	}
	var layers []ociv1.Layer
	for _, es := range stack {
		bs, err := h.TarBytes(es)
		if err != nil {
			h.Fatalf("%v", err)
		}
		layers = append(layers, h.FastLayer(bs))
	}
	t.Input(len(tree.Flat()) > 2, h.StackString(stack))
	ps := paths(g, tree, stack)
	for _, omit := range []bool{false, true} {
		fsys, err := squash.Load(layers, omit)
		if err != nil {
			t.Failf("Load: %v", err)
		}
		one := func(order []int, seed int) map[string]int {
			obs := map[string]int{}
			for _, i := range order {
				o, err := checkPath(fsys, tree, ps[i], omit, seed+i)
				if err != nil {
					t.Errorf("omitContent=%v: %v", omit, err)
					return obs
				}
				obs[o]++
			}
			return obs
		}
		if !concurrent {
			for k, n := range one(t.Perm(len(ps)), t.Intn(100)) {
				t.Observe("paths "+k, n)
			}
			// walking finds exactly the live entries
			live := map[string]bool{}
			for p := range tree.Flat() {
				live[p] = true
			}
			err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
				if err != nil && !errors.Is(err, squash.ErrMissing) {
					return err
				}
				delete(live, p)
				return nil
			})
			if n, _ := tree.Lookup(".", true); n.Inode.Implied {
				// a root nobody describes cannot be stat'ed, which WalkDir starts with
				continue
			}
			if err != nil {
				t.Failf("walking: %v", err)
			}
			if len(live) > 0 {
				t.Failf("walking missed %v", live)
			}
			t.Observe("walks", 1)
			continue
		}
		const workers = 6
		var wg sync.WaitGroup
		results := make([]map[string]int, workers)
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			order, seed := t.Perm(len(ps)), t.Intn(100)
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				results[w] = one(order, seed)
			}()
		}
		close(start)
		wg.Wait()
		for _, r := range results {
			for k, n := range r {
				t.Observe("concurrent paths "+k, n)
			}
		}
	}
}

func mk(typ byte, name, arg string) h.Entry {
	e := h.Entry{Hdr: tar.Header{Typeflag: typ, Name: name, Mode: 0o644, ModTime: time.Unix(1000, 0)}}
	switch typ {
	case tar.TypeSymlink, tar.TypeLink:
		e.Hdr.Linkname = arg
	case tar.TypeReg:
		e.Body = []byte(arg)
	case tar.TypeDir:
		e.Hdr.Mode = 0o755
	}
	return e
}

func main() {
	h.Main(h.Config{
		ID:   "C04",
		Race: true,
		Rule: "random layer stacks loaded by the real code (with and without contents, built with the race detector); for every live path, every path any layer ever mentioned and further paths of the same alphabet, " +
			"Open/Stat/Read (varied chunking)/ReadDir (varied n)/DirEntry.Info are compared with the reference extractor's tree, sequentially, from 6 goroutines on one view, and from 6 goroutines on one handle. Non-trivial: more than 2 live paths.",
		Require:     []string{"paths file", "paths dir", "paths absent", "paths special", "paths refused data", "walks", "concurrent paths file", "shared_handle_records", "shared_handle_dirents", "closed_handles", "symlink_chains", "large"},
		Assumptions: []string{"a directory that no layer describes has no metadata to show", "stacks are extractable"},
	}, func(c *h.C) {
		o := h.StackOpts{MaxLayers: 5, MaxEntries: 9, HardLinks: true, BigBodies: true, MarkerBodies: true}
		c.Group("sequential", c.N(20000, 400000), func(t *h.T) {
			o := o
			o.Loops = t.P(0.3)
			g := h.NewGenStack(t, o)
			stack := g.Stack()
			if t.P(0.5) {
				stack[0] = append(stack[0], mk('5', "./", ""))
			}
			run(t, g, stack, false)
		})
		c.Group("concurrent", c.N(5000, 100000), func(t *h.T) {
			o := o
			o.Loops = t.P(0.3)
			g := h.NewGenStack(t, o)
			run(t, g, g.Stack(), true)
		})
		c.Group("scale", c.N(36, 600), func(t *h.T) {
			kind := h.ScaleKinds[t.Intn(len(h.ScaleKinds))]
			run(t, nil, h.GenScale(t, kind), kind != "bodies" && t.P(0.2))
			t.Observe("large", 1)
			t.State("large", kind)
		})
		c.Group("chains", c.N(500, 10000), func(t *h.T) {
			run(t, nil, h.GenChain(t), t.P(0.2))
			t.Observe("symlink_chains", 1)
		})
		c.Directed("dangling-link-listed", func(t *h.T) {
			run(t, nil, [][]h.Entry{{mk('5', "d/", ""), mk('2', "d/dangling", "nowhere"), mk('2', "d/loop", "loop"), mk('2', "d/ok", "../f"), mk('0', "f", "F")}}, false)
		})
		c.Group("shared-handle", c.N(300, 6000), func(t *h.T) {
			nrec, nent := 1+t.Intn(400), 1+t.Intn(120)
			var es []h.Entry
			body := make([]byte, 4*nrec)
			for i := 0; i < nrec; i++ {
				binary.BigEndian.PutUint32(body[4*i:], uint32(i))
			}
			es = append(es, mk('5', "d/", ""))
			es = append(es, h.Entry{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "f", Mode: 0o644}, Body: body})
			for i := 0; i < nent; i++ {
				es = append(es, mk(t.Pick("0", "5", "2")[0], fmt.Sprintf("d/e%03d", i), "x"))
			}
			bs, err := h.TarBytes(es)
			if err != nil {
				h.Fatalf("%v", err)
			}
			t.Inputf(true, "one handle shared by 6 goroutines: %d records, %d directory entries", nrec, nent)
			fsys, err := squash.Load([]ociv1.Layer{h.FastLayer(bs)}, false)
			if err != nil {
				t.Failf("%v", err)
			}
			fh, err := fsys.Open("f")
			if err != nil {
				t.Failf("%v", err)
			}
			dh, err := fsys.Open("d")
			if err != nil {
				t.Failf("%v", err)
			}
			var wg sync.WaitGroup
			var mu sync.Mutex
			recs := map[uint32]int{}
			ents := map[string]int{}
			for w := 0; w < 6; w++ {
				n := 1 + t.Intn(3)
				wg.Add(2)
				go func() {
					defer wg.Done()
					for {
						var buf [4]byte
						k, err := fh.Read(buf[:])
						if err != nil {
							if err != io.EOF {
								t.Errorf("%v", err)
							}
							return
						}
						if k != 4 {
							t.Errorf("short read of %d", k)
							return
						}
						_, _ = fh.Stat()
						mu.Lock()
						recs[binary.BigEndian.Uint32(buf[:])]++
						mu.Unlock()
					}
				}()
				go func() {
					defer wg.Done()
					for {
						des, err := dh.(fs.ReadDirFile).ReadDir(n)
						if err != nil {
							if err != io.EOF {
								t.Errorf("%v", err)
							}
							return
						}
						mu.Lock()
						for _, de := range des {
							ents[de.Name()]++
						}
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			if len(recs) != nrec || len(ents) != nent {
				t.Failf("%d of %d records and %d of %d entries seen", len(recs), nrec, len(ents), nent)
			}
			for r, n := range recs {
				if n != 1 {
					t.Failf("record %d read %d times", r, n)
				}
			}
			for r, n := range ents {
				if n != 1 {
					t.Failf("entry %q listed %d times", r, n)
				}
			}
			t.Observe("shared_handle_records", nrec)
			t.Observe("shared_handle_dirents", nent)
			// closed handles
			for _, f := range []fs.File{fh, dh} {
				if err := f.Close(); err != nil {
					t.Failf("Close: %v", err)
				}
			}
			fh2, _ := fsys.Open("f")
			_ = fh2.Close()
			var buf [4]byte
			if n, err := fh2.Read(buf[:]); n != 0 || err == nil || err == io.EOF {
				t.Failf("reading a closed file: n=%d err=%v", n, err)
			}
			dh2, _ := fsys.Open("d")
			_ = dh2.Close()
			if des, err := dh2.(fs.ReadDirFile).ReadDir(-1); len(des) != 0 || err == nil {
				t.Failf("listing a closed directory: %d entries, err=%v", len(des), err)
			}
			t.Observe("closed_handles", 4)
		})
		c.Group("closed", c.N(200, 2000), func(t *h.T) {
			es := []h.Entry{mk('5', "d/", ""), mk('0', "d/x", "X"), mk('0', "f", strings.Repeat("F", 1+t.Intn(50))), mk('2', "l", "f"), mk('2', "m", "d")}
			bs, err := h.TarBytes(es)
			if err != nil {
				h.Fatalf("%v", err)
			}
			name := t.Pick("f", "l", "d", "m", ".")
			pre := t.Intn(3)
			t.Inputf(true, "using %q after closing it, %d reads before", name, pre)
			fsys, err := squash.Load([]ociv1.Layer{h.FastLayer(bs)}, false)
			if err != nil {
				t.Failf("%v", err)
			}
			fh, err := fsys.Open(name)
			if err != nil {
				t.Failf("%v", err)
			}
			use := func() (int, error) {
				if d, ok := fh.(fs.ReadDirFile); ok && name != "f" && name != "l" {
					es, err := d.ReadDir(1)
					return len(es), err
				}
				return fh.Read(make([]byte, 1))
			}
			for i := 0; i < pre; i++ {
				_, _ = use()
			}
			if err := fh.Close(); err != nil {
				t.Errorf("closing: %v", err)
			}
			n, err := use()
			if n != 0 || err == nil || err == io.EOF {
				t.Errorf("a closed handle of %q gives %d, %v", name, n, err)
			}
			t.Observe("closed handles used", 1)
		})
		c.Group("invalid-names", c.N(40, 400), func(t *h.T) {
			bs, _ := h.TarBytes([]h.Entry{mk('5', "./", ""), mk('5', "a/", ""), mk('0', "a/b", "x")})
			fsys, err := squash.Load([]ociv1.Layer{h.FastLayer(bs)}, t.P(0.5))
			if err != nil {
				t.Failf("%v", err)
			}
			for _, n := range []string{"", "/", "/a", "a/", "./a", "a/./b", "a//b", "../a", "a/../a", "..", "a/b/"} {
				f, err := fsys.Open(n)
				if err == nil {
					_ = f.Close()
					t.Failf("Open(%q) accepts an invalid path", n)
				}
			}
			t.Inputf(true, "invalid names %s", t.Name)
		})
	})
}
