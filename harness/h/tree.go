package h

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
	ociv1types "github.com/google/go-containerregistry/pkg/v1/types"
)

// Entry is one tar entry as observed or generated.
type Entry struct {
	Hdr  tar.Header
	Body []byte
}

func (e Entry) String() string {
	h := e.Hdr
	s := fmt.Sprintf("%c %q", h.Typeflag, h.Name)
	if h.Linkname != "" {
		s += fmt.Sprintf("->%q", h.Linkname)
	}
	s += fmt.Sprintf(" m%o u%d:%d", h.Mode, h.Uid, h.Gid)
	if len(e.Body) > 0 {
		s += fmt.Sprintf(" %dB:%.12q", len(e.Body), e.Body)
	}
	return s
}

// EntriesString renders a list of entries.
func EntriesString(es []Entry) string {
	var b strings.Builder
	for _, e := range es {
		b.WriteString(e.String())
		b.WriteString("\n")
	}
	return b.String()
}

// TarBytes serializes entries.
func TarBytes(es []Entry) ([]byte, error) {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, e := range es {
		hdr := e.Hdr
		if hdr.Typeflag == tar.TypeReg {
			hdr.Size = int64(len(e.Body))
		}
		if err := w.WriteHeader(&hdr); err != nil {
			return nil, err
		}
		if hdr.Typeflag == tar.TypeReg {
			if _, err := w.Write(e.Body); err != nil {
				return nil, err
			}
		}
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// ParseTar reads entries.
func ParseTar(bs []byte) ([]Entry, error) {
	var ret []Entry
	r := tar.NewReader(bytes.NewReader(bs))
	for {
		hdr, err := r.Next()
		if err != nil {
			if errors.Is(err, io.EOF) {
				return ret, nil
			}
			return nil, err
		}
		body, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		ret = append(ret, Entry{Hdr: *hdr, Body: body})
	}
}

// Gzip compresses.
func Gzip(bs []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	_, _ = w.Write(bs)
	_ = w.Close()
	return buf.Bytes()
}

// LayerOf wraps raw (possibly compressed) bytes in a layer.
func LayerOf(bs []byte) (ociv1.Layer, error) {
	return ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) {
		return io.NopCloser(bytes.NewReader(bs)), nil
	})
}

// LayerBytes returns the uncompressed bytes of a layer.
func LayerBytes(l ociv1.Layer) ([]byte, error) {
	r, err := l.Uncompressed()
	if err != nil {
		return nil, err
	}
	defer r.Close()
	return io.ReadAll(r)
}

// ---------------------------------------------------------------------------------------------
// The reference model: an in-memory filesystem that extracts layers the way the OCI image-layer
// specification says.

// Inode is a file.
type Inode struct {
	Type     byte // tar typeflag; never TypeLink
	Implied  bool // directory that no entry ever described
	Body     []byte
	Linkname string
	Mode     int64
	UID, GID int
	UName    string
	GName    string
	MTime    time.Time
	Dev      [2]int64
	Xattrs   string
}

// Node is a directory entry.
type Node struct {
	Inode    *Inode
	Children map[string]*Node // non-nil iff directory
	Parent   *Node
	Name     string // basename
}

// Tree is the modelled filesystem.
type Tree struct {
	Root *Node

	// IllFormed is set when something is written through a symlink whose target goes up again from
	// something that is not a directory; a real system does not allow that.
	IllFormed bool
}

// ErrModelLoop is returned when resolution exceeds the kernel's symlink limit.
var ErrModelLoop = errors.New("model: too many levels of symbolic links")

// NewTree returns an empty tree.
func NewTree() *Tree {
	r := &Node{Inode: &Inode{Type: tar.TypeDir, Implied: true}, Children: map[string]*Node{}, Name: "."}
	r.Parent = r
	return &Tree{Root: r, IllFormed: false}
}

func (n *Node) mkdirImplied() {
	n.Inode = &Inode{Type: tar.TypeDir, Implied: true}
	n.Children = map[string]*Node{}
}

// resolveDir walks to a directory; with create, missing or non-directory components become implied
// directories ("foo/bar implies that foo is a directory").  Symlinks are followed within the root.
func (t *Tree) resolveDir(from *Node, p string, create bool, depth *int) (*Node, error) {
	cur := from
	if strings.HasPrefix(p, "/") {
		cur = t.Root
	}
	for _, comp := range strings.Split(p, "/") {
		switch comp {
		case "", ".":
			continue
		case "..":
			if create && cur != t.Root && cur.Inode.Implied && len(cur.Children) == 0 {
				t.IllFormed = true // it only exists because of this
			}
			cur = cur.Parent
			continue
		}
		next, ok := cur.Children[comp]
		if !ok {
			if !create {
				return nil, nil
			}
			next = &Node{Parent: cur, Name: comp}
			next.mkdirImplied()
			cur.Children[comp] = next
		}
		if next.Inode.Type == tar.TypeSymlink {
			*depth++
			if *depth > 40 {
				return nil, ErrModelLoop
			}
			tgt, err := t.resolveDir(cur, next.Inode.Linkname, create, depth)
			if err != nil {
				return nil, err
			}
			if tgt == nil {
				return nil, nil
			}
			next = tgt
		}
		if next.Children == nil {
			if !create {
				return nil, nil
			}
			next.mkdirImplied()
		}
		cur = next
	}
	return cur, nil
}

// Lookup resolves a path; follow says whether a final symlink is followed.
func (t *Tree) Lookup(p string, follow bool) (*Node, error) {
	depth := 0
	return t.lookup(t.Root, p, follow, &depth)
}

func (t *Tree) lookup(from *Node, p string, follow bool, depth *int) (*Node, error) {
	if strings.HasPrefix(p, "/") {
		from = t.Root
	}
	p = strings.Trim(p, "/")
	dir, base := path.Split(p)
	switch base {
	case "", ".", "..":
		return t.resolveDir(from, p, false, depth)
	}
	d, err := t.resolveDir(from, dir, false, depth)
	if err != nil || d == nil {
		return nil, err
	}
	n := d.Children[base]
	for follow && n != nil && n.Inode.Type == tar.TypeSymlink {
		*depth++
		if *depth > 40 {
			return nil, ErrModelLoop
		}
		return t.lookup(n.Parent, n.Inode.Linkname, true, depth)
	}
	return n, nil
}

func xattrString(h tar.Header) string {
	var l []string
	for k, v := range h.PAXRecords {
		if strings.HasPrefix(k, "SCHILY.xattr.") {
			l = append(l, k+"="+v)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// ApplyLayer extracts one layer: deletions of the layer first (they speak about lower layers), then
// its files in archive order.
func (t *Tree) ApplyLayer(es []Entry) error {
	for _, e := range es {
		name := path.Clean(e.Hdr.Name)
		dir, base := path.Split(name)
		if !strings.HasPrefix(base, ".wh.") {
			continue
		}
		depth := 0
		d, err := t.resolveDir(t.Root, dir, true, &depth)
		if err != nil {
			return err
		}
		if base == ".wh..wh..opq" {
			d.Children = map[string]*Node{}
		} else {
			delete(d.Children, strings.TrimPrefix(base, ".wh."))
		}
	}
	for _, e := range es {
		name := path.Clean(e.Hdr.Name)
		dir, base := path.Split(name)
		if strings.HasPrefix(base, ".wh.") {
			continue
		}
		depth := 0
		d, err := t.resolveDir(t.Root, dir, true, &depth)
		if err != nil {
			return err
		}
		h := e.Hdr
		ino := &Inode{
			Type: h.Typeflag, Body: e.Body, Mode: h.Mode & 0o7777, UID: h.Uid, GID: h.Gid,
			UName: h.Uname, GName: h.Gname, MTime: h.ModTime, Xattrs: xattrString(h),
		}
		switch h.Typeflag {
		case tar.TypeSymlink:
			ino.Linkname = h.Linkname
		case tar.TypeChar, tar.TypeBlock:
			ino.Dev = [2]int64{h.Devmajor, h.Devminor}
		case tar.TypeLink:
			depth := 0
			tgt, err := t.lookup(t.Root, path.Clean(h.Linkname), false, &depth)
			if err != nil {
				return err
			}
			if tgt == nil || tgt.Children != nil {
				return fmt.Errorf("model: hard link %q to missing file %q", h.Name, h.Linkname)
			}
			if d.Children[base] == tgt {
				return fmt.Errorf("model: hard link %q to itself (%q)", h.Name, h.Linkname)
			}
			ino = tgt.Inode
		}
		if base == "." || base == "" {
			t.Root.Inode = ino
			continue
		}
		n := d.Children[base]
		if n == nil {
			n = &Node{Parent: d, Name: base}
			d.Children[base] = n
		}
		if ino.Type == tar.TypeDir {
			if n.Children == nil {
				n.Children = map[string]*Node{}
			}
		} else {
			n.Children = nil
		}
		n.Inode = ino
	}
	return nil
}

// Flat lists all paths.
func (t *Tree) Flat() map[string]*Node {
	ret := map[string]*Node{}
	var rec func(p string, n *Node)
	rec = func(p string, n *Node) {
		ret[p] = n
		for name, c := range n.Children {
			rec(path.Join(p, name), c)
		}
	}
	rec(".", t.Root)
	return ret
}

// Clone deep-copies, preserving hard-link groups.
func (t *Tree) Clone() *Tree {
	inos := map[*Inode]*Inode{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		i, ok := inos[n.Inode]
		if !ok {
			cp := *n.Inode
			i = &cp
			inos[n.Inode] = i
		}
		m := &Node{Inode: i, Name: n.Name}
		if n.Children != nil {
			m.Children = map[string]*Node{}
			for k, c := range n.Children {
				cc := rec(c)
				cc.Parent = m
				m.Children[k] = cc
			}
		}
		return m
	}
	r := rec(t.Root)
	r.Parent = r
	return &Tree{Root: r, IllFormed: false}
}

// DiffTrees returns a description of the first differences, or "".
func DiffTrees(want, got *Tree) string {
	wf, gf := want.Flat(), got.Flat()
	var out []string
	names := map[string]struct{}{}
	for k := range wf {
		names[k] = struct{}{}
	}
	for k := range gf {
		names[k] = struct{}{}
	}
	sorted := make([]string, 0, len(names))
	for k := range names {
		sorted = append(sorted, k)
	}
	sort.Strings(sorted)
	wgrp, ggrp := map[*Inode]string{}, map[*Inode]string{}
	for _, k := range sorted {
		w, wok := wf[k]
		g, gok := gf[k]
		switch {
		case !wok:
			out = append(out, fmt.Sprintf("%q should not exist (got %s)", k, g.Inode))
			continue
		case !gok:
			out = append(out, fmt.Sprintf("%q is missing (want %s)", k, w.Inode))
			continue
		}
		if w.Children == nil && g.Children == nil {
			// hard-link groups: the first path of the group must agree
			wl, ok := wgrp[w.Inode]
			if !ok {
				wl = k
				wgrp[w.Inode] = k
			}
			gl, ok := ggrp[g.Inode]
			if !ok {
				gl = k
				ggrp[g.Inode] = k
			}
			if wl != gl {
				out = append(out, fmt.Sprintf("%q: hard-link group: want same file as %q, got same file as %q", k, wl, gl))
			}
		}
		if d := diffInodes(w.Inode, g.Inode); d != "" {
			out = append(out, fmt.Sprintf("%q: %s", k, d))
		}
	}
	if len(out) > 6 {
		out = append(out[:6], "...")
	}
	return strings.Join(out, "; ")
}

func (i *Inode) String() string {
	return fmt.Sprintf("{type=%c implied=%v mode=%o uid=%d gid=%d mtime=%d link=%q body=%dB:%.16q}",
		i.Type, i.Implied, i.Mode, i.UID, i.GID, i.MTime.Unix(), i.Linkname, len(i.Body), i.Body)
}

func diffInodes(w, g *Inode) string {
	if w.Type != g.Type {
		return fmt.Sprintf("want %s, got %s", w, g)
	}
	if w.Implied || g.Implied {
		return "" // nobody described this directory's metadata
	}
	switch {
	case !bytes.Equal(w.Body, g.Body):
		return fmt.Sprintf("content: want %.40q, got %.40q", w.Body, g.Body)
	case w.Linkname != g.Linkname:
		return fmt.Sprintf("link target: want %q, got %q", w.Linkname, g.Linkname)
	case w.Mode != g.Mode:
		return fmt.Sprintf("mode: want %o, got %o", w.Mode, g.Mode)
	case w.UID != g.UID || w.GID != g.GID || w.UName != g.UName || w.GName != g.GName:
		return fmt.Sprintf("owner: want %d(%s):%d(%s), got %d(%s):%d(%s)", w.UID, w.UName, w.GID, w.GName, g.UID, g.UName, g.GID, g.GName)
	case !w.MTime.Equal(g.MTime):
		return fmt.Sprintf("mtime: want %v, got %v", w.MTime.UTC(), g.MTime.UTC())
	case w.Dev != g.Dev:
		return fmt.Sprintf("device: want %v, got %v", w.Dev, g.Dev)
	case w.Xattrs != g.Xattrs:
		return fmt.Sprintf("xattrs: want %q, got %q", w.Xattrs, g.Xattrs)
	}
	return ""
}

// rawLayer serves uncompressed bytes as a layer without compressing them up front.
type rawLayer struct{ bs []byte }

// FastLayer wraps uncompressed tar bytes in a minimal (lazy) layer.
func FastLayer(bs []byte) ociv1.Layer { return rawLayer{bs} }

func (l rawLayer) full() (ociv1.Layer, error) { return LayerOf(l.bs) }
func (l rawLayer) Uncompressed() (io.ReadCloser, error) {
	return io.NopCloser(bytes.NewReader(l.bs)), nil
}

func (l rawLayer) Compressed() (io.ReadCloser, error) {
	return io.NopCloser(bytes.NewReader(Gzip(l.bs))), nil
}

func (l rawLayer) Digest() (ociv1.Hash, error) {
	f, err := l.full()
	if err != nil {
		return ociv1.Hash{}, err
	}
	return f.Digest()
}

func (l rawLayer) DiffID() (ociv1.Hash, error) {
	h, _, err := ociv1.SHA256(bytes.NewReader(l.bs))
	return h, err
}

func (l rawLayer) Size() (int64, error) { return int64(len(Gzip(l.bs))), nil }

func (l rawLayer) MediaType() (ociv1types.MediaType, error) {
	return ociv1types.DockerLayer, nil
}
