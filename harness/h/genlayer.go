package h

import (
	"archive/tar"
	"fmt"
	"path"
	"strings"
	"time"
)

// StackOpts steers the layer-stack generator.
type StackOpts struct {
	MaxLayers  int
	MaxEntries int
	HardLinks  bool
	Loops      bool // allow symlinks that can form loops
	Xattrs     bool
	// MarkerBodies lets explicit whiteouts have contents.
	MarkerBodies bool
	BigBodies    bool
}

// GenStack generates a stack of well-formed layers with many collisions between them.
type GenStack struct {
	t     *T
	o     StackOpts
	comps []string
	used  []string // paths mentioned so far
	dirs  []string
	n     int
}

// NewGenStack returns a generator.
func NewGenStack(t *T, o StackOpts) *GenStack {
	g := &GenStack{t: t, o: o}
	pool := []string{"a", "b", "c", "d", "d-e", "d.f", "A", ".h", "z", "a b", "é", "wh", "..x", "...", ".wh", "0", "d+", "B", "_", "Zz"}
	// a small alphabet per case, so that names collide
	k := 2 + t.Intn(4)
	perm := t.Perm(len(pool))
	for i := 0; i < k; i++ {
		g.comps = append(g.comps, pool[perm[i]])
	}
	if t.P(0.06) {
		g.comps = append(g.comps, strings.Repeat("n", 60+t.Intn(60)))
	}
	return g
}

// Path returns a path in the namespace of the case.
func (g *GenStack) Path() string {
	t := g.t
	if len(g.used) > 0 && t.P(0.55) {
		p := g.used[t.Intn(len(g.used))]
		switch t.Intn(6) {
		case 0:
			p = path.Join(p, g.comps[t.Intn(len(g.comps))])
		case 1:
			if d := path.Dir(p); d != "." {
				p = d
			}
		case 2:
			p = path.Join(path.Dir(p), g.comps[t.Intn(len(g.comps))])
		}
		if p != "." && strings.Count(p, "/") < 5 {
			return p
		}
	}
	n := 1 + t.Intn(3)
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, g.comps[t.Intn(len(g.comps))])
	}
	return strings.Join(parts, "/")
}

// Meta fills random metadata.
func (g *GenStack) Meta(h *tar.Header) {
	t := g.t
	h.Mode = int64([]int{0o644, 0o755, 0o600, 0o4755, 0o2775, 0o1777, 0o000, 0o777}[t.Intn(8)])
	h.Uid = []int{0, 1000, 65534, 1, 3000000}[t.Intn(5)]
	h.Gid = []int{0, 1000, 65534, 2, 2500000}[t.Intn(5)]
	h.Uname = t.Pick("", "root", "user", "nobody")
	h.Gname = t.Pick("", "root", "wheel")
	h.ModTime = time.Unix(int64(t.Intn(2000000000)), 0)
	if t.P(0.15) {
		h.ModTime = h.ModTime.Add(time.Duration(t.Intn(1000000000)))
		h.Format = tar.FormatPAX
	}
	if g.o.Xattrs && t.P(0.1) {
		h.Format = tar.FormatPAX
		h.PAXRecords = map[string]string{"SCHILY.xattr.user.k": fmt.Sprintf("v%d", t.Intn(100))}
	}
}

// Mess varies the spelling of a name without changing its meaning.
func (g *GenStack) Mess(p string) string {
	t := g.t
	switch t.Intn(10) {
	case 0:
		return "./" + p
	case 1:
		if i := strings.LastIndex(p, "/"); i > 0 {
			return p[:i] + "/." + p[i:]
		}
	case 2:
		if i := strings.Index(p, "/"); i > 0 {
			return p[:i] + "/" + p[i:]
		}
	case 3:
		return "zz/../" + p
	}
	return p
}

func (g *GenStack) body() []byte {
	t := g.t
	g.n++
	s := fmt.Sprintf("#%d:", g.n)
	switch {
	case t.P(0.15):
		return nil
	case g.o.BigBodies && t.P(0.05):
		return append([]byte(s), t.Bytes(511+t.Intn(3000))...)
	}
	return []byte(s + strings.Repeat("x", t.Intn(20)))
}

// Layer generates one layer.
func (g *GenStack) Layer() []Entry {
	t := g.t
	var es []Entry
	n := 1 + t.Intn(g.o.MaxEntries)
	var files []int // indices of possible hard-link targets in this layer
	for len(es) < n {
		p := g.Path()
		var e Entry
		h := &e.Hdr
		g.Meta(h)
		h.Name = g.Mess(p)
		base := path.Base(p)
		switch r := t.Intn(100); {
		case r < 26:
			h.Typeflag = tar.TypeReg
			e.Body = g.body()
			h.Size = int64(len(e.Body))
		case r < 46:
			h.Typeflag = tar.TypeDir
			if t.P(0.7) {
				h.Name += "/"
			}
			if t.P(0.04) {
				h.Name = t.Pick(".", "./")
				p = "."
			}
		case r < 60:
			h.Typeflag = tar.TypeSymlink
			h.Linkname = g.linkTarget(p)
		case r < 76: // explicit whiteout
			h.Typeflag = tar.TypeReg
			h.Mode, h.Uid, h.Gid = 0o644, 0, 0
			h.Name = g.Mess(path.Join(path.Dir(p), ".wh."+base))
			if g.o.MarkerBodies && t.P(0.3) {
				e.Body = []byte("not empty")
				h.Size = int64(len(e.Body))
			}
		case r < 84: // opaque
			h.Typeflag = tar.TypeReg
			dir := p
			if t.P(0.2) {
				dir = path.Dir(p)
			}
			h.Name = g.Mess(path.Join(dir, ".wh..wh..opq"))
		case r < 92 && g.o.HardLinks && len(files) > 0:
			tgt := es[files[t.Intn(len(files))]].Hdr
			*h = tgt
			h.PAXRecords = tgt.PAXRecords
			h.Typeflag = tar.TypeLink
			h.Name = g.Mess(p)
			h.Linkname = path.Clean(tgt.Name)
			h.Size = 0
			h.Devmajor, h.Devminor = 0, 0
			clean := h.Linkname
			switch t.Intn(8) {
			case 0:
				h.Linkname = "/" + h.Linkname
			case 1, 2:
				h.Linkname = g.Mess(h.Linkname)
			}
			if p == path.Clean(tgt.Name) || strings.HasPrefix(p+"/", clean+"/") {
				continue
			}
		case r < 94:
			h.Typeflag = tar.TypeFifo
		case r < 95:
			h.Typeflag = []byte{tar.TypeChar, tar.TypeBlock}[t.Intn(2)]
			h.Devmajor, h.Devminor = int64(t.Intn(200)), int64(t.Intn(200))
		default:
			h.Typeflag = tar.TypeReg
			e.Body = []byte(fmt.Sprintf("r%d", g.n))
			g.n++
			h.Size = int64(len(e.Body))
		}
		if h.Typeflag == tar.TypeReg && !strings.HasPrefix(path.Base(path.Clean(h.Name)), ".wh.") {
			files = append(files, len(es))
		}
		g.used = append(g.used, p)
		es = append(es, e)
	}
	return es
}

func (g *GenStack) linkTarget(p string) string {
	t := g.t
	tgt := g.Path()
	if !g.o.Loops {
		// Targets that are (prefixes of) the link itself make loops.
		for i := 0; i < 5 && (strings.HasPrefix(p+"/", tgt+"/") || strings.HasPrefix(tgt+"/", p+"/")); i++ {
			tgt = g.Path()
		}
	}
	switch t.Intn(5) {
	case 0:
		return "/" + tgt
	case 4:
		// up again after a component that may be a symlink itself
		parts := strings.Split(tgt, "/")
		i := 1 + t.Intn(len(parts))
		parts = append(parts[:i:i], append([]string{".."}, parts[i:]...)...)
		if t.P(0.5) {
			parts = append(parts, g.comps[t.Intn(len(g.comps))])
		}
		return t.Pick("", "/", "./") + strings.Join(parts, "/")
	case 1:
		up := strings.Count(p, "/")
		return strings.Repeat("../", up+t.Intn(2)) + tgt
	case 2:
		return g.comps[t.Intn(len(g.comps))]
	}
	return tgt
}

// Stack generates the layers.
func (g *GenStack) Stack() [][]Entry {
	for {
		n := 1 + g.t.Intn(g.o.MaxLayers)
		var ret [][]Entry
		tree := NewTree()
		for i := 0; i < n; i++ {
			ret = append(ret, g.Layer())
			_ = tree.ApplyLayer(ret[i])
		}
		if !tree.IllFormed {
			return ret
		}
	}
}

// Base generates a base tree over the same names; its symlinks have names no layer writes through.
func (g *GenStack) Base() *Tree {
	t := g.t
	tree := NewTree()
	var es []Entry
	n := t.Intn(14)
	for i := 0; i < n; i++ {
		p := g.Path()
		var e Entry
		g.Meta(&e.Hdr)
		e.Hdr.Name = p
		switch r := t.Intn(10); {
		case r < 5:
			e.Hdr.Typeflag = tar.TypeReg
			e.Body = []byte(fmt.Sprintf("base%d", i))
		case r < 9:
			e.Hdr.Typeflag = tar.TypeDir
		default:
			e.Hdr.Typeflag = tar.TypeSymlink
			e.Hdr.Name = path.Join(path.Dir(p), fmt.Sprintf("L%d", i))
			e.Hdr.Linkname = g.Path()
		}
		es = append(es, e)
	}
	// directories below every used directory-like path, so that deletions have something to delete
	for i := 0; i < 6 && len(g.used) > 0; i++ {
		p := g.used[t.Intn(len(g.used))]
		var e Entry
		g.Meta(&e.Hdr)
		e.Hdr.Name = path.Join(p, fmt.Sprintf("below%d", i))
		e.Hdr.Typeflag = tar.TypeReg
		e.Body = []byte(fmt.Sprintf("below%d", i))
		es = append(es, e)
	}
	if err := tree.ApplyLayer(es); err != nil {
		Fatalf("base: %v", err)
	}
	return tree
}

// StackString renders a stack for replay files.
func StackString(ls [][]Entry) string {
	var b strings.Builder
	for i, l := range ls {
		fmt.Fprintf(&b, "layer %d:\n%s", i, EntriesString(l))
	}
	return b.String()
}

// GenChain makes a stack of deep directories and of symlinks that lead to each other, up to 36 of
// them, from any depth and by relative and absolute targets, with entries written through them.
func GenChain(t *T) [][]Entry {
	depth := 1 + t.Intn(25)
	var dirs []string
	var es []Entry
	d := ""
	for i := 0; i < depth; i++ {
		d = path.Join(d, t.Pick("a", "b", "deeper", "x")+fmt.Sprint(i))
		dirs = append(dirs, d)
		if t.P(0.8) {
			es = append(es, Entry{Hdr: tar.Header{Typeflag: tar.TypeDir, Name: d + "/", Mode: 0o755}})
		}
	}
	n := 1 + t.Intn(36)
	if t.P(0.3) {
		n = 30 + t.Intn(7)
	}
	last := dirs[t.Intn(len(dirs))]
	file := t.P(0.3) // the chain leads to a file
	if file {
		last = path.Join(last, "end")
		es = append(es, Entry{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: last, Mode: 0o644}, Body: []byte("end")})
	}
	var links []Entry
	for i := 0; i < n; i++ {
		at := dirs[t.Intn(len(dirs))]
		if t.P(0.2) {
			at = ""
		}
		name := path.Join(at, fmt.Sprintf("l%02d", i))
		target := "/" + last
		if t.P(0.5) {
			target = strings.Repeat("../", strings.Count(name, "/")) + last
		}
		links = append(links, Entry{Hdr: tar.Header{Typeflag: tar.TypeSymlink, Name: name, Linkname: target, Mode: 0o777}})
		last = name
	}
	if t.P(0.5) {
		t.Shuffle(len(links), func(i, j int) { links[i], links[j] = links[j], links[i] })
	}
	stack := [][]Entry{append(es, links...)}
	if file {
		return dated(stack)
	}
	var more []Entry
	for i, k := 0, 1+t.Intn(4); i < k; i++ {
		l := links[t.Intn(len(links))].Hdr.Name
		if t.P(0.5) {
			l = last
		}
		switch t.Intn(4) {
		case 0:
			more = append(more, Entry{Hdr: tar.Header{Typeflag: tar.TypeDir, Name: l + "/sub/", Mode: 0o711}})
		case 1:
			more = append(more, Entry{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: l + "/.wh.f", Mode: 0o644}})
		default:
			more = append(more, Entry{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: l + "/f", Mode: 0o640}, Body: []byte(fmt.Sprint("f", i))})
		}
	}
	return dated(append(stack, more))
}

func dated(stack [][]Entry) [][]Entry {
	for _, es := range stack {
		for i := range es {
			es[i].Hdr.ModTime = time.Unix(int64(1000+i), 0)
		}
	}
	return stack
}

// Formats varies how the entries of a stack are encoded: long names (that fit the header of the old
// format when split, or not), old and new formats, records that are not needed, further times.
func Formats(t *T, stack [][]Entry) [][]Entry {
	long := map[string]string{}
	for _, c := range []string{"a", "b", "c", "d", "A", "z", "0"} {
		if t.P(0.5) {
			long[c] = c + strings.Repeat(t.Pick("n", "n", "n", "\u00e9"), []int{40, 90, 97, 98, 99, 100, 120, 150, 154, 155}[t.Intn(10)])
		}
	}
	rename := func(p string) string {
		parts := strings.Split(p, "/")
		for i, c := range parts {
			base := strings.TrimPrefix(c, ".wh.")
			if l, ok := long[base]; ok {
				parts[i] = strings.TrimSuffix(c, base) + l
			}
		}
		return strings.Join(parts, "/")
	}
	ret := make([][]Entry, len(stack))
	for i, es := range stack {
		for _, e := range es {
			e.Hdr.Name = rename(e.Hdr.Name)
			if e.Hdr.Typeflag == tar.TypeSymlink || e.Hdr.Typeflag == tar.TypeLink {
				e.Hdr.Linkname = rename(e.Hdr.Linkname)
			}
			orig := e.Hdr
			rec := map[string]string{}
			for k, v := range e.Hdr.PAXRecords {
				rec[k] = v
			}
			switch t.Intn(6) {
			case 0:
				e.Hdr.Format = tar.FormatGNU
				e.Hdr.PAXRecords = nil
				e.Hdr.ModTime = e.Hdr.ModTime.Truncate(time.Second)
			case 1:
				e.Hdr.Format = tar.FormatPAX
				rec["path"] = e.Hdr.Name
				e.Hdr.PAXRecords = rec
			case 2:
				e.Hdr.Format = tar.FormatPAX
				rec["mtime"] = fmt.Sprint(e.Hdr.ModTime.Unix())
				rec["uid"] = fmt.Sprint(e.Hdr.Uid)
				e.Hdr.PAXRecords = rec
			case 3:
				e.Hdr.Format = tar.FormatPAX
				e.Hdr.AccessTime = time.Unix(int64(t.Intn(1000000)), 0)
				if t.P(0.5) {
					e.Hdr.ChangeTime = time.Unix(int64(t.Intn(1000000)), int64(t.Intn(1000)))
				}
			}
			if _, err := TarBytes([]Entry{e}); err != nil {
				e.Hdr = orig
			}
			ret[i] = append(ret[i], e)
		}
	}
	return ret
}
