// C05: a directory layer is a faithful copy of the directory.
package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/datawire/ocibuild/pkg/dir"

	"verif/h"
)

// src is what the file system says about one entry.
type src struct {
	typ      byte
	mode     int64
	uid, gid int
	mtime    time.Time
	link     string
	body     []byte
	ino      uint64
	nlink    int
}

func scan(root string) map[string]src {
	ret := map[string]src{}
	count := map[uint64]int{}
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if p == root {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		st := info.Sys().(*syscall.Stat_t)
		s := src{mode: int64(st.Mode & 0o7777), uid: int(st.Uid), gid: int(st.Gid), mtime: time.Unix(st.Mtim.Unix()), ino: st.Ino}
		switch st.Mode & syscall.S_IFMT {
		case syscall.S_IFREG:
			s.typ = tar.TypeReg
			bs, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s.body = bs
		case syscall.S_IFDIR:
			s.typ = tar.TypeDir
		case syscall.S_IFLNK:
			s.typ = tar.TypeSymlink
			s.link, _ = os.Readlink(p)
		case syscall.S_IFIFO:
			s.typ = tar.TypeFifo
		default:
			return fmt.Errorf("unexpected type of %s", p)
		}
		if s.typ != tar.TypeDir {
			count[s.ino]++
		}
		ret[rel] = s
		return nil
	})
	if err != nil {
		h.Fatalf("scan: %v", err)
	}
	for k, s := range ret {
		s.nlink = count[s.ino]
		ret[k] = s
	}
	return ret
}

var comps = []string{"a", "b", "c.d", "a b", "é", "..x", ".hidden", "-dash", "new\nline", "UPPER", "z", "0", ".wh.gone", "tab\t", "star*", "back\\slash", "%41", "quote'\"", "lost+found", ".git", "CVS", "core", "__pycache__", ".DS_Store", "a~", "#a#", "desktop.ini", ".nfs0001", "x.pyc", "x.go"}

func genDir(t *h.T, root string) {
	must := func(err error) {
		if err != nil {
			h.Fatalf("gen: %v", err)
		}
	}
	must(os.MkdirAll(root, 0o755))
	dirs := []string{""}
	var files []string // may be hard-linked
	var all []string
	used := map[string]bool{}
	n := t.Intn(25)
	if t.P(0.1) {
		n = 0
	}
	if t.P(0.05) {
		n = 120
	}
	for i := 0; i < n; i++ {
		c := comps[t.Intn(len(comps))]
		switch t.Intn(14) {
		case 0:
			c = strings.Repeat("L", 90+t.Intn(160))
		case 1:
			c = "nonutf8\xff\xfe" + strconv.Itoa(i)
		case 2, 3, 4:
			c += strconv.Itoa(i)
		}
		p := path.Join(dirs[t.Intn(len(dirs))], c)
		if used[p] || len(p) > 2000 {
			continue
		}
		used[p] = true
		full := filepath.Join(root, p)
		switch r := t.Intn(100); {
		case r < 30:
			must(os.Mkdir(full, 0o755))
			dirs = append(dirs, p)
		case r < 62:
			var body []byte
			switch t.Intn(6) {
			case 0:
			case 1:
				body = t.Bytes(512 * (1 + t.Intn(3)))
			case 2:
				body = t.Bytes(t.Intn(70000))
			default:
				body = []byte(fmt.Sprintf("content %d %d", i, t.Intn(1000)))
			}
			must(os.WriteFile(full, body, 0o644))
			files = append(files, p)
		case r < 78:
			must(os.Symlink(t.Pick("a", "/etc/passwd", "../..", "dangling", "./b", ".", strings.Repeat("t", 150), "x/../y", "new\nline"), full))
			if t.P(0.3) {
				files = append(files, p)
			}
		case r < 92 && len(files) > 0:
			must(os.Link(filepath.Join(root, files[t.Intn(len(files))]), full))
		case r < 96:
			must(syscall.Mkfifo(full, 0o644))
			if t.P(0.3) {
				files = append(files, p)
			}
		default:
			must(os.WriteFile(full, []byte("x"), 0o644))
			files = append(files, p)
		}
		all = append(all, p)
	}
	// metadata, deepest first so that directory mtimes stay
	sort.Sort(sort.Reverse(sort.StringSlice(all)))
	for _, p := range all {
		full := filepath.Join(root, p)
		uid, gid := []int{0, 1, 1000, 65534, 3000000}[t.Intn(5)], []int{0, 5, 1000, 65534, 2500000}[t.Intn(5)]
		must(os.Lchown(full, uid, gid))
		info, err := os.Lstat(full)
		must(err)
		if info.Mode()&os.ModeSymlink == 0 {
			must(syscall.Chmod(full, []uint32{0o644, 0o755, 0o600, 0o4755, 0o2755, 0o1777, 0o000, 0o7777, 0o640, 0o511}[t.Intn(10)]))
		}
		var ns int64
		if t.P(0.3) {
			ns = int64(t.Intn(1000000000))
		}
		sec := int64(t.Intn(2000000000))
		switch t.Intn(10) {
		case 0:
			sec = 4000000000 + int64(t.Intn(1000))
		case 1:
			sec = int64(t.Intn(3))
		}
		ts := []syscall.Timespec{{Sec: sec, Nsec: ns}, {Sec: sec, Nsec: ns}}
		must(h.Utimensat(full, ts))
	}
}

// enlarge adds to a directory something that is large.
func enlarge(t *h.T, root, kind string) {
	must := func(err error) {
		if err != nil {
			h.Fatalf("enlarge: %v", err)
		}
	}
	write := func(name string, body []byte) {
		p := filepath.Join(root, name)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, body, 0o644))
		must(syscall.Chmod(p, []uint32{0o644, 0o755, 0o4755, 0o600, 0o000}[t.Intn(5)]))
		must(os.Lchown(p, t.Intn(2)*1000, t.Intn(2)*1000))
		sec := int64(t.Intn(2000000000))
		must(h.Utimensat(p, []syscall.Timespec{{Sec: sec}, {Sec: sec}}))
	}
	switch kind {
	case "bodies":
		write("zbig/one", t.Stretch(t.BigSize()))
		write("zbig/two", t.Stretch(t.BigSize()))
		must(os.Link(filepath.Join(root, "zbig/one"), filepath.Join(root, "zbig/uno")))
	case "entries":
		for i := t.BigCount(); i > 0; i-- {
			write(fmt.Sprintf("%s/f%d", t.Pick("zm", "zm", "zn/o"), i), []byte(fmt.Sprint("body ", i)))
		}
	case "links":
		write("zl/f", []byte("the file"))
		for i := t.BigCount() / 4; i > 0; i-- {
			must(os.Link(filepath.Join(root, "zl/f"), filepath.Join(root, fmt.Sprintf("zl/h%d", i))))
			must(os.Symlink("f", filepath.Join(root, fmt.Sprintf("zl/s%d", i))))
		}
	case "depth":
		p := "zd"
		for i := 30 + t.Intn(800); i > 0; i-- {
			p += "/" + t.Pick("a", "b", "c")
			if t.P(0.02) {
				write(p+"/f", []byte("deep"))
			}
		}
		write(p+"/g", []byte("deepest"))
	}
}

func round(tm time.Time) []int64 {
	// whole seconds; either neighbour is a faithful rendering of a fractional time
	s := tm.Unix()
	if tm.Nanosecond() == 0 {
		return []int64{s}
	}
	return []int64{s, s + 1}
}

type conf struct {
	prefix *dir.Prefix
	chown  *dir.Ownership
	clamp  time.Time
	lo     time.Time // if there is no SOURCE_DATE_EPOCH, the clamp is some time from lo to clamp
}

func verify(t *h.T, want map[string]src, bs []byte, c conf, cleanPrefix string) {
	es, err := h.ParseTar(bs)
	if err != nil {
		t.Failf("not a valid archive: %v", err)
	}
	seen := map[string]int{}
	t.Observe("entries", len(es))
	i := 0
	if c.prefix != nil && cleanPrefix != "." {
		parts := strings.Split(cleanPrefix, "/")
		for k := range parts {
			p := strings.Join(parts[:k+1], "/")
			if i >= len(es) || path.Clean(es[i].Hdr.Name) != p || es[i].Hdr.Typeflag != tar.TypeDir {
				t.Failf("entry %d should be the prefix directory %q; got\n%s", i, p, h.EntriesString(es))
			}
			hd := es[i].Hdr
			mode := c.prefix.Mode
			if mode == 0 {
				mode = 0o755
			}
			if hd.Mode&0o7777 != int64(mode) || hd.Uid != c.prefix.UID || hd.Gid != c.prefix.GID || hd.Uname != c.prefix.UName || hd.Gname != c.prefix.GName {
				t.Failf("prefix directory %q: mode %o owner %d(%s):%d(%s), want %o and %+v", p, hd.Mode, hd.Uid, hd.Uname, hd.Gid, hd.Gname, mode, c.prefix.Ownership)
			}
			if hd.ModTime.After(c.clamp) || hd.ModTime.Before(c.lo) {
				t.Failf("prefix directory %q: time %v is past the clamp %v", p, hd.ModTime, c.clamp)
			}
			seen[p] = i
			t.Observe("prefix_dirs", 1)
			i++
		}
	}
	group := map[uint64]string{} // inode -> name of the entry that has the content
	for ; i < len(es); i++ {
		e := es[i]
		name := strings.TrimSuffix(e.Hdr.Name, "/")
		if name != path.Clean(name) || strings.HasPrefix(name, "/") {
			t.Failf("entry name %q is not canonical", e.Hdr.Name)
		}
		if _, dup := seen[name]; dup {
			t.Failf("%q appears twice", name)
		}
		seen[name] = i
		if d := path.Dir(name); d != "." {
			if _, ok := seen[d]; !ok {
				t.Failf("%q comes before its parent", name)
			}
		}
		rel := name
		if c.prefix != nil && cleanPrefix != "." {
			if !strings.HasPrefix(name, cleanPrefix+"/") {
				t.Failf("%q is not under the prefix %q", name, cleanPrefix)
			}
			rel = strings.TrimPrefix(name, cleanPrefix+"/")
		}
		s, ok := want[rel]
		if !ok {
			t.Failf("%q is not in the directory", rel)
		}
		hd := e.Hdr
		typ := s.typ
		if s.nlink > 1 {
			if first, ok := group[s.ino]; ok {
				if hd.Typeflag != tar.TypeLink {
					t.Failf("%q is a hard link of %q but is stored as type %c", rel, first, hd.Typeflag)
				}
				if !sameGroup(want, cleanPrefix, c.prefix != nil, hd.Linkname, s.ino) || seen[hd.Linkname] >= i {
					t.Failf("%q: hard link to %q, want another name of the same file that came before", rel, hd.Linkname)
				}
				t.Observe("hardlinks", 1)
				typ = tar.TypeLink
			} else {
				group[s.ino] = name
			}
		}
		if hd.Typeflag != typ {
			t.Failf("%q: type %c, want %c", rel, hd.Typeflag, typ)
		}
		switch typ {
		case tar.TypeReg:
			if !bytes.Equal(e.Body, s.body) {
				t.Failf("%q: content differs (%d bytes, want %d)", rel, len(e.Body), len(s.body))
			}
			t.Observe("files", 1)
		case tar.TypeSymlink:
			if hd.Linkname != s.link {
				t.Failf("%q: link target %q, want %q", rel, hd.Linkname, s.link)
			}
			t.Observe("symlinks", 1)
		}
		if hd.Mode&0o7777 != s.mode {
			t.Failf("%q: mode %o, want %o", rel, hd.Mode, s.mode)
		}
		uid, gid := s.uid, s.gid
		if c.chown != nil {
			if c.chown.UID >= 0 {
				uid = c.chown.UID
				t.Observe("overridden", 1)
			}
			if c.chown.GID >= 0 {
				gid = c.chown.GID
				t.Observe("overridden", 1)
			}
			if c.chown.UName != "" && hd.Uname != c.chown.UName {
				t.Failf("%q: user name %q, want %q", rel, hd.Uname, c.chown.UName)
			}
			if c.chown.GName != "" && hd.Gname != c.chown.GName {
				t.Failf("%q: group name %q, want %q", rel, hd.Gname, c.chown.GName)
			}
		}
		if hd.Uid != uid || hd.Gid != gid {
			t.Failf("%q: owner %d:%d, want %d:%d", rel, hd.Uid, hd.Gid, uid, gid)
		}
		if hd.ModTime.After(c.clamp) || hd.AccessTime.After(c.clamp) || hd.ChangeTime.After(c.clamp) {
			t.Failf("%q: times %v %v %v past the clamp %v", rel, hd.ModTime, hd.AccessTime, hd.ChangeTime, c.clamp)
		}
		ok = false
		mt := s.mtime
		if !c.lo.IsZero() && mt.After(c.lo) {
			if mt.After(c.clamp) {
				t.Observe("clamped_to_now", 1)
			}
			// any time from lo to the earlier of mt and clamp
			if !hd.ModTime.Before(c.lo) && (mt.After(c.clamp) || hd.ModTime.Before(mt.Add(time.Second))) {
				continue
			}
			t.Failf("%q: mtime %v, which was to be kept or, if later, set to the current time (from %v to %v); in the source it is %v", rel, hd.ModTime, c.lo, c.clamp, mt)
		}
		if mt.After(c.clamp) {
			mt = c.clamp
			t.Observe("clamped", 1)
		} else {
			t.Observe("not_clamped", 1)
		}
		for _, sec := range round(mt) {
			ok = ok || hd.ModTime.Unix() == sec
		}
		if !ok {
			t.Failf("%q: mtime %d, want %v (clamp %d)", rel, hd.ModTime.Unix(), mt, c.clamp.Unix())
		}
	}
	for rel := range want {
		name := rel
		if c.prefix != nil {
			name = path.Join(cleanPrefix, rel)
		}
		if _, ok := seen[name]; !ok {
			t.Failf("%q is missing from the layer", rel)
		}
	}
	t.Observe("layers", 1)
}

func sameGroup(want map[string]src, prefix string, has bool, linkname string, ino uint64) bool {
	rel := linkname
	if has && prefix != "." {
		rel = strings.TrimPrefix(linkname, prefix+"/")
	}
	s, ok := want[rel]
	return ok && s.ino == ino
}

func genConf(t *h.T) (conf, string) {
	c := conf{clamp: time.Unix([]int64{0, 1, 1000000000, 1500000000, 2147483647, 5000000000}[t.Intn(6)], 0)}
	clean := ""
	if t.P(0.6) {
		c.prefix = &dir.Prefix{DirName: t.Pick("usr", "usr/local/bin", "a/b/c/d/e", "a/b/c/d/e/f/g/h/i/j/k/l/m", "opt/x y", "é/ü", strings.Repeat("p", 120)+"/q", "usr/local/", "./usr/lib", "usr//lib", "usr/./lib", "x/../usr/lib", "a", "d", ".")}
		c.prefix.Mode = []int{0, 0o755, 0o700, 0o1777, 0o2775}[t.Intn(5)]
		c.prefix.UID, c.prefix.GID = t.Intn(3)*500, t.Intn(3)*600
		c.prefix.UName, c.prefix.GName = t.Pick("", "root", "u"), t.Pick("", "root", "g")
		clean = path.Clean(c.prefix.DirName)
	}
	if t.P(0.6) {
		c.chown = &dir.Ownership{UID: []int{-1, 0, 123, 3000001}[t.Intn(4)], GID: []int{-1, 0, 456, 2500001}[t.Intn(4)], UName: t.Pick("", "over", "root"), GName: t.Pick("", "grp", "root")}
	}
	return c, clean
}

func describe(c conf, want map[string]src) string {
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	fmt.Fprintf(&b, "clamp=%d prefix=%+v chown=%+v\n", c.clamp.Unix(), c.prefix, c.chown)
	for _, n := range names {
		s := want[n]
		fmt.Fprintf(&b, "%c %q m%o %d:%d t%d.%09d ->%q %dB nlink=%d\n", s.typ, n, s.mode, s.uid, s.gid, s.mtime.Unix(), s.mtime.Nanosecond(), s.link, len(s.body), s.nlink)
	}
	return b.String()
}

func main() {
	h.Main(h.Config{
		ID: "C05",
		Rule: "random directories on a real file system (odd, long and non-UTF-8 names, all modes, owners, sub-second, past-clamp and epoch times, symlinks, FIFOs, hard links of files, symlinks and FIFOs), turned into layers by the real code with random prefix, " +
			"ownership override and clamp (library and CLI); every tar entry is compared with what lstat/readlink/read say. Some directories are large in one way (files of up to 24 MiB, thousands of entries, hundreds of links, 800 levels). Non-trivial: at least two entries.",
		Require:     []string{"layers", "files", "symlinks", "hardlinks", "clamped", "not_clamped", "overridden", "prefix_dirs", "cli_runs", "without_epoch", "clamped_to_now", "large bodies", "large entries", "large links", "large depth"},
		Assumptions: []string{"times are kept to whole seconds", "sockets and extended attributes are out of scope", "the directory does not change while it is read"},
	}, func(c *h.C) {
		c.Group("lib", c.N(4000, 60000), func(t *h.T) {
			root := filepath.Join(t.Scratch(), "src")
			genDir(t, root)
			want := scan(root)
			cf, clean := genConf(t)
			t.Input(len(want) >= 2, describe(cf, want))
			arg := root
			if t.P(0.1) {
				arg += "/"
			}
			if t.P(0.1) {
				arg = filepath.Join(t.Scratch(), "link-to-src")
				_ = os.Symlink("src", arg)
			}
			layer, err := dir.LayerFromDir(arg, cf.prefix, cf.chown, cf.clamp)
			if err != nil {
				t.Failf("LayerFromDir: %v", err)
			}
			bs, err := h.LayerBytes(layer)
			if err != nil {
				t.Failf("%v", err)
			}
			verify(t, want, bs, cf, clean)
			if d := describe(cf, scan(root)); d != describe(cf, want) {
				t.Failf("the source directory was modified:\n%s\nwas\n%s", d, describe(cf, want))
			}
		})
		c.Group("scale", c.N(60, 1200), func(t *h.T) {
			root := filepath.Join(t.Scratch(), "src")
			genDir(t, root)
			kind := t.Pick("bodies", "bodies", "entries", "links", "depth")
			enlarge(t, root, kind)
			want := scan(root)
			cf, clean := genConf(t)
			t.Input(true, describe(cf, want))
			var bs []byte
			if t.P(0.5) && cf.prefix == nil && cf.chown == nil {
				r := t.CLI(h.Cmd{Args: []string{"layer", "dir", root}, Env: []string{"SOURCE_DATE_EPOCH=" + strconv.FormatInt(cf.clamp.Unix(), 10)}})
				if r.Code != 0 {
					t.Failf("exit %d: %s", r.Code, r.Err)
				}
				bs = r.Out
			} else {
				layer, err := dir.LayerFromDir(root, cf.prefix, cf.chown, cf.clamp)
				if err != nil {
					t.Failf("LayerFromDir: %v", err)
				}
				if bs, err = h.LayerBytes(layer); err != nil {
					t.Failf("%v", err)
				}
			}
			verify(t, want, bs, cf, clean)
			t.Observe("large "+kind, 1)
		})
		c.Group("cli", c.N(500, 6000), func(t *h.T) {
			root := filepath.Join(t.Scratch(), "src")
			genDir(t, root)
			want := scan(root)
			cf, clean := genConf(t)
			args := []string{"layer", "dir"}
			if cf.prefix != nil {
				cf.prefix.Mode = 0o755 // no flag for it
				args = append(args, "--prefix="+cf.prefix.DirName)
				args = flag(t, args, "--prefix-uid", &cf.prefix.UID, 0)
				args = flag(t, args, "--prefix-gid", &cf.prefix.GID, 0)
				args = flagS(t, args, "--prefix-uname", &cf.prefix.UName, "root")
				args = flagS(t, args, "--prefix-gname", &cf.prefix.GName, "root")
			}
			if cf.chown != nil {
				args = flag(t, args, "--chown-uid", &cf.chown.UID, -1)
				args = flag(t, args, "--chown-gid", &cf.chown.GID, -1)
				args = flagS(t, args, "--chown-uname", &cf.chown.UName, "")
				args = flagS(t, args, "--chown-gname", &cf.chown.GName, "")
			}
			dirArg := root
			if t.P(0.3) {
				dirArg = "src"
			}
			args = append(args, dirArg)
			t.Input(len(want) >= 2, strings.Join(args, " ")+"\n"+describe(cf, want))
			sde := "SOURCE_DATE_EPOCH=" + strconv.FormatInt(cf.clamp.Unix(), 10)
			invalid := false
			if t.P(0.25) {
				// whole seconds, and the archive may round
				cf.lo = time.Now().Truncate(time.Second)
				sde = t.Pick("SOURCE_DATE_EPOCH", "SOURCE_DATE_EPOCH=", "SOURCE_DATE_EPOCH=yesterday", "SOURCE_DATE_EPOCH=12h")
				invalid = strings.Contains(sde, "=") && !strings.HasSuffix(sde, "=")
			}
			r := t.CLI(h.Cmd{Args: args, Env: []string{sde}})
			if r.Code != 0 && invalid {
				t.Observe("bad_epoch_refused", 1)
				return
			}
			if r.Code != 0 {
				t.Failf("exit %d: %s", r.Code, r.Err)
			}
			if !cf.lo.IsZero() {
				cf.clamp = time.Now().Truncate(time.Second).Add(time.Second)
				t.Observe("without_epoch", 1)
				t.State("epoch", sde)
			}
			verify(t, want, r.Out, cf, clean)
		})
		for _, bad := range []string{"/", "/usr", "//usr/lib", "..", "../x", "x/../..", "/."} {
			bad := bad
			c.Directed("bad-prefix "+strings.ReplaceAll(bad, "/", "|"), func(t *h.T) {
				root := filepath.Join(t.Scratch(), "src")
				if err := os.MkdirAll(root, 0o755); err != nil {
					h.Fatalf("%v", err)
				}
				_ = os.WriteFile(root+"/f", []byte("x"), 0o644)
				t.Inputf(true, "prefix %q", bad)
				layer, err := dir.LayerFromDir(root, &dir.Prefix{DirName: bad}, nil, time.Unix(100, 0))
				if err != nil {
					t.Observe("bad_prefix_refused", 1)
					return
				}
				bs, err := h.LayerBytes(layer)
				if err != nil {
					t.Failf("%v", err)
				}
				es, err := h.ParseTar(bs)
				if err != nil {
					t.Failf("%v", err)
				}
				for _, e := range es {
					cl := path.Clean(e.Hdr.Name)
					if cl == ".." || strings.HasPrefix(cl, "../") {
						t.Failf("prefix %q: entry %q outside of the root", bad, e.Hdr.Name)
					}
				}
			})
		}
		for _, kind := range []string{"missing", "file", "dangling"} {
			kind := kind
			c.Directed("not-a-directory "+kind, func(t *h.T) {
				p := filepath.Join(t.Scratch(), "x")
				switch kind {
				case "file":
					_ = os.WriteFile(p, []byte("x"), 0o644)
				case "dangling":
					_ = os.Symlink("nowhere", p)
				}
				t.Inputf(true, "a %s path instead of a directory", kind)
				if _, err := dir.LayerFromDir(p, nil, nil, time.Unix(100, 0)); err == nil {
					t.Failf("a %s path gives a layer and no error", kind)
				}
			})
		}
	})
}

func flag(t *h.T, args []string, name string, v *int, def int) []string {
	if *v == def && t.P(0.5) {
		return args
	}
	return append(args, fmt.Sprintf("%s=%d", name, *v))
}

func flagS(t *h.T, args []string, name string, v *string, def string) []string {
	if *v == def && t.P(0.5) {
		return args
	}
	return append(args, fmt.Sprintf("%s=%s", name, *v))
}
