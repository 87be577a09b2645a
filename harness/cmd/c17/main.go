// C17: two layers count as equal exactly when only timestamps differ.
package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1types "github.com/google/go-containerregistry/pkg/v1/types"

	"github.com/datawire/ocibuild/pkg/fsutil"

	"verif/h"
)

// faulty is a layer whose stream breaks after n bytes.
type faulty struct {
	bs     []byte
	n      int // -1: cannot be opened
	chunk  int
	opened *int
	closed *int
	noend  bool // fails instead of ending
	noshut bool // fails when closed
}

var errIO = errors.New("injected I/O error")

type faultyReader struct {
	f   faulty
	off int
}

func (r *faultyReader) Read(p []byte) (int, error) {
	if r.f.chunk > 0 && len(p) > r.f.chunk {
		p = p[:r.f.chunk]
	}
	if r.f.n < len(r.f.bs) && r.off >= r.f.n {
		return 0, errIO
	}
	end := len(r.f.bs)
	if r.f.n < end {
		end = r.f.n
	}
	if r.off >= end {
		if end < len(r.f.bs) || r.f.noend {
			return 0, errIO
		}
		return 0, io.EOF
	}
	n := copy(p, r.f.bs[r.off:end])
	r.off += n
	return n, nil
}

func (r *faultyReader) Close() error {
	if r.f.closed != nil {
		*r.f.closed++
	}
	if r.f.noshut {
		return errIO
	}
	return nil
}

func (f faulty) Uncompressed() (io.ReadCloser, error) {
	if f.n < 0 {
		return nil, errIO
	}
	if f.opened != nil {
		*f.opened++
	}
	return &faultyReader{f: f}, nil
}
func (f faulty) Compressed() (io.ReadCloser, error)       { return nil, errIO }
func (f faulty) Digest() (ociv1.Hash, error)              { return ociv1.Hash{}, errIO }
func (f faulty) DiffID() (ociv1.Hash, error)              { return ociv1.Hash{}, errIO }
func (f faulty) Size() (int64, error)                     { return 0, errIO }
func (f faulty) MediaType() (ociv1types.MediaType, error) { return ociv1types.DockerLayer, nil }

func meta(hd tar.Header) tar.Header {
	hd.ModTime, hd.AccessTime, hd.ChangeTime = time.Time{}, time.Time{}, time.Time{}
	hd.Format = 0
	rec := map[string]string{}
	for k, v := range hd.PAXRecords {
		switch k {
		case "path", "linkpath", "size", "uid", "gid", "uname", "gname", "mtime", "atime", "ctime":
		default:
			rec[k] = v
		}
	}
	hd.PAXRecords = rec
	if len(hd.Xattrs) == 0 {
		hd.Xattrs = nil
	}
	return hd
}

// model says whether the entries are equal apart from times.
func model(a, b []h.Entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !reflect.DeepEqual(meta(a[i].Hdr), meta(b[i].Hdr)) || !bytes.Equal(a[i].Body, b[i].Body) {
			return false
		}
	}
	return true
}

func mustTar(es []h.Entry) []byte {
	bs, err := h.TarBytes(es)
	if err != nil {
		h.Fatalf("%v\n%s", err, h.EntriesString(es))
	}
	return bs
}

func clone(es []h.Entry) []h.Entry {
	r := append([]h.Entry{}, es...)
	for i := range r {
		r[i].Body = append([]byte{}, r[i].Body...)
		if r[i].Hdr.PAXRecords != nil {
			m := map[string]string{}
			for k, v := range r[i].Hdr.PAXRecords {
				m[k] = v
			}
			r[i].Hdr.PAXRecords = m
		}
	}
	return r
}

var sizes = []int{0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 1535, 1536, 2047, 2048, 2049, 3072, 4096, 4097, 10000, 33000, 70000}

func genLayer(t *h.T) []h.Entry {
	g := h.NewGenStack(t, h.StackOpts{MaxEntries: 8, HardLinks: true, Xattrs: true, BigBodies: true})
	es := g.Layer()
	if t.P(0.5) {
		var e h.Entry
		e.Hdr.Typeflag, e.Hdr.Name = '0', "sized"
		g.Meta(&e.Hdr)
		e.Body = t.Bytes(sizes[t.Intn(len(sizes))])
		i := t.Intn(len(es) + 1)
		es = append(es[:i], append([]h.Entry{e}, es[i:]...)...)
	}
	if t.P(0.1) {
		var e h.Entry
		e.Hdr = tar.Header{Typeflag: t.Pick("3", "4", "6")[0], Name: "dev", Devmajor: 1, Devminor: 3, ModTime: time.Unix(5, 0)}
		es = append(es, e)
	}
	if t.P(0.05) {
		es = nil
	}
	return es
}

// retime changes only times (and the formats needed for them).
func retime(t *h.T, es []h.Entry) []h.Entry {
	r := clone(es)
	for i := range r {
		hd := &r[i].Hdr
		if t.P(0.3) {
			continue
		}
		hd.ModTime = time.Unix(int64(t.Intn(2000000000)), 0)
		switch t.Intn(4) {
		case 0:
			hd.ModTime = hd.ModTime.Add(time.Duration(1 + t.Intn(999999999)))
			hd.Format = tar.FormatPAX
		case 1:
			hd.Format = tar.FormatPAX
			hd.AccessTime = time.Unix(int64(t.Intn(2000000000)), int64(t.Intn(2)*123456789))
			hd.ChangeTime = time.Unix(int64(t.Intn(2000000000)), 0)
		case 2:
			if len(hd.PAXRecords) == 0 {
				hd.Format = tar.FormatGNU
				hd.AccessTime = time.Unix(int64(t.Intn(2000000000)), 0)
			}
		case 3:
			if len(hd.PAXRecords) == 0 {
				hd.Format = 0
				hd.AccessTime, hd.ChangeTime = time.Time{}, time.Time{}
			}
		}
	}
	return r
}

// mutate makes one difference besides time; ok is false if it does not apply.
func mutate(t *h.T, es []h.Entry, kind int) (r []h.Entry, what string, ok bool) {
	r = clone(es)
	if len(r) == 0 {
		return append(r, h.Entry{Hdr: tar.Header{Typeflag: '5', Name: "new/"}}), "added to empty", true
	}
	i := t.Intn(len(r))
	e := &r[i]
	hd := &e.Hdr
	switch kind {
	case 0:
		if len(e.Body) == 0 {
			return nil, "", false
		}
		j := []int{0, len(e.Body) - 1, t.Intn(len(e.Body)), 1023, 1024, 511, 512, len(e.Body) - len(e.Body)%1024}[t.Intn(8)]
		if j < 0 || j >= len(e.Body) {
			return nil, "", false
		}
		e.Body[j] ^= 1 << uint(t.Intn(8))
		return r, "content bit", true
	case 1:
		if hd.Typeflag != '0' {
			return nil, "", false
		}
		e.Body = append(e.Body, t.Pick("\x00", "x")[0])
		return r, "longer", true
	case 2:
		if len(e.Body) == 0 {
			return nil, "", false
		}
		e.Body = e.Body[:len(e.Body)-1]
		return r, "shorter", true
	case 3:
		hd.Mode ^= []int64{0o1, 0o111, 0o4000, 0o2000, 0o1000, 0o200}[t.Intn(6)]
		return r, "mode", true
	case 4:
		hd.Uid++
		return r, "uid", true
	case 5:
		hd.Gid++
		return r, "gid", true
	case 6:
		hd.Uname += "x"
		return r, "uname", true
	case 7:
		hd.Gname += "x"
		return r, "gname", true
	case 8:
		if strings.HasSuffix(hd.Name, "/") {
			hd.Name = strings.TrimSuffix(hd.Name, "/") + "x/"
		} else {
			hd.Name += "x"
		}
		return r, "name", true
	case 9:
		if hd.Typeflag != '1' && hd.Typeflag != '2' {
			return nil, "", false
		}
		hd.Linkname += "x"
		return r, "linkname", true
	case 10:
		switch hd.Typeflag {
		case '1':
			hd.Typeflag = '2'
		case '2':
			hd.Typeflag = '1'
		case '3':
			hd.Typeflag = '4'
		case '4':
			hd.Typeflag = '3'
		case '0':
			if len(e.Body) > 0 {
				return nil, "", false
			}
			hd.Typeflag = '6'
		default:
			return nil, "", false
		}
		return r, "type", true
	case 11:
		if hd.Typeflag != '3' && hd.Typeflag != '4' {
			return nil, "", false
		}
		if t.P(0.5) {
			hd.Devmajor++
		} else {
			hd.Devminor++
		}
		return r, "device", true
	case 12:
		if hd.Format == tar.FormatGNU {
			return nil, "", false
		}
		hd.Format = tar.FormatPAX
		if hd.PAXRecords == nil {
			hd.PAXRecords = map[string]string{}
		}
		hd.PAXRecords[t.Pick("SCHILY.xattr.user.new", "VENDOR.key", "SCHILY.xattr.security.capability", "comment", "charset", "LIBARCHIVE.xattr.user.a", "realtime.x", "GNU.dumpdir", "SCHILY.dev")] = t.Pick("v\x00w", "v", "1")
		return r, "xattr added", true
	case 13:
		for k, v := range hd.PAXRecords {
			hd.PAXRecords[k] = v + "x"
			return r, "xattr changed", true
		}
		return nil, "", false
	case 14:
		r = append(r[:i], r[i+1:]...)
		return r, "entry removed", true
	case 15:
		r = append(r[:i], append([]h.Entry{{Hdr: tar.Header{Typeflag: '5', Name: "added/", Mode: 0o755}}}, r[i:]...)...)
		return r, "entry added", true
	case 16:
		r = append(r, r[i])
		return r, "entry repeated at the end", true
	case 17:
		j := t.Intn(len(r))
		if reflect.DeepEqual(r[i], r[j]) {
			return nil, "", false
		}
		r[i], r[j] = r[j], r[i]
		return r, "entries swapped", true
	case 18:
		r = r[:len(r)-1]
		return r, "last entry removed", true
	}
	return nil, "", false
}

const kinds = 19

func bothWays(t *h.T, what string, a, b ociv1.Layer, want bool) {
	for i, p := range [][2]ociv1.Layer{{a, b}, {b, a}} {
		got, err := fsutil.LayersEqualExceptTimestamps(p[0], p[1])
		t.Observe("comparisons", 1)
		if err != nil {
			t.Errorf("%s (order %d): %v", what, i, err)
		} else if got != want {
			t.Errorf("%s (order %d): answered %v", what, i, got)
		}
	}
}

func layerKind(t *h.T, bs []byte) ociv1.Layer {
	switch t.Intn(4) {
	case 0:
		l, err := h.LayerOf(bs)
		if err != nil {
			h.Fatalf("%v", err)
		}
		return l
	case 1:
		return faulty{bs: bs, n: len(bs), chunk: []int{1, 7, 100, 511, 1000, 4096}[t.Intn(6)]}
	case 2:
		l, err := h.LayerOf(h.Gzip(bs))
		if err != nil {
			h.Fatalf("%v", err)
		}
		return l
	}
	return h.FastLayer(bs)
}

// the stand-in go: records how it was called, and "builds" $FAKE_SRC
const fakeGo = `#!/bin/sh
{ printf '%s\n' "$@"; echo "GOOS=$GOOS GOARCH=$GOARCH"; } >>"$FAKE_LOG"
out=; prev=
for a in "$@"; do
	case "$prev" in -o) out=$a;; esac
	case "$a" in -o=*) out=${a#-o=};; --o=*) out=${a#--o=};; esac
	prev=$a
done
[ -n "$out" ] || { echo "no -o" >&2; exit 9; }
if [ "$FAKE_EXIT" != "" ]; then exit "$FAKE_EXIT"; fi
for f in "$FAKE_SRC"/*; do
	[ -e "$f" ] || continue
	n=${f##*/}
	cat "$f" >"$out/$n" && chmod +x "$out/$n" || exit 8
	[ "$FAKE_MTIME" = "" ] || touch -d "@$FAKE_MTIME" "$out/$n"
done
exit 0
`

type builder struct {
	t    *h.T
	bin  string
	src  string
	log  string
	n    int
	uid  uint32
	root string
}

func newBuilder(t *h.T) *builder {
	b := &builder{t: t, root: t.Scratch()}
	if t.P(0.3) {
		b.uid = 12345
		b.root = t.OpenScratch(12345)
	}
	b.bin = filepath.Join(b.root, "bin")
	b.src = filepath.Join(b.root, "src")
	b.log = filepath.Join(b.root, "log")
	t.WriteFile(filepath.Join(b.bin, "go"), []byte(fakeGo), 0o755)
	if err := os.MkdirAll(b.src, 0o755); err != nil {
		h.Fatalf("%v", err)
	}
	return b
}

func (b *builder) set(bins map[string][]byte) {
	_ = os.RemoveAll(b.src)
	_ = os.MkdirAll(b.src, 0o755)
	for n, c := range bins {
		b.t.WriteFile(filepath.Join(b.src, n), c, 0o644)
	}
}

func (b *builder) run(args []string, env ...string) h.Result {
	_ = os.WriteFile(b.log, nil, 0o666)
	_ = os.Chmod(b.log, 0o666)
	tmp := filepath.Join(b.root, fmt.Sprintf("tmp%d", b.n))
	b.n++
	if err := os.Mkdir(tmp, 0o777); err != nil {
		h.Fatalf("%v", err)
	}
	_ = os.Chmod(tmp, 0o777)
	e := append([]string{"PATH=" + b.bin + ":/usr/bin:/bin", "FAKE_LOG=" + b.log, "FAKE_SRC=" + b.src}, env...)
	return b.t.CLI(h.Cmd{Args: append([]string{"layer", "gobuild"}, args...), Env: e, Dir: b.root, Tmp: tmp, UID: b.uid,
		Umask: []int{0, 0o022, 0o077, 0o027, 0o002}[b.t.Intn(5)]})
}

// wantLayer judges a gobuild layer.
func wantLayer(t *h.T, bs []byte, bins map[string][]byte, clamp int64) {
	es, err := h.ParseTar(bs)
	if err != nil {
		t.Failf("the output is not a layer: %v", err)
	}
	var names []string
	for n := range bins {
		names = append(names, n)
	}
	sort.Strings(names)
	seen := map[string]int{}
	for _, e := range es {
		n := strings.TrimSuffix(e.Hdr.Name, "/")
		seen[n]++
		if e.Hdr.Uid != 0 || e.Hdr.Gid != 0 || (e.Hdr.Uname != "root" && e.Hdr.Uname != "") || (e.Hdr.Gname != "root" && e.Hdr.Gname != "") {
			t.Errorf("%s is owned by %d:%d (%s:%s)", n, e.Hdr.Uid, e.Hdr.Gid, e.Hdr.Uname, e.Hdr.Gname)
		}
		if clamp > 0 && e.Hdr.ModTime.Unix() > clamp {
			t.Errorf("%s is dated %v, later than %v", n, e.Hdr.ModTime.Unix(), clamp)
		}
		switch n {
		case "usr", "usr/local", "usr/local/bin":
			if e.Hdr.Typeflag != '5' {
				t.Errorf("%s is not a directory", n)
			}
			continue
		}
		want, ok := bins[strings.TrimPrefix(n, "usr/local/bin/")]
		if !ok || !strings.HasPrefix(n, "usr/local/bin/") {
			t.Errorf("unexpected entry %q", e.Hdr.Name)
			continue
		}
		if e.Hdr.Typeflag != '0' || e.Hdr.Mode&0o7777 != 0o755 {
			t.Errorf("%s has type %c mode %o", n, e.Hdr.Typeflag, e.Hdr.Mode)
		}
		if !bytes.Equal(e.Body, want) {
			t.Errorf("%s has other contents than the build produced", n)
		}
	}
	for _, n := range names {
		if seen["usr/local/bin/"+n] != 1 {
			t.Errorf("usr/local/bin/%s is in the layer %d times", n, seen["usr/local/bin/"+n])
		}
	}
	for _, n := range []string{"usr", "usr/local", "usr/local/bin"} {
		if seen[n] != 1 {
			t.Errorf("%s is in the layer %d times", n, seen[n])
		}
	}
	t.Observe("gobuild_layers", 1)
}

// junkAfter counts the bytes other than padding after the end of an archive.
func junkAfter(bs []byte) int {
	r := bytes.NewReader(bs)
	tr := tar.NewReader(r)
	for {
		if _, err := tr.Next(); err != nil {
			break
		}
	}
	n := 0
	for {
		b, err := r.ReadByte()
		if err != nil {
			return n
		}
		if b != 0 {
			n++
		}
	}
}

func genBins(t *h.T) map[string][]byte {
	m := map[string][]byte{}
	for i := 0; i < 1+t.Intn(3); i++ {
		m[t.Pick("a", "b", "tool", "tool-x", "Tool", "x.y", "z_1")] = t.Bytes(1 + sizes[t.Intn(len(sizes))])
	}
	return m
}

func main() {
	h.Main(h.Config{
		ID: "C17",
		Rule: "pairs of layers made by re-dating entries, by making exactly one difference of every kind, by cutting or breaking the stream at every kind of place; the --output protocol under histories of rebuilds with a stand-in go and with the real one. " +
			"non-trivial if both layers have entries",
		Require:     []string{"equal_pairs", "unequal_pairs", "faults", "faults after the archive", "output_kept", "output_replaced", "output_created", "output_shrunk", "gobuild_layers", "real_go", "large_pairs"},
		Assumptions: []string{"archive/tar's reader defines the entries of an archive", "the encoding (USTAR, PAX, GNU) is not metadata"},
	}, func(c *h.C) {
		c.Group("pairs", c.N(12000, 400000), func(t *h.T) {
			es := genLayer(t)
			a := mustTar(es)
			pa, err := h.ParseTar(a)
			if err != nil {
				h.Fatalf("%v", err)
			}
			b := mustTar(retime(t, es))
			pb, err := h.ParseTar(b)
			if err != nil {
				h.Fatalf("%v", err)
			}
			if !model(pa, pb) {
				h.Fatalf("the generator changed more than times:\n%s\n%s", h.EntriesString(pa), h.EntriesString(pb))
			}
			t.Inputf(len(es) > 0, "%s", h.EntriesString(es))
			bothWays(t, "only times differ", layerKind(t, a), layerKind(t, b), true)
			bothWays(t, "the same layer", layerKind(t, a), layerKind(t, a), true)
			if t.P(0.3) {
				bothWays(t, "only the padding differs", layerKind(t, append(append([]byte{}, a...), make([]byte, 512*(1+t.Intn(30)))...)), layerKind(t, b), true)
			}
			t.Observe("equal_pairs", 1)
			kind := t.Intn(kinds)
			m, what, ok := mutate(t, es, kind)
			if !ok {
				return
			}
			if t.P(0.5) {
				m = retime(t, m)
			}
			mb, err := h.TarBytes(m)
			if err != nil {
				return // not representable
			}
			pm, err := h.ParseTar(mb)
			if err != nil {
				return
			}
			if model(pa, pm) {
				return // swapped equals, etc.
			}
			t.State("difference", what)
			t.Observe("unequal_pairs", 1)
			bothWays(t, "different: "+what, layerKind(t, a), layerKind(t, mb), false)
		})
		c.Group("scale", c.N(90, 1500), func(t *h.T) {
			// layers that are large in one way, which differ in one place, most often late
			kind := h.ScaleKinds[t.Intn(len(h.ScaleKinds))]
			if t.P(0.5) {
				kind = "bodies"
			}
			es := h.GenScale(t, kind)[0]
			a := mustTar(es)
			t.Input(true, fmt.Sprintf("large %s\n%.2000s", kind, h.EntriesString(es)))
			b := mustTar(retime(t, es))
			bothWays(t, "only times differ", layerKind(t, a), layerKind(t, b), true)
			m := clone(es)
			var with []int
			for i, e := range m {
				if e.Hdr.Typeflag == '0' && len(e.Body) > 0 {
					with = append(with, i)
				}
			}
			if len(with) == 0 {
				return
			}
			i := with[t.Intn(len(with))]
			for _, j := range with { // the large one, or the last
				if t.P(0.5) && len(m[j].Body) >= len(m[i].Body) {
					i = j
				}
			}
			e := &m[i]
			e.Body = append([]byte(nil), e.Body...)
			what := t.Pick("last byte", "last byte", "some byte", "longer", "shorter", "mode")
			switch what {
			case "last byte":
				e.Body[len(e.Body)-1] ^= 1
			case "some byte":
				e.Body[t.Intn(len(e.Body))] ^= 1 << t.Intn(8)
			case "longer":
				e.Body = append(e.Body, 0)
				e.Hdr.Size++
			case "shorter":
				e.Body = e.Body[:len(e.Body)-1]
				e.Hdr.Size--
			case "mode":
				e.Hdr.Mode ^= 0o100
			}
			mb := mustTar(m)
			bothWays(t, fmt.Sprintf("%s of entry %d of %d (%d bytes) differs", what, i, len(m), len(e.Body)), layerKind(t, a), layerKind(t, mb), false)
			t.State("large difference", kind+" "+what)
			t.Observe("large_pairs", 1)
		})
		c.Group("faults", c.N(8000, 200000), func(t *h.T) {
			es := genLayer(t)
			if t.P(0.5) && len(es) > 3 {
				es = es[:3]
			}
			a := mustTar(es)
			t.Inputf(len(es) > 0, "%s", h.EntriesString(es))
			good := layerKind(t, mustTar(retime(t, es)))
			n := t.Intn(len(a) + 1)
			if t.P(0.3) {
				n = n / 512 * 512
			}
			bad := []struct {
				l    ociv1.Layer
				what string
				must bool
			}{
				{faulty{bs: a, n: -1}, "a layer that cannot be opened", true},
				{faulty{bs: a, n: n, chunk: 1 + t.Intn(2000)}, fmt.Sprintf("a read error at byte %d of %d", n, len(a)), n < len(a)},
			}
			// archives are padded at their end, and tar readers do not look at that
			pad := append(append([]byte{}, a...), make([]byte, []int{0, 1, 512, 9216, 100000}[t.Intn(5)])...)
			more := []faulty{{bs: pad, n: len(pad), noend: true}, {bs: pad, n: len(pad), noshut: true}}
			if len(pad) > len(a) {
				more = append(more, faulty{bs: pad, n: len(a) + t.Intn(len(pad)-len(a)), chunk: 1 + t.Intn(2000)})
			}
			for _, f := range more {
				bad = append(bad, struct {
					l    ociv1.Layer
					what string
					must bool
				}{f, fmt.Sprintf("a stream that fails after the archive (%d bytes, then %d of %d more, close fails: %v)", len(a), f.n-len(a), len(pad)-len(a), f.noshut), true})
				t.Observe("faults after the archive", 1)
			}
			if _, err := h.ParseTar(a[:n]); err != nil {
				bad = append(bad, struct {
					l    ociv1.Layer
					what string
					must bool
				}{h.FastLayer(a[:n]), fmt.Sprintf("a layer cut at byte %d of %d", n, len(a)), true})
			}
			if len(es) > 0 {
				// a header whose checksum is wrong
				x := append([]byte{}, a...)
				x[150] ^= 1
				if _, err := h.ParseTar(x); err != nil {
					bad = append(bad, struct {
						l    ociv1.Layer
						what string
						must bool
					}{h.FastLayer(x), "a damaged header", true})
				}
			}
			for _, b := range bad {
				if !b.must {
					continue
				}
				t.Observe("faults", 1)
				for i, p := range [][2]ociv1.Layer{{good, b.l}, {b.l, good}, {b.l, b.l}} {
					eq, err := fsutil.LayersEqualExceptTimestamps(p[0], p[1])
					if eq {
						t.Errorf("%s (order %d): answered equal (error %v)", b.what, i, err)
					}
					if err == nil {
						t.Errorf("%s (order %d): no error", b.what, i)
					}
				}
			}
			var op, cl int
			f := faulty{bs: a, n: len(a), opened: &op, closed: &cl}
			_, _ = fsutil.LayersEqualExceptTimestamps(f, good)
			if op != cl {
				t.Errorf("%d readers opened, %d closed", op, cl)
			}
		})
		c.Group("output", c.N(160, 3000), func(t *h.T) {
			b := newBuilder(t)
			out := filepath.Join(b.root, "out.layer")
			bins := genBins(t)
			b.set(bins)
			var hist []string
			var cur []byte // what the file holds
			if t.P(0.7) {
				hist = append(hist, "stale temp file beside")
				t.WriteFile(filepath.Join(b.root, "out.layer.tmp"), []byte("x"), 0o644)
			}
			steps := 3 + t.Intn(4)
			for s := 0; s < steps && !t.Failed(); s++ {
				// what happens to the file or the sources before the run
				op := "nothing"
				expectKept := false
				old := cur
				switch k := t.Intn(6); {
				case cur == nil:
					op = "no file"
				case k == 0:
					// rebuild, nothing changed
					expectKept = true
				case k == 1:
					op = "other binaries"
					nb := genBins(t)
					if reflect.DeepEqual(nb, bins) {
						expectKept = true
					}
					bins = nb
					b.set(bins)
				case k == 2:
					op = "one byte of a binary"
					nb := map[string][]byte{}
					for n, v := range bins {
						nb[n] = append([]byte{}, v...)
					}
					for n := range nb {
						nb[n][t.Intn(len(nb[n]))] ^= 0x40
						break
					}
					bins = nb
					b.set(bins)
				case k == 3:
					op = "file re-dated"
					es, _ := h.ParseTar(cur)
					old = mustTar(retime(t, es))
					expectKept = true
				case k == 4:
					op = "file compressed"
					old = h.Gzip(cur)
					expectKept = true
				case k == 5:
					es, _ := h.ParseTar(cur)
					m, what, ok := mutate(t, es, t.Intn(kinds))
					if !ok {
						expectKept = true
						break
					}
					mb, err := h.TarBytes(m)
					if err != nil {
						expectKept = true
						break
					}
					pm, err := h.ParseTar(mb)
					if err != nil {
						expectKept = true
						break
					}
					if model(es, pm) {
						expectKept = true
					}
					op = "file altered: " + what
					old = mb
				}
				var before syscall.Stat_t
				if cur != nil {
					if !bytes.Equal(old, cur) {
						_ = os.Remove(out)
						t.WriteFile(out, old, 0o644)
						if b.uid != 0 {
							_ = os.Chown(out, int(b.uid), int(b.uid))
						}
					}
					tm := time.Unix(1000000000+int64(s), 5)
					if err := os.Chtimes(out, tm, tm); err != nil {
						h.Fatalf("%v", err)
					}
					if err := syscall.Stat(out, &before); err != nil {
						h.Fatalf("%v", err)
					}
				}
				epoch := int64(100000000 + t.Intn(1500000000))
				env := []string{fmt.Sprintf("FAKE_MTIME=%d", t.Intn(2000000000))}
				if t.P(0.7) {
					env = append(env, fmt.Sprintf("SOURCE_DATE_EPOCH=%d", epoch))
				} else {
					epoch = time.Now().Unix() + 100000
				}
				hist = append(hist, op)
				t.Inputf(true, "%q uid=%d bins=%d", hist, b.uid, len(bins))
				args := [][]string{{"--output", out, "./x"}, {"-o", out, "./x"}, {"--output=" + out, "./x", "./y"}, {"./x", "-o" + out}}[t.Intn(4)]
				r := b.run(args, env...)
				if r.Code != 0 {
					t.Failf("after %s: exit %d: %s", op, r.Code, r.Err)
				}
				if len(r.Out) != 0 {
					t.Errorf("after %s: %d bytes on stdout besides --output", op, len(r.Out))
				}
				got, err := os.ReadFile(out)
				if err != nil {
					t.Failf("after %s: %v", op, err)
				}
				if expectKept {
					var after syscall.Stat_t
					_ = syscall.Stat(out, &after)
					if !bytes.Equal(got, old) {
						t.Failf("after %s: the file was rewritten although only timestamps changed", op)
					}
					if after.Ino != before.Ino || after.Mtim != before.Mtim || after.Ctim != before.Ctim || after.Mode != before.Mode {
						t.Failf("after %s: the file was touched although only timestamps changed (inode %d/%d mtime %v/%v)", op, before.Ino, after.Ino, before.Mtim, after.Mtim)
					}
					t.Observe("output_kept", 1)
					cur = got
					if op == "file compressed" {
						// go back to the plain form for the next step
						es, _ := h.ParseTar(old)
						_ = es
						cur = gunzip(old)
						_ = os.WriteFile(out, cur, 0o644)
					}
					continue
				}
				if cur == nil {
					t.Observe("output_created", 1)
				} else {
					t.Observe("output_replaced", 1)
					t.State("replaced", op)
				}
				wantLayer(t, got, bins, epoch)
				// it is the very layer that would have gone to stdout
				r2 := b.run([]string{"./x"}, env...)
				if r2.Code != 0 {
					t.Failf("to stdout: exit %d: %s", r2.Code, r2.Err)
				}
				wantLayer(t, r2.Out, bins, epoch)
				pa, _ := h.ParseTar(got)
				pb, _ := h.ParseTar(r2.Out)
				if !model(pa, pb) {
					t.Errorf("after %s: the file is not the new layer", op)
				}
				if n := junkAfter(got); n > 0 {
					t.Errorf("after %s: %d bytes that are not part of the layer follow it (%d bytes, to stdout %d)", op, n, len(got), len(r2.Out))
				}
				t.Observe("output_tails_checked", 1)
				if len(old) > len(got) {
					t.Observe("output_shrunk", 1)
				}
				cur = got
			}
		})
		c.Group("output-unreadable", c.N(40, 600), func(t *h.T) {
			b := newBuilder(t)
			out := filepath.Join(b.root, "out.layer")
			bins := genBins(t)
			b.set(bins)
			r := b.run([]string{"./x"}, "SOURCE_DATE_EPOCH=1000000000")
			if r.Code != 0 {
				t.Failf("exit %d: %s", r.Code, r.Err)
			}
			n := t.Intn(len(r.Out))
			cut := r.Out[:n]
			if _, err := h.ParseTar(cut); err == nil {
				cut = r.Out[:512*3+100] // within the headers
			}
			if t.P(0.4) {
				z := h.Gzip(r.Out)
				cut = z[:len(z)-1-t.Intn(len(z)/2)]
			}
			t.WriteFile(out, cut, 0o666)
			t.Inputf(true, "existing output cut to %d bytes", len(cut))
			r = b.run([]string{"-o", out, "./x"}, "SOURCE_DATE_EPOCH=1000000000")
			t.Observe("unreadable_outputs", 1)
			if r.Code == 0 {
				// if it succeeded then the file must hold the new layer
				got, err := os.ReadFile(out)
				if err != nil {
					t.Failf("%v", err)
				}
				wantLayer(t, got, bins, 1000000000)
				if n := junkAfter(got); n > 0 {
					t.Errorf("%d bytes that are not part of the layer follow it", n)
				}
			} else if len(r.Err) == 0 {
				t.Errorf("exit %d without a diagnostic", r.Code)
			}
		})
		for i, mods := range []map[string]string{
			{"cmd/one/main.go": "package main\nfunc main() { println(\"one\") }\n"},
			{"cmd/one/main.go": "package main\nfunc main() { println(\"one\") }\n", "cmd/two/main.go": "package main\nfunc main() { println(\"two\") }\n"},
		} {
			i, mods := i, mods
			c.Directed(fmt.Sprintf("real-go-%d", i), func(t *h.T) {
				dir := filepath.Join(t.Scratch(), "mod")
				t.WriteFile(filepath.Join(dir, "go.mod"), []byte("module example.com/m\n\ngo 1.17\n"), 0o644)
				want := map[string]bool{}
				pkgs := []string{}
				for n, body := range mods {
					t.WriteFile(filepath.Join(dir, n), []byte(body), 0o644)
					want[strings.Split(n, "/")[1]] = true
					pkgs = append(pkgs, "./"+filepath.Dir(n))
				}
				t.Inputf(true, "real go build of %v", pkgs)
				env := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME"), "GOOS=windows", "GOARCH=arm64"}
				for _, k := range []string{"GOPATH", "GOCACHE", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOROOT", "GOMODCACHE", "GO111MODULE"} {
					if v, ok := os.LookupEnv(k); ok {
						env = append(env, k+"="+v)
					}
				}
				out := filepath.Join(t.Scratch(), "out.tar")
				run := func(umask int, extra ...string) h.Result {
					r := t.CLI(h.Cmd{Args: append([]string{"layer", "gobuild", "-o", out}, pkgs...), Env: append(append([]string{}, env...), extra...), Dir: dir, Umask: umask})
					if r.Code != 0 {
						t.Failf("exit %d: %s", r.Code, r.Err)
					}
					if len(r.Left) > 0 {
						t.Errorf("left %v in the temporary directory", r.Left)
					}
					return r
				}
				run(0o022)
				bs, _ := os.ReadFile(out)
				es, err := h.ParseTar(bs)
				if err != nil {
					t.Failf("%v", err)
				}
				bins := map[string][]byte{}
				for _, e := range es {
					if e.Hdr.Typeflag == '0' {
						bins[strings.TrimPrefix(e.Hdr.Name, "usr/local/bin/")] = e.Body
						if !bytes.HasPrefix(e.Body, []byte("\x7fELF\x02\x01")) || e.Body[18] != 0x3e {
							t.Errorf("%s is not a linux/amd64 program", e.Hdr.Name)
						}
					}
				}
				for n := range want {
					if bins[n] == nil {
						t.Errorf("no binary %s", n)
					}
				}
				if len(bins) != len(want) {
					t.Errorf("%d binaries, want %d", len(bins), len(want))
				}
				wantLayer(t, bs, bins, 0)
				tm := time.Unix(1000000000, 7)
				_ = os.Chtimes(out, tm, tm)
				var before, after syscall.Stat_t
				_ = syscall.Stat(out, &before)
				run(0o077, "SOURCE_DATE_EPOCH=1234567890")
				_ = syscall.Stat(out, &after)
				if before.Ino != after.Ino || before.Mtim != after.Mtim {
					t.Errorf("rebuilding the same sources touched the output")
				}
				t.WriteFile(filepath.Join(dir, "cmd/one/main.go"), []byte("package main\nfunc main() { println(\"six\") }\n"), 0o644)
				run(0o022, "SOURCE_DATE_EPOCH=1234567890")
				bs2, _ := os.ReadFile(out)
				es2, _ := h.ParseTar(bs2)
				if model(es, es2) {
					t.Errorf("rebuilding changed sources left the output alone")
				}
				for _, e := range es2 {
					if e.Hdr.Typeflag == '0' {
						bins[strings.TrimPrefix(e.Hdr.Name, "usr/local/bin/")] = e.Body
					}
				}
				wantLayer(t, bs2, bins, 1234567890)
				t.Observe("real_go", 1)
			})
		}
	})
}

func gunzip(bs []byte) []byte {
	zr, err := gzip.NewReader(bytes.NewReader(bs))
	if err != nil {
		h.Fatalf("%v", err)
	}
	out, err := io.ReadAll(zr)
	if err != nil {
		h.Fatalf("%v", err)
	}
	return out
}
