// C22: concurrent use gives the same results as sequential use.
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/google/go-containerregistry/pkg/name"
	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/pkg/dockerutil"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/gobuild"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep345"
	"github.com/datawire/ocibuild/pkg/python/pep376"
	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pyinspect"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
	"github.com/datawire/ocibuild/pkg/reproducible"
	"github.com/datawire/ocibuild/pkg/squash"

	"verif/h"
)

func must(err error) {
	if err != nil {
		h.Fatalf("%v", err)
	}
}

// -------------------------------------------------------------------------------------------------
// deep snapshots, including what lies between a slice's length and its capacity

func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			dump(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil[]")
			return
		}
		fmt.Fprintf(b, "[%d", v.Len())
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			b.WriteString(" ")
			dump(b, full.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dump(&e, k, depth+1)
			e.WriteString("=")
			dump(&e, v.MapIndex(k), depth+1)
			ks = append(ks, e.String())
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "map%q", ks)
	case reflect.Func:
		fmt.Fprintf(b, "func(nil=%v)", v.IsNil())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	default:
		b.WriteString(v.Kind().String())
	}
}

func deep(v interface{}) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), 0)
	return b.String()
}

// -------------------------------------------------------------------------------------------------
// the material, and what is shared between the operations

type material struct {
	layers  [][]byte // one of them may be unreadable
	image   string
	dirs    []string
	wheels  []string
	plats   []python.Platform
	cmdline []string // longer than what is used of it
	vers    []string
	specs   []string
	specs3  []string
	tags    []string
	names   []string
	files   []string // layers as files
	url     string
	now     time.Time
	pyFiles map[string]string
	useGo   bool
	docker  *h.Docker
	owner   dir.Ownership
	prefix  dir.Prefix
}

// slow is a layer that gives way to others while it is read.
type slow struct{ ociv1.Layer }

type slowReader struct{ io.ReadCloser }

func (r slowReader) Read(p []byte) (int, error) {
	runtime.Gosched()
	if len(p) > 700 {
		p = p[:700]
	}
	return r.ReadCloser.Read(p)
}

func (l slow) Uncompressed() (io.ReadCloser, error) {
	r, err := l.Layer.Uncompressed()
	if err != nil {
		return nil, err
	}
	return slowReader{r}, nil
}

// world is one instance of everything that is shared.
type world struct {
	m       *material
	layers  []ociv1.Layer
	stacks  [][]ociv1.Layer
	img     ociv1.Image
	imgFS   *pyinspect.ImageFS
	loaded  [2]fs.FS
	loadErr [2]error
	plats   []python.Platform
	cmdline []string
	comps   []python.Compiler
	hooks   []bdist.PostInstallHook
	url     direct_url.DirectURL
	vers    []pep440.Version
	specs   []pep440.Specifier
	specs3  []pep345.VersionSpecifier
	tags    pep425.Installer
	client  simple_repo_api.Client
	prefix  dir.Prefix
	owner   dir.Ownership
	excl    pep440.ExclusionBehavior
}

func build(m *material) *world {
	w := &world{m: m, prefix: m.prefix, owner: m.owner}
	w.layers = make([]ociv1.Layer, 0, len(m.layers)+8)
	for i, bs := range m.layers {
		var l ociv1.Layer
		var err error
		switch i % 3 {
		case 0:
			l, err = h.LayerOf(bs)
			must(err)
		case 1:
			l, err = fsutil.OpenLayer(m.files[i])
			must(err)
		default:
			l = slow{h.FastLayer(bs)}
		}
		w.layers = append(w.layers, l)
	}
	for i := range w.layers {
		w.stacks = append(w.stacks, w.layers[:i+1], w.layers[i:])
	}
	img, err := fsutil.OpenImage(m.image)
	must(err)
	w.img = img
	w.imgFS = &pyinspect.ImageFS{Image: img}
	for i := range w.loaded {
		w.loaded[i], w.loadErr[i] = squash.Load(w.layers, i == 1)
	}
	w.cmdline = append([]string(nil), m.cmdline...)
	for _, n := range []int{1, 66} { // 65 arguments: a copy of them has room for more
		c, err := python.ExternalCompiler(w.cmdline[:n]...)
		must(err)
		w.comps = append(w.comps, c)
	}
	fake := h.FakeCompiler(nil)
	w.comps = append(w.comps, func(ctx context.Context, clamp time.Time, pp []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
		runtime.Gosched()
		return fake(ctx, clamp, pp, in)
	})
	for i, p := range m.plats {
		p.Tags = append(make(pep425.Installer, 0, len(p.Tags)+5), p.Tags...)
		p.MagicNumber = append(make([]byte, 0, 16), p.MagicNumber...)
		if p.VersionInfo != nil {
			vi := *p.VersionInfo
			p.VersionInfo = &vi
		}
		p.PyCompile = w.comps[2]
		if i%4 == 3 {
			p.PyCompile = w.comps[0]
		}
		w.plats = append(w.plats, p)
	}
	w.url = direct_url.DirectURL{URL: "https://example.com/x.whl", ArchiveInfo: &direct_url.ArchiveInfo{Hash: "sha256=00"}}
	yield := func(context.Context, time.Time, map[string]fsutil.FileReference, string) error {
		runtime.Gosched()
		return nil
	}
	for _, p := range w.plats {
		hooks := make([]bdist.PostInstallHook, 0, 8)
		hooks = append(hooks, entry_points.CreateScripts(p), yield, recording_installs.Record("sha256", "verif", &w.url))
		w.hooks = append(w.hooks, bdist.PostInstallHooks(hooks...))
	}
	w.hooks = append(w.hooks, bdist.PostInstallHooks(pep376.RecordRequested(""), yield, recording_installs.Record("sha512", "other", nil)), nil,
		recording_installs.Record("", "", nil))
	w.vers = make([]pep440.Version, 0, len(m.vers)+4)
	for _, s := range m.vers {
		v, err := pep440.ParseVersion(s)
		if err != nil {
			continue
		}
		// spare room, as a caller's slices may have
		v.Release = append(make([]int, 0, len(v.Release)+4), v.Release...)
		if v.Local != nil {
			v.Local = append(v.Local[:0:0], v.Local...)
		}
		w.vers = append(w.vers, *v)
	}
	for _, s := range m.specs {
		sp, err := pep440.ParseSpecifier(s)
		if err != nil {
			continue
		}
		for i := range sp {
			sp[i].Version.Release = append(make([]int, 0, len(sp[i].Version.Release)+4), sp[i].Version.Release...)
		}
		w.specs = append(w.specs, sp)
	}
	for _, s := range m.specs3 {
		if sp, err := pep345.ParseVersionSpecifier(s); err == nil {
			w.specs3 = append(w.specs3, sp)
		}
	}
	w.tags = make(pep425.Installer, 0, len(m.tags)+4)
	for _, s := range m.tags {
		tg, err := pep425.ParseTag(s)
		must(err)
		w.tags = append(w.tags, tg)
	}
	py := pep440.Version{PublicVersion: pep440.PublicVersion{Release: append(make([]int, 0, 8), 3, 9)}}
	w.client = simple_repo_api.NewClient(&py, w.tags)
	w.client.BaseURL = m.url
	w.excl = pep440.ExcludePreReleases{AllowList: w.vers[:len(w.vers)/2]}
	return w
}

// args describes everything that the operations are given and must not change.
func (w *world) args() map[string]string {
	ret := map[string]string{
		"platforms": deep(w.plats), "command line": deep(w.cmdline), "direct URL": deep(w.url), "versions": deep(w.vers), "specifiers": deep(w.specs) + deep(w.specs3),
		"tags": deep(w.tags), "client": deep(w.client.Python) + deep(w.client.SupportedTags), "prefix": deep(w.prefix), "ownership": deep(w.owner), "exclusions": deep(w.excl),
	}
	for i, l := range w.layers {
		ret[fmt.Sprintf("layer %d", i)] = layerSum(l)
	}
	for i, s := range w.stacks {
		d := ""
		for _, l := range s[:cap(s)] {
			d += fmt.Sprintf("%p ", l)
			if x, ok := l.(slow); ok {
				d += fmt.Sprintf("%p ", x.Layer)
			}
		}
		ret[fmt.Sprintf("layers %d", i)] = d
	}
	var algos []string
	for k := range python.HashlibAlgorithmsGuaranteed {
		algos = append(algos, k)
	}
	sort.Strings(algos)
	ret["hash algorithms"] = strings.Join(algos, " ")
	return ret
}

func layerSum(l ociv1.Layer) string {
	bs, err := h.LayerBytes(l)
	if err != nil {
		return "error: " + clean(err.Error())
	}
	return fmt.Sprintf("%d bytes %x", len(bs), sha256.Sum256(bs))
}

var tmpName = regexp.MustCompile(`ocibuild-[a-z]+\.\d+`)

func clean(s string) string { return tmpName.ReplaceAllString(s, "ocibuild-TMP") }

func outcome(l ociv1.Layer, err error) string {
	if err != nil {
		return "error: " + clean(err.Error())
	}
	d, err := l.Digest()
	if err != nil {
		return "error: " + clean(err.Error())
	}
	return layerSum(l) + " " + d.String()
}

// -------------------------------------------------------------------------------------------------
// operations

type op struct {
	kind string
	run  func(w *world) string
}

func walk(fsys fs.FS, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	hh := sha256.New()
	n := 0
	err = fs.WalkDir(fsys, ".", func(p string, de fs.DirEntry, err error) error {
		n++
		if err != nil {
			fmt.Fprintf(hh, "%s err %v\n", p, err)
			return nil
		}
		fi, err := de.Info()
		if err != nil {
			fmt.Fprintf(hh, "%s info %v\n", p, err)
			return nil
		}
		fmt.Fprintf(hh, "%s %v %d %v\n", p, fi.Mode(), fi.Size(), fi.ModTime().Unix())
		if fi.Mode().IsRegular() {
			bs, err := fs.ReadFile(fsys, p)
			fmt.Fprintf(hh, "%x %v\n", sha256.Sum256(bs), err)
		}
		return nil
	})
	return fmt.Sprintf("%d files %x %v", n, hh.Sum(nil), err)
}

func (m *material) genOp(t *h.T) op {
	nl := len(m.layers)
	switch t.Intn(20) {
	case 0, 1:
		i := t.Intn(2 * nl)
		return op{"squash", func(w *world) string { return outcome(squash.Squash(w.stacks[i])) }}
	case 2:
		i, omit := t.Intn(2*nl), t.P(0.5)
		return op{"load", func(w *world) string { return walk(squash.Load(w.stacks[i], omit)) }}
	case 3:
		i := t.Intn(2)
		return op{"walk", func(w *world) string { return walk(w.loaded[i], w.loadErr[i]) }}
	case 4:
		i := t.Intn(len(m.dirs))
		pre, own := t.P(0.5), t.P(0.5)
		return op{"dir", func(w *world) string {
			var p *dir.Prefix
			var o *dir.Ownership
			if pre {
				p = &w.prefix
			}
			if own {
				o = &w.owner
			}
			return outcome(dir.LayerFromDir(m.dirs[i], p, o, m.now))
		}}
	case 5, 6, 7:
		i, p := t.Intn(len(m.wheels)), t.Intn(len(m.plats))
		k := p
		if t.P(0.2) {
			k = len(m.plats) + 2
		} else if t.P(0.3) {
			k = t.Intn(len(m.plats) + 2)
		}
		var min, max time.Time
		if t.P(0.4) {
			max = m.now
		}
		canceled := t.P(0.1)
		return op{"wheel", func(w *world) string {
			ctx, cancel := context.WithCancel(h.QuietCtx())
			defer cancel()
			if canceled {
				cancel()
			}
			return outcome(bdist.InstallWheel(ctx, w.plats[p], min, max, m.wheels[i], w.hooks[k]))
		}}
	case 8:
		i, n := t.Intn(2), t.Intn(3)
		return op{"compile", func(w *world) string {
			var in []fsutil.FileReference
			for _, fn := range h.SortedStrings(m.pyFiles) {
				if strings.HasPrefix(fn, fmt.Sprintf("p%d/", n)) {
					e := h.Entry{Body: []byte(m.pyFiles[fn])}
					e.Hdr.Typeflag, e.Hdr.Name, e.Hdr.Mode, e.Hdr.ModTime, e.Hdr.Size = '0', fn, 0o644, m.now, int64(len(e.Body))
					in = append(in, &fsutil.InMemFileReference{FileInfo: e.Hdr.FileInfo(), MFullName: fn, MContent: e.Body})
				}
			}
			out, err := w.comps[i](h.QuietCtx(), m.now, []string{"p0"}, in)
			if err != nil {
				return "error: " + clean(err.Error())
			}
			var res []string
			for _, f := range out {
				r, err := f.Open()
				if err != nil {
					return "error: " + err.Error()
				}
				bs, err := io.ReadAll(r)
				_ = r.Close()
				res = append(res, fmt.Sprintf("%s %v %d %x %v", f.FullName(), f.Mode(), f.ModTime().Unix(), sha256.Sum256(bs), err))
			}
			sort.Strings(res)
			return strings.Join(res, "\n")
		}}
	case 9, 10:
		i, j := t.Intn(nl), t.Intn(nl)
		return op{"equal", func(w *world) string {
			eq, err := fsutil.LayersEqualExceptTimestamps(w.layers[i], w.layers[j])
			return fmt.Sprint(eq, err)
		}}
	case 11:
		seed := t.Int63()
		return op{"versions", func(w *world) string {
			hh := fnv.New64a()
			k := seed
			next := func(n int) int { k = k*6364136223846793005 + 1442695040888963407; return int(uint64(k)>>33) % n }
			for n := 0; n < 300; n++ {
				s := m.vers[next(len(m.vers))]
				v, err := pep440.ParseVersion(s)
				fmt.Fprint(hh, err)
				a, b := w.vers[next(len(w.vers))], w.vers[next(len(w.vers))]
				if err == nil {
					fmt.Fprint(hh, v.Cmp(a), v.String(), v.GoString())
				}
				fmt.Fprint(hh, a.Cmp(b), a.PublicVersion.Cmp(b.PublicVersion), a.String(), a.IsPreRelease(), a.IsFinal(), a.Major(), a.Minor(), a.Micro())
				if nv, err := a.Normalize(); err == nil {
					fmt.Fprint(hh, nv.String())
				}
				sp := w.specs[next(len(w.specs))]
				fmt.Fprint(hh, sp.Match(a), sp.String())
				if len(w.specs3) > 0 {
					fmt.Fprint(hh, w.specs3[next(len(w.specs3))].Match(a))
				}
				if n%30 == 0 {
					for _, e := range []pep440.ExclusionBehavior{nil, w.excl, pep440.AllowAll{}, pep440.MultiExcluder{w.excl, pep440.ExcludePreReleases{}}} {
						if best := sp.Select(w.vers, e); best != nil {
							fmt.Fprint(hh, best.String())
						}
					}
				}
				sp2, err := pep440.ParseSpecifier(m.specs[next(len(m.specs))])
				if err == nil {
					fmt.Fprint(hh, sp2.Match(b))
				} else {
					fmt.Fprint(hh, err)
				}
			}
			return fmt.Sprint(hh.Sum64())
		}}
	case 12:
		i := t.Intn(nl)
		return op{"write", func(w *world) string {
			var b bytes.Buffer
			err := fsutil.WriteLayer(w.layers[i], &b)
			return fmt.Sprintf("%x %v", sha256.Sum256(b.Bytes()), err)
		}}
	case 13:
		return op{"image", func(w *world) string {
			var res []string
			for _, n := range []string{"python3", "python", "usr/bin/python3", "/usr/bin/python3", "nope", "/f1"} {
				p, err := w.imgFS.LookPath(n)
				res = append(res, fmt.Sprint(p, err))
				fi, err := w.imgFS.Stat("/" + n)
				if err == nil {
					res = append(res, fmt.Sprint(fi.UID(), fi.GID(), fi.UName(), fi.GName(), fi.Mode()))
				} else {
					res = append(res, err.Error())
				}
			}
			c, g, err := pyinspect.Shebangs(w.imgFS, "python3")
			res = append(res, fmt.Sprint(c, g, err))
			img, err := fsutil.OpenImage(m.image)
			if err != nil {
				return err.Error()
			}
			ls, err := img.Layers()
			if err != nil {
				return err.Error()
			}
			res = append(res, outcome(squash.Squash(ls)))
			if ls, err = w.img.Layers(); err == nil {
				res = append(res, outcome(squash.Squash(ls)))
			}
			return strings.Join(res, "\n")
		}}
	case 14:
		i := t.Intn(len(m.specs))
		return op{"select", func(w *world) string {
			spec, err := pep440.ParseSpecifier(m.specs[i])
			if err != nil {
				return err.Error()
			}
			l, err := w.client.SelectWheel(h.QuietCtx(), "demo", spec)
			if err != nil {
				return "error: " + err.Error()
			}
			bs, err := l.Get(h.QuietCtx())
			return fmt.Sprintf("%s %x %v", l.Text, sha256.Sum256(bs), err)
		}}
	case 15:
		return op{"names", func(w *world) string {
			var res []string
			for _, n := range m.names {
				d, err := bdist.ParseFilename(n)
				if err != nil {
					res = append(res, err.Error())
					continue
				}
				back, err := bdist.GenerateFilename(*d)
				res = append(res, fmt.Sprint(back, err, w.tags.Supports(d.CompatibilityTag), w.tags.Preference(d.CompatibilityTag), pep425.Intersect(w.tags, []pep425.Tag{d.CompatibilityTag})))
			}
			return strings.Join(res, "\n")
		}}
	case 16:
		if !m.useGo {
			return op{"now", func(*world) string { return reproducible.Now().String() }}
		}
		pk := t.Pick("./a", "./b", "./fail", "./...")
		return op{"gobuild", func(w *world) string {
			return outcome(gobuild.LayerFromGo(h.QuietCtx(), m.now, []string{pk, "x"}))
		}}
	case 17:
		i := t.Intn(nl)
		return op{"open", func(w *world) string {
			l, err := fsutil.OpenLayer(m.files[i])
			return outcome(l, err)
		}}
	case 18:
		n := 1 + t.Intn(3)
		return op{"dynamic", func(w *world) string {
			d, err := pyinspect.Dynamic(h.QuietCtx(), w.cmdline[:n]...)
			if err != nil {
				return "error: " + clean(err.Error())
			}
			return fmt.Sprintf("%+v", *d)
		}}
	default:
		if m.docker == nil || t.P(0.5) {
			return op{"config", func(*world) string {
				c, err := python.NewConfigParser().Parse(strings.NewReader("[a]\nx = 1\n y\n[b]\nz: 2\n"))
				return fmt.Sprint(c, err)
			}}
		}
		return op{"docker", func(w *world) string {
			var got string
			err := dockerutil.WithImage(h.QuietCtx(), "verif", w.img, func(_ context.Context, tag name.Tag) error {
				got = tag.String()
				runtime.Gosched()
				have := false
				for _, tg := range m.docker.Tags() {
					have = have || tg == got
				}
				if !have {
					return fmt.Errorf("the tag is not there")
				}
				return nil
			})
			for _, tg := range m.docker.Tags() {
				if tg == got {
					return "the tag was left"
				}
			}
			return fmt.Sprint(err)
		}}
	}
}

// -------------------------------------------------------------------------------------------------

const goTool = `#!/bin/sh
out=; prev=; last=
for a in "$@"; do
	case "$prev" in -o) out=$a;; esac
	case "$a" in -o=*) out=${a#-o=};; --o=*) out=${a#--o=};; ./*) last=$a;; esac
	prev=$a
done
case "$last" in *fail) exit 1;; esac
echo "program $last" >"$out/${last#./}.bin" 2>/dev/null || echo all >"$out/all"
`

// pyTool is a compiler that is cheap to start.
const pyTool = `#!/bin/sh
for d in "$@"; do
	case "$d" in -c)
		printf '{"MagicNumberB64":"AQIDBA==","Tags":["py3-none-any"],"VersionInfo":{"major":3,"minor":%s,"micro":0,"releaselevel":"final","serial":0},"Scheme":{"platlib":"/%s"}}' $# "$1"
		exit 0;;
	esac
done
find_py() {
	for f in "$1"/*; do
		if [ -d "$f" ]; then find_py "$f"; else
			case "$f" in *.py) { echo "compiled ${f#$d} $PYTHONHASHSEED $SOURCE_DATE_EPOCH $#"; cat "$f"; } >"$f""c";; esac
		fi
	done
}
find_py "$d"
exit 0
`

func gen(t *h.T) *material {
	sc := t.Scratch()
	m := &material{now: time.Unix(1600000000+int64(t.Intn(1000)), 0), pyFiles: map[string]string{}}
	g := h.NewGenStack(t, h.StackOpts{MaxLayers: 4, MaxEntries: 10, HardLinks: true})
	for i, n := 0, 3+t.Intn(3); i < n; i++ {
		es := g.Layer()
		if i > 0 && t.P(0.2) {
			m.layers = append(m.layers, m.layers[t.Intn(i)])
		} else {
			bs, err := h.TarBytes(es)
			must(err)
			if t.P(0.08) {
				bs = bs[:len(bs)/2]
			}
			m.layers = append(m.layers, bs)
		}
		m.files = append(m.files, t.WriteFile(fmt.Sprintf("l%d.tar", i), m.layers[i], 0o644))
	}
	// image
	ents := []h.Entry{file("usr/bin/python3", "py", 0o755), file("usr/bin/pythonw3", "py", 0o755), file("bin/python", "py", 0o755), file("f1", "x", 0o644)}
	bs, err := h.TarBytes(ents)
	must(err)
	l2, err := h.TarBytes(h.NewGenStack(t, h.StackOpts{MaxLayers: 1, MaxEntries: 6}).Layer())
	must(err)
	im := h.Image{Tags: []string{"x:1"}, Layers: [][]byte{bs, l2}, Config: map[string]interface{}{"architecture": "amd64", "os": "linux", "config": map[string]interface{}{"Env": []string{"PATH=/bin:/usr/bin"}}}}
	m.image = t.WriteFile("img.tar", im.Tar(t.P(0.5)), 0o644)
	// directories
	for d := 0; d < 2; d++ {
		for i, n := 0, 2+t.Intn(4); i < n; i++ {
			t.WriteFile(fmt.Sprintf("dir%d/%s/f%d", d, t.Pick("a", "b", "a/c"), i), t.Bytes(t.Intn(3000)), 0o644)
		}
		m.dirs = append(m.dirs, fmt.Sprintf("%s/dir%d", sc, d))
	}
	if t.P(0.2) {
		m.dirs = append(m.dirs, sc+"/missing")
	}
	m.prefix = dir.Prefix{DirName: t.Pick("opt/x", "usr//local/./bin", "a/b/../c"), Ownership: dir.Ownership{UID: 1, GID: 2, UName: "u", GName: "g"}}
	m.owner = dir.Ownership{UID: t.Intn(3) - 1, GID: 7, GName: "grp"}
	// wheels
	for i, n := 0, 2+t.Intn(2); i < n; i++ {
		wh := h.GenWheel(t, h.WheelOpts{EntryPoints: "[console_scripts]\nrun = demo:main\ntool = demo.x:y\n[gui_scripts]\ngui = demo:gui\n"})
		bs := wh.Bytes()
		if t.P(0.08) {
			bs = bs[:len(bs)*3/4]
		}
		m.wheels = append(m.wheels, t.WriteFile(fmt.Sprintf("w%d/%s-py3-none-any.whl", i, wh.Dist), bs, 0o644))
	}
	for i := 0; i < 4; i++ {
		p := h.GenPlat(t)
		p.Tags = pep425.Installer{{Python: "py3", ABI: "none", Platform: "any"}, {Python: "cp39", ABI: "cp39", Platform: "linux_x86_64"}}
		p.MagicNumber = []byte{1, 2, 3, 4}
		p.VersionInfo = &python.VersionInfo{Major: 3, Minor: 9, Micro: i, ReleaseLevel: []string{"final", "", "candidate"}[i%3]}
		m.plats = append(m.plats, p)
	}
	// compiler
	comp := t.WriteFile("bin/pycomp", []byte(pyTool), 0o755)
	m.cmdline = []string{comp, "-q", "and", "more", "words", "behind"}
	for len(m.cmdline) < 72 {
		m.cmdline = append(m.cmdline, fmt.Sprint("w", len(m.cmdline)))
	}
	for i := 0; i < 3; i++ {
		for k := 0; k <= t.Intn(4); k++ {
			m.pyFiles[fmt.Sprintf("p%d/%s/m%d.py", i, t.Pick("a", "b/c"), k)] = fmt.Sprintf("x = %d\n", t.Intn(1000))
		}
	}
	// versions
	for i := 0; i < 40; i++ {
		m.vers = append(m.vers, t.GenVersion(h.VersionOpts{}))
	}
	m.vers = append(m.vers, "1.0", "1.0.dev1", "2!1.0a1.post2+x.1", "not a version")
	for i := 0; i < 20; i++ {
		v := m.vers[t.Intn(len(m.vers)-1)]
		s := t.Pick("==", "!=", "<", ">", "<=", ">=", "~=", "===") + v
		if t.P(0.3) {
			s += ", !=" + t.Pick("1.*", "2.0.*", "1.0")
		}
		m.specs = append(m.specs, s)
		m.specs3 = append(m.specs3, t.Pick("", "==", "<", ">=")+t.Pick("2.7", "3", "1.0", "3.9.1"))
	}
	m.specs = append(m.specs, ">=0", "==1.0.*", "<2")
	m.tags = []string{"cp39-cp39-linux_x86_64", "cp39-abi3-manylinux_2_17_x86_64", "py3-none-any"}
	for i := 0; i < 15; i++ {
		m.names = append(m.names, fmt.Sprintf("demo-%s-%s-%s-%s.whl", t.Pick("1.0", "1.1", "2.0a1", "0.5", "1.0-1", "1.0-2b", "x"), t.Pick("py3", "cp39", "py2.py3"), t.Pick("none", "cp39", "abi3"), t.Pick("any", "linux_x86_64", "manylinux_2_17_x86_64.linux_x86_64")))
	}
	return m
}

func file(n, body string, mode int64) h.Entry {
	e := h.Entry{Body: []byte(body)}
	e.Hdr.Typeflag, e.Hdr.Name, e.Hdr.Mode, e.Hdr.ModTime = '0', n, mode, time.Unix(1e9, 0)
	return e
}

func index(m *material) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		rw.Header().Set("Content-Type", "text/html")
		if strings.HasPrefix(r.URL.Path, "/f/") {
			fmt.Fprintf(rw, "content of %s", r.URL.Path)
			return
		}
		fmt.Fprint(rw, "<!DOCTYPE html><html><head><meta name=\"pypi:repository-version\" content=\"1.0\"></head><body>")
		for i, n := range m.names {
			extra := ""
			if i%4 == 1 {
				extra = " data-yanked=\"bad\""
			}
			if i%5 == 2 {
				extra += " data-requires-python=\"&gt;=3.6\""
			}
			fmt.Fprintf(rw, "<a href=\"/f/%d/%s#sha256=%x\"%s>%s</a>\n", i, n, sha256.Sum256([]byte(fmt.Sprintf("content of /f/%d/%s", i, n))), extra, n)
		}
		fmt.Fprint(rw, "</body></html>")
	}))
}

func run(t *h.T) {
	m := gen(t)
	m.useGo = t.P(0.5)
	srv := index(m)
	defer srv.Close()
	m.url = srv.URL + "/simple/"
	sc := t.Scratch()
	t.WriteFile("bin/go", []byte(goTool), 0o755)
	if t.P(0.3) {
		m.docker = t.NewDocker(sc + "/docker")
	}
	tmp := sc + "/tmp"
	must(os.Mkdir(tmp, 0o755))
	old, oldPath := os.Getenv("TMPDIR"), os.Getenv("PATH")
	must(os.Setenv("TMPDIR", tmp))
	p := sc + "/bin:/usr/bin:/bin"
	if m.docker != nil {
		p = m.docker.Bin + ":" + p
	}
	must(os.Setenv("PATH", p))
	defer func() { _ = os.Setenv("TMPDIR", old); _ = os.Setenv("PATH", oldPath) }()

	var ops []op
	kinds := map[string]int{}
	focus := ""
	if t.P(0.25) {
		focus = t.Pick("squash", "load", "wheel", "wheel", "compile", "equal", "versions", "dir", "image", "select", "gobuild")
	}
	nops := 10 + t.Intn(14)
	for tries := 0; len(ops) < nops && tries < 4000; tries++ {
		o := m.genOp(t)
		if focus != "" && o.kind != focus && len(ops) >= 3 {
			continue
		}
		ops = append(ops, o)
		kinds[o.kind]++
	}
	t.Inputf(len(ops) > 5, "ops %v, layers %d, wheels %d", kinds, len(m.layers), len(m.wheels))

	// one at a time
	seqWorld := build(m)
	a0 := seqWorld.args()
	want := make([]string, len(ops))
	for i, o := range ops {
		want[i] = o.run(seqWorld)
		t.Observe("sequential_operations", 1)
		if strings.Contains(want[i], "error") {
			t.Observe("failing_operations", 1)
		}
	}
	same(t, "operations run one at a time", a0, seqWorld.args())
	for i, o := range ops {
		if t.P(0.1) {
			if got := o.run(build(m)); got != want[i] {
				t.Failf("%q (%d) gave, after other operations,\n%s\nbut alone\n%s", o.kind, i, want[i], got)
			}
			t.Observe("alone", 1)
		}
	}

	// at the same time, in a world that is used for the first time
	w := build(m)
	before := w.args0()
	before["platforms"] = deep(w.plats)
	rounds := 2
	type res struct {
		op  int
		got string
		end time.Time // no lock is taken to order the operations: it would hide races from the detector
	}
	nw := 2 + t.Intn(9)
	queues := make([][]int, nw)
	for r := 0; r < rounds; r++ {
		perm := t.Perm(len(ops))
		for _, k := range perm {
			q := t.Intn(nw)
			queues[q] = append(queues[q], k)
		}
	}
	if t.P(0.3) { // the same operation everywhere at once
		k := t.Intn(len(ops))
		for q := range queues {
			queues[q] = append([]int{k}, queues[q]...)
		}
	}
	results := make([][]res, nw)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for q := range queues {
		q := q
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for _, k := range queues[q] {
				got := ops[k].run(w)
				results[q] = append(results[q], res{k, got, time.Now()})
			}
		}()
	}
	close(gate)
	wg.Wait()
	var ends []res
	for q := range results {
		ends = append(ends, results[q]...)
	}
	sort.SliceStable(ends, func(i, j int) bool { return ends[i].end.Before(ends[j].end) })
	var order []int
	for _, r := range ends {
		order = append(order, r.op)
	}
	t.Observe("concurrent_operations", len(order))
	t.State("completion_order", fmt.Sprint(t.Name, order))
	for _, k := range order {
		t.Observe("op_"+ops[k].kind, 1)
	}
	for q := range results {
		for _, r := range results[q] {
			if r.got != want[r.op] {
				t.Failf("operation %q (%d) gave, at the same time as others,\n%s\nbut alone\n%s", ops[r.op].kind, r.op, r.got, want[r.op])
			}
		}
	}
	after := w.args()
	for k, v := range before {
		if after[k] != v {
			t.Failf("operations run at the same time changed the %s from\n%s\nto\n%s", k, v, after[k])
		}
	}
	for k, v := range a0 {
		if strings.HasPrefix(k, "layer ") && after[k] != v {
			t.Failf("operations run at the same time changed %s from\n%s\nto\n%s", k, v, after[k])
		}
	}
	// and the world is still good
	for i, o := range ops {
		if t.P(0.3) {
			if got := o.run(w); got != want[i] {
				t.Failf("after operations at the same time, %q (%d) gave\n%s\nbut before\n%s", o.kind, i, got, want[i])
			}
			t.Observe("afterwards", 1)
		}
	}
	des, err := os.ReadDir(tmp)
	must(err)
	for _, de := range des {
		t.Errorf("%s was left in the temporary directory", de.Name())
	}
	if m.docker != nil {
		for _, tg := range m.docker.Tags() {
			t.Errorf("the tag %s was left", tg)
		}
	}
}

// args0 is what can be described without using (and so initialising) anything.
func (w *world) args0() map[string]string {
	ret := map[string]string{}
	save := w.layers
	w.layers = nil
	for k, v := range w.args() {
		ret[k] = v
	}
	w.layers = save
	return ret
}

func same(t *h.T, what string, a, b map[string]string) {
	for k, v := range a {
		if b[k] != v {
			t.Failf("%s changed the %s from\n%s\nto\n%s", what, k, v, b[k])
		}
	}
	t.Observe("arguments_compared", len(a))
}

func main() {
	h.Main(h.Config{
		ID:   "C22",
		Race: true,
		Rule: "random sets of operations (squash, load, walk a loaded tree, directory layers, wheel installation, bytecode compilation, layer comparison, version and specifier work, reading and opening layers and images, lookups in an image, wheel selection, file names, go builds, docker) that share layers, platforms, compilers, hooks, versions, tags and clients, under the race detector: first one at a time, then by 2-10 goroutines in a fresh instance of the same world, then partly again; " +
			"results, deep snapshots of all arguments (spare capacity included), temporary files and docker tags are compared",
		Require:     []string{"concurrent_operations", "op_squash", "op_load", "op_walk", "op_wheel", "op_compile", "op_equal", "op_versions", "op_dir", "op_dynamic", "op_image", "op_select", "op_write", "op_open", "arguments_compared", "afterwards"},
		Assumptions: []string{"schedules are sampled by the Go scheduler with yields inside shared readers, hooks and compilers"},
	}, func(c *h.C) {
		c.Group("mix", c.N(240, 6000), run)
	})
}
