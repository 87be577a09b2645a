// C09: the installed RECORD accounts for exactly the installed files.
package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep376"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"

	"verif/h"
)

func digest(algo string, body []byte) (string, bool) {
	var hh hash.Hash
	switch algo {
	case "md5":
		hh = md5.New()
	case "sha1":
		hh = sha1.New()
	case "sha224":
		hh = sha256.New224()
	case "sha256":
		hh = sha256.New()
	case "sha384":
		hh = sha512.New384()
	case "sha512":
		hh = sha512.New()
	default:
		return "", false
	}
	hh.Write(body)
	return algo + "=" + base64.RawURLEncoding.EncodeToString(hh.Sum(nil)), true
}

type want struct {
	algo      string
	installer string
	url       interface{} // decoded JSON, nil for none
	requested *string
	clamp     time.Time // zero if not chosen
}

func judge(t *h.T, w *h.Wheel, plat python.Platform, ps []h.Placed, es []h.Entry, wn want) {
	lib := w.LibDir(plat)
	di := path.Join(lib, w.DistInfo())
	files := map[string]h.Entry{}
	for _, e := range es {
		if e.Hdr.Typeflag == '5' {
			continue
		}
		files[path.Clean(e.Hdr.Name)] = e
	}
	rec, ok := files[di+"/RECORD"]
	if !ok {
		t.Failf("there is no RECORD in the layer")
	}
	if rec.Hdr.Mode&0o7777 != 0o644 {
		t.Errorf("RECORD has mode %o", rec.Hdr.Mode)
	}
	rows, err := h.ParseCSV(rec.Body)
	if err != nil {
		t.Failf("RECORD is not readable: %v", err)
	}
	archived := map[string]h.Placed{}
	for _, p := range ps {
		if p.Rewritten {
			archived[p.Path] = p
		}
	}
	seen := map[string]bool{}
	var names []string
	for _, row := range rows {
		if len(row) != 3 {
			t.Failf("row %q", row)
		}
		names = append(names, row[0])
		if seen[row[0]] {
			t.Errorf("%q is listed twice", row[0])
		}
		seen[row[0]] = true
		full := path.Join(lib, row[0])
		e, ok := files[full]
		if !ok {
			t.Errorf("%q is listed but the layer has no such file", row[0])
			continue
		}
		if rel, _ := filepath.Rel("/"+lib, "/"+full); rel != row[0] {
			t.Errorf("%q is not the path relative to the library directory, %q", row[0], rel)
		}
		t.Observe("rows checked", 1)
		switch {
		case full == di+"/RECORD" || strings.HasSuffix(full, ".pyc"):
			if row[1] != "" || row[2] != "" {
				t.Errorf("row %q should have no hash and size", row)
			}
			t.Observe("bytecode rows", 1)
		case archived[full].Rewritten:
			body := archived[full].Member.Body
			algo := strings.SplitN(row[1], "=", 2)[0]
			d, ok := digest(algo, body)
			if !ok || d != row[1] || row[2] != fmt.Sprint(len(body)) {
				t.Errorf("row %q of a rewritten script does not have the archive's hash and size %d", row, len(body))
			}
			t.Observe("rewritten script rows", 1)
		default:
			d, _ := digest(wn.algo, e.Body)
			if d != row[1] {
				t.Errorf("row %q: the %s hash of the installed file is %q", row, wn.algo, d)
			}
			if row[2] != fmt.Sprint(len(e.Body)) {
				t.Errorf("row %q: the installed file has %d bytes", row, len(e.Body))
			}
		}
	}
	if !sort.StringsAreSorted(names) {
		t.Errorf("rows are not sorted: %q", names)
	}
	for n := range files {
		rel, _ := filepath.Rel("/"+lib, "/"+n)
		if !seen[rel] {
			t.Errorf("installed file %q is not listed in RECORD", n)
		}
	}
	inst, ok := files[di+"/INSTALLER"]
	if !ok || strings.TrimSuffix(string(inst.Body), "\n") != wn.installer {
		t.Errorf("INSTALLER is %q (present: %v), want %q", inst.Body, ok, wn.installer)
	}
	du, ok := files[di+"/direct_url.json"]
	if ok != (wn.url != nil) {
		t.Errorf("direct_url.json present: %v, origin given: %v", ok, wn.url != nil)
	}
	if ok && wn.url != nil {
		var got interface{}
		dec := json.NewDecoder(bytes.NewReader(du.Body))
		if err := dec.Decode(&got); err != nil {
			t.Errorf("direct_url.json is not JSON: %v: %s", err, du.Body)
		} else if dec.More() {
			t.Errorf("direct_url.json holds more than one value: %s", du.Body)
		} else if !reflect.DeepEqual(got, wn.url) {
			t.Errorf("direct_url.json is %s, want %v", du.Body, wn.url)
		}
		t.Observe("origins compared", 1)
	}
	rq, ok := files[di+"/REQUESTED"]
	if ok != (wn.requested != nil) {
		t.Errorf("REQUESTED present: %v, asked for: %v", ok, wn.requested != nil)
	}
	if ok && wn.requested != nil {
		if strings.TrimSuffix(string(rq.Body), "\n") != *wn.requested {
			t.Errorf("REQUESTED is %q, want %q", rq.Body, *wn.requested)
		}
		t.Observe("REQUESTED markers", 1)
	}
	for _, n := range []string{"RECORD", "INSTALLER", "direct_url.json", "REQUESTED"} {
		e, ok := files[di+"/"+n]
		if !ok {
			continue
		}
		if e.Hdr.Uid != plat.UID || e.Hdr.Gid != plat.GID || e.Hdr.Uname != plat.UName || e.Hdr.Gname != plat.GName {
			t.Errorf("%s is owned by %d:%d %q:%q", n, e.Hdr.Uid, e.Hdr.Gid, e.Hdr.Uname, e.Hdr.Gname)
		}
		if e.Hdr.Typeflag != '0' || e.Hdr.Mode&0o7777 != 0o644 {
			t.Errorf("%s has type %c and mode %o", n, e.Hdr.Typeflag, e.Hdr.Mode)
		}
		if !wn.clamp.IsZero() && !e.Hdr.ModTime.Equal(wn.clamp) {
			t.Errorf("%s is dated %v, the clamp time is %v", n, e.Hdr.ModTime, wn.clamp)
		}
		t.Observe("metadata of added files", 1)
	}
}

func genURL(t *h.T) (*direct_url.DirectURL, interface{}) {
	u := t.Pick("https://example.com/demo-1.0.whl", "file:///tmp/x y.whl", "https://e.com/?a=1&b=<2>", "https://user:${PW}@é.example/日本#egg=\"q\"", "", "https://e.com/\\back\ttab")
	d := &direct_url.DirectURL{URL: u}
	w := map[string]interface{}{"url": u}
	if t.P(0.4) {
		v := &direct_url.VCSInfo{VCS: t.Pick("git", "hg"), CommitID: t.Pick("7921be1537eac1e97bc40179a57f0349c2aee67d", "c")}
		m := map[string]interface{}{"vcs": v.VCS, "commit_id": v.CommitID}
		if t.P(0.5) {
			v.RequestedRevision = t.Pick("main", "v1.0 & more")
			m["requested_revision"] = v.RequestedRevision
		}
		d.VCSInfo = v
		w["vcs_info"] = m
	}
	if t.P(0.4) {
		a := &direct_url.ArchiveInfo{}
		m := map[string]interface{}{}
		if t.P(0.5) {
			a.Hash = "sha256=2dc6b5a470a1bde68946f263f1af1515a2574a150a30d6ce02c6ff742fcc0db8"
			m["hash"] = a.Hash
		}
		d.ArchiveInfo = a
		w["archive_info"] = m
	}
	if t.P(0.3) {
		a := &direct_url.DirInfo{}
		m := map[string]interface{}{}
		if t.P(0.5) {
			a.Editable = true
			m["editable"] = true
		}
		d.DirInfo = a
		w["dir_info"] = m
	}
	return d, w
}

const eps = "[console_scripts]\ntool = pkg.mod:main\nother-tool=pkg:x.y [extra]\n[gui_scripts]\ngtool = pkg:gui\n"

func main() {
	h.Main(h.Config{
		ID:          "C09",
		Rule:        "random valid wheels installed with random recording hooks (hash, installer name, origin, REQUESTED, entry points); the RECORD in the layer is compared row by row with the layer; non-trivial: the layer has files outside the library directory, bytecode or rewritten scripts",
		Require:     []string{"rows checked", "bytecode rows", "rewritten script rows", "origins compared", "REQUESTED markers", "hash names refused", "CLI runs", "entry point wheels", "large members", "large wheels", "metadata of added files"},
		Assumptions: []string{"wheels that ship their own INSTALLER, REQUESTED or direct_url.json, or members with the name of a generated launcher, are not generated"},
	}, func(c *h.C) {
		run := func(t *h.T, w *h.Wheel, plat python.Platform) {
			ps, conflict, _ := w.Place(plat)
			if conflict != "" {
				return
			}
			names := []string{"sha256", "sha256", "sha384", "sha512", "sha224", "sha1", "md5", ""}
			algo := names[t.Intn(len(names))]
			wn := want{algo: algo, installer: t.Pick("pip", "verif test", "ocibuild layer wheel", "é")}
			if algo == "" {
				wn.algo = "sha256"
			}
			var url *direct_url.DirectURL
			if t.P(0.5) {
				url, wn.url = genURL(t)
			}
			var hooks []bdist.PostInstallHook
			if t.P(0.5) {
				hooks = append(hooks, entry_points.CreateScripts(plat))
			}
			if t.P(0.4) {
				r := t.Pick("", "# marker", "requested by verif")
				wn.requested = &r
				hooks = append(hooks, pep376.RecordRequested(r))
			}
			if url != nil && t.P(0.3) {
				hooks = append(hooks, direct_url.Record(*url))
				url = nil
			}
			hooks = append(hooks, recording_installs.Record(algo, wn.installer, url))
			t.Inputf(true, "algo %q installer %q url %v requested %v plat %+v\n%s", algo, wn.installer, wn.url, wn.requested, plat, w)
			p := plat
			p.PyCompile = h.FakeCompiler(nil)
			if t.P(0.6) {
				wn.clamp = time.Unix(1300000000+t.Int63n(400000000), 0)
			}
			es, err := t.Install(p, w.Bytes(), time.Time{}, wn.clamp, bdist.PostInstallHooks(hooks...))
			if err != nil {
				t.Failf("install failed: %v", err)
			}
			judge(t, w, plat, ps, es, wn)
		}
		c.Group("random", c.N(9000, 150000), func(t *h.T) {
			o := h.WheelOpts{}
			if t.P(0.3) {
				o.EntryPoints = eps
				t.Observe("entry point wheels", 1)
			}
			run(t, h.GenWheel(t, o), h.GenPlat(t))
		})
		c.Group("scale", c.N(70, 1500), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{MaxFiles: 5})
			kind := h.WheelScales[t.Intn(len(h.WheelScales))]
			h.EnlargeWheel(t, w, kind)
			run(t, w, h.GenPlat(t))
			t.Observe("large wheels", 1)
			t.State("large", kind)
		})
		c.Group("odd-names", c.N(300, 3000), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{MaxFiles: 4})
			for _, n := range []string{"new\nline.txt", `"`, ",", "a,b\"c", "'", "\\.", "#x", " s ", "\t", "x\n", "z\ny/\n", "..x/y", "~", "RECORD", "RECORD,", "INSTALLER", "REQUESTED", "sub/RECORD", "direct_url.json", "x.pyc", "y.pyc.txt", "pyc", "a.pyo"} {
				if t.P(0.5) {
					w.Members = append(w.Members, h.Member{Name: t.Pick("oddp/", w.Dist+".data/scripts/", w.Dist+".data/data/odd/") + n, Body: []byte("odd " + n), Unix: 0o100644, Creator: 3, Time: time.Unix(1400000000, 0)})
				}
			}
			w.Rows = nil
			run(t, w, h.GenPlat(t))
		})
		for i, size := range []int{1<<24 + 5, 1 << 16, 1<<16 - 1, 1<<25 + 3, 1<<15 + 1, 999999, 1000000} {
			size := size
			c.Directed(fmt.Sprintf("large-%d", i), func(t *h.T) {
				w := &h.Wheel{Dist: "demo-1.0", Purelib: true}
				w.Members = []h.Member{
					{Name: "pkg/a.bin", Body: bytes.Repeat([]byte("0123456789abcde\n"), size/16+1)[:size], Unix: 0o100644, Creator: 3, Time: time.Unix(1400000000, 0)},
					{Name: "demo-1.0.data/scripts/s", Body: append([]byte("#!python\n"), bytes.Repeat([]byte("# filler"), size/8)...), Unix: 0o100644, Creator: 3, Time: time.Unix(1400000000, 0)},
					{Name: "demo-1.0.dist-info/WHEEL", Body: []byte("Wheel-Version: 1.0\nRoot-Is-Purelib: true\n"), Unix: 0o100644, Creator: 3, Time: time.Unix(1400000000, 0)},
				}
				t.Observe("large members", 1)
				run(t, w, h.GenPlat(t))
			})
		}
		for _, bad := range []string{"sha3_256", "SHA256", "foo", "md4", "sha256 ", "sha-256", "crc32", "sha2", "adler32", "0", "sha512_256"} {
			bad := bad
			c.Directed("hash-"+bad, func(t *h.T) {
				w := h.GenWheel(t, h.WheelOpts{NoExotic: true, MaxFiles: 3})
				plat := h.GenPlat(t)
				if _, conflict, _ := w.Place(plat); conflict != "" {
					return
				}
				t.Inputf(true, "hash %q", bad)
				plat.PyCompile = h.FakeCompiler(nil)
				es, err := t.Install(plat, w.Bytes(), time.Time{}, time.Time{}, recording_installs.Record(bad, "x", nil))
				if err == nil {
					t.Errorf("hash name %q was accepted (%d entries)", bad, len(es))
				}
				t.Observe("hash names refused", 1)
			})
		}
		c.Group("cli", c.N(48, 400), func(t *h.T) {
			o := h.WheelOpts{}
			if t.P(0.5) {
				o.EntryPoints = eps
			}
			w := h.GenWheel(t, o)
			plat := h.GenPlat(t)
			ps, conflict, _ := w.Place(plat)
			if conflict != "" {
				return
			}
			t.Inputf(true, "plat %+v\n%s", plat, w)
			wf := t.WriteFile("in/demo-1.0-py3-none-any.whl", w.Bytes(), 0o644)
			yf := t.WriteFile("in/plat.yaml", h.PlatYAML(plat, []string{"python3", "-m", "compileall", "-q"}), 0o644)
			r := t.CLI(h.Cmd{Args: []string{"layer", "wheel", "--platform-file", yf, wf}})
			t.Observe("CLI runs", 1)
			if r.Code != 0 {
				t.Failf("failed: %s", r.Err)
			}
			es, err := h.ParseTar(r.Out)
			if err != nil {
				t.Failf("output is not an archive: %v", err)
			}
			judge(t, w, plat, ps, es, want{algo: "sha256", installer: "ocibuild layer wheel"})
		})
	})
}
