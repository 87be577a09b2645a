package h

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"context"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"hash"
	"io"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/datawire/dlib/dlog"
	"github.com/sirupsen/logrus"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
)

// Member is one member of a generated wheel.
type Member struct {
	Name     string // "/"-terminated for directories
	Body     []byte
	Unix     uint32 // st_mode, 0 for none
	Creator  byte   // 3 Unix, 0 FAT, 10 NTFS
	Time     time.Time
	TimeKind int // 0 extended timestamp (seconds), 1 DOS only (even seconds), 2 NTFS (100 ns), 3 none at all
	Store    bool
	Algo     string // of the RECORD row; "" for sha256
	NoRow    bool   // no row in RECORD
}

func (m Member) IsDir() bool { return strings.HasSuffix(m.Name, "/") }

// Exec says if the member is executable according to the archive.
func (m Member) Exec() bool { return m.Unix&0o170000 == 0o100000 && m.Unix&0o111 != 0 }

// Wheel is a generated wheel.
type Wheel struct {
	Dist       string // "demo-1.0"
	Members    []Member
	Rows       [][]string // the rows of RECORD; nil to generate them
	NoRecord   bool
	RecordName string // default <Dist>.dist-info/RECORD
	RecordRaw  []byte // instead of Rows
	RecordTime time.Time
	// filled in by GenWheel
	Purelib bool
}

func (w *Wheel) DistInfo() string { return w.Dist + ".dist-info" }

// NewHash gives the hash functions that RECORD may use.
func NewHash(algo string) hash.Hash {
	switch algo {
	case "", "sha256":
		return sha256.New()
	case "sha384":
		return sha512.New384()
	case "sha512":
		return sha512.New()
	}
	panic("unknown hash " + algo)
}

// RecHash formats a hash for RECORD.
func RecHash(algo string, body []byte) string {
	if algo == "" {
		algo = "sha256"
	}
	hh := NewHash(algo)
	hh.Write(body)
	return algo + "=" + base64.RawURLEncoding.EncodeToString(hh.Sum(nil))
}

// GenRows makes the correct rows.
func (w *Wheel) GenRows() [][]string {
	var rows [][]string
	for _, m := range w.Members {
		if m.IsDir() || m.NoRow {
			continue
		}
		rows = append(rows, []string{m.Name, RecHash(m.Algo, m.Body), fmt.Sprint(len(m.Body))})
	}
	return append(rows, []string{w.DistInfo() + "/RECORD", "", ""})
}

// CSV formats rows as Python's csv module would.
func CSV(rows [][]string, eol string) []byte {
	var b bytes.Buffer
	for _, r := range rows {
		for i, f := range r {
			if i > 0 {
				b.WriteByte(',')
			}
			if strings.ContainsAny(f, ",\"\r\n") || strings.HasPrefix(f, " ") {
				b.WriteString(`"` + strings.ReplaceAll(f, `"`, `""`) + `"`)
			} else {
				b.WriteString(f)
			}
		}
		b.WriteString(eol)
	}
	return b.Bytes()
}

func ntfsExtra(tm time.Time) []byte {
	const epoch = 116444736000000000
	v := uint64(tm.UnixNano()/100) + epoch
	b := make([]byte, 0, 36)
	b = binary.LittleEndian.AppendUint16(b, 0x000a)
	b = binary.LittleEndian.AppendUint16(b, 32)
	b = binary.LittleEndian.AppendUint32(b, 0)
	b = binary.LittleEndian.AppendUint16(b, 1)
	b = binary.LittleEndian.AppendUint16(b, 24)
	for i := 0; i < 3; i++ {
		b = binary.LittleEndian.AppendUint64(b, v)
	}
	return b
}

func dosTime(tm time.Time) (date, clock uint16) {
	tm = tm.UTC()
	date = uint16(tm.Day() + int(tm.Month())<<5 + (tm.Year()-1980)<<9)
	clock = uint16(tm.Second()/2 + tm.Minute()<<5 + tm.Hour()<<11)
	return
}

// ZipMembers writes a zip archive.
func ZipMembers(ms []Member) []byte {
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	for _, m := range ms {
		fh := &zip.FileHeader{Name: m.Name, Method: zip.Deflate}
		if m.Store || m.IsDir() {
			fh.Method = zip.Store
		}
		switch m.TimeKind {
		case 0:
			fh.Modified = m.Time
		case 1:
			fh.ModifiedDate, fh.ModifiedTime = dosTime(m.Time)
		case 2:
			fh.ModifiedDate, fh.ModifiedTime = dosTime(m.Time)
			fh.Extra = ntfsExtra(m.Time)
		}
		fh.CreatorVersion = uint16(m.Creator)<<8 | 20
		fh.ExternalAttrs = m.Unix << 16
		if m.IsDir() {
			fh.ExternalAttrs |= 0x10
		}
		wr, err := zw.CreateHeader(fh)
		if err != nil {
			Fatalf("zip: %v", err)
		}
		if !m.IsDir() {
			if _, err := wr.Write(m.Body); err != nil {
				Fatalf("zip: %v", err)
			}
		}
	}
	if err := zw.Close(); err != nil {
		Fatalf("zip: %v", err)
	}
	return b.Bytes()
}

// All gives the members including RECORD.
func (w *Wheel) All() []Member {
	ms := append([]Member(nil), w.Members...)
	if !w.NoRecord {
		raw := w.RecordRaw
		if raw == nil {
			rows := w.Rows
			if rows == nil {
				rows = w.GenRows()
			}
			raw = CSV(rows, "\n")
		}
		name := w.RecordName
		if name == "" {
			name = w.DistInfo() + "/RECORD"
		}
		tm := w.RecordTime
		if tm.IsZero() {
			tm = time.Unix(1500000000, 0)
		}
		ms = append(ms, Member{Name: name, Body: raw, Unix: 0o100644, Creator: 3, Time: tm})
	}
	return ms
}

// Bytes gives the archive.
func (w *Wheel) Bytes() []byte { return ZipMembers(w.All()) }

func (w *Wheel) String() string {
	var b strings.Builder
	for _, m := range w.All() {
		body := string(m.Body)
		if len(body) > 60 {
			body = fmt.Sprintf("%s…(%d)", body[:60], len(body))
		}
		fmt.Fprintf(&b, "%q mode=%o creator=%d time=%d/%v %q\n", m.Name, m.Unix, m.Creator, m.TimeKind, m.Time.UTC().Format(time.RFC3339Nano), body)
	}
	return b.String()
}

// WheelOpts steers GenWheel.
type WheelOpts struct {
	NoExotic    bool // plain names only
	NoPy        bool
	EntryPoints string // contents of entry_points.txt
	Future      bool   // times may lie in the future
	SubSec      bool   // times with fractions of seconds
	MaxFiles    int
}

var wheelDists = []string{"demo-1.0", "My_Pkg-2.3.4.post1", "a-0", "x.y-1!2.0+l.1"}

func (t *T) wheelTime(o WheelOpts) (time.Time, int) {
	base := int64(315532800 + 86400*400) // 1981
	tm := time.Unix(base+t.Int63n(1600000000-base), 0)
	if o.Future && t.P(0.1) {
		tm = time.Unix(2200000000+t.Int63n(1000000000), 0)
		if t.P(0.5) { // the extended timestamp is 32 bits
			tm = time.Unix(2000000000+t.Int63n(100000000), 0)
		}
	}
	kind := t.Intn(3)
	switch kind {
	case 0:
		if tm.Unix() >= 1<<31 {
			kind = 2
		}
	case 1:
		tm = time.Unix(tm.Unix()&^1, 0)
	case 2:
		if o.SubSec {
			tm = tm.Add(time.Duration(t.Intn(10000000)) * 100)
		}
	}
	return tm, kind
}

// WheelModes are the modes of members that the generator uses.
var WheelModes = []uint32{0o100644, 0o100755, 0o100600, 0o100744, 0o100711, 0o100001, 0o104755, 0o102775, 0o100664, 0o100400, 0, 0o100666, 0o755, 0o120755, 0o60711}

// GenWheel makes a valid wheel.
func GenWheel(t *T, o WheelOpts) *Wheel {
	w := &Wheel{Dist: wheelDists[t.Intn(len(wheelDists))]}
	if o.MaxFiles == 0 {
		o.MaxFiles = 14
	}
	used := map[string]bool{}   // every path, files and directories
	isFile := map[string]bool{} // cleaned
	isDir := map[string]bool{}
	ok := func(name string) bool {
		c := path.Clean(name)
		if used[name] || isFile[c] {
			return false
		}
		if !strings.HasSuffix(name, "/") && isDir[c] {
			return false
		}
		for d := path.Dir(c); d != "."; d = path.Dir(d) {
			if isFile[d] {
				return false
			}
		}
		return true
	}
	add := func(name string, body []byte) {
		if !ok(name) {
			return
		}
		used[name] = true
		c := path.Clean(name)
		if strings.HasSuffix(name, "/") {
			isDir[c] = true
		} else {
			isFile[c] = true
		}
		for d := path.Dir(c); d != "."; d = path.Dir(d) {
			isDir[d] = true
		}
		tm, kind := t.wheelTime(o)
		m := Member{Name: name, Body: body, Creator: 3, Time: tm, TimeKind: kind, Store: t.P(0.2)}
		if m.IsDir() {
			m.Unix = []uint32{0o40755, 0o40700, 0, 0o40777}[t.Intn(4)]
		} else {
			m.Unix = 0o100644
			if t.P(0.5) {
				m.Unix = WheelModes[t.Intn(len(WheelModes))]
			}
			m.Algo = []string{"", "", "", "sha384", "sha512"}[t.Intn(5)]
		}
		if m.Unix == 0 {
			m.Creator = []byte{0, 3, 10}[t.Intn(3)]
		}
		w.Members = append(w.Members, m)
	}

	di := w.DistInfo()
	data := w.Dist + ".data"
	w.Purelib = t.P(0.6)
	wheelFile := "Wheel-Version: " + t.Pick("1.0", "1.0", "1.0", "1.1", "1.9", "0.1") + "\nGenerator: verif\n"
	key := t.Pick("Root-Is-Purelib", "Root-Is-Purelib", "Root-Is-Purelib", "root-is-purelib", "ROOT-IS-PURELIB")
	if w.Purelib {
		wheelFile += key + ": true\n"
	} else if t.P(0.7) {
		wheelFile += key + ": " + t.Pick("false", "false", "false", "False", "0", "no", "untrue", "truely", "t", "tru", "not true") + "\n"
	}
	wheelFile += "Tag: py3-none-any\n"
	if t.P(0.3) {
		wheelFile += "\n"
	}
	if t.P(0.1) {
		wheelFile = strings.ReplaceAll(wheelFile, "\n", "\r\n")
	}

	comps := []string{"pkg", "mod", "sub", "a", "b", "c", "data", "scripts", "__pycache__", "tests", "x-1.0.data", "purelib", "other-9.dist-info",
		"_", "__init__", "__main__", "a.b", "test_x", "UPPER", "0", "setup", "RECORD", "INSTALLER", "WHEEL", "bin", "site-packages"}
	if !o.NoExotic {
		comps = append(comps, "with space", "é", "comma,x", `quo"te`, "..dots", "-dash", "semi;x", "x.data", "#hash", "[br]", "日本", "+plus", " lead", "back\\slash", ".hidden", "trail.", "tilde~", "~tilde", "per%20cent", "a=b", "dol$lar", "ctl\x01", "e\u0301", "...", "x:y", "star*", "q?")
	}
	exts := []string{"", ".txt", ".py", ".py", ".py", ".so", ".json", ".PY", ".pyi", ".pyx", ".pth", ".py.in", ".pyw", ".p7s", ".jws", ".exe"}
	if o.NoPy {
		exts = []string{"", ".txt", ".so", ".json", ".pyi"}
	}
	nameOf := func(depth int) string {
		var ps []string
		for i := 0; i < depth; i++ {
			ps = append(ps, comps[t.Intn(len(comps))])
		}
		last := comps[t.Intn(len(comps))]
		if t.P(0.1) { // anything short
			bs := make([]byte, 1+t.Intn(3))
			for i := range bs {
				bs[i] = "_abzAZ09-+~"[t.Intn(11)]
			}
			last = string(bs)
		}
		if t.P(0.05) {
			last += strings.Repeat("l", 100+t.Intn(100))
		}
		ext := exts[t.Intn(len(exts))]
		if last == "__pycache__" { // only ever a directory
			last = "m"
		}
		ps = append(ps, last+ext)
		return strings.Join(ps, "/")
	}
	bodyOf := func(name string) []byte {
		if strings.HasSuffix(name, ".py") {
			return []byte(fmt.Sprintf("# %d\nX = %d\ndef f():\n    return %d\n", t.Intn(1000), t.Intn(1000), t.Intn(1000)))
		}
		switch t.Intn(6) {
		case 0:
			return nil
		case 1:
			return t.Bytes(1 + t.Intn(5000))
		case 2:
			return []byte("#!python\nprint('not in scripts')\n")
		}
		return []byte(fmt.Sprintf("content %d\n", t.Intn(1000000)))
	}
	n := t.Intn(o.MaxFiles)
	for i := 0; i < n; i++ {
		var name string
		depth := t.Intn(4)
		kind := t.Intn(10)
		switch {
		case kind < 5: // library
			name = nameOf(depth)
			if t.P(0.08) { // looks like the data directory but is not
				name = data + t.Pick("x", "-extra", ".d", "base", " ", "2") + t.Pick("", "/scripts", "/data", "/purelib") + "/" + name
			}
			if t.P(0.02) {
				name = t.Pick(data+".txt", data+"base", strings.ToUpper(data)+"/scripts/up", "."+data+"/data/x", w.Dist+".dat", w.Dist+"/data/y")
			}
			if strings.HasSuffix(strings.Split(name, "/")[0], ".dist-info") {
				continue
			}
		case kind < 7: // scripts
			name = data + "/scripts/" + nameOf(t.Intn(2))
		default:
			name = data + "/" + t.Pick("purelib", "platlib", "headers", "data", "scripts") + "/" + nameOf(depth)
		}
		if t.P(0.12) {
			add(name+"/", nil)
			continue
		}
		body := bodyOf(name)
		if strings.HasPrefix(name, data+"/scripts/") && t.P(0.75) {
			body = []byte(t.Pick("#!python\nprint(1)\n", "#!python", "#!pythonw\nprint(2)\n", "#!pythonw", "#!python -E\nX=1\n", "#!pythonw -s\r\nX=1\r\n", "#!python\r\nX=1\r\n",
				"#!/usr/bin/python\nX=1\n", " #!python\nX=1\n", "#! python\n", "#!pytho", "#!bash\n", "", "\n#!python\n", "#!python\n"+strings.Repeat("# filler\n", 4000)))
		}
		add(name, body)
	}
	for _, d := range []string{data + "/", data + "/scripts/", data + "/purelib/", data + "/data/", di + "/", "pkg/"} {
		if t.P(0.15) {
			add(d, nil)
		}
	}
	add(di+"/METADATA", []byte("Metadata-Version: 2.1\nName: demo\nVersion: 1.0\n"))
	add(di+"/WHEEL", []byte(wheelFile))
	if o.EntryPoints != "" {
		add(di+"/entry_points.txt", []byte(o.EntryPoints))
	}
	if t.P(0.3) {
		add(di+"/top_level.txt", []byte("pkg\n"))
	}
	if t.P(0.2) {
		add(di+"/licenses/LICENSE", []byte("free\n"))
	}
	for _, sig := range []string{"RECORD.jws", "RECORD.p7s"} {
		if t.P(0.25) {
			k := len(w.Members)
			add(di+"/"+sig, t.Bytes(30))
			if len(w.Members) > k {
				w.Members[k].NoRow = true
			}
		}
	}
	w.RecordTime, _ = t.wheelTime(WheelOpts{})
	t.Shuffle(len(w.Members), func(i, j int) { w.Members[i], w.Members[j] = w.Members[j], w.Members[i] })
	if t.P(0.5) { // rows in another order
		rows := w.GenRows()
		t.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
		w.Rows = rows
	}
	return w
}

// GenPlat makes a platform without a compiler.
func GenPlat(t *T) python.Platform {
	p := python.Platform{
		ConsoleShebang: t.Pick("/usr/bin/python3.9", "/opt/py/bin/python", "/u/p"),
		UID:            []int{0, 0, 1000, 70000, 3000000}[t.Intn(5)],
		GID:            []int{0, 0, 1001, 99, 3000001}[t.Intn(5)],
		UName:          t.Pick("root", "", "user", "üser"),
		GName:          t.Pick("root", "", "grp", "wheel"),
	}
	p.GraphicalShebang = t.Pick("", "/usr/bin/pythonw3.9", p.ConsoleShebang)
	if t.P(0.1) {
		p.ConsoleShebang, p.GraphicalShebang = "", "/only/graphical"
	}
	root := t.Pick("/usr", "/usr", "/opt/venv-1", "/home/some user/.local")
	p.Scheme = python.Scheme{
		PureLib: root + "/lib/python3.9/site-packages",
		PlatLib: root + t.Pick("/lib", "/lib64") + "/python3.9/site-packages",
		Headers: root + "/include/site/python3.9/",
		Scripts: root + "/bin",
		Data:    root,
	}
	switch t.Intn(12) {
	case 0:
		p.Scheme.Data = "/"
	case 1:
		p.Scheme.PureLib += "/"
		p.Scheme.Scripts += "/"
	case 2:
		p.Scheme.Scripts = root + "//bin"
		p.Scheme.PlatLib = "//" + strings.TrimPrefix(p.Scheme.PlatLib, "/")
	case 3:
		p.Scheme.Headers = root + "/x/../include/./h"
	}
	return p
}

// Shebangs gives the effective interpreters of a platform.
func Shebangs(p python.Platform) (console, gui string) {
	console, gui = p.ConsoleShebang, p.GraphicalShebang
	if console == "" {
		console = gui
	}
	if gui == "" {
		gui = console
	}
	return
}

// SchemeDir gives the layer path of a scheme directory.
func SchemeDir(p python.Platform, key string) string {
	var d string
	switch key {
	case "purelib":
		d = p.Scheme.PureLib
	case "platlib":
		d = p.Scheme.PlatLib
	case "headers":
		d = p.Scheme.Headers
	case "scripts":
		d = p.Scheme.Scripts
	case "data":
		d = p.Scheme.Data
	default:
		return "?"
	}
	return strings.TrimLeft(path.Clean("/"+d), "/")
}

// LibDir is where the root of the archive goes.
func (w *Wheel) LibDir(p python.Platform) string {
	if w.Purelib {
		return SchemeDir(p, "purelib")
	}
	return SchemeDir(p, "platlib")
}

// Placed is where one member goes and what it becomes.
type Placed struct {
	Member    Member
	Path      string
	Key       string // data category, or ""
	Body      []byte
	Mode      int64
	Rewritten bool
	Dir       bool
}

// Place works out where the members of a wheel go according to the specification. conflict is set if two
// members want the same place or one wants to be a directory where another is a file; bad is set if a
// category is not supported.
func (w *Wheel) Place(p python.Platform) (ps []Placed, conflict, bad string) {
	lib := w.LibDir(p)
	console, gui := Shebangs(p)
	for _, m := range w.All() {
		name := strings.TrimSuffix(m.Name, "/")
		if name == w.DistInfo()+"/RECORD" || name == w.DistInfo()+"/RECORD.jws" || name == w.DistInfo()+"/RECORD.p7s" {
			continue
		}
		pl := Placed{Member: m, Body: m.Body, Dir: m.IsDir(), Mode: 0o644}
		if m.Exec() {
			pl.Mode = 0o755
		}
		if name == w.Dist+".data" && m.IsDir() {
			continue
		}
		if rest := strings.TrimPrefix(name, w.Dist+".data/"); rest != name {
			parts := strings.SplitN(rest, "/", 2)
			pl.Key = parts[0]
			dir := SchemeDir(p, pl.Key)
			if dir == "?" {
				bad = m.Name
				continue
			}
			if len(parts) == 1 {
				if !m.IsDir() {
					conflict = m.Name
				}
				parts = append(parts, "")
			}
			pl.Path = path.Join(dir, parts[1])
			if pl.Path == "" {
				continue
			}
			if pl.Key == "scripts" && !pl.Dir {
				switch {
				case bytes.HasPrefix(m.Body, []byte("#!pythonw")):
					pl.Body = append([]byte("#!"+gui), m.Body[len("#!pythonw"):]...)
					pl.Rewritten = true
				case bytes.HasPrefix(m.Body, []byte("#!python")):
					pl.Body = append([]byte("#!"+console), m.Body[len("#!python"):]...)
					pl.Rewritten = true
				}
				if pl.Rewritten {
					pl.Mode = 0o755
				}
			}
		} else {
			pl.Path = path.Join(lib, name)
		}
		if pl.Dir {
			pl.Mode = 0o755
			pl.Body = nil
		}
		ps = append(ps, pl)
	}
	at := map[string]Placed{}
	for _, pl := range ps {
		if o, dup := at[pl.Path]; dup && !(o.Dir && pl.Dir) {
			conflict = pl.Path
		}
		at[pl.Path] = pl
	}
	for _, pl := range ps {
		for d := path.Dir(pl.Path); d != "."; d = path.Dir(d) {
			if o, ok := at[d]; ok && !o.Dir {
				conflict = d
			}
		}
	}
	return ps, conflict, bad
}

// PlatYAML formats a platform file for the CLI.
func PlatYAML(p python.Platform, compiler []string) []byte {
	q := func(s string) string { return fmt.Sprintf("%q", s) }
	var cs []string
	for _, c := range compiler {
		cs = append(cs, q(c))
	}
	return []byte(fmt.Sprintf("ConsoleShebang: %s\nGraphicalShebang: %s\nScheme:\n  purelib: %s\n  platlib: %s\n  headers: %s\n  scripts: %s\n  data: %s\nUID: %d\nGID: %d\nUName: %s\nGName: %s\nPyCompile: [%s]\n",
		q(p.ConsoleShebang), q(p.GraphicalShebang), q(p.Scheme.PureLib), q(p.Scheme.PlatLib), q(p.Scheme.Headers), q(p.Scheme.Scripts), q(p.Scheme.Data),
		p.UID, p.GID, q(p.UName), q(p.GName), strings.Join(cs, ", ")))
}

// Compiled is what a FakeCompiler saw and made.
type Compiled struct {
	Clamp time.Time
	Path  []string
	In    map[string][]byte // path to contents
	Times map[string]time.Time
	Out   map[string][]byte
}

// FakeCompiler is an in-process stand-in for a Python compiler.
func FakeCompiler(rec *[]Compiled) python.Compiler {
	return func(_ context.Context, clamp time.Time, pyPath []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
		c := Compiled{Clamp: clamp, Path: append([]string(nil), pyPath...), In: map[string][]byte{}, Times: map[string]time.Time{}, Out: map[string][]byte{}}
		var ret []fsutil.FileReference
		for _, f := range in {
			r, err := f.Open()
			if err != nil {
				return nil, err
			}
			bs, err := io.ReadAll(r)
			r.Close()
			if err != nil {
				return nil, err
			}
			c.In[f.FullName()] = bs
			c.Times[f.FullName()] = f.ModTime()
			sum := sha256.Sum256(bs)
			body := append([]byte("PYC "+f.FullName()+" "), sum[:]...)
			name := path.Join(path.Dir(f.FullName()), "__pycache__", strings.TrimSuffix(f.Name(), ".py")+".fake-39.pyc")
			c.Out[name] = body
			ret = append(ret, &fsutil.InMemFileReference{
				FileInfo:  (&tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644, Size: int64(len(body)), ModTime: clamp}).FileInfo(),
				MFullName: name,
				MContent:  body,
			})
		}
		if rec != nil {
			*rec = append(*rec, c)
		}
		return ret, nil
	}
}

// Install runs the real installer.
func (t *T) Install(plat python.Platform, wheel []byte, min, max time.Time, hook bdist.PostInstallHook) ([]Entry, error) {
	fn := t.WriteFile("demo-1.0-py3-none-any.whl", wheel, 0o644)
	ctx := QuietCtx()
	layer, err := bdist.InstallWheel(ctx, plat, min, max, fn, hook)
	if err != nil {
		if layer != nil {
			t.Errorf("the installer returned both a layer and the error %v", err)
		}
		return nil, err
	}
	bs, err := LayerBytes(layer)
	if err != nil {
		return nil, fmt.Errorf("reading the layer: %w", err)
	}
	es, err := ParseTar(bs)
	if err != nil {
		t.Errorf("the layer is not a readable archive: %v", err)
		return nil, nil
	}
	return es, nil
}

// QuietCtx is a context whose logger discards.
func QuietCtx() context.Context {
	return dlog.WithLogger(context.Background(), dlog.WrapLogrus(quiet))
}

var quiet = func() *logrus.Logger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return l
}()

// SortedKeys of a map of entries.
func SortedKeys(m map[string]Entry) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ParseCSV is a small independent reader of RECORD files (RFC 4180 as Python writes it).
func ParseCSV(bs []byte) ([][]string, error) {
	var rows [][]string
	var row []string
	var f []byte
	s := string(bs)
	i := 0
	inRow := false
	endField := func() { row = append(row, string(f)); f = nil }
	endRow := func() {
		endField()
		if !(len(row) == 1 && row[0] == "") {
			rows = append(rows, row)
		}
		row = nil
		inRow = false
	}
	for i < len(s) {
		inRow = true
		if len(f) == 0 && s[i] == '"' {
			i++
			for {
				if i >= len(s) {
					return nil, fmt.Errorf("unterminated quote")
				}
				if s[i] == '"' {
					if i+1 < len(s) && s[i+1] == '"' {
						f = append(f, '"')
						i += 2
						continue
					}
					i++
					break
				}
				f = append(f, s[i])
				i++
			}
			continue
		}
		switch {
		case s[i] == ',':
			endField()
		case s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n':
		case s[i] == '\n':
			endRow()
		default:
			f = append(f, s[i])
		}
		i++
	}
	if inRow {
		endRow()
	}
	return rows, nil
}

// SortedStrings gives the keys in order.
func SortedStrings(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
