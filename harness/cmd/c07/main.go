// C07: a wheel whose contents disagree with its RECORD is never installed.
package main

import (
	"archive/zip"
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"path"
	"strconv"
	"strings"
	"time"

	"verif/h"
)

// valid says whether an archive satisfies the integrity rule, and why not.
func valid(bs []byte) error {
	zr, err := zip.NewReader(bytes.NewReader(bs), int64(len(bs)))
	if err != nil {
		return err
	}
	infos := map[string]bool{}
	files := map[string][]byte{}
	for _, f := range zr.File {
		n := path.Clean(f.Name)
		if top := strings.Split(n, "/")[0]; strings.HasSuffix(top, ".dist-info") {
			infos[top] = true
		}
		if strings.HasSuffix(f.Name, "/") {
			continue
		}
		if _, dup := files[n]; dup {
			return fmt.Errorf("two members are called %q", n)
		}
		if strings.HasSuffix(n, ".dist-info/RECORD.jws") || strings.HasSuffix(n, ".dist-info/RECORD.p7s") {
			if strings.Count(n, "/") == 1 { // signatures are neither checked nor installed
				files[n] = nil
				continue
			}
		}
		r, err := f.Open()
		if err != nil {
			return err
		}
		body, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			return err
		}
		files[n] = body
	}
	if len(infos) != 1 {
		return fmt.Errorf("%d .dist-info directories", len(infos))
	}
	var di string
	for di = range infos {
	}
	rec, ok := files[di+"/RECORD"]
	if !ok {
		return fmt.Errorf("no RECORD")
	}
	rows, err := h.ParseCSV(rec)
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	for _, row := range rows {
		if len(row) != 3 {
			return fmt.Errorf("row %q", row)
		}
		n := path.Clean(row[0])
		body, ok := files[n]
		if !ok {
			return fmt.Errorf("%q is listed but not there", n)
		}
		if n == di+"/RECORD" {
			continue
		}
		parts := strings.SplitN(row[1], "=", 2)
		if len(parts) != 2 || (parts[0] != "sha256" && parts[0] != "sha384" && parts[0] != "sha512") {
			return fmt.Errorf("%q: hash %q", n, row[1])
		}
		if h.RecHash(parts[0], body) != row[1] {
			return fmt.Errorf("%q: hash mismatch", n)
		}
		if row[2] != strconv.Itoa(len(body)) {
			return fmt.Errorf("%q: size mismatch", n)
		}
		seen[n] = true
	}
	for n := range files {
		if !seen[n] && n != di+"/RECORD" && n != di+"/RECORD.jws" && n != di+"/RECORD.p7s" {
			return fmt.Errorf("%q is not listed", n)
		}
	}
	return nil
}

func b64(bs []byte) string { return base64.RawURLEncoding.EncodeToString(bs) }

type tamper struct {
	name string
	fn   func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte // nil: use w
}

// victim picks a row that belongs to an ordinary member, and the member.
func member(w *h.Wheel, name string) *h.Member {
	for k := range w.Members {
		if w.Members[k].Name == name {
			return &w.Members[k]
		}
	}
	return nil
}

func flip(t *h.T, bs []byte) []byte {
	out := append([]byte(nil), bs...)
	if len(out) == 0 {
		return []byte("x")
	}
	out[t.Intn(len(out))] ^= byte(1 << t.Intn(8))
	return out
}

var tampers = []tamper{
	{"content flipped", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		m := member(w, rows[i][0])
		m.Body = flip(t, m.Body)
		return nil
	}},
	{"content extended", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		m := member(w, rows[i][0])
		m.Body = append(append([]byte(nil), m.Body...), ' ')
		return nil
	}},
	{"content extended, size updated", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		m := member(w, rows[i][0])
		m.Body = append(append([]byte(nil), m.Body...), ' ')
		rows[i][2] = strconv.Itoa(len(m.Body))
		return nil
	}},
	{"content truncated", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		m := member(w, rows[i][0])
		if len(m.Body) == 0 {
			m.Body = []byte("y")
		} else {
			m.Body = m.Body[:len(m.Body)-1]
		}
		return nil
	}},
	{"row dropped", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		w.Rows = append(append([][]string(nil), rows[:i]...), rows[i+1:]...)
		return nil
	}},
	{"hash missing", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte { rows[i][1] = ""; return nil }},
	{"size missing", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte { rows[i][2] = ""; return nil }},
	{"hash and size missing", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte { rows[i][1], rows[i][2] = "", ""; return nil }},
	{"size wrong", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		n, _ := strconv.Atoi(rows[i][2])
		rows[i][2] = t.Pick(strconv.Itoa(n+1), "-1", "-"+strconv.Itoa(n+1), strconv.Itoa(n)+"0", "x", strconv.Itoa(n+1)+"99999999999999999999", strconv.FormatUint(1<<32+uint64(n), 10))
		if n == 0 && rows[i][2] == "00" {
			rows[i][2] = "1"
		}
		return nil
	}},
	{"hash wrong", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		switch t.Intn(6) {
		case 0:
			rows[i][1] = h.RecHash("sha256", []byte("something else"))
		case 1: // truncated
			rows[i][1] = rows[i][1][:len(rows[i][1])-1-t.Intn(20)]
		case 2: // right digest, wrong algorithm name
			p := strings.SplitN(rows[i][1], "=", 2)
			other := map[string]string{"sha256": "sha512", "sha512": "sha384", "sha384": "sha256"}[p[0]]
			rows[i][1] = other + "=" + p[1]
		case 3:
			rows[i][1] = strings.SplitN(rows[i][1], "=", 2)[0] + "="
		case 4:
			rows[i][1] = strings.SplitN(rows[i][1], "=", 2)[0]
		case 5: // the digest of another member
			rows[i][1] = h.RecHash("sha384", []byte(w.Dist))
		}
		return nil
	}},
	{"digest in another case", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		p := strings.SplitN(rows[i][1], "=", 2)
		bs := []byte(p[1])
		for {
			k := t.Intn(len(bs))
			if c := bs[k]; ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') {
				bs[k] ^= 0x20
				break
			}
		}
		digest := string(bs)
		if t.P(0.3) {
			digest = strings.ToLower(p[1])
		}
		if digest == p[1] {
			digest = strings.ToUpper(p[1])
		}
		rows[i][1] = p[0] + "=" + digest
		return nil
	}},
	{"unprotected member listed without hash", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		name := t.Pick("RECORD", "pkg/RECORD", w.DistInfo()+"/sub/RECORD", w.DistInfo()+"/INSTALLER", w.DistInfo()+"/direct_url.json", w.DistInfo()+"/REQUESTED", "pkg/RECORD.jws", w.DistInfo()+"/xRECORD", w.DistInfo()+"/RECORD.txt", w.DistInfo()+"/RECORD.asc", w.DistInfo()+"/RECORD.JWS", w.DistInfo()+"/RECORD.p7",
			"evil.pyc", "pkg/__pycache__/evil.cpython-39.pyc", w.Dist+".data/scripts/RECORD", w.Dist+".data/purelib/"+w.DistInfo()+"/RECORDS", "pkg/"+w.DistInfo()+"/RECORD", w.DistInfo()+"/record")
		w.Members = append(w.Members, h.Member{Name: name, Body: []byte(t.Pick("", "evil")), Unix: 0o100644, Creator: 3, Time: time.Unix(1400000000, 0)})
		row := []string{name, "", ""}
		switch t.Intn(3) {
		case 0:
			row[2] = strconv.Itoa(len(w.Members[len(w.Members)-1].Body))
		case 1:
			row[1] = h.RecHash("sha256", w.Members[len(w.Members)-1].Body)
		}
		w.Rows = append(rows, row)
		return nil
	}},
	{"tail of a large member", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		// what RECORD says is true of the beginning of the member only
		n := []int{4096, 32768, 65536, 1 << 20, 1 << 21}[t.Intn(5)]
		m := member(w, rows[i][0])
		m.Body = append(bytes.Repeat([]byte("0123456789abcdef"), n/16), []byte("evil tail")...)
		rows[i][1] = h.RecHash("sha256", m.Body[:n])
		rows[i][2] = strconv.Itoa(n)
		switch t.Intn(3) {
		case 0:
			rows[i][2] = strconv.Itoa(len(m.Body))
		case 1:
			rows[i][1] = h.RecHash("sha256", m.Body)
		}
		return nil
	}},
	{"weak hash", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		body := member(w, rows[i][0]).Body
		m5, s1, s224 := md5.Sum(body), sha1.Sum(body), sha256.Sum224(body)
		rows[i][1] = t.Pick("md5="+b64(m5[:]), "sha1="+b64(s1[:]), "sha224="+b64(s224[:]), "md5="+hex.EncodeToString(m5[:]), "="+b64(m5[:]), b64(m5[:]), "crc32=AAAAAA", "none=")
		return nil
	}},
	{"member removed", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		for k, m := range w.Members {
			if m.Name == rows[i][0] {
				w.Members = append(append([]h.Member(nil), w.Members[:k]...), w.Members[k+1:]...)
				break
			}
		}
		return nil
	}},
	{"member replaced by a directory", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		m := member(w, rows[i][0])
		m.Name += "/"
		m.Unix = 0o40755
		m.Body = nil
		return nil
	}},
	{"extra member", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		w.Members = append(w.Members, h.Member{Name: t.Pick("evil.py", "pkg/evil.txt", w.Dist+".data/scripts/evil", w.DistInfo()+"/evil", w.DistInfo()+"/sub/RECORD", "RECORD", "RECORD.jws", "pkg/RECORD", "pkg/RECORD.p7s",
			w.DistInfo()+"/RECORD.jwsx", w.DistInfo()+"/RECORD.p7", w.DistInfo()+"/record", w.DistInfo()+"/RECORD ", w.DistInfo()+"/RECORD.bak", w.DistInfo()+"/RECORD.asc", w.DistInfo()+"/RECORD.sig", w.DistInfo()+"/RECORD.JWS", w.DistInfo()+"/RECORD.jws.p7s", w.DistInfo()+"/METADATA.jws", w.DistInfo()+"/x.p7s", w.DistInfo()+"/RECORD~", w.DistInfo()+"/RECORD.json", w.DistInfo()+"/sub/RECORD.jws", "evil.pyc", "pkg/__pycache__/x.cpython-39.pyc", w.DistInfo()+"/INSTALLER", w.DistInfo()+"/REQUESTED", w.DistInfo()+"/direct_url.json"),
			Body: []byte(t.Pick("", "evil")), Unix: 0o100644, Creator: 3, Time: time.Unix(1400000000, 0)})
		return nil
	}},
	{"extra member disguised as a directory by its mode", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		w.Members = append(w.Members, h.Member{Name: t.Pick("evil.py", w.Dist+".data/scripts/evil"), Body: []byte("evil"), Unix: []uint32{0o40755, 0o40644, 0o120777, 0o10644, 0o60644, 0o140755}[t.Intn(6)], Creator: []byte{0, 3}[t.Intn(2)], Time: time.Unix(1400000000, 0)})
		return nil
	}},
	{"tampered member disguised as a directory by its mode", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		m := member(w, rows[i][0])
		m.Body = flip(t, m.Body)
		m.Unix = 0o40755
		return nil
	}},
	{"duplicate member", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		m := *member(w, rows[i][0])
		m.Body = append([]byte("evil"), m.Body...)
		if t.P(0.5) {
			w.Members = append(w.Members, m)
		} else {
			w.Members = append([]h.Member{m}, w.Members...)
		}
		return nil
	}},
	{"duplicate member by another spelling", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		m := *member(w, rows[i][0])
		m.Body = append([]byte("evil"), m.Body...)
		switch t.Intn(4) {
		case 0:
			m.Name = "./" + m.Name
		case 1:
			m.Name = "zz/../" + m.Name
		case 2:
			m.Name = strings.Replace(m.Name, "/", "//", 1)
		case 3:
			m.Name = strings.Replace(m.Name, "/", "/./", 1)
		}
		if t.P(0.5) {
			w.Members = append(w.Members, m)
		} else {
			w.Members = append([]h.Member{m}, w.Members...)
		}
		return nil
	}},
	{"second metadata directory", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		w.Members = append(w.Members, h.Member{Name: t.Pick("other-2.dist-info/METADATA", "Demo-1.0.dist-info/WHEEL", "zz.dist-info/RECORD"), Body: []byte("x"), Unix: 0o100644, Creator: 3, Time: time.Unix(1400000000, 0)})
		w.Rows = nil
		return nil
	}},
	{"metadata directory renamed away", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		to := t.Pick("sub/"+w.DistInfo(), w.Dist+".egg-info", w.Dist+".dist-info2", w.Dist)
		for k := range w.Members {
			if strings.HasPrefix(w.Members[k].Name, w.DistInfo()+"/") {
				w.Members[k].Name = to + strings.TrimPrefix(w.Members[k].Name, w.DistInfo())
			}
		}
		w.RecordName = to + "/RECORD"
		w.Rows = w.GenRows()
		w.Rows[len(w.Rows)-1][0] = w.RecordName
		return nil
	}},
	{"no RECORD", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte { w.NoRecord = true; return nil }},
	{"RECORD elsewhere", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		w.RecordName = t.Pick("RECORD", w.DistInfo()+"/RECORD.txt", w.DistInfo()+"/x/RECORD", w.DistInfo()+"/record")
		return nil
	}},
	{"empty RECORD", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		w.RecordRaw = []byte(t.Pick("", "\n", w.DistInfo()+"/RECORD,,\n"))
		if len(w.RecordRaw) == 0 {
			w.RecordRaw = []byte{}
		}
		return nil
	}},
	{"malformed RECORD", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		raw := h.CSV(rows, "\n")
		switch t.Intn(5) {
		case 0:
			raw = append(raw, []byte("\"unterminated")...)
		case 1: // two columns
			rows[i] = rows[i][:2]
			raw = h.CSV(rows, "\n")
		case 2: // one column
			rows[i] = rows[i][:1]
			raw = h.CSV(rows, "\n")
		case 3:
			rows[i] = append(rows[i], "extra")
			raw = h.CSV(rows, "\n")
		case 4:
			for k := range rows {
				rows[k] = append(rows[k], "")
			}
			raw = h.CSV(rows, "\n")
		}
		w.RecordRaw = raw
		return nil
	}},
	{"row for a missing file", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		w.Rows = append(rows, []string{t.Pick("nothere.py", w.DistInfo()+"/none", "/etc/passwd", "../up", rows[i][0]+"x", strings.ToUpper(rows[i][0])+"_"), h.RecHash("sha256", nil), "0"})
		return nil
	}},
	{"contradicting second row", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		bad := []string{rows[i][0], h.RecHash("sha256", []byte("evil")), rows[i][2]}
		if t.P(0.5) {
			w.Rows = append(rows, bad)
		} else {
			w.Rows = append([][]string{bad}, rows...)
		}
		return nil
	}},
	{"hash column of another member", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		j := -1
		for k := range rows {
			if rows[k][1] != "" && rows[k][1] != rows[i][1] {
				j = k
			}
		}
		if j < 0 {
			rows[i][1] = h.RecHash("sha512", []byte("else"))
			return nil
		}
		rows[i][1], rows[j][1] = rows[j][1], rows[i][1]
		return nil
	}},
	{"two members swapped", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		m := member(w, rows[i][0])
		for k := range w.Members {
			o := &w.Members[k]
			if o != m && !o.IsDir() && !o.NoRow && !bytes.Equal(o.Body, m.Body) {
				o.Body, m.Body = m.Body, o.Body
				return nil
			}
		}
		m.Body = flip(t, m.Body)
		return nil
	}},
	{"compressed data damaged", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		// a stored member whose bytes are changed in the archive itself
		m := member(w, rows[i][0])
		marker := []byte(fmt.Sprintf("MARKER%d", t.Intn(1000000)))
		m.Body = marker
		m.Store = true
		w.Rows = nil
		bs := w.Bytes()
		k := bytes.Index(bs, marker)
		if k < 0 {
			h.Fatalf("marker not found")
		}
		bs[k+3] ^= 1
		return bs
	}},
	{"archive cut", func(t *h.T, w *h.Wheel, rows [][]string, i int) []byte {
		bs := w.Bytes()
		return bs[:t.Intn(len(bs))]
	}},
}

func expectRefused(t *h.T, bs []byte, what string) {
	plat := h.GenPlat(t)
	var rec []h.Compiled
	plat.PyCompile = h.FakeCompiler(&rec)
	es, err := t.Install(plat, bs, time.Time{}, time.Time{}, nil)
	if err == nil {
		t.Failf("installed although: %s (%d entries)", what, len(es))
	}
	t.Observe("tampered wheels refused", 1)
}

func main() {
	h.Main(h.Config{
		ID:          "C07",
		Rule:        "valid wheels are tampered with in one of 33 ways (contents, RECORD rows, hashes, duplicates, disguises, metadata directories, archive damage) or by random byte changes, and installed; the verdict on every archive comes from an independent reading of the archive; non-trivial: all tampered wheels",
		Require:     []string{"tampered wheels refused", "intact wheels installed", "random damage refused", "CLI refusals", "CLI installs", "large members installed", "large intact wheels", "large wheels refused"},
		Assumptions: []string{"a directory member with contents installs nothing, so it is not judged; differences in the spelling of sizes and algorithm names are not generated"},
	}, func(c *h.C) {
		gen := func(t *h.T) (*h.Wheel, [][]string, int) {
			w := h.GenWheel(t, h.WheelOpts{MaxFiles: 8})
			rows := w.GenRows()
			w.Rows = rows
			i := 0
			for {
				i = t.Intn(len(rows))
				if rows[i][1] != "" {
					break
				}
			}
			return w, rows, i
		}
		for _, tp := range tampers {
			tp := tp
			c.Group("tamper/"+tp.name, c.N(250, 5000), func(t *h.T) {
				w, rows, i := gen(t)
				bs := tp.fn(t, w, rows, i)
				if bs == nil {
					bs = w.Bytes()
				}
				t.Inputf(true, "%s\n%s", tp.name, w)
				if valid(bs) == nil {
					t.Observe("tamperings without effect", 1)
					return
				}
				t.State("tamper", tp.name)
				expectRefused(t, bs, tp.name+": "+valid(bs).Error())
			})
		}
		c.Group("intact", c.N(1500, 15000), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{})
			if t.P(0.02) {
				// a member that spans many read buffers
				w.Members = append(w.Members, h.Member{Name: "big.bin", Body: t.Bytes(1<<20 + t.Intn(3<<20)), Unix: 0o100644, Creator: 3, Time: time.Unix(1400000000, 0)})
				w.Rows = nil
				t.Observe("large members installed", 1)
			}
			t.Inputf(false, "%s", w)
			bs := w.Bytes()
			if err := valid(bs); err != nil {
				h.Fatalf("harness: generated wheel is not valid: %v\n%s", err, w)
			}
			plat := h.GenPlat(t)
			if _, conflict, _ := w.Place(plat); conflict != "" {
				return
			}
			plat.PyCompile = h.FakeCompiler(nil)
			if _, err := t.Install(plat, bs, time.Time{}, time.Time{}, nil); err != nil {
				t.Failf("an intact wheel was refused: %v", err)
			}
			t.Observe("intact wheels installed", 1)
		})
		c.Group("scale", c.N(90, 2000), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{MaxFiles: 4})
			kind := h.WheelScales[t.Intn(len(h.WheelScales))]
			k0 := len(w.Members)
			h.EnlargeWheel(t, w, kind)
			plat := h.GenPlat(t)
			if _, conflict, _ := w.Place(plat); conflict != "" {
				return
			}
			plat.PyCompile = h.FakeCompiler(nil)
			t.State("large", kind)
			t.Inputf(true, "%s", w)
			w.Rows = w.GenRows()
			if t.P(0.4) || k0 == len(w.Members) {
				bs := w.Bytes()
				if err := valid(bs); err != nil {
					h.Fatalf("harness: generated wheel is not valid: %v", err)
				}
				if _, err := t.Install(plat, bs, time.Time{}, time.Time{}, nil); err != nil {
					t.Failf("an intact large wheel was refused: %v", err)
				}
				t.Observe("large intact wheels", 1)
				return
			}
			// one byte, or the size, or the hash of one of the added members is not what RECORD says
			m := &w.Members[k0+t.Intn(len(w.Members)-k0)]
			at := len(m.Body) - 1
			if t.P(0.3) {
				at = t.Intn(len(m.Body))
			}
			switch t.Intn(4) {
			case 0, 1:
				b := append([]byte(nil), m.Body...)
				b[at] ^= 1 << t.Intn(8)
				m.Body = b
			case 2:
				m.Body = append(append([]byte(nil), m.Body...), '\n')
			case 3:
				m.Body = m.Body[:len(m.Body)-1]
			}
			bs := w.Bytes()
			if valid(bs) == nil {
				h.Fatalf("harness: damaged wheel is valid")
			}
			if _, err := t.Install(plat, bs, time.Time{}, time.Time{}, nil); err == nil {
				t.Failf("installed although %q (%d bytes) was changed at %d", m.Name, len(m.Body), at)
			}
			t.Observe("large wheels refused", 1)
		})
		c.Group("flips", c.N(12000, 200000), func(t *h.T) {
			w := h.GenWheel(t, h.WheelOpts{MaxFiles: 6})
			for k := range w.Members {
				w.Members[k].Store = true
			}
			bs := w.Bytes()
			n := 1 + t.Intn(3)
			for k := 0; k < n; k++ {
				bs[t.Intn(len(bs))] = byte(t.Intn(256))
			}
			t.Inputf(true, "random damage %x", bs)
			plat := h.GenPlat(t)
			plat.PyCompile = h.FakeCompiler(nil)
			_, err := t.Install(plat, bs, time.Time{}, time.Time{}, nil)
			v := valid(bs)
			if err == nil && v != nil {
				t.Failf("installed although %v", v)
			}
			if err != nil {
				t.Observe("random damage refused", 1)
			} else {
				t.Observe("harmless damage installed", 1)
			}
		})
		c.Group("cli", c.N(60, 500), func(t *h.T) {
			w, rows, i := gen(t)
			plat := h.GenPlat(t)
			yf := t.WriteFile("in/plat.yaml", h.PlatYAML(plat, []string{"true"}), 0o644)
			if t.P(0.15) {
				if _, conflict, _ := w.Place(plat); conflict != "" {
					return
				}
				t.Inputf(false, "%s", w)
				wf := t.WriteFile("in/demo-1.0-py3-none-any.whl", w.Bytes(), 0o644)
				r := t.CLI(h.Cmd{Args: []string{"layer", "wheel", "--platform-file", yf, wf}})
				if r.Code != 0 {
					t.Errorf("an intact wheel was refused: %s", r.Err)
				}
				t.Observe("CLI installs", 1)
				return
			}
			tp := tampers[t.Intn(len(tampers))]
			bs := tp.fn(t, w, rows, i)
			if bs == nil {
				bs = w.Bytes()
			}
			t.Inputf(true, "%s\n%s", tp.name, w)
			wf := t.WriteFile("in/demo-1.0-py3-none-any.whl", bs, 0o644)
			r := t.CLI(h.Cmd{Args: []string{"layer", "wheel", "--platform-file", yf, wf}})
			if r.Code == 0 || len(r.Out) > 0 {
				t.Errorf("%s: exit status %d and %d bytes of output", tp.name, r.Code, len(r.Out))
			}
			if len(bytes.TrimSpace(r.Err)) == 0 {
				t.Errorf("%s: nothing on stderr", tp.name)
			}
			t.Observe("CLI refusals", 1)
		})
	})
}
