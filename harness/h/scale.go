package h

import (
	"archive/tar"
	"fmt"
	"path"
	"strings"
	"time"
)

// BigSize picks a length around or beyond the sizes of buffers, pipes and limits.
func (t *T) BigSize() int {
	around := []int{1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20, 1 << 20, 1 << 21, 1 << 22, 1 << 23, 10000000, 1 << 24}
	n := around[t.Intn(len(around))]
	switch t.Intn(5) {
	case 0:
		n--
	case 1:
		n++
	case 2:
		n += t.Intn(n)
	}
	if t.P(0.25) {
		n = 1<<24 + 1 + t.Intn(1<<23)
	}
	if t.C.Thorough() && t.P(0.1) {
		n = 1<<26 + t.Intn(1<<26)
	}
	return n
}

// BigCount picks a number of things beyond the usual.
func (t *T) BigCount() int {
	n := []int{100, 128, 256, 300, 512, 1000, 1024, 2048, 4096}[t.Intn(9)] + t.Intn(40) - 20
	if t.C.Thorough() && t.P(0.1) {
		n += 10000
	}
	return n
}

// Stretch returns n bytes that are cheap to make, differ everywhere and compress somewhat.
func (t *T) Stretch(n int) []byte {
	b := make([]byte, n)
	seed := t.Bytes(997)
	for i := 0; i < n; i += len(seed) {
		copy(b[i:], seed)
		if i+4 < n {
			b[i], b[i+1], b[i+2] = byte(i>>8), byte(i>>16), byte(i)
		}
	}
	return b
}

// ScaleKinds are the ways in which a stack can be large.
var ScaleKinds = []string{"bodies", "entries", "layers", "depth", "names", "links"}

// GenScale makes a stack of layers that is large in one way.
func GenScale(t *T, kind string) [][]Entry {
	ent := func(typ byte, name, arg string) Entry {
		e := Entry{Hdr: tar.Header{Typeflag: typ, Name: name, Mode: 0o644, ModTime: time.Unix(int64(1000+t.Intn(1000000)), 0), Uid: t.Intn(3), Gid: t.Intn(3)}}
		switch typ {
		case tar.TypeSymlink, tar.TypeLink:
			e.Hdr.Linkname = arg
		case tar.TypeReg:
			e.Body = []byte(arg)
			e.Hdr.Size = int64(len(arg))
		case tar.TypeDir:
			e.Hdr.Mode = 0o755
		}
		return e
	}
	big := func(name string) Entry {
		e := ent('0', name, "")
		e.Body = t.Stretch(t.BigSize())
		e.Hdr.Size = int64(len(e.Body))
		return e
	}
	var stack [][]Entry
	switch kind {
	case "bodies":
		stack = [][]Entry{
			{ent('5', "d/", ""), big("d/one"), ent('1', "d/uno", "d/one"), ent('0', "small", "s"), ent('2', "l", "d/one")},
			{big("d/two")},
		}
		// Several big ones after each other, of about the same size; a reader may well be tempted to
		// reuse something from one for the next.
		for i := range stack {
			for k, n := 0, t.Intn(5); k < n; k++ {
				e := ent('0', fmt.Sprintf("%s%d-%d", t.Pick("big", "d/big", "z"), i, k), "")
				e.Body = t.Stretch(1<<(16+t.Intn(5)) + t.Intn(1<<19))
				e.Hdr.Size = int64(len(e.Body))
				stack[i] = append(stack[i], e)
			}
		}
		if t.P(0.5) {
			stack = append(stack, []Entry{big("d/one")}, []Entry{ent('0', "d/.wh.two", ""), ent('0', "after", "a")})
		}
	case "entries":
		n := t.BigCount()
		dirs := []string{"usr/lib", "a", "a/b/c", ""}
		k := 1 + t.Intn(len(dirs))
		var es, more []Entry
		for i := 0; i < n; i++ {
			name := path.Join(dirs[t.Intn(k)], fmt.Sprintf("%s%d", t.Pick("f", "f", "F", "-"), i))
			switch {
			case t.P(0.05):
				es = append(es, ent('5', name, ""))
			case t.P(0.05):
				es = append(es, ent('2', name, "/a"))
			default:
				es = append(es, ent('0', name, fmt.Sprint("body ", i)))
			}
			switch {
			case t.P(0.2):
				more = append(more, ent('0', path.Join(path.Dir(name), ".wh."+path.Base(name)), ""))
			case t.P(0.2):
				more = append(more, ent('0', name, fmt.Sprint("other ", i)))
			}
		}
		t.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		t.Shuffle(len(more), func(i, j int) { more[i], more[j] = more[j], more[i] })
		stack = [][]Entry{es, more}
		if t.P(0.3) {
			stack = append(stack, []Entry{ent('0', "a/.wh..wh..opq", ""), ent('0', "a/new", "n")})
		}
	case "layers":
		n := 10 + t.Intn(150)
		for i := 0; i < n; i++ {
			var es []Entry
			for j := 0; j <= t.Intn(3); j++ {
				name := path.Join(t.Pick("", "d", "d/e", "s"), t.Pick("x", "y", "z", fmt.Sprint("n", i)))
				switch t.Intn(6) {
				case 0:
					name = path.Join(path.Dir(name), ".wh."+path.Base(name))
					es = append(es, ent('0', name, ""))
				case 1:
					es = append(es, ent('5', name+"/", ""))
				default:
					es = append(es, ent('0', name, fmt.Sprint("layer ", i)))
				}
			}
			if i == n/3 {
				es = append(es, ent('2', "lnk", "d"))
			}
			if i == n/2 {
				es = append(es, ent('0', "d/.wh..wh..opq", ""))
			}
			stack = append(stack, es)
		}
	case "depth":
		n := 30 + t.Intn(900)
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, t.Pick("a", "b", "c"))
		}
		at := func() string { return strings.Join(parts[:1+t.Intn(n)], "/") }
		full := strings.Join(parts, "/")
		stack = [][]Entry{{ent('0', full+"/f", "F"), ent('5', at()+"/", ""), ent('0', at()+"/g", "G"), ent('1', at()+"/h", full+"/f"), ent('2', "top", "/"+full)},
			{ent('0', at()+"/x", "X"), ent('0', "top/via", "V")}}
		switch t.Intn(3) {
		case 0:
			stack = append(stack, []Entry{ent('0', strings.Join(parts[:n/2], "/")+"/.wh."+parts[n/2], ""), ent('0', "top2", "t")})
		case 1:
			stack = append(stack, []Entry{ent('0', strings.Join(parts[:n/2], "/")+"/.wh..wh..opq", ""), ent('0', full+"/f", "again")})
		}
	case "names":
		long := func() string { return strings.Repeat(t.Pick("n", "é", "0"), 40+t.Intn(86)) + fmt.Sprint(t.Intn(10)) }
		var es, more []Entry
		for i := 0; i < 12; i++ {
			name := long()
			for j := t.Intn(12); j > 0; j-- {
				name += "/" + long()
			}
			name += fmt.Sprint("/", i)
			es = append(es, ent('0', name, fmt.Sprint("long ", i)))
			if t.P(0.3) {
				es = append(es, ent('1', fmt.Sprint("h", i), name))
			}
			if t.P(0.3) {
				es = append(es, ent('2', fmt.Sprint("s", i), name))
			}
			if t.P(0.3) {
				more = append(more, ent('0', path.Join(path.Dir(name), ".wh."+path.Base(name)), ""))
			}
			if t.P(0.3) {
				more = append(more, ent('0', path.Dir(name)+"/extra", "e"))
			}
		}
		stack = [][]Entry{es, more}
	case "links":
		// many names of one file, and many symlinks into one directory
		n := t.BigCount() / 4
		es := []Entry{ent('0', "m/file", "the file"), ent('5', "t/", "")}
		for i := 0; i < n; i++ {
			l := ent('1', fmt.Sprintf("%s/h%d", t.Pick("a", "m", "z"), i), "m/file")
			l.Hdr.ModTime, l.Hdr.Uid, l.Hdr.Gid = es[0].Hdr.ModTime, es[0].Hdr.Uid, es[0].Hdr.Gid
			es = append(es, l)
		}
		for i := 0; i < 50; i++ {
			es = append(es, ent('2', fmt.Sprint("s", i), "t"))
		}
		var more []Entry
		for i := 0; i < 50; i++ {
			more = append(more, ent('0', fmt.Sprintf("s%d/f%d", i, i), fmt.Sprint("via ", i)))
		}
		stack = [][]Entry{es, more}
		if t.P(0.5) {
			stack = append(stack, []Entry{ent('0', "m/.wh.file", "")})
		}
	}
	return stack
}

// WheelScales are the ways in which a wheel can be large.
var WheelScales = []string{"members", "script", "source", "many", "deep", "tags", "long"}

// EnlargeWheel makes a wheel large in one way.
func EnlargeWheel(t *T, w *Wheel, kind string) {
	data := w.Dist + ".data/"
	add := func(name string, body []byte, mode uint32) {
		w.Members = append(w.Members, Member{Name: name, Body: body, Unix: 0o100000 | mode, Creator: 3, Time: time.Unix(1400000000+2*int64(t.Intn(100000000)), 0), Store: t.P(0.2), Algo: t.Pick("", "sha384", "sha512")})
	}
	switch kind {
	case "members":
		add("zbig/one.bin", t.Stretch(t.BigSize()), 0o644)
		add(data+t.Pick("data", "headers", "purelib", "platlib", "scripts")+"/zbig/two.so", t.Stretch(t.BigSize()), 0o755)
	case "script":
		add(data+"scripts/zbig", append([]byte(t.Pick("#!python\n", "#!pythonw -E\n", "#!python\r\n")), t.Stretch(t.BigSize())...), 0o644)
		add(data+"scripts/zplain", append([]byte("#!/bin/sh\n"), t.Stretch(t.BigSize())...), 0o755)
	case "source":
		n := t.BigSize() % (1 << 21)
		b := []byte("X = 1\n" + strings.Repeat("# filler filler filler\n", n/23) + fmt.Sprintf("Y = %d\n", t.Intn(1000)))
		add("zbig/mod.py", b, 0o644)
		add(data+"purelib/zbig2.py", b[:len(b)/2], 0o755)
	case "many":
		n := t.BigCount()
		for i := 0; i < n; i++ {
			add(fmt.Sprintf("%szm%d/f%d%s", t.Pick("", "", data+"data/", data+"purelib/", data+"headers/", data+"scripts/"), i%7, i, t.Pick(".txt", ".so", "", ".json", ".py")), []byte(fmt.Sprintf("X = %d\n", i)), 0o644)
		}
	case "deep":
		var ps []string
		n := 30 + t.Intn(200)
		for i := 0; i < n; i++ {
			ps = append(ps, t.Pick("a", "b", "zz"))
			if t.P(0.1) {
				add("zd/"+strings.Join(ps, "/")+fmt.Sprintf("/f%d", i), []byte("x"), 0o644)
			}
		}
		add("zd/"+strings.Join(ps, "/")+"/m.py", []byte("X = 1\n"), 0o644)
		add(data+"data/zd/"+strings.Join(ps, "/")+"/d", []byte("D"), 0o600)
	case "tags":
		for i := range w.Members {
			m := &w.Members[i]
			if m.Name == w.DistInfo()+"/WHEEL" {
				// before and after the lines that count
				eol := "\n"
				if strings.Contains(string(m.Body), "\r\n") {
					eol = "\r\n"
				}
				pad := ""
				for k := t.BigCount(); k > 0; k-- {
					pad += fmt.Sprintf("Tag: cp%d-none-any", k) + eol
				}
				m.Body = []byte(pad + string(m.Body))
			}
		}
	case "long":
		for i := 0; i < 5; i++ {
			add(fmt.Sprintf("%szl%d/%s", t.Pick("", data+"data/", data+"purelib/"), i, strings.Repeat(t.Pick("n", "é", ","), 20+t.Intn(100))+fmt.Sprint(i)), []byte("long"), 0o644)
		}
		add("zl/entry.txt", []byte(strings.Repeat("x", 1<<16+t.Intn(1000))), 0o644)
	}
	w.Rows = nil
}
