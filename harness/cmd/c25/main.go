// C25: command-line misuse is diagnosed and help text loses nothing.
package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/spf13/cobra"

	"github.com/datawire/ocibuild/pkg/cliutil"

	"verif/h"
)

// -------------------------------------------------------------------------------------------------
// wrapping

func text(t *h.T) string {
	var b strings.Builder
	n := t.Intn(60)
	for i := 0; i < n; i++ {
		switch r := t.Float64(); {
		case r < 0.75:
			k := 1 + t.Intn(12)
			b.WriteString(strings.Repeat(string(rune('a'+t.Intn(26))), k))
		case r < 0.8:
			b.WriteString(t.Pick("é", "日本語", "naïve", "—", "`x`", "--flag=VALUE", "a\u00a0b", "\x80bad"))
		case r < 0.84:
			b.WriteString(strings.Repeat("W", 20+t.Intn(150)))
		case r < 0.86:
			b.WriteString("")
		default:
			b.WriteString(t.Pick("I", "of", "x.", "(y)"))
		}
		switch r := t.Float64(); {
		case r < 0.75:
			b.WriteString(" ")
		case r < 0.8:
			b.WriteString("  ")
		case r < 0.87:
			b.WriteString("\n")
		case r < 0.93:
			b.WriteString("\n\n")
		case r < 0.97:
			b.WriteString("\n    ")
		case r < 0.98:
			b.WriteString("\t")
		default:
			b.WriteString(strings.Repeat(" ", t.Intn(30)))
		}
	}
	s := b.String()
	if t.P(0.04) {
		s = strings.ReplaceAll(s, " ", "\t") // (a tab is counted as one column, which is the least it can take)
	}
	if t.P(0.3) {
		s = strings.TrimSpace(s)
	}
	if t.P(0.05) {
		s = t.Pick(" ", "\n", "\n\n", "    ") + s
	}
	return s
}

// words splits at the whitespace that wrapping may touch.
func words(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\t' || r == '\n' })
}

func wrapping(t *h.T) {
	s := text(t)
	i, w := 0, 0
	switch t.Intn(6) {
	case 0:
		w = 0
	case 1:
		w = t.Intn(60)
	case 2:
		w = []int{80, 79, 81, 100, 132, 40, 24, 29, 30}[t.Intn(9)]
	default:
		w = 24 + t.Intn(140)
	}
	if t.P(0.02) {
		w = -t.Intn(100)
	}
	if t.P(0.5) {
		i = t.Intn(50)
	}
	t.Inputf(len(s) > 30, "i=%d w=%d %q", i, w, s)
	var out string
	if i == 0 {
		out = cliutil.Wrap(w, s)
		if o2 := cliutil.WrapIndent(0, w, s); o2 != out {
			t.Errorf("Wrap(%d) and WrapIndent(0, %d) differ on %q", w, w, s)
		}
	} else {
		out = cliutil.WrapIndent(i, w, s)
	}
	t.Observe("texts_wrapped", 1)
	if a, b := words(s), words(out); !reflect.DeepEqual(a, b) && len(a)+len(b) > 0 {
		t.Failf("wrapping (i=%d w=%d) changed the words of %q:\n%q", i, w, s, out)
	}
	if w == 0 {
		ownLines(t, s, out, i, 1<<30)
	}
	if w < 24 {
		return
	}
	if w-i < 24 && w-16 < 24 {
		return // documented: no room, not wrapped
	}
	for k, l := range strings.Split(out, "\n") {
		width := w
		if k == 0 && !(w-i < 24) {
			width = w - i
		}
		if utf8.RuneCountInString(l) > width && len(words(l)) > 1 {
			t.Failf("wrapping (i=%d w=%d) gave line %d of %d columns %q for %q:\n%s", i, w, k, utf8.RuneCountInString(l), l, s, out)
		}
		t.Observe("lines_measured", 1)
	}
	if strings.Count(out, "\n") > strings.Count(s, "\n") {
		t.Observe("texts_broken", 1)
	}
	if w-i < 24 {
		i = 16 // documented: as a block of its own
	}
	ownLines(t, s, out, i, w-i)
}

type token struct {
	word   string
	breaks int    // line breaks before it
	indent string // what precedes it on the line, if it is the first there
}

func tokens(s string) []token {
	var ret []token
	breaks := 0
	for k, l := range strings.Split(s, "\n") {
		if k > 0 {
			breaks++
		}
		for _, w := range words(l) {
			ret = append(ret, token{word: w, breaks: breaks, indent: l[:strings.Index(l, w)]})
			breaks = 0
		}
	}
	return ret
}

// ownLines checks that the text's own line breaks and the indentation after them survive being wrapped
// to columns, behind an indent of i.
func ownLines(t *h.T, s, out string, i, columns int) {
	src, got := tokens(s), tokens(out)
	for k, tok := range src {
		if tok.breaks == 0 || k == 0 {
			continue
		}
		if got[k].breaks < tok.breaks {
			t.Failf("wrapping (i=%d columns=%d) turned %d line breaks in front of %q in to %d in %q:\n%s", i, columns, tok.breaks, tok.word, got[k].breaks, s, out)
		}
		if len(tok.indent)+len(tok.word)+6 > columns {
			continue // doesn't fit
		}
		if want := strings.Repeat(" ", i) + tok.indent; got[k].indent != want {
			t.Failf("wrapping (i=%d columns=%d) turned the indentation %q in front of %q in to %q in %q:\n%s", i, columns, tok.indent, tok.word, got[k].indent, s, out)
		}
		t.Observe("own_lines", 1)
		if tok.indent != "" {
			t.Observe("own_indents", 1)
		}
	}
}

// -------------------------------------------------------------------------------------------------
// the help template, with commands of all shapes

func sentence(t *h.T, n int) string {
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, t.Pick("alpha", "beta", "gamma", "delta", "x", "quite-long-word-here", "é", "of", "the"))
	}
	return strings.Join(ws, " ")
}

func subseq(hay, needle []string) bool {
	for i := 0; i+len(needle) <= len(hay); i++ {
		if reflect.DeepEqual(hay[i:i+len(needle)], needle) {
			return true
		}
	}
	return false
}

func template(t *h.T) {
	cols := []int{0, 80, 40, 60, 100, 132, 24, 20, 200}[t.Intn(9)]
	_ = os.Setenv("COLUMNS", fmt.Sprint(cols))
	var root *cobra.Command
	parent := &cobra.Command{Use: "top {[flags]|SUBCOMMAND...}", Short: "Top"}
	root = parent
	root.SetHelpTemplate(cliutil.HelpTemplate)
	run := func(*cobra.Command, []string) error { return nil }
	cmd := &cobra.Command{Use: "mid [flags] ARGS", RunE: run}
	if t.P(0.15) {
		cmd.RunE = nil
	}
	var descr []string
	type flag struct{ long, short, usage string }
	var flags []flag
	names := []string{"output", "base", "config.Env.append", "v", "very-long-flag-name-that-takes-much-room", "x-1", "Upper", "tag"}
	shorts := []string{"o", "b", "e", "", "", "x", "U", ""}
	perm := t.Perm(len(names))
	nf := t.Intn(6)
	npf := t.Intn(3)
	for k := 0; k < nf+npf; k++ {
		n, s := names[perm[k]], shorts[perm[k]]
		fs := cmd.Flags()
		where := "local"
		if k >= nf {
			fs = parent.PersistentFlags()
			where = "inherited"
		} else if t.P(0.2) {
			fs = cmd.PersistentFlags()
			where = "persistent"
		}
		u := sentence(t, t.Intn(25))
		switch t.Intn(4) {
		case 0:
			fs.StringP(n, s, t.Pick("", "dflt"), u)
		case 1:
			fs.BoolP(n, s, false, u)
		case 2:
			fs.IntP(n, s, t.Intn(3)-1, u)
		case 3:
			fs.StringArrayP(n, s, nil, u)
		}
		if t.P(0.1) {
			_ = fs.MarkHidden(n)
			continue
		}
		flags = append(flags, flag{n, s, u})
		descr = append(descr, where+" --"+n)
	}
	if t.P(0.7) {
		cmd.Short = sentence(t, 1+t.Intn(14))
	}
	if t.P(0.6) {
		cmd.Long = sentence(t, 1+t.Intn(40))
		if t.P(0.5) {
			cmd.Long += "\n\n" + sentence(t, 1+t.Intn(30)) + "\n\n    code line\n    other code"
		}
	}
	if t.P(0.2) {
		cmd.Aliases = []string{"mm", "middle"}
	}
	if t.P(0.2) {
		cmd.Example = "  mid --thing other\n  mid two"
	}
	var subs []*cobra.Command
	for k, n := 0, t.Intn(5); k < n && t.P(0.8); k++ {
		c := &cobra.Command{Use: []string{"sub-a", "b", "a-really-long-subcommand-name", "help2", "zed"}[k] + " X", Short: sentence(t, t.Intn(20)), RunE: run}
		kind := "cmd"
		switch r := t.Float64(); {
		case r < 0.1:
			c.Hidden = true
			kind = "hidden"
		case r < 0.2:
			c.Deprecated = "old"
			kind = "deprecated"
		case r < 0.3:
			c.RunE = nil
			kind = "topic"
		}
		descr = append(descr, kind+" "+c.Name())
		cmd.AddCommand(c)
		if kind == "cmd" || kind == "topic" {
			subs = append(subs, c)
		}
	}
	if t.P(0.5) {
		parent.AddCommand(cmd)
	} else if npf > 0 {
		// persistent flags of a command that is its own root
		parent.AddCommand(cmd)
	} else {
		root = cmd
		root.SetHelpTemplate(cliutil.HelpTemplate)
		// a root gets no parent
	}
	t.Inputf(true, "cols=%d short=%q long=%q %v", cols, cmd.Short, cmd.Long, descr)
	var out, errb bytes.Buffer
	cmd.SetOut(&out)
	cmd.SetErr(&errb)
	if err := cmd.Help(); err != nil {
		t.Failf("help: %v", err)
	}
	t.Observe("help_rendered", 1)
	if errb.Len() > 0 {
		t.Errorf("help wrote %q to stderr", errb.String())
	}
	o := out.String()
	ws := strings.Fields(o)
	has := func(w string) bool {
		for _, x := range ws {
			if x == w {
				return true
			}
		}
		return false
	}
	for _, f := range flags {
		if !has("--" + f.long) {
			t.Errorf("help does not mention --%s\n%s", f.long, o)
		}
		if f.short != "" && !has("-"+f.short+",") {
			t.Errorf("help does not mention -%s\n%s", f.short, o)
		}
		if !subseq(ws, strings.Fields(f.usage)) {
			t.Errorf("help does not hold the description of --%s, %q\n%s", f.long, f.usage, o)
		}
		t.Observe("help_flags", 1)
	}
	for _, c := range subs {
		n := c.Name()
		if !c.IsAvailableCommand() {
			n = c.Name() // a topic is listed with its whole path
		}
		if !has(n) {
			t.Errorf("help does not mention the subcommand %q\n%s", n, o)
		}
		if !subseq(ws, append([]string{n}, strings.Fields(c.Short)...)) {
			t.Errorf("help does not hold the description of %q, %q\n%s", n, c.Short, o)
		}
		t.Observe("help_subcommands", 1)
	}
	if cmd.Long != "" && !subseq(ws, strings.Fields(cmd.Long)) {
		t.Errorf("help does not hold the long description %q\n%s", cmd.Long, o)
	}
	if cmd.Short != "" && !subseq(ws, strings.Fields(cmd.Short)) {
		t.Errorf("help does not hold the short description %q\n%s", cmd.Short, o)
	}
	if cmd.Example != "" && !subseq(ws, strings.Fields(cmd.Example)) {
		t.Errorf("help does not hold the examples\n%s", o)
	}
	for _, a := range cmd.Aliases {
		if !has(a) && !has(a+",") {
			t.Errorf("help does not mention the alias %q\n%s", a, o)
		}
	}
	if !subseq(ws, strings.Fields(cmd.UseLine())) {
		t.Errorf("help does not hold the usage line %q\n%s", cmd.UseLine(), o)
	}
}

// -------------------------------------------------------------------------------------------------
// the program

type flagSpec struct{ name, short, val, bad string } // bad: a malformed value, "" if none

type command struct {
	path     []string
	min, max int // positional arguments; max -1: any
	flags    []flagSpec
	subs     []string
}

var commands = []command{
	{path: nil, subs: []string{"image", "layer", "python", "help"}},
	{path: []string{"image"}, subs: []string{"build"}},
	{path: []string{"layer"}, subs: []string{"dir", "gobuild", "squash", "wheel"}},
	{path: []string{"python"}, subs: []string{"getwheel", "inspect"}},
	{path: []string{"image", "build"}, min: 1, max: -1, flags: []flagSpec{
		{"base", "", "IMG", ""}, {"tag", "t", "a/b:c", ""}, {"config.Cmd", "c", "x", ""}, {"config.Entrypoint", "", "x", ""},
		{"config.Env.append", "e", "A=B", ""}, {"config.Env.clear", "E", "", "maybe"}, {"config.WorkingDir", "w", "/w", ""},
	}},
	{path: []string{"layer", "dir"}, min: 1, max: 1, flags: []flagSpec{
		{"prefix", "", "p", ""}, {"prefix-uid", "", "5", "x"}, {"prefix-gid", "", "5", "1.5"}, {"prefix-uname", "", "u", ""}, {"prefix-gname", "", "g", ""},
		{"chown-uid", "", "5", "0x"}, {"chown-gid", "", "5", "99999999999999999999"}, {"chown-uname", "", "u", ""}, {"chown-gname", "", "g", ""},
	}},
	{path: []string{"layer", "gobuild"}, min: 1, max: -1, flags: []flagSpec{{"output", "o", "OUT", ""}}},
	{path: []string{"layer", "squash"}, min: 2, max: -1},
	{path: []string{"layer", "wheel"}, min: 1, max: 1, flags: []flagSpec{{"platform-file", "", "PLAT", ""}}},
	{path: []string{"python", "getwheel"}, min: 1, max: 1, flags: []flagSpec{{"index-server", "", "URL", ""}}},
	{path: []string{"python", "inspect"}, min: 0, max: 0, flags: []flagSpec{{"interpreter", "", "python3", ""}, {"imagefile", "", "IMG", ""}}},
}

// world is an environment in which every command would work, and that notices if one does.
type world struct {
	dir, bin, ran, out, sentinel string
	layer, layer2, img, plat     string
	whl, src                     string
	ln                           net.Listener
	hits                         chan struct{}
}

func newWorld(t *h.T) *world {
	d := t.Scratch()
	w := &world{dir: d, bin: d + "/bin", ran: d + "/ran", out: d + "/out.tar", hits: make(chan struct{}, 1000)}
	for _, tool := range []string{"go", "docker", "python3", "python", "python3.9"} {
		t.WriteFile(w.bin+"/"+tool, []byte("#!/bin/sh\necho \"$0 $*\" >>'"+w.ran+"'\n"), 0o755)
	}
	e := h.Entry{Body: []byte("x")}
	e.Hdr.Typeflag, e.Hdr.Name, e.Hdr.Mode, e.Hdr.ModTime = '0', "f", 0o644, time.Unix(1e9, 0)
	bs, _ := h.TarBytes([]h.Entry{e})
	w.layer = t.WriteFile("a.tar", bs, 0o644)
	w.layer2 = t.WriteFile("b.tar", bs, 0o644)
	im := h.Image{Config: map[string]interface{}{"architecture": "amd64", "os": "linux"}, Layers: [][]byte{bs}}
	w.img = t.WriteFile("img.tar", im.Tar(false), 0o644)
	wh := h.GenWheel(t, h.WheelOpts{NoExotic: true, NoPy: true})
	w.whl = t.WriteFile("demo-1.0-py3-none-any.whl", wh.Bytes(), 0o644)
	w.plat = t.WriteFile("plat.yml", h.PlatYAML(h.GenPlat(t), []string{w.bin + "/python3"}), 0o644)
	w.src = filepath.Dir(t.WriteFile("tree/f", []byte("x"), 0o644))
	t.WriteFile(w.out, []byte("old output"), 0o644)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		h.Fatalf("%v", err)
	}
	w.ln = ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			w.hits <- struct{}{}
			_ = c.Close()
		}
	}()
	return w
}

func (w *world) val(f flagSpec) string {
	switch f.val {
	case "IMG":
		return w.img
	case "OUT":
		return w.out
	case "PLAT":
		return w.plat
	case "URL":
		return "http://" + w.ln.Addr().String() + "/simple/"
	}
	return f.val
}

// arg gives the nth positional argument that would work.
func (w *world) arg(c command, n int) string {
	switch strings.Join(c.path, " ") {
	case "image build", "layer squash":
		return []string{w.layer, w.layer2}[n%2]
	case "layer dir":
		return w.src
	case "layer gobuild":
		return "./cmd"
	case "layer wheel":
		return w.whl
	case "python getwheel":
		return "demo-1.0-py3-none-any.whl"
	}
	return "x"
}

func (w *world) run(t *h.T, args []string, env ...string) h.Result {
	return t.CLI(h.Cmd{Args: args, Env: append([]string{"PATH=" + w.bin + ":/usr/bin:/bin"}, env...)})
}

// untouched verifies that nothing was done.
func (w *world) untouched(t *h.T, args []string, r h.Result) {
	if bs, err := os.ReadFile(w.ran); err == nil {
		t.Errorf("%q ran %s", args, bs)
		_ = os.Remove(w.ran)
	}
	if bs, _ := os.ReadFile(w.out); string(bs) != "old output" {
		t.Errorf("%q wrote its output file", args)
	}
	select {
	case <-w.hits:
		t.Errorf("%q used the network", args)
	default:
	}
	if len(r.Left) > 0 {
		t.Errorf("%q left %q", args, r.Left)
	}
}

func (w *world) close() { _ = w.ln.Close() }

// good gives a correct command line: path, flags and arguments.
func (w *world) good(t *h.T, c command) (flags, pos []string) {
	for _, f := range c.flags {
		must := f.name == "platform-file" || f.name == "output" || f.name == "index-server"
		if !must && !t.P(0.3) {
			continue
		}
		flags = append(flags, w.flag(t, f)...)
	}
	n := c.min
	if c.max < 0 {
		n += t.Intn(2)
	}
	for i := 0; i < n; i++ {
		pos = append(pos, w.arg(c, i))
	}
	return
}

func (w *world) flag(t *h.T, f flagSpec) []string {
	v := w.val(f)
	if v == "" {
		return []string{t.Pick("--"+f.name, "--"+f.name+"=true")}
	}
	if f.short != "" && t.P(0.5) {
		switch t.Intn(3) {
		case 0:
			return []string{"-" + f.short, v}
		case 1:
			return []string{"-" + f.short + v}
		}
		return []string{"-" + f.short + "=" + v}
	}
	if t.P(0.5) {
		return []string{"--" + f.name, v}
	}
	return []string{"--" + f.name + "=" + v}
}

func misused(t *h.T, w *world, args []string, what string, r h.Result, cmdPath []string) {
	t.State("misuse", what)
	t.Observe("misuses", 1)
	if r.Code != 2 {
		t.Errorf("%s: %q exits with status %d %s, want 2\nstderr: %s", what, args, r.Code, r.Signal, r.Err)
	}
	if len(r.Out) > 0 {
		t.Errorf("%s: %q writes %q to stdout", what, args, r.Out)
	}
	e := string(r.Err)
	if !strings.Contains(e, "--help") {
		t.Errorf("%s: %q does not say how to get help: %q", what, args, e)
	}
	if strings.Contains(e, "panic:") || strings.Contains(e, "goroutine ") {
		t.Errorf("%s: %q crashed: %s", what, args, e)
	}
	if len(strings.TrimSpace(e)) < 20 {
		t.Errorf("%s: %q is not explained: %q", what, args, e)
	}
	w.untouched(t, args, r)
}

func misuse(t *h.T) {
	w := newWorld(t)
	defer w.close()
	c := commands[t.Intn(len(commands))]
	leaf := len(c.subs) == 0
	var args []string
	var what, named string
	flags, pos := w.good(t, c)
	insert := func(xs []string, x ...string) []string {
		k := t.Intn(len(xs) + 1)
		return append(append(append([]string(nil), xs[:k]...), x...), xs[k:]...)
	}
	// flags with separate values have to stay together
	join := func() []string {
		if t.P(0.5) {
			return append(append([]string(nil), flags...), pos...)
		}
		return append(append([]string(nil), pos...), flags...)
	}
	k := t.Intn(5)
	if !leaf {
		k = t.Intn(4)
	}
	switch {
	case k == 0: // unknown flag
		bogus := t.Pick("--bogus", "--bogus=1", "--Help", "--prefixx=1", "-Z", "-Zx", "--no-such-flag", "--version", "-q")
		for _, f := range c.flags {
			if t.P(0.2) {
				bogus = t.Pick("--"+f.name+"s", "--"+f.name[:len(f.name)-1]+"_", "--"+strings.ToUpper(f.name))
			}
		}
		named = strings.TrimLeft(strings.SplitN(bogus, "=", 2)[0], "-")[:1]
		what = "unknown flag"
		if leaf {
			if t.P(0.3) {
				args = append(append(append(append([]string(nil), flags...), pos...), bogus), c.path...)
				args = append(append([]string(nil), c.path...), append(append(append([]string(nil), flags...), pos...), bogus)...)
			} else if t.P(0.5) {
				args = append(append(append([]string(nil), c.path...), bogus), join()...)
			} else {
				args = append(append([]string(nil), c.path...), append(append(append([]string(nil), pos...), bogus), flags...)...)
			}
		} else {
			args = append(append([]string(nil), c.path...), bogus)
		}
	case !leaf && k <= 2: // unknown subcommand
		sub := t.Pick("bogus", "dirr", "Layer", "lay", "images", "pyhton", "", " ", "squash2", "x/y", "gobild", "helpp")
		for _, s := range c.subs {
			if sub == s {
				sub += "x"
			}
			if t.P(0.2) {
				sub = t.Pick(s+"s", s[1:], strings.ToUpper(s), s+" ")
			}
		}
		named = strings.TrimSpace(sub)
		what = "unknown subcommand"
		args = append(append([]string(nil), c.path...), sub)
		if t.P(0.4) {
			args = append(args, t.Pick("x", w.layer, w.src))
		}
	case !leaf: // missing subcommand
		what = "missing subcommand"
		args = append([]string(nil), c.path...)
		if t.P(0.2) {
			args = append(args, "--")
		}
	case k <= 2: // wrong number of arguments
		var n int
		if c.max >= 0 && (c.min == 0 || t.P(0.5)) {
			n = c.max + 1 + t.Intn(3)
			what = "too many arguments"
		} else {
			n = t.Intn(c.min)
			what = "too few arguments"
		}
		pos = nil
		for i := 0; i < n; i++ {
			pos = append(pos, w.arg(c, i))
		}
		args = append(append([]string(nil), c.path...), join()...)
		if t.P(0.15) {
			args = append(append(append(append([]string(nil), c.path...), flags...), "--"), pos...)
		}
	case k == 3: // malformed value
		for _, f := range c.flags {
			if f.bad != "" && t.P(0.4) {
				what, named = "malformed value", f.name
				args = append(append([]string(nil), c.path...), insert(append(append([]string(nil), flags...), pos...)[:0], "--"+f.name+"="+f.bad)...)
				args = append(args, join()...)
				break
			}
		}
	case k == 4: // missing value
		for _, f := range c.flags {
			if f.val != "" && t.P(0.4) {
				what, named = "missing value", f.name
				if f.short != "" && t.P(0.5) {
					named = f.short
					args = append(append([]string(nil), c.path...), append(join(), "-"+f.short)...)
				} else {
					args = append(append([]string(nil), c.path...), append(join(), "--"+f.name)...)
				}
				break
			}
		}
	}
	if what == "" {
		return
	}
	t.Inputf(true, "%s %q", what, strings.ReplaceAll(fmt.Sprintf("%q", args), w.dir, "$D"))
	r := w.run(t, args)
	misused(t, w, args, what, r, c.path)
	if named != "" && !strings.Contains(string(r.Err), named) {
		t.Errorf("%s: %q: the message does not name %q: %q", what, args, named, r.Err)
	}
}

// positive control: the same generator without the mistake is not rejected as misuse.
func control(t *h.T) {
	w := newWorld(t)
	defer w.close()
	var leafs []command
	for _, c := range commands {
		if len(c.subs) == 0 {
			leafs = append(leafs, c)
		}
	}
	c := leafs[t.Intn(len(leafs))]
	flags, pos := w.good(t, c)
	args := append(append(append([]string(nil), c.path...), flags...), pos...)
	t.Inputf(true, "control %q", strings.ReplaceAll(fmt.Sprintf("%q", args), w.dir, "$D"))
	r := w.run(t, args)
	if r.Code == 2 {
		t.Errorf("%q is rejected as misuse: %s", args, r.Err)
	}
	t.State("control", fmt.Sprintf("%s %d", strings.Join(c.path, " "), r.Code))
	t.Observe("controls", 1)
	_ = os.Remove(w.ran)
}

// pty runs the program with a terminal of the given width on stdout.
func pty(t *h.T, args []string, cols int, columns string) (string, bool) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return "", false
	}
	defer m.Close()
	ioctl := func(fd uintptr, req, arg uintptr) bool {
		_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg)
		return e == 0
	}
	var n, unlock int32
	if !ioctl(m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&unlock))) || !ioctl(m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))) {
		return "", false
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return "", false
	}
	ws := [4]uint16{50, uint16(cols), 0, 0}
	if !ioctl(s.Fd(), 0x5414, uintptr(unsafe.Pointer(&ws))) {
		s.Close()
		return "", false
	}
	got := make(chan string)
	go func() {
		var b bytes.Buffer
		_, _ = io.Copy(&b, m)
		got <- b.String()
	}()
	r := t.CLI(h.Cmd{Args: args, Stdout: s, Env: []string{columns}})
	_ = s.Close()
	out := <-got
	if r.Code != 0 {
		t.Failf("%q on a terminal: exit status %d: %s", args, r.Code, r.Err)
	}
	return strings.ReplaceAll(out, "\r\n", "\n"), true
}

// help asks one command for help in all ways.
func help(t *h.T, c command) {
	w := newWorld(t)
	defer w.close()
	path := c.path
	t.Inputf(true, "help %q", path)
	plain := ""
	variants := [][]string{append(append([]string(nil), path...), "--help"), append(append([]string(nil), path...), "-h"), append([]string{"help"}, path...), append(append([]string(nil), path...), "--help", w.arg(c, 0), "more")}
	if len(c.subs) > 0 {
		variants = variants[:3]
	}
	_, pos := w.good(t, c)
	variants = append(variants, append(append(append([]string(nil), path...), pos...), "--help"))
	for _, v := range variants {
		r := w.run(t, v, "COLUMNS=0")
		if r.Code != 0 {
			t.Errorf("%q exits with status %d: %s", v, r.Code, r.Err)
		}
		if len(r.Err) > 0 {
			t.Errorf("%q writes %q to stderr", v, r.Err)
		}
		if plain == "" {
			plain = string(r.Out)
		} else if plain != string(r.Out) {
			t.Errorf("%q says\n%s\nbut %q says\n%s", v, r.Out, variants[0], plain)
		}
		w.untouched(t, v, r)
		t.Observe("helps", 1)
	}
	// help and a mistake at once: either is fine, but not neither
	for _, extra := range [][]string{{"--help", "--bogus"}, {"--bogus", "--help"}, {"-h", "-Z"}, {"--help=true", "--no-such=1"}, {"--help", "--bogus", "x"}} {
		v := append(append([]string(nil), path...), extra...)
		r := w.run(t, v, "COLUMNS=0")
		t.Observe("help_with_mistake", 1)
		if r.Code == 0 && string(r.Out) == plain && len(r.Err) == 0 {
			w.untouched(t, v, r)
			continue
		}
		misused(t, w, v, "help with an unknown flag", r, path)
	}
	ws := strings.Fields(plain)
	has := func(x string) bool {
		for _, y := range ws {
			if x == y {
				return true
			}
		}
		return false
	}
	for _, f := range c.flags {
		// only flags that exist
		probe := append(append([]string(nil), path...), "--"+f.name+"="+func() string {
			if w.val(f) == "" {
				return "true"
			}
			return w.val(f)
		}(), "--help")
		if r := w.run(t, probe); r.Code == 0 && !has("--"+f.name) {
			t.Errorf("help of %q does not mention --%s:\n%s", path, f.name, plain)
		} else if r.Code == 0 {
			t.Observe("help_flags", 1)
		}
		if f.short != "" {
			probe := append(append([]string(nil), path...), "-"+f.short+w.val(f), "--help")
			if r := w.run(t, probe); r.Code == 0 && !has("-"+f.short+",") {
				t.Errorf("help of %q does not mention -%s:\n%s", path, f.short, plain)
			}
		}
	}
	for _, s := range []string{"--help", "-h,"} {
		if !has(s) {
			t.Errorf("help of %q does not mention %s:\n%s", path, s, plain)
		}
	}
	for _, s := range c.subs {
		probe := append(append([]string(nil), path...), s, "--help")
		if r := w.run(t, probe); r.Code == 0 {
			if !has(s) {
				t.Errorf("help of %q does not mention %q:\n%s", path, s, plain)
			}
			t.Observe("help_subcommands", 1)
		}
	}
	// all widths say the same
	for _, cols := range []int{20, 24, 30, 40, 57, 64, 72, 80, 81, 100, 120, 132, 200} {
		r := w.run(t, variants[0], fmt.Sprintf("COLUMNS=%d", cols))
		if r.Code != 0 || !reflect.DeepEqual(strings.Fields(string(r.Out)), ws) {
			t.Errorf("help of %q at %d columns differs in its words (status %d):\n%s\nfrom\n%s", path, cols, r.Code, r.Out, plain)
		}
		// the long description fits
		if i := strings.Index(string(r.Out), "\n\n"); i >= 0 && cols >= 24 {
			body := string(r.Out)[i:]
			for _, stop := range []string{"\nFlags:\n", "\nAvailable Commands:\n"} {
				if j := strings.Index(body, stop); j >= 0 {
					body = body[:j]
				}
			}
			for _, l := range strings.Split(body, "\n") {
				if utf8.RuneCountInString(l) > cols && len(words(l)) > 1 {
					t.Errorf("help of %q at %d columns has the line %q", path, cols, l)
				}
				t.Observe("lines_measured", 1)
			}
		}
		t.Observe("helps", 1)
		if cols%40 == 0 {
			if o, ok := pty(t, variants[0], cols, "COLUMNS"); ok {
				if o != string(r.Out) {
					t.Errorf("help of %q on a terminal of %d columns:\n%s\nwith COLUMNS:\n%s", path, cols, o, r.Out)
				}
				t.Observe("helps_on_terminal", 1)
				// and if COLUMNS is no number, the words are still there
				bad := t.Pick("COLUMNS=", "COLUMNS=wide", "COLUMNS=80x24")
				if o, ok := pty(t, variants[0], cols, bad); ok && !reflect.DeepEqual(strings.Fields(o), ws) {
					t.Errorf("help of %q on a terminal with %s:\n%s\nfrom\n%s", path, bad, o, plain)
				} else if ok && o != string(r.Out) {
					t.Errorf("help of %q on a terminal of %d columns with %s does not fit the terminal:\n%s\nbut\n%s", path, cols, bad, o, r.Out)
				}
			}
		}
	}
}

// aux is the program with the documentation generators.
func aux(t *h.T) {
	d := filepath.Dir(t.WriteFile("keep/file", []byte("x"), 0o644))
	cmd := t.Pick("man", "mddoc")
	var args []string
	switch t.Intn(4) {
	case 0:
		args = []string{cmd}
	case 1:
		args = []string{cmd, d, d}
	case 2:
		args = []string{cmd, "--bogus", d}
	case 3:
		args = []string{cmd, d, "-Z"}
	}
	t.Inputf(true, "aux %q", len(args))
	r := t.CLI(h.Cmd{Args: args, Aux: true})
	if r.Code != 2 || len(r.Out) > 0 || !strings.Contains(string(r.Err), "--help") {
		t.Errorf("%q: status %d, stdout %q, stderr %q", args, r.Code, r.Out, r.Err)
	}
	if _, err := os.Stat(d + "/file"); err != nil {
		t.Errorf("%q deleted %s", args, d)
	}
	t.Observe("misuses", 1)
}

func main() {
	h.Main(h.Config{
		ID: "C25",
		Rule: "the real program with generated mistakes (unknown and misspelt flags and subcommands, missing subcommands, wrong numbers of arguments, malformed and missing values) in command lines that would otherwise do something, in a world with recording tools, index server and output file; " +
			"help of every command in every way of asking, at many widths and on pseudo-terminals; the help template with random commands; the wrapping functions with random texts, indents and widths",
		Require:     []string{"misuses", "controls", "helps", "help_flags", "help_subcommands", "help_rendered", "texts_wrapped", "texts_broken", "lines_measured", "own_lines", "own_indents"},
		Assumptions: []string{"with fewer than 24 columns for the text, wrapping is documented not to be attempted"},
	}, func(c *h.C) {
		for _, cm := range commands {
			cm := cm
			c.Directed("help "+strings.Join(cm.path, " "), func(t *h.T) { help(t, cm) })
		}
		c.Group("misuse", c.N(2500, 30000), misuse)
		c.Group("control", c.N(60, 600), control)
		c.Group("aux", c.N(12, 60), aux)
		c.Group("template", c.N(6000, 200000), template)
		c.Group("wrap", c.N(120000, 4000000), wrapping)
	})
}
