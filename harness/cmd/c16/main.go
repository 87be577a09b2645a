// C16: a built image is the base plus the given layers and settings.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"verif/h"
)

func norm(tag string) string {
	repo, t := tag, "latest"
	if i := strings.LastIndex(tag, ":"); i > strings.LastIndex(tag, "/") {
		repo, t = tag[:i], tag[i+1:]
	}
	parts := strings.Split(repo, "/")
	if len(parts) == 1 || !strings.ContainsAny(parts[0], ".:") && parts[0] != "localhost" {
		if len(parts) == 1 {
			parts = append([]string{"library"}, parts...)
		}
		parts = append([]string{"index.docker.io"}, parts...)
	}
	return strings.Join(parts, "/") + ":" + t
}

func canon(v interface{}) interface{} {
	bs, err := json.Marshal(v)
	if err != nil {
		h.Fatalf("%v", err)
	}
	var r interface{}
	d := json.NewDecoder(bytes.NewReader(bs))
	d.UseNumber()
	if err := d.Decode(&r); err != nil {
		h.Fatalf("%v", err)
	}
	return r
}

func js(v interface{}) string {
	bs, _ := json.Marshal(v)
	return string(bs)
}

func word(t *h.T) string {
	return t.Pick("a", "b,c", "--flag", "-E", "x=y", "", " sp ace ", "q\"uote'", "$HOME", "é€", "new\nline", "a;b", "[\"x\"]", "<&>", "\\", "-", "/bin/sh", "%s")
}

func words(t *h.T, n int) []string {
	r := []string{}
	for i := 0; i < n; i++ {
		r = append(r, word(t))
	}
	return r
}

func env(t *h.T) string {
	return t.Pick("A", "B", "PATH", "LONG_NAME", "a.b") + "=" + word(t)
}

func stamp(t *h.T) string {
	return time.Unix(int64(t.Intn(1<<31)), int64(t.Intn(2)*t.Intn(1e9))).UTC().Format(time.RFC3339Nano)
}

func genBase(t *h.T, layers [][]byte) *h.Image {
	img := &h.Image{Layers: layers, Tags: []string{"base:x"}}
	if t.P(0.3) {
		img.Tags = []string{"base:1", "other/base:2"}
	}
	cfg := map[string]interface{}{"architecture": t.Pick("amd64", "arm64", ""), "os": t.Pick("linux", "windows"), "created": stamp(t)}
	if t.P(0.4) {
		cfg["author"] = word(t) + "x"
	}
	if t.P(0.3) {
		cfg["docker_version"] = "20.10.7"
	}
	if t.P(0.3) {
		cfg["os.version"] = "10.0"
	}
	if t.P(0.3) {
		cfg["container"] = "deadbeef"
	}
	hist := []interface{}{}
	for i := range layers {
		if t.P(0.3) {
			hist = append(hist, map[string]interface{}{"created": stamp(t), "created_by": word(t) + "cmd", "empty_layer": true})
		}
		hist = append(hist, map[string]interface{}{"created": stamp(t), "created_by": fmt.Sprintf("layer %d %s", i, word(t)), "comment": "c" + word(t), "author": "au"})
	}
	if t.P(0.3) {
		hist = append(hist, map[string]interface{}{"created": stamp(t), "created_by": "ENV", "empty_layer": true})
	}
	if len(hist) > 0 {
		cfg["history"] = hist
	}
	c := map[string]interface{}{}
	for _, k := range []string{"Cmd", "Entrypoint", "OnBuild", "Shell"} {
		if t.P(0.5) {
			c[k] = words(t, 1+t.Intn(3))
		}
	}
	if t.P(0.7) {
		var e []string
		for i := 0; i < 1+t.Intn(4); i++ {
			e = append(e, env(t))
		}
		c["Env"] = e
	}
	for _, k := range []string{"User", "WorkingDir", "StopSignal", "Hostname", "Domainname", "Image", "MacAddress"} {
		if t.P(0.4) {
			c[k] = t.Pick("root", "/srv", "SIGINT", "1000:1000")
		}
	}
	for _, k := range []string{"AttachStderr", "AttachStdin", "AttachStdout", "OpenStdin", "StdinOnce", "Tty", "ArgsEscaped", "NetworkDisabled"} {
		if t.P(0.2) {
			c[k] = true
		}
	}
	if t.P(0.4) {
		c["Labels"] = map[string]string{"k" + t.Pick("", ".x"): word(t), "z": ""}
	}
	if t.P(0.4) {
		c["Volumes"] = map[string]interface{}{"/v": map[string]interface{}{}}
	}
	if t.P(0.4) {
		c["ExposedPorts"] = map[string]interface{}{"80/tcp": map[string]interface{}{}, "53/udp": map[string]interface{}{}}
	}
	if t.P(0.3) {
		c["Healthcheck"] = map[string]interface{}{"Test": []string{"CMD", "true"}, "Interval": 5000000000, "Timeout": 1, "StartPeriod": 3, "Retries": 4}
	}
	cfg["config"] = c
	img.Config = cfg
	return img
}

func genLayers(t *h.T, n int) [][]byte {
	var ls [][]byte
	g := h.NewGenStack(t, h.StackOpts{MaxEntries: 6, MaxLayers: 3, HardLinks: true})
	for i := 0; i < n; i++ {
		if len(ls) > 0 && t.P(0.15) {
			ls = append(ls, ls[t.Intn(len(ls))]) // the same layer again
			continue
		}
		es := g.Layer()
		if t.P(0.1) {
			es = append(es, h.Entry{})
			es[len(es)-1].Hdr.Typeflag, es[len(es)-1].Hdr.Name = '0', "big"
			es[len(es)-1].Body = t.Bytes(200000)
		}
		bs, err := h.TarBytes(es)
		if err != nil {
			h.Fatalf("%v", err)
		}
		if t.P(0.1) {
			bs = append(bs, make([]byte, 512*t.Intn(20))...) // blocking-factor padding
		}
		ls = append(ls, bs)
	}
	return ls
}

func writeLayer(t *h.T, name string, bs []byte) string {
	if t.P(0.5) {
		t.Observe("gzipped_inputs", 1)
		return t.WriteFile(name, h.Gzip(bs), 0o644)
	}
	return t.WriteFile(name, bs, 0o644)
}

type settings struct {
	clear   bool
	envs    []string
	entry   []string
	cmd     []string
	workdir string
	tag     string
}

func (s settings) args(t *h.T) []string {
	var a []string
	opt := func(long, short, val string) {
		switch {
		case short != "" && t.P(0.4):
			a = append(a, "-"+short, val)
		case t.P(0.5):
			a = append(a, "--"+long+"="+val)
		default:
			a = append(a, "--"+long, val)
		}
	}
	if s.tag != "" {
		opt("tag", "t", s.tag)
	}
	for _, e := range s.envs {
		opt("config.Env.append", "e", e)
	}
	if s.clear {
		a = append(a, t.Pick("-E", "--config.Env.clear", "--config.Env.clear=true"))
	}
	for _, e := range s.entry {
		opt("config.Entrypoint", "", e)
	}
	for _, e := range s.cmd {
		opt("config.Cmd", "c", e)
	}
	if s.workdir != "" {
		opt("config.WorkingDir", "w", s.workdir)
	}
	return a
}

func genSettings(t *h.T) settings {
	var s settings
	s.clear = t.P(0.3)
	if t.P(0.5) {
		for i := 0; i < 1+t.Intn(3); i++ {
			s.envs = append(s.envs, env(t))
		}
	}
	if t.P(0.4) {
		s.entry = words(t, 1+t.Intn(3))
	}
	if t.P(0.4) {
		s.cmd = words(t, 1+t.Intn(3))
	}
	if t.P(0.4) {
		s.workdir = t.Pick("/srv", "/a b", ".", "rel/dir", "/x/../y/")
	}
	if t.P(0.7) {
		s.tag = t.Pick("foo", "foo:1", "docker.io/library/x:v1.2", "localhost:5000/a/b:c", "example.com/very/deep/name:T_ag.1-x", "user/name", "foo:latest")
	}
	return s
}

func strs(v interface{}) []string {
	l, _ := v.([]interface{})
	var r []string
	for _, x := range l {
		s, _ := x.(string)
		r = append(r, s)
	}
	return r
}

// check compares the decoded output with base + layers + settings.
func check(t *h.T, out []byte, base *h.Image, layers [][]byte, s settings) *h.Image {
	img, err := h.DecodeImage(out)
	if err != nil {
		t.Failf("the image is not valid: %v", err)
	}
	var want [][]byte
	if base != nil {
		want = append(want, base.Layers...)
	}
	want = append(want, layers...)
	if len(img.Layers) != len(want) {
		t.Failf("the image has %d layers, want %d", len(img.Layers), len(want))
	}
	for i := range want {
		if !bytes.Equal(img.Layers[i], want[i]) {
			t.Failf("layer %d of %d uncompresses to %d bytes (%s), want the input's %d (%s)", i, len(want), len(img.Layers[i]), h.Sum(img.Layers[i])[:8], len(want[i]), h.Sum(want[i])[:8])
		}
		t.Observe("layers_compared", 1)
	}
	if s.tag == "" {
		if len(img.Tags) != 0 {
			t.Failf("untagged image is tagged %q", img.Tags)
		}
	} else if len(img.Tags) != 1 || norm(img.Tags[0]) != norm(s.tag) {
		t.Failf("the image is tagged %q, want %q", img.Tags, s.tag)
	}

	wantCfg := map[string]interface{}{}
	if base != nil {
		wantCfg = canon(base.Config).(map[string]interface{})
	}
	wantHist, _ := wantCfg["history"].([]interface{})
	gotHist, _ := img.Config["history"].([]interface{})
	if len(gotHist) != len(wantHist)+len(layers) {
		t.Failf("history has %d entries, want the base's %d and %d more: %s", len(gotHist), len(wantHist), len(layers), js(gotHist))
	}
	for i, w := range wantHist {
		if !reflect.DeepEqual(gotHist[i], w) {
			t.Failf("history entry %d is %s, the base's is %s", i, js(gotHist[i]), js(w))
		}
	}
	for _, g := range gotHist[len(wantHist):] {
		if m, _ := g.(map[string]interface{}); m == nil || m["empty_layer"] == true {
			t.Failf("history entry of an appended layer: %s", js(g))
		}
	}
	wc, _ := wantCfg["config"].(map[string]interface{})
	if wc == nil {
		wc = map[string]interface{}{}
	}
	envs := strs(wc["Env"])
	if s.clear {
		envs = nil
	}
	envs = append(envs, s.envs...)
	delete(wc, "Env")
	if len(envs) > 0 {
		wc["Env"] = canon(envs)
	}
	if s.entry != nil {
		wc["Entrypoint"] = canon(s.entry)
	}
	if s.cmd != nil {
		wc["Cmd"] = canon(s.cmd)
	}
	if s.workdir != "" {
		wc["WorkingDir"] = s.workdir
	}
	gc, _ := img.Config["config"].(map[string]interface{})
	if gc == nil {
		t.Failf("the image has no config: %s", js(img.Config))
	}
	if !reflect.DeepEqual(gc, wc) {
		t.Failf("config is\n  %s\nwant\n  %s", js(gc), js(wc))
	}
	if base != nil {
		for _, k := range []string{"config", "history", "rootfs"} {
			delete(wantCfg, k)
		}
		got := map[string]interface{}{}
		for k, v := range img.Config {
			if k != "config" && k != "history" && k != "rootfs" {
				got[k] = v
			}
		}
		if !reflect.DeepEqual(got, wantCfg) {
			t.Failf("image metadata is\n  %s\nthe base's is\n  %s", js(got), js(wantCfg))
		}
	}
	t.Observe("images_compared", 1)
	return img
}

func main() {
	h.Main(h.Config{
		ID:          "C16",
		Rule:        "random base images (docker-save and gzipped layouts, repeated layers, full configuration), random plain and gzipped layers, random settings on the real command line; non-trivial if there is a base with layers and at least one setting",
		Require:     []string{"images_compared", "layers_compared", "gzipped_inputs", "chained", "settings_alone", "large_builds"},
		Assumptions: []string{"configuration fields the image library does not model are outside the comparison", "an independent decoder and go-containerregistry's loader judge validity"},
	}, func(c *h.C) {
		build := func(t *h.T, genLayers func(t *h.T, n int) [][]byte) {
			var base *h.Image
			s := genSettings(t)
			args := []string{"image", "build"}
			if t.P(0.75) {
				base = genBase(t, genLayers(t, t.Intn(4)))
				fn := t.WriteFile("base.tar", base.Tar(t.P(0.5)), 0o644)
				if t.P(0.5) {
					args = append(args, "--base", fn)
				} else {
					args = append(args, "--base="+fn)
				}
			}
			layers := genLayers(t, 1+t.Intn(4))
			if base != nil && len(base.Layers) > 0 && t.P(0.2) {
				layers[t.Intn(len(layers))] = base.Layers[t.Intn(len(base.Layers))]
			}
			var files []string
			for i, l := range layers {
				// names whose sorted order differs from the given order
				files = append(files, writeLayer(t, fmt.Sprintf("%c-layer%d.tar", 'z'-i*3%7, i), l))
			}
			if t.P(0.5) {
				args = append(append(args, s.args(t)...), files...)
			} else {
				args = append(append(args, files...), s.args(t)...)
			}
			t.Inputf(base != nil && len(base.Layers) > 0 && (s.clear || s.envs != nil || s.entry != nil || s.cmd != nil || s.workdir != ""), "base=%v layers=%d %q", base != nil, len(layers), args[2:])
			t.State("shape", fmt.Sprintf("base=%v n=%d clear=%v env=%d entry=%d cmd=%d w=%v t=%v", base != nil, len(layers), s.clear, len(s.envs), len(s.entry), len(s.cmd), s.workdir != "", s.tag != ""))
			r := t.CLI(h.Cmd{Args: args})
			if r.Code != 0 {
				t.Failf("exit %d: %s", r.Code, r.Err)
			}
			img := check(t, r.Out, base, layers, s)
			if t.P(0.3) && !t.Failed() {
				// the output is the base of another build
				t.Observe("chained", 1)
				t.WriteFile("mid.tar", r.Out, 0o644)
				s2 := genSettings(t)
				l2 := genLayers(t, 1)[:1]
				r2 := t.CLI(h.Cmd{Args: append([]string{"image", "build", "--base", filepath.Join(t.Scratch(), "mid.tar"), writeLayer(t, "top.tar", l2[0])}, s2.args(t)...)})
				if r2.Code != 0 {
					t.Failf("building on a built image: exit %d: %s", r2.Code, r2.Err)
				}
				check(t, r2.Out, img, l2, s2)
			}
		}
		c.Group("build", c.N(2000, 40000), func(t *h.T) { build(t, genLayers) })
		c.Group("scale", c.N(40, 800), func(t *h.T) {
			build(t, func(t *h.T, n int) [][]byte {
				if n == 0 {
					return nil
				}
				var ls [][]byte
				for _, es := range h.GenScale(t, h.ScaleKinds[t.Intn(len(h.ScaleKinds))]) {
					bs, err := h.TarBytes(es)
					if err != nil {
						h.Fatalf("%v", err)
					}
					ls = append(ls, bs)
				}
				return ls
			})
			t.Observe("large_builds", 1)
		})
		// every single setting alone, on a fixed full base
		for i := 0; i < 64; i++ {
			i := i
			c.Directed(fmt.Sprintf("setting-%d", i), func(t *h.T) {
				base := genBase(t, genLayers(t, 2))
				cc := base.Config["config"].(map[string]interface{})
				cc["Env"] = []string{"A=1", "B=2", "A=3"}
				cc["Cmd"] = []string{"basecmd", "arg"}
				cc["Entrypoint"] = []string{"/base-entry"}
				cc["WorkingDir"] = "/base"
				var s settings
				if i&1 != 0 {
					s.clear = true
				}
				if i&2 != 0 {
					s.envs = []string{"A=9", "C=4", "A=9"}
				}
				if i&4 != 0 {
					s.entry = []string{"/entry"}
				}
				if i&8 != 0 {
					s.cmd = []string{"cmd", "-x"}
				}
				if i&16 != 0 {
					s.workdir = "/srv"
				}
				if i&32 != 0 {
					s.tag = "foo:bar"
				}
				layers := genLayers(t, 1)
				args := append([]string{"image", "build", "--base", t.WriteFile("base.tar", base.Tar(i%3 == 0), 0o644), writeLayer(t, "l.tar", layers[0])}, s.args(t)...)
				t.Inputf(true, "%q", args[2:])
				r := t.CLI(h.Cmd{Args: args})
				if r.Code != 0 {
					t.Failf("exit %d: %s", r.Code, r.Err)
				}
				check(t, r.Out, base, layers, s)
				t.Observe("settings_alone", 1)
				_ = os.Remove(filepath.Join(t.Scratch(), "base.tar"))
			})
		}
	})
}
