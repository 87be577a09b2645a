// C02: a squashed layer is a canonical, unambiguous archive.
package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"path"
	"strings"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/squash"

	"verif/h"
)

func squashBytes(ls []ociv1.Layer) ([]byte, error) {
	out, err := squash.Squash(ls)
	if err != nil {
		return nil, err
	}
	return h.LayerBytes(out)
}

func isWh(comp string) bool { return strings.HasPrefix(comp, ".wh.") }

// less is the order of siblings.
func less(a, b string) bool {
	if isWh(a) != isWh(b) {
		return isWh(a)
	}
	return a < b
}

// canonical checks the shape of the archive.
func canonical(es []h.Entry) error {
	seen := map[string]byte{}
	last := map[string]string{} // directory -> last child component seen
	closed := map[string]bool{} // subtrees that have been left
	prev := ""
	for i, e := range es {
		name := e.Hdr.Name
		clean := path.Clean(name)
		want := clean
		if e.Hdr.Typeflag == tar.TypeDir {
			want += "/"
		}
		if name != want {
			return fmt.Errorf("entry %d: name %q is not spelled canonically (want %q)", i, name, want)
		}
		if _, dup := seen[clean]; dup {
			return fmt.Errorf("entry %d: path %q appears twice", i, clean)
		}
		if e.Hdr.Typeflag == tar.TypeLink {
			typ, ok := seen[path.Clean(e.Hdr.Linkname)]
			if !ok {
				return fmt.Errorf("entry %d: hard link %q precedes its target %q", i, name, e.Hdr.Linkname)
			}
			if typ == tar.TypeDir {
				return fmt.Errorf("entry %d: hard link %q to directory %q", i, name, e.Hdr.Linkname)
			}
		}
		seen[clean] = e.Hdr.Typeflag
		if clean == "." {
			if i != 0 {
				return fmt.Errorf("entry %d: the root directory comes after its contents", i)
			}
			continue
		}
		// walk the components: each must be the last-seen child or a greater, new one
		parts := strings.Split(clean, "/")
		dir := "."
		for k, comp := range parts {
			full := path.Join(dir, comp)
			if closed[full] {
				return fmt.Errorf("entry %d: %q comes after the contents of %q were left (previous entry %q)", i, name, full, prev)
			}
			if l, ok := last[dir]; !ok || l != comp {
				if ok {
					if !less(l, comp) {
						return fmt.Errorf("entry %d: %q is out of order: sibling %q came before (in %q)", i, name, l, dir)
					}
					closed[path.Join(dir, l)] = true
				}
				last[dir] = comp
			} else if k == len(parts)-1 {
				return fmt.Errorf("entry %d: %q comes after its contents", i, name)
			}
			dir = full
		}
		prev = name
	}
	return nil
}

func main() {
	h.Main(h.Config{
		ID: "C02",
		Rule: "random layer stacks (as in C01, loops included where the squasher accepts them; also in every archive format, with long names, needless records and further times; and some that are large in one way) squashed by the real code several times; the archive's entry order, spelling and uniqueness are " +
			"checked by a streaming monitor over its entries, and the bytes are compared with a second run, with re-squashing the result, and with squashing every prefix first. Non-trivial: at least two output entries.",
		Require:     []string{"archives_checked", "reruns_equal", "idempotent", "prefix_groupings_equal", "hardlinks_seen", "markers_seen", "cli_runs", "large", "formats_varied"},
		Assumptions: []string{"the stacks are extractable, and their hard links refer to files of their own layer"},
	}, func(c *h.C) {
		var bodyOf func(t *h.T, stack [][]h.Entry, cli bool)
		body := func(t *h.T, o h.StackOpts, cli bool) {
			bodyOf(t, h.NewGenStack(t, o).Stack(), cli)
		}
		bodyOf = func(t *h.T, stack [][]h.Entry, cli bool) {
			tree := h.NewTree()
			for _, l := range stack {
				if err := tree.ApplyLayer(l); err != nil {
					t.Observe("stacks_not_extractable", 1)
					return
				}
			}
			var raw [][]byte
			var layers []ociv1.Layer
			for _, es := range stack {
				bs, err := h.TarBytes(es)
				if err != nil {
					h.Fatalf("%v", err)
				}
				raw = append(raw, bs)
				layers = append(layers, h.FastLayer(bs))
			}
			ref, err := squashBytes(layers)
			if err != nil {
				t.Observe("stacks_refused", 1)
				return
			}
			es, err := h.ParseTar(ref)
			if err != nil {
				t.Input(true, h.StackString(stack))
				t.Failf("squashed layer is not a valid tar: %v", err)
			}
			t.Input(len(es) >= 2, h.StackString(stack))
			t.Sample(h.EntriesString(es))
			for _, e := range es {
				if e.Hdr.Typeflag == tar.TypeLink {
					t.Observe("hardlinks_seen", 1)
				}
				if isWh(path.Base(e.Hdr.Name)) {
					t.Observe("markers_seen", 1)
				}
			}
			t.Observe("archives_checked", 1)
			t.Observe("entries_checked", len(es))
			if err := canonical(es); err != nil {
				t.Failf("%v\noutput:\n%s", err, h.EntriesString(es))
			}
			for i := 0; i < 2; i++ {
				again, err := squashBytes(layers)
				if err != nil || !bytes.Equal(again, ref) {
					t.Failf("the same input gave different output (err=%v):\n%s\nvs\n%s", err, h.EntriesString(es), show(again))
				}
				t.Observe("reruns_equal", 1)
			}
			again, err := squashBytes([]ociv1.Layer{h.FastLayer(ref)})
			if err != nil || !bytes.Equal(again, ref) {
				t.Failf("re-squashing the squashed layer changed it (err=%v):\n%s\nbecame\n%s", err, h.EntriesString(es), show(again))
			}
			t.Observe("idempotent", 1)
			for k := 1; k < len(layers); k++ {
				if len(layers) > 8 && t.P(0.8) {
					continue
				}
				pre, err := squashBytes(layers[:k])
				if err != nil {
					t.Failf("the whole stack squashes but its first %d layers do not: %v", k, err)
				}
				again, err := squashBytes(append([]ociv1.Layer{h.FastLayer(pre)}, layers[k:]...))
				if err != nil || !bytes.Equal(again, ref) {
					t.Failf("squashing the first %d layers first gives different bytes (err=%v):\n%s\nvs\n%s", k, err, h.EntriesString(es), show(again))
				}
				t.Observe("prefix_groupings_equal", 1)
			}
			if cli && len(raw) >= 2 {
				args := []string{"layer", "squash"}
				for i, bs := range raw {
					args = append(args, t.WriteFile(fmt.Sprintf("%d.tar", i), bs, 0o644))
				}
				r := t.CLI(h.Cmd{Args: args})
				if r.Code != 0 || !bytes.Equal(r.Out, ref) {
					t.Failf("the command gives different bytes than the library (exit %d, %s)", r.Code, r.Err)
				}
			}
		}
		c.Group("random", c.N(14000, 600000), func(t *h.T) {
			body(t, h.StackOpts{MaxLayers: 5, MaxEntries: 8, HardLinks: true, Xattrs: true, BigBodies: true}, false)
		})
		c.Group("formats", c.N(4000, 150000), func(t *h.T) {
			stack := h.Formats(t, h.NewGenStack(t, h.StackOpts{MaxLayers: 4, MaxEntries: 9, HardLinks: true, Xattrs: true}).Stack())
			bodyOf(t, stack, t.P(0.01))
			t.Observe("formats_varied", 1)
		})
		c.Group("scale", c.N(36, 900), func(t *h.T) {
			kind := h.ScaleKinds[t.Intn(len(h.ScaleKinds))]
			bodyOf(t, h.GenScale(t, kind), t.P(0.3))
			t.Observe("large", 1)
			t.State("large", kind)
		})
		c.Group("wide", c.N(2500, 60000), func(t *h.T) {
			body(t, h.StackOpts{MaxLayers: 3, MaxEntries: 60, HardLinks: true, Xattrs: true, Loops: t.P(0.3)}, false)
		})
		c.Group("cli", c.N(150, 3000), func(t *h.T) {
			body(t, h.StackOpts{MaxLayers: 5, MaxEntries: 8, HardLinks: true, Xattrs: true, BigBodies: true}, true)
		})
	})
}

func show(bs []byte) string {
	es, err := h.ParseTar(bs)
	if err != nil {
		return err.Error()
	}
	return h.EntriesString(es)
}
