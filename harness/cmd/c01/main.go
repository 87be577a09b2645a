// C01: squashing preserves the filesystem the layers produce.
package main

import (
	"archive/tar"
	"fmt"
	"path"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/squash"

	"verif/h"
)

func apply(t *h.T, base *h.Tree, stack [][]h.Entry) (*h.Tree, error) {
	tree := base.Clone()
	for _, l := range stack {
		if err := tree.ApplyLayer(l); err != nil {
			return nil, err
		}
	}
	return tree, nil
}

func check(t *h.T, stack [][]h.Entry, bases []*h.Tree) { checkVia(t, stack, bases, false) }

func squashCLI(t *h.T, stack [][]h.Entry) ([]byte, error) {
	args := []string{"layer", "squash"}
	for i, es := range stack {
		bs, err := h.TarBytes(es)
		if err != nil {
			h.Fatalf("%v", err)
		}
		if t.P(0.3) {
			bs = h.Gzip(bs)
		}
		args = append(args, t.WriteFile(fmt.Sprintf("l%d-%d.tar", t.Intn(100), i), bs, 0o644))
	}
	r := t.CLI(h.Cmd{Args: args})
	if r.Code != 0 {
		return nil, fmt.Errorf("exit %d: %s", r.Code, r.Err)
	}
	return r.Out, nil
}

func squashLib(layers []ociv1.Layer) ([]byte, error) {
	out, err := squash.Squash(layers)
	if err != nil {
		return nil, err
	}
	return h.LayerBytes(out)
}

func checkVia(t *h.T, stack [][]h.Entry, bases []*h.Tree, cli bool) {
	cli = cli && len(stack) >= 2
	var layers []ociv1.Layer
	for _, es := range stack {
		bs, err := h.TarBytes(es)
		if err != nil {
			h.Fatalf("generator made an unencodable layer: %v\n%s", err, h.EntriesString(es))
		}
		if t.P(0.9) {
			layers = append(layers, h.FastLayer(bs))
			continue
		}
		if t.P(0.5) {
			bs = h.Gzip(bs)
		}
		l, err := h.LayerOf(bs)
		if err != nil {
			h.Fatalf("LayerOf: %v", err)
		}
		layers = append(layers, l)
	}
	if _, err := apply(t, h.NewTree(), stack); err != nil {
		t.Observe("stacks_not_extractable", 1)
		return
	}
	nent := 0
	for _, l := range stack {
		nent += len(l)
		for _, e := range l {
			t.State("entry types", kind(e))
		}
	}
	t.Input(nent >= 2, h.StackString(stack))
	var bs []byte
	var err error
	if cli {
		bs, err = squashCLI(t, stack)
	} else {
		bs, err = squashLib(layers)
	}
	if err != nil {
		t.Failf("squash refused an extractable stack: %v", err)
	}
	sq, err := h.ParseTar(bs)
	if err != nil {
		t.Failf("squashed layer is not a valid tar: %v", err)
	}
	t.Observe("stacks_squashed", 1)
	t.Observe("entries_in", nent)
	t.Observe("entries_out", len(sq))
	for i, base := range bases {
		want, err := apply(t, base, stack)
		if err != nil {
			t.Observe("base_not_extractable", 1)
			continue
		}
		got, err := apply(t, base, [][]h.Entry{sq})
		if err != nil {
			t.Failf("base %d: extracting the squashed layer fails: %v\nsquashed:\n%s", i, err, h.EntriesString(sq))
		}
		t.Observe("trees_compared", 1)
		t.Observe("paths_compared", len(want.Flat()))
		if d := h.DiffTrees(want, got); d != "" {
			t.Failf("base %d: %s\nsquashed:\n%s", i, d, h.EntriesString(sq))
		}
	}
	t.Sample(fmt.Sprintf("squashed to %d entries; %d trees equal", len(sq), len(bases)))
}

func kind(e h.Entry) string {
	b := path.Base(path.Clean(e.Hdr.Name))
	switch {
	case b == ".wh..wh..opq":
		return "opaque"
	case strings.HasPrefix(b, ".wh."):
		return "whiteout"
	}
	return string(rune(e.Hdr.Typeflag))
}

func mk(typ byte, name, arg string) h.Entry {
	e := h.Entry{Hdr: tar.Header{Typeflag: typ, Name: name, Mode: 0o644, ModTime: time.Unix(1000, 0)}}
	switch typ {
	case tar.TypeSymlink, tar.TypeLink:
		e.Hdr.Linkname = arg
	case tar.TypeReg:
		e.Body = []byte(arg)
	case tar.TypeDir:
		e.Hdr.Mode = 0o755
	}
	return e
}

func baseOf(es ...h.Entry) *h.Tree {
	tr := h.NewTree()
	if err := tr.ApplyLayer(es); err != nil {
		h.Fatalf("%v", err)
	}
	return tr
}

func main() {
	h.Main(h.Config{
		ID: "C01",
		Rule: "random stacks of 1-6 layers over a tiny name alphabet (files, directories, symlinks, hard links, devices, explicit and opaque whiteouts, " +
			"messy spellings, some gzip-compressed), squashed by the real code; both the stack and the squashed layer are extracted by a reference extractor over " +
			"several base trees and the resulting trees compared. Plus chains of up to 36 symlinks in directories up to 25 deep, stacks that are large in one way (files up to 24 MiB, thousands of entries, 160 layers, 900 levels, long names, hundreds of links), and exhaustive short histories over one directory. Non-trivial: extractable and at least 2 entries.",
		Require:     []string{"trees_compared", "stacks_squashed", "symlink_chains", "cli_runs", "formats_varied", "large bodies", "large entries", "large layers", "large depth", "large names", "large links"},
		Assumptions: []string{"base symlinks are not written through by the layers", "hard links refer to files of their own layer or untouched base files", "metadata of directories no entry describes is unspecified"},
	}, func(c *h.C) {
		c.Directed("whiteout-then-dir", func(t *h.T) {
			b := baseOf(mk('5', "foo", ""), mk('0', "foo/old", "old"))
			check(t, [][]h.Entry{{mk('0', ".wh.foo", "")}, {mk('5', "foo/", ""), mk('0', "foo/new", "new")}}, []*h.Tree{b})
		})
		c.Directed("whiteout-and-dir-same-layer", func(t *h.T) {
			b := baseOf(mk('5', "foo", ""), mk('0', "foo/old", "old"))
			check(t, [][]h.Entry{{mk('0', "foo/new", "n"), mk('5', "foo/", ""), mk('0', ".wh.foo", "")}}, []*h.Tree{b})
		})
		c.Directed("hardlink-target-sorts-later", func(t *h.T) {
			check(t, [][]h.Entry{{mk('0', "z", "zz"), mk('1', "a", "z")}}, []*h.Tree{h.NewTree()})
		})
		c.Directed("hardlink-target-replaced", func(t *h.T) {
			check(t, [][]h.Entry{{mk('0', "a", "one"), mk('1', "z", "a")}, {mk('0', "a", "two")}}, []*h.Tree{h.NewTree()})
		})
		c.Directed("hardlink-target-deleted", func(t *h.T) {
			check(t, [][]h.Entry{{mk('0', "a", "one"), mk('1', "z", "a"), mk('1', "y", "z")}, {mk('0', ".wh.a", "")}}, []*h.Tree{h.NewTree()})
		})
		c.Directed("hardlink-to-base-file", func(t *h.T) {
			check(t, [][]h.Entry{{mk('1', "z", "a")}}, []*h.Tree{baseOf(mk('0', "a", "A"))})
		})
		c.Directed("hardlink-to-symlink", func(t *h.T) {
			check(t, [][]h.Entry{{mk('2', "s", "f"), mk('1', "b", "s"), mk('0', "f", "F")}, {mk('0', "s", "now a file")}}, []*h.Tree{h.NewTree()})
		})
		for i, tgt := range []string{"s/../x", "/s/..", "s/../../p/x", "./s/../x/", "t/../x"} {
			tgt := tgt
			c.Directed(fmt.Sprintf("up-from-a-symlink-%d", i), func(t *h.T) {
				check(t, [][]h.Entry{{mk('5', "p", ""), mk('5', "p/q", ""), mk('5', "p/x", ""), mk('5', "x", ""), mk('2', "s", "p/q"), mk('2', "t", "s/."), mk('2', "l", tgt), mk('0', "l/f", "F")},
					{mk('0', "l/g", "G"), mk('0', "l/.wh.f", "")}}, []*h.Tree{h.NewTree()})
			})
		}
		c.Directed("ustar-long-resolved-name", func(t *h.T) {
			long := strings.Repeat("l", 90)
			deep := long + "/" + long + "/" + long
			check(t, [][]h.Entry{{mk('5', long, ""), mk('5', long+"/"+long, ""), mk('2', "s", long+"/"+long), mk('0', "s/"+long, "body")}, {mk('0', "s/x/"+strings.Repeat("y", 80), deep)}}, []*h.Tree{h.NewTree()})
		})
		opts := h.StackOpts{MaxLayers: 5, MaxEntries: 7, HardLinks: true, Xattrs: true, BigBodies: true}
		c.Group("random", c.N(40000, 1500000), func(t *h.T) {
			g := h.NewGenStack(t, opts)
			stack := g.Stack()
			bases := []*h.Tree{h.NewTree(), g.Base(), g.Base()}
			check(t, stack, bases)
		})
		c.Group("formats", c.N(3000, 100000), func(t *h.T) {
			g := h.NewGenStack(t, h.StackOpts{MaxLayers: 4, MaxEntries: 9, HardLinks: true, Xattrs: true})
			checkVia(t, h.Formats(t, g.Stack()), []*h.Tree{h.NewTree(), g.Base()}, t.P(0.01))
			t.Observe("formats_varied", 1)
		})
		c.Group("scale", c.N(60, 1500), func(t *h.T) {
			kind := h.ScaleKinds[index(t.Name)%len(h.ScaleKinds)]
			checkVia(t, h.GenScale(t, kind), []*h.Tree{h.NewTree(), baseOf(mk('5', "d", ""), mk('0', "d/q", "Q"), mk('5', "a", ""), mk('0', "a/q", "Q"))}, t.P(0.3))
			t.Observe("large "+kind, 1)
		})
		c.Group("chains", c.N(2000, 40000), func(t *h.T) {
			check(t, h.GenChain(t), []*h.Tree{h.NewTree(), baseOf(mk('5', "a0", ""), mk('0', "a0/f", "F"))})
			t.Observe("symlink_chains", 1)
		})
		c.Group("cli", c.N(400, 6000), func(t *h.T) {
			g := h.NewGenStack(t, opts)
			stack := g.Stack()
			for len(stack) < 2 {
				stack = append(stack, nil)
			}
			checkVia(t, stack, []*h.Tree{h.NewTree(), g.Base()}, true)
		})
		c.Group("no-links", c.N(15000, 500000), func(t *h.T) {
			o := opts
			o.HardLinks = false
			o.MaxLayers, o.MaxEntries = 6, 3
			g := h.NewGenStack(t, o)
			stack := g.Stack()
			for _, l := range stack {
				for i := range l {
					if l[i].Hdr.Typeflag == tar.TypeSymlink {
						l[i].Hdr.Typeflag = tar.TypeDir
						l[i].Hdr.Linkname = ""
					}
				}
			}
			check(t, stack, []*h.Tree{g.Base(), g.Base()})
		})
		// Exhaustive histories over one directory "d" with child "d/x" and symlink "s"->"d".
		ops := []h.Entry{
			mk('0', "d", "file-d"), mk('5', "d/", ""), mk('2', "d", "e"), mk('0', ".wh.d", ""),
			mk('0', "d/x", "x"), mk('0', "d/.wh.x", ""), mk('0', "d/.wh..wh..opq", ""),
			mk('2', "s", "d"), mk('0', "s/x", "via-s"), mk('0', "e/y", "y"), mk('0', ".wh..wh..opq", ""), mk('0', "s/.wh.x", ""),
			mk('5', "d/x/", ""), mk('0', "d/x/deep", "deep"),
		}
		bases := []*h.Tree{
			h.NewTree(),
			baseOf(mk('5', "d", ""), mk('0', "d/x", "bx"), mk('0', "d/y", "by"), mk('5', "e", ""), mk('0', "e/q", "q")),
			baseOf(mk('0', "d", "bd"), mk('0', "s", "bs"), mk('0', "e", "be")),
			baseOf(mk('5', "d", ""), mk('5', "d/x", ""), mk('0', "d/x/q", "q"), mk('5', "s", ""), mk('0', "s/x", "sx")),
		}
		depth := 3
		if c.Thorough() {
			depth = 5
		}
		for k := 2; k <= depth; k++ {
			n := 1
			for i := 0; i < k; i++ {
				n *= len(ops)
			}
			k := k
			c.Group(fmt.Sprintf("exhaustive-separate-%d", k), n, func(t *h.T) {
				i := index(t.Name)
				var stack [][]h.Entry
				for j := 0; j < k; j++ {
					stack = append(stack, []h.Entry{ops[i%len(ops)]})
					i /= len(ops)
				}
				check(t, stack, bases)
			})
			c.Group(fmt.Sprintf("exhaustive-joint-%d", k), n, func(t *h.T) {
				i := index(t.Name)
				// first op alone, the others in one layer
				stack := [][]h.Entry{{ops[i%len(ops)]}, {}}
				i /= len(ops)
				for j := 1; j < k; j++ {
					stack[1] = append(stack[1], ops[i%len(ops)])
					i /= len(ops)
				}
				check(t, stack, bases)
			})
		}
	})
}

func index(name string) int {
	var i int
	_, _ = fmt.Sscanf(name[strings.LastIndex(name, "/")+1:], "%d", &i)
	return i
}
