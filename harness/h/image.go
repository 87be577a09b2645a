package h

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"time"

	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
)

// Image is an image archive as generated or decoded: independent of the code under test.
type Image struct {
	Tags   []string
	Config map[string]interface{} // the whole config file
	Layers [][]byte               // uncompressed
	Blobs  [][]byte               // as stored (when generating: nil for the gzipped layers)
}

// Sum is the hex SHA-256.
func Sum(bs []byte) string {
	s := sha256.Sum256(bs)
	return hex.EncodeToString(s[:])
}

// DiffIDs of the layers.
func (img *Image) DiffIDs() []interface{} {
	ids := []interface{}{}
	for _, l := range img.Layers {
		ids = append(ids, "sha256:"+Sum(l))
	}
	return ids
}

// Tar writes the image the way docker save (plain layers) or crane (gzipped layers) does.
func (img *Image) Tar(gz bool) []byte {
	cfg := map[string]interface{}{}
	for k, v := range img.Config {
		cfg[k] = v
	}
	cfg["rootfs"] = map[string]interface{}{"type": "layers", "diff_ids": img.DiffIDs()}
	cbs, err := json.Marshal(cfg)
	if err != nil {
		Fatalf("%v", err)
	}
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	add := func(name string, body []byte) {
		if err := w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644, Size: int64(len(body)), ModTime: time.Unix(0, 0)}); err != nil {
			Fatalf("%v", err)
		}
		_, _ = w.Write(body)
	}
	cname := Sum(cbs) + ".json"
	add(cname, cbs)
	names := []string{}
	seen := map[string]bool{}
	for i, l := range img.Layers {
		n := fmt.Sprintf("%s/layer.tar", Sum(append([]byte(fmt.Sprint(i)), l...)))
		body := l
		if gz {
			body = Gzip(l)
			if img.Blobs != nil {
				body = img.Blobs[i]
			}
			n = Sum(body) + ".tar.gz"
		}
		names = append(names, n)
		if !seen[n] {
			add(n, body)
		}
		seen[n] = true
	}
	man := []map[string]interface{}{{"Config": cname, "RepoTags": img.Tags, "Layers": names}}
	mbs, _ := json.Marshal(man)
	add("manifest.json", mbs)
	if err := w.Close(); err != nil {
		Fatalf("%v", err)
	}
	return buf.Bytes()
}

// DecodeImage reads an image archive and verifies that it is consistent in itself.
func DecodeImage(bs []byte) (*Image, error) {
	es, err := ParseTar(bs)
	if err != nil {
		return nil, fmt.Errorf("image archive: %w", err)
	}
	files := map[string][]byte{}
	for _, e := range es {
		if _, dup := files[e.Hdr.Name]; dup {
			return nil, fmt.Errorf("image archive has %q twice", e.Hdr.Name)
		}
		files[e.Hdr.Name] = e.Body
	}
	var man []struct {
		Config   string
		RepoTags []string
		Layers   []string
	}
	if err := json.Unmarshal(files["manifest.json"], &man); err != nil {
		return nil, fmt.Errorf("manifest.json: %w", err)
	}
	if len(man) != 1 {
		return nil, fmt.Errorf("manifest.json names %d images", len(man))
	}
	img := &Image{Tags: man[0].RepoTags}
	cbs, ok := files[man[0].Config]
	if !ok {
		return nil, fmt.Errorf("config %q is missing", man[0].Config)
	}
	if n := man[0].Config; n != "sha256:"+Sum(cbs) && n != Sum(cbs)+".json" {
		return nil, fmt.Errorf("config %q has digest %s", n, Sum(cbs))
	}
	dec := json.NewDecoder(bytes.NewReader(cbs))
	dec.UseNumber()
	if err := dec.Decode(&img.Config); err != nil {
		return nil, fmt.Errorf("config: %w", err)
	}
	used := map[string]bool{"manifest.json": true, man[0].Config: true}
	for _, n := range man[0].Layers {
		blob, ok := files[n]
		if !ok {
			return nil, fmt.Errorf("layer %q is missing", n)
		}
		used[n] = true
		if n != Sum(blob)+".tar.gz" {
			return nil, fmt.Errorf("layer %q has digest %s", n, Sum(blob))
		}
		plain := blob
		if len(blob) > 1 && blob[0] == 0x1f && blob[1] == 0x8b {
			zr, err := gzip.NewReader(bytes.NewReader(blob))
			if err != nil {
				return nil, fmt.Errorf("layer %q: %w", n, err)
			}
			plain, err = io.ReadAll(zr)
			if err != nil {
				return nil, fmt.Errorf("layer %q: %w", n, err)
			}
		}
		img.Blobs = append(img.Blobs, blob)
		img.Layers = append(img.Layers, plain)
	}
	for n := range files {
		if !used[n] {
			return nil, fmt.Errorf("image archive has the unused file %q", n)
		}
	}
	root, _ := img.Config["rootfs"].(map[string]interface{})
	if root["type"] != "layers" {
		return nil, fmt.Errorf("rootfs.type is %v", root["type"])
	}
	ids, _ := root["diff_ids"].([]interface{})
	if len(ids) != len(img.Layers) {
		return nil, fmt.Errorf("%d diff IDs for %d layers", len(ids), len(img.Layers))
	}
	for i, id := range img.DiffIDs() {
		if ids[i] != id {
			return nil, fmt.Errorf("diff ID %d is %v, layer has %v", i, ids[i], id)
		}
	}
	lib, err := ociv1tarball.Image(func() (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(bs)), nil }, nil)
	if err != nil {
		return nil, fmt.Errorf("loading the image: %w", err)
	}
	lm, err := lib.Manifest()
	if err != nil {
		return nil, fmt.Errorf("loading the image: %w", err)
	}
	ll, err := lib.Layers()
	if err != nil {
		return nil, fmt.Errorf("loading the image: %w", err)
	}
	if len(ll) != len(img.Layers) || len(lm.Layers) != len(img.Layers) {
		return nil, fmt.Errorf("loads with %d layers and %d descriptors, has %d", len(ll), len(lm.Layers), len(img.Layers))
	}
	for i, l := range ll {
		d, err := l.Digest()
		if err != nil {
			return nil, fmt.Errorf("loading the image: %w", err)
		}
		n, err := l.Size()
		if err != nil {
			return nil, fmt.Errorf("loading the image: %w", err)
		}
		if d != lm.Layers[i].Digest || d.Hex != Sum(img.Blobs[i]) {
			return nil, fmt.Errorf("layer %d loads with digest %v, descriptor has %v, the blob is %v", i, d, lm.Layers[i].Digest, Sum(img.Blobs[i]))
		}
		if n != lm.Layers[i].Size || n != int64(len(img.Blobs[i])) {
			return nil, fmt.Errorf("layer %d loads with size %v, descriptor has %v, the blob has %v", i, n, lm.Layers[i].Size, len(img.Blobs[i]))
		}
	}
	return img, nil
}
