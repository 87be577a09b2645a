package h

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
)

// PySpec describes a stand-in Python: the real CPython, with the modules that describe it replaced.
type PySpec struct {
	Magic  []byte
	Tags   []string
	Ver    [3]int
	Level  string
	Serial int
	Scheme map[string]string
	Broken string // fails in this way instead
}

// SchemeKeys are the installation directories.
var SchemeKeys = []string{"purelib", "platlib", "headers", "scripts", "data"}

// Install makes an executable that behaves like the given Python.
func (s PySpec) Install(t *T, fn string) {
	switch s.Broken {
	case "exit":
		t.WriteFile(fn, []byte("#!/bin/sh\necho 'No module named packaging' >&2\nexit 1\n"), 0o755)
		return
	case "garbage":
		t.WriteFile(fn, []byte("#!/bin/sh\necho 'Welcome to Python!'\n"), 0o755)
		return
	case "killed":
		t.WriteFile(fn, []byte("#!/bin/sh\nkill -9 $$\n"), 0o755)
		return
	case "empty":
		t.WriteFile(fn, []byte("#!/bin/sh\nexit 0\n"), 0o755)
		return
	}
	d, err := os.MkdirTemp(t.Scratch(), "mods.")
	if err != nil {
		Fatalf("%v", err)
	}
	_ = os.Chmod(d, 0o755)
	js := func(v interface{}) string { bs, _ := json.Marshal(v); return string(bs) }
	t.WriteFile(d+"/sitecustomize.py", []byte(fmt.Sprintf(`
import sys
if '-m' not in sys.orig_argv:
    import importlib.util, base64, collections
    importlib.util.MAGIC_NUMBER = base64.b64decode(%q)
    sys.version_info = collections.namedtuple('version_info', 'major minor micro releaselevel serial')(%d, %d, %d, %q, %d)
`, base64.StdEncoding.EncodeToString(s.Magic), s.Ver[0], s.Ver[1], s.Ver[2], s.Level, s.Serial)), 0o644)
	t.WriteFile(d+"/packaging/__init__.py", nil, 0o644)
	t.WriteFile(d+"/packaging/tags.py", []byte(fmt.Sprintf(`
class Tag:
    def __init__(self, s): self.s = s; self.interpreter, self.abi, self.platform = s.split('-')
    def __str__(self): return self.s
def sys_tags(**kw):
    for t in %s: yield Tag(t)
`, js(s.Tags))), 0o644)
	t.WriteFile(d+"/pip/__init__.py", nil, 0o644)
	t.WriteFile(d+"/pip/_internal/__init__.py", nil, 0o644)
	t.WriteFile(d+"/pip/_internal/locations.py", []byte(fmt.Sprintf(`
class Scheme:
    __slots__ = ['platlib', 'purelib', 'headers', 'scripts', 'data']
def get_scheme(dist_name, *a, **kw):
    s = Scheme()
    for k, v in %s.items(): setattr(s, k, v)
    return s
`, js(s.Scheme))), 0o644)
	t.WriteFile(fn, []byte(fmt.Sprintf("#!/bin/sh\nexec /usr/bin/env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH='%s' /usr/bin/python3 \"$@\"\n", d)), 0o755)
}
