package h

import (
	"bufio"
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"sync"
	"syscall"
)

// pyProc is a long-lived CPython that answers one JSON line per JSON line.
type pyProc struct {
	mu  sync.Mutex
	in  io.WriteCloser
	out *bufio.Reader
}

var (
	pyMu    sync.Mutex
	pyProcs = map[string]*pyProc{}
)

const pyLoop = `
import sys as _sys, json as _json
for _line in _sys.stdin:
    _sys.stdout.write(_json.dumps(answer(_json.loads(_line))) + "\n")
    _sys.stdout.flush()
`

// Py asks the oracle defined by script (which must define answer(req)) a question.  The oracle runs
// in CPython, in a process of its own that shares nothing with the code under test.
func (t *T) Py(script string, req, resp interface{}) {
	pyMu.Lock()
	p := pyProcs[script]
	if p == nil {
		cmd := exec.Command("/usr/bin/python3", "-c", script+pyLoop)
		cmd.Env = []string{"PATH=/usr/bin:/bin", "LC_ALL=C.UTF-8", "PYTHONDONTWRITEBYTECODE=1", "PYTHONIOENCODING=utf-8", "TZ=UTC"}
		cmd.Stderr = os.Stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		in, err := cmd.StdinPipe()
		if err != nil {
			Fatalf("oracle: %v", err)
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			Fatalf("oracle: %v", err)
		}
		if err := cmd.Start(); err != nil {
			Fatalf("oracle: %v", err)
		}
		p = &pyProc{in: in, out: bufio.NewReaderSize(out, 1<<20)}
		pyProcs[script] = p
	}
	pyMu.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	bs, err := json.Marshal(req)
	if err != nil {
		Fatalf("oracle: %v", err)
	}
	if _, err := p.in.Write(append(bs, '\n')); err != nil {
		Fatalf("oracle: %v", err)
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		Fatalf("oracle: %v", err)
	}
	if err := json.Unmarshal(line, resp); err != nil {
		Fatalf("oracle: %v", err)
	}
	t.Observe("oracle_calls", 1)
}
