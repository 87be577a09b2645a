package h

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Cmd is one run of the real command-line program.
type Cmd struct {
	Args   []string
	Stdin  io.Reader
	Stdout *os.File // if nil, captured
	Dir    string
	Env    []string // overrides, "K=V"; "K" alone removes
	Tmp    string   // TMPDIR of the run; default: a fresh directory
	Aux    bool     // use the binary built with -tags aux
	UID    uint32   // run as this user if non-zero
	Umask  int      // if non-zero, run under this umask
	Stderr *os.File // if nil, captured
	Wrap   []string // run the program through this command
	// MayCrash is for runs under limits that the language runtime may give up at.
	MayCrash bool
}

// Result is what was observed.
type Result struct {
	Code     int // exit status; -1 if killed by a signal
	Signal   string
	Out, Err []byte
	Left     []string // files left in TMPDIR
	Hung     bool     // did not end on its own (only ever reported as inconclusive)
}

// OCIBuild returns the path of the built program.
func OCIBuild() string {
	p := os.Getenv("VERIF_OCIBUILD")
	if p == "" {
		Fatalf("VERIF_OCIBUILD not set")
	}
	return p
}

// CLI runs ocibuild.
func (t *T) CLI(c Cmd) Result {
	exe := os.Getenv("VERIF_OCIBUILD")
	if c.Aux {
		exe = os.Getenv("VERIF_OCIBUILD_AUX")
	}
	if exe == "" {
		Fatalf("the program was not built")
	}
	tmp := c.Tmp
	if tmp == "" {
		d, err := os.MkdirTemp(t.Scratch(), "tmp.")
		if err != nil {
			Fatalf("%v", err)
		}
		_ = os.Chmod(d, 0o777)
		tmp = d
	}
	args := c.Args
	if c.Umask != 0 {
		args = append([]string{"-c", `umask "$1"; shift; exec "$@"`, "sh", octal(c.Umask), exe}, args...)
		exe = "/bin/sh"
	}
	if len(c.Wrap) > 0 {
		args = append(append(append([]string(nil), c.Wrap[1:]...), exe), args...)
		exe = c.Wrap[0]
	}
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Dir = c.Dir
	if cmd.Dir == "" {
		cmd.Dir = t.Scratch()
	}
	env := map[string]string{
		"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/nonexistent", "TMPDIR": tmp, "LC_ALL": "C.UTF-8", "TZ": "UTC",
	}
	if d := os.Getenv("GOCOVERDIR"); d != "" { // a coverage run of the framework itself
		env["GOCOVERDIR"] = d
	}
	for _, kv := range c.Env {
		if i := strings.Index(kv, "="); i >= 0 {
			env[kv[:i]] = kv[i+1:]
		} else {
			delete(env, kv)
		}
	}
	for k, v := range env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	sort.Strings(cmd.Env)
	var out, errb bytes.Buffer
	cmd.Stdin = c.Stdin
	cmd.Stdout = &out
	if c.Stdout != nil {
		cmd.Stdout = c.Stdout
	}
	cmd.Stderr = &errb
	if c.Stderr != nil {
		cmd.Stderr = c.Stderr
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if c.UID != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: c.UID, Gid: c.UID}
	}
	err := cmd.Run()
	res := Result{Out: out.Bytes(), Err: errb.Bytes()}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		res.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.Signal = ws.Signal().String()
		}
	default:
		// stdin copy errors and the like are not the program's
		if cmd.ProcessState != nil {
			res.Code = cmd.ProcessState.ExitCode()
		} else {
			Fatalf("cannot run %s: %v", exe, err)
		}
	}
	if ctx.Err() != nil {
		Fatalf("%q did not end within 10 minutes", args)
	}
	t.Observe("cli_runs", 1)
	if !c.MayCrash && bytes.Contains(res.Err, []byte("\ngoroutine ")) && bytes.Contains(res.Err, []byte("[running")) {
		t.Failf("the program crashed instead of reporting a failure: %q\n%.2000s", args, res.Err)
	}
	_ = filepath.Walk(tmp, func(p string, info os.FileInfo, err error) error {
		if err == nil && p != tmp {
			rel, _ := filepath.Rel(tmp, p)
			res.Left = append(res.Left, rel)
		}
		return nil
	})
	return res
}

func octal(n int) string {
	s := ""
	for n > 0 {
		s = string(rune('0'+n%8)) + s
		n /= 8
	}
	return "0" + s
}

// WriteFile writes a scratch file.
func (t *T) WriteFile(name string, bs []byte, mode os.FileMode) string {
	fn := name
	if !filepath.IsAbs(fn) {
		fn = filepath.Join(t.Scratch(), name)
	}
	if err := os.MkdirAll(filepath.Dir(fn), 0o755); err != nil {
		Fatalf("%v", err)
	}
	if err := os.WriteFile(fn, bs, mode); err != nil {
		Fatalf("%v", err)
	}
	if err := os.Chmod(fn, mode); err != nil {
		Fatalf("%v", err)
	}
	return fn
}

// OpenScratch gives a case directory that every user can reach, and a directory in it owned by uid.
func (t *T) OpenScratch(uid int) string {
	d := t.Scratch()
	for p := d; p != "/tmp" && p != "/" && strings.Contains(p, "verif-"); p = filepath.Dir(p) {
		if err := os.Chmod(p, 0o711); err != nil {
			Fatalf("%v", err)
		}
	}
	u := filepath.Join(d, "user")
	if err := os.MkdirAll(u, 0o755); err != nil {
		Fatalf("%v", err)
	}
	if err := os.Chown(u, uid, uid); err != nil {
		Fatalf("%v", err)
	}
	return u
}
