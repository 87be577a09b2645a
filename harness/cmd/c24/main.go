// C24: a temporarily loaded docker image is always cleaned up.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/datawire/dlib/dexec"
	"github.com/google/go-containerregistry/pkg/name"
	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"

	"github.com/datawire/ocibuild/pkg/dockerutil"

	"verif/h"
)

var errLayer = errors.New("injected: the layer cannot be read")

// faulty is a layer that breaks off.
type faulty struct {
	ociv1.Layer
	at int
}

type faultyReader struct {
	r io.ReadCloser
	n int
}

func (f *faultyReader) Read(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, errLayer
	}
	if len(p) > f.n {
		p = p[:f.n]
	}
	n, err := f.r.Read(p)
	f.n -= n
	if err == io.EOF {
		err = errLayer
	}
	return n, err
}
func (f *faultyReader) Close() error { return f.r.Close() }

func (f faulty) Compressed() (io.ReadCloser, error) {
	if f.at < 0 {
		return nil, errLayer
	}
	r, err := f.Layer.Compressed()
	if err != nil {
		return nil, err
	}
	return &faultyReader{r, f.at}, nil
}

func (f faulty) Uncompressed() (io.ReadCloser, error) {
	if f.at < 0 {
		return nil, errLayer
	}
	r, err := f.Layer.Uncompressed()
	if err != nil {
		return nil, err
	}
	return &faultyReader{r, f.at}, nil
}

type faultyImage struct {
	ociv1.Image
	at int
}

func (f faultyImage) Layers() ([]ociv1.Layer, error) {
	ls, err := f.Image.Layers()
	if err != nil || len(ls) == 0 {
		return ls, err
	}
	ls = append([]ociv1.Layer(nil), ls...)
	ls[len(ls)-1] = faulty{ls[len(ls)-1], f.at}
	return ls, nil
}

func (f faultyImage) LayerByDigest(d ociv1.Hash) (ociv1.Layer, error) {
	l, err := f.Image.LayerByDigest(d)
	if err != nil {
		return nil, err
	}
	return faulty{l, f.at}, nil
}

func genImage(t *h.T, big bool) (ociv1.Image, h.Image) {
	im := h.Image{Tags: []string{"some/other:tag"}, Config: map[string]interface{}{
		"architecture": "amd64", "os": "linux",
		"config": map[string]interface{}{"Env": []string{fmt.Sprintf("X=%d", t.Int63())}},
	}}
	for i, n := 0, 1+t.Intn(3); i < n; i++ {
		body := t.Bytes(10 + t.Intn(300))
		if big {
			body = t.Bytes(200000)
		}
		e := h.Entry{Body: body}
		e.Hdr.Typeflag, e.Hdr.Name, e.Hdr.Mode, e.Hdr.ModTime = '0', fmt.Sprintf("f%d", i), 0o644, time.Unix(1e9, 0)
		bs, err := h.TarBytes([]h.Entry{e})
		if err != nil {
			h.Fatalf("%v", err)
		}
		im.Layers = append(im.Layers, bs)
	}
	raw := im.Tar(t.P(0.5))
	img, err := ociv1tarball.Image(func() (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(raw)), nil }, nil)
	if err != nil {
		h.Fatalf("%v", err)
	}
	return img, im
}

// loadedAs verifies what docker was given.
func loadedAs(t *h.T, file string, img ociv1.Image, want h.Image, tag string) {
	bs, err := os.ReadFile(file)
	if err != nil {
		h.Fatalf("%v", err)
	}
	got, err := h.DecodeImage(bs)
	if err != nil {
		t.Failf("docker was given a bad archive: %v", err)
	}
	full := func(ts []string) []string {
		var ret []string
		for _, s := range ts {
			ret = append(ret, s)
		}
		sort.Strings(ret)
		return ret
	}
	if !reflect.DeepEqual(full(got.Tags), []string{tag}) {
		t.Failf("docker was given the tags %q, want only %q", got.Tags, tag)
	}
	if len(got.Layers) != len(want.Layers) {
		t.Failf("docker was given %d layers, the image has %d", len(got.Layers), len(want.Layers))
	}
	for i := range got.Layers {
		if !bytes.Equal(got.Layers[i], want.Layers[i]) {
			t.Failf("layer %d of the loaded image differs", i)
		}
	}
	id, err := img.ConfigName()
	if err != nil {
		h.Fatalf("%v", err)
	}
	es, _ := h.ParseTar(bs)
	found := false
	for _, e := range es {
		found = found || "sha256:"+h.Sum(e.Body) == id.String()
	}
	if !found {
		t.Failf("the loaded archive does not hold the image's configuration %v", id)
	}
	t.Observe("loads_verified", 1)
}

func rmArgs(e h.DockerEvent) []string {
	var ret []string
	skip := 2
	if len(e.Argv) > 0 && e.Argv[0] == "rmi" {
		skip = 1
	}
	for _, a := range e.Argv[skip:] {
		if !strings.HasPrefix(a, "-") {
			ret = append(ret, a)
		}
	}
	return ret
}

func setPath(dir string) { _ = os.Setenv("PATH", dir) }

func await(what string, f func() bool) {
	for end := time.Now().Add(2 * time.Minute); !f(); {
		if time.Now().After(end) {
			h.Fatalf("waited two minutes for %s", what)
		}
		time.Sleep(2 * time.Millisecond)
	}
}

var loads = map[string]h.DockerStep{
	"ok":                 {},
	"slow":               {Sleep: 0.02},
	"fails":              {Exit: 3},
	"fails at once":      {Exit: 3, Read: -1},
	"fails halfway":      {Exit: 3, Read: 700},
	"fails but loads":    {Exit: 3, Apply: true},
	"killed":             {Signal: 9},
	"killed after":       {Signal: 15, Apply: true},
	"closes and hangs":   {Exit: 3, Read: 700, Close: true, Sleep: 0.03},
	"hangs":              {Hang: true},
	"hangs after effect": {Hang: true, Apply: true},
}

var rms = map[string]h.DockerStep{
	"ok":     {},
	"slow":   {Sleep: 0.02},
	"fails":  {Exit: 7},
	"killed": {Signal: 9},
	"hangs":  {Hang: true},
}

func keys(m map[string]h.DockerStep) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// running says if a process that was started exists and has not ended.
func running(pid int) bool {
	bs, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return false
	}
	return len(bs) > 0 // a zombie has not been waited for
}

func faults(t *h.T, load, act, rm, cancelAt string, imgFault, deadline bool) {
	dk := t.NewDocker(t.Scratch() + "/docker")
	ldStep, rmStep := loads[load], rms[rm]
	dk.Plan(map[string]h.DockerStep{"load": ldStep, "rm": rmStep})
	setPath(dk.Bin)
	img, want := genImage(t, t.P(0.3))
	use := img
	at := 0
	if imgFault {
		at = []int{-1, 0, 5, 100}[t.Intn(4)]
		use = faultyImage{img, at}
	}
	t.Inputf(true, "load=%s action=%s rm=%s cancel=%s imgFault=%v/%d deadline=%v layers=%d", load, act, rm, cancelAt, imgFault, at, deadline, len(want.Layers))
	t.State("scenario", fmt.Sprintf("%s/%s/%s/%s/%v", load, act, rm, cancelAt, imgFault))

	type ckey struct{}
	ctx, cancel := context.WithCancel(context.WithValue(h.QuietCtx(), ckey{}, 1))
	defer cancel()
	if deadline {
		// expiry instead of cancellation
		var c2 context.CancelFunc
		ctx, c2 = context.WithDeadline(ctx, time.Now().Add(time.Hour))
		defer c2()
	}
	if cancelAt == "before" {
		cancel()
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	started := func(cmd, ev string) bool {
		for _, e := range dk.Events() {
			if e.Cmd == cmd && e.Ev == ev {
				return true
			}
		}
		return false
	}
	watch := func(f func() bool, then func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !f() {
				select {
				case <-stop:
					return
				case <-time.After(2 * time.Millisecond):
				}
			}
			then()
		}()
	}
	switch cancelAt {
	case "load starts":
		watch(func() bool { return started("load", "start") }, cancel)
	case "loaded":
		watch(func() bool { return started("load", "loaded") }, cancel)
	case "removal":
		watch(func() bool { return started("rm", "start") }, func() {
			cancel()
			time.Sleep(20 * time.Millisecond)
			dk.Release()
		})
	}
	if rmStep.Hang && cancelAt != "removal" {
		watch(func() bool { return started("rm", "start") }, dk.Release)
	}
	if ldStep.Hang && cancelAt != "loaded" && cancelAt != "load starts" {
		watch(func() bool { return started("load", "loaded") }, dk.Release)
	}

	errAct := errors.New("injected: the action failed")
	calls := 0
	var tag string
	var before []h.DockerEvent
	var present []string
	fn := func(ctx context.Context, tg name.Tag) error {
		calls++
		tag = tg.String()
		before = dk.Events()
		present = dk.Tags()
		if ctx.Value(ckey{}) != 1 {
			t.Errorf("the action's context is not derived from the caller's")
		}
		if cancelAt == "action" {
			cancel()
			<-ctx.Done()
			if act == "ctx" {
				return ctx.Err()
			}
		}
		switch act {
		case "fails":
			return errAct
		case "panics":
			panic(errAct)
		case "exits":
			runtime.Goexit()
		case "slow":
			time.Sleep(20 * time.Millisecond)
		}
		return nil
	}
	var err error
	panicked, returned := false, false
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if r != error(errAct) { //nolint
					t.Errorf("panic: %v", r)
				}
				panicked = true
			}
		}()
		err = dockerutil.WithImage(ctx, "verif/case", use, fn)
		returned = true
	}()
	<-done
	for _, e := range dk.Events() {
		if e.Ev == "start" {
			t.Observe("docker_processes_checked", 1)
			if running(e.Pid) {
				t.Errorf("docker %s is still running after the call has returned", e.Cmd)
			}
		}
	}
	close(stop)
	wg.Wait()
	dk.Release()
	t.Observe("uses", 1)

	// ---- judge the trace
	evs := dk.Events()
	var trace []string
	var loadStarts, loadOK, rmStarts int
	var loadFile string
	var rmTags [][]string
	for _, e := range evs {
		trace = append(trace, fmt.Sprintf("%s %s %v %v %d", e.Cmd, e.Ev, e.Argv, e.Tags, e.Code))
		switch {
		case e.Cmd == "load" && e.Ev == "start":
			loadStarts++
		case e.Cmd == "load" && e.Ev == "loaded":
			loadFile = e.File
		case e.Cmd == "load" && e.Ev == "end" && e.Code == 0:
			loadOK++
		case e.Cmd == "rm" && e.Ev == "start":
			rmStarts++
			rmTags = append(rmTags, rmArgs(e))
		case e.Cmd == "other" || e.Cmd == "run":
			t.Errorf("unexpected docker command %q", e.Argv)
		}
	}
	t.Observe("docker_events", len(evs))
	t.Sample(trace)
	tr := strings.Join(trace, "\n")
	if loadStarts > 1 {
		t.Errorf("the image was loaded %d times\n%s", loadStarts, tr)
	}
	if rmStarts > 1 || (loadStarts == 1 && rmStarts != 1) {
		t.Errorf("the removal was run %d times after %d loads\n%s", rmStarts, loadStarts, tr)
	}
	removable := !(rmStep.Exit != 0 || rmStep.Signal != 0)
	if left := dk.Tags(); len(left) > 0 && removable {
		t.Errorf("leaked %q\n%s", left, tr)
	}
	if calls > 1 {
		t.Errorf("the action ran %d times", calls)
	}
	if calls == 1 {
		t.Observe("actions", 1)
		ended, removed := false, false
		for _, e := range before {
			ended = ended || e.Cmd == "load" && e.Ev == "end" && e.Code == 0
			removed = removed || e.Cmd == "rm"
		}
		if !ended {
			t.Errorf("the action ran although the load had not succeeded\n%s", tr)
		}
		if removed {
			t.Errorf("the action ran after the removal\n%s", tr)
		}
		if ended && !reflect.DeepEqual(present, []string{tag}) {
			t.Errorf("during the action the tags were %q, the action was given %q", present, tag)
		}
		if len(rmTags) == 1 && !reflect.DeepEqual(rmTags[0], []string{tag}) {
			t.Errorf("removed %q, not %q", rmTags[0], tag)
		}
		if !imgFault {
			loadedAs(t, loadFile, img, want, tag)
		}
	}
	// a removal speaks about the tag that was loaded
	for _, e := range evs {
		if e.Ev == "loaded" && len(e.Tags) > 0 && len(rmTags) == 1 && !reflect.DeepEqual(e.Tags, rmTags[0]) {
			t.Errorf("loaded %q, removed %q", e.Tags, rmTags[0])
		}
	}
	loadFails := ldStep.Exit != 0 || ldStep.Signal != 0 || imgFault || cancelAt == "before" ||
		((cancelAt == "load starts" || cancelAt == "loaded") && ldStep.Hang)
	maybe := (cancelAt == "load starts" || cancelAt == "loaded") && !loadFails // either way
	if loadFails && calls > 0 {
		t.Errorf("the action ran although the load failed\n%s", tr)
	}
	if !loadFails && !maybe && calls != 1 {
		t.Errorf("the action did not run although nothing failed before it (%v)\n%s", err, tr)
	}
	// ---- judge the error
	if calls == 1 && act == "panics" {
		if !panicked {
			t.Errorf("the action's panic was swallowed: %v", err)
		}
		return
	}
	if calls == 1 && act == "exits" {
		if returned {
			t.Errorf("the action's Goexit was swallowed")
		}
		return
	}
	var ee *dexec.ExitError
	code := func(err error) int {
		if errors.As(err, &ee) {
			return ee.ExitCode()
		}
		return -99
	}
	canceled := cancelAt != "" && errors.Is(err, context.Canceled)
	switch {
	case calls == 0:
		if err == nil {
			t.Errorf("success although the load failed\n%s", tr)
		} else if c := code(err); c == 7 || (c == 1 && ldStep.Exit != 1) {
			t.Errorf("the load failed, the caller sees the removal's failure: %v\n%s", err, tr)
		}
		t.State("error", "load: "+fmt.Sprint(err))
	case act == "fails":
		if !errors.Is(err, errAct) {
			t.Errorf("the action failed, the caller sees %v", err)
		}
		t.State("error", "action")
	case act == "ctx" && cancelAt == "action":
		if !canceled {
			t.Errorf("the action was canceled, the caller sees %v", err)
		}
		t.State("error", "canceled")
	case rmStep.Exit != 0:
		if code(err) != rmStep.Exit && !canceled {
			t.Errorf("the removal failed, the caller sees %v", err)
		}
		t.State("error", "removal")
	case rmStep.Signal != 0:
		if err == nil {
			t.Errorf("the removal was killed, the caller sees success")
		}
		t.State("error", "removal killed")
	default:
		if err != nil && !canceled {
			t.Errorf("nothing failed, the caller sees %v\n%s", err, tr)
		}
		t.State("error", "none")
	}
}

// noDocker: the program is not there.
func noDocker(t *h.T) {
	setPath(t.Scratch() + "/empty")
	img, _ := genImage(t, false)
	t.Input(true, "no docker")
	err := dockerutil.WithImage(h.QuietCtx(), "verif/case", img, func(context.Context, name.Tag) error {
		t.Errorf("the action ran without docker")
		return nil
	})
	if err == nil {
		t.Errorf("success without docker")
	}
	t.Observe("uses", 1)
}

// badName: no tag can be made.
func badName(t *h.T) {
	dk := t.NewDocker(t.Scratch() + "/docker")
	setPath(dk.Bin)
	img, _ := genImage(t, false)
	n := t.Pick("UPPER case", "", "a:b", "x@y", strings.Repeat("n", 300))
	t.Inputf(true, "name %q", n)
	err := dockerutil.WithImage(h.QuietCtx(), n, img, func(context.Context, name.Tag) error {
		t.Errorf("the action ran")
		return nil
	})
	if err == nil {
		t.Errorf("success with the name %q", n)
	}
	if evs := dk.Events(); len(dk.Tags()) > 0 {
		t.Errorf("leaked %v %v", dk.Tags(), evs)
	}
}

// together: many uses at once.
func together(t *h.T) {
	dk := t.NewDocker(t.Scratch() + "/docker")
	setPath(dk.Bin)
	n := 4 + t.Intn(12)
	t.Inputf(true, "together %d", n)
	same := t.P(0.3)
	type use struct {
		img  ociv1.Image
		want h.Image
		tag  string
		err  error
		fail bool
	}
	us := make([]*use, n)
	for i := range us {
		u := &use{fail: t.P(0.3)}
		u.img, u.want = genImage(t, false)
		if same && i > 0 {
			u.img, u.want = us[0].img, us[0].want
		}
		us[i] = u
	}
	errAct := errors.New("injected")
	var wg sync.WaitGroup
	gate := make(chan struct{})
	var inside int32
	var most int32
	for _, u := range us {
		u := u
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			u.err = dockerutil.WithImage(h.QuietCtx(), "verif/case", u.img, func(_ context.Context, tg name.Tag) error {
				u.tag = tg.String()
				if k := atomic.AddInt32(&inside, 1); k > atomic.LoadInt32(&most) {
					atomic.StoreInt32(&most, k)
				}
				here := false
				for _, x := range dk.Tags() {
					here = here || x == u.tag
				}
				if !here {
					t.Errorf("the tag %q does not exist during its action", u.tag)
				}
				time.Sleep(5 * time.Millisecond)
				atomic.AddInt32(&inside, -1)
				if u.fail {
					return errAct
				}
				return nil
			})
		}()
	}
	close(gate)
	wg.Wait()
	t.State("overlap", fmt.Sprint(most))
	seen := map[string]int{}
	evs := dk.Events()
	for i, u := range us {
		if (u.err != nil) != u.fail || (u.fail && !errors.Is(u.err, errAct)) {
			t.Errorf("use %d: %v", i, u.err)
		}
		if j, dup := seen[u.tag]; dup {
			t.Errorf("uses %d and %d share the tag %q", i, j, u.tag)
		}
		seen[u.tag] = i
		nl, nr := 0, 0
		for _, e := range evs {
			if e.Ev == "loaded" && len(e.Tags) == 1 && e.Tags[0] == u.tag {
				nl++
				loadedAs(t, e.File, u.img, u.want, u.tag)
			}
			if e.Cmd == "rm" && e.Ev == "start" && reflect.DeepEqual(rmArgs(e), []string{u.tag}) {
				nr++
			}
		}
		if nl != 1 || nr != 1 {
			t.Errorf("the tag %q was loaded %d times and removed %d times", u.tag, nl, nr)
		}
	}
	if l := dk.Tags(); len(l) > 0 {
		t.Errorf("leaked %q", l)
	}
	t.Observe("concurrent_uses", n)
}

// burst: very many uses at the same instant, with a docker that only reads.
func burst(t *h.T) {
	bin := t.Scratch() + "/bin"
	t.WriteFile(filepath.Join(bin, "docker"), []byte("#!/bin/sh\nexec /bin/cat >/dev/null\n"), 0o755)
	setPath(bin)
	img, _ := genImage(t, false)
	ctx := h.QuietCtx()
	n := []int{4, 4, 5, 6, 48}[t.Intn(5)]
	t.Inputf(true, "burst %s", t.Name)
	tags := make(chan string, n)
	var wg sync.WaitGroup
	// one worker at a time, so that there are cores for the uses to be truly simultaneous
	lk, err := os.OpenFile(filepath.Join(os.TempDir(), "burst.lock"), os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		h.Fatalf("%v", err)
	}
	defer lk.Close()
	if err := syscall.Flock(int(lk.Fd()), syscall.LOCK_EX); err != nil {
		h.Fatalf("%v", err)
	}
	var gate, ready int32
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&gate) == 0 {
				if n > 6 {
					runtime.Gosched()
				}
			}
			_ = dockerutil.WithImage(ctx, "verif/case", img, func(_ context.Context, tg name.Tag) error {
				tags <- tg.String()
				return nil
			})
		}()
	}
	for int(atomic.LoadInt32(&ready)) < n {
		runtime.Gosched()
	}
	atomic.StoreInt32(&gate, 1)
	wg.Wait()
	close(tags)
	seen := map[string]bool{}
	for tg := range tags {
		if seen[tg] {
			t.Errorf("two concurrent uses share the tag %q", tg)
		}
		seen[tg] = true
	}
	t.Observe("burst_tags", len(seen))
}

// cli: the program's use of it.
func cli(t *h.T) {
	dk := t.NewDocker(t.Scratch() + "/docker")
	e := h.Entry{Body: []byte("#!")}
	e.Hdr.Typeflag, e.Hdr.Name, e.Hdr.Mode, e.Hdr.ModTime = '0', "usr/bin/python3", 0o755, time.Unix(1e9, 0)
	bs, _ := h.TarBytes([]h.Entry{e})
	im := h.Image{Tags: []string{"x/y:z"}, Config: map[string]interface{}{"architecture": "amd64", "os": "linux", "config": map[string]interface{}{"Env": []string{"PATH=/usr/bin"}}}, Layers: [][]byte{bs}}
	f := t.WriteFile("image.tar", im.Tar(t.P(0.5)), 0o644)
	var ok []string
	for _, k := range keys(loads) {
		if !loads[k].Hang {
			ok = append(ok, k)
		}
	}
	load, rm := t.Pick(ok...), t.Pick("ok", "fails", "killed")
	run := t.Pick("fails", "killed", "missing", "garbage")
	plan := map[string]h.DockerStep{"load": loads[load], "rm": rms[rm]}
	switch run {
	case "fails":
		plan["run"] = h.DockerStep{Exit: 9}
	case "killed":
		plan["run"] = h.DockerStep{Signal: 9}
	case "garbage":
		dk.Entries(map[string]string{"/usr/bin/python3": "/usr/bin/echo"})
	}
	dk.Plan(plan)
	t.Inputf(true, "cli load=%s run=%s rm=%s", load, run, rm)
	r := t.CLI(h.Cmd{Args: []string{"python", "inspect", "--imagefile=" + f}, Env: []string{"PATH=" + dk.Bin}})
	if r.Code == 0 || len(r.Out) > 0 {
		t.Errorf("exit status %d, output %q", r.Code, r.Out)
	}
	nl, nr, nrun := 0, 0, 0
	tag := ""
	for _, e := range dk.Events() {
		switch {
		case e.Cmd == "load" && e.Ev == "start":
			nl++
		case e.Ev == "loaded" && len(e.Tags) == 1:
			tag = e.Tags[0]
		case e.Cmd == "rm" && e.Ev == "start":
			nr++
			if a := rmArgs(e); tag != "" && !reflect.DeepEqual(a, []string{tag}) {
				t.Errorf("loaded %q, removed %q", tag, a)
			}
		case e.Cmd == "run" && e.Ev == "start":
			nrun++
			if nr > 0 {
				t.Errorf("run after the removal")
			}
		}
	}
	if nl != 1 || nr != 1 {
		t.Errorf("%d loads and %d removals", nl, nr)
	}
	if s := loads[load]; (s.Exit != 0 || s.Signal != 0) && nrun > 0 {
		t.Errorf("ran the image although it was not loaded")
	}
	if s := rms[rm]; s.Exit == 0 && s.Signal == 0 && len(dk.Tags()) > 0 {
		t.Errorf("leaked %q", dk.Tags())
	}
	t.Observe("cli_uses", 1)
}

func main() {
	h.Main(h.Config{
		ID: "C24",
		Rule: "a recording stand-in docker whose load and removal succeed, fail, fail halfway, take effect but fail, hang or are killed, crossed with actions that succeed, fail, panic or exit, with images that cannot be read, and with cancellation before, during load, during the action and during removal; " +
			"the recorded trace is checked for one load of exactly the image, one action after it, one removal of exactly the tag after that, no tag left, and the first failure reported; concurrent uses and bursts check that tags are never shared",
		Require:     []string{"uses", "actions", "docker_events", "loads_verified", "concurrent_uses", "burst_tags", "cli_uses"},
		Assumptions: []string{"docker is a stand-in", "killing the whole process by a signal is not a cancellation"},
	}, func(c *h.C) {
		for _, l := range keys(loads) {
			for _, a := range []string{"ok", "fails", "panics", "exits"} {
				for _, r := range keys(rms) {
					l, a, r := l, a, r
					if a != "ok" && l != "ok" && !loads[l].Hang {
						continue
					}
					c.Directed(fmt.Sprintf("%s/%s/%s", l, a, r), func(t *h.T) { faults(t, l, a, r, "", false, false) })
				}
			}
		}
		for _, at := range []string{"before", "load starts", "loaded", "action", "removal"} {
			for _, l := range []string{"ok", "slow", "hangs", "hangs after effect"} {
				for _, a := range []string{"ok", "ctx", "fails", "panics"} {
					for _, r := range []string{"ok", "fails", "hangs"} {
						at, l, a, r := at, l, a, r
						if (at == "action" || at == "removal") && loads[l].Hang {
							continue
						}
						if at == "removal" && r != "hangs" {
							continue
						}
						if a == "ctx" && at != "action" {
							continue
						}
						c.Directed(fmt.Sprintf("cancel %s/%s/%s/%s", at, l, a, r), func(t *h.T) { faults(t, l, a, r, at, false, t.P(0.5)) })
					}
				}
			}
		}
		c.Directed("no docker", noDocker)
		c.Group("bad name", c.N(5, 20), badName)
		c.Group("image fault", c.N(16, 200), func(t *h.T) {
			faults(t, t.Pick("ok", "slow", "fails"), "ok", t.Pick("ok", "fails"), "", true, false)
		})
		c.Group("random", c.N(60, 3000), func(t *h.T) {
			ks := keys(loads)
			var safe []string
			for _, k := range ks {
				if !loads[k].Hang {
					safe = append(safe, k)
				}
			}
			at := t.Pick("", "", "before", "load starts", "loaded", "action")
			faults(t, t.Pick(safe...), t.Pick("ok", "fails", "panics", "slow"), t.Pick("ok", "slow", "fails", "killed"), at, t.P(0.1), t.P(0.3))
		})
		c.Group("together", c.N(16, 400), together)
		c.Group("burst", c.N(500, 15000), burst)
		c.Group("cli", c.N(24, 300), cli)
	})
}
