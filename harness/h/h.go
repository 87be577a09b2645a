// Package h is the shared runtime of the monitors: a deterministic case scheduler, a crash /
// non-termination supervisor, verdict bookkeeping, and the evidence writer.
//
// A check binary runs in two roles.  The supervisor (default) starts N worker processes (itself,
// with H_WORKER set), each of which executes its share of the case list.  A worker appends to a
// journal before and after every case, so that when it dies (panic in another goroutine, fatal
// "concurrent map" error, stack overflow, SIGKILL) or burns an absurd amount of CPU or memory in one
// case, the supervisor can say which case did it.  All verdicts come from oracles over observed
// results; wall-clock time is never a verdict.
package h

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Config describes one check.
type Config struct {
	ID    string
	Level string // default "exploration"
	Rule  string // how cases are made and what makes one non-trivial
	// Require lists observation counters that must be non-zero for the run to mean anything.
	Require     []string
	Assumptions []string
	// Race: a data race reported by the race detector is a violation of this property.
	Race bool
	// Shards overrides the number of worker processes.
	Shards int
	// CPUPerCase is the CPU-seconds budget one case may burn before it is judged
	// non-terminating (default 120).
	CPUPerCase float64
	// RSSPerWorker (bytes): resident memory above which a case is judged to consume
	// unbounded memory (default 8 GiB).
	RSSPerWorker int64
}

const maxViolationsPerWorker = 25

// C is the context of a run inside a worker.
type C struct {
	cfg     Config
	Tier    string
	Seed    int64
	shard   int
	nshards int
	only    string
	counter int
	journal *os.File
	res     workerResult
	seen    map[string]struct{}
	scratch string
	mu      sync.Mutex
}

type violation struct {
	Key   string `json:"key"`
	Case  string `json:"case"`
	Msg   string `json:"msg"`
	Input string `json:"input"`
}

type workerResult struct {
	Evaluations int               `json:"evaluations"`
	Distinct    []string          `json:"distinct"`
	Samples     []json.RawMessage `json:"samples"`
	Counters    map[string]int64  `json:"counters"`
	States      map[string]map[string]int64
	Violations  []violation `json:"violations"`
	Done        bool        `json:"done"`
}

// T is one case.
type T struct {
	*rand.Rand
	C       *C
	Name    string
	key     string
	input   string
	sample  interface{}
	nontriv bool
	scratch string
	nfail   int
}

type abort struct{}

// Thorough reports whether this is the thorough tier.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// N picks a case count by tier.
func (c *C) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Group runs fn for n cases; case i's PRNG depends only on (seed, name, i).
func (c *C) Group(name string, n int, fn func(t *T)) {
	for i := 0; i < n; i++ {
		c.run(fmt.Sprintf("%s/%d", name, i), "", fn)
	}
}

// Directed runs one fixed case, whose key ("name") is stable across seeds and may therefore be listed
// as a known finding.
func (c *C) Directed(name string, fn func(t *T)) {
	c.run(name, name, fn)
}

func (c *C) run(name, key string, fn func(t *T)) {
	idx := c.counter
	c.counter++
	if c.only != "" {
		if c.only != name {
			return
		}
	} else if idx%c.nshards != c.shard {
		return
	}
	if len(c.res.Violations) >= maxViolationsPerWorker {
		return
	}
	hsh := fnv.New64a()
	fmt.Fprintf(hsh, "%d|%s", c.Seed, name)
	t := &T{
		Rand: rand.New(rand.NewSource(int64(hsh.Sum64() & 0x7fffffffffffffff))),
		C:    c,
		Name: name,
		key:  key,
	}
	fmt.Fprintf(c.journal, "B %s\n", name)
	c.res.Evaluations++
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				t.nfail++
				c.addViolation(t, fmt.Sprintf("panic: %v\n%s", r, debug.Stack()))
			}
		}()
		fn(t)
	}()
	if t.scratch != "" {
		_ = forceRemoveAll(t.scratch)
	}
	if t.nontriv && t.input != "" {
		sum := sha256.Sum256([]byte(t.input))
		k := hex.EncodeToString(sum[:12])
		if _, ok := c.seen[k]; !ok {
			c.seen[k] = struct{}{}
			c.res.Distinct = append(c.res.Distinct, k)
			if len(c.res.Samples) < 2 {
				in := t.input
				if len(in) > 1500 {
					in = in[:1500] + "...(truncated)"
				}
				bs, _ := json.Marshal(map[string]interface{}{"case": name, "input": in, "observed": t.sample})
				c.res.Samples = append(c.res.Samples, bs)
			}
		}
	}
	fmt.Fprintf(c.journal, "E %s\n", name)
}

func (c *C) addViolation(t *T, msg string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	key := t.key
	if key == "" {
		key = t.Name
	}
	if len(msg) > 6000 {
		msg = msg[:6000] + "...(truncated)"
	}
	in := t.input
	if len(in) > 20000 {
		in = in[:20000] + "...(truncated)"
	}
	v := violation{Key: key, Case: t.Name, Msg: msg, Input: in}
	c.res.Violations = append(c.res.Violations, v)
	bs, _ := json.Marshal(v)
	fmt.Fprintf(c.journal, "V %s\n", bs)
}

// Input records the canonical description of the case's input (used for distinctness and replay), and
// whether it is non-trivial.
func (t *T) Input(nontrivial bool, desc string) {
	t.input = desc
	t.nontriv = nontrivial
	if len(desc) > 4000 {
		desc = desc[:4000]
	}
	fmt.Fprintf(t.C.journal, "I %s\n", strings.ReplaceAll(desc, "\n", "\\n"))
}

// Inputf is Input with formatting.
func (t *T) Inputf(nontrivial bool, format string, args ...interface{}) {
	t.Input(nontrivial, fmt.Sprintf(format, args...))
}

// Sample attaches what was observed.
func (t *T) Sample(v interface{}) { t.sample = v }

// Observe bumps a counter of observed events.
func (t *T) Observe(name string, n int) {
	t.C.mu.Lock()
	t.C.res.Counters[name] += int64(n)
	t.C.mu.Unlock()
}

// State counts distinct values seen of one kind.
func (t *T) State(kind, val string) {
	t.C.mu.Lock()
	defer t.C.mu.Unlock()
	m := t.C.res.States[kind]
	if m == nil {
		m = make(map[string]int64)
		t.C.res.States[kind] = m
	}
	if len(m) < 4000 || m[val] > 0 {
		m[val]++
	}
}

// Failf records a violation and ends the case.
func (t *T) Failf(format string, args ...interface{}) {
	t.Errorf(format, args...)
	panic(abort{})
}

// Errorf records a violation (at most 3 per case) and goes on.
func (t *T) Errorf(format string, args ...interface{}) {
	t.nfail++
	if t.nfail <= 3 {
		t.C.addViolation(t, fmt.Sprintf(format, args...))
	}
}

// Failed reports whether the case already has a violation.
func (t *T) Failed() bool { return t.nfail > 0 }

// Scratch returns a directory private to this case; it is removed afterwards.
func (t *T) Scratch() string {
	if t.scratch == "" {
		d, err := os.MkdirTemp(t.C.scratch, "case.")
		if err != nil {
			Fatalf("scratch: %v", err)
		}
		t.scratch = d
	}
	return t.scratch
}

// P returns true with probability p.
func (t *T) P(p float64) bool { return t.Float64() < p }

// Pick picks one of the strings.
func (t *T) Pick(xs ...string) string { return xs[t.Intn(len(xs))] }

// Bytes returns n random bytes.
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	t.Rand.Read(b)
	return b
}

// Fatalf ends the process with an error of the check itself (neither held nor violated).
func Fatalf(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

func forceRemoveAll(dir string) error {
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.IsDir() {
			_ = os.Chmod(p, 0o755)
		}
		return nil
	})
	return os.RemoveAll(dir)
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// Main is the entry point of a check binary.
func Main(cfg Config, run func(c *C)) {
	if cfg.Level == "" {
		cfg.Level = "exploration"
	}
	if cfg.CPUPerCase == 0 {
		cfg.CPUPerCase = 120
	}
	if cfg.RSSPerWorker == 0 {
		cfg.RSSPerWorker = 8 << 30
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	if os.Getenv("H_WORKER") != "" {
		worker(cfg, tier, seed, run)
		return
	}
	os.Exit(supervise(cfg, tier, seed))
}

func worker(cfg Config, tier string, seed int64, run func(c *C)) {
	dir := os.Getenv("H_DIR")
	shard := int(envInt("H_SHARD", 0))
	journal, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		Fatalf("journal: %v", err)
	}
	scratch := filepath.Join(dir, fmt.Sprintf("scratch.%d", shard))
	if err := os.MkdirAll(scratch, 0o755); err != nil {
		Fatalf("scratch: %v", err)
	}
	tmp := filepath.Join(dir, fmt.Sprintf("tmp.%d", shard))
	if err := os.MkdirAll(tmp, 0o777); err != nil {
		Fatalf("tmp: %v", err)
	}
	_ = os.Setenv("TMPDIR", tmp)
	c := &C{
		cfg: cfg, Tier: tier, Seed: seed,
		shard: shard, nshards: int(envInt("H_NSHARDS", 1)),
		only: os.Getenv("H_ONLY"), journal: journal,
		seen: make(map[string]struct{}), scratch: scratch,
	}
	c.res.Counters = make(map[string]int64)
	c.res.States = make(map[string]map[string]int64)
	run(c)
	c.res.Done = true
	bs, err := json.Marshal(c.res)
	if err != nil {
		Fatalf("marshal: %v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d", shard)), bs, 0o644); err != nil {
		Fatalf("result: %v", err)
	}
	_ = journal.Close()
	_ = forceRemoveAll(scratch)
}

func procCPU(pid int) float64 {
	bs, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(bs)
	i := strings.LastIndex(s, ")")
	if i < 0 {
		return 0
	}
	f := strings.Fields(s[i+1:])
	if len(f) < 15 {
		return 0
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	st, _ := strconv.ParseFloat(f[12], 64)
	return (ut + st) / 100
}

// hangTicks is the number of half-second ticks of one observation window of the hang monitor.
const hangTicks = 120

// treeCPU gives the CPU seconds of a process and of each of its live descendants, including what
// they have collected from children that have ended.
func treeCPU(root int) map[int]float64 {
	type proc struct {
		ppid int
		cpu  float64
	}
	procs := map[int]proc{}
	ds, _ := os.ReadDir("/proc")
	for _, d := range ds {
		pid, err := strconv.Atoi(d.Name())
		if err != nil {
			continue
		}
		bs, err := os.ReadFile("/proc/" + d.Name() + "/stat")
		if err != nil {
			continue
		}
		f := strings.Fields(string(bs[strings.LastIndexByte(string(bs), ')')+1:]))
		if len(f) < 15 {
			continue
		}
		p := proc{}
		p.ppid, _ = strconv.Atoi(f[1])
		for _, x := range f[11:15] {
			v, _ := strconv.ParseFloat(x, 64)
			p.cpu += v / 100
		}
		procs[pid] = p
	}
	ret := map[int]float64{}
	for pid, p := range procs {
		for q, n := pid, 0; q > 1 && n < 100; q, n = procs[q].ppid, n+1 {
			if q == root {
				ret[pid] = p.cpu
				break
			}
		}
	}
	return ret
}

func procRSS(pid int) int64 {
	bs, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(bs))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

type shardState struct {
	cmd     *exec.Cmd
	out     *bytes.Buffer
	err     error
	verdict string // set by the monitor: why it killed the worker
	done    chan struct{}
}

// tailBuffer keeps the head and tail of a stream.
type limitBuf struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (b *limitBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.buf.Len() < 64<<10 {
		b.buf.Write(p)
	}
	return len(p), nil
}

type journalState struct {
	current string // case begun but not ended
	input   string
	ended   int
	viol    []violation
}

func readJournal(fn string) journalState {
	var js journalState
	f, err := os.Open(fn)
	if err != nil {
		return js
	}
	defer f.Close()
	r := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := r.ReadString('\n')
		if strings.HasSuffix(line, "\n") && len(line) > 2 {
			arg := line[2 : len(line)-1]
			switch line[0] {
			case 'B':
				js.current = arg
				js.input = ""
			case 'I':
				js.input = arg
			case 'E':
				js.current = ""
				js.ended++
			case 'V':
				var v violation
				if json.Unmarshal([]byte(arg), &v) == nil {
					js.viol = append(js.viol, v)
				}
			}
		}
		if err != nil {
			return js
		}
	}
}

func supervise(cfg Config, tier string, seed int64) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+cfg.ID+".")
	if err != nil {
		Fatalf("%v", err)
	}
	_ = os.Chmod(dir, 0o755)
	defer forceRemoveAll(dir)
	nsh := cfg.Shards
	if nsh == 0 {
		nsh = 8
	}
	if os.Getenv("H_ONLY") != "" {
		nsh = 1
	}
	wallLimit := 13 * time.Minute
	if tier == "thorough" {
		wallLimit = 4 * time.Hour
	}
	shards := make([]*shardState, nsh)
	exe, err := os.Executable()
	if err != nil {
		Fatalf("%v", err)
	}
	bufs := make([]*limitBuf, nsh)
	for i := range shards {
		cmd := exec.Command(exe)
		lb := &limitBuf{}
		bufs[i] = lb
		cmd.Stdout = lb
		cmd.Stderr = lb
		cmd.Env = append(os.Environ(), "H_WORKER=1", "H_DIR="+dir,
			"H_SHARD="+strconv.Itoa(i), "H_NSHARDS="+strconv.Itoa(nsh), "GOTRACEBACK=single")
		if cfg.Race {
			cmd.Env = append(cmd.Env, fmt.Sprintf("GORACE=halt_on_error=0 exitcode=0 log_path=%s/race.%d", dir, i))
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			Fatalf("start worker: %v", err)
		}
		st := &shardState{cmd: cmd, done: make(chan struct{})}
		shards[i] = st
		go func() { st.err = cmd.Wait(); close(st.done) }()
		go func(i int) {
			// CPU / memory monitor: attributes consumption to the case in the journal.
			var lastCase string
			var base float64
			lastEnded := -1
			var ticks, winTick int
			var winTree, caseTree map[int]float64
			tick := time.NewTicker(500 * time.Millisecond)
			defer tick.Stop()
			for {
				select {
				case <-st.done:
					return
				case <-tick.C:
				}
				js := readJournal(filepath.Join(dir, fmt.Sprintf("journal.%d", i)))
				cpu := procCPU(cmd.Process.Pid)
				if js.current != lastCase || js.ended != lastEnded {
					lastCase, lastEnded, base = js.current, js.ended, cpu
					ticks, winTick, winTree = 0, 0, nil
				}
				ticks++
				if ticks-winTick >= hangTicks && js.current != "" {
					// the case has been going on for long: is anything in it still doing something?
					tree := treeCPU(cmd.Process.Pid)
					if winTree != nil {
						idle := true
						for pid, t := range tree {
							if t-winTree[pid] > 0.3 {
								idle = false
							}
							if _, ok := winTree[pid]; !ok {
								idle = false // a new process
							}
							if b, ok := caseTree[pid]; ok && t-b > cfg.CPUPerCase && pid != cmd.Process.Pid {
								st.verdict = fmt.Sprintf("does not terminate: a program it runs burned more than %.0f CPU-seconds in one case", cfg.CPUPerCase)
							}
						}
						if idle {
							st.verdict = fmt.Sprintf("hangs: nothing in this case used the CPU for %d seconds", hangTicks/2)
						}
					} else {
						caseTree = tree
					}
					winTick, winTree = ticks, tree
				}
				switch {
				case st.verdict != "":
				case js.current != "" && cpu-base > cfg.CPUPerCase:
					st.verdict = fmt.Sprintf("does not terminate: burned more than %.0f CPU-seconds in one case", cfg.CPUPerCase)
				case js.current != "" && procRSS(cmd.Process.Pid) > cfg.RSSPerWorker:
					st.verdict = fmt.Sprintf("unbounded memory: more than %d MiB resident in one case", cfg.RSSPerWorker>>20)
				case time.Since(start) > wallLimit:
					st.verdict = "INCONCLUSIVE: wall-clock watchdog"
				default:
					continue
				}
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return
			}
		}(i)
	}
	tot := workerResult{Counters: map[string]int64{}, States: map[string]map[string]int64{}}
	distinct := map[string]struct{}{}
	inconclusive := ""
	for i, st := range shards {
		<-st.done
		_ = syscall.Kill(-st.cmd.Process.Pid, syscall.SIGKILL) // stray grandchildren
		js := readJournal(filepath.Join(dir, fmt.Sprintf("journal.%d", i)))
		var wr workerResult
		bs, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", i)))
		if rerr == nil {
			rerr = json.Unmarshal(bs, &wr)
		}
		if rerr != nil || !wr.Done {
			out := bufs[i].buf.String()
			exit3 := false
			if ee, ok := st.err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
				exit3 = true
			}
			switch {
			case strings.HasPrefix(st.verdict, "INCONCLUSIVE"):
				inconclusive = st.verdict
			case exit3:
				inconclusive = "worker reported an error of the check: " + out
			case js.current != "":
				why := st.verdict
				if why == "" {
					why = fmt.Sprintf("process died (%v)", st.err)
				}
				if len(out) > 4000 {
					out = out[:4000]
				}
				tot.Violations = append(tot.Violations, violation{Key: js.current, Case: js.current, Msg: why + "\n" + out, Input: js.input})
			default:
				inconclusive = fmt.Sprintf("worker %d died outside a case: %v: %s", i, st.err, out)
			}
			tot.Violations = append(tot.Violations, js.viol...)
			tot.Evaluations += js.ended
			continue
		}
		tot.Evaluations += wr.Evaluations
		tot.Violations = append(tot.Violations, wr.Violations...)
		for _, d := range wr.Distinct {
			distinct[d] = struct{}{}
		}
		if len(tot.Samples) < 6 {
			tot.Samples = append(tot.Samples, wr.Samples...)
		}
		for k, v := range wr.Counters {
			tot.Counters[k] += v
		}
		for k, m := range wr.States {
			if tot.States[k] == nil {
				tot.States[k] = map[string]int64{}
			}
			for s, n := range m {
				tot.States[k][s] += n
			}
		}
	}
	if cfg.Race {
		logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
		blocks := map[string]string{}
		for _, l := range logs {
			bs, _ := os.ReadFile(l)
			for _, b := range strings.Split(string(bs), "==================") {
				if !strings.Contains(b, "WARNING: DATA RACE") {
					continue
				}
				tot.Counters["race_reports"]++
				blocks[raceKey(b)] = b
			}
		}
		keys := make([]string, 0, len(blocks))
		for k := range blocks {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			tot.Violations = append(tot.Violations, violation{Key: "race:" + k, Case: "race", Msg: blocks[k]})
		}
	}

	known := loadKnown(cfg.ID)
	root := verifRoot()
	var fresh []violation
	knownSeen := map[string]string{}
	for _, v := range tot.Violations {
		if desc, ok := known[v.Key]; ok {
			knownSeen[v.Key] = desc
			continue
		}
		fresh = append(fresh, v)
	}
	kk := make([]string, 0)
	for k := range knownSeen {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", cfg.ID, k, knownSeen[k])
	}

	// evidence
	cov := map[string]interface{}{
		"evaluations":         tot.Evaluations,
		"distinct_nontrivial": len(distinct),
		"rule":                cfg.Rule,
		"samples":             tot.Samples,
		"observed_events":     tot.Counters,
	}
	st := map[string]interface{}{}
	for k, m := range tot.States {
		type kv struct {
			K string
			N int64
		}
		var l []kv
		for s, n := range m {
			l = append(l, kv{s, n})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].N > l[j].N || (l[i].N == l[j].N && l[i].K < l[j].K) })
		top := map[string]int64{}
		for i, e := range l {
			if i >= 30 {
				break
			}
			top[e.K] = e.N
		}
		st[k] = map[string]interface{}{"distinct": len(m), "top": top}
	}
	cov["distinct_states"] = st
	ev := map[string]interface{}{
		"property": cfg.ID, "tier": tier, "seed": seed, "level": cfg.Level,
		"coverage": cov, "assumptions": cfg.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(fresh),
		"known_findings": kk,
	}
	evbs, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", cfg.ID+".json"), append(evbs, '\n'), 0o644); err != nil {
		Fatalf("evidence: %v", err)
	}

	if len(fresh) > 0 {
		rdir := filepath.Join(root, "evidence", "replay")
		_ = os.MkdirAll(rdir, 0o755)
		for i, v := range fresh {
			if i >= 10 {
				fmt.Printf("(%d more violations not shown)\n", len(fresh)-i)
				break
			}
			fn := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", cfg.ID, i))
			bs, _ := json.MarshalIndent(map[string]interface{}{
				"property": cfg.ID, "tier": tier, "seed": seed, "case": v.Case, "key": v.Key,
				"message": v.Msg, "input": v.Input,
				"replay": fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_TIER=%s H_ONLY='%s' bash check.sh %s %s", root, seed, tier, v.Case, cfg.ID, tier),
			}, "", " ")
			_ = os.WriteFile(fn, append(bs, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.ID, fn)
			m := v.Msg
			if len(m) > 1200 {
				m = m[:1200] + "..."
			}
			fmt.Printf("  case %s: %s\n", v.Case, strings.ReplaceAll(m, "\n", "\n    "))
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: %s\n", inconclusive)
		return 4
	}
	if os.Getenv("H_ONLY") == "" {
		for _, r := range cfg.Require {
			if tot.Counters[r] == 0 {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: the run never observed %q\n", r)
				return 4
			}
		}
		if tot.Evaluations == 0 || len(distinct) == 0 {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE: the run observed nothing")
			return 4
		}
	}
	fmt.Printf("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n",
		cfg.ID, tier, seed, tot.Evaluations, len(distinct), time.Since(start).Seconds())
	ck := make([]string, 0, len(tot.Counters))
	for k := range tot.Counters {
		ck = append(ck, k)
	}
	sort.Strings(ck)
	for _, k := range ck {
		fmt.Printf("  observed %s=%d\n", k, tot.Counters[k])
	}
	return 0
}

// raceKey deduplicates race reports by the functions on the two stacks.
func raceKey(block string) string {
	var fns []string
	for _, l := range strings.Split(block, "\n") {
		if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      ") && strings.HasSuffix(strings.TrimSpace(l), ")") {
			fn := strings.TrimSpace(l)
			if strings.Contains(fn, "ocibuild") {
				fns = append(fns, strings.TrimSuffix(fn, "()"))
			}
			if len(fns) >= 4 {
				break
			}
		}
	}
	return strings.Join(fns, "<-")
}

func verifRoot() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// loadKnown reads the committed known-findings file.
func loadKnown(id string) map[string]string {
	ret := map[string]string{}
	f, err := os.Open(filepath.Join(verifRoot(), "known_findings.jsonl"))
	if err != nil {
		return ret
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "{") {
			continue // "fixed: ..." lines and comments suppress nothing
		}
		var e struct{ Property, Key, What string }
		if err := json.Unmarshal([]byte(line), &e); err != nil {
			Fatalf("known_findings.jsonl: %v", err)
		}
		if e.Property == id && e.Key != "" {
			ret[e.Key] = e.What
		}
	}
	return ret
}

// Drain reads everything.
func Drain(r io.Reader) []byte {
	bs, err := io.ReadAll(r)
	if err != nil {
		Fatalf("read: %v", err)
	}
	return bs
}
