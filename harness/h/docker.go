package h

import (
	"bufio"
	"bytes"
	"encoding/json"
	"os"
	"path/filepath"
)

// Docker is a stand-in for the docker program that records every invocation.
type Docker struct {
	Dir string // its state
	Bin string // a directory for PATH, holding only "docker"
}

// DockerStep says what one docker command does.
type DockerStep struct {
	Read   int     `json:"read"`   // load: how many bytes of stdin to read; 0 = all, -1 = none
	Exit   int     `json:"exit"`   // exit status
	Signal int     `json:"signal"` // if set, end by this signal
	Sleep  float64 `json:"sleep"`  // seconds before ending
	Apply  bool    `json:"apply"`  // take effect even when failing, and (load) before hanging
	Hang   bool    `json:"hang"`   // wait until told to end
	Close  bool    `json:"close"`  // load: close stdin after reading what Read says
}

// DockerEvent is one observed event, in order.
type DockerEvent struct {
	Ev   string   `json:"ev"` // start, loaded, end
	Cmd  string   `json:"cmd"`
	Pid  int      `json:"pid"`
	Argv []string `json:"argv"`
	Tags []string `json:"tags"` // of the loaded archive
	File string   `json:"file"` // the loaded archive
	Code int      `json:"code"`
}

const dockerScript = `#!/usr/bin/python3 -IS
import sys, os, json, time, signal, fcntl
D = %DIR%
argv = sys.argv[1:]
def cmd_of(a):
    if a[:2] == ['image', 'load'] or a[:1] == ['load']: return 'load'
    if a[:2] in (['image', 'rm'], ['image', 'remove']) or a[:1] == ['rmi']: return 'rm'
    if a[:1] == ['run'] or a[:2] == ['container', 'run']: return 'run'
    return 'other'
cmd = cmd_of(argv)
def ev(**kw):
    kw.update(cmd=cmd, pid=os.getpid())
    with open(D + '/log', 'ab', buffering=0) as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.write((json.dumps(kw) + '\n').encode())
ev(ev='start', argv=argv)
try:
    plan = json.load(open(D + '/plan.json')).get(cmd) or {}
except FileNotFoundError:
    plan = {}
def hang():
    if plan.get('sleep'): time.sleep(plan['sleep'])
    if plan.get('hang'):
        while not os.path.exists(D + '/go'): time.sleep(0.005)
def end(code):
    if plan.get('signal'):
        ev(ev='end', code=-plan['signal'])
        os.kill(os.getpid(), plan['signal'])
        time.sleep(60)
    ev(ev='end', code=plan.get('exit') or code)
    sys.stdout.flush()
    os._exit(plan.get('exit') or code)
bad = plan.get('exit') or plan.get('signal')
def tagfile(t): return D + '/tags/' + t.encode().hex()
os.makedirs(D + '/tags', exist_ok=True)
if cmd == 'load':
    n = plan.get('read', 0)
    data = b''
    if n == 0:
        data = sys.stdin.buffer.read()
    elif n > 0:
        data = sys.stdin.buffer.read(n)
    fn = D + '/load.%d' % os.getpid()
    with open(fn, 'wb') as f: f.write(data)
    tags = []
    if n == 0:
        import tarfile, io
        try:
            m = json.load(tarfile.open(fileobj=io.BytesIO(data)).extractfile('manifest.json'))
            tags = [t for e in m for t in (e.get('RepoTags') or [])]
        except Exception as e:
            sys.stderr.write('Error processing tar file: %s\n' % e)
            ev(ev='loaded', tags=[], file=fn)
            end(1)
    ev(ev='loaded', tags=tags, file=fn)
    if plan.get('close'): os.close(0)
    if not plan.get('apply'): hang()
    if not bad or plan.get('apply'):
        for t in tags:
            open(tagfile(t), 'w').close()
            print('Loaded image: ' + t)
    if plan.get('apply'): hang()
    end(0)
elif cmd == 'rm':
    rest = [a for a in argv[(2 if argv[0] == 'image' else 1):] if not a.startswith('-')]
    code = 0
    hang()
    if not bad or plan.get('apply'):
        for t in rest:
            try:
                os.unlink(tagfile(t))
                print('Untagged: ' + t)
            except FileNotFoundError:
                sys.stderr.write('Error: No such image: %s\n' % t)
                code = 1
    end(code)
elif cmd == 'run':
    a = argv[1:] if argv[0] == 'run' else argv[2:]
    entry = None
    while a and a[0].startswith('-'):
        if a[0].startswith('--entrypoint='): entry = a[0].split('=', 1)[1]
        elif a[0] == '--entrypoint': entry = a[1]; a = a[1:]
        a = a[1:]
    tag, rest = a[0], a[1:]
    if not os.path.exists(tagfile(tag)):
        sys.stderr.write("Unable to find image '%s' locally\n" % tag)
        end(125)
    try:
        entries = json.load(open(D + '/entry.json'))
    except FileNotFoundError:
        entries = {}
    if entry not in entries:
        sys.stderr.write('docker: exec: "%s": no such file or directory\n' % entry)
        end(127)
    if bad: end(1)
    ev(ev='end', code=0)
    os.execv(entries[entry], [entries[entry]] + rest)
else:
    sys.stderr.write('docker: unknown command\n')
    end(1)
`

// NewDocker installs a stand-in below dir.
func (t *T) NewDocker(dir string) *Docker {
	d := &Docker{Dir: filepath.Join(dir, "state"), Bin: filepath.Join(dir, "bin")}
	if err := os.MkdirAll(d.Dir, 0o777); err != nil {
		Fatalf("%v", err)
	}
	q, _ := json.Marshal(d.Dir)
	t.WriteFile(filepath.Join(d.Bin, "docker"), bytes.ReplaceAll([]byte(dockerScript), []byte("%DIR%"), q), 0o755)
	return d
}

// Plan sets what the commands ("load", "run", "rm") do.
func (d *Docker) Plan(plan map[string]DockerStep) {
	bs, _ := json.Marshal(plan)
	if err := os.WriteFile(d.Dir+"/plan.json", bs, 0o644); err != nil {
		Fatalf("%v", err)
	}
}

// Entries maps entry points in the image to programs of the host.
func (d *Docker) Entries(m map[string]string) {
	bs, _ := json.Marshal(m)
	if err := os.WriteFile(d.Dir+"/entry.json", bs, 0o644); err != nil {
		Fatalf("%v", err)
	}
}

// Release lets commands that hang go on.
func (d *Docker) Release() {
	if err := os.WriteFile(d.Dir+"/go", nil, 0o644); err != nil {
		Fatalf("%v", err)
	}
}

// Events returns the log.
func (d *Docker) Events() []DockerEvent {
	f, err := os.Open(d.Dir + "/log")
	if err != nil {
		return nil
	}
	defer f.Close()
	var ret []DockerEvent
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var e DockerEvent
		if err := json.Unmarshal(sc.Bytes(), &e); err != nil {
			Fatalf("docker log: %v", err)
		}
		ret = append(ret, e)
	}
	return ret
}

// Tags lists the tags that exist now (hex-encoded names are decoded).
func (d *Docker) Tags() []string {
	des, _ := os.ReadDir(d.Dir + "/tags")
	var ret []string
	for _, de := range des {
		ret = append(ret, unhex(de.Name()))
	}
	return ret
}

func unhex(s string) string {
	var out []byte
	for i := 0; i+1 < len(s); i += 2 {
		v := func(c byte) byte {
			if c >= 'a' {
				return c - 'a' + 10
			}
			return c - '0'
		}
		out = append(out, v(s[i])<<4|v(s[i+1]))
	}
	return string(out)
}
