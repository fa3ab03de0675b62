#!/usr/bin/env python3
"""Makes and confirms the planted bugs of /verif/seeded from the definitions in
tools/seeds_*.py. Everything happens in a scratch worktree.

    mkseeded.py [ID...]      make, confirm (and with -c run the property's check)
"""
import glob, json, os, re, subprocess, sys, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
WT = '/tmp/wt'
OUT = os.path.join(HERE, '..', 'seeded')
BUGS = {}

MEMFILE = '''package PKG

import (
	"errors"
	"io"
)

// memFile is a file in memory with a hook in front of every call. The hook
// returns how many bytes go through and the error of the call.
type memFile struct {
	data   []byte
	pos    int64
	closed int
	hook   func(op string, n int) (int, error)
}

func (f *memFile) call(op string, n int) (int, error) {
	if f.closed > 0 {
		return 0, errors.New("file is closed")
	}
	if f.hook != nil {
		return f.hook(op, n)
	}
	return n, nil
}

func (f *memFile) Read(b []byte) (int, error) {
	n, err := f.call("read", len(b))
	if err != nil {
		return 0, err
	}
	if f.pos >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n = copy(b[:n], f.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *memFile) Write(b []byte) (int, error) {
	n, err := f.call("write", len(b))
	for int64(len(f.data)) < f.pos+int64(n) {
		f.data = append(f.data, 0)
	}
	copy(f.data[f.pos:], b[:n])
	f.pos += int64(n)
	return n, err
}

func (f *memFile) Seek(off int64, whence int) (int64, error) {
	if _, err := f.call("seek", 0); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if off < 0 {
		return 0, errors.New("bad offset")
	}
	f.pos = off
	return off, nil
}

func (f *memFile) Truncate(size int64) error {
	if _, err := f.call("truncate", 0); err != nil {
		return err
	}
	for int64(len(f.data)) < size {
		f.data = append(f.data, 0)
	}
	f.data = f.data[:size]
	return nil
}

func (f *memFile) Close() error {
	_, err := f.call("close", 0)
	f.closed++
	return err
}

// disk is a copy of what is in the file now.
func (f *memFile) disk() *memFile {
	return &memFile{data: append([]byte(nil), f.data...)}
}

// crash makes every call from the n-th write or truncate on panic. part bytes
// of that write still get through.
type crashed struct{}

func (f *memFile) crashAt(n, part int) {
	f.hook = func(op string, size int) (int, error) {
		if op != "write" && op != "truncate" {
			return size, nil
		}
		n--
		if n > 0 {
			return size, nil
		}
		if op == "write" && part > 0 {
			f.hook = nil
			panic(crashed{})
		}
		panic(crashed{})
	}
}

// run reports whether f ended with a crash.
func run(f func()) (dead bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(crashed); !ok {
				panic(r)
			}
			dead = true
		}
	}()
	f()
	return false
}
'''

def bug(id, prop, needs, breaks, edits, pkg, test, help=True, race=False, files=None):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, pkg=pkg, test=test, help=help, race=race)

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

ENV = '. /opt/vp/env.sh; '

def reset():
    sh(f'git -C {WT} checkout -q -f --detach $(git -C /repo rev-parse HEAD); git -C {WT} clean -fdq')

def make(b, check):
    id = b['id']
    reset()
    for path, old, new in b['edits']:
        p = os.path.join(WT, path)
        s = open(p).read()
        if s.count(old) != 1:
            return f'{s.count(old)} matches of {old!r} in {path}'
        open(p, 'w').write(s.replace(old, new))
    r = sh(ENV + f'cd {WT} && gofmt -l internal main.go')
    if r.stdout.strip():
        sh(ENV + f'cd {WT} && gofmt -w {r.stdout.strip()}')
    diff = sh(f'git -C {WT} diff').stdout
    # Removed lines must be the original ones
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
    removed = 0
    path = None
    ln = 0
    for line in diff.splitlines():
        m = re.match(r'--- a/(.*)', line)
        if m: path = m.group(1); continue
        if line.startswith('+++'): continue
        m = re.match(r'@@ -(\d+)', line)
        if m: ln = int(m.group(1)); continue
        if path is None or line.startswith('diff ') or line.startswith('index '): continue
        if line.startswith('-'):
            bl = sh(f'git -C /repo blame -s -l -L {ln},{ln} HEAD -- {path}').stdout
            if not bl.lstrip('^').startswith(base[:30]):
                if os.environ.get('STRICT', '1') == '1':
                    return f'line of a fix removed: {line}'
            removed += 1
        if not line.startswith('+'): ln += 1
    if removed == 0:
        return 'no original line changed'
    d = os.path.join(OUT, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    test = b['test'].strip() + '\n'
    open(os.path.join(d, 'demo_test.go'), 'w').write(test)
    repl = f'"\'"$PWD"\'/{b["pkg"]}/zz_demo_test.go":"\'"$here"\'/demo_test.go"'
    if b['help']:
        pk = re.search(r'^package (\w+)', test, re.M).group(1)
        open(os.path.join(d, 'memfile_test.go'), 'w').write(MEMFILE.replace('PKG', pk))
        repl += f',"\'"$PWD"\'/{b["pkg"]}/zz_memfile_test.go":"\'"$here"\'/memfile_test.go"'
    open(os.path.join(d, 'demo.sh'), 'w').write(f'''#!/bin/bash
# Run with the repository as the working directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
overlay=$(mktemp) || exit 2
trap 'rm -f "$overlay"' EXIT
printf '%s' '{{"Replace":{{{repl}}}}}' > "$overlay"
timeout 280 go test{' -race' if b['race'] else ''} -overlay "$overlay" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./{b["pkg"]}
''')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    r = sh(ENV + f'cd {WT} && go build ./... && go vet ./... 2>&1 | tail -3')
    if r.returncode: return 'build: ' + r.stdout
    r = sh(ENV + f'cd {WT} && go test -json -vet=off -count=30 -timeout 10m ./... > /tmp/mk.log; python3 /opt/vp/results.py /tmp/mk.json gojson:/tmp/mk.log; python3 {HERE}/cmpbase.py /tmp/mk.json')
    if r.returncode: return 'tests: ' + r.stdout[-2000:]
    r = sh(f'cd {WT} && bash {d}/demo.sh')
    if r.returncode == 0: return 'the demonstration passes with the change'
    if 'FAIL' not in r.stdout or 'build failed' in r.stdout or 'setup failed' in r.stdout: return 'demo does not run: ' + r.stdout[-2000:]
    fail = r.stdout
    sh(f'git -C {WT} checkout -q -f .')
    r = sh(f'cd {WT} && bash {d}/demo.sh')
    if r.returncode != 0: return 'the demonstration fails without the change: ' + r.stdout[-3000:]
    msg = 'ok: ' + ' | '.join(x.strip() for x in fail.splitlines() if '_test.go:' in x)[:160]
    if check:
        sh(f'git -C {WT} apply {d}/patch.diff')
        r = sh(f'cd /verif && REPO={WT} bash run.sh {b["prop"]}')
        v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        msg += f'\n    check exit {r.returncode}: ' + (v[0] if v else r.stdout[-300:])
        if r.returncode == 1:
            msg += '\n    ' + '\n    '.join(r.stdout.splitlines()[:3])[:400]
        sh(f'git -C {WT} checkout -q -f .')
    return msg

if __name__ == '__main__':
    sys.modules['mkseeded'] = sys.modules['__main__']
    for f in sorted(glob.glob(HERE + '/seeds_*.py')):
        exec(compile(open(f).read(), f, 'exec'), {'bug': bug})
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    check = '-c' in sys.argv
    for id, b in BUGS.items():
        if args and id not in args: continue
        print(id, b['prop'], make(b, check), flush=True)
    reset()
