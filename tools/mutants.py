#!/usr/bin/env python3
"""Looks for gaps: small syntactic changes (tools/mutate) of the code that pass the stable tests, run
through the checks of the properties the file matters for. Prints the survivors.

    mutants.py WORK PART PARTS [EVERY]      in the scratch directory WORK
"""
import os, subprocess, sys, json, zlib

VROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK, PART, PARTS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
EVERY = int(sys.argv[4]) if len(sys.argv) > 4 else 1
ONLY = sys.argv[5] if len(sys.argv) > 5 else ''
WT = WORK + '/wt'
ENV = '. /opt/vp/env.sh; '
PROPS = [
    ('internal/infra/delta', 'C03 C02 C01 C04 C11 C05 C10 C24'),
    ('internal/infra/index', 'C06 C07 C11 C05 C10 C24'),
    ('internal/infra/recdb/likestorage', 'C12 C13 C14 C15'),
    ('internal/infra/recdb', 'C08 C09 C11 C10 C24'),
    ('internal/helpers', 'C08 C03 C02 C06 C10 C16 C17'),
    ('internal/domain/likenamespace', 'C12 C13 C14 C15 C24 C16 C18'),
    ('internal/domain/namespaceservice', 'C16 C17 C18 C22 C24 C23 C19'),
    ('internal/domain/valueobjects', 'C22 C16 C17'),
    ('internal/api', 'C22 C16 C19 C23 C18'),
    ('main.go', 'C23 C19 C17'),
]


def sh(cmd, t=600):
    try:
        return subprocess.run(ENV + cmd, shell=True, executable='/bin/bash', capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


os.makedirs(WORK, exist_ok=True)
sh('cd %s/tools/mutate && go build -o %s/mutate .; cd %s/instr && go build -o %s/instr .' % (VROOT, WORK, VROOT, WORK))
if not os.path.isdir(WT):
    sh('git -C /repo worktree add --detach %s HEAD' % WT)
files = [f for f in sh("cd /repo; git ls-files 'internal/*.go' main.go | grep -v _test.go").stdout.split()]
todo = []
for f in files:
    ps = [p for k, p in PROPS if f.startswith(k)]
    if not ps or ONLY and ONLY not in f:
        continue
    for l in sh('%s/mutate /repo/%s' % (WORK, f)).stdout.splitlines():
        n, line, what = l.split('\t', 2)
        h = zlib.crc32((f + n).encode())
        if h % EVERY == 0 and (h // EVERY) % PARTS == PART:
            todo.append((h, f, n, line, what, ps[0].split()))
todo.sort()
print(len(todo), 'mutants', flush=True)
stat = {}
for k, (h, f, n, line, what, props) in enumerate(todo):
    sh('git -C %s checkout -q -f .; git -C %s clean -fdq; %s/mutate /repo/%s %s %s/%s' % (WT, WT, WORK, f, n, WT, f))
    t = sh('cd %s && go build ./... || exit 9; go test ./... 2>&1 | grep -E "^(FAIL|panic|---)"' % WT, 60)
    if t.returncode != 1:  # the build failed, a test failed, or it hung
        stat['invalid'] = stat.get('invalid', 0) + 1
        continue
    b = sh('set -e; rm -rf %(w)s/src; mkdir %(w)s/src; %(w)s/instr -src %(w)s/wt -dst %(w)s/src -sim %(v)s/sim -harness %(v)s/harness; cd %(w)s/src; go build -trimpath -o %(w)s/dst ./internal/zzsim/harness' % {'w': WORK, 'v': VROOT})
    if b.returncode:
        print('NOBUILD', f, line, what, b.stderr[-300:], flush=True)
        continue
    got = ''
    for runs in (1500, 0):
        for p in props:
            r = sh('cd %s; timeout 300 ./dst -prop %s -tier quick -seed 1 -evidence ev.json -outdir out %s' % (WORK, p, '-runs %d' % runs if runs else ''))
            if r.returncode == 1:
                got = p
                break
            if r.returncode:
                got = '%s exit %d' % (p, r.returncode)
                print('EXIT', got, f, line, what, (r.stdout + r.stderr)[-400:], flush=True)
                break
        if got:
            break
    stat[got or 'survived'] = stat.get(got or 'survived', 0) + 1
    if not got:
        print('SURVIVED %s:%s #%s %s' % (f, line, n, what), flush=True)
    if k % 25 == 0:
        print('...', k, json.dumps(stat), flush=True)
print('done', json.dumps(stat))
