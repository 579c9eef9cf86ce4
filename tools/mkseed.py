#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description and confirms it.

usage: mkseed.py SPEC.py [filter] [--nocheck]
SPEC.py defines SEEDS: list of dicts with id, property, edits [(file, old, new)...], pkg (directory of the
demonstration's package), test (source of the demonstration, a Go test file), needs, breaks.
"""
import json, os, shutil, subprocess, sys, tempfile

ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = [a for a in sys.argv[2:] if not a.startswith('--')]
nocheck = '--nocheck' in sys.argv

DEMO = '''#!/bin/bash
# Run with the repository as working directory: fails if the planted bug is present.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOFLAGS=-mod=mod HOME="${HOME:-/root}"
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestPlantedDemo' "./%(pkg)s"
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

base = set()
r = sh("git rev-list --max-parents=0 HEAD", '/repo').stdout.strip()
for s in ns['SEEDS']:
    if flt and not any(f in s['id'] for f in flt):
        continue
    d = '/verif/seeded/' + s['id']
    w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        t = w + '/repo'
        shutil.copytree('/repo', t, symlinks=True)
        bad = None
        for f, o, n in s['edits']:
            src = open(t + '/' + f).read()
            if src.count(o) != 1:
                bad = '%s: %d matches of %r' % (f, src.count(o), o[:60])
                break
            open(t + '/' + f, 'w').write(src.replace(o, n))
        if bad:
            print(s['id'], 'EDIT FAILED', bad); continue
        diff = sh('git diff', t).stdout
        # All removed lines must be lines of the original repository.
        notes = []
        for f in sorted(set(e[0] for e in s['edits'])):
            bl = sh('git blame -s -l HEAD -- ' + f, '/repo').stdout.split('\n')
            removed, ln = [], 0
            fd = sh('git diff -U0 -- ' + f, t).stdout.split('\n')
            for l in fd:
                if l.startswith('@@'):
                    ln = int(l.split()[1].split(',')[0][1:])
                elif l.startswith('-') and not l.startswith('---'):
                    c = bl[ln - 1].split()[0].lstrip('^')
                    if not r.startswith(c[:30]):
                        notes.append('%s:%d not original' % (f, ln))
                    ln += 1
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO % s)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go.txt', 'w').write(s['test'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
        b = sh('go build ./... && go test -vet=off ./...', t, env=env)
        demo_bad = sh('bash %s/demo.sh' % d, t, env=env)
        demo_ok = sh('bash %s/demo.sh' % d, '/repo', env=env)
        ok = b.returncode == 0 and demo_ok.returncode == 0 and demo_bad.returncode != 0
        res = ''
        if not nocheck:
            c = subprocess.run(['/verif/run.sh', s['property']], env=dict(os.environ, VERIF_REPO=t), capture_output=True, text=True)
            res = 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + s['property'] in c.stdout else 'MISSED'
            first = [l for l in c.stdout.split('\n') if l.startswith('  ')][:1]
            res += ' ' + (first[0].strip()[:150] if first else '')
        print(s['id'], 'ok' if ok else 'NOT OK', res, '; '.join(notes), flush=True)
        if b.returncode:
            print(b.stdout[-1500:], b.stderr[-500:])
        if demo_ok.returncode:
            print('demo fails on clean tree:', demo_ok.stdout[-1500:], demo_ok.stderr[-500:])
        if demo_bad.returncode == 0:
            print('demo passes with the bug')
        elif not ok or '[build failed]' in demo_bad.stdout:
            print('demo with bug:', demo_bad.stdout[-800:], demo_bad.stderr[-400:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
