#!/usr/bin/env python3
"""plant.py [id...]: builds /verif/seeded/<id> from gen/bugs/*.py and confirms
each bug in a scratch copy of /repo (compiles, tests pass, demo fails with it
and passes without it)."""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
bugs = {}
for f in sorted(glob.glob(here + '/bugs/*.py')):
    for b in runpy.run_path(f)['BUGS']:
        assert b['id'] not in bugs, b['id']
        bugs[b['id']] = b
DEMO = '''#!/bin/bash
# Runs the demonstration beside this script inside the package it belongs to.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/PKG/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
GOFLAGS=-mod=readonly GOPROXY=off go test -overlay "$t/overlay.json" -count=1 -run '^TestZZDemo$' ./PKG
'''
def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=isinstance(c, str), capture_output=True, text=True, **k)
base = {b for b in json.load(open('/opt/vp/BASELINE.json')).get('tests', [])} if False else None
ids = sys.argv[1:] or list(bugs)
work = tempfile.mkdtemp(prefix='plant.')
repo = work + '/repo'
sh(['git', 'worktree', 'add', '--detach', repo, 'HEAD'], '/repo')
try:
    for i in ids:
        b = bugs[i]
        out = os.path.join(os.path.dirname(here), 'seeded', i)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/demo.sh', 'w').write(DEMO.replace('PKG', b['pkg']))
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo_test.go.txt', 'w').write(b['demo'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        sh('git checkout -q -- .', repo)
        r = sh([out + '/demo.sh'], repo)
        ok = r.returncode == 0
        if not ok: print(i, 'DEMO FAILS ON THE CLEAN TREE', r.stdout[-1500:], r.stderr[-800:])
        for f, old, new in b['edits']:
            s = open(repo + '/' + f).read()
            if s.count(old) != 1:
                print(i, 'EDIT MATCHES', s.count(old), 'TIMES in', f); ok = False
            open(repo + '/' + f, 'w').write(s.replace(old, new))
        r = sh('gofmt -l $(git diff --name-only)', repo)
        if r.stdout.strip(): print(i, 'gofmt:', r.stdout)
        patch = sh('git diff', repo).stdout
        open(out + '/patch.diff', 'w').write(patch)
        r = sh('GOFLAGS=-mod=readonly GOPROXY=off go build ./... && go vet ./pkg/... ./cmd/... && go test -count=1 ./...', repo)
        if r.returncode: print(i, 'BUILD OR TESTS FAIL', r.stdout[-1500:], r.stderr[-800:]); ok = False
        r = sh([out + '/demo.sh'], repo)
        if r.returncode == 0: print(i, 'DEMO PASSES WITH THE BUG'); ok = False
        elif 'build failed' in r.stdout + r.stderr or 'setup failed' in r.stdout: print(i, 'DEMO DOES NOT BUILD', r.stdout, r.stderr); ok = False
        print(i, 'ok' if ok else 'NOT KEPT')
        if not ok: shutil.rmtree(out)
finally:
    sh(['git', 'worktree', 'remove', '--force', repo], '/repo')
    shutil.rmtree(work, ignore_errors=True)
