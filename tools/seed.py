#!/usr/bin/env python3
"""seed.py [ID...]: builds seeded/<ID>/ from tools/seeddefs.py and confirms each planted bug in a scratch copy:
the patch applies, changes original lines, builds, passes the stable tests, and its demonstration passes
without and fails with it. seed.py --check [ID...]: applies each to /repo, runs the check of its property, undoes it."""
import json, os, shutil, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
R = '/repo'
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
S = []
def seed(id, prop, needs, breaks, edits, pkg, test, race=False):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, pkg=pkg, test=test, race=race))
exec(open(os.path.join(V, 'tools/seeddefs.py')).read())
DEMO = '''#!/bin/bash
# Runs the test beside this script inside the package, through an overlay; cwd is the repository.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s": "%s"}}' "$PWD/@PKG@/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
timeout 250 go test @RACE@ -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run 'TestDemo$' "./@PKG@" > "$tmp/out" 2>&1
rc=$?
tail -30 "$tmp/out"
grep -q '^ok' "$tmp/out" || rc=1
exit $rc
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, **k)
def build(s):
    d = f'{V}/seeded/{s["id"]}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = '/tmp/seedwork'; shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', R, w])
    try:
        for f, a, b in s['edits']:
            p = f'{w}/{f}'; t = open(p).read()
            if t.count(a) != 1: return f'edit of {f}: {t.count(a)} matches of {a[:60]!r}'
            open(p, 'w').write(t.replace(a, b))
        diff = sh('git diff', w).stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        orig = 0
        cur = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = set(sh(f'git show ce72715:{l[6:]}', R).stdout.splitlines())
            elif l.startswith('-') and not l.startswith('---'):
                if l[1:] in cur: orig += 1
                else: print('   not an original line:', l)
        if not orig: return 'changes no original line'
        open(f'{d}/demo_test.go.txt', 'w').write(s['test'])
        open(f'{d}/demo.sh', 'w').write(DEMO.replace('@PKG@', s['pkg']).replace('@RACE@', '-race' if s['race'] else ''))
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
        r = sh('go build ./...', w)
        if r.returncode: return 'does not build: ' + r.stderr
        r = sh('gofmt -l .', w)
        if r.stdout.strip() not in ('', 'trie/trie_test.go'): print('   gofmt:', r.stdout.split())
        r = sh('go test -vet=off -count=1 ./...', w)
        if r.returncode: return 'tests fail: ' + r.stdout[-2000:]
        r = sh(f'bash {d}/demo.sh', w)
        if r.returncode == 0: return 'demo passes with the patch'
        with_out = r.stdout
        r = sh('git checkout -q -- . && bash ' + f'{d}/demo.sh', w)
        if r.returncode: return 'demo fails without the patch: ' + r.stdout
        if 'demo_test.go' not in with_out and 'zz_demo_test' not in with_out and 'FAIL' not in with_out and 'panic' not in with_out: print(with_out)
        if '[build failed]' in with_out: return 'demo does not build: ' + with_out
    finally:
        shutil.rmtree(w, ignore_errors=True)
def check(s):
    p = f'{V}/seeded/{s["id"]}/patch.diff'
    import time
    t = time.time()
    try:
        r = sh(f'git apply {p}', R)
        if r.returncode: return 'patch does not apply'
        r = sh(f'bash check.sh {s["prop"]} quick', V)
    finally:
        sh('git checkout -q -- .', R)
    hit = r.returncode == 1 and f'VIOLATION property={s["prop"]}' in r.stdout
    last = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'msg' in l][:2]
    return f'{"CAUGHT" if hit else "MISSED"} rc={r.returncode} {time.time()-t:.0f}s {last} ' + ('' if hit else r.stdout[-1500:] + r.stderr[-500:])
args = sys.argv[1:]
chk = '--check' in args; args = [a for a in args if a != '--check']
for s in S:
    if args and s['id'] not in args: continue
    r = check(s) if chk else build(s)
    print(s['id'], s['prop'], r or 'ok', flush=True)
