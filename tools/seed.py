#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: makes and confirms planted bugs.

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], pkg, demo (Go test code), needs, breaks)].
Each is applied to a scratch copy of /repo, built and tested there (paths are
rewritten by bind-free use of a copy), and its demonstration is run with and
without it."""
import json, os, subprocess, sys, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env['PATH']
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# Run with cwd = the repository. Exit 0 when the property holds.
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run 'TestZZDemo' ./PKG
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **k)
def passed(cwd):
    r = run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], cwd)
    t = tempfile.mktemp()
    open(t + '.log', 'w').write(r.stdout)
    run(['python3', '/opt/vp/results.py', t, 'gojson:' + t + '.log'], cwd)
    o = set(json.load(open(t))['passed'])
    os.remove(t); os.remove(t + '.log')
    return o
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        c = os.path.join(w, 'repo')
        subprocess.run(['cp', '-a', '/repo', c], check=True)
        d = os.path.join(here, 'seeded', s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.sh', 'w').write(DEMO.replace('PKG', s['pkg']))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go.txt', 'w').write(s['demo'])
        json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        bad = []
        r0 = run(['bash', d + '/demo.sh'], c)
        if r0.returncode != 0: bad.append('demo fails on the unchanged tree:\n' + (r0.stdout + r0.stderr)[-800:])
        for f, old, new in s['edits']:
            t = open(os.path.join(c, f)).read()
            if t.count(old) != 1: bad.append('%s: %d matches of %r' % (f, t.count(old), old))
            open(os.path.join(c, f), 'w').write(t.replace(old, new, 1))
        open(d + '/patch.diff', 'w').write(run(['git', 'diff'], c).stdout)
        b = run(['go', 'build', '-o', w + '/bin/', './...'], c)
        if b.returncode: bad.append('build: ' + b.stderr[-800:])
        else:
            miss = base - passed(c)
            if miss: bad.append('breaks tests: %s' % sorted(miss)[:5])
            r1 = run(['bash', d + '/demo.sh'], c)
            if r1.returncode == 0: bad.append('demo passes with the change')
            elif 'FAIL' not in r1.stdout: bad.append('demo did not run: ' + (r1.stdout + r1.stderr)[-500:])
        print(s['id'], 'OK' if not bad else 'BAD ' + '\n   '.join(bad))
        if bad: shutil.rmtree(d)
    finally:
        shutil.rmtree(w, ignore_errors=True)
