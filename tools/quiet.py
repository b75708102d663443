#!/usr/bin/env python3
"""quiet.py [-p C01,C02] [name...]: edits that keep the behaviour; no check may
raise an alarm on them.  Prints what is undecided as well."""
import json, os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env['PATH']
vfa = os.environ.get('VFA', here + '/bin/vfa')
props = [c['property'] for c in json.load(open(here + '/MANIFEST.json'))['checks']]
if args and args[0] == '-p':
    props = args[1].split(','); args = args[2:]
exec(open(here + '/tools/specs/quiet_edits.py').read())
def one(e):
    name, edits = e
    w = tempfile.mkdtemp(prefix='qt-')
    out = []
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        os.makedirs(w + '/v'); shutil.copy(here + '/known_findings.json', w + '/v/')
        for f, old, new in edits:
            s = open(w + '/repo/' + f).read()
            # comment lines in between do not matter
            pat = '(?:[ \\t]*//[^\n]*\n)*'.join(re.escape(l) for l in old.splitlines(True))
            if len(re.findall(pat, s)) != 1: return '%s: EDIT DOES NOT APPLY %s' % (name, old[:60])
            open(w + '/repo/' + f, 'w').write(re.sub(pat, lambda m: new, s))
        r = subprocess.run('go build ./pkg/... ./cmd/GoBCDiceREPL/... && go test -vet=off ./pkg/... ./cmd/GoBCDiceREPL/... 2>&1 | grep -v "^ok\\|no test files"; true', shell=True, cwd=w + '/repo', env=dict(env, GOFLAGS=''), capture_output=True, text=True)
        if r.stdout.strip() or r.stderr.strip(): out.append('BUILD/TEST ' + (r.stdout + r.stderr)[:400])
        for c in props:
            r = subprocess.run([vfa, '-repo', w + '/repo', '-verif', w + '/v', '-prop', c], cwd=w, env=env, capture_output=True, text=True)
            if r.returncode != 0:
                l = [x for x in r.stdout.splitlines() if ': rule ' in x]
                out.append('%s ALARM rc=%d %s' % (c, r.returncode, (l[0] if l else r.stdout + r.stderr)[:330]))
            elif 'UNDECIDED' in r.stdout:
                l = [x for x in r.stdout.splitlines() if 'UNDECIDED' in x]
                out.append('%s undecided %d %s' % (c, len(l), l[0][:230]))
        return name + ': ' + ('quiet' if not out else '\n      '.join([''] + out))
    finally:
        shutil.rmtree(w, ignore_errors=True)
todo = [e for e in EDITS if not args or e[0] in args]
with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for l in ex.map(one, todo): print(l, flush=True)
