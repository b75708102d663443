#!/usr/bin/env python3
"""runseeds.py [-a] [id...]: applies each planted bug to a scratch copy and
runs its property's check on the copy (-a: every claimed check)."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = '-a' in args
args = [a for a in args if a != '-a']
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env['PATH']
vfa = os.environ.get('VFA', here + '/bin/vfa')
claimed = [c['property'] for c in json.load(open(here + '/MANIFEST.json'))['checks']]
def one(i):
    w = tempfile.mkdtemp(prefix='rs-')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        os.makedirs(w + '/v'); shutil.copy(here + '/known_findings.json', w + '/v/')
        r = subprocess.run(['git', 'apply', here + '/seeded/' + i + '/patch.diff'], cwd=w + '/repo', capture_output=True, text=True)
        if r.returncode: return i + ' DOES NOT APPLY ' + r.stderr
        p = json.load(open(here + '/seeded/' + i + '/meta.json'))['property']
        out = []
        for c in (claimed if allc else [p]):
            r = subprocess.run([vfa, '-repo', w + '/repo', '-verif', w + '/v', '-prop', c], cwd=w, env=env, capture_output=True, text=True)
            if r.returncode == 1:
                l = [x for x in r.stdout.splitlines() if ': rule ' in x]
                out.append(c + ' CAUGHT ' + (l[0][:230] if l else ''))
            elif r.returncode != 0: out.append(c + ' rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-300:]))
            elif not allc or c == p:
                out.append(c + ' missed ' + ' '.join(x for x in r.stdout.splitlines() if 'UNDECIDED' in x)[:300])
            elif 'UNDECIDED' in r.stdout: out.append(c + ' undecided')
        return i + ': ' + '\n      '.join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)
ids = args or sorted(os.listdir(here + '/seeded'))
with ThreadPoolExecutor(4) as ex:
    for l in ex.map(one, ids): print(l, flush=True)
