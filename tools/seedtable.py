#!/usr/bin/env python3
"""Puts the outcome of the checks on the planted bugs (the output of
'runseeds.py -a', read from the file given) into DESIGN.md."""
import re, sys, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cur, rows = None, {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+): (C\d\d) (.*)', l)
    if m: cur = m.group(1); rows[cur] = []; l = m.group(2) + ' ' + m.group(3)
    m = re.match(r'\s*(C\d\d) (CAUGHT|missed|undecided)(.*)', l)
    if m and cur: rows[cur].append((m.group(1), m.group(2), (re.search(r'rule ([\w -]+?):', m.group(3)) or [0, ''])[1]))
out = ['| planted bug | caught by its own check (rule) | other checks that raise it |', '|---|---|---|']
for i in sorted(rows):
    own = json.load(open(here + '/seeded/' + i + '/meta.json'))['property']
    mine = [r for r in rows[i] if r[0] == own]
    o = 'no' if not mine or mine[0][1] != 'CAUGHT' else 'yes (%s)' % mine[0][2]
    out.append('| %s | %s | %s |' % (i, o, ' '.join(r[0] for r in rows[i] if r[0] != own and r[1] == 'CAUGHT')))
n = sum('| yes' in x for x in out)
out.append('\n%d of %d are caught by the check of their own property.' % (n, len(rows)))
d = open(here + '/DESIGN.md').read()
d = d[:d.index('<!-- seeds -->')] + '<!-- seeds -->\n' + '\n'.join(out) + '\n'
open(here + '/DESIGN.md', 'w').write(d)
