"""Writes the sections of DESIGN.md from '## Planted bugs' on; needs the output of tools/matrix.sh (several files: later lines win)."""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) (C\d\d) rc=(\d) (\d+) obl; ?(.*)', l)
        if m:
            rows[m.group(1)] = m.groups()[1:]
out = ['## Planted bugs', '',
       'Each was written from the text of its property, in a scratch clone, and confirmed there (demo passes without it and fails with it,',
       'stable tests pass). `tools/matrix.sh` applies each to /repo, runs the check of its property and undoes it. "Proof": obligations of',
       'the changed code that are refuted or no longer discharged (the list shows at most six); "input": a failing input found on the real code and',
       'replayed. Where the proof column is empty the changed code left the modelled subset (or the function is covered by the executable',
       'contract only), so that the witness alone decides.', '',
       '| planted | property | what it needs | proof | input |', '|---|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    meta = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    r = rows.get(d)
    if r is None:
        print('no result for', d)
        continue
    pid, rc, n, line = r
    n = int(n)
    res = ('%s%d' % ('>= ' if n >= 6 else '', n) if n else '', 'no' if 'no-failing-input' in line else 'yes') if rc == '1' else ('missed', 'missed')
    out.append('| %s | %s | %s | %s | %s |' % ((d, pid, meta['needs'].replace('|', '/')) + res))
rest = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = s[:s.index('## Planted bugs')] + '\n'.join(out) + '\n\n' + rest
open(p, 'w').write(s)
