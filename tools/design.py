#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md (coverage from evidence/, planted bugs from seeded/)."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/design.py -->'
body = open(R + '/DESIGN.md').read().split(MARK)[0].rstrip() + '\n\n'
o = [MARK, '', '## 5. Coverage of the quick checks on the unchanged tree', '',
     'From the evidence files of the last quick runs (8 cores). "bound" is the completed deviation/preemption bound per harness;',
     'all harnesses were exhausted within it.', '',
     '| property | executions | states | transitions | seconds | harnesses (bound) |', '|---|---|---|---|---|---|']
for f in sorted(glob.glob(R + '/evidence/C*.json')):
    d = json.load(open(f)); c = d['coverage']; hs = c['harnesses']
    names = ', '.join('%s (%d)' % (h['harness'], h['deviation_bound_completed']) for h in hs)
    if len(hs) > 20:
        pre = {}
        for h in hs:
            k = h['harness'].split('-')[0]
            pre.setdefault(k, [0, h['deviation_bound_completed']])[0] += 1
        names = ', '.join('%d x %s- (%d)' % (n, k, b) for k, (n, b) in pre.items())
    o.append('| %s | %d | %d | %d | %.0f | %s%s |' % (os.path.basename(f)[:-5], sum(h['executions'] for h in hs), c['states'], c['transitions'],
             sum(h['seconds'] for h in hs), names, '' if c['exhaustive'] else ' NOT EXHAUSTED'))
o += ['', '## 6. Planted bugs', '',
      'Each bug in `seeded/` was written from the property text and the code, confirmed to build, to pass the existing tests and to be shown by',
      'its demo (`tools/mkseeds.py`), and then run against the quick check of its property (`mkseeds.py -check`). All are caught now by the check of',
      'the property they name; those marked * were missed at first, and the check was extended (never the bug removed).', '',
      '| bug | caught by | what it needs |', '|---|---|---|']
missed = set(open(R + '/tools/initially_missed.txt').read().split())
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    o.append('| %s%s | %s | %s |' % (i, ' *' if i in missed else '', d['property'], d['needs'].replace('|', '\\|')))
open(R + '/DESIGN.md', 'w').write(body + '\n'.join(o) + '\n')
