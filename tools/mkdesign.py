#!/usr/bin/env python3
"""Renews the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Seeded bugs'
text = open(V + '/DESIGN.md').read().split(MARK)[0].rstrip() + '\n\n' + MARK + '\n\n'
text += ('Each is caught by the quick check of its property (re-run with `tools/seedrun.sh`). Some were missed when first\n'
         'planted, and the check was strengthened; see "Strengthened after a miss" above.\n\n| bug | caught by | needs |\n|----|----|----|\n')
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    text += '| %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' '))
open(V + '/DESIGN.md', 'w').write(text)
