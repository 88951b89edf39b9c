#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist (read with ast, not imported)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = V + '/mc/checks/%s.py' % p['id'].lower()
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='no check built (yet)'))
        continue
    g = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                g[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append(dict(property=p['id'], quick_cmd='bash run.sh ' + p['id'],
                       thorough_cmd='bash run.sh %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=g['TECHNIQUE'],
                       level=g['LEVEL'], level_note=g['LEVEL_NOTE']))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Every check copies /repo/gemlog, compiles its extension in a scratch directory and explores the '
                     'real code there. No hooks in /repo. See DESIGN.md.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
