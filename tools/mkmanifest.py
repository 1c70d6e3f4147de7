"""Writes MANIFEST.json from props/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import registry
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    s = registry.PROPS.get(p)
    if not s:
        continue
    checks.append(dict(property=p, quick_cmd='bin/check %s quick' % p, thorough_cmd='bin/check %s thorough' % p,
                       technique=s['technique'], level=s['level'], level_note=s['note']))
na = [dict(property=p, reason=registry.NOT_APPLICABLE.get(p, 'not claimed: no check built for it yet'))
      for p in props if p not in registry.PROPS]
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='No hooks: nothing in /repo is instrumented; the verifier reads the source, the drivers import it.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
