"""Writes MANIFEST.json from the table below (kept in step with properties.jsonl)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
checks = [dict(property=p, quick_cmd=f'./check {p} quick', thorough_cmd=f'./check {p} thorough', technique=CLAIMS[p][0], level=CLAIMS[p][1], level_note=CLAIMS[p][2]) for p in props if p in CLAIMS]
na = [dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in CLAIMS]
json.dump(dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
