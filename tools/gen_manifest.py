"""Writes MANIFEST.json from the table below."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
exec(open(os.path.join(H, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for p in props:
    if p in NA: continue
    lvl, note, tech = CLAIMS[p]
    checks.append(dict(property=p, quick_cmd='%s check.py %s --tier quick' % (PY, p), thorough_cmd='%s check.py %s --tier thorough' % (PY, p),
                       evidence_file='evidence/%s.json' % p, technique=tech, level=lvl, level_note=note))
json.dump(dict(version=1, setup_cmd='%s -m compileall -q vc contracts bounded check.py' % PY, checks=checks,
               not_applicable=[dict(property=p, reason=NA[p]) for p in props if p in NA], notes=NOTES), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
