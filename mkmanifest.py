"""writes MANIFEST.json from claims.py and properties.jsonl"""
import json
from claims import CLAIMS, NOT_APPLICABLE
PY = '/opt/venv/bin/python'
props = [json.loads(l) for l in open('properties.jsonl', encoding='utf-8')]
checks = []
for p in props:
    c = CLAIMS.get(p['id'])
    if c:
        checks.append({'property': p['id'], 'quick_cmd': '%s check.py %s --tier quick' % (PY, p['id']),
                       'thorough_cmd': '%s check.py %s --tier thorough' % (PY, p['id']),
                       'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
na = [{'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]} for p in props if p['id'] not in CLAIMS]
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python setup_check.py', 'checks': checks, 'not_applicable': na},
          open('MANIFEST.json', 'w'), indent=1)
