"""Write MANIFEST.json from properties.jsonl and the modules in props/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
NOTES = {}
try:
    from manifest_notes import NOTES
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
PY = '/opt/venv/bin/python'
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i + '.py')):
        checks.append(dict(property=i, quick_cmd='%s run.py %s --tier quick' % (PY, i),
                           thorough_cmd='%s run.py %s --tier thorough' % (PY, i),
                           technique='property-based testing: Hypothesis-generated inputs and histories against an executable oracle',
                           level='exploration',
                           level_note=NOTES.get(i, 'Generated cases against an independent reference; explores, does not prove.'),
                           evidence_file='evidence/%s.json' % i))
    else:
        na.append(dict(property=i, reason='no check built (yet) for this property'))
m = dict(version=1, setup_cmd='%s -c "print(0)"' % PY, checks=checks, not_applicable=na,
         notes='See DESIGN.md. Known findings and repairs: known_findings.json.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
