"""Regenerate MANIFEST.json from checks.py (run by hand)."""
import json, checks
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
T = checks.NOTES
m = {'version': 1,
     'setup_cmd': 'python3 setup_check.py',
     'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: every observation goes through the public interface. Repairs: see DESIGN.md and known-findings.txt.'}
for p in props:
    if p in checks.CHECKS:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                            'technique': T[p][0], 'level': 'model_checking', 'level_note': T[p][1]})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'machinery for this property not finished yet'})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
