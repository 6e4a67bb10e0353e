"""Writes /verif/MANIFEST.json from the checks that exist."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
PY = '/opt/venv/bin/python'
TECH = {
    'model_checking': 'explicit-state exploration of the real code: all operation histories in the bound, in lockstep with a reference model',
    'exploration': 'bounded-exhaustive enumeration of all inputs in the bound on the real code, against an independent reference',
}
NOTE = {
    'model_checking': 'No violation on any history/state in the stated bound (checks/%s.py: RULE, ASSUMPTIONS). Trusts the reference '
                      'model in the check, numpy/scipy/skimage, and that larger maps/histories behave like the small ones.',
    'exploration': 'No violation on any input in the stated bound (checks/%s.py: RULE, ASSUMPTIONS). Trusts the reference '
                   'calculation in the check and numpy/scipy/skimage; says nothing about values outside the alphabets.',
}
checks, na = [], []
for p in props:
    f = os.path.join(V, 'checks', p['id'] + '.py')
    if os.path.exists(f):
        level = re.search(r"^LEVEL = '(\w+)'", open(f).read(), re.M).group(1)
        checks.append(dict(property=p['id'], quick_cmd=f'{PY} checks/{p["id"]}.py --tier quick',
                           thorough_cmd=f'{PY} checks/{p["id"]}.py --tier thorough',
                           evidence_file=f'evidence/{p["id"]}.json', technique=TECH[level], level=level,
                           level_note=NOTE[level] % p['id']))
    else:
        na.append(dict(property=p['id'], reason='no check has been built for it yet'))
m = dict(version=1, setup_cmd=f'{PY} tools/smoke.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: the checks drive the public interface in memory. known_findings.txt lists repaired '
               'defects and (if any) findings that were not repaired.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'without')
