"""Writes MANIFEST.json from properties.jsonl and the harness modules present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'harnesses', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s quick' % i,
            thorough_cmd='python3 check.py %s thorough' % i,
            technique='dynamic symbolic execution of the real Python code, obligations decided by z3',
            level='model_checking',
            level_note='Every path of the harness within the stated bounds is executed symbolically '
                       'on /repo\'s current source and its obligations are decided by z3 for all '
                       'values (reals for floats, integer microseconds for times); one solver '
                       'assignment per path is re-run on the unpatched code, and counterexamples '
                       'are replayed there before they are reported. Trusts numpy, xarray, pint '
                       'and z3; bounds, stubs and assumptions are listed in the evidence file.'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks,
               not_applicable=na,
               notes='No hooks in /repo. known_findings.txt lists the defects repaired by fix: commits.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
