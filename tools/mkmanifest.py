#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
NA = {}
TECH = 'TLA+ specification: TLC exhaustive model checking + TLC-judged traces of the real code'
NOTE = {}
DEF = ('Design model explored exhaustively by TLC within small constants; recorded executions of the real code '
       '(TLC-generated behaviours and seeded random programs) judged event by event by TLC against the same operators. '
       'Assumes the driver projection is faithful; executions not generated are not covered.')
exec(open(os.path.join(HERE, 'manifest_notes.py')).read())
import importlib
claimed = []
for m in ('checks_pie', 'checks_io', 'checks_grid', 'checks_num'):
    try:
        claimed += list(importlib.import_module(m).CHECKS)
    except ModuleNotFoundError as ex:
        if ex.name != m: raise
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
checks = []
na = []
for p in props:
    if p in claimed:
        checks.append(dict(property=p, quick_cmd='python3 bin/check.py %s quick' % p,
                           thorough_cmd='python3 bin/check.py %s thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=TECH, level='model_checking',
                           level_note=NOTE.get(p, DEF)))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'check not built yet')))
d = dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: every observation goes through the public API.')
json.dump(d, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
