#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and dst/meta.py."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from dst.meta import META, NOT_APPLICABLE      # noqa: E402

PY = '/opt/venv/bin/python run.py check '
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in META:
        m = META[i]
        checks.append({
            'property': i,
            'quick_cmd': PY + i + ' --tier quick',
            'thorough_cmd': PY + i + ' --tier thorough',
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection: '
                         + m['technique'],
            'level': 'exploration',
            'level_note': m['note'],
        })
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(
            i, 'no check has been built for it yet')})
doc = {'version': 1,
       'setup_cmd': '/opt/venv/bin/python tools/setup.py',
       'hooks': {'guard': 'none',
                 'enable': 'no hooks were added to /repo: the seams are '
                           'threading, queue, time, sockets, selectors, files '
                           'and randomness, replaced from outside before '
                           'ncdiff is imported',
                 'source_commits': []},
       'checks': checks, 'not_applicable': na,
       'notes': 'Every check runs seeded simulated executions of the code in '
                '/repo/src (see DESIGN.md); run.py replay FILE repeats one.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
