#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: append a repaired defect to
known_findings.json (run by hand, never by a check)."""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'known_findings.json')
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
f = {'id': 'F%02d' % (len(d['findings']) + 1), 'status': 'fixed',
     'property': prop, 'commit': commit, 'what': what,
     'line': 'fixed: property=%s %s %s' % (prop, commit, what)}
d['findings'].append(f)
with open(p, 'w') as fh:
    json.dump(d, fh, indent=1)
    fh.write('\n')
print(f['line'])
