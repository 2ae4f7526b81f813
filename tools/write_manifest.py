#!/usr/bin/env python3
"""Writes MANIFEST.json from the stages and models that exist."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import drivers
import models

NOTE = ('TLC checks the property on the TLA+ specification exhaustively over the stated small domain; recordings of the '
        'real code (%s) are then validated by TLC against the same specification, value by value. Assurance on the code '
        'extends to the recorded executions. Trusted: TLC, the Java accelerator of BigFloat.tla, the recorder.')
HOW = {'default': 'seeded inputs over the valid domain, boundary cases included'}
HOW.update(models.HOW if hasattr(models, 'HOW') else {})

props = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in drivers.STAGES:
        checks.append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                       'technique': models.TECHNIQUE.get(p, 'TLA+ specification model-checked with TLC; TLC trace validation of the real code'),
                       'level': 'model_checking', 'level_note': NOTE % HOW.get(p, HOW['default'])})
    else:
        na.append({'property': p, 'reason': models.NOT_APPLICABLE.get(p, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the public interface only',
     'source_commits': []}, 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ checked with TLC; see DESIGN.md. known_findings.json lists the findings and the repaired defects.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
