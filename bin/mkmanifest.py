#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
from props import PROPS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
checks = []
for i in ids:
    if i not in PROPS:
        NA[i] = 'check not built yet'
        continue
    p = PROPS[i]
    fl = p.get('flavor', 'asan')
    checks.append(dict(property=i, quick_cmd='bin/check %s --tier quick' % i, thorough_cmd='bin/check %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
        technique=p.get('technique', 'property-based testing: model-based random generation with shrinking'),
        level='exploration',
        level_note=p.get('note', 'Random search (fixed number of generated cases per run, seeded by VERIF_SEED) over the generators described in DESIGN.md, with an explicit reference model as oracle') + (', built with AddressSanitizer and part of UBSan' if fl == 'asan' else ', built with ThreadSanitizer' if fl == 'tsan' else '') + '. Trusts the harness model and generators; says nothing about inputs they do not produce.'))
m = dict(version=1, setup_cmd='bash bin/setup', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='bin/check builds the library sources of /repo together with harness/ and tests/<id>.cpp (clang, sanitizers) into build/ and runs the result; no hooks in /repo are needed. Findings: known_findings.txt.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', sorted(NA))
