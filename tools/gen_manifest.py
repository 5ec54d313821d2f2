#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib import harness  # noqa: E402
harness.setup_process()

checks, missing = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if not os.path.exists(os.path.join(ROOT, 'checks', pid + '.py')):
        missing.append({'property': pid, 'reason': 'its check is not written '
                        'yet'})
        continue
    m = importlib.import_module('checks.' + pid)
    q = sum(x.quick + len(x.examples) + (len(list(x.cases('quick')))
            if x.cases else 0) for x in m.PARTS)
    t = sum(x.thorough + len(x.examples) + (len(list(x.cases('thorough')))
            if x.cases else 0) for x in m.PARTS)
    checks.append({
        'property': pid,
        'quick_cmd': f'python3-vt run.py {pid} --tier quick',
        'thorough_cmd': f'python3-vt run.py {pid} --tier thorough',
        'technique': m.TECHNIQUE if hasattr(m, 'TECHNIQUE') else
        'property-based testing: Hypothesis generators against an '
        'independent oracle',
        'level': 'exploration',
        'level_note': f'about {q} generated cases (quick) or {t} (thorough); '
        'no claim beyond the cases explored'})

out = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'One engine (vlib/harness.py) drives every check: Hypothesis '
    'strategies in 8 parallel shards, seeded from VERIF_SEED, shrinking, '
    'replay files under evidence/replay (run.py PID --replay FILE). See '
    'DESIGN.md. Known findings and fixes: KNOWN_FINDINGS.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(missing), 'not yet')
