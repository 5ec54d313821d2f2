#!/usr/bin/env python3-vt
"""Writes DESIGN.md."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib import harness  # noqa: E402
harness.setup_process()

T = os.path.join(ROOT, 'tools')
out = [open(os.path.join(T, 'design_head.md')).read()]
notes = json.load(open(os.path.join(T, 'design_notes.json')))
seeds = {}
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((f.split('/')[-2], m))

out.append('## The properties and their checks\n')
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
for p in props:
    pid = p['id']
    m = importlib.import_module('checks.' + pid)
    n = notes.get(pid, {})
    out.append(f"### {pid} {p['title']}\n")
    out.append(p['statement'] + '\n')
    out.append(f"* *Generated and decided*: {m.RULE}")
    parts = []
    for x in m.PARTS:
        q = x.quick + len(x.examples) + (
            len(list(x.cases('quick'))) if x.cases else 0)
        t = x.thorough + len(x.examples) + (
            len(list(x.cases('thorough'))) if x.cases else 0)
        parts.append(f'{x.name} {q}/{t}')
    out.append('* *Cases, quick/thorough*: ' + ', '.join(parts) + '.')
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('* *Assumes*: ' + '; '.join(m.ASSUMPTIONS) + '.')
    out.append('* *Beyond the tests*: ' + p['why_tests_cant'])
    if n:
        out.append('* *Note*: ' + n)
    s = seeds.get(pid)
    if s:
        out.append('* *Planted bugs caught*: ' + ', '.join(x for x, _ in s)
                   + '.')
    out.append('')

out.append('## Planted bugs and the checks that catch them\n')
also = json.load(open(os.path.join(T, 'caught_by.json')))
out.append('Each is caught (quick tier, exit 1) by the check of its own '
           'property; other checks seen to catch it are named too.\n')
out.append('| bug | property | needs | breaks | also caught by |')
out.append('|---|---|---|---|---|')
for pid in sorted(seeds):
    for x, m in seeds[pid]:
        out.append(f"| {x} | {pid} | {m['needs']} | {m['what_it_breaks']} | "
                   f"{', '.join(c for c in also.get(x, []) if c != pid)} |")
out.append('')
out.append('## Defects found in the repository\n')
out.append('All were small and safe to repair; each is one "fix:" commit.\n')
for line in open(os.path.join(ROOT, 'KNOWN_FINDINGS')):
    if line.startswith('fixed:'):
        w = line.split(None, 3)
        out.append(f"* {w[1].split('=')[1]} ({w[2]}): {w[3].strip()}")
out.append('')
out.append(open(os.path.join(T, 'design_tail.md')).read().replace(
    '@MUTATION@\n', open(os.path.join(T, 'design_mutation.md')).read()))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
