#!/usr/bin/env python3
"""Writes known_findings.jsonl: the repaired defects (they suppress nothing) and the recorded ones."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [l.strip().split(' ', 2) for l in open(os.path.join(HERE, 'tools', 'fixed.txt')) if l.strip()]
KNOWN = []
p = os.path.join(HERE, 'tools', 'known.json')
if os.path.exists(p):
    KNOWN = json.load(open(p))
with open(os.path.join(HERE, 'known_findings.jsonl'), 'w') as f:
    for (prop, commit, what) in FIXED:
        f.write('fixed: property=%s %s %s\n' % (prop, commit, what))
    for k in KNOWN:
        f.write(json.dumps(k) + '\n')
