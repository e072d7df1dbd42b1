#!/usr/bin/env python3
"""writes MANIFEST.json from vt/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vt import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.MODULES:
        t, note = registry.NOTES[i]
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'technique': 'runtime monitoring: ' + t, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': registry.NA.get(i, 'no monitor has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'true',
     'hooks': {'guard': 'VERIF_HOOKS', 'enable': 'no hooks are needed: all monitors observe from outside (public objects, files, wrapped methods); the guard is unused', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'pure Python code under test: checks import onnx_tool from /repo directly, nothing is built'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
