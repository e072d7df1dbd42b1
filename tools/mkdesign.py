"""Writes DESIGN.md from the registry, the properties, the findings, the planted bugs and tools/design_*.md."""
import json, os, sys, importlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vt import registry, core
core.setup_path()
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
here = os.path.join(V, 'tools')
rd = lambda n: open(os.path.join(here, n)).read().rstrip() + '\n'
known, fixed = core.load_known()
caught = json.load(open(os.path.join(here, 'seedresults.json'))) if os.path.exists(os.path.join(here, 'seedresults.json')) else {}
out = [rd('design_head.md')]
out.append('\n## The properties, one by one\n')
for p in props:
    i = p['id']
    out.append(f"\n### {i} {p['title']}\n")
    if i in registry.NA:
        out.append('Not applicable: ' + registry.NA[i] + '\n')
        continue
    mods = []
    rules = []
    assume = []
    for n in registry.MODULES[i]:
        m = importlib.import_module(n)
        if hasattr(m, 'for_prop'):
            m.for_prop(i)
        mods.append(n.replace('.', '/') + '.py')
        rules.append(m.RULE)
        assume += [a for a in getattr(m, 'ASSUMPTIONS', []) if a not in assume]
        need = getattr(m, 'MIN_EVENTS', {})
    tech, note = registry.NOTES[i]
    out.append(f"*Specified*: {p['statement']}\n")
    out.append(f"*Decided by*: {tech}. Check: {', '.join('`' + m + '`' for m in mods)}.\n")
    out.append(f"*Workload and what counts as covered*: {'; '.join(rules)}.\n")
    if need:
        out.append('*A run that observed less is an error, not a pass*: at least ' + ', '.join(f'{n} `{k}`' for k, n in need.items()) + '.\n')
    if assume:
        out.append('*Assumed*: ' + '; '.join(assume) + '.\n')
    out.append(f"*Assurance*: {note} *Why tests do not settle it*: {p['why_tests_cant']}\n")
    s = sorted(k for k, d in caught.items() if i in d['caught_by'])
    if s:
        out.append('*Planted bugs it catches*: ' + ', '.join(s) + '.\n')
    f = [x for x in fixed if f'property={i} ' in x]
    if f:
        out.append(f'*Defects found and repaired with it*: {len(f)} (`known_findings.txt`).\n')
out.append('\n## Known findings\n')
for (p, k), t in known.items():
    out.append(f'* {p} `{k}`: {t}.')
out.append('\n' + rd('design_findings.md'))
out.append('\n## Planted bugs (`seeded/`)\n')
out.append('Every one was checked with `tools/plant.py` (applies to HEAD, changes original lines, stable tests pass, the demonstration passes '
           'without and fails with it) and run with `tools/runseeds.py`.\n')
out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    c = caught.get(n, {}).get('caught_by')
    out.append(f"| {n} | {m['property']} | {m['needs']} | {', '.join(c) if c else ('nothing' if n in caught else 'not run yet')} |")
out.append('\n' + rd('design_tail.md'))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
