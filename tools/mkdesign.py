#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_props.py, the properties, the
manifest and the seeded bugs (caught.json records which checks catch which)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
exec(open(here + '/design_props.py').read())
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
notes = json.load(open(here + '/notes.json'))
groups = {l.split()[0]: l.split()[1:] for l in open(root + '/harness/groups') if l.strip()}
out = open(here + '/design_head.md').read().rstrip() + '\n\n## The properties\n\nFor each: what runs, the oracle, the bounds, and why tests cannot settle it. The exact\nstatements are in properties.jsonl.\n'
for p in props:
    d = D[p['id']]
    g = groups[p['id']]
    out += f"\n### {p['id']} {p['title']}\n\n*harness/{g[0]}*" + (f" (+ {', '.join(g[1:])} as processes)" if g[1:] else '') + '\n\n'
    out += f"- Runs: {d[0]}\n- Oracle: {d[1]}\n- Bounds: {d[2]} {notes[p['id']]['note'] if False else ''}".rstrip() + '\n'
    out += f"- Beyond the tests: {p['why_tests_cant']}\n"
caught = json.load(open(here + '/caught.json'))
out += '\n## Planted bugs\n\nEach was written from the statement and the code, validated (builds, stable tests pass,\ndemonstration fails with it and passes without) and then given to the checks.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
for b in sorted(os.listdir(root + '/seeded')) if os.path.isdir(root + '/seeded') else []:
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    out += f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, '?')} |\n"
tail = here + '/design_tail.md'
if os.path.exists(tail):
    out += '\n' + open(tail).read()
open(root + '/DESIGN.md', 'w').write(out)
