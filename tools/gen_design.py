#!/usr/bin/env python3
"""Fills DESIGN.md's per-property section from properties.jsonl, jobs.SPEC and tools/design_notes.py, and the table of planted bugs."""
import sys, os, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + '/tools']
import jobs, design_notes as N
t = open(V + '/tools/DESIGN.template.md').read(); out = ['## Properties', '']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; out.append(f'### {i} {p["title"]}'); out.append('')
    if i in jobs.SPEC:
        out.append(jobs.SPEC[i]['how']); out.append('')
        q = jobs.SPEC[i]['jobs']('quick'); src = sorted({j.src for j in q}); out.append(f'*Harness:* {", ".join("harness/" + s for s in src)}; {len(q)} jobs quick, {len(jobs.SPEC[i]["jobs"]("thorough"))} thorough. *Bounds of a typical job:* {q[0].bounds}.')
        if i in N.NOTES: out += ['', N.NOTES[i]]
    else: out.append('Not applicable: ' + jobs.NA.get(i, 'no check built yet') + '.')
    out.append('')
s = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json')); s.append(f'* `{d}` ({m["property"]}): {m["what_it_breaks"]} Needs: {m["needs"]} {m.get("caught", "")}')
open(V + '/DESIGN.md', 'w').write(t.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(s)))
