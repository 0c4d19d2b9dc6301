#!/usr/bin/env python3
"""Writes BOUNDS.md from the directives of the harnesses."""
import glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(here + '/harness/*.go')):
    doc = {}
    text = ''
    for l in open(f):
        if m := re.match(r'//verif:(\w+) ?(.*)', l):
            doc[m[1]] = m[2].strip()
        elif m := re.match(r'// (H_\w+ .*)', l):
            text, doc = m[1].strip(), {}
        elif m := re.match(r'func (H_\w+)\(', l):
            for p in doc.get('prop', '').split():
                rows.setdefault(p, []).append((m[1], os.path.basename(f), text, doc))
            doc = {}
with open(here + '/BOUNDS.md', 'w') as o:
    o.write('# Harnesses and bounds\n\nGenerated by tools/bounds.py from the directives in harness/. Everything beyond a stated bound is outside the claim.\n')
    o.write('Native: how the compiled code repeats counterexamples and sampled passing paths (plain: as is; bubble: in virtual time; off: only the SSA interpreter repeats them).\n')
    for p in sorted(rows):
        o.write(f'\n## {p}\n\n')
        for h, f, t, d in rows[p]:
            nat = d.get('native', 'bubble')
            o.write(f"- **{h}** ({f}): {t[len(h)+1:].rstrip('.')}. Bounds: {d.get('bounds', 'none beyond the code: the property is a finite table')}. Witnesses: {d.get('reach', 'none')}. Native: {nat}.\n")
