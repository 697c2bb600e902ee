#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and tools/missed_at_first.txt."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = dict(l.strip().split(' ', 1) for l in open(H + '/tools/missed_at_first.txt') if l.strip())
rows = []
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    i = f.split('/')[-2]; m = json.load(open(f))
    rows.append(f"| {i} | {m['needs']} | {'**missed**' if first.get(i,'').startswith('STILL') else m['property']} | {first.get(i, '').replace('STILL ', '')} |")
t = "| bug | needs | caught by | missed at first; then |\n|---|---|---|---|\n" + "\n".join(rows)
p = H + '/DESIGN.md'; s = open(p).read()
B, E = '<!-- bugs -->', '<!-- /bugs -->'
s = s.replace('@@BUGS@@', B + E)
s = re.sub(re.escape(B) + '.*' + re.escape(E), lambda _: B + '\n' + t + '\n' + E, s, flags=re.S)
open(p, 'w').write(s); print(len(rows), 'bugs')
