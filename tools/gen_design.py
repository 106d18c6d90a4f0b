#!/opt/venv/bin/python
"""Writes /verif/DESIGN.md from tools/design*.{md,py}, the specs, known-findings.txt and seeded/."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, os.path.join(V, 'tools')]
import pyvc
from pyvc.runner import CASES
from design_props import P
R = lambda n: open(os.path.join(V, 'tools', n)).read()
out = [R('design.md')]
seeds = {}
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json'))); seeds.setdefault(m['property'], []).append((d, m))
fixed = {}
for l in open(os.path.join(V, 'known-findings.txt')):
    if l.startswith('fixed:'):
        w = l.split(None, 3); fixed.setdefault(w[1].split('=')[1], []).append((w[2], w[3].strip()))
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']; m = importlib.import_module('specs.' + i.lower())
    out.append(f'### {i} {p["title"]}\n\n{P[i]}\n\nAnchored in {", ".join(a["name"] for a in p["anchors"]["mechanism"])}.\n')
    for c in CASES[i]:
        kind = {'dual': 'proved, and run natively', 'sym': 'proved', 'native': 'bounded'}[c.mode]
        out.append(f' - {kind}: {c.title}' + (f' ({c.bound})' if c.bound else ''))
    if getattr(m, 'ASSUME', None): out.append('\nAssumes: ' + '; '.join(m.ASSUME) + '.')
    if i in fixed: out.append('\nDefects found and repaired: ' + '; '.join(f'{t} ({h})' for h, t in fixed[i]) + '.')
    out.append('')
out.append('## 4. Planted bugs\n\nEach is in seeded/<id>/, passes the existing tests, and is reported by the check of its property with a concrete failing input on the real code.\n'
           'Bugs that a check missed when first planted led to the strengthening named in brackets.\n')
missed = json.load(open(os.path.join(V, 'tools', 'missed.json')))
for i in sorted(seeds):
    for d, m in seeds[i]:
        out.append(f' - {d} ({i}): {m["what_it_breaks"]}. Needs: {m["needs"]}.' + (f' [missed at first; {missed[d]}]' if d in missed else ''))
out.append(R('design_tail.md'))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
