#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json: every property with a spec module is claimed, the others are not_applicable."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import pyvc
from pyvc.runner import CASES
PY = '/opt/venv/bin/python'
checks, na = [], []


def note(p, m):
    cs = CASES[p]
    proved = [c for c in cs if c.mode != 'native']; bounded = [c for c in cs if c.mode == 'native']
    n = f'{len(proved)} contract cases proved (every obligation discharged on every path, floats as exact reals; evidence lists any obligation left undischarged)'
    within = sorted({c.bound for c in proved if c.bound})
    if within: n += '; within the stated bound: ' + '; '.join(within)
    n += f'; counterexamples are replayed on the real code, and {sum(c.mode == "dual" for c in cs)} of the cases also run natively on random inputs'
    if bounded: n += '; bounded stand-ins, not counted as proved: ' + '; '.join(f'{c.title} ({c.bound})' for c in bounded)
    return n + ('. Assumed: ' + '; '.join(m.ASSUME) if getattr(m, 'ASSUME', None) else '')


for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'specs', p.lower() + '.py')):
        m = importlib.import_module('specs.' + p.lower())
        checks.append(dict(property=p, quick_cmd=f'{PY} run.py {p}', thorough_cmd=f'{PY} run.py {p} --tier thorough',
                           technique=getattr(m, 'TECHNIQUE', 'deductive verification: contracts on the real functions, verification conditions generated from their AST, discharged by z3'),
                           level=getattr(m, 'LEVEL', 'proof'),
                           level_note=getattr(m, 'NOTE', None) or note(p, m)))
    else:
        na.append(dict(property=p, reason=json.load(open(os.path.join(V, 'tools', 'na.json'))).get(p, 'check under construction')))
json.dump(dict(version=1, setup_cmd=f'{PY} -c "import pyvc, z3; print(z3.get_version_string())" && {PY} -m compileall -q pyvc specs run.py',
               checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
