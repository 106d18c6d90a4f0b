#!/opt/venv/bin/python
"""run.py <PROPERTY> [--tier quick|thorough] [--only REGEX] [-v] [--strict]   |   run.py replay <file>"""
import os, sys, argparse, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyvc
from pyvc import runner

if len(sys.argv) > 2 and sys.argv[1] == 'replay':
    d = json.load(open(sys.argv[2]))
    import importlib
    importlib.import_module(f'specs.{d["property"].lower()}')
    c = next(c for c in runner.CASES[d['property']] if c.name == d['case'])
    if 'input' not in d: print(json.dumps(d, indent=1)); sys.exit(1)
    for seed, values in d.get('prelude', []): runner.native_once(c, seed, values)
    b, err = runner.native_once(c, d.get('seed', 1), d['input'])
    print('inputs', b.values); print('failures', b.failures, err or ''); print(''.join(map(str, b.trace)))
    sys.exit(1 if b.failures else 0)

a = argparse.ArgumentParser()
a.add_argument('prop'); a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
a.add_argument('--only'); a.add_argument('-v', action='store_true'); a.add_argument('--strict', action='store_true')
a.add_argument('--jobs', type=int, default=8); a.add_argument('--first', action='store_true', help='stop at the first violation')
o = a.parse_args()
code, und = runner.run_property(o.prop, o.tier, int(os.environ.get('VERIF_SEED', '1')), o.jobs, o.only, o.v, o.first)
if o.strict and und and not code: code = 3
sys.exit(code)
