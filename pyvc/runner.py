"""Runs the cases of one property: symbolic proof, native replay and bounded native checking, verdict, evidence."""
import importlib, json, multiprocessing, os, pickle, random, re, resource, signal, subprocess, sys, tempfile, threading, time, traceback, warnings, zlib
import z3
from . import REPO
from . import sym as S
from .engine import Path, Stats, SymB, NativeB, SkipCase, SpecMismatch, native_random
from .sym import EngineSignal, PathEnd, Unsupported
from .interp import Interp
from . import models

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
CASES = {}          # property -> [Case]
TRUST = {}          # property -> extra notes


class Case:
    def __init__(self, prop, fn, title, mode, samples, thorough, budget, randomize, deep, bound, shards=1):
        self.prop, self.fn, self.title, self.mode = prop, fn, title, mode
        self.samples, self.thorough, self.budget, self.randomize = samples, thorough, budget, randomize
        self.name = fn.__name__; self.deep = deep; self.bound = bound; self.shards = shards


def case(prop, title='', mode='dual', samples=60, thorough=None, budget=60, randomize=True, deep=False, bound='', shards=1):
    """mode: dual = proved symbolically and run natively; sym = proof only; native = bounded run-time contract checking."""
    def deco(fn):
        CASES.setdefault(prop, []).append(Case(prop, fn, title or fn.__doc__ or fn.__name__, mode, samples,
                                               thorough or samples * 20, budget, randomize, deep, bound, shards))
        return fn
    return deco


def seeded(seed):
    import numpy as np
    random.seed(seed); np.random.seed(seed & 0x7fffffff)


class TimeUp(EngineSignal): pass


class Diverges(EngineSignal): pass      # a native run, of seconds at most on the unchanged tree, that spends CPUMAX seconds


CPUMAX = 40


class Watchdog:
    """Code under test that loops for ever, or blows a path up, ends as "no answer" instead of stopping the check."""
    def __init__(self, seconds, cpu=None): self.seconds, self.cpu = seconds, cpu
    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.old = signal.signal(signal.SIGALRM, self.fire)
            self.t0, self.c0 = time.time(), time.process_time()
            signal.setitimer(signal.ITIMER_REAL, min(5.0, self.seconds), 1.0)    # repeated: one alarm may land where Python swallows it
        return self
    def fire(self, *a):
        if self.cpu and time.process_time() - self.c0 > self.cpu: raise Diverges()
        if time.time() - self.t0 > self.seconds: raise TimeUp(f'no end after {self.seconds:.0f}s')
    def __exit__(self, *a):
        if self.on:
            signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, self.old)
        return False


def limit_memory():
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
    except (ValueError, OSError): pass


def explore(c, tier, budget, shard=0):
    stats = Stats(); work = [[]]; t0 = time.time(); undecided = []
    splitting = c.shards > 1
    while work:
        if splitting and len(work) >= c.shards * 4:
            # every shard repeats the split; shard 0 keeps what the split itself finished
            splitting = False
            work = sorted(work)[shard::c.shards]
            if shard: stats = Stats(); undecided = []
        if time.time() - t0 > budget:
            undecided.append(f'time budget of {budget}s exceeded with {len(work)} paths left'); break
        prefix = work.pop(0) if splitting else work.pop()
        p = Path(prefix, work, stats, tier); S.CTX = p
        I = Interp(p, models.M); b = SymB(p, I)
        Interp.current_exc = []
        try:
            with Watchdog(max(1.0, budget * 1.25 + 10 - (time.time() - t0))):
                c.fn(b); stats.completed += 1
        except PathEnd: pass
        except TimeUp as e: undecided.append(f'time: {e}'); break
        except Unsupported as e: undecided.append(f'unsupported: {e}')
        except SpecMismatch as e: undecided.append(f'contract does not fit the code: {e}')
        except EngineSignal as e: undecided.append(f'{type(e).__name__}: {e}')
        except z3.Z3Exception as e: undecided.append(f'solver: {e}')
        except Exception as e:
            undecided.append('error: ' + ''.join(traceback.format_exception(e)[-4:])[-1500:])
        stats.paths += 1
        if len(undecided) > 20 or len(stats.failed) > 12: break
    if splitting and shard: stats = Stats(); stats.obligations = stats.discharged = 0; stats.idle = True; undecided = []
    S.CTX = None
    return stats, undecided


def native_once(c, seed, oracle=None, limit=90, prev=None):
    rng = random.Random(seed); seeded(seed)
    b = NativeB(oracle, rng, prev); err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with Watchdog(limit, CPUMAX):
                if c.randomize:
                    with native_random(b): c.fn(b)
                else: c.fn(b)
    except SkipCase: pass
    except Diverges: b.checked += 1; b.failures.append(f'the call returns (no end within {CPUMAX}s of processor time)')
    except TimeUp as e: err = f'TimeUp: {e}'
    except SpecMismatch as e: err = f'contract does not fit the code: {e}'
    except EngineSignal as e: err = f'{type(e).__name__}: {e}'
    except Exception as e: err = 'error: ' + ''.join(traceback.format_exception(e)[-4:])[-1500:]
    finally: b.undo()
    return b, err


class Clean:
    """Re-runs recorded inputs in a process where nothing else of the case has run: what it confirms, a replay reproduces."""
    def __init__(self, c):
        self.c = c; a, self.w = os.pipe(); self.r, z = os.pipe()
        self.pid = os.fork()
        if self.pid: os.close(a); os.close(z); self.w = os.fdopen(self.w, 'wb'); self.r = os.fdopen(self.r, 'rb'); return
        os.close(self.w); os.close(self.r)
        try:
            with os.fdopen(a, 'rb') as f, os.fdopen(z, 'wb') as g:
                while True:
                    try: runs = pickle.load(f)
                    except EOFError: break
                    if os.fork() == 0:
                        sys.stdout = open(os.devnull, 'w')
                        for seed, values in runs: b, err = native_once(self.c, seed, values)
                        pickle.dump((b.failures, {k: v if isinstance(v, (int, float, str, bool, type(None))) else None for k, v in b.values.items()}, [str(t) for t in b.trace], err), g); g.flush(); os._exit(0)
                    if os.wait()[1]: pickle.dump(None, g); g.flush()
        finally: os._exit(0)
    def run(self, runs):
        """-> (failures, values, trace, error) of the last run, or None"""
        try:
            pickle.dump(runs, self.w); self.w.flush()
            return pickle.load(self.r)
        except Exception: return None
    def close(self):
        for f in (self.w, self.r):
            try: f.close()
            except OSError: pass
        try: os.waitpid(self.pid, 0)
        except ChildProcessError: pass


def native_part(c, r, tier, seed, shard, clean):
    n = c.thorough if tier == 'thorough' else c.samples
    errs = []; past = []
    t0 = time.time(); limit = t0 + c.budget * (6 if tier == 'thorough' else 1)

    def once(s, prev=None):
        """-> the values, or None when there is no point in going on"""
        t1 = time.process_time(); b, err = native_once(c, s, prev=prev); r['native_max_s'] = round(max(r.get('native_max_s', 0), time.process_time() - t1), 3)
        r['native_runs'] += 1; r['native_checks'] += b.checked
        if b.checked == 0: r['native_skipped'] += 1
        elif r['sample'] is None: r['sample'] = {k: short(v) for k, v in list(b.values.items())[:12]}
        if err: errs.append(err)
        if err and err.startswith('TimeUp') and sum(x.startswith('TimeUp') for x in errs) >= 2: return None
        if b.failures:
            b2, _ = native_once(c, s, b.values)
            if b2.failures and not any(v['obligation'] == b2.failures[0] for v in r['violations']):
                v = dict(obligation=b2.failures[0], input=b.values, failures=b2.failures[:5], trace=b2.trace[:2], found='bounded native contract checking', seed=s, detail='')
                me = (s, b.values)
                for k in (0, 1, 20, len(past)):      # with as little of what ran before as makes it fail
                    got = clean.run(past[len(past) - k:] + [me]) if k <= len(past) else None
                    if got and got[0]: v['prelude'] = past[len(past) - k:]; break
                if v.get('prelude') and b.stubbed: r['undecided'].append(f'native: {b2.failures[0]} fails only after other runs with other stand-ins')
                else:
                    if not v.get('prelude'): v.pop('prelude', None)
                    else: v['found'] += '; fails only after the runs listed as prelude, in the same process'
                    r['violations'].append(v)
            if len(r['violations']) >= 4: return None
        if len(errs) >= 40: return None
        past.append((s, b.values))
        if len(past) > 4000: del past[:2000]
        return b.values
    for i in range(shard, n, c.shards if c.mode == 'native' else 1):
        if time.time() > limit: break
        s = zlib.crc32(f'{seed}/{c.name}/{i}'.encode())
        values = once(s)
        if values is None: break
        if n >= 40 and values and (i % 3 == 0 or time.time() - t0 < .002 * r['native_runs']):        # the same again but for some inputs, so that what is remembered wrongly shows
            if once(s ^ 0x5a5a5a5a, values) is None: break
    if errs: r['undecided'].append('native: ' + errs[0][:1500])
    if r['native_checks'] == 0: r['undecided'].append('native: vacuous')


def blank(c, why=None):
    return dict(case=c.name, title=c.title, mode=c.mode, undecided=[why] if why else [], violations=[], native_runs=0, native_checks=0, native_skipped=0,
                obligations=0, discharged=0, completed=0, solver_s=0.0, paths=0, functions={}, contracts=[], models=[], names={}, sample=None, cvc5=None, bound=c.bound, wall_s=0.0)


def run_case(args):
    prop, idx, tier, seed, shard = args
    c = CASES[prop][idx]
    t0 = time.time()
    r = blank(c); r['key'] = (idx, shard)
    devnull = open(os.devnull, 'w'); so = sys.stdout
    clean = Clean(c) if c.mode != 'sym' else None
    # the native runs come first: what the code remembers must not hold symbolic values by then
    if c.mode in ('dual', 'native') and (shard == 0 or c.mode == 'native'):
        sys.stdout = devnull
        try: native_part(c, r, tier, seed, shard, clean)
        finally: sys.stdout = so
    if c.mode in ('dual', 'sym'):
        budget = c.budget * (8 if tier == 'thorough' else 1)
        sys.stdout = devnull
        try: st, und = explore(c, tier, budget, shard)
        finally: sys.stdout = so
        r.update(obligations=st.obligations, discharged=st.discharged, solver_s=round(st.solver_s, 3), paths=st.paths,
                 functions=dict(st.functions), contracts=sorted(st.stubs), models=sorted(st.models), names=dict(st.names))
        r['undecided'] += und + [f'solver gave no answer: {n}' for n in sorted(set(st.unknown))]
        r['completed'] = st.completed
        seen = {v['obligation'] for v in r['violations']}
        for f in st.failed:
            if f['name'] in seen: continue
            confirmed = False
            if c.mode == 'dual' and f['replayable'] is not False:
                failures, values, trace, err = clean.run([(12345, f['model'])]) or ((), {}, (), 'the process died')
                if failures:
                    seen.add(f['name'])
                    r['violations'].append(dict(obligation=f['name'], input=values, failures=failures[:5], trace=trace[:2], detail=f['detail'][:1500], found='counterexample of the verifier replayed on the real code', seed=12345))
                    confirmed = True
                elif err:
                    r['undecided'].append(f'obligation {f["name"]}: counterexample not replayable: {err[:300]}')
                else:
                    r['undecided'].append(f'obligation {f["name"]} not discharged; the counterexample does not fail on the real code: {f["detail"][:600]}')
            elif c.mode == 'sym' and f['replayable'] is not False and f['name'] != 'no-exception':
                seen.add(f['name'])
                r['violations'].append(dict(obligation=f['name'], detail=f['detail'][:3000], found=None))
            else:
                r['undecided'].append(f'obligation {f["name"]} not discharged: {f["detail"][:600]}')
        if tier == 'thorough' and st.smt2: r['cvc5'] = cvc5_recheck(st.smt2)
    if clean: clean.close()
    r['wall_s'] = round(time.time() - t0, 2)
    devnull.close()
    return r


def short(v):
    return v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)[:80]


def cvc5_recheck(smt2):
    """Second back end: every obligation z3 discharged, again in cvc5 (sampled when very many)."""
    ok = unknown = bad = 0; badnames = []
    step = max(1, len(smt2) // 150)
    for name, text in smt2[::step]:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + text)
        try:
            out = subprocess.run(['cvc5', '--tlimit=5000', f.name], capture_output=True, text=True, timeout=20).stdout.strip()
        except Exception: out = 'error'
        os.unlink(f.name)
        if out.startswith('unsat'): ok += 1
        elif out.startswith('sat'): bad += 1; badnames.append(name)
        else: unknown += 1
    return dict(checked=ok + unknown + bad, confirmed=ok, no_answer=unknown, disagree=bad, names=badnames[:5])


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^KNOWN-FINDING:\s+property=(\S+)\s+obligation=(\S+)\s+(.*)$', l.strip())
            if m: out.append(m.groups())
    return out


def clean_old(prop, outdir):
    if os.path.isdir(outdir):
        for f in os.listdir(outdir):
            if f.startswith(prop + '-'): os.unlink(os.path.join(outdir, f))


def merge(results):
    out = {}
    for r in results:
        m = out.get(r['case'])
        if m is None: out[r['case']] = r; continue
        for k in ('undecided', 'violations'): m[k] += r[k]
        for k in ('native_runs', 'native_checks', 'native_skipped', 'obligations', 'discharged', 'completed', 'solver_s', 'paths'): m[k] += r[k]
        for k in ('functions', 'names'):
            for f, n in r[k].items(): m[k][f] = m[k].get(f, 0) + n
        for k in ('contracts', 'models'): m[k] = sorted(set(m[k]) | set(r[k]))
        m['wall_s'] = max(m['wall_s'], r['wall_s']); m['sample'] = m['sample'] or r['sample']
        if r['cvc5']:
            m['cvc5'] = m['cvc5'] or dict(checked=0, confirmed=0, no_answer=0, disagree=0, names=[])
            for k in ('checked', 'confirmed', 'no_answer', 'disagree'): m['cvc5'][k] += r['cvc5'][k]
            m['cvc5']['names'] += r['cvc5']['names']
    for m in out.values():
        seen = set()
        m['violations'] = [v for v in m['violations'] if not (v['obligation'] in seen or seen.add(v['obligation']))]
        m['solver_s'] = round(m['solver_s'], 3)
        if m['mode'] != 'native' and not m['undecided'] and (m['obligations'] == 0 or m['completed'] == 0):
            m['undecided'].append('vacuous: no obligation or no completed path')
    return list(out.values())


def run_property(prop, tier, seed, jobs=8, only=None, verbose=False, first=False):
    t0 = time.time()
    importlib.import_module(f'specs.{prop.lower()}')
    spec = sys.modules[f'specs.{prop.lower()}']
    tasks = [(prop, i, tier, seed, k) for i, c in enumerate(CASES[prop]) for k in range(c.shards) if (only is None or re.search(only, c.name)) and (tier == 'thorough' or not c.deep)]
    results = []
    if jobs > 1 and len(tasks) > 1:
        ctx = multiprocessing.get_context('fork')
        deadline = t0 + (780 if tier == 'quick' else 4 * 3600)
        with ctx.Pool(min(jobs, len(tasks)), initializer=limit_memory, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(run_case, tasks); done = set()
            for _ in tasks:
                try: r = it.next(timeout=max(0.1, deadline - time.time()))
                except multiprocessing.TimeoutError:
                    # a worker that died or a solver call that does not return: those cases have no answer
                    pool.terminate()
                    for t in tasks:
                        if (t[1], t[4]) not in done: results.append(blank(CASES[prop][t[1]], 'time: no answer before the deadline of the check'))
                    break
                results.append(r); done.add(r.pop('key'))
                if first and r['violations']: pool.terminate(); break
    else:
        for t in tasks: results.append(run_case(t)); results[-1].pop('key')
    results = merge(results)
    order = {c.name: i for i, c in enumerate(CASES[prop])}
    results.sort(key=lambda r: order[r['case']])
    outdir = os.path.join(EVID, 'replay')
    os.makedirs(outdir, exist_ok=True)
    clean_old(prop, outdir)
    code = 0; nviol = 0; lines = []
    kf = known_findings()
    for r in results:
        for v in r['violations']:
            known = next((k for k in kf if k[0] == prop and k[1] == v['obligation']), None)
            if known:
                lines.append(f'KNOWN-FINDING: property={prop} {known[2]}'); continue
            nviol += 1
            slug = re.sub(r'[^A-Za-z0-9_.-]+', '_', v['obligation'])[:60]
            path = os.path.join(outdir, f'{prop}-{r["case"]}-{slug}.json')
            json.dump(dict(property=prop, case=r['case'], title=r['title'], **v), open(path, 'w'), indent=1, default=str)
            tail = '' if v.get('found') else ' no-failing-input-found'
            print(f'[{prop}/{r["case"]}] failed: {v["obligation"]}; {str(v.get("failures", ""))[:300]}')
            lines.append(f'VIOLATION property={prop} replay={path}{tail}')
            code = 1
    for r in results:
        for u in r['undecided'][: (50 if verbose else 3)]:
            print(f'[{prop}/{r["case"]}] UNDECIDED {u[: (3000 if verbose else 400)]}')
        if verbose:
            print(f'[{prop}/{r["case"]}] {r["mode"]} obligations {r["discharged"]}/{r["obligations"]} paths {r["paths"]} solver {r["solver_s"]}s native {r["native_runs"]} runs ({r["native_skipped"]} skipped) {r["native_checks"]} checks wall {r["wall_s"]}s')
            if r['cvc5']: print('   cvc5', r['cvc5'])
    ob = sum(r['obligations'] for r in results); di = sum(r['discharged'] for r in results)
    funcs = {}
    for r in results:
        for f, n in r['functions'].items(): funcs[f] = funcs.get(f, 0) + n
    stubs = sorted({x for r in results for x in r['contracts']})
    mods = sorted({x for r in results for x in r['models']})
    undecided = [f'{r["case"]}: {u[:300]}' for r in results for u in r['undecided']]
    cv = [r['cvc5'] for r in results if r['cvc5']]
    level = getattr(spec, 'LEVEL', 'proof')
    trusted = [
        'pyvc verification-condition generator (AST interpreter over the functions in /repo, re-read from disk on every run)',
        'z3 5.x (Python API) as the deciding back end; cvc5 1.1.2 re-checks in the thorough tier',
        'machine floats treated as exact reals; Python ints are unbounded integers',
        'models of builtins/library functions: ' + ', '.join(mods),
    ]
    if stubs: trusted.append('functions replaced by a contract or stand-in in a caller\'s proof: ' + ', '.join(stubs))
    assumptions = list(getattr(spec, 'ASSUME', [])) + ['logging calls have no effect on the model (stubbed)']
    cov = dict(obligations=ob, discharged=di,
               checker_cmd=f'/opt/venv/bin/python /verif/run.py {prop} --tier {tier}',
               trusted_base=trusted, functions_under_contract=sorted(funcs), n_functions=len(funcs),
               symbolic_paths=sum(r['paths'] for r in results), solver_s=round(sum(r['solver_s'] for r in results), 2),
               backend='z3', second_backend=cv,
               cases=[dict(case=r['case'], title=r['title'], kind={'dual': 'proved + native', 'sym': 'proved', 'native': 'bounded'}[r['mode']],
                           bound=r['bound'] or (f'{r["native_runs"]} sampled native runs' if r['mode'] == 'native' else ''),
                           obligations=r['obligations'], discharged=r['discharged'], paths=r['paths'], native_runs=r['native_runs'],
                           native_checks=r['native_checks'], wall_s=r['wall_s']) for r in results],
               undischarged=undecided,
               bounded_native_runs=sum(r['native_runs'] for r in results), bounded_native_checks=sum(r['native_checks'] for r in results),
               evaluations=sum(r['native_runs'] for r in results),
               distinct_nontrivial=sum(r['native_runs'] - r['native_skipped'] for r in results),
               rule='native runs draw every named input of a case from VERIF_SEED with boundary bias, some runs keep most inputs of the one before; non-trivial = at least one clause was evaluated',
               samples=[dict(case=r['case'], input=r['sample']) for r in results if r['sample']][:4])
    if level != 'proof': cov['explanation'] = getattr(spec, 'EXPLANATION', '')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, f'{prop}.json'), 'w'), indent=1, default=str)
    for l in lines: print(l)
    und = f', {len(undecided)} undecided' if undecided else ''
    print(f'{prop} [{tier}] obligations {di}/{ob} discharged over {len(funcs)} functions, native {cov["bounded_native_checks"]} checks in {cov["bounded_native_runs"]} runs{und}, {time.time() - t0:.1f}s: ' + ('VIOLATED' if code else 'held'))
    return code, undecided
