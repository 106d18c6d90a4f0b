"""C26 Multi-value command lines run once per distinct value, in order."""
import multiprocessing, multiprocessing.pool, os, tempfile, zlib
os.environ.setdefault('MPLBACKEND', 'Agg')
import click.testing
from pyvc.runner import case
from pyvc.sym import Sym, Unsupported
import pysim.models.pingpong.cli as pc
import pysim.models.pingpong.model as pm
import pysim.models.tag_time.cli as tc
import pysim.models.tag_time.model as tm
import pysim.models.rfid.cli as rc
import pysim.models.rfid.configurator as cf
import pysim.models.rfid.epcstd as std

ASSUME = ['click parses command lines as documented (native runs go through it)', 'multiprocessing.Pool.map applies the function to each argument and returns the results in order (native runs use it too)', 'sorted(set(...)) as documented',
          'what a run does with its arguments is C14-C25; whether a run of several prints model details (verbose) is not constrained']


# ------------------------------------------------------------- command lines
class Inline:
    """a pool that works in this process; results that need not come in order come in another one"""
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def map(self, f, xs, *a, **k): return [f(x) for x in xs]
    imap = lambda self, f, xs, *a, **k: iter(self.map(f, xs))
    imap_unordered = lambda self, f, xs, *a, **k: iter(self.map(f, xs)[::-1])
    def starmap(self, f, xs, *a, **k): return [f(*x) for x in xs]
    def apply(self, f, args=(), kwds={}): return f(*args, **kwds)
    def close(self): pass
    join = terminate = close
    class Later:
        def __init__(self, v): self.v = v
        def get(self, *a): return self.v
        def wait(self, *a): pass
    def map_async(self, f, xs, *a, **k): return self.Later(self.map(f, xs))
    def starmap_async(self, f, xs, *a, **k): return self.Later(self.starmap(f, xs))
    def apply_async(self, f, args=(), kwds={}, **k): return self.Later(f(*args, **kwds))


class Patch:
    def __init__(self): self.old = []
    def set(self, o, n, v): self.old.append((o, n, getattr(o, n))); setattr(o, n, v)
    def undo(self):
        for o, n, v in reversed(self.old): setattr(o, n, v)


def mark(*xs): return float(zlib.crc32(repr([float(f'{x:.11g}') if isinstance(x, (int, float)) else x for x in xs]).encode()) % 10 ** 6 + 1)


def run(b, cli, mod, args, results, patches, real):
    """runs the command line in a scratch folder; the results handed on, or the exception"""
    p = Patch(); cwd = os.getcwd(); me = multiprocessing.current_process()._config; daemon = me.get('daemon'); me['daemon'] = False
    with tempfile.TemporaryDirectory() as d:
        try:
            if not real:
                p.set(multiprocessing, 'Pool', Inline)
                for n in ('Pool', 'ThreadPool'):
                    if hasattr(mod, n): p.set(mod, n, Inline)
            elif hasattr(mod, 'Pool'): p.set(mod, 'Pool', lambda *a, **k: multiprocessing.Pool(3))
            patches(p); os.chdir(d)
            r = click.testing.CliRunner().invoke(cli, args, standalone_mode=False)
        finally: os.chdir(cwd); p.undo(); me['daemon'] = daemon
    return r


def value(b, name, values):
    if b.choice(f'{name} listed', [True, False]): return b.choice(name, values)
    return b.int(f'{name} any', 0, 400) if isinstance(values[0], int) else float(b.real(f'{name} any', 0, 1 if max(values) <= 1 else 50))


def options(b, spec, multi):
    """a command line for the options and what it asks for; multi: names given several values"""
    args, want = [], {}
    for name, flag, values in spec:
        if name in multi:
            n = b.choice(f'{name} count', [2, 3, 2, 3, 4, 6, 90]); vs = [value(b, f'{name} {i}', values) for i in range(n)]
            if len(set(vs)) == 1 and len(multi) > 1: vs[0] += 1
        elif b.choice(f'{name} given', [True, False]) or name == 'max_pings': vs = [value(b, name, values)]
        else: vs = None
        want[name] = vs
        for v in vs or []: args += [flag, str(v)]
    return args, want


def combos(want, defaults, multi):
    base = {n: (v[0] if v else defaults[n]) for n, v in want.items()}
    if not multi: return [base]
    return [dict(base, **{multi[0]: v}) for v in sorted(set(want[multi[0]]))]


def defaults(cli): return {q.name: (q.default[0] if getattr(q, 'multiple', False) else q.default) for q in cli.params}


def pick(b, names):
    k = b.choice('several values', [0, 1, 1, 1, 2])
    out = []
    for i in range(k):
        n = b.choice(f'which {i}', names)
        if n in out: b.assume(False)
        out.append(n)
    return out


PING = [('interval', '-i', [10.0, 5.0, 0.5, 100.0, 9.25]), ('channel_delay', '-ch', [2.0, 10.0, 0.0, 1.5]), ('service_delay', '-s', [1.0, 20.0, 3.0, 0.25]), ('loss_prob', '-l', [0.1, 0.0, 1.0, 0.75]), ('max_pings', '-mp', [9, 10, 100, 1])]


def ping(b, real):
    multi = pick(b, [n for n, _, _ in PING]); args, want = options(b, PING, multi); handed = []
    orig = pm.Model.__init__
    def init(self, config, logger):
        m = mark(config.interval, config.channel_delay, config.service_delay, config.loss_prob, config.max_pings)
        orig(self, config.model_copy(update=dict(interval=m, max_pings=1, loss_prob=0.5)), logger)
    def patches(p):
        p.set(pm.Model, '__init__', init)
        p.set(pc, 'result_processing', lambda i, r, *a, **k: handed.append(r))
    r = run(b, pc.cli_run, pc, args, handed, patches, real)
    if len(multi) > 1: b.ensure('several options with several values are refused with ValueError', isinstance(r.exception, ValueError) and not handed); return
    b.ensure('no exception', r.exception is None)
    if not handed: raise Unsupported('no results seen')
    exp = combos(want, defaults(pc.cli_run), multi); got = handed[0] if multi else [handed[0]]
    b.ensure('one run per distinct value', len(got) == len(exp))
    b.ensure('in ascending order, with every other option as given', [x.avg_interval for x in got] == [mark(c['interval'], c['channel_delay'], c['service_delay'], c['loss_prob'], c['max_pings']) for c in exp])


@case('C26', 'ping-pong command lines', mode='native', samples=150, thorough=1500, bound='150 command lines', budget=40)
def pingpong(b): ping(b, False)


@case('C26', 'ping-pong command lines, worker processes', mode='native', samples=6, thorough=30, bound='6 command lines', budget=40)
def pingpong_pool(b): ping(b, True)


RFID = [('speed', '-s', [5, 10, 100, 25, 9, 0, -30]), ('tid_word_size', '-ws', [4, 16, 64, 128]), ('altitude', '-a', [5.0, 10.0, 4.5, 12.0]), ('reader_offset', '-ro', [3.0, 0.0, 10.0, -2.0]), ('tag_offset', '-to', [2.0, 1.5, 11.0, 0.0]), ('power', '-p', [29, 9, 30, 100, -5])]
ENC = {'1': std.TagEncoding.FM0, '2': std.TagEncoding.M2, '4': std.TagEncoding.M4, '8': std.TagEncoding.M8}


class Stats:
    def __init__(self, m): self.m = m
    def average_rounds_per_tag(self): return self.m
    def inventory_probability(self): return self.m / 2
    def read_tid_probability(self): return self.m / 4
    def average_changing_q(self): return 0


def rfid_mark(c): return mark(*[c[n] for n in ('speed', 'tid_word_size', 'altitude', 'reader_offset', 'tag_offset', 'power', 'num_tags', 'tari', 'delta')], c['encoding'].name, bool(c['useadjust']))


class FakeModel: pass


def rfid(b, real, plots=False):
    multi = pick(b, [n for n, _, _ in RFID]); args, want = options(b, RFID, multi); handed = []
    rest = dict(num_tags=40, tari='12.5', encoding='2', useadjust=False, delta=0.5)
    if b.choice('tags given', [True, False]): rest['num_tags'] = b.int('num_tags', 0, 300); args += ['-n', str(rest['num_tags'])]
    if b.choice('tari given', [True, False]): rest['tari'] = b.choice('tari', ['6.25', '12.5', '18.75', '25']); args += ['-t', rest['tari']]
    if b.choice('encoding given', [True, False]): rest['encoding'] = b.choice('encoding', list(ENC)); args += ['-m', rest['encoding']]
    if b.choice('useadjust', [True, False]): rest['useadjust'] = True; args.append('-ua')
    if b.choice('delta given', [True, False]): rest['delta'] = value(b, 'delta', [0.1, 0.0, 1.0]); args += ['-d', str(rest['delta'])]
    if b.choice('verbose', [True, False]): args.append('-v')
    def create(settings=None, verbose=False, **k):
        m = FakeModel(); m.statistics = Stats(rfid_mark(dict(k, speed=k['speed'] / cf.KMPH_TO_MPS_MUL, tari=k['tari'] * 1e6))); return m
    def patches(p):
        p.set(cf, 'create_model', create); p.set(cf, 'run_model', lambda *a, **k: None)
        for n in ('create_model', 'run_model'):
            if hasattr(rc, n): p.set(rc, n, getattr(cf, n))
        proc = rc.result_processing
        def see(i, r, *a, **k):
            handed.append([tuple(x) for x in r] if isinstance(r, list) else tuple(r))
            if plots: proc(i, r, *a, **k)
        p.set(rc, 'result_processing', see)
    r = run(b, rc.cli_run, rc, args, handed, patches, real)
    if len(multi) > 1: b.ensure('several options with several values are refused with ValueError', isinstance(r.exception, ValueError) and not handed); return
    b.ensure('no exception', r.exception is None)
    if not handed: raise Unsupported('no results seen')
    exp = combos(want, defaults(rc.cli_run), multi); got = handed[0] if multi else [handed[0]]
    b.ensure('one run per distinct value', len(got) == len(exp))
    b.ensure('in ascending order, with every other option as given', [x[0]['rounds_per_tag'] for x in got] == [rfid_mark(dict(rest, **c, tari=float(rest['tari']), encoding=ENC[rest['encoding']])) if True else 0 for c in
             [{k: v for k, v in c.items() if k not in ('tari', 'encoding')} for c in exp]])
    b.ensure('results as the run gave them', all((x[0]['inventory_prob'], x[0]['read_tid_prob']) == (x[0]['rounds_per_tag'] / 2, x[0]['rounds_per_tag'] / 4) for x in got))


@case('C26', 'RFID command lines', mode='native', samples=200, thorough=2000, bound='200 command lines', budget=40)
def rfid_lines(b): rfid(b, False)


@case('C26', 'RFID command lines, worker processes', mode='native', samples=6, thorough=30, bound='6 command lines', budget=40)
def rfid_pool(b): rfid(b, True)


@case('C26', 'RFID command lines, results shown to the end', mode='native', samples=12, thorough=60, bound='12 command lines', budget=40)
def rfid_plots(b): rfid(b, False, True)


# ------------------------------------------------------------- the staged model
def staged(b, real):
    k = b.choice('pairs', [1, 2, 3, 5, 2, 3, 5, 90]); scenario = b.choice('scenario', [1, 2, 3, 1, 2, 3, 0, 4, -1]); chunks = b.choice('chunks', [1, 2, 10, 5, 0, -3]); limit = b.choice('transmissions', [1, 50, 7, 100000])
    P = [tuple(b.choice(f'p{i}{j}', [0.5, 0.9, 1.0, 0.0, 0.123456789]) for j in range(4)) for i in range(k)]; T = [tuple(b.choice(f't{i}{j}', [0.5, 1.0, 0.0, 7.5, 0.000012345, 1234.56789]) for j in range(4)) for i in range(k)]
    if b.choice('a list is missing', [False] * 5 + [True]): (P if b.choice('which', [0, 1]) else T).append((1.0,) * 4)
    ordered = list(zip(P, T)); args = []
    for p in P: args += ['-p', *map(str, p)]
    for t in T: args += ['-t', *map(str, t)]
    args += ['-s', str(scenario), '-m', str(limit)]
    if chunks != 10: args += ['-cn', str(chunks)]
    orig = tm.Model.__init__; n = []
    def init(self, config, logger):
        n.append(1); m = mark(*config.probability, *config.processing_time, config.max_transmisions, config.chunks_number, config.scenario)
        orig(self, config.model_copy(update=dict(probability=(1.0,) * 4, processing_time=(m, 0.0, 0.0, 0.0), max_transmisions=1, scenario=1)), logger)
    def patches(p): p.set(tm.Model, '__init__', init)
    r = run(b, tc.cli_run, tc, args, None, patches, real)
    if scenario not in (1, 2, 3): b.ensure('unknown scenarios are refused', isinstance(r.exception, (AttributeError, ValueError)) and not n); return
    if scenario == 3 and chunks < 1: b.ensure('chunk counts below 1 are refused in scenario 3', isinstance(r.exception, (AttributeError, ValueError)) and not n); return
    if len(P) != len(T): b.ensure('lists of unequal length are refused', isinstance(r.exception, (AttributeError, ValueError)) and not n); return
    b.ensure('no exception', r.exception is None)
    out = r.return_value
    if out is None: raise Unsupported('no results seen')
    out = list(out) if isinstance(out, (list, tuple)) else [out]
    b.ensure('one run per pair', len(out) == k)
    b.ensure('in the order given, with every other option as given', [x.sim_time for x in out] == [mark(*p, *t, limit, chunks, scenario) for p, t in ordered])


@case('C26', 'staged model command lines', mode='native', samples=200, thorough=2000, bound='200 command lines', budget=40)
def staged_lines(b): staged(b, False)


@case('C26', 'staged model command lines, worker processes', mode='native', samples=6, thorough=30, bound='6 command lines', budget=40)
def staged_pool(b): staged(b, True)


@case('C26', 'encodings', samples=300)
def encodings(b):
    names = {'1': 'FM0', 'FM0': 'FM0', '2': 'M2', 'M2': 'M2', '4': 'M4', 'M4': 'M4', '8': 'M8', 'M8': 'M8', 'fm0': 'FM0', 'm2': 'M2', 'm4': 'M4', 'm8': 'M8', 'Fm0': 'FM0'}
    s = b.choice('encoding', list(names) + ['0', '3', '16', '', 'M1', 'M', 'FM', 'FM00', 'M22', 'FM8', '12', '02', ' 2', 'X', 'FM4', 'm', '28', 'M2M4'])
    out = b.call(rc.parse_tag_encoding, s)
    if s in names: b.ensure('names and numbers map to the matching encoding', out.exc is None and out.value is std.TagEncoding[names[s]])
    else: b.ensure('anything else is refused', isinstance(out.exc, ValueError))
    if s not in names:
        made = []
        def create(*a, **k): made.append(k); return FakeModel()
        create.pyvc_model = True; b.stub(cf, 'create_model', create)
        out = b.call(rc.prepare_simulation, dict(speed=1, tari='12.5', encoding=s, tid_word_size=1, reader_offset=1, tag_offset=1, altitude=1, power=1, num_tags=1, verbose=False, useadjust=False, delta=0))
        b.ensure('no run with an unknown encoding', isinstance(out.exc, ValueError) and not made)


# ------------------------------------------------------------- any values, any number of them
def ok(b, out):
    b.ensure('no exception', out.exc is None, False); return out.value


class Rec:
    pyvc_model = True
    def __init__(self, **k): self.__dict__.update(k)


def pools(b, mod, seen):
    class P(Inline):
        pyvc_model = True
        def map(self, f, xs, *a, **k):
            from pyvc.seq import Seq
            if not isinstance(xs, Seq) or xs.guard is not True: raise Unsupported('other arguments')
            seen.append(xs); return Seq(xs.base, ok(b, b.call(f, xs.elem)))
        map.pyvc_model = True
    b.stub(multiprocessing, 'Pool', P)
    if hasattr(mod, 'Pool'): b.stub(mod, 'Pool', P)


def given(b, names, kind):
    from pyvc.seq import Values
    counts = [b.choice(f'{n} has several', [False, True]) for n in names]
    return {n: Values(b, n, None if m else 1, 'int' if n in kind else 'real') for n, m in zip(names, counts)}


def decide(b, mod, names, kind, extra, single, many, fields):
    vals = given(b, names, kind); k = dict(vals, **extra)
    out = b.call(mod.check_vars_for_multiprocessing, **k)
    some = [n for n in names if isinstance(vals[n].n, Sym) and b.p.decide((vals[n].n > 1).z)]
    if len(some) > 1: b.ensure('several options with several values are refused with ValueError', isinstance(out.exc, ValueError), False); return
    kw, variadic = ok(b, out); seen = []; pools(b, mod, seen)
    if not some:
        b.ensure('a single run', variadic is None, False)
        fields(ok(b, b.call(single, kw)), {n: vals[n].first for n in names}); return
    v = some[0]; b.ensure('several runs', variadic == v, False)
    res = ok(b, b.call(many, variadic, **kw))
    from pyvc.seq import Seq
    if not isinstance(res, Seq) or not seen: raise Unsupported('other results')
    b.ensure('one run per distinct value, ascending, results in that order', res.base is vals[v].distinct and res.guard is True, False)
    fields(res.elem, {n: vals[n].value if n == v else vals[n].first for n in names})


@case('C26', 'ping-pong: any values, any number of them', mode='sym', shards=4)
def any_ping(b):
    names = ['interval', 'channel_delay', 'service_delay', 'loss_prob', 'max_pings']
    b.stub(pc, 'Config', Rec)
    def go(config, *a, **k): return config
    go.pyvc_model = True; b.stub(pc, 'run_model', go)
    def fields(r, want):
        b.need(r, *names)
        for n in names: b.ensure('runs with exactly the values given', b.eq(getattr(r, n), want[n]), False)
    decide(b, pc, names, {'max_pings'}, {}, pc.create_config, pc.run_multiple_simulation, fields)


@case('C26', 'RFID: any values, any number of them', mode='sym', shards=8)
def any_rfid(b):
    names = ['speed', 'tid_word_size', 'altitude', 'reader_offset', 'tag_offset', 'power']
    i = b.choice('other options', [0, 1]); extra = dict(encoding='18'[i], tari=['6.25', '25'][i], num_tags=b.int('num_tags', 0), verbose=False, useadjust=bool(i), delta=b.real('delta', 0, 1))
    last = []
    def create(settings=None, verbose=False, **k):
        m = Rec(); m.statistics = RecStats(); m.statistics.k = k; last.append(k); return m
    def go(*a, **k): return None
    for f in (create, go): f.pyvc_model = True
    b.stub(cf, 'create_model', create); b.stub(cf, 'run_model', go)
    def fields(r, want):
        if not last: raise Unsupported('no model made')
        k = last[-1]
        for n in names:
            if n not in k: raise Unsupported('other arguments')
            b.ensure('runs with exactly the values given', b.eq(k[n], want[n] * b.num(cf.KMPH_TO_MPS_MUL) if n == 'speed' else want[n]), False)
        b.ensure('every other option as given', b.And(k['encoding'] is ENC[extra['encoding']], b.eq(k['tari'], b.num(float(extra['tari']) * 1e-6)), b.eq(k['num_tags'], extra['num_tags']), k['useadjust'] is extra['useadjust'], b.eq(k['delta'], extra['delta'])), False)
        b.ensure('results are those of this run', len(last) == 1 and r[0]['rounds_per_tag'] is k, False)
    decide(b, rc, names, {'speed', 'tid_word_size', 'power'}, extra, rc.prepare_simulation, rc.prepare_multiple_simulation, fields)


@case('C26', 'staged model: any pairs, any number of them', mode='sym')
def any_staged(b):
    from pyvc.seq import Rows, Seq
    P, T = Rows(b, 'probability', 4), Rows(b, 'processing_time', 4)
    scenario, chunks, limit = b.int('scenario'), b.int('chunks'), b.int('transmissions'); seen = []
    k = dict(probability=P, processing_time=T, scenario=scenario, chunks_number=chunks, max_transmisions=limit)
    b.stub(tc, 'Config', Rec); pools(b, tc, seen); runs = []
    def go(config, *a, **k): runs.append(config); return config
    go.pyvc_model = True; b.stub(tc, 'run_model', go)
    b.need(tc.cli_run, 'callback'); out = b.call(tc.cli_run.callback, **k)
    bad = b.Or(scenario < 1, scenario > 3, b.And(b.eq(scenario, 3), chunks < 1), b.Not(b.eq(P.base.n, T.base.n)))
    if b.p.decide(bad.z): b.ensure('refused before any run', isinstance(out.exc, (AttributeError, ValueError)) and not runs, False); return
    res = ok(b, out)
    fields = ('probability', 'processing_time', 'max_transmisions', 'chunks_number', 'scenario')
    if seen:
        if not isinstance(res, Seq): raise Unsupported('other results')
        b.ensure('one run per pair, results in the order given', res.base in (P.base, T.base) and res.guard is True, False); j, r = Sym(res.base.j), res.elem
    else: b.ensure('a single run for a single pair', b.And(b.eq(P.base.n, 1), len(runs) == 1), False); j, r = 0, res
    b.need(r, *fields)
    for n, v in zip(fields, (list(P.at(j)), list(T.at(j)), limit, chunks, scenario)): b.ensure('runs with exactly the values given', b.eq(list(getattr(r, n)) if isinstance(v, list) else getattr(r, n), v), False)


class RecStats:
    pyvc_model = True
    def average_rounds_per_tag(self): return self.k
    def inventory_probability(self): return 0
    read_tid_probability = average_changing_q = inventory_probability
    for f in (average_rounds_per_tag, inventory_probability): f.pyvc_model = True
