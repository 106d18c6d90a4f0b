"""C29 Shown, saved and plotted results stand beside the values they were obtained with."""
import builtins, contextlib, io, json, os, re, tempfile, time
os.environ.setdefault('MPLBACKEND', 'Agg')
from pyvc.runner import case
from pyvc.sym import Sym, Unsupported
import pysim.models.rfid.processing as rp
import pysim.models.pingpong.processing as pp
import pysim.models.tag_time.processing as tp

ASSUME = ['tabulate, json, matplotlib and the file system as documented (native runs use them)', 'what a run returns is C14-C25, and in which order batches return is C26',
          'the wording, layout and names of what is printed and of files are not specified']


# ------------------------------------------------------------- what a user sees
class Seen:
    def __init__(self): self.tables = []; self.files = {}; self.plots = []; self.text = ''; self.made = []; self.exc = None


class Any:
    """a figure or axes: remembers what is drawn"""
    pyvc_model = True
    def __init__(self, o): self.o = o
    def plot(self, x, y, *a, **k): self.o.plots.append((x, y))
    def savefig(self, name, *a, **k): self.o.files.setdefault(name, 'picture')
    def legend(self, *a, **k): return None
    set_ylabel = set_xlabel = tick_params = grid = set_title = set = tight_layout = legend
    for f in (plot, savefig, legend): f.pyvc_model = True


class File:
    pyvc_model = True
    def __init__(self, o, name): self.o, self.name = o, name; o.files[name] = ''
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def write(self, s): self.o.files[self.name] += s
    def close(self): pass
    for f in (write, close, __enter__, __exit__): f.pyvc_model = True


def fn(f): f.pyvc_model = True; return f


def show(b, mod, *args, **kw):
    """calls result_processing; what it shows, saves and draws"""
    o = Seen()
    if b.symbolic:
        if hasattr(mod, 'tabulate'): b.stub(mod, 'tabulate', fn(lambda rows, headers=(), **k: o.tables.append([list(headers)] * bool(headers) + [list(r) for r in rows]) or f'@{len(o.tables)}@'))
        said = []; o.said = said
        b.stub(builtins, 'print', fn(lambda *a, **k: said.extend(a)))
        b.stub(builtins, 'open', fn(lambda name, *a, **k: File(o, name)))
        b.stub(json, 'dumps', fn(lambda x, *a, **k: o.made.append(x) or f'@{len(o.made) - 1}@'))
        b.stub(json, 'dump', fn(lambda x, f, *a, **k: o.made.append(x) or f.write(f'@{len(o.made) - 1}@')))
        b.stub(time, 'strftime', fn(lambda *a: 'now')); b.stub(time, 'localtime', fn(lambda *a: 0))
        b.stub(os, 'makedirs', fn(lambda *a, **k: None))
        if hasattr(mod, 'plt'): b.stub(mod.plt, 'subplots', fn(lambda *a, **k: (Any(o), Any(o))))
        out = b.call(mod.result_processing, *args, **kw); o.exc = out.exc
        text = ' '.join(x for x in said if isinstance(x, str)); o.text = text
        if not all(f'@{i + 1}@' in text for i in range(len(o.tables))): b.ensure('every table is printed', False)
        o.saved = [[o.made[int(m)] for m in re.findall('@(\\d+)@', t)] for n, t in o.files.items() if t != 'picture']
        return o
    import matplotlib.figure as mf, matplotlib.pyplot as plt
    buf = io.StringIO(); cwd = os.getcwd(); old = mf.Figure.savefig; o.saved = []
    def savefig(self, name, *a, **k):
        for ax in self.axes:
            for l in ax.lines: o.plots.append((list(l.get_xdata()), list(l.get_ydata())))
        self.set_size_inches(1, 1); self.set_layout_engine('none'); k['dpi'] = 20
        return old(self, name, *a, **k)
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chdir(d); mf.Figure.savefig = savefig
            def go(*a, **k):
                with contextlib.redirect_stdout(buf): return mod.result_processing(*a, **k)
            out = b.call(go, *args, **kw)
            o.exc = out.exc
            for p, _, names in os.walk(d):
                for n in names:
                    if n.endswith('.png'): o.files[n] = 'picture'; continue
                    with open(os.path.join(p, n)) as f: t = o.files[n] = f.read()
                    o.saved.append([json.loads(l[min(i for i in (l.find('{'), l.find('[')) if i >= 0):]) for l in t.splitlines() if '{' in l or '[' in l])
        finally: os.chdir(cwd); mf.Figure.savefig = old; plt.close('all')
    o.text = buf.getvalue()
    table = None
    for l in o.text.splitlines() + ['']:
        if l.startswith('|'):
            if table is None: table = []; o.tables.append(table)
            table.append([c.strip() for c in l.strip().strip('|').split('|')])
        elif not l.startswith('+'): table = None
    return o


def same(b, cell, v):
    if b.symbolic: return b.eq(cell, v) if not isinstance(v, str) else cell == v
    if isinstance(v, (list, tuple)): return nums(cell) == [float(f'{x:.9g}') for x in v]
    try: return abs(float(cell) - float(v)) <= 1e-9 * max(1, abs(float(v)))
    except ValueError: return cell == str(v)


def nums(s): return [float(f'{float(x):.9g}') for x in re.findall(r'-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?', s)]


def line(b, o, word, v):
    """the printed line with that word tells the value (native runs)"""
    if b.symbolic: return True
    ls = [l for l in o.text.splitlines() if word in l]
    return any(abs(x - v) <= 1e-7 * max(1e-3, abs(v)) for l in ls for x in nums(l.split(word, 1)[1]))


def values(b, n, xs):
    out = [b.choice(f'value {i}', xs) for i in range(n)]
    return tuple(out)


def saved(b, o, given, fields):
    b.ensure('one file with the parameters and the results', len(o.saved) == 1 and len(o.saved[0]) == 2)
    if len(o.saved) != 1 or len(o.saved[0]) != 2: return
    first, second = o.saved[0]; plain = lambda v: list(v) if isinstance(v, (list, tuple)) else v
    b.ensure('the file tells the parameters', all(plain(first.get(k)) == plain(v) if not isinstance(v, Sym) else first.get(k) is v for k, v in given.items()))
    for n, vs in fields.items(): b.ensure('the file lists the results in order', b.eq(list(second.get(n) or []), list(vs)))


# ------------------------------------------------------------- RFID
RNAMES = ['speed', 'tid_word_size', 'altitude', 'reader_offset', 'tag_offset', 'power']
ROTHER = dict(encoding='2', tari='12.5', num_tags=40)
RES = ['read_tid_prob', 'inventory_prob', 'rounds_per_tag']


def rfid_result(b, i): return ({n: b.real(f'{n} {i}', 0, 9) for n in ('rounds_per_tag', 'inventory_prob', 'read_tid_prob')}, b.real(f'duration {i}', 0.01, 50))


def rfid_params(b): 
    i = b.choice('parameters', [0, 1])
    return dict(speed=[25, 90][i], tid_word_size=[64, 8][i], altitude=[5.0, 3.25][i], reader_offset=[3.0, 1.0][i], tag_offset=[2.0, 4.5][i], power=[29, 31][i], encoding='28'[i], tari=['12.5', '6.25'][i], num_tags=[40, 7][i],
                verbose=False, useadjust=False, delta=0.5)


@case('C29', 'RFID: several values', samples=60, shards=4)
def rfid_many(b):
    par = rfid_params(b); v = b.choice('varied', RNAMES)
    given = values(b, b.choice('count', [2] if b.symbolic else [2, 3, 7]), [30, 10, 20] if b.symbolic else [30, 10, 20, 9, 100, 11]) if not b.symbolic or b.choice('listed', [True, False]) else (20, 5, 20, 10)
    b.assume(len(given) > 1); par[v] = given; xs = sorted(set(given)); res = [rfid_result(b, i) for i in range(len(xs))]
    save = b.choice('save', [False, True])
    o = show(b, rp, dict(par), list(res), v, save)
    b.ensure('no exception', o.exc is None)
    if o.exc: return
    tables = [t for t in o.tables if any(v == c for c in t[0]) and all(n in t[0] for n in RES)]
    b.ensure('a table of results', len(tables) == 1)
    if len(tables) != 1: return
    head, rows = tables[0][0], tables[0][1:]
    b.ensure('one row per value', len(rows) == len(xs) and all(len(r) == len(head) for r in rows))
    for x, (r, d), row in zip(xs, res, rows):
        b.ensure('rows in ascending order of the value', same(b, row[head.index(v)], x))
        for n in RES: b.ensure('each row shows the results of its value', same(b, row[head.index(n)], r[n]))
    flat = [r for t in o.tables if t is not tables[0] for r in t]
    for n in [*RNAMES, *ROTHER]:
        if n == v: continue
        got = [r for r in flat if r[0] == n]
        b.ensure('the other parameters are shown as given', len(got) == 1 and same(b, got[0][-1], par[n]))
    b.ensure('mean duration', line(b, o, '=', sum(d for _, d in res) / len(res)) if not b.symbolic else True)
    b.ensure('one curve', len(o.plots) == 1)
    for px, py in o.plots[:1]: b.ensure('the curve shows the probability of reading over the values', b.And(b.eq(list(px), xs), b.eq(list(py), [r['read_tid_prob'] for r, _ in res])))
    b.ensure('the picture is saved', 'picture' in o.files.values())
    if save: saved(b, o, dict(par, **{v: xs}), {n: [r[n] for r, _ in res] for n in RES})
    else: b.ensure('nothing is saved unasked', not o.saved)


@case('C29', 'RFID: a single run', samples=60)
def rfid_one(b):
    par = rfid_params(b); res = rfid_result(b, 0); save = b.choice('save', [False, True])
    o = show(b, rp, dict(par), res, None, save)
    b.ensure('no exception', o.exc is None)
    if o.exc: return
    rows = [r for t in o.tables for r in t]
    b.ensure('every result once', len(rows) == 3)
    for n in RES: b.ensure('each result beside its name', any(r[0] == n and same(b, r[-1], res[0][n]) is not False for r in rows) and b.And(*[same(b, r[-1], res[0][n]) for r in rows if r[0] == n]))
    b.ensure('duration', line(b, o, ':', res[1]) if not b.symbolic else True)


# ------------------------------------------------------------- ping-pong
PNAMES = ['interval', 'channel_delay', 'service_delay', 'loss_prob', 'max_pings']
PRES = ['avg_interval', 'avg_delay', 'miss_rate']


class Result:
    """a result record under its contract"""
    pyvc_model = True
    def __init__(self, **k): self.__dict__.update(k)
    def dict(self): return {n: getattr(self, n) for n in PRES}
    model_dump = dict
    dict.pyvc_model = True


def ping_result(b, i):
    k = {n: b.real(f'{n} {i}', 0, 50) for n in PRES}
    if b.symbolic: return Result(**k)
    from pysim.models.pingpong.objects import Result as R
    return R(**k)


@case('C29', 'ping-pong: several values', samples=150, shards=2)
def ping_many(b):
    par = dict(interval=10.0, channel_delay=2.0, service_delay=1.0, loss_prob=0.1, max_pings=b.choice('pings', [1000, 50])); v = b.choice('varied', PNAMES)
    given = values(b, b.choice('count', [2] if b.symbolic else [2, 3, 7]), [30, 10, 20] if b.symbolic else [30, 10, 20, 9, 100, 11]) if not b.symbolic or b.choice('listed', [True, False]) else (20, 5, 20, 10)
    par[v] = given; xs = sorted(set(given)); res = [ping_result(b, i) for i in range(len(xs))]
    save = b.choice('save', [False, True])
    o = show(b, pp, dict(par), list(res), v, save)
    b.ensure('no exception', o.exc is None)
    if o.exc: return
    rows = [r for t in o.tables for r in t]
    for n in PNAMES:
        got = [r for r in rows if r[0] == n]
        b.ensure('the varied values are shown in the order of their results' if n == v else 'the other parameters are shown as given', len(got) == 1 and same(b, got[0][-1], xs if n == v else par[n]))
    for n in PRES:
        got = [r for r in rows if r[0] == n]
        b.ensure('results beside their names, in the order of the values', len(got) == 1 and same(b, got[0][-1], [getattr(r, n) for r in res]))
    if save: saved(b, o, dict(par, **{v: xs}), {n: [getattr(r, n) for r in res] for n in PRES})
    else: b.ensure('nothing is saved unasked', not o.saved)


@case('C29', 'ping-pong: a single run', samples=150)
def ping_one(b):
    par = dict(interval=10.0, channel_delay=2.0, service_delay=1.0, loss_prob=0.1, max_pings=b.choice('pings', [1000, 50]))
    r = ping_result(b, 0); save = b.choice('save', [False, True])
    o = show(b, pp, dict(par), r, None, save)
    b.ensure('no exception', o.exc is None)
    if o.exc: return
    for w, n in (('интервал', 'avg_interval'), ('длительность', 'avg_delay'), ('ероятность', 'miss_rate')): b.ensure('each result beside its name', line(b, o, w, getattr(r, n)))
    if save: saved(b, o, par, {}); b.ensure('the file tells the results', len(o.saved) == 1 and b.And(*[b.eq(o.saved[0][1][n], getattr(r, n)) for n in PRES]))


# ------------------------------------------------------------- the staged model
class Total:
    pyvc_model = True
    def __init__(self, t): self.sim_time = t


@case('C29', 'staged model: mean time per transmission', samples=100)
def staged(b):
    k = b.choice('pairs', [1, 2, 3] if b.symbolic else [1, 2, 3, 7]); limit = b.choice('transmissions', [1, 50, 8]); totals = [b.real(f'total {i}', 0, 1000) for i in range(k)]
    P = tuple((0.5, 0.25, 1.0, i / 8) for i in range(k)); T = tuple((1.0, 2.0, 0.5, i / 4) for i in range(k)); save, plot = b.choice('save', [True, False]), b.choice('plot', [False, True])
    par = dict(probability=P if k > 1 else P[0], processing_time=T if k > 1 else T[0], max_transmisions=limit, chunks_number=10, scenario=2)
    o = show(b, tp, dict(par), [Total(t) for t in totals] if k > 1 else Total(totals[0]), save, plot)
    b.ensure('no exception', o.exc is None)
    if o.exc: return
    mean = [t / limit for t in totals]; w = 'до поглощения'
    if b.symbolic:
        b.ensure('mean time per transmission', b.Or(*[b.eq(x, mean) for x in o.said if isinstance(x, list)]) if k > 1 else b.Or(*[b.eq(x, mean[0]) for x in o.said if not isinstance(x, str)]))
        if k == 1: b.ensure('total time', b.Or(*[b.eq(x, totals[0]) for x in o.said if not isinstance(x, str)]))
    else:
        b.ensure('mean time per transmission', any(w in l and all(abs(x - y) <= 1e-8 * max(1, abs(y)) for x, y in zip(nums(l), mean)) and len(nums(l)) == k for l in o.text.splitlines()))
        if k == 1: b.ensure('total time', line(b, o, 'уммарное время', totals[0]))
    if k > 1 and plot:
        b.ensure('one curve', len(o.plots) == 1)
        for px, py in o.plots[:1]: b.ensure('the curve shows the mean times in order', b.And(list(px) == list(range(k)), b.eq(list(py), mean)))
    if k > 1 and save:
        b.ensure('one file with the parameters and the results', len(o.saved) == 1 and len(o.saved[0]) == 2)
        if len(o.saved) == 1 and len(o.saved[0]) == 2:
            plain = lambda v: [plain(x) for x in v] if isinstance(v, (list, tuple)) else v
            b.ensure('the file tells the parameters', all(plain(o.saved[0][0].get(n)) == plain(x) for n, x in par.items()))
            b.ensure('the file lists the results in order', b.eq(list(o.saved[0][1]), mean))
    if not save: b.ensure('nothing is saved unasked', not o.saved)
