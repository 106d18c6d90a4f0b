"""C05 Model log records are tagged truthfully and go where the configuration says."""
import logging, os, random, shutil, string, tempfile
from pyvc.runner import case
from pyvc.ostr import OStr, Opq, Num
import pysim.sim.logger as lg

ASSUME = ['a log level of None or 0 in the configuration means "not set"', 'logging.Logger, StreamHandler and Formatter behave as documented (native); FileHandler is a recording stand-in in the proof']
LEVELS = [10, 20, 30, 40, 50, 15]
def IDS(r): return r.choice([0, r.randint(0, 9), r.randint(0, 200), r.randint(0, 10 ** 6), r.randint(0, 10 ** 20)])


def text(b, name, dots=False, notlog=False, empty=False):
    """an arbitrary string: opaque in the proof, sampled natively"""
    if b.symbolic: return OStr([Opq(name, dots, notlog, empty)])
    def gen():
        r = b.rng
        while True:
            s = ''.join(r.choice('abLoOgG09_- ' + ('./.' if dots else '')) for _ in range(r.randint(0 if empty else 1, 6)))
            if s != s.strip() or (notlog and s.lower() == 'log'): continue
            return s
    return b._val(name, gen)


def numeral(b, n): return OStr([Num(n)]) if b.symbolic else str(n)


EXTS = ['log', 'LOG', 'Log', 'lOg', 'loG', 'LOg', 'LoG', 'lOG']


def name_and_expected(b, sep, num):
    """every file name: dot-free, or anything + '.' + dot-free extension, with surrounding blanks"""
    shape = b.choice('shape', ['no dot', 'dot', 'only extension'])
    pre, post = b.choice('blanks', [('', ''), (' ', '\t '), ('\n', '')])
    if shape == 'no dot':
        s = text(b, 'name', notlog=False); return pre + s + post, s + sep + num
    base = text(b, 'name', dots=True) if shape == 'dot' else ''
    e = b.choice('extension', EXTS + ['other', ''])
    if e in EXTS: return pre + base + '.' + e + post, base + sep + num + '.' + e
    ext = '' if e == '' else text(b, 'ext', notlog=True)
    full = base + '.' + ext
    return pre + full + post, full + sep + num


@case('C05', 'log file name with run id', samples=400)
def file_name(b):
    if b.symbolic: b.interp.exact_str = True
    n = b.int('run id', 0, 10**6, gen=IDS)
    sep = b.choice('separator', ['default', '_', '', '-', 'any'])
    sp = text(b, 'sep', dots=True, empty=True) if sep == 'any' else ('_' if sep == 'default' else sep)
    name, want = name_and_expected(b, sp, numeral(b, n))
    out = b.call(lg.ModelLogger.build_file_name, name, n) if sep == 'default' else b.call(lg.ModelLogger.build_file_name, name, n, sp)
    b.ensure('name', b.eq(b.ensure_ok(out), want))


class Rec:
    """stand-in for the standard logger"""
    pyvc_model = True
    def __init__(self): self.calls = []
    def _put(self, kind):
        def f(*a, **k): self.calls.append((kind, a, k))
        f.pyvc_model = True
        return f
    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        return self._put(n)


METHODS = ['debug', 'info', 'warning', 'error', 'critical', 'log', 'exception']


@case('C05', 'every record carries the model time of the call and the run id in force', samples=200)
def tags(b):
    rec = Rec()
    def get(*a): return rec
    b.stub(logging, 'getLogger', get)
    clock = [b.real('t0', 0, 1000)]
    def now(): return clock[0]
    now.pyvc_model = True
    how = b.choice('getter', ['constructor', 'set_time_getter', 'none'])
    idhow = b.choice('run id given by', ['constructor', 'set_run_id', 'none'])
    rid = b.int('run id', 0, 10**6, gen=IDS) if idhow != 'none' else None
    m = b.ensure_ok(b.call(lg.ModelLogger, 'model', now if how == 'constructor' else None, rid if idhow == 'constructor' else None))
    if how == 'set_time_getter': b.ensure_ok(b.call(m.set_time_getter, now))
    if idhow == 'set_run_id': b.ensure_ok(b.call(m.set_run_id, rid))
    ids = []
    for i in range(3):
        if i: clock[0] = b.real('t', 0, 1000)
        meth = b.choice('method', METHODS) if i == 0 else METHODS[(i * 3) % 7]
        args = (10, 'msg %d', i) if meth == 'log' else ('msg %d', i)
        opts = b.choice('options', [{}, dict(exc_info=True), dict(stack_info=True)]) if i == 0 else {}
        rec.calls.clear()
        b.ensure_ok(b.call(getattr(m, meth), *args, **opts))
        b.ensure('one record', len(rec.calls) == 1)
        kind, a, k = rec.calls[0]
        full = lambda kind, a: tuple(a) if kind == 'log' else (getattr(logging, 'ERROR' if kind == 'exception' else kind.upper()), *a)
        b.ensure('same level and message', full(kind, a) == full(meth, args))
        b.ensure('with the options given', k.get('stack_info', False) == opts.get('stack_info', False) and bool(k.get('exc_info', kind == 'exception')) == opts.get('exc_info', meth == 'exception'))
        ex = k.get('extra') or {}
        b.ensure('model time', b.eq(ex.get('simTime'), 0 if how == 'none' else clock[0]))
        if rid is not None: b.ensure('run id', b.eq(ex.get('runId'), rid))
        ids.append(ex.get('runId'))
        if i == 1:
            new = b.int('new id', 0, 10**6, gen=IDS); b.ensure_ok(b.call(m.set_run_id, new)); rid = new
    if idhow == 'none': b.ensure('run id stays', ids[0] is not None and b.eq(ids[0], ids[1]))


class FakeFile(logging.Handler):
    made = None
    def __init__(self, name, mode='a', *a, **k):
        logging.Handler.__init__(self); self.name_given = name; self.mode_given = mode
        FakeFile.made.append(self)
    def emit(self, r): self.__dict__.setdefault('got', []).append(r)


def config(b):
    kw = dict(level=b.choice('level', LEVELS), use_console=b.choice('console', [True, False]), colored_console=b.choice('colour', [True, False]),
              file_name=b.choice('file', [None, 'run.log', 'data.txt']), file_name_no_run_id=b.choice('plain name', [True, False]))
    cl = b.choice('console level', [None, 10, 40]); fl = b.choice('file level', [None, 10, 50]); sp = b.choice('sep', [None, '', '+'])
    if cl is not None: kw['console_level'] = cl
    if fl is not None: kw['file_level'] = fl
    if sp is not None: kw['file_name_sep'] = sp
    return kw, cl, fl, '_' if sp is None else sp


@case('C05', 'console and file handlers, their levels and file names', samples=300, shards=4)
def handlers(b):
    if b.symbolic: b.interp.exact_str = True
    log = logging.Logger('model')
    FakeFile.made = []
    def get(*a): return log
    b.stub(logging, 'getLogger', get)
    b.stub(logging, 'FileHandler', FakeFile)
    n = b.int('run id', 0, 10**6, gen=IDS)
    if b.choice('logger used before', [False, True]): log.addHandler(logging.StreamHandler()); log.addHandler(FakeFile('old.log')); FakeFile.made = []; log.setLevel(50)
    m = b.ensure_ok(b.call(lg.ModelLogger, 'model', None, n))
    kw, cl, fl, sp = config(b)
    b.ensure_ok(b.call(m.setup, lg.ModelLoggerConfig(**kw)))
    files = [h for h in log.handlers if isinstance(h, FakeFile)]
    cons = [h for h in log.handlers if isinstance(h, logging.StreamHandler) and not isinstance(h, FakeFile)]
    b.ensure('console handler exactly when configured', len(cons) == (1 if kw['use_console'] else 0))
    b.ensure('file handler exactly when configured', len(files) == (1 if kw['file_name'] else 0) and len(FakeFile.made) == len(files))
    b.ensure('no other handler', len(log.handlers) == len(files) + len(cons) and log.propagate is False)
    for h in cons: b.ensure('console level', h.level == (cl or kw['level']))
    for h in files:
        b.ensure('file level', h.level == (fl or kw['level']))
        f = kw['file_name']
        if not kw['file_name_no_run_id']:
            f = ('run' + sp + numeral(b, n) + '.log') if f == 'run.log' else f + sp + numeral(b, n)
        b.ensure('file name', b.eq(h.name_given, f))
        b.ensure('each run starts its own file', h.mode_given == 'w')
    for h in log.handlers:
        b.ensure('nothing the handler wants is cut off by the logger', log.getEffectiveLevel() <= h.level)


@case('C05', 'setting up again has no effect unless forced', samples=100)
def again(b):
    log = logging.Logger('model'); FakeFile.made = []
    def get(*a): return log
    b.stub(logging, 'getLogger', get)
    b.stub(logging, 'FileHandler', FakeFile)
    if b.choice('logger used before', [False, True]): log.addHandler(FakeFile('old.log')); FakeFile.made = []
    m = b.ensure_ok(b.call(lg.ModelLogger, 'model', None, 7))
    first = b.choice('first', [None, dict(use_console=True, level=20), dict(file_name='a.log', level=30)])
    second = b.choice('second', [None, dict(use_console=True, level=40), dict(file_name='b.log', level=10)])
    cfg = lambda d: None if d is None else lg.ModelLoggerConfig(**d)
    shape = lambda: [(type(h).__name__, getattr(h, 'name_given', None), h.level) for h in log.handlers]
    want = lambda d: [] if not d else [('StreamHandler', None, d['level'])] if 'use_console' in d else [('FakeFile', d['file_name'], d['level'])]
    b.ensure_ok(b.call(m.setup, cfg(first)))
    b.ensure('first', shape() == want(first))
    how = b.choice('how', ['plain', 'False', 'True'])
    before = list(log.handlers); lev = log.level
    b.ensure_ok(b.call(m.setup, cfg(second)) if how == 'plain' else b.call(m.setup, cfg(second), how == 'True'))
    if how == 'True': b.ensure('forced: replaced', shape() == want(second))
    else: b.ensure('unforced: untouched', len(before) == len(log.handlers) and all(x is y for x, y in zip(before, log.handlers)) and log.level == lev)
    b.ensure_ok(b.call(m.setup, cfg(first)))
    b.ensure('third call changes nothing', shape() == want(second if how == 'True' else first))


def a_model_function(m, meth, args, opts):
    try: raise KeyError('reason')
    except KeyError: getattr(m, meth)(*args, **opts)


class Keep(logging.Handler):
    def __init__(self, out): logging.Handler.__init__(self); self.out = out
    def emit(self, r): self.out.append(r)


@case('C05', 'records name the function they come from, with the options given', mode='native', samples=60, bound='60 sampled records of every level')
def origin(b):
    m = b.ensure_ok(b.call(lg.ModelLogger, 'pyvc-c05-origin', lambda: 1.5, 7)); got = []
    b.ensure_ok(b.call(m.setup, lg.ModelLoggerConfig(level=1)))
    m._logger.handlers = [Keep(got)]
    try:
        for i in range(b.choice('records', [1, 3])):
            meth = b.choice('method', METHODS); opts = b.choice('options', [{}, dict(exc_info=True), dict(stack_info=True)]); lev = b.choice('level', LEVELS)
            a_model_function(m, meth, (lev, 'msg %d', i) if meth == 'log' else ('msg %d', i), dict(opts)); r = got[-1]
            b.ensure('one record', len(got) == i + 1 and r.getMessage() == f'msg {i}' and r.levelno == (lev if meth == 'log' else getattr(logging, 'ERROR' if meth == 'exception' else meth.upper())))
            b.ensure('name of the model', r.name == 'pyvc-c05-origin')
            b.ensure('function and file it comes from', r.funcName == 'a_model_function' and r.filename == os.path.basename(__file__))
            b.ensure('with the options given', bool(r.exc_info) == (meth == 'exception' or 'exc_info' in opts) and bool(r.stack_info) == ('stack_info' in opts))
            if r.exc_info: b.ensure('the exception at hand', r.exc_info[0] is KeyError)
    finally: m._logger.handlers = []


@case('C05', 'real files: records at or above the level, tagged', mode='native', samples=40, bound='40 sampled configurations and record sequences, written to a scratch directory')
def real_files(b):
    d = tempfile.mkdtemp(prefix='pyvc-log')
    try:
        kw, cl, fl, sp = config(b)
        kw['use_console'] = False
        kw['file_name'] = os.path.join(d, b.choice('real name', ['m.log', 'm.LOG', 'x.y', 'plain', 'a.b.Log']))
        kw['fmt'] = '{simTime}|{runId}|{levelno}|{message}'
        n = b.int('run id', 0, 10**6, gen=IDS); t = [0.0]
        m = b.ensure_ok(b.call(lg.ModelLogger, 'pyvc-c05', lambda: t[0], n))
        b.ensure_ok(b.call(m.setup, lg.ModelLoggerConfig(**kw)))
        want = []
        thr = fl or kw['level']
        for i in range(b.int('records', 0, 12)):
            t[0] = b.real('time', 0, 100); lev = b.choice('rec level', LEVELS); 
            if b.choice('renumber', [False, False, True]): n = b.int('other id', 0, 99); m.set_run_id(n)
            m.log(lev, 'event %d', i)
            if lev >= thr: want.append(f'{t[0]}|{n}|{lev}|event {i}')
        for h in list(m._logger.handlers): h.close(); m._logger.removeHandler(h)
        got = sorted(os.listdir(d))
        b.ensure('one log file', len(got) == 1)
        b.ensure('records', open(os.path.join(d, got[0])).read().splitlines() == want)
    finally: shutil.rmtree(d)


@case('C05', 'real console: records at or above the level, tagged, plain or coloured', mode='native', samples=60, bound='60 sampled configurations and record sequences, the console stream redirected')
def real_console(b):
    import io, re, sys
    kw, cl, fl, sp = config(b)
    kw.update(use_console=True, file_name=None, fmt='{simTime}|{runId}|{levelno}|{message}')
    if b.choice('own colours', [False, True]): kw['console_colors'] = {logging.INFO: '\x1b[35m', 15: '\x1b[36m'}
    n = b.int('run id', 0, 10**6, gen=IDS); t = [0.0]
    out = io.StringIO(); old = sys.stderr; sys.stderr = out
    try:
        m = b.ensure_ok(b.call(lg.ModelLogger, 'pyvc-c05-console', lambda: t[0], n))
        b.ensure_ok(b.call(m.setup, lg.ModelLoggerConfig(**kw)))
        want = []
        for i in range(b.int('records', 0, 12)):
            t[0] = b.real('time', 0, 100); lev = b.choice('rec level', LEVELS)
            m.log(lev, 'event %d', i)
            if lev >= (cl or kw['level']): want.append(f'{t[0]}|{n}|{lev}|event {i}')
        for h in list(m._logger.handlers): m._logger.removeHandler(h)
    finally: sys.stderr = old
    lines = out.getvalue().splitlines()
    b.ensure('records', re.sub(r'\x1b\[[0-9;]*m', '', out.getvalue()).splitlines() == want)
    own = kw.get('console_colors') or {}
    for l, w in zip(lines, want):
        lev = int(w.split('|')[2]); coloured = l != w
        if not kw['colored_console']: b.ensure('plain console: no colours', not coloured)
        elif lev in (10, 20, 30, 40, 50):
            b.ensure('coloured console: coloured, colour reset at the end', coloured and l.endswith(w + '\x1b[0m'))
            if lev in own: b.ensure('in the configured colour', l == own[lev] + w + '\x1b[0m')
    if kw['colored_console']:
        col = {}
        for l, w in zip(lines, want): col.setdefault(int(w.split('|')[2]), set()).add(l[:l.index(w)])
        b.ensure('one colour per level', all(len(x) == 1 for x in col.values()))
