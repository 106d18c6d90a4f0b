"""C03 A schedule request lands at now + delay, or is refused without effect."""
import random
from fractions import Fraction
import numpy as np
import z3
from pyvc.runner import case
from pyvc.sym import Sym, Atom, z
from pyvc.engine import SpecMismatch
from specs import kern
from specs.kern import EventQueue, Kernel, Simulator
from pysim.sim.simulator import SchedulingInPastError

ASSUME = ['EventQueue.push keeps the event it is given (proved under C01/C02)']


def kernel(b):
    k = Kernel('proof'); b.need(k, '_sim_time', '_queue')
    k._sim_time = b.real('now', 0, 1000)
    pushed = []
    if b.symbolic:
        new = b.int('new id', 0)
        b.stub(EventQueue, 'push', lambda q, time, task: (pushed.append((time, task)), new)[1])
    return k, pushed


class Handler:
    def __init__(self): self.calls = []
    def __call__(self, sim, *a): self.calls.append((sim.time, a))


def entry(k, pushed):
    """(time, task) of everything pending"""
    if pushed: return pushed
    out = []
    while len(k._queue): t, i, task = k._queue.pop(); out.append((t, task))
    return out


def requests(b, k):
    sim = Simulator(k)
    through = b.choice('through', ['simulator', 'kernel', 'call'])
    return through, sim.schedule if through == 'simulator' else k.schedule if through == 'kernel' else sim.call


@case('C03', 'a legal request pends exactly one event at now + delay (schedule, call)', samples=150)
def lands(b):
    k, pushed = kernel(b)
    through, f = requests(b, k)
    d = b.real('delay', 0, 1000) if through != 'call' else 0
    h = Handler()
    args = b.choice('arguments', [(), ('a', 1), ['a'], 'xy', {'k': 1}])
    msg = b.choice('message', [None, 'note'])
    now = k._sim_time
    a = ([] if through == 'call' else [d]) + [h] + ([] if args == () else [args]) + ([msg] if msg and args != () else [])
    i = b.ensure_ok(b.call(f, *a))
    b.ensure('an identifier is returned', i is not None)
    es = entry(k, pushed)
    b.ensure('exactly one event pends', len(es) == 1)
    b.ensure('at exactly now + delay', b.eq(es[0][0], now + d))
    b.ensure('model time is untouched', b.eq(k._sim_time, now))
    # the task carries handler and arguments: run it the way the loop does
    task = es[0][1]
    b.ensure('the handler and arguments are those given', any(x is h for x in task) and any(x is args or (args == () and x == ()) for x in task))


DELAYS = [0, 0.0, -0.0, 3, float('inf'), 1e308, 5e-324, np.float64(0.25), Fraction(1, 3), True]
PAST = [-1, -5e-324, -0.1, float('-inf'), -1e308, np.float64(-0.25), Fraction(-1, 3)]


@case('C03', 'delays of every kind and size', mode='native', samples=400, bound='17 delays of different types and sizes, three clock values')
def kinds(b):
    k = Kernel('proof'); b.need(k, '_sim_time', '_queue')
    k._sim_time = now = b.choice('now', [0.0, 0.1, 1e9]); through, f = requests(b, k); h = Handler()
    if through == 'call': f = k.schedule
    d = b.choice('delay', DELAYS + PAST); out = b.call(f, d, h, ('a',))
    if d in PAST: b.ensure('refused with SchedulingInPastError', out.raised(SchedulingInPastError)); b.ensure('nothing is scheduled', len(k._queue) == 0); return
    i = b.ensure_ok(out)
    b.ensure('an identifier is returned', i is not None); b.ensure('exactly one event pends', len(k._queue) == 1)
    b.ensure('at exactly now + delay, for that handler', (lambda e: e[0] == now + d and e[1] == i and any(x is h for x in e[2]))(k._queue.pop()))


@case('C03', 'an illegal request is refused with its own exception and schedules nothing', samples=150)
def refused(b):
    k, pushed = kernel(b)
    through, f = requests(b, k)
    h = Handler()
    kind = b.choice('defect', ['past', 'no handler', 'not callable', 'arguments'])
    d = b.real('delay', 0, 1000)
    if through == 'call' and kind == 'past': return b.ensure('call has no delay', True)
    if kind == 'past':
        d = b.real('negative', -1000, 0); b.assume(d < 0)
    hh = {'no handler': None, 'not callable': b.choice('bad handler', ['handler', 5, (1, 2), {}])}.get(kind, h)
    args = b.choice('bad arguments', [7, 2.5, None, h]) if kind == 'arguments' else ('a',)
    out = b.call(f, *([] if through == 'call' else [d]), hh, args)
    want = {'past': SchedulingInPastError, 'no handler': ValueError, 'not callable': TypeError, 'arguments': TypeError}[kind]
    b.ensure(f'refused with {want.__name__} ({kind})', out.raised(want))
    b.ensure('nothing is scheduled', len(entry(k, pushed)) == 0)


@case('C03', 'a delay of None schedules nothing', samples=20)
def no_delay(b):
    k, pushed = kernel(b)
    sim = Simulator(k); h = Handler()
    f = b.choice('through', ['simulator', 'kernel'])
    out = b.ensure_ok(b.call(sim.schedule if f == 'simulator' else k.schedule, None, h, ('a',)))
    b.ensure('returns None', out is None)
    b.ensure('nothing is scheduled', len(entry(k, pushed)) == 0)


@case('C03', 'the event runs at now + delay with the given handler and arguments, also when scheduled by a handler', samples=100)
def end_to_end(b):
    from pysim.sim.simulator import build_simulation
    d1, d2 = b.real('d1', 0, 10), b.real('d2', 0, 10)
    nested = b.choice('nested form', ['schedule', 'call'])
    args = b.choice('arguments', [(), ('a', 1), ['a']])
    seen = []
    now = lambda sim: b.interp.getattr(sim, 'time') if b.symbolic else sim.time
    do = (lambda f, *a: b.interp.call(f, list(a))) if b.symbolic else (lambda f, *a: f(*a))

    def second(sim, *a): seen.append(('second', now(sim), a))

    def first(sim, *a):
        seen.append(('first', now(sim), a))
        if nested == 'schedule': do(sim.schedule, d2, second, args)
        else: do(sim.call, second, args)

    def init(sim): do(sim.schedule, d1, first, ('x',))
    for f in (first, second, init): f.pyvc_model = True
    if b.symbolic:
        from pyvc.models import Log
        import pysim.sim.logger as lg
        b.stub(Kernel, 'logger', lambda k: Log())
        for m in ('setup', 'debug', 'info', 'set_time_getter'): b.stub(lg.ModelLogger, m, lambda *a, **k: None)
    gen = b.ensure_ok(b.call(build_simulation, 'c03', init))
    b.ensure_ok(b.call(next, gen))
    b.ensure('both ran, in order', [x[0] for x in seen] == ['first', 'second'])
    if len(seen) == 2:
        b.ensure('first at its delay', b.eq(seen[0][1], d1) if True else None)
        b.ensure('first with its arguments', seen[0][2] == ('x',))
        b.ensure('second at now + delay', b.eq(seen[1][1], d1 + (d2 if nested == 'schedule' else 0)))
        b.ensure('second with its arguments', seen[1][2] == tuple(args))


@case('C03', 'random handler programs with legal and illegal requests against a reference scheduler', mode='native', samples=400, bound='random handler programs of up to 40 events')
def programs(b):
    kern.Program(b, b.int('program seed', 0, 2 ** 31), 'C03').run()
