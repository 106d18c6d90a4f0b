"""C01 Events run in time order, first-scheduled first, on a truthful clock."""
import random
import z3
from pyvc.runner import case
from pyvc.sym import Sym, z
from pyvc.pqueue import TaskAtom
from specs import kern
from specs.kern import EventQueue

ASSUME = ['heapq.heappush/heappop and dict/itertools.count obey their documented contracts (trusted)',
          'handlers act on the simulation only through the Simulator API (schedule, call, cancel, stop)',
          'run loop and pop loop are verified with loop contracts over a queue of any size']


@case('C01', 'EventQueue.pop yields the least live (time, scheduling order) and leaves the rest (any size, loop contract)', mode='sym')
def pop_contract(b):
    q, s = kern.sym_queue(b)
    s0 = s.snapshot(); j = z3.Int('j')
    out = b.call(q.pop)
    if out.exc is not None:
        b.ensure('pop refuses only an empty queue, with KeyError', out.raised(KeyError))
        b.ensure('nothing was pending', Sym(s0.size == 0))
        return
    t, i, task = list(b.interp.iterate(out.value))
    i = z(i, 'int')
    b.ensure('the entry taken was pending', Sym(s0.live[i]))
    b.ensure('its time', Sym(z(t, 'real') == s0.T[i]))
    b.ensure('its task', isinstance(task, TaskAtom) and Sym(task.tag == s0.P[i]))
    b.ensure('no pending entry comes before it', Sym(z3.ForAll([j], z3.Implies(s0.live[j], z3.Or(s0.T[i] < s0.T[j], z3.And(s0.T[i] == s0.T[j], i <= j))))))
    b.ensure('it is no longer pending', Sym(z3.Not(s.live[i])))
    kern.same_live(b, 'pop', s, s0, but=i)
    kern.well_formed(b, 'pop', s)
    b.ensure('count drops by one', Sym(s.size == s0.size - 1))


@case('C01', 'EventQueue.push files the entry under a later identifier with its time (any size)', mode='sym')
def push_contract(b):
    q, s = kern.sym_queue(b)
    s0 = s.snapshot()
    t = b.real('time'); task = (object(), (), '')
    i = z(b.ensure_ok(b.call(q.push, t, task)), 'int')
    b.ensure('scheduled later means a larger identifier', Sym(i >= s0.n) & Sym(s.n > i))
    b.ensure('pending with its time and task', Sym(z3.And(s.live[i], s.T[i] == z(t, 'real'), s.P[i] == s.tag(task), z3.Not(s.none[i]))))
    kern.same_live(b, 'push', s, s0, but=i)
    kern.well_formed(b, 'push', s)


@case('C01', 'run loop: each event executed is the least pending one, at exactly its time, clock monotone (any handlers, any number of events)', mode='sym', shards=8)
def run_loop(b):
    w = kern.World(b)
    (st, ctx, fr), gen = w.run()
    b.ensure('final clock is the last event', b.eq(st.sim_time, w.t0 if w.last_T is None else w.last_T))


@case('C01', 'two or three events with symbolic delays through the whole simulator run in (time, order)', samples=60, shards=4)
def small_programs(b):
    n = b.choice('events', [1, 2, 3])
    ds = [b.real(f'd{i}', 0, 10) for i in range(n)]
    extra = b.real('nested delay', 0, 10) if b.choice('nested', [True, False]) else None
    from pysim.sim.simulator import build_simulation
    seen = []; P = {}

    def h(sim, k):
        now = b.interp.getattr(sim, 'time') if b.symbolic else sim.time
        seen.append((k, now))
        if k == 0 and extra is not None:
            P[n] = now + extra
            (b.interp.call(sim.schedule, [extra, h, (n,)]) if b.symbolic else sim.schedule(extra, h, (n,)))
    h.pyvc_model = True

    def init(sim):
        for k, d in enumerate(ds):
            P[k] = d
            (b.interp.call(sim.schedule, [d, h, (k,)]) if b.symbolic else sim.schedule(d, h, (k,)))
    init.pyvc_model = True
    if b.symbolic:
        from pyvc.models import Log
        b.stub(kern.Kernel, 'logger', lambda k: Log())
        import pysim.sim.logger as lg
        for m in ('setup', 'debug', 'info', 'set_time_getter'): b.stub(lg.ModelLogger, m, lambda *a, **k: None)
    gen = b.ensure_ok(b.call(build_simulation, 'small', init))
    b.ensure_ok(b.call(next, gen))
    b.ensure('every event ran once', sorted(k for k, _ in seen) == sorted(P))
    for k, t in seen: b.ensure('clock shows the scheduled time', b.eq(t, P[k]))
    for (k1, t1), (k2, t2) in zip(seen, seen[1:]):
        b.ensure('order', b.Or(P[k1] < P[k2], b.And(b.eq(P[k1], P[k2]), k1 < k2)))


@case('C01', 'queue histories of push/pop/cancel against a reference list', mode='native', samples=400, bound='random histories of up to 800 operations')
def queue_history(b):
    r = random.Random(b.int('program seed', 0, 2 ** 31))
    q = EventQueue(); live = {}; n = 0
    times = r.choice([[0, 1], [0.5, 1, 2, 3], [0]])
    big = r.random() < .15; phases = [(r.randrange(40, 200), r.choice([.95, .1, .5]), r.choice([.98, .5])) for _ in range(4)] if big else [(r.randrange(60), .5, .5)]
    if big: phases[0] = (200, .95, .5); phases[1] = (170, .03, .97)
    for push, cancel in [(p, c) for n_, p, c in phases for _ in range(n_)]:
        k = r.random()
        if k < push:
            t = r.choice(times) if r.random() < .7 else r.uniform(0, 5)
            task = ('task', n); i = q.push(t, task); live[i] = (t, n, task); n += 1
        elif k < push + (1 - push) * cancel and live:
            i = r.choice(list(live)); q.cancel(i); del live[i]
        elif live:
            out = b.ensure_ok(b.call(q.pop))
            want = min(live, key=lambda i: live[i][:2])
            b.ensure('pop yields the least live (time, order) with its task', tuple(out) == (live[want][0], want, live[want][2]))
            live.pop(want)
    while live:
        out = b.ensure_ok(b.call(q.pop)); want = min(live, key=lambda i: live[i][:2])
        b.ensure('the rest comes out in order', tuple(out) == (live[want][0], want, live[want][2]))
        live.pop(want)
    b.ensure('then the queue is empty', q.empty)


@case('C01', 'random handler programs against a reference scheduler', mode='native', samples=400, bound='random handler programs of up to 40 events')
def programs(b):
    kern.Program(b, b.int('program seed', 0, 2 ** 31), 'C01').run()


@case('C01', 'a queue with a long life against a reference', mode='native', samples=4, thorough=40, shards=2, bound='4 histories of up to 77000 events, up to tens of thousands pending (40 in the thorough tier)')
def long_history(b): kern.long_history(b)
