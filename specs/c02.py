"""C02 Every event is delivered exactly once unless cancelled."""
import random
import z3
from pyvc.runner import case
from pyvc.sym import Sym, z
from specs import kern, c01
from specs.kern import EventQueue, Kernel, Simulator

ASSUME = c01.ASSUME


def identifier(b):
    k = b.choice('identifier', ['number', 'none', 'text'])
    return b.int('id', -5) if k == 'number' else None if k == 'none' else 'x'


def bare_kernel(b, q):
    k = Kernel('proof')
    b.need(k, '_queue')
    k._queue = q
    return k


def check_cancel(b, s, s0, i, hit):
    if hit is True:
        iz = z(i, 'int')
        b.ensure('the cancelled event is no longer pending', Sym(z3.Not(s.live[iz])))
        kern.same_live(b, 'cancel', s, s0, but=iz)
        b.ensure('one event less', Sym(s.size == s0.size - 1))
    else:
        kern.same_live(b, 'cancel', s, s0)
        b.ensure('same number of events', Sym(s.size == s0.size))
    kern.well_formed(b, 'cancel', s)


@case('C02', 'Kernel.cancel and Simulator.cancel: 1 exactly for a pending event, which alone is removed (any queue)', mode='sym')
def cancel_contract(b):
    q, s = kern.sym_queue(b)
    k = bare_kernel(b, q)
    i = identifier(b); s0 = s.snapshot()
    sim = Simulator(k) if b.choice('through', ['kernel', 'simulator']) == 'simulator' else None
    n = b.ensure_ok(b.call(sim.cancel if sim else k.cancel, i))
    pending = Sym(s0.live[z(i, 'int')]) if isinstance(i, Sym) else False
    b.ensure('reports 1 exactly when it was pending, else 0', b.eq(n, b.ite(pending, 1, 0)))
    hit = bool(pending) if isinstance(pending, Sym) else False
    check_cancel(b, s, s0, i, hit)


@case('C02', 'EventQueue.cancel removes that event and touches no other (any queue)', mode='sym')
def queue_cancel_contract(b):
    q, s = kern.sym_queue(b)
    i = identifier(b); s0 = s.snapshot()
    b.ensure_ok(b.call(q.cancel, i))
    hit = bool(Sym(s0.live[z(i, 'int')])) if isinstance(i, Sym) else False
    check_cancel(b, s, s0, i, hit)


@case('C02', 'push gives a new identifier and pends exactly that event; length and emptiness follow', mode='sym')
def push_contract(b):
    q, s = kern.sym_queue(b)
    s0 = s.snapshot()
    n0 = b.ensure_ok(b.call(len, q)); e0 = b.ensure_ok(b.call(getattr, q, 'empty'))
    b.ensure('length is the number of pending events', Sym(z(n0, 'int') == s0.size))
    b.ensure('empty exactly when that number is 0', b.eq(e0, Sym(s0.size == 0)))
    i = z(b.ensure_ok(b.call(q.push, b.real('time'), ('h', (), ''))), 'int')
    b.ensure('identifier never used before nor again', Sym(z3.And(i >= s0.n, i < s.n)))
    j = z3.Int('j')
    b.ensure('it was not pending before', Sym(z3.Not(s0.live[i])))
    b.ensure('it is pending now', Sym(s.live[i]))
    kern.same_live(b, 'push', s, s0, but=i)
    kern.well_formed(b, 'push', s)
    b.ensure('length grows by one', Sym(z(b.ensure_ok(b.call(len, q)), 'int') == s0.size + 1))


@case('C02', 'clear removes everything', mode='sym')
def clear_contract(b):
    q, s = kern.sym_queue(b)
    b.ensure_ok(b.call(q.clear))
    j = z3.Int('j')
    b.ensure('nothing is pending', Sym(z3.ForAll([j], z3.Not(s.live[j]))))
    kern.well_formed(b, 'clear', s)
    b.ensure('length 0', b.eq(b.ensure_ok(b.call(len, q)), 0))
    b.ensure('empty', b.eq(b.ensure_ok(b.call(getattr, q, 'empty')), True))
    b.ensure('pop raises KeyError', b.call(q.pop).raised(KeyError))


case('C02', 'pop delivers a pending event and removes exactly it; KeyError exactly when none is pending (loop contract)', mode='sym')(c01.pop_contract)


@case('C02', 'the run loop hands each event taken off the queue to its handler exactly once', mode='sym')
def delivered_once(b):
    w = kern.World(b)
    (st, ctx, fr), gen = w.run()
    b.ensure('no event is taken off the queue without being handled', w.popped is None)
    b.ensure('as many events handled as taken', b.eq(st.num_events_processed, w.count))


@case('C02', 'queue histories of push, pop, cancel, clear, len against a reference', mode='native', samples=500, bound='random histories of up to 400 operations')
def queue_history(b):
    r = random.Random(b.int('program seed', 0, 2 ** 31))
    q = EventQueue(); live = {}; used = []; n = 0
    big = r.random() < .1
    for step in range(400 if big else r.randrange(5, 60)):
        k = r.random()
        if big: k = r.choice([.1] * 9 + [.5]) if step < 180 else r.choice([.5] * 12 + [.8]) if step < 340 else k
        if k < .45:
            t = r.choice([0, 1, 2, 2.5]); i = q.push(t, ('task', n))
            b.ensure('new identifier', i not in used); used.append(i); live[i] = (t, n, ('task', n)); n += 1
        elif k < .7:
            i = r.choice(list(live)) if big and live and r.random() < .8 else r.choice(used) if used and r.random() < .85 else r.choice([None, 999, -1, 'x'])
            b.ensure_ok(b.call(q.cancel, i)); live.pop(i, None)
        elif k < .95:
            out = b.call(q.pop)
            if not live: b.ensure('popping an empty queue raises KeyError', out.raised(KeyError))
            else:
                b.ensure_ok(out, 'pop of a non-empty queue')
                t, i, task = out.value
                b.ensure('only pending events come out, once, with their task', i in live and live[i][2] == task and live[i][0] == t)
                live.pop(i, None)
        elif k < .97: q.clear(); live.clear()
        b.ensure('length is the number of pending events', len(q) == len(live))
        b.ensure('empty exactly when none is pending', q.empty == (not live))
    while live:
        t, i, task = b.ensure_ok(b.call(q.pop), 'pop of a non-empty queue')
        b.ensure('only pending events come out', i in live); live.pop(i, None)
    b.ensure('popping an empty queue raises KeyError', b.call(q.pop).raised(KeyError))


@case('C02', 'kernel histories: schedule and cancel against a reference', mode='native', samples=200, bound='random histories of up to 40 operations')
def kernel_history(b):
    r = random.Random(b.int('program seed', 0, 2 ** 31))
    k = Kernel('native'); sim = Simulator(k); live = set(); used = []
    for _ in range(r.randrange(5, 40)):
        if r.random() < .5:
            i = r.choice([sim.schedule, k.schedule])(r.choice([0, 1, 2.5]), len, ((),))
            b.ensure('new identifier', i not in used); used.append(i); live.add(i)
        else:
            i = r.choice(used) if used and r.random() < .8 else r.choice([None, 999, -1, 'x', 2.5])
            n = b.ensure_ok(b.call(r.choice([sim.cancel, k.cancel]), i))
            b.ensure('cancel reports 1 exactly for a pending event', n == (1 if i in live else 0)); live.discard(i)
        b.ensure('length', len(k._queue) == len(live))


@case('C02', 'random handler programs against a reference scheduler', mode='native', samples=400, bound='random handler programs of up to 40 events')
def programs(b):
    s = b.int('program seed', 0, 2 ** 31)
    kern.Program(b, s, 'C02', limits=kern.random_limits(random.Random(s)) if s % 3 == 0 else None).run()


@case('C02', 'a queue with a long life against a reference', mode='native', samples=4, thorough=40, shards=2, bound='4 histories of up to 77000 events, up to tens of thousands pending (40 in the thorough tier)')
def long_history(b): kern.long_history(b)
