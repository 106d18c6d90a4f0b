"""C23 The staged reading model visits stages as the scenario prescribes."""
import math, random
import numpy as np
from pyvc import pw
from pyvc.runner import case
from pyvc.sym import Sym, Unsupported
from specs.handlerkit import HKernel
import pysim.models.tag_time.model as md
import pysim.models.tag_time.handlers as th
import pysim.models.tag_time.objects as to
import pysim.models.tag_time.cli as tc
import pysim.sim.simulator as sm

ASSUME = ['kernel under its contract (C01-C04)', 'a draw that equals the probability exactly may count either way',
          'packet numbers and per-state packet counters only appear in the log']
COUNTERS = {'num_transmissions', 'num_pakage_sent', 'number'}
CHUNKS = 'chunk counts up to 4 in the proof (any probabilities, times, limit, number of transmissions so far and draws), up to 20 in the native runs; any_chunks proves an attempt for every count'


def snap(b, o, path='', seen=None, out=None):
    """every value the model holds, by path, counters aside"""
    seen, out = ({}, []) if seen is None else (seen, out)
    if isinstance(o, (Sym, int, float, str, type(None))) or type(o).__name__ == 'Fraction': out.append((path, o))
    elif isinstance(o, (list, tuple)):
        out.append((path + '#', len(o)))
        for i, x in enumerate(o): snap(b, x, f'{path}[{i}]', seen, out)
    elif isinstance(o, dict):
        for k in o: snap(b, o[k], f'{path}[{k}]', seen, out)
    elif id(o) in seen: out.append((path, seen[id(o)]))
    elif isinstance(o, to.Config) or not hasattr(o, '__dict__') or type(o).__module__ != md.__name__: pass
    else:
        seen[id(o)] = path
        for k in sorted(vars(o)):
            if k not in COUNTERS: snap(b, vars(o)[k], f'{path}.{k}', seen, out)
    return out


class World:
    """the model on a stand-in kernel; every random draw is seen, and can be forced to succeed"""
    def __init__(self, b, scenario, n, P, T, limit):
        self.b, self.scenario, self.n, self.P, self.T = b, scenario, n, P, T
        self.force = False; self.drawn = []; self.snaps = []; self.stages = 3 + (n if scenario == 3 else 1)
        self.k = HKernel(b, b.num(0))
        cfg = to.Config.model_construct(probability=tuple(P), processing_time=tuple(T), max_transmisions=limit, chunks_number=n, scenario=scenario)
        self.b.ensure_ok(b.call(th.initialize, self.k, cfg)); self.m = self.k.context

    def p(self, s): return self.P[min(s, 3)]
    def t(self, s): return self.T[min(s, 3)]

    def draw(self):
        self.snaps.append(snap(self.b, self.m))
        u = -1 if self.force else self.b.real('draw', 0, 1)
        self.drawn.append(u); return u

    def next(self):
        """runs events until the next draw has been acted on, or the model stops"""
        n, m = len(self.drawn), len(self.k.stopped)
        for _ in range(8):
            live = [e for e in self.k.scheduled if e[0] not in self.k.cancelled]
            if len(live) != 1: self.b.ensure('exactly one event is pending', False)
            e = live[0]; self.k.scheduled.remove(e); self.k.time = self.k.time + e[1]
            self.b.ensure_ok(self.b.call(e[2], self.k, *e[3]))
            if len(self.drawn) > n or len(self.k.stopped) > m: return
        raise Unsupported('no random draw seen')

    def pending_delay(self):
        live = [e for e in self.k.scheduled if e[0] not in self.k.cancelled]
        self.b.ensure('exactly one event is pending', len(live) == 1)
        return live[0][1]


def patch(b, w):
    def rnd(): return w[-1].draw()
    def uni(lo, hi): return lo + (hi - lo) * w[-1].draw()
    rnd.pyvc_model = uni.pyvc_model = True
    b.stub(random, 'random', rnd); b.stub(random, 'uniform', uni)


@case('C23', 'one attempt from any stage: time, next stage, count, limit', samples=500, shards=8, bound=CHUNKS)
def attempt(b):
    scenario = b.choice('scenario', [1, 2, 3]); n = b.choice('chunks', [1, 2, 3, 4] if b.symbolic else [1, 2, 3, 4, 9, 20]) if scenario == 3 else 4
    P = [b.real(f'p{i}', 0, 1) for i in range(4)]; T = [b.real(f't{i}', 0.001, 10) for i in range(4)]
    limited = b.choice('limited', [True, False]); limit = b.int('limit', 1, 1000 if not b.symbolic else None) if limited else None
    w = []; patch(b, w)
    def make(): w.append(World(b, scenario, n, P, T, limit)); return w[-1]
    x = make()
    s = b.choice('stage', list(range(x.stages))); 
    x.force = True
    for i in range(s): x.next()
    x.force = False
    # the counters may hold anything a run could have put there
    b.need(x.m, 'num_transmissions'); done = b.int('transmissions so far', 0, None if b.symbolic else 1000)
    if limited: b.assume(b.lt(done, limit))
    b.set(x.m, num_transmissions=done)
    for st in [x.m.arbitrate, x.m.reply, x.m.acknowledged, x.m.final] + (list(x.m.secured) if isinstance(x.m.secured, list) else [x.m.secured]):
        if hasattr(st, 'num_pakage_sent'): b.set(st, num_pakage_sent=b.int('sent', 0, 99))
    x.next()
    b.ensure('one draw per attempt', len(x.drawn) == s + 1)
    u = x.drawn[-1]; b.assume(b.Not(b.eq(u, x.p(s))))
    ok = b.p.decide(b.lt(u, x.p(s)).z) if b.symbolic and isinstance(b.lt(u, x.p(s)), Sym) else bool(b.lt(u, x.p(s)))
    b.ensure('the attempt takes the time of the stage', b.eq(x.pending_delay(), x.t(s)))
    now = x.k.time
    to_ = s + 1 if ok else 0 if scenario == 1 else s
    x.next()
    b.ensure('the next attempt starts when this one ends', b.eq(x.k.time, now + x.t(s)))
    if to_ == x.stages:
        b.ensure('the final stage counts one transmission', b.eq(x.m.num_transmissions, done + 1))
        last = limited and (b.p.decide(b.eq(done + 1, limit).z) if b.symbolic else done + 1 == limit)
        if last: b.ensure('the run stops once all transmissions are counted', len(x.k.stopped) == 1 and len(x.drawn) == s + 1); return
        to_ = 0
    else: b.ensure('nothing else counts as a transmission', b.eq(x.m.num_transmissions, done))
    b.ensure('the run goes on', len(x.k.stopped) == 0 and len(x.drawn) == s + 2)
    b.ensure('the next attempt is one of the prescribed stage', b.eq(x.pending_delay(), x.t(to_)))
    if b.symbolic:
        # whatever the history, the model is as it is after succeeding straight to that stage
        y = make(); y.force = True
        for i in range(to_ + 1): y.next()
        a, c = x.snaps[-1], y.snaps[-1]
        same = [p for p, _ in a] == [p for p, _ in c]
        b.ensure('the stage determines the state of the model', same and b.And(*[b.eq(v, o) for (_, v), (_, o) in zip(a, c)]), replayable=False)


@case('C23', 'a history of draws from the start', samples=300, shards=8, bound='6 attempts in the proof, up to 60 in the native runs; ' + CHUNKS)
def history(b):
    scenario = b.choice('scenario', [1, 2, 3]); n = b.choice('chunks', [1, 2] if b.symbolic else [1, 2, 5]) if scenario == 3 else 3
    P = [b.real(f'p{i}', 0, 1) for i in range(4)]; T = [b.real(f't{i}', 0.001, 10) for i in range(4)]
    limit = b.choice('limit', [0, 1, 2, None]); w = []; patch(b, w)
    x = World(b, scenario, n, P, T, limit); w.append(x)
    s, done, total = 0, 0, b.num(0)
    for i in range(6 if b.symbolic else 60):
        x.next()
        b.ensure('time is the sum of the attempts made', b.eq(x.k.time, total)); b.ensure('transmissions counted', b.eq(x.m.num_transmissions, done))
        if limit is not None and done >= limit: b.ensure('the run stops once all transmissions are counted', len(x.k.stopped) == 1 and len(x.drawn) == i); return
        b.ensure('the run goes on', not x.k.stopped)
        u = x.drawn[-1]; c = b.lt(u, x.p(s)); b.assume(b.Not(b.eq(u, x.p(s))))
        ok = b.p.decide(c.z) if isinstance(c, Sym) else bool(c)
        b.ensure('the attempt takes the time of the stage', b.eq(x.pending_delay(), x.t(s)))
        total = total + x.t(s); s = s + 1 if ok else 0 if scenario == 1 else s
        if s == x.stages: s = 0; done += 1


def full(b, scenario, n, P, T, limit):
    out = b.ensure_ok(b.call(tc.run_model, to.Config(probability=tuple(P), processing_time=tuple(T), max_transmisions=limit, chunks_number=n, scenario=scenario), sm.ModelLoggerConfig()))
    return out.sim_time


@case('C23', 'whole runs on the real kernel: total time is that of the attempts drawn', mode='native', samples=60, thorough=2000, bound='60 runs of up to 50 transmissions (2000 in the thorough tier)', budget=40)
def runs(b):
    scenario = b.choice('scenario', [1, 2, 3]); n = b.choice('chunks', [1, 2, 5, 12])
    P = [b.choice('sure', [1.0, 0]) or b.real(f'p{i}', 0.4, 1) for i in range(4)]; T = [b.choice('no time', [False] * 5 + [True]) and 0.0 or b.real(f't{i}', 0.001, 10) for i in range(4)]
    limit = b.int('limit', 0, 50); us = []
    orig = random.random
    def rec(): us.append(orig()); return us[-1]
    random.random = rec
    try: t = full(b, scenario, n, P, T, limit)
    finally: random.random = orig
    stages = 3 + (n if scenario == 3 else 1); s, done, total, i = 0, 0, 0.0, 0
    while done < limit:
        if i >= len(us):
            if not us: b.assume(all(p == 1 for p in P))
            if us: b.ensure('one draw per attempt', False); return
            u = 0.0
        else: u = us[i]
        i += 1; total += T[min(s, 3)]; ok = u <= P[min(s, 3)]
        s = s + 1 if ok else 0 if scenario == 1 else s
        if s == stages: s = 0; done += 1
    b.ensure('total time is the sum of the attempts', b.eq(t, total)); b.ensure('no attempt after the last transmission', i == len(us) or not us)


@case('C23', 'whole runs: share of successful attempts per stage', mode='native', samples=12, thorough=200, bound='12 runs of 200 transmissions (200 in the thorough tier), attempts per stage read off the total time, 6.5 standard deviations', randomize=False, budget=40)
def shares(b):
    scenario = b.choice('scenario', [1, 2, 3]); n = b.choice('chunks', [1, 3, 6])
    P = [b.choice(f'p{i}', [1.0, 0.9, 0.75, 0.6]) for i in range(4)]; T = [1.0, 1e4, 1e8, 1e12] if b.choice('order', [0, 1]) else [1e12, 1e8, 1e4, 1.0]
    limit = 200; t = int(round(full(b, scenario, n, P, T, limit))); b.trace.append(t)
    a = [t // int(x) % 10000 for x in T]
    need = limit * (n if scenario == 3 else 1)
    for i in (3, 2, 1, 0):
        p = P[i]; mean, sd = need / p, math.sqrt(need * (1 - p)) / p
        b.ensure(f'attempts at stage {i}', abs(a[i] - mean) <= 6.5 * sd)
        need = a[i] if scenario == 1 else limit


@case('C23', 'any number of chunks: one attempt from any stage', mode='sym', shards=4)
def any_chunks(b):
    pw.use(b)
    n = b.int('chunks', 1); P = [b.real(f'p{i}', 0, 1) for i in range(4)]; T = [b.real(f't{i}', 0.001, 10) for i in range(4)]
    limit = b.int('limit', 1) if b.choice('limited', [True, False]) else None
    w = []; patch(b, w); x = AnyWorld(b, n, P, T, limit); w.append(x); m = x.m
    b.ensure('one stage per chunk', b.eq(pw.length(m.secured), n), False)
    b.need(m, 'num_transmissions', 'chunks_passed'); done = b.int('transmissions so far', 0); b.set(m, num_transmissions=done)
    if limit is not None: b.assume(b.lt(done, limit))
    # the stage: waiting for its attempt, the chunks passed so far counted; what was sent before is known
    s = b.choice('stage', ['Arbitrate', 'Reply', 'Acknowledged', 'chunk']); j = b.int('chunk', 0); b.assume(j < n)
    packet = md.Packet(present_state=0, number=7)
    st = {'Arbitrate': m.arbitrate, 'Reply': m.reply, 'Acknowledged': m.acknowledged}.get(s)
    if st is None: st = m.secured[j]
    b.set(m, chunks_passed=j + 1 if s == 'chunk' else 0)
    k = x.k; k.scheduled.clear()
    b.ensure_ok(b.call(st.handle_timeout, k, packet))
    b.ensure('one draw per attempt', len(x.drawn) == 1, False)
    i = ['Arbitrate', 'Reply', 'Acknowledged', 'chunk'].index(s); u = x.drawn[0]; b.assume(b.Not(b.eq(u, P[i])))
    ok = b.p.decide(b.lt(u, P[i]).z)
    b.ensure('exactly one event is pending', len(k.scheduled) == 1, False); e = k.scheduled.pop()
    b.ensure('the attempt takes the time of the stage', b.eq(e[1], T[i]), False)
    b.ensure_ok(b.call(e[2], k, *e[3]))
    follow(b, k); last = s == 'chunk' and ok and b.p.decide((j == n - 1).z)
    to_ = i if not ok else i + 1 if i < 3 else 0 if last else 3
    jj = 0 if i < 3 else j if not ok else j + 1
    if last:
        b.ensure('the final stage counts one transmission', b.eq(m.num_transmissions, done + 1), False)
        b.ensure('all chunks are to be sent again', b.eq(m.chunks_passed, 0), False)
        if limit is not None and b.p.decide((done + 1 == limit).z):
            b.ensure('the run stops once all transmissions are counted', len(k.stopped) == 1 and len(x.drawn) == 1 and not k.scheduled, False); return
    else: b.ensure('nothing else counts as a transmission', b.eq(m.num_transmissions, done), False)
    if to_ == 3: b.ensure('the chunks passed so far', b.eq(m.chunks_passed, jj + 1), False)
    else: b.ensure('no chunk passed', b.eq(m.chunks_passed, 0), False)
    b.ensure('the run goes on', not k.stopped and len(x.drawn) == 2, False)
    b.ensure('exactly one event is pending', len(k.scheduled) == 1, False); e = k.scheduled.pop()
    b.ensure('the next attempt is one of the prescribed stage', b.eq(e[1], T[to_]), False)
    nxt = [m.arbitrate, m.reply, m.acknowledged][to_] if to_ < 3 else m.secured[jj]
    # whichever way that attempt ended, its event belongs to the stage or to the one after it
    u = x.drawn[1]; b.assume(b.Not(b.eq(u, P[to_]))); won = b.p.decide(b.lt(u, P[to_]).z)
    target = nxt if not won else [m.reply, m.acknowledged, None, None][to_]
    if target is None: target = m.secured[0] if to_ == 2 else m.final if b.p.decide((jj == n - 1).z) else m.secured[jj + 1]
    b.ensure('the event is that of the stage', getattr(e[2], '__self__', None) is target, False)


def follow(b, k):
    """events due at once run at once"""
    for _ in range(4):
        if not (len(k.scheduled) == 1 and k.scheduled[0][1] == 0 and not isinstance(k.scheduled[0][1], Sym)): return
        e = k.scheduled.pop(); b.ensure_ok(b.call(e[2], k, *e[3]))


class AnyWorld(World):
    def __init__(self, b, n, P, T, limit):
        self.b, self.scenario, self.n, self.P, self.T = b, 3, n, P, T
        self.force = False; self.drawn = []; self.snaps = []
        self.k = HKernel(b, b.num(0))
        cfg = to.Config.model_construct(probability=tuple(P), processing_time=tuple(T), max_transmisions=limit, chunks_number=n, scenario=3)
        b.ensure_ok(b.call(th.initialize, self.k, cfg)); self.m = self.k.context
    def draw(self): self.drawn.append(self.b.real('draw', 0, 1)); return self.drawn[-1]
