"""C25 Ping-pong packets are conserved and the report is truthful."""
import random
from pyvc.runner import case
from pyvc.sym import Sym, Unsupported
from specs.handlerkit import HKernel
import pysim.models.pingpong.model as md
import pysim.models.pingpong.handlers as ph
import pysim.models.pingpong.objects as po
import pysim.models.pingpong.cli as pc
import pysim.sim.simulator as sm

ASSUME = ['kernel under its contract (C01-C04)', 'a draw that equals the loss probability exactly may count either way', 'random.random and random.randint as documented']
FREE = {'number', 'num_pings_sent', 'num_acknowledged', 'num_missed', 'num_bad_pongs', 'intervals_list', 'delays_list'}
COUNTS = ('num_pings_sent', 'num_acknowledged', 'num_missed', 'num_bad_pongs')


def snap(o, path='', seen=None, out=None):
    """every value the model holds, by path, counters and lists of the statistics aside"""
    seen, out = ({}, []) if seen is None else (seen, out)
    if isinstance(o, (Sym, int, float, str, type(None))) or type(o).__name__ == 'Fraction': out.append((path, o))
    elif isinstance(o, (list, tuple)):
        out.append((path + '#', len(o)))
        for i, x in enumerate(o): snap(x, f'{path}[{i}]', seen, out)
    elif isinstance(o, dict):
        for k in o: snap(o[k], f'{path}[{k}]', seen, out)
    elif id(o) in seen: out.append((path, seen[id(o)]))
    elif not hasattr(o, '__dict__') or type(o).__module__ != md.__name__: pass
    else:
        seen[id(o)] = path
        for k in sorted(vars(o)):
            if k not in FREE: snap(vars(o)[k], f'{path}.{k}', seen, out)
    return out


def true(b, c): return b.p.decide(c.z) if isinstance(c, Sym) else bool(c)


class World:
    """the model on a stand-in kernel, and what the statement says it does"""
    def __init__(self, b, limit, like=None):
        self.b = b; self.limit = limit
        self.interval, self.delay, self.service, self.loss = (like.interval, like.delay, like.service, like.loss) if like else (*(b.real(n, 0, 50) for n in ('interval', 'channel delay', 'service delay')), b.real('loss', 0, 1))
        self.k = HKernel(b, b.num(0)); self.drawn = []; self.force = None
        cfg = po.Config.model_construct(interval=self.interval, channel_delay=self.delay, service_delay=self.service, loss_prob=self.loss, max_pings=limit)
        b.ensure_ok(b.call(ph.initialize, self.k, cfg)); self.m = self.k.context; b.need(self.m, 'client', 'channel')
        self.c = self.m.client; b.need(self.c, *COUNTS, 'number')
        self.sent = self.ack = self.bad = self.missed = b.num(0); self.number = self.c.number; self.latest = None

    def draw(self):
        b = self.b
        u = b.real('draw', 0, 1) if b.symbolic else b.real('draw', 0, 0.9999999)
        if self.force is not None: u = {True: -1, False: 2}[self.force]
        else: b.assume(b.lt(u, 1)); b.assume(b.Not(b.eq(u, self.loss)))
        self.drawn.append((self.k.time, u)); return u

    def pending(self): return [e for e in self.k.scheduled if e[0] not in self.k.cancelled]

    def step(self):
        live = self.pending(); self.b.ensure('exactly one event is pending', len(live) == 1)
        e = live[0]; self.k.scheduled.remove(e); self.k.time = self.k.time + e[1]
        self.b.ensure_ok(self.b.call(e[2], self.k, *e[3]))
        return e

    def until(self, what, delay, packets=None):
        """runs events until what() holds; the time that takes is delay"""
        t = self.k.time
        for _ in range(6):
            if what(): break
            e = self.step()
            for p in e[3]:
                if packets is not None and isinstance(p, md.Packet): packets.append(p)
        else: self.b.ensure('packets and timeouts come as described', False)
        self.b.ensure('and when described', self.b.eq(self.k.time, t + delay))

    def counts(self):
        c, b = self.c, self.b
        b.ensure('pings sent', b.eq(c.num_pings_sent, self.sent)); b.ensure('pongs of the current ping', b.eq(c.num_acknowledged, self.ack)); b.ensure('other pongs', b.eq(c.num_bad_pongs, self.bad))
        b.ensure('timeouts without a pong', b.eq(c.num_missed, self.missed))

    def over(self):
        """runs a timeout; tells whether that was the end"""
        b = self.b; live = self.pending(); b.ensure('exactly one event is pending', len(live) == 1)
        b.ensure('the next ping is sent one interval later', b.eq(live[0][1], b.num(0) if self.latest is None else self.interval))
        n = len(self.drawn); self.step()
        if self.latest is False: self.missed = self.missed + 1
        if self.limit is not None and true(b, b.le(self.limit, self.sent)):
            b.ensure('the run stops once the limit is reached', len(self.k.stopped) == 1 and not self.pending()); self.counts(); return True
        b.ensure('the run goes on below the limit', not self.k.stopped)
        self.sent = self.sent + 1; self.number = self.number + 1
        b.ensure('pings have consecutive numbers', b.eq(self.c.number, self.number)); self.counts()
        b.ensure('the ping is under way', len(self.drawn) == n)
        return False

    def ping(self):
        """from the timeout that sent the ping to the next timeout"""
        b = self.b; n = len(self.drawn); ps = []
        self.until(lambda: len(self.drawn) > n, self.delay, ps)
        b.ensure('the ping is the one of this number', not ps or b.And(*[b.eq(p.number, self.number) for p in ps]))
        u = self.drawn[-1][1]; self.latest = not true(b, b.lt(u, self.loss)) if self.force is None else not self.force
        if self.latest:
            b.ensure('a lost ping is not answered, others are', b.eq(self.pending()[0][1], self.service) if len(self.pending()) == 1 else False)
            ps = []; self.until(lambda: self.seen(), self.service + self.delay, ps); self.ack = self.ack + 1
            b.ensure('the pong has the number of its ping', not ps or b.And(*[b.eq(p.number, self.number) for p in ps]))
        self.counts()

    def seen(self):
        """the pong has been received: a count went up"""
        c = self.c
        return not (same(c.num_acknowledged, self.ack) and same(c.num_bad_pongs, self.bad))


def same(x, y):
    if isinstance(x, Sym) or isinstance(y, Sym):
        import z3
        from pyvc.sym import z
        return z3.is_true(z3.simplify(z(x) == z(y)))
    return x == y


def patch(b, w):
    def rnd(): return w[-1].draw()
    rnd.pyvc_model = True
    b.stub(random, 'random', rnd)


HIST = [(), (False,), (True,), (True, False), (False, True)]


@case('C25', 'one ping after any history: times, numbers, counts, limit', samples=600, shards=4)
def one(b):
    w = []; patch(b, w)
    limit = b.int('limit', 0, None if b.symbolic else 60) if b.choice('limited', [True, False]) else None
    x = World.__new__(World); w.append(x); World.__init__(x, b, None)
    h = b.choice('history', HIST)
    for lost in h: x.force = lost; x.over(); x.ping()
    x.force = None
    # the counters may hold anything a run could have put there
    sent = b.int('sent so far', len(h) if h else 0, None if b.symbolic else 60) if h else 0
    ack, missed, bad, number = (b.int(n, 0, None if b.symbolic else 60) for n in ('acknowledged so far', 'missed so far', 'bad so far', 'number so far'))
    b.set(x.c, num_pings_sent=sent, num_acknowledged=ack, num_missed=missed, num_bad_pongs=bad, number=number, max_pings=limit)
    x.sent, x.ack, x.missed, x.bad, x.number, x.limit = sent, ack, missed, bad, number, limit
    if limit is not None and h: b.assume(b.le(sent, limit))
    if x.over(): return
    x.ping()
    for o, l, v in ((x.c, 'intervals_list', x.interval), (x.m.channel, 'delays_list', x.delay)):
        if b.symbolic: b.need(o, l); b.ensure('what the means are taken of', b.And(*[b.eq(q, v) for q in getattr(o, l)]) if getattr(o, l) else False, replayable=False)
    a = snap(x.m); x.over()
    if b.symbolic:
        # whatever the history, the model is as it is after one ping with that outcome
        y = World.__new__(World); w.append(y); World.__init__(y, b, None, x); b.set(y.c, max_pings=limit); y.limit = None
        y.force = not x.latest; y.step(); n = len(y.drawn)
        for _ in range(9):
            if len(y.drawn) > n and (y.force or y.seen()): break
            y.step()
        c = snap(y.m)
        same_ = [p for p, _ in a] == [p for p, _ in c]
        b.ensure('the latest outcome determines the state of the model', same_ and b.And(*[v is o or b.eq(v, o) for (_, v), (_, o) in zip(a, c)]), replayable=False)


@case('C25', 'pongs of the current ping are acknowledged, others are bad; either way the next ping follows one interval later', samples=300)
def pong(b):
    w = []; patch(b, w); x = World.__new__(World); w.append(x); World.__init__(x, b, None)
    x.over(); n = b.int('number of the pong', 0, None if b.symbolic else 10); m = b.int('current number', 0, None if b.symbolic else 10)
    b.set(x.c, number=m); e = x.pending()[0]; x.k.scheduled.remove(e)
    b.ensure_ok(b.call(x.c.handle_receive, x.k, md.Packet(sender=x.m.server, receiver=x.c, number=n)))
    good = true(b, b.eq(n, m)); x.number = m; x.latest = good
    if good: x.ack = 1
    else: x.bad = 1
    x.counts(); x.over()


@case('C25', 'reports after a history', samples=300, shards=4, bound='4 pings in the proof, up to 40 in the native runs')
def report(b):
    w = []; patch(b, w); limit = b.choice('limit', [1, 2, 3, 4] if b.symbolic else [1, 2, 3, 7, 40])
    x = World.__new__(World); w.append(x); World.__init__(x, b, limit)
    pings = b.choice('pings', [1, 2, 3, 4] if b.symbolic else [1, 2, 3, 7, 40])
    ended = False
    for i in range(pings + 1):
        if x.over(): ended = True; break
        if i == pings: break
        x.ping()
    if b.symbolic:
        class Rep:
            def __init__(self, **k): self.__dict__.update(k)
        Rep.pyvc_model = True; b.stub(ph, 'Result', Rep)
    out = b.ensure_ok(b.call(ph.finalize, x.k))
    b.ensure('mean interval', b.eq(out.avg_interval, x.interval)); b.ensure('mean channel delay', b.eq(out.avg_delay, x.delay))
    # in a run ended before its limit the last ping may count as missed already or not yet
    b.ensure('miss rate: the share of pings without a pong', b.Or(b.eq(out.miss_rate, (x.sent - x.ack) / x.sent), not ended and b.eq(out.miss_rate, x.missed / x.sent)))


@case('C25', 'reports after any number of pings', mode='sym')
def any_report(b):
    from pyvc.seq import Const
    w = []; patch(b, w); x = World.__new__(World); w.append(x); World.__init__(x, b, None)
    n, m = b.int('intervals', 1), b.int('transmissions', 1)
    b.need(x.c, 'intervals_list'); b.need(x.m.channel, 'delays_list')
    b.set(x.c, intervals_list=Const(b, 'intervals', x.interval, n)); b.set(x.m.channel, delays_list=Const(b, 'transmissions', x.delay, m))
    sent, ack = b.int('sent', 1), b.int('acknowledged', 0); b.assume(b.le(ack, sent)); b.set(x.c, num_pings_sent=sent, num_acknowledged=ack, num_missed=sent - ack)
    class Rep:
        def __init__(self, **k): self.__dict__.update(k)
    Rep.pyvc_model = True; b.stub(ph, 'Result', Rep)
    out = b.ensure_ok(b.call(ph.finalize, x.k))
    b.ensure('mean interval', b.eq(out.avg_interval, x.interval), False); b.ensure('mean channel delay', b.eq(out.avg_delay, x.delay), False)
    b.ensure('miss rate: the share of pings without a pong', b.eq(out.miss_rate * sent, sent - ack), False)


def full(b, **cfg): return b.ensure_ok(b.call(pc.run_model, po.Config(**cfg), sm.ModelLoggerConfig()))


@case('C25', 'whole runs on the real kernel', mode='native', samples=150, thorough=3000, bound='150 runs of up to 200 pings (3000 in the thorough tier)', budget=40)
def runs(b):
    limit = b.int('limit', 1, 200); loss = b.choice('loss', [0, 1, None]); loss = b.real('some loss', 0, 1) if loss is None else float(loss)
    i, d, s = (b.choice(n + ' none', [False] * 4 + [True]) and 0.0 or b.real(n, 0.001, 50) for n in ('interval', 'channel delay', 'service delay'))
    us, orig = [], random.random
    def rec(): us.append(orig()); return us[-1]
    random.random = rec; last = []; fin = pc.finalize
    def keep(sim): last.append(sim); return fin(sim)
    pc.finalize = keep
    try: out = full(b, interval=i, channel_delay=d, service_delay=s, loss_prob=loss, max_pings=limit)
    finally: random.random = orig; pc.finalize = fin
    b.ensure('one draw per ping', len(us) == limit)
    ok = sum(u > loss for u in us)
    b.ensure('miss rate', abs(out.miss_rate - (limit - ok) / limit) <= 1e-9); b.ensure('means', abs(out.avg_interval - i) <= 1e-9 * (1 + i) and abs(out.avg_delay - d) <= 1e-9 * (1 + d))
    if not last: raise Unsupported('finalize was not called')
    t = limit * (i + d) + ok * (s + d)
    b.ensure('the run stops when the limit is reached', abs(last[0].time - t) <= 1e-9 * (1 + t))
    c = last[0].context.client
    b.ensure('counts', (c.num_pings_sent, c.num_acknowledged, c.num_bad_pongs, c.num_missed) == (limit, ok, 0, limit - ok))


@case('C25', 'whole runs: share of lost pings', mode='native', samples=12, thorough=100, bound='12 runs of 2000 pings, 6.5 standard deviations', randomize=False, budget=40)
def share(b):
    p = b.choice('loss', [0.0, 0.05, 0.3, 0.5, 0.9, 1.0]); n = 2000
    out = full(b, interval=1, channel_delay=b.choice('delay', [0, 1]), service_delay=1, loss_prob=p, max_pings=n)
    b.ensure('the share of lost pings is the loss probability', abs(out.miss_rate - p) <= 6.5 * (p * (1 - p) / n) ** 0.5 + 1e-9)
