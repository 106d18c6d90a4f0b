"""Shared pieces of the kernel contracts (C01-C04): symbolic queue set-up, run-loop contract, native reference monitor."""
import itertools, random, time
import z3
from pyvc.engine import SpecMismatch
from pyvc.sym import Sym, Atom, z, fold
from pyvc import pqueue
from pyvc.pqueue import Store, TaskAtom, I_, R_, B_
import pysim.sim.simulator as S
from pysim.sim.simulator import EventQueue, Kernel, Simulator, ExitReason


def sym_queue(b):
    """An EventQueue in an arbitrary well-formed state of any size, as (queue, ghost store)."""
    q = EventQueue()
    for name, t in (('_event_list', list), ('_event_dict', dict), ('_next_id', itertools.count)):
        if not isinstance(getattr(q, name, None), t): raise SpecMismatch(f'EventQueue.{name} is not a {t.__name__}')
    s = Store(b)
    q._event_list = pqueue.Heap(s); q._event_dict = pqueue.Map(s); q._next_id = pqueue.Counter(s)
    b.loop('*', None, pqueue.DropDead(s))
    return q, s


def forall(f, *pats):
    j = z3.Int('j')
    return Sym(z3.ForAll([j], f(j)))


def same_live(b, name, s, s0, but=None, plus=None):
    """every event other than `but` is pending exactly when it was, with its time and task"""
    j = z3.Int('j')
    cond = (j != but) if but is not None else z3.BoolVal(True)
    b.ensure(name + ': other events stay exactly as they were', Sym(z3.ForAll([j], z3.Implies(cond, z3.And(
        s.live[j] == s0.live[j], z3.Implies(s0.live[j], z3.And(s.T[j] == s0.T[j], s.P[j] == s0.P[j], s.none[j] == s0.none[j])))))))


def well_formed(b, name, s):
    for i, t in enumerate(s.wf()):
        b.ensure(f'{name}: representation invariant {("pending entries are in the heap", "identifiers below the counter", "entries left behind are cleared")[i]}', Sym(t))


# ------------------------------------------------------------------------------------------------ run loop
class World:
    """Kernel whose queue is the abstract event set (EventQueue contracts), any number of events, any handlers."""
    def __init__(self, b, limits=True):
        self.b = b; self.p = b.p
        k = Kernel('proof'); self.k = k
        b.need(k, '_sim_time', '_queue', '_num_events_served', '_user_stop', 'stop_reason', 'stop_msg', 'lhandler', '_max_sim_time', '_max_real_time', '_max_num_events')
        from pyvc.models import Log
        k._logger = Log()
        s = self.s = Store(b); self.popped = None; self.captured = None; self.args = (Atom('arg1'), Atom('arg2'))
        self.running = False; self.count = 0; self.last_T = None; self.stopped = False; self.msg = Atom('stop message')
        self.after_event = 0; self.H = Atom('handler'); self.H.callable = True; self.H.on_call = self.handle
        self.finals = 0; self.inside = False
        Q = EventQueue
        b.stub(Q, 'pop', self.q_pop); b.stub(Q, 'push', self.q_push); b.stub(Q, 'cancel', self.q_cancel)
        b.stub(Q, 'empty', lambda q: fold(s_size(self.s) == 0)); b.stub(Q, '__len__', lambda q: Sym(self.s.size))
        b.loop('*', None, self)
        # what the real schedule() hands to the queue: the shape of a task is learnt, not assumed
        k._sim_time = b.real('t now', 0)
        self.sched = b.ensure_ok(b.call(k.schedule, b.real('delay', 0), self.H, self.args, 'note'), 'schedule')
        self.task = self.captured
        b.assume(self.sched is not None)
        s = self.s = Store(b)
        self.clock0 = len(clocks(self.p))

    # contracts of the queue
    def q_pop(self, q):
        s = self.s; p = self.p
        if p.decide(s.size <= 0): raise KeyError('empty')
        k = p.fresh('ev', 'int')[1]; j = z3.Int('j')
        p.add(s.live[k]); p.add(z3.ForAll([j], z3.Implies(s.live[j], s.lex(k, j)), patterns=[s.live[j]]))
        s.live = s.named('live', z3.Store(s.live, k, z3.BoolVal(False))); s.size = s.named('size', s.size - 1); s.size_axioms()
        self.popped = k
        return (Sym(s.T[k]), Sym(k), self.task)

    def q_push(self, q, time, task):
        self.captured = task; self.pushed_at = time
        return self.b.int('id', 0)

    def q_cancel(self, q, i): return None

    def handle(self, *args):
        b, s, k = self.b, self.s, self.k
        b.ensure('handler gets the simulator and exactly the scheduled arguments', len(args) == 3 and isinstance(args[0], Simulator) and args[1] is self.args[0] and args[2] is self.args[1])
        b.ensure('an event taken off the queue is handled', self.popped is not None)
        ev = self.popped; self.popped = None
        now = b.interp.getattr(args[0], 'time')
        b.ensure('the clock shows the time the event was scheduled for', Sym(z(now, 'real') == s.T[ev]))
        b.ensure('the clock did not move backwards', Sym(z(now, 'real') >= z(self.before, 'real')))
        if k._max_sim_time is not None:
            b.ensure('no event starts once the model time has passed max_sim_time', b.le(self.before, k._max_sim_time))
        if k._max_num_events is not None:
            b.ensure('no event starts once max_num_events have been processed', b.lt(self.count, k._max_num_events))
        b.ensure('no event starts after a stop request', b.Not(self.stopped))
        if k._max_real_time is not None:
            cl = clocks(self.p)
            b.ensure('the real time was read before the event starts', len(cl) > self.after_event)
            if len(cl) > self.after_event:
                b.ensure('no event starts once real time has passed max_real_time', Sym(cl[-1] - self.t_start <= z(k._max_real_time, 'real')))
        # the handler may schedule and cancel anything, and may stop the run
        p = self.p; n0, live0, T0 = s.n, s.live, s.T; j = z3.Int('j')
        s.n = p.fresh('q.n', 'int')[1]; p.add(s.n >= n0)
        s.live = z3.Const(p.fresh('q.live', 'int')[0], z3.ArraySort(I_, B_)); s.T = z3.Const(p.fresh('q.T', 'int')[0], z3.ArraySort(I_, R_))
        s.size = p.fresh('q.size', 'int')[1]
        p.add(z3.ForAll([j], z3.Implies(s.live[j], z3.And(j < s.n, z3.If(j < n0, z3.And(live0[j], s.T[j] == T0[j]), s.T[j] >= z(now, 'real')))), patterns=[s.live[j]]))
        s.size_axioms()
        if p.choose(2):
            b.ensure_ok(b.call(Simulator.stop, args[0], self.msg), 'stop'); self.stopped = True
        self.count = self.count + 1; self.last_T = now; self.after_event = len(clocks(p))
        return None

    # loop contract
    def fits(self, interp, node, env): return self.running and not self.inside      # the event loop; loops in its body are executed as they are

    def enter(self, st): pass

    def havoc(self, st):
        b, p, k = self.b, self.p, self.k; self.inside = True
        first = p.choose(2) == 0
        s = self.s
        s.n = p.fresh('q.n', 'int')[1]; p.add(s.n >= 0)
        s.live = z3.Const(p.fresh('q.live', 'int')[0], z3.ArraySort(I_, B_)); s.T = z3.Const(p.fresh('q.T', 'int')[0], z3.ArraySort(I_, R_)); s.size = p.fresh('q.size', 'int')[1]
        s.size_axioms()
        self.stopped = bool(p.choose(2))
        if first:
            self.count = 0; self.last_T = None; k._sim_time = self.t0; k._num_events_served = 0; k.lhandler = self.lh0
        else:
            self.count = Sym(p.fresh('served', 'int')[1]); p.add(self.count.z > 0)
            self.last_T = Sym(p.fresh('last time', 'real')[1]); k._sim_time = self.last_T
            k._num_events_served = self.count; k.lhandler = self.H
        k._user_stop = self.stopped; k.stop_reason = ExitReason.STOPPED if self.stopped else None; k.stop_msg = self.msg if self.stopped else ''
        self.before = k._sim_time; self.popped = None; self.after_event = len(clocks(p))

    def invariant(self, st):
        b, s, k = self.b, self.s, self.k; j = z3.Int('j')
        return [('events handled are counted', b.eq(k._num_events_served, self.count)),
                ('the clock stays at the last event', b.eq(k._sim_time, self.t0 if self.last_T is None else self.last_T)),
                ('the last handler is remembered', k.lhandler is (self.lh0 if self.last_T is None else self.H)),
                ('stop request and message are kept', bool(k._user_stop) == self.stopped and (k.stop_msg is self.msg if self.stopped else k.stop_msg == '') and k.stop_reason is (ExitReason.STOPPED if self.stopped else None)),
                ('pending events lie in the future', Sym(z3.ForAll([j], z3.Implies(s.live[j], s.T[j] >= z(k._sim_time, 'real')), patterns=[s.live[j]]))),
                ('nothing taken off the queue is dropped', self.popped is None)]

    def run(self, fin=None, init_stops=False):
        """build_runner driven to its result; returns (ExecutionStats, context, fin result)"""
        b, p, k, s = self.b, self.p, self.k, self.s
        self.t0 = k._sim_time = b.real('t start', 0); self.before = self.t0; self.lh0 = k.lhandler
        k._max_sim_time = b.real('max_sim_time', 0) if p.choose(2) else None
        k._max_real_time = b.real('max_real_time', 0) if p.choose(2) else None
        k._max_num_events = b.int('max_num_events', 0) if p.choose(2) else None
        self.inits = 0; self.ctx = Atom('context')

        def initializer(sim, *a):
            self.inits += 1
            b.ensure('the initializer runs once, first, with its arguments', self.inits == 1 and a == (self.args[0],))
            b.interp.setattr(sim, 'context', self.ctx)
            s.n = p.fresh('q.n', 'int')[1]; p.add(s.n >= 0); j = z3.Int('j')
            s.live = z3.Const(p.fresh('q.live', 'int')[0], z3.ArraySort(I_, B_)); s.T = z3.Const(p.fresh('q.T', 'int')[0], z3.ArraySort(I_, R_)); s.size = p.fresh('q.size', 'int')[1]
            p.add(z3.ForAll([j], z3.Implies(s.live[j], s.T[j] >= z(self.t0, 'real')), patterns=[s.live[j]])); s.size_axioms()
            if p.choose(2): b.ensure_ok(b.call(Simulator.stop, sim, self.msg), 'stop'); self.stopped = True
            self.after_event = len(clocks(p))
        init = Atom('init'); init.callable = True; init.on_call = initializer
        b.ensure_ok(b.call(k.set_initializer, init, (self.args[0],)))
        self.finr = Atom('finalizer result')

        def finalizer(sim):
            self.finals += 1
            b.ensure('the finalizer runs after the loop with the simulator', isinstance(sim, Simulator) and not self.in_loop())
            return self.finr
        if fin:
            f = Atom('fin'); f.callable = True; f.on_call = finalizer
            b.ensure_ok(b.call(k.set_finalizer, f))
        gen = b.ensure_ok(b.call(k.build_runner))
        self.running = True
        n0 = len(clocks(p))
        # the real start time is the first clock reading of the run
        self.t_start_index = n0
        res = b.call(next, gen)
        out = b.ensure_ok(res, 'run')
        return out, gen

    def in_loop(self): return self.popped is not None

    @property
    def t_start(self): return clocks(self.p)[self.t_start_index]


def s_size(s): return s.size
def clocks(p):
    if not hasattr(p, 'clocks'): p.clocks = []
    return p.clocks


# ------------------------------------------------------------------------------------------------ native monitor
class FakeClock:
    """real time under the control of the test, for every way of reading it"""
    NAMES = ('time', 'monotonic', 'perf_counter', 'process_time')

    def __init__(self): self.now = 1000.0

    def __enter__(self):
        self.saved = [(time, n, getattr(time, n)) for n in self.NAMES]
        self.saved += [(S, n, v) for n, v in vars(S).items() for _, m, f in self.saved if v is f]
        for m, n, f in self.saved: setattr(m, n, lambda: self.now)
        return self

    def __exit__(self, *a):
        for m, n, f in self.saved: setattr(m, n, f)


class Program:
    """A random handler program executed by the real simulator next to a reference list of pending events."""

    def __init__(self, b, seed, focus, clock=None, limits=None, bad=True):
        self.b = b; self.r = random.Random(seed); self.focus = focus; self.pending = {}; self.seq = itertools.count(); self.ids = []
        self.used = set(); self.executed = []; self.stopped = None; self.time = 0.0; self.last = None; self.clock = clock
        self.limits = limits or {}; self.bad = bad; self.budget = 40; self.fin_calls = 0; self.delays = self.r.choice([[0, 1], [0, .5, 1, 1, 2], [0.1, 0.2, 0.3, 0.7], [0, 3, 1e-9, 1e6], [0], [1e-12, 1e-10, 0, 3e-7], None])
        self.burst = self.r.choice([0] * 9 + [80, 300])
        self.handlers = [self.make(i) for i in range(4)]; self.stop_rate = self.r.choice([0, 0, .03, .1]); self.kernel = None; self.ctxval = None

    def ok(self, prop, name, cond):
        if self.focus == prop: self.b.ensure(name, cond)

    def make(self, i):
        def handler(sim, label=None, *rest): return self.on_event(sim, i, label, rest)
        return handler

    def request(self, sim, now):
        r = self.r
        lab = next(self.seq); h = r.randrange(4); extra = tuple(r.sample(['x', 1, None], r.randrange(3))); d = r.choice(self.delays) if self.delays else r.choice([r.random(), r.uniform(0, 1e-6), r.uniform(0, 1e3)])
        form = r.choice([tuple, tuple, list])
        if r.random() < .3: i = sim.call(self.handlers[h], form((lab,) + extra)); d = 0
        else: i = sim.schedule(d, self.handlers[h], form((lab,) + extra))
        self.ok('C02', 'identifiers are never reused', i is not None and i not in self.used)
        self.used.add(i); self.ids.append(i); self.pending[lab] = (now + d, lab, i, h, extra)

    def plan(self, sim):
        r = self.r; now = self.time
        if self.burst > 0:
            # many events at once, most of them cancelled again
            for _ in range(self.burst): self.request(sim, now)
            self.burst = -1
        elif self.burst < 0 and self.pending:
            for l in r.sample(list(self.pending), len(self.pending) * r.choice([5, 8, 9]) // 10):
                self.ok('C02', 'cancel reports 1 exactly for a pending event', sim.cancel(self.pending[l][2]) == 1); del self.pending[l]
            self.burst = 0
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.random()
            if self.budget <= 0 and k < .6: continue
            if k < .6:
                self.budget -= 1; self.request(sim, now)
            elif k < .85:
                x = r.random()
                i = r.choice(self.ids) if self.ids and x < .8 else r.choice([10 ** 6, None, -1, 'x'])
                hit = [l for l, e in self.pending.items() if e[2] == i and i is not None]
                n = sim.cancel(i)
                self.ok('C02', 'cancel reports 1 exactly for a pending event', n == (1 if hit else 0))
                for l in hit: del self.pending[l]
            elif k < .85 + self.stop_rate:
                m = r.choice(['done', '', 'why not'])
                sim.stop(m); self.stopped = m
            elif self.bad and k < .97: self.bad_request(sim)
        if self.clock is not None: self.clock.now += r.choice([0, .2, 1])

    def bad_request(self, sim):
        r = self.r; h = self.handlers[0]
        kind = r.choice(['past', 'none', 'call', 'args', 'delay'])
        n = len(self.kernel._queue) if self.kernel is not None else None
        exc = None; ret = None
        try:
            if kind == 'past': ret = sim.schedule(-r.choice([1e-9, 1, 5]), h)
            elif kind == 'none': ret = r.choice([lambda: sim.schedule(1, None), lambda: sim.call(None)])()
            elif kind == 'call': ret = r.choice([lambda: sim.schedule(1, 'handler'), lambda: sim.call(5)])()
            elif kind == 'args': ret = r.choice([lambda: sim.schedule(0, h, 7), lambda: sim.call(h, 3.5)])()
            else: ret = sim.schedule(None, h)
        except Exception as e: exc = e
        want = {'past': S.SchedulingInPastError, 'none': ValueError, 'call': TypeError, 'args': TypeError, 'delay': None}[kind]
        self.ok('C03', f'bad request refused: {kind}', isinstance(exc, want) if want else exc is None and ret is None)
        if n is not None: self.ok('C03', 'a refused request schedules nothing', len(self.kernel._queue) == n)

    def on_event(self, sim, i, label, rest):
        p = self.pending; L = self.limits
        known = label in p
        self.ok('C02', 'a delivered event was pending (not cancelled, not delivered twice)', known)
        self.ok('C03', 'a delivered event was scheduled', known)
        if known:
            t, seq, eid, h, extra = p.pop(label)
            self.ok('C01', 'no pending event comes before the one executed', all((t, seq) <= (e[0], e[1]) for e in p.values()))
            self.ok('C01', 'the clock shows the time the event was scheduled for', sim.time == t)
            self.ok('C01', 'the clock does not move backwards', t >= self.time)
            self.ok('C03', 'the event runs at now + delay', sim.time == t)
            self.ok('C03', 'the scheduled handler runs with the scheduled arguments', h == i and extra == rest)
            mx = L.get('max_sim_time')
            self.ok('C04', 'no event starts once the model time has passed max_sim_time', mx is None or self.time <= mx)
            mr = L.get('max_real_time')
            self.ok('C04', 'no event starts once real time has passed max_real_time', mr is None or self.clock is None or self.clock.now - self.t_start <= mr)
            mn = L.get('max_num_events')
            self.ok('C04', 'no more events than max_num_events', mn is None or len(self.executed) < mn)
            self.time = t
        self.ok('C04', 'no event starts after a stop request', self.stopped is None)
        if self.kernel is not None: self.ok('C02', 'the queue length is the number of pending events', len(self.kernel._queue) == len(p) and self.kernel._queue.empty == (not p))
        self.executed.append(label); self.last = self.handlers[i]
        self.plan(sim)

    def run(self):
        b, r = self.b, self.r
        def init(sim, *a):
            self.kernel = getattr(sim, '_kernel', None)
            if not hasattr(self.kernel, '_queue'): self.kernel = None
            self.ok('C04', 'the initializer gets its arguments', a == (1, 'two'))
            if self.ctx_in is None: sim.context['k'] = 5
            self.plan(sim)
            for _ in range(r.randrange(3)): self.plan(sim)
        def fin(sim):
            self.fin_calls += 1; self.at_fin = (len(self.executed), sim.time); return ('fin', len(self.executed))
        self.ctx_in = r.choice([None, {'given': 1}])
        use_fin = r.random() < .6
        self.t_start = self.clock.now if self.clock else None
        try:
            res = S.run_simulation(S.build_simulation('prog', init, (1, 'two'), fin=fin if use_fin else None, context=self.ctx_in, **self.limits))
        except Exception as e:
            import traceback
            self.ok(self.focus, f'the run does not fail: {type(e).__name__}: {e}', False); b.trace.append(traceback.format_exc()[-800:]); return
        st, ctx, fr = res; n = len(self.executed); L = self.limits
        if self.focus == 'C02':
            b.ensure('a run that ended because nothing is pending leaves nothing pending', st.exit_reason is not S.ExitReason.NO_MORE_EVENTS or not self.pending)
            if self.kernel is not None: b.ensure('final queue length', len(self.kernel._queue) == len(self.pending))
            if not self.limits and self.stopped is None: b.ensure('every event was delivered', not self.pending)
        if self.focus == 'C01': b.ensure('final clock', st.sim_time == self.time)
        if self.focus == 'C03': b.ensure('everything scheduled was delivered unless the run was stopped', bool(self.limits) or self.stopped is not None or not self.pending)
        if self.focus != 'C04': return
        b.ensure('number of events executed', st.num_events_processed == n)
        b.ensure('model time of the last event', st.sim_time == self.time)
        b.ensure('last handler', st.last_handler is self.last)
        R = S.ExitReason
        true = set()
        if not self.pending: true.add('NO_MORE_EVENTS')
        if self.stopped is not None: true.add('STOPPED')
        if L.get('max_sim_time') is not None and self.time > L['max_sim_time']: true.add('REACHED_SIM_TIME_LIMIT')
        if L.get('max_real_time') is not None and self.clock and self.clock.now - self.t_start > L['max_real_time']: true.add('REACHED_REAL_TIME_LIMIT')
        if L.get('max_num_events') is not None and n >= L['max_num_events']: true.add('NUM')
        b.ensure('the run ends only for one of the documented reasons', bool(true))
        nm = getattr(st.exit_reason, 'name', None)
        if nm not in ('NO_MORE_EVENTS', 'STOPPED', 'REACHED_SIM_TIME_LIMIT', 'REACHED_REAL_TIME_LIMIT', 'INTERRUPTED', None): nm = 'NUM'
        b.ensure('the exit reason is a condition that really ended the run', nm in true)
        b.ensure('stop message', st.stop_message == (self.stopped or ''))
        b.ensure('context', ctx is self.ctx_in if self.ctx_in is not None else ctx == {'k': 5})
        b.ensure('finalizer runs exactly once, after the last event', self.fin_calls == (1 if use_fin else 0) and (not use_fin or self.at_fin == (n, self.time)))
        b.ensure('finalizer result', fr == (('fin', n) if use_fin else None))


def long_history(b):
    """one queue through a long life: up to tens of thousands of events, thousands of them pending at a time"""
    import heapq
    r = random.Random(b.int('program seed', 0, 2 ** 31)); q = EventQueue()
    total = b.choice('events', [72000, 9000]); live = {}; order = []; used = set(); n = 0; wave = 0
    while n < total:
        wave += 1; width = r.choice([3, 40, 900, 5000, 5000]); base = wave // 2
        for _ in range(width):
            t = base + (r.choice([0, 1, 2, 7]) if r.random() < .5 else r.uniform(0, 9)); task = ('task', n); i = q.push(t, task)
            if i in used: b.ensure('identifiers are never reused', False)
            used.add(i); live[i] = (t, n, task); heapq.heappush(order, (t, n, i)); n += 1
        gone = r.choice([0, .2, .5, .8, .99]); ids = list(live)
        for i in (r.sample(ids, int(len(ids) * gone)) if r.random() < .7 else sorted(ids, key=lambda x: live[x][:2])[:int(len(ids) * gone)]):
            q.cancel(i); del live[i]
        if len(q) != len(live): b.ensure('length is the number of pending events', False)
        for _ in range(int(len(live) * r.choice([0, .3, .9, 1])) if len(live) < 20000 else len(live)):
            out = b.call(q.pop)
            if out.exc is not None: b.ensure('a queue that is not empty can be popped', False)
            while order[0][2] not in live or live[order[0][2]][1] != order[0][1]: heapq.heappop(order)
            t, k, i = heapq.heappop(order)
            if tuple(out.value) != (t, i, live[i][2]): b.ensure('pop yields the least live (time, order) with its task', False)
            del live[i]
    b.ensure('length is the number of pending events', len(q) == len(live) and q.empty == (not live))
    while live:
        out = b.call(q.pop)
        while order[0][2] not in live or live[order[0][2]][1] != order[0][1]: heapq.heappop(order)
        t, k, i = heapq.heappop(order)
        if out.exc is not None or tuple(out.value) != (t, i, live[i][2]): b.ensure('the rest comes out in order', False)
        del live[i]
    b.ensure('popping an empty queue raises KeyError', b.call(q.pop).raised(KeyError))


def random_limits(r):
    L = {}
    if r.random() < .4: L['max_sim_time'] = r.choice([0, 1, 2.5, 5])
    if r.random() < .3: L['max_real_time'] = r.choice([0, .5, 3])
    if r.random() < .4: L['max_num_events'] = r.choice([0, 1, 3, 10])
    return L
