"""C04 A run stops for the documented reasons and reports what really happened."""
import random
import z3
from pyvc.runner import case
from pyvc.sym import Sym, Atom, z
from specs import kern, c01
from specs.kern import EventQueue, Kernel, Simulator, ExitReason
import pysim.sim.simulator as S

ASSUME = c01.ASSUME + ['real time does not run backwards', 'one handler object stands for all handlers (the loop treats them alike)']


@case('C04', 'run loop with every combination of limits: when events start, and what the result reports', mode='sym', shards=8)
def run_contract(b):
    fin = b.choice('finalizer', [False, True])
    w = kern.World(b)
    (st, ctx, fr), gen = w.run(fin)
    k, p, s = w.k, w.p, w.s
    b.ensure('number of events executed', b.eq(st.num_events_processed, w.count))
    b.ensure('model time of the last event', b.eq(st.sim_time, w.t0 if w.last_T is None else w.last_T))
    b.ensure('last handler', st.last_handler is (w.lh0 if w.last_T is None else w.H))
    b.ensure('stop message', st.stop_message is w.msg if w.stopped else st.stop_message == '')
    b.ensure('context', ctx is w.ctx)
    b.ensure('finalizer result', fr is (w.finr if fin else None))
    b.ensure('finalizer runs exactly once', w.finals == (1 if fin else 0))
    r = st.exit_reason; nm = getattr(r, 'name', None)
    b.ensure('an exit reason is given', nm is not None)
    true = {'NO_MORE_EVENTS': Sym(s.size == 0), 'STOPPED': w.stopped}
    if k._max_sim_time is not None: true['REACHED_SIM_TIME_LIMIT'] = b.lt(k._max_sim_time, st.sim_time)
    if k._max_real_time is not None: true['REACHED_REAL_TIME_LIMIT'] = Sym(z3.Or([c - w.t_start > z(k._max_real_time, 'real') for c in kern.clocks(p)]))
    if nm in ('NO_MORE_EVENTS', 'STOPPED', 'REACHED_SIM_TIME_LIMIT', 'REACHED_REAL_TIME_LIMIT'):
        b.ensure('the exit reason is a condition that really holds', true.get(nm, False))
    elif nm is not None:
        b.ensure('the event-count reason is given only when the count is reached', False if k._max_num_events is None else b.le(k._max_num_events, w.count))
    b.ensure('the run yields exactly one result', b.call(next, gen).raised(StopIteration))


@case('C04', 'build_simulation passes every limit, finalizer, initializer and context to the kernel', samples=60)
def build(b):
    L = {}
    if b.choice('sim limit', [True, False]): L['max_sim_time'] = b.real('max_sim_time', 0, 100)
    if b.choice('real limit', [True, False]): L['max_real_time'] = b.real('max_real_time', 0, 100)
    if b.choice('count limit', [True, False]): L['max_num_events'] = b.int('max_num_events', 0, 100)
    got = {}
    if b.symbolic:
        from pyvc.models import Log
        import pysim.sim.logger as lg
        b.stub(Kernel, 'logger', lambda k: Log())
        for m in ('setup', 'debug', 'info', 'set_time_getter'): b.stub(lg.ModelLogger, m, lambda *a, **k: None)

    def runner(k, *a, **kw):
        got['k'] = k; return iter(())
    b.stub(Kernel, 'build_runner', runner)
    init = lambda sim: None
    fin = (lambda sim: None) if b.choice('finalizer', [True, False]) else None
    ctx = b.choice('context', [None, {}, {'a': 1}])
    b.ensure_ok(b.call(S.build_simulation, 'm', init, (1, 2), fin, ctx, **L))
    k = got.get('k'); b.ensure('a runner is built', k is not None)
    b.need(k, '_max_sim_time', '_max_real_time', '_max_num_events', '_initializer', '_initializer_args', '_finalize', 'context')
    for n in ('max_sim_time', 'max_real_time', 'max_num_events'): b.ensure(n, b.eq(getattr(k, '_' + n), L.get(n)))
    b.ensure('initializer', k._initializer is init and tuple(k._initializer_args) == (1, 2))
    b.ensure('finalizer', k._finalize is fin)
    b.ensure('context', k.context is ctx)


@case('C04', 'run_simulation returns the last result, or raises RuntimeError when there is none', samples=30)
def run_sim(b):
    n = b.choice('results', [0, 1, 2, 4])
    rs = [(i, None, None) for i in range(n)]
    out = b.call(S.run_simulation, iter(rs))
    if n == 0: b.ensure('no result raises RuntimeError', out.raised(RuntimeError))
    else: b.ensure('the last result is returned', out.ok and out.value is rs[-1])


@case('C04', 'random handler programs with limits and a controlled real clock against a reference', mode='native', samples=700, bound='random handler programs of up to 40 events')
def programs(b):
    s = b.int('program seed', 0, 2 ** 31); r = random.Random(s + 1)
    with kern.FakeClock() as c:
        kern.Program(b, s, 'C04', clock=c, limits=kern.random_limits(r), bad=False).run()
