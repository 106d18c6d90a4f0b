"""C24 Matrix Monte-Carlo and analytic models describe the same stage process."""
import ast, random
from fractions import Fraction
import numpy as np
from pyvc import pw
from pyvc import sym as S
from pyvc.runner import case
from pyvc.sym import Sym, Unsupported
import pysim.models.tag_time.mc as mc
import pysim.models.tag_time.analitical_model as am

ASSUME = ['np.cumsum, np.zeros, np.dot and the elementwise numpy operators as documented', 'success probabilities above 0 for the expected times; native comparisons use probabilities of at least 1e-8 and a relative tolerance of 1e-7',
          'all chunk stages of scenario 3 are alike, as the model documents']
SIZES = 'up to 6 stages in the proof, up to 130 in the native runs; the case for any number of stages has no bound'


def series(b, n, lo=0):
    return [b.real(f'p{i}', lo, 1) for i in range(n)], [b.real(f't{i}', 0, 10) for i in range(n)]


def row(b, scenario, P, s):
    """the row of stage s, cumulative"""
    n = len(P); r = [0] * (n + 1)
    if s == n: r[n] = 1
    else: r[0 if scenario == 1 else s] = 1 - P[s]; r[s + 1] = P[s]
    out, t = [], 0
    for x in r: t = t + x; out.append(t)
    return out


def matrices(b, scenario, probs):
    return b.ensure_ok(b.call(mc.create_input_probs, scenario, probs))


@case('C24', 'transition matrices of the three scenarios', samples=400, shards=4, bound=SIZES)
def matrix(b):
    scenario = b.choice('scenario', [1, 2, 3]); n = b.choice('stages', [1, 2, 3, 4, 6] if b.symbolic else [1, 2, 3, 4, 6, 5, 7, 13, 40, 130])
    P, T = series(b, n)
    how = b.choice('built', ['one', 'list', 'sequence'])
    if how == 'one': ms = [b.ensure_ok(b.call(mc.create_matrix_1, *P) if scenario == 1 else b.call(mc.create_matrix_2, *P) if scenario == 2 else b.call(mc.create_matrix_3, P))]; Ps = [P]
    else:
        Ps = [P, P[:-1] + [1 - P[-1]], list(P), list(reversed(P)), [1 - x for x in P]][:1 if how == 'list' else 5]; ms = matrices(b, scenario, Ps)
    b.ensure('one matrix per list of probabilities, in order', len(ms) == len(Ps))
    for m, Q in zip(ms, Ps):
        b.ensure('one row and column per stage and the final one', len(m) == n + 1 and all(len(r) == n + 1 for r in m))
        for s in range(n + 1): b.ensure('each row holds the running sums of its transition probabilities', b.eq(list(m[s]), row(b, scenario, Q, s)))


class Trial:
    """the process: what a draw does to the stage, and the time spent"""
    def __init__(self, b, M, T, most): self.b, self.M, self.T, self.most = b, M, T, most; self.state, self.total, self.draws, self.done = 0, b.num(0), 0, []
    def draw(self):
        b = self.b
        if self.state == len(self.M) - 1: self.done.append(self.total); self.state, self.total = 0, b.num(0)
        self.draws += 1
        if self.draws > self.most: b.assume(False)
        u = b.real('draw', 0, 1) if b.symbolic else b.real('draw', 0, 0.9999999)
        b.assume(b.lt(u, 1))
        self.total = self.total + self.T[self.state]
        for j, c in enumerate(self.M[self.state]):
            d = b.lt(u, c)
            if b.p.decide(d.z) if isinstance(d, Sym) else d: self.state = j; break
        return u


def patch(b, t):
    def rnd(*a): return t[-1].draw()
    rnd.pyvc_model = True
    for o in (np.random, random): b.stub(o, 'random', rnd)
    b.stub(np.random, 'rand', rnd)


@case('C24', 'Monte-Carlo: a history of draws', samples=300, shards=8, bound='up to 5 draws over 1 to 3 trials in the proof, 400 draws in the native runs')
def trials(b):
    n = b.choice('stages', [1, 2, 3] if b.symbolic else [1, 2, 3, 4, 9]); scenario = b.choice('scenario', [1, 2]); k = b.choice('trials', [1, 2, 3] if b.symbolic else [1, 2, 3, 5, 12])
    P, T = series(b, n, 0 if b.symbolic else 0.5)
    M = [row(b, scenario, P, s) for s in range(n + 1)]
    t = [Trial(b, M, T, 5 if b.symbolic else 400)]; patch(b, t)
    out = b.ensure_ok(b.call(mc.monte_carlo, np.array(M, dtype=object if b.symbolic else float), T, k))
    t = t[0]
    if not t.draws: raise Unsupported('no draw seen')
    b.ensure('every trial ends in the final stage', t.state == n and len(t.done) == k - 1)
    b.ensure('the mean of the times of the stages visited, in milliseconds', b.eq(out, sum(t.done + [t.total], b.num(0)) * 1000 / k))


@case('C24', 'Monte-Carlo: thousands of trials', mode='native', samples=16, thorough=60, bound='16 runs of 1 to 6000 trials, up to 130 stages')
def many(b):
    n = b.choice('stages', [1, 4, 130]); scenario = b.choice('scenario', [1, 2]); k = b.choice('trials', [1, 999, 1001, 2500, 6000] if n < 9 else [1, 9, 30]); P, T = series(b, n, 0.5 if n < 9 else 0.97)
    M = [row(b, scenario, P, s) for s in range(n + 1)]; r = random.Random(b.choice('seed', list(range(20)))); t = Trial(b, M, T, 10 ** 7)
    t.b = type('B', (), dict(symbolic=False, num=staticmethod(float), real=staticmethod(lambda *a: r.random()), assume=staticmethod(lambda c: None), lt=staticmethod(lambda x, y: x < y)))
    t = [t]; patch(b, t)
    out = b.ensure_ok(b.call(mc.monte_carlo, np.array(M), T, k)); t = t[0]
    if not t.draws: raise Unsupported('no draw seen')
    b.ensure('every trial was run', len(t.done) == k - 1)
    b.ensure('the mean of the times of the stages visited', abs(out - sum(t.done + [t.total]) * 1000 / k) <= 1e-7 * (1 + abs(out)))


class Steps:
    """contract of the loop of one trial, whatever the number of draws: its variables hold the stage reached and the time spent"""
    def __init__(self, b, t, n): self.b, self.t, self.n = b, t, n
    def fits(self, I, s, env): return isinstance(s, ast.While) and env.globals.get('__name__') == mc.__name__
    def enter(self, st):
        test = {n.id for n in ast.walk(st.node.test) if isinstance(n, ast.Name)}
        start = [v for v in sorted(st.assigned) if is_zero(st.locals.get(v))]
        self.stage, self.time = ([v for v in start if (v in test) == w] for w in (True, False))
        if len(self.stage) != 1 or len(self.time) != 1: raise Unsupported('other loop variables')
        self.stage, self.time = self.stage[0], self.time[0]
        self.t.begin()
    def invariant(self, st):
        return [('the stage reached', self.b.eq(st.locals[self.stage], self.t.state)), ('the time of the stages visited', self.b.eq(st.locals[self.time], self.t.total))]
    def havoc(self, st):
        s = self.b.choice('stage', list(range(self.n + 1)))
        self.t.state, self.t.total = s, self.b.real('time so far', 0); self.t.draws += 1
        st.locals[self.stage], st.locals[self.time] = s, self.t.total


def is_zero(x): return not isinstance(x, bool) and isinstance(x, (int, float, Fraction)) and x == 0


class Times:
    """the times of any number of trials: how many and their sum"""
    pyvc_model = True
    def __init__(self, b, n, s): self.b, self.n, self.s = b, n, s
    def append(self, x): self.n, self.s = self.n + 1, self.s + x
    append.pyvc_model = True
    def pyvc_len(self): return self.n
    def pyvc_sum(self, start=0): return start + self.s
    def pyvc_list(self): return self
    def pyvc_truth(self): return self.n > 0


class Trials:
    """contract of the loop over the trials, whatever their number: i trials have been run and their times recorded"""
    def __init__(self, b, t): self.b, self.t = b, t
    def fits(self, I, s, env): return isinstance(s, ast.For) and env.globals.get('__name__') == mc.__name__ and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range'
    def enter(self, st):
        from pyvc.models import SymRange
        if not isinstance(st.iter, SymRange): raise Unsupported('another kind of loop over the trials')
        st.g['i'] = st.iter.lo
        self.lists = [n.func.value.id for n in ast.walk(st.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name)]
        self.sums = [v for v in sorted(st.assigned) if is_zero(st.locals.get(v)) and any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == v for n in st.node.body)]
        if len(self.lists) + len(self.sums) != 1 or self.lists and st.locals.get(self.lists[0]) != []: raise Unsupported('times kept in another way')
        self.at = (self.lists + self.sums)[0]
    def invariant(self, st):
        b, t, x = self.b, self.t, st.locals[self.at]; i = st.g['i'] - st.iter.lo
        if self.sums: k = [('their times are summed', b.eq(x, t.sum))]
        elif x == []: k = [('no time recorded before the first', b.And(b.eq(t.sum, 0), b.eq(i, 0)))]
        else: k = [('one time for each', b.eq(x.n, i)), ('their times are recorded', b.eq(x.s, t.sum))]
        return [('i trials have been run', b.eq(t.count, i))] + k
    def havoc(self, st):
        b, t = self.b, self.t; n = b.int('trials so far', 0); t.count, t.sum = n, b.real('time of the trials so far', 0); t.running = False
        st.g['i'] = st.iter.lo + n; b.assume(b.le(st.g['i'], b.max(st.iter.lo, st.iter.hi)))
        st.locals[self.at] = t.sum if self.sums else Times(b, n, t.sum)
    def step(self, st):
        i = st.g['i']
        if not st.interp.truth(i < st.iter.hi): self.t.finish(); return None
        st.g['i'] = i + 1
        return (i,)
    def end(self, st): self.t.finish()
    def comp(self, I, e, env, elt, it):
        """[time of a trial for each trial]"""
        from pyvc.engine import PathEnd
        from pyvc.interp import Env
        b, t = self.b, self.t; n = it.hi - it.lo
        g = e.generators[0]
        if len(e.generators) != 1 or g.ifs or not isinstance(g.target, ast.Name): raise Unsupported('another comprehension over the trials')
        b.ensure('no trial before the first', t.count == 0, False); I.p.havoced = True
        if b.choice('look at', ['one trial', 'all']) == 'one trial':
            c, x = t.count, b.real('time of the trials so far', 0); t.count, t.sum = b.int('trials so far', 0), x; c = t.count
            sub = Env(env.globals, env, (), (), (), None, env.cls, env.qual); sub.vars[g.target.id] = it.lo + c
            v = elt(sub); t.finish()
            b.ensure('one trial has been run', b.eq(t.count, c + 1), False); b.ensure('its time', b.eq(v, t.sum - x), False)
            raise PathEnd('body of the comprehension closed')
        n = b.ite(n > 0, n, 0); t.count, t.sum, t.running = n, b.real('time of all trials', 0), False; b.assume(b.Implies(b.eq(n, 0), b.eq(t.sum, 0)))
        return Times(b, n, t.sum)


class Count(Trial):
    """any number of trials"""
    def __init__(self, b, M, T): super().__init__(b, M, T, 10 ** 9); self.count, self.sum, self.running = 0, b.num(0), False
    def begin(self): self.finish(); self.state, self.total, self.running = 0, self.b.num(0), True
    def finish(self):
        if self.running: self.count, self.sum, self.running = self.count + 1, self.sum + self.total, False


@case('C24', 'Monte-Carlo: any number of draws per trial, any number of trials', mode='sym', shards=4, budget=25)
def steps(b):
    n = b.choice('stages', [1, 2, 4, 6]); scenario = b.choice('scenario', [1, 2]); k = b.int('trials', 1)
    P, T = series(b, n); M = [row(b, scenario, P, s) for s in range(n + 1)]
    t = [Count(b, M, T)]; patch(b, t)
    b.loop('1*', None, Steps(b, t[0], n)); b.loop('2*', None, Trials(b, t[0]))
    out = b.ensure_ok(b.call(mc.monte_carlo, np.array(M, dtype=object), T, k))
    t = t[0]; t.finish()
    b.ensure('every trial was run', b.eq(t.count, k), False)
    b.ensure('the mean of the times of the stages visited, in milliseconds', b.eq(out * k, t.sum * 1000), False)


def expected(b, scenario, P, T):
    """exact mean time to absorption"""
    e = b.num(0)
    for i in range(len(P)):
        q = 1
        for j in (range(i, len(P)) if scenario == 1 else [i]): q = q * P[j]
        e = e + T[i] / q
    return e


@case('C24', 'the analytic times are the expected absorption times', samples=300, shards=4, bound='chunk counts up to 5 in the proof, up to 64 in the native runs, up to 3 points')
def analytic(b):
    scenario = b.choice('scenario', [1, 2, 3]); k = b.choice('points', [1, 3])
    chunks = b.choice('chunks', [1, 2, 5] if b.symbolic else [1, 2, 5, 3, 10, 64]) if scenario == 3 else 1
    rows, ex = [], []
    for i in range(k):
        P = [b.real(f'p{i}{j}', 0 if b.symbolic else 10 ** b.choice('least', [-8, -3, -1.5]), 1) for j in range(4)]; T = [b.real(f't{i}{j}', 0, 10) for j in range(4)]
        for x in P: b.assume(b.lt(0, x))
        n = chunks if scenario == 3 else 1
        P, T = P[:3] + P[3:] * n, T[:3] + T[3:] * n
        rows.append((P, T)); ex.append(expected(b, scenario, P, T) * 1000)
    if b.choice('only one chunk given', [False, True]): rows = [(P[:4], T[:4]) for P, T in rows]
    ph = b.ensure_ok(b.call(am.convert_data_for_analitica, [P for P, T in rows], [T for P, T in rows]))
    b.ensure('probabilities and times are paired by stage', len(ph) == k and all(len(r) == len(P) for r, (P, T) in zip(ph, rows)))
    for r, (P, T) in zip(ph, rows): b.ensure('pairs', b.eq([list(x) for x in r], [list(x) for x in zip(P, T)]))
    out = b.ensure_ok(b.call(am.run_analitica, scenario, ph, chunks))
    b.ensure('one time per point, in order', len(out) == k)
    for x, e in zip(out, ex): b.ensure('the expected absorption time in milliseconds', b.eq(x, e) if b.symbolic else abs(float(x) - e) <= 1e-7 * abs(e))


@case('C24', 'a stage that never succeeds has no finite time', samples=40, mode='native', bound='40 samples')
def never(b):
    scenario = b.choice('scenario', [1, 2, 3]); P = [b.real(f'p{j}', 0.1, 1) for j in range(4)]; P[b.choice('stage', [0, 1, 2, 3])] = 0.0
    T = [b.real(f't{j}', 0.001, 10) for j in range(4)]
    if b.choice('numpy', [False, True]): P = [np.float64(x) for x in P]
    out = b.call(am.run_analitica, scenario, [list(zip(P, T))], b.choice('chunks', [1, 4]))
    b.ensure('no finite time is reported', out.exc is not None or out.value[0] == float('inf'))


@case('C24', 'both models agree on the mean', mode='native', samples=12, thorough=100, bound='12 runs of 1500 trials, 6.5 standard errors', randomize=False)
def agree(b):
    scenario = b.choice('scenario', [1, 2, 3]); chunks = b.choice('chunks', [1, 2, 6]) if scenario == 3 else 1; k = b.choice('points', [1, 2, 3])
    Ps = [[b.choice(f'p{i}{j}', [1.0, 0.9, 0.7, 0.5]) for j in range(4)] for i in range(k)]; Ts = [[b.choice(f't{i}{j}', [0.0, 0.001, 0.5, 3.0]) for j in range(4)] for i in range(k)]
    ext = lambda x: x[:3] + x[3:] * chunks
    Ps, Ts = [ext(p) for p in Ps], [ext(t) for t in Ts]
    sim = b.ensure_ok(b.call(mc.run_multiple_models, scenario, Ps, Ts, 1500))
    ana = b.ensure_ok(b.call(am.run_analitica, scenario, am.convert_data_for_analitica(Ps, Ts), chunks))
    b.ensure('one result per point', len(sim) == len(ana) == k)
    for s, a, P, T in zip(sim, ana, Ps, Ts):
        n = len(P); Q = np.zeros((n, n))
        for i in range(n):
            Q[i, 0 if scenario == 1 else i] += 1 - P[i]
            if i + 1 < n: Q[i, i + 1] += P[i]
        N = np.linalg.inv(np.eye(n) - Q); m = N @ np.array(T); m2 = N @ (np.array(T) ** 2 + 2 * np.array(T) * (Q @ m))
        sd = max(0.0, m2[0] - m[0] ** 2) ** 0.5
        b.ensure('the analytic time is the expected one', abs(a - m[0] * 1000) <= 1e-7 * (1 + abs(a)))
        b.ensure('Monte-Carlo agrees', abs(s - m[0] * 1000) <= 6.5 * 1000 * sd / 1500 ** 0.5 + 1e-6)


# ------------------------------------------------ any number of stages, chunks and points
def cumulative(b, scenario, p, s, c):
    """row s of the cumulative matrix, at column c, for a stage before the final one"""
    if scenario == 1: return b.ite(c <= s, 1 - p, 1)
    return b.ite(c < s, 0, b.ite(b.eq(c, s), 1 - p, 1))


@case('C24', 'transition matrices for any number of stages', mode='sym')
def any_matrix(b):
    pw.use(b); scenario = b.choice('scenario', [1, 2, 3]); n = b.int('stages', 1)
    one = b.choice('built', ['one', 'sequence']) == 'one'; k = 1 if one else b.int('points', 1)
    P = S.uf('p', 'i', 'i', 'r'); prob = lambda i, j: Sym(P(z(i), z(j)))
    _, f = b.p.fresh('stage at', 'int'); _, g = b.p.fresh('point at', 'int')
    series = lambda i: pw.VList(b.interp, [pw.Many(n, f, prob(i, Sym(f)))])
    i = 0 if one else b.int('point', 0)
    if one:
        f3 = (mc.create_matrix_1, mc.create_matrix_2, mc.create_matrix_3)[scenario - 1]
        m = b.ensure_ok(b.call(f3, series(0)) if scenario == 3 else call_star(b, f3, series(0)))
    else:
        ms = b.ensure_ok(b.call(mc.create_input_probs, scenario, pw.VList(b.interp, [pw.Many(k, g, series(Sym(g)))])))
        b.ensure('one matrix per list of probabilities', b.eq(pw.length(ms), k)); b.assume(i < k); m = ms[i]
    if not isinstance(m, pw.PMatrix) or m.running is None: raise Unsupported('the matrix is built in another way')
    b.ensure('one row and column per stage and the final one', b.And(b.eq(m.rows, n + 1), b.eq(m.cols, n + 1)))
    s, c = b.int('stage', 0), b.int('column', 0); b.assume(b.And(s <= n, c <= n)); p = prob(i, s)
    target = b.ite(b.eq(s, n), 0, b.ite(b.eq(c, s + 1), p, b.ite(b.eq(c, 0 if scenario == 1 else s), 1 - p, 0)))
    b.ensure('the transition probabilities of a row', b.eq(m.at(s, c), b.ite(b.eq(s, n), b.ite(b.eq(c, n), 1, 0), target)))
    # their running sums, by induction over the columns, are what Monte-Carlo compares its draws with
    b.assume(s < n)
    if b.choice('induction', ['start', 'step']) == 'start': b.ensure('running sums: first column', b.eq(cumulative(b, scenario, p, s, b.num(0)), m.at(s, b.num(0))))
    else: b.assume(c >= 1); b.ensure('running sums: next column', b.eq(cumulative(b, scenario, p, s, c), cumulative(b, scenario, p, s, c - 1) + m.at(s, c)))


class Chain:
    """the matrix of running sums, any number of stages"""
    pyvc_model = True
    def __init__(self, b, scenario, n, prob): self.b, self.scenario, self.n, self.prob = b, scenario, n, prob
    def pyvc_len(self): return self.n + 1
    @property
    def shape(self): return (self.n + 1, self.n + 1)
    def pyvc_getitem(self, s):
        b = self.b
        if isinstance(s, tuple): raise Unsupported('the matrix element by element')
        if not b.p.decide(z(s) >= 0) or not b.p.decide(z(s) <= z(self.n)): raise Unsupported('row perhaps out of range')
        p = self.prob(s)
        row = lambda c: b.ite(b.eq(s, self.n), b.ite(b.eq(c, self.n), 1, 0), cumulative(b, self.scenario, p, s, c))
        return pw.Searched(b.interp, self.n + 1, row, [b.num(0), s, s + 1])
    __getitem__ = pyvc_getitem


class AnyCount(Count):
    """any number of stages"""
    def __init__(self, b, scenario, n, prob, time): super().__init__(b, [], None); self.scenario, self.n, self.prob, self.time = scenario, n, prob, time
    def draw(self):
        b, s = self.b, self.state
        u = b.real('draw', 0, 1); b.assume(b.lt(u, 1))
        self.total = self.total + self.time(s); self.state = b.ite(b.lt(u, 1 - self.prob(s)), 0 if self.scenario == 1 else s, s + 1)
        return u
    def finish(self):
        if self.running: self.b.ensure('every trial ends in the final stage', self.b.eq(self.state, self.n), False)
        super().finish()


class AnySteps(Steps):
    def havoc(self, st):
        b = self.b; s = b.int('stage', 0); b.assume(s <= self.n)
        self.t.state, self.t.total = s, b.real('time so far', 0); st.locals[self.stage], st.locals[self.time] = s, self.t.total


@case('C24', 'Monte-Carlo: any number of stages, draws and trials', mode='sym', budget=25)
def any_steps(b):
    scenario = b.choice('scenario', [1, 2]); n, k = b.int('stages', 1), b.int('trials', 1)
    P, T = S.uf('p', 'i', 'r'), S.uf('t', 'i', 'r')
    def prob(s): x = Sym(P(z(s))); b.assume(b.And(x >= 0, x <= 1)); return x
    time = lambda s: Sym(T(z(s)))
    _, f = b.p.fresh('stage at', 'int')
    t = [AnyCount(b, scenario, n, prob, time)]; patch(b, t)
    b.loop('1*', None, AnySteps(b, t[0], n)); b.loop('2*', None, Trials(b, t[0]))
    out = b.ensure_ok(b.call(mc.monte_carlo, Chain(b, scenario, n, prob), pw.VList(b.interp, [pw.Many(n, f, time(Sym(f)))]), k))
    t = t[0]; t.finish()
    b.ensure('every trial was run', b.eq(t.count, k), False)
    b.ensure('the mean of the times of the stages visited, in milliseconds', b.eq(out * k, t.sum * 1000), False)


def z(x):
    return S.z(x, 'int')


def call_star(b, f, xs): return b.call(f, *list.__iter__(xs))


@case('C24', 'the analytic times for any number of chunks and points', mode='sym')
def any_analytic(b):
    pw.use(b); scenario = b.choice('scenario', [1, 2, 3]); n = b.int('chunks', 1) if scenario == 3 else 1; k = b.int('points', 0)
    P, T = S.uf('p', 'i', 'i', 'r'), S.uf('t', 'i', 'i', 'r')
    alike = lambda j: b.ite(j < 3, j, 3)          # the chunks are alike
    prob = lambda i, j: (lambda x: b.ite(x > 0, x, 1))(Sym(P(z(i), z(alike(j)))))       # any number above 0
    time = lambda i, j: Sym(T(z(i), z(alike(j))))
    _, f = b.p.fresh('stage at', 'int'); _, g = b.p.fresh('point at', 'int')
    def rows(fn): return pw.VList(b.interp, [pw.Many(k, g, pw.VList(b.interp, [pw.Many(n + 3, f, fn(Sym(g), Sym(f)))] if scenario == 3 else [fn(Sym(g), S.fold(S.z(j, 'int'))) for j in range(4)]))])
    ph = b.ensure_ok(b.call(am.convert_data_for_analitica, rows(prob), rows(time)))
    i, s = b.int('point', 0), b.int('stage', 0); b.assume(b.And(i < k, s < n + 3))
    b.ensure('one list per point', b.eq(pw.length(ph), k)); b.ensure('one pair per stage', b.eq(pw.length(ph[i]), n + 3))
    if scenario == 3: x = ph[i][s]; b.ensure('probabilities and times are paired by stage', b.And(b.eq(x[0], prob(i, s)), b.eq(x[1], time(i, s))))
    out = b.ensure_ok(b.call(am.run_analitica, scenario, ph, n))
    b.ensure('one time per point', b.eq(pw.length(out), k))
    e = expected(b, 1 if scenario == 1 else 2, [prob(i, j) for j in range(4)][:3 if scenario == 3 else 4], [time(i, j) for j in range(4)])
    if scenario == 3: e = e + n * (time(i, 3) / prob(i, 3))
    b.ensure('the expected absorption time in milliseconds', b.eq(out[i], e * 1000))
