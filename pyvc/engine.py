"""Path exploration, obligations, and the two builders (symbolic and native) specs run against."""
import collections, contextlib, io, math, os, random as _random, signal, sys, time, traceback, types
from fractions import Fraction
import z3
from . import sym as S
from .normal import settle
from .sym import Sym, SStr, Unsupported, PathEnd, EngineSignal, Atom, z, fold

CHECK_MS = 10000
FEAS_MS = 2000


class SpecMismatch(EngineSignal):
    """The code no longer has the shape (fields, functions) the contract is written over."""


class SkipCase(EngineSignal):
    """Native mode: the drawn input is outside the precondition."""


class Stats:
    def __init__(self):
        self.obligations = 0; self.discharged = 0; self.failed = []; self.unknown = []
        self.solver_s = 0.0; self.paths = 0; self.completed = 0; self.queries = 0
        self.functions = collections.Counter(); self.stubs = set(); self.models = set()
        self.names = collections.Counter(); self.axioms = set(); self.axiom_use = set()
        self.smt2 = []; self.cache = {}; self.intern = {}; self.keep = []; self.smt2_seen = set()


_quant = {}


def has_quantifier(t):
    k = t.get_id()
    if k not in _quant:
        r = z3.is_quantifier(t) or any(has_quantifier(c) for c in t.children())
        _quant[k] = (t, r)
    return _quant[k][1]


def has_division(t, seen=None):
    """a quotient or a transcendental function occurs: worth a normal form"""
    seen = set() if seen is None else seen
    if t.get_id() in seen or not z3.is_app(t): return False
    seen.add(t.get_id())
    if t.decl().kind() == z3.Z3_OP_DIV or t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args(): return True
    return any(has_division(c, seen) for c in t.children())


class Path:
    """One symbolic execution path: a prefix of decisions to replay, then free exploration."""
    def __init__(self, prefix, worklist, stats, tier='quick'):
        self.prefix = prefix; self.taken = []; self.worklist = worklist; self.stats = stats
        self._solver = None; self._fsolver = None; self.qf = []; self.quant = False
        self.pc = []; self.counters = collections.Counter(); self.seen_axioms = set()
        self.inputs = []; self.tier = tier; self.draws = []
        self.writes = None; self.depth = 0; self.bounded = False
        self.decisions = 0; self.ensures_seen = 0; self.key = 0; self.uniform = 0

    # -- assumptions -----------------------------------------------------------------
    @property
    def solver(self):
        if self._solver is None:
            self._solver = z3.Solver(); self._solver.set('timeout', FEAS_MS)
            self._solver.add(*self.pc)
        return self._solver

    def add(self, t):
        self.pc.append(t)
        if self._solver is not None: self._solver.add(t)
        if has_quantifier(t): self.quant = True
        else:
            self.qf.append(t)
            if self._fsolver is not None: self._fsolver.add(t)
        st = self.stats; st.keep.append(t)
        k = (self.key, t.get_id())
        self.key = st.intern.setdefault(k, len(st.intern) + 1)

    def axiom(self, t):
        k = t.get_id()
        if k not in self.seen_axioms:
            self.seen_axioms.add(k); self._keep = getattr(self, '_keep', []); self._keep.append(t)
            self.add(t)

    @property
    def fsolver(self):
        if self._fsolver is None:
            self._fsolver = z3.Solver(); self._fsolver.set('timeout', FEAS_MS)
            self._fsolver.add(*self.qf)
        return self._fsolver

    def feasible(self, *extra):
        """Branch feasibility; with quantified assumptions only the quantifier-free part is consulted
        (explores more paths than necessary, never fewer)."""
        if not self.quant: return self.check(*extra)
        st = self.stats; k = (self.key, 'f') + tuple(e.get_id() for e in extra)
        if k in st.cache: return st.cache[k]
        t0 = time.time(); r = self.fsolver.check(*extra); st.solver_s += time.time() - t0; st.queries += 1
        if r != z3.unknown: st.keep.extend(extra); st.cache[k] = r
        return r

    def check(self, *extra, ms=FEAS_MS, cached=True):
        st = self.stats
        k = (self.key,) + tuple(e.get_id() for e in extra)
        if cached and k in st.cache: return st.cache[k]
        t0 = time.time(); self.solver.set('timeout', ms)
        r = self.solver.check(*extra)
        st.solver_s += time.time() - t0; st.queries += 1
        if r != z3.unknown:
            st.keep.extend(extra); st.cache[k] = r
        return r

    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise PathEnd('assumption false')
            return
        t = z3.simplify(c.z if isinstance(c, Sym) else c)
        if z3.is_true(t): return
        self.add(t)
        if self.replaying(): return
        if z3.is_false(t) or self.feasible() == z3.unsat:
            raise PathEnd('assumption unsatisfiable')

    def replaying(self):
        return len(self.taken) < len(self.prefix)

    # -- decisions --------------------------------------------------------------------
    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            self.decisions += 1
            if len(self.taken) > 4000:
                raise Unsupported('too many decisions on one path')
            # cheap syntactic check against the path condition first
            ok_t = self.feasible(t) != z3.unsat
            ok_f = self.feasible(z3.Not(t)) != z3.unsat
            if not ok_t and not ok_f:
                raise PathEnd('infeasible')
            if ok_t and ok_f and self.uniform: raise Unsupported('a branch that depends on the element of a stretch of unknown length')
            if ok_t and ok_f:
                self.worklist.append(self.taken + [False])
            v = ok_t
        self.taken.append(v)
        self.add(t if v else z3.Not(t))
        return v

    def choose(self, n):
        """Nondeterministic choice of 0..n-1 (all explored)."""
        if n == 1: return 0
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            if self.uniform: raise Unsupported('a choice inside an iteration over a stretch of unknown length')
            for k in range(n - 1, 0, -1):
                self.worklist.append(self.taken + [k])
            v = 0
        self.taken.append(v)
        return v

    def pick(self, terms):
        """Like choose, with a z3 guard per alternative; infeasible ones are dropped."""
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            ok = [k for k, t in enumerate(terms) if self.feasible(t) != z3.unsat]
            if not ok: raise PathEnd('infeasible')
            if ok[1:] and self.uniform: raise Unsupported('a branch that depends on the element of a stretch of unknown length')
            for k in reversed(ok[1:]):
                self.worklist.append(self.taken + [k])
            v = ok[0]
        self.taken.append(v)
        self.add(terms[v])
        return v

    def nonzero(self, t):
        if self.decide(t == 0):
            raise ZeroDivisionError('division by zero')

    # -- fresh ------------------------------------------------------------------------
    def fresh(self, name, sort):
        self.counters[name] += 1
        n = name if self.counters[name] == 1 else f'{name}!{self.counters[name]}'
        c = {'int': z3.Int, 'real': z3.Real, 'bool': z3.Bool}[sort](n)
        return n, c

    # -- obligations --------------------------------------------------------------------
    def prove(self, name, cond, replayable=True):
        self.ensures_seen += 1
        if isinstance(cond, Sym): t = cond.z
        elif isinstance(cond, bool) or type(cond).__name__ in ('bool_', 'bool'): t = z3.BoolVal(bool(cond))
        elif z3.is_expr(cond): t = cond
        else: raise Unsupported(f'clause {name} is not boolean: {cond!r}')
        if self.replaying():
            self.add(t) if not z3.is_false(z3.simplify(t)) else None
            return
        st = self.stats
        st.obligations += 1; st.names[name] += 1
        neg = z3.simplify(z3.Not(t))
        t0 = time.time()
        if z3.is_false(neg) or has_division(neg) and z3.is_false(settle(neg)):
            r = z3.unsat; m = None
        else:
            r = self.check(neg, ms=CHECK_MS)
            if r == z3.unknown:
                s2 = z3.Solver(); s2.set('timeout', CHECK_MS * 2)
                s2.add(*self.pc); s2.add(neg)
                t1 = time.time(); r = s2.check(); st.solver_s += time.time() - t1
                m = s2.model() if r == z3.sat else None
            else:
                if r == z3.sat:
                    r = self.check(neg, ms=CHECK_MS * 2, cached=False)
                    m = self.solver.model() if r == z3.sat else None
                else: m = None
            if st.smt2 is not None and len(st.smt2) < 4000 and self.tier == 'thorough' and r == z3.unsat and (self.key, neg.get_id()) not in st.smt2_seen:
                st.smt2_seen.add((self.key, neg.get_id()))
                s3 = z3.Solver(); s3.add(*self.pc); s3.add(neg)
                st.smt2.append((name, s3.to_smt2()))
        dt = time.time() - t0
        if r == z3.unsat:
            st.discharged += 1
        elif r == z3.sat:
            st.failed.append(dict(name=name, model=self.extract(m), replayable=replayable and not getattr(self, 'havoced', False),
                                  detail=self.describe(m, neg)))
        else:
            st.unknown.append(name)
        if r == z3.unsat:
            self._solver.add(t) if self._solver is not None and not z3.is_true(z3.simplify(t)) else None
        else:
            # go on under the clause so that later clauses are judged on their own
            if self.check(t) == z3.unsat: raise PathEnd('clause false on the whole path')
            self.add(t)

    def extract(self, m):
        out = {}
        for kind, name, data in self.inputs:
            if kind == 'sym':
                v = m.eval(data, model_completion=True)
                if z3.is_int_value(v): out[name] = v.as_long()
                elif z3.is_rational_value(v): out[name] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
                elif z3.is_algebraic_value(v): out[name] = float(v.approx(20).as_fraction())
                elif z3.is_true(v) or z3.is_false(v): out[name] = z3.is_true(v)
            else:
                out[name] = data
        return out

    def describe(self, m, neg):
        try:
            return f'counterexample {self.extract(m)}; negated clause {str(neg)[:600]} {getattr(self, "note", "")}'
        except Exception as e:
            return str(e)


class Outcome:
    """Result of calling the code under contract."""
    def __init__(self, value=None, exc=None, tb=None):
        self.value = value; self.exc = exc; self.tb = tb

    @property
    def ok(self): return self.exc is None

    def raised(self, *types): return self.exc is not None and isinstance(self.exc, types)


class BaseB:
    def And(self, *cs):
        r = True
        for c in cs:
            if isinstance(c, bool):
                if not c: return False
            else: r = c if r is True else (r & c)
        return r

    def Or(self, *cs):
        r = False
        for c in cs:
            if isinstance(c, bool):
                if c: return True
            else: r = c if r is False else (r | c)
        return r

    def num(self, x):
        """a constant of the code as the exact number it denotes (proof) or as it is (native)"""
        return S.frac(x) if self.symbolic and isinstance(x, float) else x

    def Not(self, c): return (not c) if isinstance(c, bool) else ~c
    def Implies(self, a, c): return self.Or(self.Not(a), c)

    def need(self, obj, *names):
        for n in names:
            try:
                has = hasattr(type(obj), n) or n in getattr(obj, '__dict__', {}) or hasattr(obj, n)
            except EngineSignal: raise
            if not has:
                raise SpecMismatch(f'{type(obj).__name__} has no field {n}')

    def set(self, obj, **kw):
        """Set existing fields only: a renamed field is a SpecMismatch, not a violation."""
        for k, v in kw.items():
            self.need(obj, k)
            object.__setattr__(obj, k, v) if not isinstance(getattr(type(obj), k, None), property) else setattr(obj, k, v)
        return obj

    def find(self, owner, name):
        """A function of the code by name; absent -> undecided."""
        try:
            return getattr(owner, name)
        except AttributeError:
            raise SpecMismatch(f'{getattr(owner, "__name__", owner)} has no {name}')


class SymB(BaseB):
    symbolic = True

    def __init__(self, path, interp):
        self.p = path; self.interp = interp; self.stubs = {}; self.loops = {}
        interp.stubs = self.stubs; interp.loopspecs = self.loops; interp.b = self

    def _new(self, name, sort, lo=None, hi=None):
        n, c = self.p.fresh(name, sort)
        self.p.inputs.append(('sym', n, c))
        if lo is not None: self.p.add(c >= z(lo, sort))
        if hi is not None: self.p.add(c <= z(hi, sort))
        return Sym(c)

    def int(self, name, lo=None, hi=None, gen=None): return self._new(name, 'int', lo, hi)
    def real(self, name, lo=None, hi=None, gen=None): return self._new(name, 'real', lo, hi)
    def bool(self, name): return self._new(name, 'bool')

    def choice(self, name, options):
        options = list(options)
        k = self.p.choose(len(options))
        self.p.counters[name] += 1
        n = name if self.p.counters[name] == 1 else f'{name}!{self.p.counters[name]}'
        self.p.inputs.append(('choice', n, k))
        return options[k]

    def atom(self, name): return Atom(name)
    def assume(self, c): self.p.assume(c)

    def call(self, f, *a, **k):
        try:
            return Outcome(self.interp.call(f, list(a), k))
        except EngineSignal: raise
        except RecursionError: raise Unsupported('recursion too deep')
        except Exception as e:
            return Outcome(exc=e, tb=''.join(traceback.format_exception(e)[-3:]))

    def ensure(self, name, cond, replayable=True): self.p.prove(name, cond, replayable)

    def ensure_ok(self, out, name='no-exception'):
        if out.exc is not None: self.p.note = (out.tb or '')[-900:]
        self.p.prove(name, out.exc is None)
        if out.exc is not None: raise PathEnd('exception')
        return out.value

    def cover(self, name): pass

    def stub(self, owner, name, fn):
        f = owner.__dict__.get(name) if isinstance(owner, type) else getattr(owner, name, None)
        if f is None:
            f = getattr(owner, name, None)
        if f is None: raise SpecMismatch(f'no {name} to put under contract')
        f = getattr(f, '__func__', f)
        if isinstance(f, property): f = f.fget
        self.stubs[f] = fn
        self.p.stats.stubs.add(f'{getattr(owner, "__name__", owner)}.{name}')

    def loop(self, qualname, ordinal, spec): self.loops[(qualname, ordinal)] = spec

    def eq(self, a, b):
        if a is None or b is None: return a is b
        if isinstance(a, (Sym, int, float, Fraction)) and isinstance(b, (Sym, int, float, Fraction)):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return close(a, b)
            return S.equal(a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return self.And(len(a) == len(b), *[self.eq(x, y) for x, y in zip(a, b)])
        if type(a).__name__ == 'ndarray' or type(b).__name__ == 'ndarray':
            return self.eq(list(a), list(b))
        if isinstance(a, SStr) or isinstance(b, SStr):
            return a == b
        r = (a == b)
        return r if isinstance(r, (bool, Sym)) else bool(r)

    def le(self, a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return bool(a <= b) or close(a, b)
        return a <= b
    def lt(self, a, b): return a < b
    def ite(self, c, a, b): return S.ite(c, a, b)
    def round(self, x): return S.rnd(x)
    def sqrt(self, x): return S.sqrt(x)
    def pow(self, a, b): return S.power(a, b)
    def uf(self, name, *args):
        import math
        from .models import M, real_uf
        if name in ('cos', 'sin', 'erf', 'log10', 'arctan', 'exp', 'log'):
            r = real_uf(name)(None, *args)
            return r
        return Sym(S.uf(name, *(['r'] * (len(args) + 1)))(*[z3.simplify(z(a, 'real')) for a in args]))
    def max(self, a, b): return S.ite(b > a, b, a) if isinstance(b > a, Sym) else max(a, b)
    def min(self, a, b): return S.ite(b < a, b, a) if isinstance(b < a, Sym) else min(a, b)
    @property
    def draws(self): return self.p.draws
    def get_draw(self, i): return self.p.draws[i]


def close(a, b, rel=1e-9, abs_=1e-15):
    if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
        return a == b
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)


class NativeB(BaseB):
    """The same spec text over the real CPython functions."""
    symbolic = False

    def __init__(self, oracle=None, rng=None, prev=None):
        self.oracle = oracle; self.rng = rng or _random.Random(1); self.prev = prev; self.stubbed = False
        self.counters = collections.Counter(); self.values = {}; self.failures = []; self.checked = 0
        self.draws = []; self._undo = []; self.trace = []; self.draw_hint = None

    def _name(self, name):
        self.counters[name] += 1
        return name if self.counters[name] == 1 else f'{name}!{self.counters[name]}'

    def _val(self, name, gen, fits=None):
        """an input: the recorded one, mostly that of the run before (in a run that follows up another), or a new one"""
        n = self._name(name)
        if self.oracle is not None and n in self.oracle: v = self.oracle[n]
        elif self.prev is not None and fits is not None and n in self.prev and self.rng.random() < .8 and fits(self.prev[n]): v = self.prev[n]
        else: v = gen()
        self.values[n] = v
        return v

    @staticmethod
    def _between(lo, hi): return lambda v: not isinstance(v, (bool, str)) and (lo is None or v >= lo) and (hi is None or v <= hi)

    def int(self, name, lo=None, hi=None, gen=None):
        def draw():
            if gen is not None: return gen(self.rng)
            r = self.rng
            l = lo if lo is not None else (hi - 40 if hi is not None else -20)
            h = hi if hi is not None else l + 60
            k = r.random()
            if k < .15: return int(l)
            if k < .25: return int(h)
            if k < .5: return r.randint(int(l), int(min(h, l + 8)))
            return r.randint(int(l), int(h))
        return self._val(name, draw, lambda v: isinstance(v, int) and self._between(lo, hi)(v))

    def real(self, name, lo=None, hi=None, gen=None):
        def g():
            r = self.rng
            if gen is not None and r.random() < .8:
                return gen(r)
            l = float(lo) if lo is not None else (float(hi) - 100 if hi is not None else -50.)
            h = float(hi) if hi is not None else l + 100
            k = r.random()
            if k < .08: return l
            if k < .14: return h
            if k < .3: return min(h, max(l, round(l) + float(r.randint(0, 6)))) 
            if k < .5: return min(h, l + abs(r.gauss(0, 1)) * 1e-3 * (h - l))
            return r.uniform(l, h)
        return self._val(name, g, self._between(lo, hi))

    def bool(self, name): return self._val(name, lambda: self.rng.random() < .5, lambda v: True)

    def choice(self, name, options):
        options = list(options)
        return options[self._val(name, lambda: self.rng.randrange(len(options)), lambda v: isinstance(v, int) and v < len(options)) % len(options)]

    def atom(self, name): return Atom(name)

    def assume(self, c):
        if not c: raise SkipCase()

    def call(self, f, *a, **k):
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                return Outcome(f(*a, **k))
        except EngineSignal: raise
        except Exception as e:
            return Outcome(exc=e, tb=''.join(traceback.format_exception(e)[-4:]))

    def ensure(self, name, cond, replayable=True):
        self.checked += 1
        if not bool(cond):
            self.failures.append(name)

    def ensure_ok(self, out, name='no-exception'):
        self.checked += 1
        if out.exc is not None:
            self.failures.append(f'{name}: {type(out.exc).__name__}: {out.exc}')
            self.trace.append(out.tb)
            raise SkipCase()
        return out.value

    def cover(self, name): pass

    def stub(self, owner, name, fn):
        if not hasattr(owner, name): raise SpecMismatch(f'no {name}')
        self.stubbed = True
        old = owner.__dict__[name] if name in getattr(owner, '__dict__', {}) else None
        self._undo.append((owner, name, old))
        if isinstance(old, property):
            setattr(owner, name, property(lambda s, f=fn: f(s)))
        elif isinstance(old, staticmethod):
            setattr(owner, name, staticmethod(fn))
        else:
            if isinstance(owner, type):
                setattr(owner, name, lambda *a, **k: fn(*a, **k))
            else:
                setattr(owner, name, fn)

    def loop(self, *a): pass

    def undo(self):
        for owner, name, old in reversed(self._undo):
            if old is None: delattr(owner, name)
            else: setattr(owner, name, old)
        self._undo = []

    def eq(self, a, b):
        if a is None or b is None: return a is b
        if isinstance(a, bool) or isinstance(b, bool): return a == b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if type(a).__name__ == 'ndarray' or type(b).__name__ == 'ndarray':
            return self.eq(list(a), list(b))
        try:
            fa, fb = float(a), float(b)
            if not isinstance(a, str) and not isinstance(b, str):
                if math.isnan(fa) or math.isnan(fb): return False
                return close(fa, fb)
        except (TypeError, ValueError):
            pass
        return bool(a == b)

    def le(self, a, b): return bool(a <= b) or self.eq(a, b)
    def lt(self, a, b): return bool(a < b)
    def ite(self, c, a, b): return a if c else b
    def round(self, x): return round(x)
    def sqrt(self, x): return math.sqrt(x)
    def pow(self, a, b): return a ** b
    def uf(self, name, *args):
        import numpy as np
        return {'arctan': math.atan, 'cos': math.cos, 'sin': math.sin, 'erf': math.erf, 'exp': math.exp, 'log': math.log,
                'log10': math.log10}[name](*args)
    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)
    def get_draw(self, i): return self.draws[i]


class native_random:
    """Patch the random sources so that native runs take the draws the model chose."""
    def __init__(self, b): self.b = b
    def __enter__(self):
        import numpy as np
        b = self.b
        rng = b.rng
        def rec(kind, args, gen):
            def g():
                v = b.draw_hint(rng) if kind == 'uniform' and b.draw_hint is not None and rng.random() < .7 else None
                return v if v is not None and args[0] <= v < args[1] else gen()
            v = b._val('draw', g)
            b.draws.append((kind, args, v))
            return v
        def np_randint(low, high=None, size=None, dtype=int):
            if size is not None: return orig[('np', 'randint')](low, high, size)
            l, h = (0, low) if high is None else (low, high)
            if h <= l: raise ValueError('low >= high')
            return rec('randint', (l, h - 1), lambda: rng.choice([l, h - 1, rng.randint(l, h - 1), rng.randint(l, h - 1)]))
        def np_uniform(low=0.0, high=1.0, size=None):
            if size is not None: return orig[('np', 'uniform')](low, high, size)
            return rec('uniform', (low, high), lambda: rng.uniform(low, high))
        def np_random(size=None):
            if size is not None: return orig[('np', 'random')](size)
            return rec('uniform', (0.0, 1.0), rng.random)
        def py_random(): return rec('uniform', (0.0, 1.0), rng.random)
        def py_randint(a, b): return rec('randint', (a, b), lambda: rng.randint(a, b))
        def py_randrange(a, b=None, step=1):
            if step != 1: return orig_randrange(a, b, step)
            return np_randint(a, b)
        def py_getrandbits(k): return rec('randint', (0, 2 ** k - 1), lambda: rng.randrange(2 ** k))
        import random as r
        orig_randrange = r.randrange
        self.saved = [(np.random, 'randint', np.random.randint), (np.random, 'uniform', np.random.uniform),
                      (np.random, 'random', np.random.random), (r, 'random', r.random), (r, 'randint', r.randint),
                      (r, 'uniform', r.uniform), (r, 'randrange', r.randrange), (r, 'getrandbits', r.getrandbits)]
        orig = {('np', 'randint'): np.random.randint, ('np', 'uniform'): np.random.uniform, ('np', 'random'): np.random.random}
        np.random.randint, np.random.uniform, np.random.random = np_randint, np_uniform, np_random
        r.random, r.randint, r.uniform, r.randrange, r.getrandbits = py_random, py_randint, np_uniform, py_randrange, py_getrandbits
    def __exit__(self, *a):
        for m, n, f in self.saved: setattr(m, n, f)
