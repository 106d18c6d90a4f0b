"""Models (trusted) of the builtins and library functions the repository calls on symbolic values."""
import binascii, builtins, collections, copy, functools, heapq, itertools, logging, math, operator, random, re, statistics, time, types, uuid
from fractions import Fraction
import numpy as np
import z3
from . import sym as S
from .cx import Cx
from .ostr import OStr, Num
from .sym import Sym, SStr, Atom, Unsupported, EngineSignal, frac, is_num, z, fold

M = {}


def model(*fs):
    def deco(g):
        for f in fs: M[f] = g
        return g
    return deco


def hs(*xs): return any(S.deep_has_sym(x) for x in xs)


def lift(x):
    if isinstance(x, float) and not (math.isinf(x) or math.isnan(x)): return frac(x)
    if type(x).__module__ == 'numpy' and hasattr(x, 'item') and getattr(x, 'shape', None) == (): return lift(x.item())
    return x


def down(x):
    return float(x) if isinstance(x, Fraction) else x


# ---------------------------------------------------------------- builtins
@model(len)
def m_len(I, o):
    if hasattr(o, 'pyvc_len'): return o.pyvc_len()
    f = getattr(type(o), '__len__', None)
    if isinstance(f, types.FunctionType) and hasattr(o, '__class__') and type(o).__module__.startswith('pysim'):
        return I.call(f, [o])
    return len(o)


@model(isinstance)
def m_isinstance(I, o, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(o, Sym):
        k = bool if z3.is_bool(o.z) else (int if z3.is_int(o.z) else float)
        return any(issubclass(k, x) for x in ts if isinstance(x, type))
    if isinstance(o, Fraction): return any(issubclass(float, x) for x in ts if isinstance(x, type))
    if isinstance(o, (SStr, OStr)) or getattr(o, 'pyvc_str', False): return any(issubclass(str, x) for x in ts if isinstance(x, type))
    if isinstance(o, Atom) and getattr(o, 'isa', None) is not None:
        return any(issubclass(o.isa, x) for x in ts)
    return isinstance(o, t)


@model(callable)
def m_callable(I, o):
    if isinstance(o, (Sym, SStr, Fraction)): return False
    if isinstance(o, Atom): return hasattr(o, 'on_call') or getattr(o, 'callable', False)
    return callable(o)


@model(type)
def m_type(I, o, *r):
    if isinstance(o, Sym): return bool if z3.is_bool(o.z) else (int if z3.is_int(o.z) else float)
    if isinstance(o, Fraction): return float
    if isinstance(o, SStr): return str
    return type(o)


@model(print)
def m_print(I, *a, **k): return None


class SymRange:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi

    def __iter__(self):
        i = self.lo; n = 0
        while True:
            c = i < self.hi
            if not (bool(c) if isinstance(c, Sym) else c): return
            yield i
            i = i + 1; n += 1
            if n > 300: raise Unsupported('symbolic range too long')

    def pyvc_len(self): return S.ite(self.hi > self.lo, self.hi - self.lo, 0)


class SymDown:
    def __init__(self, hi, lo): self.hi, self.lo = hi, lo

    def __iter__(self):
        i = self.hi; n = 0
        while True:
            c = i > self.lo
            if not (bool(c) if isinstance(c, Sym) else c): return
            yield i
            i = i - 1; n += 1
            if n > 300: raise Unsupported('symbolic range too long')

    def pyvc_len(self): return S.ite(self.hi > self.lo, self.hi - self.lo, 0)


def prange(I, lo, hi):
    from .pw import PRange
    return PRange(I, lo, hi)


@model(range)
def m_range(I, *a):
    a = [lift(x) for x in a]
    if any(isinstance(x, Fraction) for x in a) or any(isinstance(x, Sym) and z3.is_real(x.z) for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if not hs(*a): return range(*a)
    if len(a) == 1:
        for base in getattr(I.p, 'rows', ()):
            from .seq import Seq
            if isinstance(a[0], Sym) and a[0].z.eq(base.n.z): return Seq(base, Sym(base.j))
        if I.vlists: return prange(I, 0, a[0])
        return SymRange(0, a[0])
    if len(a) == 2 or a[2] == 1: return prange(I, a[0], a[1]) if I.vlists else SymRange(a[0], a[1])
    if a[2] == -1: return SymDown(a[0], a[1])
    raise Unsupported('symbolic range with a step')


@model(round, np.round)
def m_round(I, x, nd=None):
    x = lift(x)
    if isinstance(x, Sym):
        if nd is None or nd == 0: return S.rnd(x)
        raise Unsupported('round to digits')
    return S.rnd(x) if nd is None else lift(round(x, nd))


@model(np.conj)
def m_conj(I, x): return x.conjugate()


@model(np.real)
def m_real(I, x): return Cx.of(x).re


@model(np.imag)
def m_imag(I, x): return Cx.of(x).im


@model(abs, np.abs, math.fabs)
def m_abs(I, x):
    if isinstance(x, complex): x = Cx.of(x)
    if isinstance(x, np.ndarray): return np.abs(x)
    return abs(lift(x))


def _fold_minmax(I, xs, key, ismin):
    best = xs[0]; bk = I.call(key, [best]) if key else best
    for x in xs[1:]:
        k = I.call(key, [x]) if key else x
        import ast
        c = I.compare(ast.Lt if ismin else ast.Gt, k, bk)
        if isinstance(c, Sym) and (isinstance(x, Sym) or is_num(x)) and (isinstance(best, Sym) or is_num(best)):
            best = S.ite(c, x, best); bk = S.ite(c, k, bk) if key else best
        elif I.truth(c): best, bk = x, k
    return best


@model(max)
def m_max(I, *a, key=None, **kw):
    if len(a) == 1 and key is None and hasattr(a[0], 'pyvc_extreme'): return a[0].pyvc_extreme(False, (kw['default'],) if 'default' in kw else None)
    xs = [lift(x) for x in (list(I.iterate(a[0])) if len(a) == 1 else a)]
    if not xs:
        if 'default' in kw: return kw['default']
        raise ValueError('max() arg is an empty sequence')
    return _fold_minmax(I, xs, key, False)


@model(min)
def m_min(I, *a, key=None, **kw):
    if len(a) == 1 and key is None and hasattr(a[0], 'pyvc_extreme'): return a[0].pyvc_extreme(True, (kw['default'],) if 'default' in kw else None)
    xs = [lift(x) for x in (list(I.iterate(a[0])) if len(a) == 1 else a)]
    if not xs:
        if 'default' in kw: return kw['default']
        raise ValueError('min() arg is an empty sequence')
    return _fold_minmax(I, xs, key, True)


@model(pow, math.pow, np.power)
def m_pow(I, a, b, *m):
    if m: raise Unsupported('3-argument pow')
    import ast
    return I.binop(ast.Pow, a, b)


@model(sum, np.sum, math.fsum)
def m_sum(I, xs, start=0, **kw):
    import ast
    if hasattr(xs, 'pyvc_sum'): return xs.pyvc_sum(start)
    r = start
    for x in I.iterate(xs): r = I.binop(ast.Add, r, x)
    return r


@model(divmod)
def m_divmod(I, a, b):
    import ast
    return (I.binop(ast.FloorDiv, a, b), I.binop(ast.Mod, a, b))


@model(sorted)
def m_sorted(I, xs, key=None, reverse=False):
    if hasattr(xs, 'pyvc_sorted'): return xs.pyvc_sorted(key, reverse)
    xs = list(I.iterate(xs))
    ks = [I.call(key, [x]) for x in xs] if key else xs
    import ast
    out = []
    for x, k in zip(xs, ks):
        i = len(out)
        while i > 0 and I.truth(I.compare(ast.Lt, k, out[i - 1][1]) if not reverse else I.compare(ast.Gt, k, out[i - 1][1])):
            i -= 1
        out.insert(i, (x, k))
    return [x for x, _ in out]


@model(zip)
def m_zip(I, *its, strict=False):
    if its and all(hasattr(i, 'pyvc_zip') for i in its): return its[0].pyvc_zip(I, its)
    return zip(*[list(I.iterate(i)) if not isinstance(i, (itertools.count, itertools.cycle, itertools.repeat)) else i for i in its])


@model(enumerate)
def m_enumerate(I, it, start=0):
    if hasattr(it, 'pyvc_enumerate'): return it.pyvc_enumerate(start)
    return enumerate(I.iterate(it), start)


@model(reversed)
def m_reversed(I, it): return iter(list(I.iterate(it))[::-1])


@model(bytearray.fromhex)
def m_fromhex(I, s):
    if hasattr(s, 'pyvc_fromhex'): return s.pyvc_fromhex()
    return bytearray.fromhex(s)


@model(bytes.fromhex)
def m_bytes_fromhex(I, s):
    if hasattr(s, 'pyvc_fromhex'): return s.pyvc_fromhex()
    return bytes.fromhex(s)


@model(binascii.unhexlify)
def m_unhexlify(I, s):
    if hasattr(s, 'pyvc_fromhex'): return s.pyvc_fromhex()
    return binascii.unhexlify(s)


@model(list)
def m_list(I, it=()):
    if hasattr(it, 'pyvc_list'): return it.pyvc_list()
    return I.listed(list(I.iterate(it)))


@model(tuple)
def m_tuple(I, it=()):
    if hasattr(it, 'pyvc_list'): return it.pyvc_list()
    return tuple(I.iterate(it))


@model(set)
def m_set(I, it=()):
    if hasattr(it, 'pyvc_set'): return it.pyvc_set()
    xs = list(I.iterate(it))
    if hs(xs): raise Unsupported('set of symbolic values')
    return set(xs)


@model(map)
def m_map(I, f, *its): return (I.call(f, list(xs)) for xs in zip(*[I.iterate(i) for i in its]))


@model(filter)
def m_filter(I, f, it): return (x for x in I.iterate(it) if I.truth(I.call(f, [x]) if f is not None else x))


@model(any)
def m_any(I, it):
    if hasattr(it, 'pyvc_any'): return it.pyvc_any(I)
    for x in I.iterate(it):
        if I.truth(x): return True
    return False


@model(all)
def m_all(I, it):
    if hasattr(it, 'pyvc_all'): return it.pyvc_all(I)
    for x in I.iterate(it):
        if not I.truth(x): return False
    return True


@model(next)
def m_next(I, it, *d):
    f = getattr(type(it), '__next__', None)
    if hasattr(it, 'pyvc_next'): return it.pyvc_next(*d)
    if isinstance(f, types.FunctionType) and type(it).__module__.startswith('pysim'): return I.call(f, [it])
    return next(it, *d)


@model(iter)
def m_iter(I, x, *r): return I.iterate(x)


@model(int)
def m_int(I, x=0, base=None):
    if hasattr(x, 'pyvc_int'): return x.pyvc_int(base)
    if base is not None:
        if isinstance(x, SStr): raise Unsupported('int of a symbolic string')
        return int(x, base)
    x = lift(x)
    if isinstance(x, Sym):
        if z3.is_int(x.z): return x
        if z3.is_bool(x.z): return fold(z(x, 'int'))
        t = x.z
        return fold(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if isinstance(x, SStr): raise Unsupported('int of a symbolic string')
    return int(x)


@model(float, np.float64)
def m_float(I, x=0.0):
    x = lift(x)
    if isinstance(x, Sym): return fold(z(x, 'real')) if not z3.is_real(x.z) else x
    if isinstance(x, (int, Fraction)): return Fraction(x)
    return lift(float(x))


@model(bool)
def m_bool(I, x=False):
    if isinstance(x, Sym): return x if z3.is_bool(x.z) else fold(x.z != 0)
    if isinstance(x, OStr): return I.truth(x)
    if hasattr(x, 'pyvc_truth') and not isinstance(x, SStr):
        r = x.pyvc_truth()
        if isinstance(r, (bool, Sym)): return r
    return I.truth(x)


@model(str)
def m_str(I, x=''):
    if isinstance(x, (SStr, OStr)): return x
    if isinstance(x, Sym): return OStr([Num(x)]) if getattr(I, 'exact_str', False) and z3.is_int(x.z) else '<sym>'
    if isinstance(x, Fraction): return str(float(x))
    f = getattr(type(x), '__str__', None)
    if isinstance(f, types.FunctionType) and type(x).__module__.startswith('pysim'):
        try: return I.call(f, [x])
        except EngineSignal as e:
            if isinstance(e, Unsupported): return '<str>'
            raise
    return str(x)


@model(repr)
def m_repr(I, x): return '<repr>' if hs(x) else repr(x)


@model(format)
def m_fmtfn(I, x, spec=''): return fmt(I, x, spec)


@model(getattr)
def m_getattr(I, o, n, *d):
    try: return I.getattr(o, n)
    except AttributeError:
        if d: return d[0]
        raise


@model(setattr)
def m_setattr(I, o, n, v): I.setattr(o, n, v)


@model(hasattr)
def m_hasattr(I, o, n):
    try: I.getattr(o, n); return True
    except AttributeError: return False


@model(id)
def m_id(I, o): return id(o)


@model(copy.copy)
def m_copy(I, o): return copy.copy(o)


@model(copy.deepcopy)
def m_deepcopy(I, o):
    if hs(o): raise Unsupported('deepcopy of symbolic values')
    return copy.deepcopy(o)


# ------------------------------------------------------------- strings
_int_spec = re.compile(r'^0?(\d+)b$|^b$')


def fmt(I, x, spec, conv=-1):
    spec = spec or ''
    if not isinstance(spec, str): raise Unsupported('symbolic format spec')
    if getattr(x, 'pyvc_str', False): return x
    dom = getattr(I, 'str_domain', None)
    if dom is not None:
        r = dom.fmt(x, spec)
        if r is not None: return r
    if isinstance(x, (SStr, OStr)): return x
    if isinstance(x, Sym) and getattr(I, 'exact_str', False) and not spec: return m_str(I, x)
    if isinstance(x, Sym):
        m = re.match(r'^0(\d+)b$', spec)
        if m and z3.is_int(x.z):
            w = int(m.group(1))
            fits = I.p.decide(z3.And(x.z >= 0, x.z < 2 ** w))
            if fits: return S.bits(x, w)
            raise Unsupported('binary formatting of a value of unknown length')
        if spec == '' and z3.is_int(x.z):
            return '<int>'
        if spec == '' or re.match(r'^[<>^]?\d*(\.\d+)?[feEgdXx]?$', spec) or spec.endswith(('X', 'x', 'f', 'd')):
            return f'<sym:{spec}>'
        raise Unsupported(f'format {spec}')
    if isinstance(x, Fraction):
        return format(float(x), spec)
    if conv == 114: return m_repr(I, x)
    if spec == '' and type(x).__module__.startswith('pysim'): return m_str(I, x)
    if hs(x): return '<str>'
    return format(x, spec)


M['format'] = lambda I, x, spec, conv: fmt(I, x, spec, conv)


def str_method(I, s, name, a, k):
    if name == 'format':
        return format_string(I, s, a, k)
    if name == 'join':
        xs = list(I.iterate(a[0])); r = SStr(())
        for i, x in enumerate(xs):
            if i: r = r + s
            r = r + x
        return r.norm()
    if name in ('startswith', 'endswith'):
        return getattr(SStr.of(s), name)(*a)
    raise Unsupported(f'str.{name} on symbolic arguments')


def format_string(I, s, a, k):
    import string
    out = []; auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit: out.append(lit)
        if field is None: continue
        first = re.split(r'[.\[]', field)[0]
        rest = field[len(first):]
        if first == '': v = a[auto]; auto += 1
        elif first.isdigit(): v = a[int(first)]
        else: v = k[first]
        if rest:
            for part in re.findall(r'\.([A-Za-z_]\w*)', rest): v = I.getattr(v, part)
        sp = ''
        if spec:
            for l2, f2, s2, c2 in string.Formatter().parse(spec):
                sp += l2 or ''
                if f2 is not None:
                    if f2 == '': w = a[auto]; auto += 1
                    elif f2.isdigit(): w = a[int(f2)]
                    else: w = k[f2]
                    if isinstance(w, Sym): raise Unsupported('symbolic format width')
                    sp += str(w)
        out.append(fmt(I, v, sp))
    if any(getattr(x, 'pyvc_str', False) for x in out): return functools.reduce(lambda a, b: a + b, out)
    if any(isinstance(x, SStr) for x in out):
        r = SStr(())
        for x in out: r = r + x
        return r
    return ''.join(out)


M['str.method'] = str_method


def repeat(I, seq, n):
    if isinstance(seq, str) and getattr(I, 'str_domain', None) is not None: return I.str_domain.repeat(seq, n)
    if I.vlists and isinstance(seq, (list, tuple)) and len(seq) == 1:
        from .pw import VList, Many
        _, f = I.p.fresh('position', 'int')
        return VList(I, [Many(S.ite(n > 0, n, 0), f, seq[0])])
    # sequence * symbolic int: enumerate the count when it is small
    k = I.p.pick([n.z <= 0] + [n.z == j for j in range(1, 9)] + [n.z > 8])
    if k == 9: raise Unsupported('repetition count too large')
    return seq * k


M['repeat'] = repeat


# ------------------------------------------------------------- random
def draw(I, kind, lo, hi, sort):
    n, c = I.p.fresh('draw', sort)
    I.p.inputs.append(('sym', n, c))
    v = Sym(c)
    I.p.add(c >= z(lo, sort)); I.p.add(c <= z(hi, sort))
    I.p.draws.append((kind, (lo, hi), v))
    return v


@model(np.random.randint)
def m_np_randint(I, low, high=None, size=None, dtype=None):
    if size is not None: raise Unsupported('array of draws')
    lo, hi = (0, low) if high is None else (low, high)
    lo, hi = lift(lo), lift(hi)
    if isinstance(hi, Fraction):
        if hi.denominator != 1: hi = Fraction(math.ceil(hi))
        hi = int(hi)
    if isinstance(hi, Sym) and z3.is_real(hi.z): raise Unsupported('float bound of randint')
    empty = hi <= lo
    if I.truth(empty): raise ValueError('low >= high')
    return draw(I, 'randint', lo, hi - 1, 'int')


@model(random.randint)
def m_randint(I, a, b):
    if I.truth(b < a): raise ValueError('empty range')
    return draw(I, 'randint', a, b, 'int')


@model(random.randrange)
def m_randrange(I, a, b=None, step=1):
    if step != 1: raise Unsupported('randrange with a step')
    return m_np_randint(I, a, b)


@model(random.getrandbits)
def m_getrandbits(I, k): return draw(I, 'randint', 0, S.power(2, k) - 1, 'int')


@model(np.random.uniform, random.uniform)
def m_uniform(I, low=0, high=1, size=None):
    if size is not None: raise Unsupported('array of draws')
    return draw(I, 'uniform', lift(low), lift(high), 'real')


@model(np.random.random, random.random, np.random.rand)
def m_random(I, size=None):
    if size is not None: raise Unsupported('array of draws')
    return draw(I, 'uniform', 0, 1, 'real')


@model(np.random.exponential)
def m_exponential(I, scale=1.0, size=None):
    if size is not None: raise Unsupported('array of draws')
    n, c = I.p.fresh('draw', 'real'); I.p.inputs.append(('sym', n, c)); I.p.add(c >= 0)
    I.p.draws.append(('exponential', (lift(scale),), Sym(c)))
    return Sym(c)


@model(random.expovariate)
def m_expovariate(I, lambd=1.0):
    n, c = I.p.fresh('draw', 'real'); I.p.inputs.append(('sym', n, c)); I.p.add(c >= 0)
    I.p.draws.append(('expovariate', (lift(lambd),), Sym(c)))
    return Sym(c)


@model(time.time, time.time_ns, time.perf_counter, time.monotonic)
def m_time(I):
    n, c = I.p.fresh('clock', 'real')
    I.p.inputs.append(('sym', n, c)); I.p.add(c >= 0)
    cl = I.p.__dict__.setdefault('clocks', [])
    if cl: I.p.add(c >= cl[-1])        # real time does not run backwards
    cl.append(c)
    return Sym(c)


@model(uuid.uuid4)
def m_uuid(I): return uuid.uuid4()


# ------------------------------------------------------------- numpy / math
def obj_array(I, x):
    if isinstance(x, np.ndarray): return np.array(x, copy=True)
    if isinstance(x, (list, tuple)):
        xs = [obj_array(I, y) if isinstance(y, (list, tuple, np.ndarray)) else lift(y) for y in x]
        if not any(isinstance(y, np.ndarray) for y in xs):
            a = np.empty(len(xs), dtype=object)
            for i, y in enumerate(xs): a[i] = y
            return a
        rows = [np.asarray(y, dtype=object) for y in xs]
        a = np.empty((len(rows),) + rows[0].shape, dtype=object)
        for i, y in enumerate(rows): a[i] = y
        return a
    return x


M['obj_array'] = obj_array


@model(np.array)
def m_np_array(I, x, dtype=None, copy=True, **kw): return obj_array(I, list(x) if hasattr(x, '__next__') else x)


@model(np.asarray)
def m_np_asarray(I, x, dtype=None): return x if isinstance(x, np.ndarray) else obj_array(I, x)


@model(np.copy)
def m_np_copy(I, x): return obj_array(I, x)


@model(np.zeros)
def m_np_zeros(I, shape, dtype=None):
    if hs(shape) and I.vlists and isinstance(shape, tuple) and len(shape) == 2:
        from .pw import PMatrix
        return PMatrix(I, *shape, lambda r, c: Fraction(0))
    if hs(shape): raise Unsupported('array of symbolic shape')
    a = np.empty(shape, dtype=object); a[...] = Fraction(0)
    return a


@model(np.ones)
def m_np_ones(I, shape, dtype=None):
    if hs(shape): raise Unsupported('array of symbolic shape')
    a = np.empty(shape, dtype=object); a[...] = Fraction(1)
    return a


@model(np.identity, np.eye)
def m_np_eye(I, n, dtype=None):
    a = m_np_zeros(I, (n, n))
    for i in range(n): a[i, i] = Fraction(1)
    return a


@model(np.linalg.norm)
def m_norm(I, v, **kw):
    import ast
    t = 0; v = [lift(x) for x in v]
    for x in v: t = t + x * x
    r = S.sqrt(t)
    if isinstance(r, Sym):
        for x in v: S.ctx().axiom(z3.And(r.z >= z(x, 'real'), r.z >= -z(x, 'real')))
    return r


@model(np.dot, np.inner, np.vdot)
def m_dot(I, a, b):
    if not isinstance(a, (np.ndarray, list, tuple)): return lift(a) * lift(b)
    da, db = np.ndim(np.asarray(a, dtype=object)), np.ndim(np.asarray(b, dtype=object))
    if da > 2 or db > 2 or da == 0 or db == 0: raise Unsupported('np.dot of these shapes')
    if da == 2: return obj_array(I, [m_dot(I, r, b) for r in a])
    if db == 2: return obj_array(I, [m_dot(I, a, [r[j] for r in b]) for j in range(len(b[0]))])
    if len(a) != len(b): raise ValueError('shapes not aligned')
    t = 0
    for x, y in zip(a, b): t = t + lift(x) * lift(y)
    return t


def determinant(rows):
    if not rows: return 1
    if len(rows) == 1: return rows[0][0]
    t = 0
    for j, x in enumerate(rows[0]):
        if is_num(x) and x == 0: continue
        m = x * determinant([r[:j] + r[j + 1:] for r in rows[1:]])
        t = t + m if j % 2 == 0 else t - m
    return t


def square(M):
    rows = [[lift(x) for x in r] for r in M]
    if any(len(r) != len(rows) for r in rows): raise np.linalg.LinAlgError('not square')
    if len(rows) > 5: raise Unsupported('inverse of a large symbolic matrix')
    return rows


def regular(I, rows):
    d = determinant(rows)
    if I.truth(S.equal(fold(z3.simplify(z(d, 'real'), som=True)) if isinstance(d, Sym) else d, 0)): raise np.linalg.LinAlgError('Singular matrix')


@model(np.linalg.inv)
def m_inv(I, M):
    """contract: X M = M X = 1, for a matrix that has an inverse"""
    rows = square(M); n = len(rows); regular(I, rows)
    X = [[Sym(I.p.fresh('inverse', 'real')[1]) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        for j in range(n):
            for A, B in ((X, rows), (rows, X)):
                t = 0
                for k in range(n): t = t + A[i][k] * B[k][j]
                I.p.add(z(t, 'real') == (1 if i == j else 0))
    return obj_array(I, X)


@model(np.linalg.solve)
def m_solve(I, M, v):
    rows = square(M); n = len(rows); regular(I, rows)
    v = [lift(x) for x in v]
    X = [Sym(I.p.fresh('solution', 'real')[1]) for _ in range(n)]
    for i in range(n):
        t = 0
        for k in range(n): t = t + rows[i][k] * X[k]
        I.p.add(z(t, 'real') == z(v[i], 'real'))
    return obj_array(I, X)


@model(np.cross)
def m_cross(I, a, b):
    a = [lift(x) for x in a]; b = [lift(x) for x in b]
    return obj_array(I, [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


@model(np.max, np.amax)
def m_npmax(I, xs):
    if hasattr(xs, 'pyvc_extreme'): return xs.pyvc_extreme(False)
    xs = [lift(x) for x in xs]
    if not xs: raise ValueError('zero-size array')
    return _fold_minmax(I, xs, None, False)


@model(np.min, np.amin)
def m_npmin(I, xs):
    if hasattr(xs, 'pyvc_extreme'): return xs.pyvc_extreme(True)
    xs = [lift(x) for x in xs]
    if not xs: raise ValueError('zero-size array')
    return _fold_minmax(I, xs, None, True)


@model(np.maximum)
def m_maximum(I, a, b): return _fold_minmax(I, [lift(a), lift(b)], None, False)


@model(np.minimum)
def m_minimum(I, a, b): return _fold_minmax(I, [lift(a), lift(b)], None, True)


@model(np.average, np.mean, statistics.mean, statistics.fmean)
def m_mean(I, xs, *a, **k):
    import ast
    if hasattr(xs, 'pyvc_sum'):
        n = m_len(I, xs)
        if I.truth(S.equal(n, 0)): raise statistics.StatisticsError('mean requires at least one data point')
        return I.binop(ast.Div, xs.pyvc_sum(), n)
    xs = list(I.iterate(xs))
    if not xs:
        raise statistics.StatisticsError('mean requires at least one data point')
    t = 0
    for x in xs: t = I.binop(ast.Add, t, x)
    return I.binop(ast.Div, t, len(xs))


@model(np.cumsum)
def m_cumsum(I, a, axis=None):
    if type(a).__name__ == 'PMatrix': return a.cumulative(axis)
    a = obj_array(I, a)
    return np.cumsum(a, axis=axis)


@model(np.sqrt, math.sqrt)
def m_sqrt(I, x):
    if isinstance(x, complex): return np.sqrt(x)
    return S.sqrt(lift(x))


@model(np.ceil)
def m_npceil(I, x):
    x = lift(x)
    return fold(z3.ToReal(-z3.ToInt(-z(x, 'real')))) if isinstance(x, Sym) else Fraction(math.ceil(x))


@model(math.ceil)
def m_ceil(I, x):
    x = lift(x)
    return fold(-z3.ToInt(-z(x, 'real'))) if isinstance(x, Sym) else math.ceil(x)


@model(math.floor)
def m_floor(I, x):
    x = lift(x)
    return fold(z3.ToInt(z(x, 'real'))) if isinstance(x, Sym) else math.floor(x)


@model(np.floor)
def m_npfloor(I, x):
    x = lift(x)
    return fold(z3.ToReal(z3.ToInt(z(x, 'real')))) if isinstance(x, Sym) else Fraction(math.floor(x))


def real_uf(name):
    def g(I, x):
        x = lift(x)
        if isinstance(x, (complex, Cx)):
            if name == 'exp': return cexp(g, x)
            raise Unsupported(f'{name} of a complex number')
        if isinstance(x, (list, np.ndarray)): raise Unsupported(f'{name} of an array')
        if name in ('cos', 'sin', 'exp') and is_num(x) and x == 0: return 0 if name == 'sin' else 1
        a = z3.simplify(z(x, 'real'), som=True); sign = 1
        if name in ODD or name == 'cos':      # odd and even functions: one of x and -x is used
            n = z3.simplify(-a, som=True)
            if str(n) < str(a): a = n; sign = -1 if name in ODD else 1
        t = S.uf(name, 'r', 'r')(a)
        UF_AXIOMS.get(name, lambda *a: None)(t, a)
        return Sym(t) if sign == 1 else Sym(-t)
    return g


def _bounded(lo, hi):
    def ax(t, x): S.ctx().axiom(z3.And(t >= lo, t <= hi))
    return ax


def _arctan(t, x):
    p = z(frac(math.pi))          # pi is taken as its double
    S.ctx().axiom(z3.And(t >= -p / 2, t <= p / 2))
    S.ctx().axiom(z3.Implies(x >= 1, t >= p / 4)); S.ctx().axiom(z3.Implies(x <= 1, t <= p / 4))
    S.ctx().axiom(z3.Implies(x <= -1, t <= -p / 4)); S.ctx().axiom(z3.Implies(x >= -1, t >= -p / 4))
    S.ctx().axiom(z3.Implies(x > 0, t > 0)); S.ctx().axiom(z3.Implies(x == 0, t == 0)); S.ctx().axiom(z3.Implies(x < 0, t < 0))


def _erf(t, x):
    S.ctx().axiom(z3.And(t > -1, t < 1)); S.ctx().axiom(z3.Implies(x >= 0, t >= 0)); S.ctx().axiom(z3.Implies(x <= 0, t <= 0))


def _exp(t, x):
    S.ctx().axiom(t > 0); S.ctx().axiom(z3.Implies(x >= 0, t >= 1 + x)); S.ctx().axiom(z3.Implies(x <= 0, t <= 1))


def cexp(I, a):
    a = Cx.of(a)
    m = 1 if is_num(a.re) and a.re == 0 else M[np.exp](I, a.re)
    return Cx(m * M[np.cos](I, a.im), m * M[np.sin](I, a.im))


ODD = ('sin', 'arctan', 'erf', 'arcsin', 'tan')
UF_AXIOMS = {'cos': _bounded(-1, 1), 'sin': _bounded(-1, 1), 'erf': _erf, 'arctan': _arctan, 'exp': _exp}
for _n, _fs in {'cos': (np.cos, math.cos), 'sin': (np.sin, math.sin), 'exp': (np.exp, math.exp), 'log10': (np.log10, math.log10),
                'arctan': (np.arctan, math.atan), 'log': (np.log, math.log), 'arccos': (np.arccos, math.acos),
                'arcsin': (np.arcsin, math.asin), 'tan': (np.tan, math.tan)}.items():
    for _f in _fs: M[_f] = real_uf(_n)
try:
    import scipy.special
    M[scipy.special.erf] = real_uf('erf')
    M[scipy.special.erfc] = lambda I, x: 1 - M[scipy.special.erf](I, x)
except Exception:
    pass


# ------------------------------------------------------------- heap
@model(heapq.heappush)
def m_heappush(I, h, x):
    if hasattr(h, 'pyvc_heappush'): return h.pyvc_heappush(x)
    heapq.heappush(h, x)        # comparisons of symbolic entries fork the path


@model(heapq.heappop)
def m_heappop(I, h):
    if hasattr(h, 'pyvc_heappop'): return h.pyvc_heappop()
    return heapq.heappop(h)


@model(heapq.heapify)
def m_heapify(I, h):
    if hasattr(h, 'pyvc_heapify'): return h.pyvc_heapify()
    heapq.heapify(h)


@model(itertools.count)
def m_count(I, start=0, step=1): return itertools.count(start, step)


@model(itertools.chain)
def m_chain(I, *its): return itertools.chain(*[I.iterate(i) for i in its])


@model(functools.reduce)
def m_reduce(I, f, it, *init):
    xs = list(I.iterate(it))
    r = init[0] if init else xs.pop(0)
    for x in xs: r = I.call(f, [r, x])
    return r


# math.* comparisons of doubles
@model(math.isclose)
def m_isclose(I, a, b, **k):
    if hs(a, b): raise Unsupported('isclose')
    return math.isclose(down(a), down(b), **k)


@model(math.isnan, np.isnan)
def m_isnan(I, x): return False if isinstance(x, (Sym, Fraction, int)) else math.isnan(x)


@model(math.isinf, np.isinf)
def m_isinf(I, x): return False if isinstance(x, (Sym, Fraction, int)) else math.isinf(x)


class Log:
    """No-op stand-in for the logging calls of the code under proof."""
    def __getattr__(self, name):
        def f(*a, **k): return None
        f.pyvc_model = True
        return f


def log_stub(*a, **k): return None
