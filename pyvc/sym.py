"""Symbolic values: z3 terms with Python operators.

Truth tests of a symbolic boolean fork the current path (sound case split), so symbolic values may
flow through native containers.  Machine floats are treated as mathematical reals.
"""
import functools, math
from fractions import Fraction
import z3


class EngineSignal(BaseException):
    """Never caught by interpreted code."""


class Unsupported(EngineSignal):
    """Construct outside the verified subset: the case is undecided."""


class PathEnd(EngineSignal):
    """This path is finished (infeasible, or closed by a loop invariant)."""


CTX = None     # current Path (engine.py)


def ctx():
    if CTX is None:
        raise Unsupported('no active path')
    return CTX


@functools.lru_cache(maxsize=20000)
def frac(x):
    """The decimal number a float literal denotes; a float that is the nearest double of a fraction with
    a small denominator but no short decimal form (64/3, 1/3) denotes that fraction."""
    r = repr(float(x))
    if len(r) > 15:
        f = Fraction(float(x)).limit_denominator(200)
        if f.denominator > 1 and f.denominator % 2 and f.denominator % 5 and float(f) == x: return f
    return Fraction(r)


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


def z(x, sort=None):
    """z3 term of a concrete or symbolic scalar."""
    if isinstance(x, Sym):
        t = x.z
    elif isinstance(x, bool):
        t = z3.BoolVal(x)
    elif isinstance(x, int):
        t = z3.IntVal(x)
    elif isinstance(x, float) or type(x).__name__ in ('float64', 'float32'):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('non-finite float in a term')
        f = frac(float(x)); t = z3.RealVal(f'{f.numerator}/{f.denominator}')
    elif isinstance(x, Fraction):
        t = z3.RealVal(f'{x.numerator}/{x.denominator}')
    elif type(x).__name__ in ('int64', 'int32'):
        t = z3.IntVal(int(x))
    elif z3.is_expr(x):
        t = x
    elif type(x).__name__ in ('bool', 'bool_'):
        t = z3.BoolVal(bool(x))
    else:
        raise Unsupported(f'no term for {type(x).__name__}')
    if sort == 'real':
        if z3.is_int(t):
            t = z3.ToReal(t) if not z3.is_int_value(t) else z3.RealVal(t.as_long())
        elif z3.is_bool(t):
            t = z3.If(t, z3.RealVal(1), z3.RealVal(0))
    elif sort == 'int' and z3.is_bool(t):
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def isreal(x):
    if isinstance(x, Sym):
        return z3.is_real(x.z)
    return isinstance(x, (float, Fraction)) or type(x).__name__ in ('float64', 'float32')


def _pair(a, b):
    if isreal(a) or isreal(b):
        return z(a, 'real'), z(b, 'real')
    return z(a, 'int'), z(b, 'int')


def fold(t):
    """Concrete Python value of a literal term, else the simplified term as Sym."""
    t = z3.simplify(t) if not z3.is_const(t) else t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return Sym(t)


UFS = {}


def uf(name, *sorts):
    k = (name, len(sorts))
    if k not in UFS:
        S = {'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}
        UFS[k] = z3.Function(name, *[S[s] for s in sorts])
    return UFS[k]


def sqrt(x):
    if is_num(x):
        if x < 0:
            raise Unsupported('square root of a negative number')
        f = frac(x) if isinstance(x, float) else Fraction(x)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return Fraction(n, d)
    t = z3.simplify(z(x, 'real'), som=True)
    r = uf('sqrt', 'r', 'r')(t)
    ctx().axiom(z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)))
    ctx().axiom(z3.Implies(t > 0, r > 0))
    return Sym(r)


def power(a, b):
    if is_num(a) and is_num(b):
        if isinstance(a, int) and isinstance(b, int):
            return a ** b if b >= 0 else Fraction(a) ** b
        fa = frac(a) if isinstance(a, float) else Fraction(a)
        fb = frac(b) if isinstance(b, float) else Fraction(b)
        if fb.denominator == 1 and abs(fb) < 10000:
            return fa ** int(fb)
        if fb == Fraction(1, 2):
            return sqrt(fa)
    fb = None
    if is_num(b):
        fb = frac(b) if isinstance(b, float) else Fraction(b)
        if fb.denominator == 1 and 0 <= fb <= 4:
            r = 1
            for _ in range(int(fb)):
                r = r * a
            return r if isinstance(a, Sym) or not isinstance(r, Sym) else r
        if fb == Fraction(1, 2):
            return sqrt(a)
        if fb == Fraction(-1, 2):
            return 1 / sqrt(a)
    if is_num(a) and not isreal(a) and not isreal(b) and a == 2:
        e = z(b)
        t = uf('pow2', 'i', 'i')(e)
        ctx().axiom(z3.Implies(e >= 0, t >= 1))
        for k in range(31, -1, -1):
            t = z3.If(e == k, z3.IntVal(2 ** k), t)
        return Sym(z3.simplify(t))
    if is_num(a) and a == 10:
        t = uf('exp10', 'r', 'r')(z3.simplify(z(b, 'real'), som=True))
        ctx().axiom(t > 0)
        return Sym(t)
    ta, tb = z3.simplify(z(a, 'real')), z3.simplify(z(b, 'real'))
    t = uf('pow', 'r', 'r', 'r')(ta, tb)
    ctx().axiom(z3.Implies(z3.And(ta >= 0, ta <= 1, tb >= 0), z3.And(t >= 0, t <= 1)))
    ctx().axiom(z3.Implies(ta == 1, t == 1))
    ctx().axiom(z3.Implies(ta > 0, t > 0))
    return Sym(t)


def floordiv(a, b):
    ta, tb = _pair(a, b)
    if z3.is_int(ta):
        tb_s = z3.simplify(tb)
        if z3.is_int_value(tb_s) and tb_s.as_long() > 0:
            return fold(ta / tb)
        ctx().nonzero(tb)
        return fold(z3.ToInt(z3.ToReal(ta) / z3.ToReal(tb)))
    ctx().nonzero(tb)
    return fold(z3.ToReal(z3.ToInt(ta / tb)))


def mod(a, b):
    ta, tb = _pair(a, b)
    tb_s = z3.simplify(tb)
    if z3.is_int(ta) and z3.is_int_value(tb_s) and tb_s.as_long() > 0:
        return fold(ta % tb)
    return a - b * floordiv(a, b)


def rnd(x):
    """round-half-even to an integer"""
    if not isreal(x):
        return x
    if is_num(x):
        return round(frac(x) if isinstance(x, float) else x)
    t = z(x, 'real')
    f = z3.ToInt(t + z3.RealVal('1/2'))
    tie = z3.ToReal(f) == t + z3.RealVal('1/2')
    return Sym(z3.simplify(z3.If(z3.And(tie, f % 2 != 0), f - 1, f)))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, SStr) or isinstance(b, SStr) or isinstance(a, str):
        raise Unsupported('ite of strings')
    tc = c.z
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, Sym) and z3.is_bool(a.z)):
        return fold(z3.If(tc, z(a), z(b)))
    ta, tb = _pair(a, b)
    return fold(z3.If(tc, ta, tb))


class Sym:
    __slots__ = ('z',)
    __array_priority__ = 1000

    def __init__(self, term):
        self.z = term

    def __repr__(self):
        s = str(self.z)
        return f'<{s if len(s) < 60 else s[:57] + "..."}>'

    __str__ = __repr__

    def __format__(self, spec):
        return f'<sym:{spec}>'

    # truth: fork
    def __bool__(self):
        t = self.z
        if z3.is_int(t) or z3.is_real(t):
            t = t != 0
        return ctx().decide(t)

    __hash__ = None

    def __index__(self):
        raise Unsupported('symbolic value used as an index or count')

    def __int__(self):
        raise Unsupported('int() of a symbolic value in native code')

    def __float__(self):
        raise Unsupported('float() of a symbolic value in native code')

    def __add__(s, o): return _arith('+', s, o)
    def __radd__(s, o): return _arith('+', o, s)
    def __sub__(s, o): return _arith('-', s, o)
    def __rsub__(s, o): return _arith('-', o, s)
    def __mul__(s, o): return _arith('*', s, o)
    def __rmul__(s, o): return _arith('*', o, s)
    def __truediv__(s, o): return _arith('/', s, o)
    def __rtruediv__(s, o): return _arith('/', o, s)
    def __floordiv__(s, o): return floordiv(s, o)
    def __rfloordiv__(s, o): return floordiv(o, s)
    def __mod__(s, o): return mod(s, o)
    def __rmod__(s, o):
        if isinstance(o, str):
            return o
        return mod(o, s)
    def __pow__(s, o, m=None): return power(s, o)
    def __rpow__(s, o): return power(o, s)
    def __rshift__(s, o):
        if isinstance(o, int): return floordiv(s, 2 ** o)
        raise Unsupported('shift')
    def __lshift__(s, o):
        if isinstance(o, int): return s * 2 ** o
        raise Unsupported('shift')
    def __and__(s, o):
        if z3.is_bool(s.z) and (isinstance(o, bool) or isinstance(o, Sym) and z3.is_bool(o.z)):
            return fold(z3.And(s.z, z(o)))
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return mod(s, o + 1)
        raise Unsupported('bitwise and')
    def __rand__(s, o): return s.__and__(o)
    def __or__(s, o):
        if z3.is_bool(s.z) and (isinstance(o, bool) or isinstance(o, Sym) and z3.is_bool(o.z)):
            return fold(z3.Or(s.z, z(o)))
        raise Unsupported('bitwise or')
    def __ror__(s, o): return s.__or__(o)
    def __invert__(s):
        if z3.is_bool(s.z): return fold(z3.Not(s.z))
        return -s - 1
    def __neg__(s): return _arith('-', 0, s)
    def __pos__(s): return s
    def __abs__(s):
        t = z(s, 'int') if z3.is_bool(s.z) else s.z
        return fold(z3.If(t >= 0, t, -t))
    def __round__(s, nd=None):
        if nd is None or nd == 0:
            return rnd(s)
        raise Unsupported('round to digits')
    def __ceil__(s): return -fold(z3.ToInt(-z(s, 'real')))
    def __floor__(s): return fold(z3.ToInt(z(s, 'real')))
    def __lt__(s, o): return _cmp('<', s, o)
    def __le__(s, o): return _cmp('<=', s, o)
    def __gt__(s, o): return _cmp('>', s, o)
    def __ge__(s, o): return _cmp('>=', s, o)
    def __eq__(s, o): return equal(s, o)
    def __ne__(s, o):
        r = equal(s, o)
        return (not r) if isinstance(r, bool) else fold(z3.Not(r.z))
    def conjugate(s): return s


def _arith(op, a, b):
    for x in (a, b):
        if type(x).__name__ == 'ndarray':
            return NotImplemented
        if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
            if op in '+-':
                return x if x is a or op == '+' else -x
            raise Unsupported('arithmetic with infinity')
        if type(x).__name__ == 'Cx': return NotImplemented
        if isinstance(x, complex):
            from .cx import Cx
            a, b = Cx.of(a), Cx.of(b)
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
        if x is None or isinstance(x, (str, list, tuple, dict)):
            raise TypeError(f'unsupported operand type(s) for {op}: {type(a).__name__} and {type(b).__name__}')
    ta, tb = _pair(a, b)
    if op == '+': return fold(ta + tb)
    if op == '-': return fold(ta - tb)
    if op == '*': return fold(ta * tb)
    if op == '/':
        if z3.is_int(ta): ta, tb = z(a, 'real'), z(b, 'real')
        ctx().nonzero(tb)
        return fold(ta / tb)
    raise Unsupported(op)


def _cmp(op, a, b):
    if type(b).__name__ == 'ndarray':
        return NotImplemented
    if b is None or isinstance(b, (str, list, tuple, dict)):
        raise TypeError(f"'{op}' not supported between instances of 'number' and '{type(b).__name__}'")
    for x, other, flip in ((a, b, False), (b, a, True)):
        if isinstance(x, float) and math.isinf(x):
            lt = (x < 0) != flip
            return lt if op in ('<', '<=') else not lt
    ta, tb = _pair(a, b)
    return fold({'<': lambda: ta < tb, '<=': lambda: ta <= tb,
                 '>': lambda: ta > tb, '>=': lambda: ta >= tb}[op]())


def equal(a, b):
    """a == b for scalars, as bool or Sym"""
    if type(a).__name__ == 'Cx' or type(b).__name__ == 'Cx' or isinstance(a, complex) or isinstance(b, complex):
        from .cx import Cx
        try: return Cx.of(a) == Cx.of(b)
        except Unsupported: return False
    if isinstance(a, Atom) or isinstance(b, Atom):
        return a is b
    if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
        return False
    num = (int, float, Fraction, Sym)
    if not (isinstance(a, num) or type(a).__name__ in ('float64', 'int64')) or \
       not (isinstance(b, num) or type(b).__name__ in ('float64', 'int64')):
        return False
    ta, tb = z(a), z(b)
    if ta.sort() != tb.sort():
        if z3.is_bool(ta) or z3.is_bool(tb):
            ta, tb = z(a, 'int'), z(b, 'int')
        if ta.sort() != tb.sort():
            ta, tb = z(a, 'real'), z(b, 'real')
    return fold(ta == tb)


class Atom:
    """An opaque concrete object with identity (payloads, handlers...)."""
    def __init__(self, name): self.name = name
    def __repr__(self): return f'<{self.name}>'


class SStr:
    """A string of known length whose characters may be symbolic.
    Each char is a 1-char str, or a tuple (z3 bool,) meaning '1' if true else '0'."""
    def __init__(self, chars):
        self.chars = tuple(chars)

    @staticmethod
    def of(x):
        if isinstance(x, SStr): return x
        if isinstance(x, str): return SStr(x)
        raise TypeError(f'can only concatenate str (not "{type(x).__name__}") to str')

    def norm(self):
        return ''.join(self.chars) if all(isinstance(c, str) for c in self.chars) else self

    def __add__(s, o): return SStr(s.chars + SStr.of(o).chars)
    def __radd__(s, o): return SStr(SStr.of(o).chars + s.chars)
    def __mul__(s, n): return SStr(s.chars * n)
    def __len__(s): return len(s.chars)
    def __bool__(s): return len(s.chars) > 0
    __hash__ = None

    def __getitem__(s, i):
        r = SStr(s.chars[i] if isinstance(i, slice) else (s.chars[i],))
        return r.norm()

    def __iter__(s):
        for c in s.chars:
            yield SStr((c,)).norm()

    def __eq__(s, o):
        if isinstance(o, (str, SStr)):
            o = SStr.of(o)
            if len(o) != len(s): return False
            return fold(z3.And([char_eq(a, b) for a, b in zip(s.chars, o.chars)] or [z3.BoolVal(True)]))
        return False

    def __ne__(s, o):
        r = s == o
        return (not r) if isinstance(r, bool) else ~r

    def startswith(s, p):
        p = SStr.of(p)
        return False if len(p) > len(s) else SStr(s.chars[:len(p)]) == p

    def endswith(s, p):
        p = SStr.of(p)
        return False if len(p) > len(s) else (len(p) == 0 or SStr(s.chars[-len(p):]) == p)

    def count(s, c):
        if not isinstance(c, str) or len(c) != 1:
            raise Unsupported('count of a longer string')
        r = 0
        for ch in s.chars:
            t = z3.simplify(char_eq(ch, c))
            r = r + fold(z3.If(t, z3.IntVal(1), z3.IntVal(0)))
        return r

    def __format__(s, spec): return '<symstr>'
    def __repr__(s): return 'SStr(' + ''.join(c if isinstance(c, str) else '?' for c in s.chars) + ')'
    __str__ = __repr__


def char_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a == b)
    if isinstance(b, str):
        a, b = b, a
    if isinstance(a, str):
        if a == '1': return b[0]
        if a == '0': return z3.Not(b[0])
        return z3.BoolVal(False)
    return a[0] == b[0]


def bits(value, width):
    """SStr of the binary digits of a symbolic int known to fit (checked by the caller)."""
    t = z3.simplify(z(value, 'int'))
    key = (t.get_id(), width)
    if key not in _bits:
        _bits[key] = (t, SStr([(bit(t, k),) for k in range(width - 1, -1, -1)]))
    return _bits[key][1]


def bit(t, k):
    """k-th binary digit of an integer term; (t div 2^n) and (t mod 2^n) are resolved structurally
    (exact for floor division, all integers)."""
    while True:
        if z3.is_app(t) and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
            n = t.arg(1).as_long()
            if n > 0 and n & (n - 1) == 0:
                e = n.bit_length() - 1
                if t.decl().kind() == z3.Z3_OP_IDIV: t, k = t.arg(0), k + e; continue
                if t.decl().kind() == z3.Z3_OP_MOD:
                    if k >= e: return z3.BoolVal(False)
                    t = t.arg(0); continue
        break
    return z3.simplify((t / z3.IntVal(2 ** k)) % 2 == 1)


_bits = {}


def deep_has_sym(x, depth=4):
    if isinstance(x, (Sym, SStr)) or type(x).__name__ in ('Cx', 'Many', 'PArray', 'Stretches', 'PRange', 'PMatrix', 'Row'):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_has_sym(y, depth - 1) for y in (list.__iter__(x) if isinstance(x, list) else x))
    if depth and isinstance(x, dict):
        return any(deep_has_sym(y, depth - 1) for y in x.values())
    if type(x).__name__ == 'ndarray' and x.dtype == object:
        return any(deep_has_sym(y, depth - 1) for y in x.flat)
    return False
