"""Complex numbers with exact or symbolic parts."""
from fractions import Fraction
import z3
from . import sym as S
from .sym import Sym, Unsupported, is_num, frac, z


def part(x):
    if isinstance(x, float): return frac(x)
    return x


def canon(x): return z3.simplify(z(x, 'real'), som=True)


class Cx:
    """re + j im; the operations follow the definitions, square roots are principal"""
    __slots__ = ('re', 'im')
    __array_priority__ = 2000
    __hash__ = None
    pyvc_model = True

    def __init__(self, re, im=0): self.re, self.im = part(re), part(im)

    @staticmethod
    def of(x):
        if isinstance(x, Cx): return x
        if isinstance(x, complex): return Cx(x.real, x.imag)
        if isinstance(x, (int, float, Fraction, Sym)): return Cx(x, 0)
        if hasattr(x, 'item') and getattr(x, 'shape', None) == (): return Cx.of(x.item())
        raise Unsupported(f'complex arithmetic with {type(x).__name__}')

    def __repr__(self): return f'({self.re} + j {self.im})'
    def __add__(a, b): b = Cx.of(b); return Cx(a.re + b.re, a.im + b.im)
    __radd__ = __add__
    def __sub__(a, b): b = Cx.of(b); return Cx(a.re - b.re, a.im - b.im)
    def __rsub__(a, b): return Cx.of(b) - a
    def __mul__(a, b): b = Cx.of(b); return Cx(mul(a.re, b.re) - mul(a.im, b.im), mul(a.re, b.im) + mul(a.im, b.re))
    __rmul__ = __mul__
    def __truediv__(a, b):
        b = Cx.of(b)
        if zero(b.im): return Cx(div(a.re, b.re), div(a.im, b.re))
        n = b.re * b.re + b.im * b.im
        c = a * Cx(b.re, 0 - b.im)
        return Cx(div(c.re, n), div(c.im, n))
    def __rtruediv__(a, b): return Cx.of(b) / a
    def __neg__(a): return Cx(0 - a.re, 0 - a.im)
    def __pos__(a): return a
    def conjugate(a): return Cx(a.re, 0 - a.im)
    real = property(lambda a: a.re)
    imag = property(lambda a: a.im)

    def __pow__(a, n):
        n = frac(n) if isinstance(n, float) else n
        if isinstance(n, Sym) or not is_num(n): raise Unsupported('complex power')
        if n == 2: return a * a
        if n == Fraction(1, 2): return csqrt(a)
        if n == 1: return a
        raise Unsupported('complex power')

    def __abs__(a): return S.sqrt(a.re * a.re + a.im * a.im) if not zero(a.im) else abs(a.re)
    def __eq__(a, b):
        b = Cx.of(b)
        x, y = S.equal(a.re, b.re), S.equal(a.im, b.im)
        if x is False or y is False: return False
        if x is True: return y
        if y is True: return x
        return S.fold(z3.And(z(x), z(y)))
    def __ne__(a, b):
        r = a == b
        return not r if isinstance(r, bool) else S.fold(z3.Not(r.z))
    def _no(a, *b): raise TypeError("'<' not supported between instances of 'complex' and 'complex'")
    __lt__ = __le__ = __gt__ = __ge__ = _no
    def __float__(a): raise TypeError("can't convert complex to float")


def zero(x): return is_num(x) and x == 0
def mul(x, y): return 0 if zero(x) or zero(y) else x * y


def div(x, y):
    if is_num(y) and y == 0: raise ZeroDivisionError('complex division by zero')
    if is_num(x) and is_num(y): return Fraction(x) / Fraction(y)
    return x / y


def csqrt(a):
    re, im = canon(a.re), canon(a.im)
    u, v = S.uf('csqrt re', 'r', 'r', 'r')(re, im), S.uf('csqrt im', 'r', 'r', 'r')(re, im)
    S.ctx().axiom(u >= 0); S.ctx().axiom(u * u - v * v == re); S.ctx().axiom(2 * u * v == im)
    return Cx(Sym(u), Sym(v))
