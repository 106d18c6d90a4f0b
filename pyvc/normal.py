"""Polynomial normal form of arithmetic clauses: a / b is a * inv(b) (divisors are shown to be non-zero where they arise),
odd and even functions take one of x and -x, and squares of square roots of sums of squares are unfolded."""
import z3

OPT = dict(som=True, arith_lhs=True, flat=True)
ODD = ('sin', 'arctan', 'erf', 'arcsin', 'tan')
INV = z3.Function('inv', z3.RealSort(), z3.RealSort())


def normal(t, memo=None, depth=0):
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo: return memo[k][1]
    r = t
    if z3.is_app(t) and t.num_args():
        xs = [normal(c, memo, depth + 1) for c in t.children()]
        d = t.decl(); kind = d.kind()
        if kind == z3.Z3_OP_DIV:
            a, b = xs
            r = a / b if z3.is_rational_value(b) else a * inverse(b)
        elif kind == z3.Z3_OP_UNINTERPRETED:
            xs = [z3.simplify(x, **OPT) if z3.is_arith(x) else x for x in xs]
            n = d.name(); sign = 1
            if n in ODD or n == 'cos':
                m = z3.simplify(-xs[0], **OPT)
                if str(m) < str(xs[0]): xs = [m]; sign = -1 if n in ODD else 1
            r = d(*xs)
            if sign < 0: r = -r
        elif kind == z3.Z3_OP_MUL: r = product(xs)
        else: r = d(*xs)
    memo[k] = (t, r)
    return r


def inverse(b):
    """1 / b, with numeric factors and products pulled out"""
    b = z3.simplify(b, **OPT)
    if z3.is_rational_value(b): return 1 / b
    if z3.is_app_of(b, z3.Z3_OP_MUL):
        r = None
        for c in b.children():
            i = inverse(c); r = i if r is None else r * i
        return r
    if z3.is_app(b) and b.decl().name() == 'inv': return b.arg(0)
    return INV(b)


def product(xs):
    r = xs[0]
    for x in xs[1:]: r = r * x
    return r


def settle(neg):
    """the clause in normal form"""
    return z3.simplify(normal(neg), **OPT)
