"""Strings built from literal text, arbitrary (opaque) strings and decimal renderings of symbolic integers."""
from .sym import Sym, SStr, Unsupported, fold
import z3


class Opq:
    """An arbitrary string without surrounding whitespace. dots: may contain '.'; lower: lower-cased."""
    def __init__(self, name, dots=False, notlog=False, empty=False, lower=False):
        self.name, self.dots, self.notlog, self.empty, self.low = name, dots, notlog, empty, lower

    def lowered(self):
        return self if self.low else Opq(self.name, self.dots, self.notlog, self.empty, True)

    def same(self, o): return isinstance(o, Opq) and o.name == self.name and o.low == self.low


class Num:
    def __init__(self, s): self.s = s


class Pos:
    """A position: after `k` pieces and `off` characters of piece k"""
    def __init__(self, s, k, off): self.s, self.k, self.off = s, k, off
    def __ge__(self, o):
        if o == 0: return True
        raise Unsupported('string position compared')
    def __gt__(self, o):
        if o == -1: return True
        if o == 0: return not (self.k == 0 and self.off == 0) if not (self.k > 0 and isinstance(self.s.p[0], Opq) and self.s.p[0].empty) else self._u()
        raise Unsupported('string position compared')
    def _u(self): raise Unsupported('string position of unknown value')
    def __lt__(self, o):
        if o == 0: return False
        raise Unsupported('string position compared')
    def __eq__(self, o):
        if isinstance(o, int) and o < 0: return False
        if o == 0: return not (self > 0)
        raise Unsupported('string position compared')
    def __ne__(self, o): return not (self == o)
    __hash__ = None
    def __add__(self, n):
        if self.k < len(self.s.p) and isinstance(self.s.p[self.k], str) and self.off + n <= len(self.s.p[self.k]): return Pos(self.s, self.k, self.off + n)
        raise Unsupported('string position arithmetic')
    def __sub__(self, n): return self + (-n)


class OStr:
    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p: continue
                if out and isinstance(out[-1], str): out[-1] += p; continue
            out.append(p)
        self.p = out

    @staticmethod
    def of(x):
        if isinstance(x, OStr): return x
        if isinstance(x, str): return OStr([x])
        if isinstance(x, Opq): return OStr([x])
        raise TypeError(f'can only concatenate str (not "{type(x).__name__}") to str')

    def __add__(self, o): return OStr(self.p + OStr.of(o).p)
    def __radd__(self, o): return OStr(OStr.of(o).p + self.p)
    def __bool__(self):
        if not self.p: return False
        if all(isinstance(x, Opq) and x.empty for x in self.p): raise Unsupported('emptiness of an arbitrary string')
        return True
    __hash__ = None

    def strip(self, *a):
        if a: raise Unsupported('strip of characters')
        return self.lstrip().rstrip()
    def lstrip(self):
        p = list(self.p)
        if p and isinstance(p[0], str): p[0] = p[0].lstrip()
        return OStr(p)
    def rstrip(self):
        p = list(self.p)
        if p and isinstance(p[-1], str): p[-1] = p[-1].rstrip()
        return OStr(p)
    def lower(self): return OStr([x.lower() if isinstance(x, str) else x.lowered() if isinstance(x, Opq) else x for x in self.p])
    casefold = lower

    def rfind(self, c):
        if c != '.': raise Unsupported('rfind')
        for k in range(len(self.p) - 1, -1, -1):
            x = self.p[k]
            if isinstance(x, str):
                i = x.rfind('.')
                if i >= 0: return Pos(self, k, i)
            elif isinstance(x, Opq) and x.dots: raise Unsupported('rfind in an arbitrary string')
        return -1
    def rindex(self, c):
        r = self.rfind(c)
        if not isinstance(r, Pos): raise ValueError('substring not found')
        return r
    def __contains__(self, c): return isinstance(self.rfind(c), Pos)

    def rpartition(self, c):
        r = self.rfind(c)
        if not isinstance(r, Pos): return '', '', self
        return self[:r], c, self[r + 1:]
    def rsplit(self, c, n=-1):
        if n != 1: raise Unsupported('rsplit')
        r = self.rfind(c)
        return [self[:r], self[r + 1:]] if isinstance(r, Pos) else [self]

    def _pos(self, i):
        if isinstance(i, Pos): return i
        if i == 0: return Pos(self, 0, 0)
        if i is None or not isinstance(i, int): raise Unsupported('string slice')
        if i < 0:
            x = self.p[-1] if self.p else ''
            if isinstance(x, str) and len(x) >= -i: return Pos(self, len(self.p) - 1, len(x) + i)
        raise Unsupported('string slice')

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step is not None: raise Unsupported('string index')
        a = Pos(self, 0, 0) if s.start is None else self._pos(s.start)
        e = None if s.stop is None else self._pos(s.stop)
        out = []
        for k, x in enumerate(self.p):
            if k < a.k or (e is not None and k > e.k): continue
            lo = a.off if k == a.k else 0; hi = e.off if e is not None and k == e.k else None
            if isinstance(x, str): out.append(x[lo:hi])
            elif lo: raise Unsupported('slice inside an arbitrary string')
            elif hi == 0: continue
            else: out.append(x)
        r = OStr(out)
        return r.p[0] if len(r.p) == 1 and isinstance(r.p[0], str) else ('' if not r.p else r)

    def endswith(self, t):
        x = self.p[-1] if self.p else ''
        if isinstance(x, str) and len(x) >= len(t): return x.endswith(t)
        if isinstance(x, Opq) and x.notlog and t.lower() in ('.log', 'log') and not x.dots:
            if t.lower() == '.log': return False
        if isinstance(x, Opq) and not x.dots and len(self.p) == 1 and '.' in t: return False
        if isinstance(x, Opq) and not x.dots and not x.empty and t.endswith('.'): return False
        raise Unsupported('endswith')

    def __eq__(self, o):
        if not isinstance(o, (str, OStr)): return False
        o = OStr.of(o); a, c = self.p, o.p
        if len(a) == len(c):
            r = True
            for x, y in zip(a, c):
                if isinstance(x, str) and isinstance(y, str) or isinstance(x, Opq) and isinstance(y, Opq):
                    if not (x == y if isinstance(x, str) else x.same(y)): break
                elif isinstance(x, Num) and isinstance(y, Num):
                    e = x.s == y.s
                    r = e if r is True else (r & e if e is not True else r)
                else: break
            else: return r
        if len(a) == 1 and isinstance(a[0], Opq) and a[0].notlog and len(c) == 1 and isinstance(c[0], str) and (c[0] == 'log' if a[0].low else c[0].lower() == 'log'): return False
        if len(c) == 1 and isinstance(c[0], Opq): return o == self
        if any(isinstance(x, Opq) for x in a + c): raise Unsupported('comparison of arbitrary strings')
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r
    def __repr__(self): return 'OStr(' + '|'.join(x if isinstance(x, str) else f'<{getattr(x, "name", "num")}>' for x in self.p) + ')'
    __str__ = __repr__
