"""Lists and loops of unknown length, element by element.

A list of the verified code may have stretches of unknown length: Many(count, f, value) stands for count elements,
the one at position f of the stretch being value (a term over the bound index f).
A loop or comprehension over a stretch (or over a range of unknown length) is discharged once, at an arbitrary index f:
- the body may not branch on anything f leaves open (so every iteration takes the same way),
- it may write only to objects it creates itself, and append exactly one element to lists that existed before,
- it may not read what it appends to, nor locals another iteration assigned (a local that is an empty list
  before and after every iteration is the one exception: the invariant "is a new empty list" is checked),
- what it appends may depend on f only through terms in f, never through values introduced for f.
Then each such list has grown by count elements, the one at f being what was appended.
"""
import ast, enum
import z3
from . import sym as S
from .sym import Sym, Unsupported, z


class Many:
    pyvc_model = True
    def __init__(self, n, f, value): self.n, self.f, self.value = n, f, value
    def at(self, k, p=None):
        """the element at position k; an object is one and the same at every mention of its position"""
        k = z(k, 'int')
        if p is None or not objectlike(self.value): return subst(self.value, self.f, k)
        made = self.__dict__.setdefault('made', [])
        k = z3.simplify(k)
        for q, o in made:
            if q.eq(k) or p.decide(q == k): return o
        o = clone(self.value, self.f, k, {})
        made.append((k, o))
        return o
    def __getattr__(self, n):
        if n.startswith('pyvc_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'{n} of a stretch of unknown length')


def subst(v, f, k):
    if isinstance(v, Sym): return S.fold(z3.substitute(v.z, (f, k)))
    if isinstance(v, Many): return Many(subst(v.n, f, k), v.f, subst(v.value, f, k))
    if isinstance(v, VList): return VList(v.I, [subst(x, f, k) for x in raw(v)])
    if type(v) in (list, tuple): return type(v)(subst(x, f, k) for x in v)
    if hasattr(v, 'pyvc_map'): return v.pyvc_map(lambda x: subst(x, f, k))
    if f.get_id() in consts(v): raise Unsupported(f'{type(v).__name__} that depends on its position')
    return v


def objectlike(v): return type(v).__module__.startswith('pysim') and isinstance(getattr(v, '__dict__', None), dict) and not isinstance(v, (type, enum.Enum))


def clone(v, f, k, memo):
    """the object of another position: its own parts are made anew, what it shares with the rest stays"""
    if id(v) in memo: return memo[id(v)][1]
    if objectlike(v) and f.get_id() in consts(v):
        o = object.__new__(type(v)); memo[id(v)] = (v, o)
        for n, x in v.__dict__.items(): o.__dict__[n] = clone(x, f, k, memo)
        return o
    if objectlike(v) and not memo:      # nothing in it tells its position
        o = object.__new__(type(v)); memo[id(v)] = (v, o); o.__dict__.update(v.__dict__)
        return o
    return subst(v, f, k)


def consts(v, out=None, seen=None):
    """the constants free in a value, by id"""
    out = {} if out is None else out; seen = {} if seen is None else seen
    if id(v) in seen: return out
    seen[id(v)] = v
    if isinstance(v, Sym): v = v.z
    if z3.is_expr(v):
        stack = [v]; done = set()
        while stack:
            t = stack.pop()
            if t.get_id() in done: continue
            done.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[t.get_id()] = t
            stack.extend(t.children())
        return out
    if isinstance(v, (Many, PArray)):
        inner = consts(v.value); inner.pop(v.f.get_id(), None); out.update(inner); consts(v.n, out, seen); return out
    if isinstance(v, PMatrix):
        r, c = z3.Int('probe row'), z3.Int('probe column'); inner = consts(v.fn(Sym(r), Sym(c))); inner.pop(r.get_id(), None); inner.pop(c.get_id(), None)
        out.update(inner); consts((v.rows, v.cols), out, seen); return out
    if isinstance(v, (list, tuple, set, frozenset)):
        for x in (raw(v) if isinstance(v, VList) else v): consts(x, out, seen)
    elif isinstance(v, dict):
        for x in v.values(): consts(x, out, seen)
    elif isinstance(getattr(v, '__dict__', None), dict) and not isinstance(v, type) and not callable(v):
        for k, x in v.__dict__.items():
            if k not in ('I', 'b'): consts(x, out, seen)
    return out


def raw(v): return list.__iter__(v)


def general(v): return any(type(x) is Many for x in raw(v))


class Frame:
    def __init__(self, serial): self.serial = serial; self.appends = {}; self.reads = set(); self.writes = {}


SERIAL = [0]


class VList(list):
    """a list of the verified code"""
    pyvc_model = True
    __hash__ = None
    def __init__(self, I, xs=()):
        list.__init__(self, xs); self.I = I; SERIAL[0] += 1; self.serial = SERIAL[0]

    def __getattr__(self, n):
        if n in HOOKS and general(self): return getattr(self, '_' + n)
        raise AttributeError(n)

    def touch(self):
        for fr in self.I.frames:
            if self.serial < fr.serial: fr.reads.add(id(self))

    def closed(self, what):
        self.touch()
        if general(self): raise Unsupported(f'{what} of a list of unknown length')

    # ---- reading
    def __len__(self): self.closed('native length'); return list.__len__(self)
    def __bool__(self): self.closed('native truth'); return list.__len__(self) > 0
    def __iter__(self): self.closed('native iteration'); return list.__iter__(self)
    def __reversed__(self): self.closed('reverse'); return list.__reversed__(self)
    def __contains__(self, x): self.closed('membership'); return list.__contains__(self, x)
    def __eq__(self, o):
        self.closed('comparison')
        if isinstance(o, VList): o.closed('comparison')
        return list.__eq__(self, o)
    def __ne__(self, o): return not self == o
    def index(self, *a): self.closed('index'); return list.index(self, *a)
    def count(self, *a): self.closed('count'); return list.count(self, *a)
    def copy(self): self.touch(); return VList(self.I, raw(self))
    def __copy__(self): return self.copy()
    def __getitem__(self, k):
        self.touch()
        if isinstance(k, slice):
            if not general(self): return VList(self.I, list.__getitem__(self, k))
            if k == slice(None, None, None): return self.copy()
            if k.step is None and isinstance(k.start or 0, int) and isinstance(k.stop, int) and 0 <= (k.start or 0) and 0 <= k.stop <= 64:
                n = self._pyvc_len()
                if self.I.p.decide(z(n, 'int') >= k.stop): return VList(self.I, [self._pyvc_getitem(i) for i in range(k.start or 0, k.stop)])
            raise Unsupported('part of a list of unknown length')
        if not general(self) and not isinstance(k, Sym): return list.__getitem__(self, k)
        return self._pyvc_getitem(k)
    def __add__(self, o):
        self.touch()
        if isinstance(o, VList): o.touch()
        elif not isinstance(o, list): return NotImplemented
        return VList(self.I, [*raw(self), *raw(o)])
    def __radd__(self, o): return VList(self.I, [*o, *raw(self)])
    def __mul__(self, n): self.closed('repetition'); return VList(self.I, list.__mul__(self, n))
    __rmul__ = __mul__

    # ---- writing
    def frame(self):
        fr = self.I.frames[-1] if self.I.frames else None
        return fr if fr is not None and self.serial < fr.serial else None
    def grow(self, xs):
        fr = self.frame()
        if fr is None: list.extend(self, xs)
        else: fr.appends.setdefault(id(self), (self, []))[1].extend(xs)
    def append(self, x): self.grow([x])
    def extend(self, xs):
        if isinstance(xs, VList): xs.touch(); xs = list(raw(xs))
        elif hasattr(xs, 'pyvc_stretches'): xs = [x if k == 'one' else Many(*x) for k, x in xs.pyvc_stretches()]
        self.grow(list(xs))
    def __iadd__(self, xs): self.extend(xs); return self
    def _write(name):
        def w(self, *a, **k):
            if self.frame() is not None: raise Unsupported(f'{name} on a list from before the loop')
            self.closed(name)
            return getattr(list, name)(self, *a, **k)
        w.pyvc_model = True; w.__name__ = name
        return w
    for _n in ('__setitem__', '__delitem__', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', '__imul__'): locals()[_n] = _write(_n)
    for _f in (append, extend, index, count, copy): _f.pyvc_model = True

    # ---- of unknown length
    def _pyvc_len(self):
        self.touch(); n = 0
        for x in raw(self): n = n + (x.n if type(x) is Many else 1)
        return n
    def _pyvc_truth(self):
        self.touch()
        return True if any(type(x) is not Many for x in raw(self)) else self._pyvc_len() > 0
    def _pyvc_list(self): return self.copy()
    def _pyvc_stretches(self): self.touch(); return stretches(self)
    def _pyvc_getitem(self, k):
        self.touch(); p = self.I.p
        if not isinstance(k, Sym) and k < 0: k = self._pyvc_len() + k
        kz = z(k, 'int'); total = self._pyvc_len()
        if not p.decide(z3.And(kz >= 0, kz < z(total, 'int'))): raise IndexError('list index out of range')
        off = 0; cases = []
        for x in raw(self):
            o = z(off, 'int')
            if type(x) is Many: c = z3.And(kz >= o, kz < o + z(x.n, 'int')); off = off + x.n
            else: c = kz == o; off = off + 1
            if p.check(c, ms=5000) == z3.unsat: continue
            v = x.at(S.fold(kz - o), p) if type(x) is Many else x
            if p.check(z3.Not(c), ms=5000) == z3.unsat: return v
            cases.append((c, v))
        if not cases or not all(isinstance(v, Sym) or S.is_num(v) for _, v in cases): 
            if cases and all(isinstance(v, PArray) for _, v in cases): return PArray.merge(cases)
            raise Unsupported('element at an open position')
        r = cases[-1][1]
        for c, v in reversed(cases[:-1]): r = S.ite(Sym(c), v, r)
        return r
    def _pyvc_foreach(self, I, s, env): return foreach(I, s, env, self._pyvc_stretches())
    def _pyvc_comp(self, I, e, env, elt): return comp(I, e, env, elt, self._pyvc_stretches())
    def _pyvc_enumerate(self, start=0): return Stretches(self.I, enumerated(self._pyvc_stretches(), start))
    def _pyvc_zip(self, I, its): return zipped(I, its)


HOOKS = {n[1:] for n in VList.__dict__ if n.startswith('_pyvc_')}


def stretches(v): return [('many', (x.n, x.f, x.value)) if type(x) is Many else ('one', x) for x in raw(v)]


def enumerated(st, start):
    out = []; off = start
    for k, x in st:
        if k == 'one': out.append(('one', (off, x))); off = off + 1
        else: out.append(('many', (x[0], x[1], (off + Sym(x[1]), x[2])))); off = off + x[0]
    return out


class Stretches:
    """something to iterate over, of unknown length"""
    pyvc_model = True
    def __init__(self, I, st): self.I, self.st = I, st
    def pyvc_stretches(self): return self.st
    def pyvc_foreach(self, I, s, env): return foreach(I, s, env, self.st)
    def pyvc_comp(self, I, e, env, elt): return comp(I, e, env, elt, self.st)
    def pyvc_enumerate(self, start=0): return Stretches(self.I, enumerated(self.st, start))
    def pyvc_zip(self, I, its): return zipped(I, its)
    def pyvc_list(self): return VList(self.I, [x if k == 'one' else Many(*x) for k, x in self.st])
    def pyvc_len(self): return self.pyvc_list()._pyvc_len()
    def __iter__(self): raise Unsupported('native iteration over something of unknown length')


class PRange(Stretches):
    """range(lo, hi) with open bounds"""
    def __init__(self, I, lo, hi):
        self.lo, self.hi = lo, hi; n = S.ite(hi > lo, hi - lo, 0)
        _, f = I.p.fresh('position', 'int')
        Stretches.__init__(self, I, [('many', (n, f, lo + Sym(f)))])


def zipped(I, its):
    """sequences of provably equal length, element by element"""
    xs = []
    for it in its:
        if hasattr(it, 'pyvc_list'): it = it.pyvc_list()
        if not isinstance(it, VList): raise Unsupported('zip of unlike sequences')
        xs.append(it)
    n = xs[0]._pyvc_len(); p = I.p
    for x in xs[1:]:
        m = x._pyvc_len()
        if p.check(z(n, 'int') != z(m, 'int'), ms=5000) != z3.unsat: raise Unsupported('zip of sequences of perhaps different length')
    shapes = [[(k, None if k == 'one' else x[0]) for k, x in stretches(x)] for x in xs]
    if all(len(s) == len(shapes[0]) and all(a[0] == b[0] and (a[0] == 'one' or same(p, a[1], b[1])) for a, b in zip(s, shapes[0])) for s in shapes):
        out = []
        for parts in zip(*[stretches(x) for x in xs]):
            if parts[0][0] == 'one': out.append(('one', tuple(q[1] for q in parts)))
            else:
                f = parts[0][1][1]
                out.append(('many', (parts[0][1][0], f, tuple(subst(q[1][2], q[1][1], f) for q in parts))))
        return Stretches(I, out)
    raise Unsupported('zip of sequences built in different ways')


def same(p, a, b): return p.check(z(a, 'int') != z(b, 'int'), ms=5000) == z3.unsat


def some(I, n):
    """there is at least one element (splits the path where that is open)"""
    return I.p.decide(z(n, 'int') >= 1) if isinstance(n, Sym) else n >= 1


class generic:
    """an arbitrary index of a stretch; one run stands for all"""
    def __init__(self, I, n, f, what):
        self.I, self.n, self.what = I, n, what
        _, self.f = I.p.fresh(f'{what} at', 'int')
        self.old = f
    def __enter__(self):
        I = self.I; p = I.p
        p.add(z3.And(self.f >= 0, self.f < z(self.n, 'int')))
        SERIAL[0] += 1; self.frame = Frame(SERIAL[0]); self.made = set(p.counters.items())
        self.before = dict(p.counters)
        self.hook = I.write_hook
        def hook(o, k):
            if isinstance(o, VList) and k in ('append', 'extend', '[]') or isinstance(o, (PMatrix, Row)): return
            if isinstance(o, VList) and o.frame() is None or id(o) in new: return
            raise Unsupported(f'iteration over a stretch of unknown length writes to {type(o).__name__}.{k}')
        hook.new = new = {}
        I.write_hook = hook; I.frames.append(self.frame); p.uniform += 1
        return self
    def __exit__(self, t, v, tb):
        I = self.I
        I.write_hook = self.hook; I.frames.pop(); I.p.uniform -= 1
        return False
    def pack(self, value):
        """the value as a function of the index"""
        free = consts(value); free.pop(self.f.get_id(), None)
        for t in free.values():
            n, _, k = t.decl().name().partition('!')
            if int(k or 1) > self.before.get(n, 0): raise Unsupported(f'value introduced inside an iteration over a stretch of unknown length ({t})')
        return Many(self.n, self.f, value)
    def close(self):
        for i, (o, xs) in self.frame.appends.items():
            if i in self.frame.reads: raise Unsupported('a loop over a stretch of unknown length reads the list it appends to')
            if len(xs) != 1 or type(xs[0]) is Many: raise Unsupported('a loop over a stretch of unknown length that appends more than one element at a time')
        for i, (o, ws) in self.frame.writes.items():
            if i in self.frame.reads: raise Unsupported('a loop over a stretch of unknown length reads the matrix it writes to')
            self.matrix(o, ws)
        return [(o, self.pack(xs[0])) for o, xs in self.frame.appends.values()]
    def matrix(self, o, ws):
        """every iteration writes to a row of its own"""
        offs = [z3.simplify(z(r, 'int') - self.f) for r, c, v in ws]
        if any(self.f.get_id() in consts(x) or not x.eq(offs[0]) for x in offs): raise Unsupported('rows written in a loop over a stretch of unknown length are not one for each iteration')
        for r, c, v in ws: self.pack((c, v))
        old, off, f, n = o.fn, offs[0], self.f, self.n
        def fn(r, c):
            i = z(r, 'int') - off; inside = z3.And(i >= 0, i < z(n, 'int')); out = old(r, c)
            for _, wc, v in ws: out = S.ite(Sym(z3.And(inside, z(c, 'int') == z(subst(wc, f, i), 'int'))), subst(v, f, i), out)
            return out
        o.fn = fn


def value(st, g): return subst(st[2], st[1], g.f)


def foreach(I, s, env, st):
    from .interp import Poison, Brk, Cnt
    names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    if names & (set(env.nonl) | set(env.glob)): raise Unsupported('nonlocal names in a loop over a stretch of unknown length')
    for kind, x in st:
        if kind == 'one':
            I.assign(s.target, x, env)
            try: yield from I.block(s.body, env)
            except Brk: return
            except Cnt: pass
            continue
        if not some(I, x[0]): continue
        empties = {n for n in names if isinstance(env.vars.get(n), VList) and list.__len__(env.vars[n]) == 0 and alone(env, n)}
        with generic(I, x[0], x[1], 'loop') as g:
            for n in names:
                if n in env.vars: env.vars[n] = VList(I) if n in empties else Poison(n)
            I.assign(s.target, value(x, g), env)
            try: yield from I.block(s.body, env)
            except Cnt: pass
            except Brk: raise Unsupported('break out of a loop over a stretch of unknown length')
            for n in empties:
                v = env.vars.get(n)
                if isinstance(v, VList) and v.serial > g.frame.serial and list.__len__(v) == 0 and alone(env, n): continue
                if n in assigned_first(s): continue
                raise Unsupported(f'{n} is carried from one iteration to the next')
            grown = g.close()
        for o, m in grown: o.grow([m])
        for n in names:
            if n in env.vars: env.vars[n] = VList(I) if n in empties and n not in assigned_first(s) else Poison(n)
    yield from I.block(s.orelse, env)


def assigned_first(s):
    """names the body assigns, whole, at top level before anything else mentions them"""
    out = set(); seen = set()
    for t in s.body:
        if isinstance(t, ast.Assign) and len(t.targets) == 1 and isinstance(t.targets[0], ast.Name):
            inside = {n.id for n in ast.walk(t.value) if isinstance(n, ast.Name)}
            if t.targets[0].id not in seen | inside: out.add(t.targets[0].id)
        seen |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
    return out


def alone(env, name):
    """no other local leads to the list this local names"""
    o = env.vars[name]; seen = set(); stack = [v for n, v in env.vars.items() if n != name]
    e = env.parent
    while e is not None: stack.extend(e.vars.values()); e = e.parent
    while stack:
        v = stack.pop()
        if v is o: return False
        if id(v) in seen: continue
        seen.add(id(v))
        if isinstance(v, (list, tuple, set)): stack.extend(raw(v) if isinstance(v, VList) else v)
        elif isinstance(v, dict): stack.extend(v.values())
        elif isinstance(v, Many): stack.append(v.value)
        elif isinstance(getattr(v, '__dict__', None), dict) and not callable(v): stack.extend(v.__dict__.values())
        if len(seen) > 5000: return False
    return True


def comp(I, e, env, elt, st):
    from .interp import Env
    if not isinstance(e, (ast.ListComp, ast.GeneratorExp)): raise Unsupported('set or dict of unknown size')
    if len(e.generators) != 1 or e.generators[0].ifs: raise Unsupported('nested or filtered comprehension over a stretch of unknown length')
    out = []
    for kind, x in st:
        sub = Env(env.globals, env, (), (), (), None, env.cls, env.qual)
        if kind == 'one':
            I.assign(e.generators[0].target, x, sub); out.append(elt(sub)); continue
        if not some(I, x[0]): continue
        with generic(I, x[0], x[1], 'comprehension') as g:
            I.assign(e.generators[0].target, value(x, g), sub)
            v = elt(sub)
            if g.frame.appends or g.frame.writes: raise Unsupported('comprehension that appends')
            out.append(g.pack(v))
    return VList(I, out)


def number(v): return isinstance(v, Sym) or S.is_num(v)


class PArray:
    """a numpy array of unknown length"""
    pyvc_model = True
    __hash__ = None
    __array_ufunc__ = None
    def __init__(self, I, n, f, value): self.I, self.n, self.f, self.value = I, n, f, value
    def pyvc_map(self, fn): return PArray(self.I, fn(self.n), self.f, fn(self.value))
    def pyvc_len(self): return self.n
    def at(self, k): return subst(self.value, self.f, z(k, 'int'))
    def pyvc_getitem(self, k):
        kz = z(k, 'int'); p = self.I.p
        if not p.decide(z3.And(kz >= 0, kz < z(self.n, 'int'))): raise Unsupported('index out of range of an array of unknown length')
        return self.at(k)
    __getitem__ = pyvc_getitem
    def pyvc_stretches(self): return [('many', (self.n, self.f, self.value))]
    def pyvc_foreach(self, I, s, env): return foreach(I, s, env, self.pyvc_stretches())
    def pyvc_comp(self, I, e, env, elt): return comp(I, e, env, elt, self.pyvc_stretches())
    def pyvc_enumerate(self, start=0): return Stretches(self.I, enumerated(self.pyvc_stretches(), start))
    def pyvc_zip(self, I, its): return zipped(I, its)
    def pyvc_list(self): return VList(self.I, [Many(self.n, self.f, self.value)])
    def both(self, op, o, left):
        if isinstance(o, PArray):
            if not same(self.I.p, self.n, o.n): raise Unsupported('arrays of perhaps different length')
            o = subst(o.value, o.f, self.f)
        elif not number(o): raise Unsupported(f'array arithmetic with {type(o).__name__}')
        v = self.I.binop(op, self.value, o) if left else self.I.binop(op, o, self.value)
        return PArray(self.I, self.n, self.f, v)
    @staticmethod
    def merge(cases):
        first = cases[0][1]; p = first.I.p
        vs = [(c, v) for c, v in cases]
        if not all(same(p, v.n, first.n) for _, v in vs): raise Unsupported('arrays of perhaps different length')
        els = [(c, subst(v.value, v.f, first.f)) for c, v in vs]
        if not all(number(v) for _, v in els): raise Unsupported('arrays of unlike elements')
        r = els[-1][1]
        for c, v in reversed(els[:-1]): r = S.ite(Sym(c), v, r)
        return PArray(first.I, first.n, first.f, r)
for _n, _op in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('truediv', ast.Div), ('pow', ast.Pow)):
    setattr(PArray, f'__{_n}__', (lambda op: lambda self, o: self.both(op, o, True))(_op))
    setattr(PArray, f'__r{_n}__', (lambda op: lambda self, o: self.both(op, o, False))(_op))


class PMatrix:
    """a numpy matrix with an unknown number of rows and columns; fn(r, c) is the element at row r, column c"""
    pyvc_model = True
    __hash__ = None
    __array_ufunc__ = None
    def __init__(self, I, rows, cols, fn, running=None):
        self.I, self.rows, self.cols, self.fn, self.running = I, rows, cols, fn, running; SERIAL[0] += 1; self.serial = SERIAL[0]
    def __getattr__(self, n):
        if n.startswith('pyvc_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'{n} of a matrix of unknown size')
    def touch(self):
        for fr in self.I.frames:
            if self.serial < fr.serial: fr.reads.add(id(self))
    def pyvc_map(self, g):
        old = self.fn
        return PMatrix(self.I, g(self.rows), g(self.cols), lambda r, c: g(old(r, c)), self.running)
    def pyvc_len(self): return self.rows
    @property
    def shape(self): return (self.rows, self.cols)
    def at(self, r, c):
        """the element (of the terms summed up, when it is a matrix of running sums)"""
        return self.fn(r, c)
    def index(self, k, n):
        if not isinstance(k, Sym) and not isinstance(k, int): raise Unsupported('part of a matrix of unknown size')
        if not isinstance(k, Sym) and k < 0: k = n + k
        kz = z(k, 'int')
        if not self.I.p.decide(z3.And(kz >= 0, kz < z(n, 'int'))): raise IndexError('index out of bounds')
        return k
    def get(self, r, c):
        self.touch(); r, c = self.index(r, self.rows), self.index(c, self.cols)
        if self.running is not None: raise Unsupported('running sums over a row of unknown length')
        return self.fn(r, c)
    def put(self, r, c, v):
        r, c = self.index(r, self.rows), self.index(c, self.cols)
        if not number(v) or self.running is not None: raise Unsupported('other values in a matrix of unknown size')
        fr = self.I.frames[-1] if self.I.frames else None
        if any(self.serial < g.serial for g in self.I.frames[:-1]): raise Unsupported('a matrix written in nested loops of unknown length')
        if fr is not None and self.serial < fr.serial: fr.writes.setdefault(id(self), (self, []))[1].append((r, c, v)); return
        old = self.fn
        self.fn = lambda i, j: S.ite(Sym(z3.And(z(i, 'int') == z(r, 'int'), z(j, 'int') == z(c, 'int'))), v, old(i, j))
    def pyvc_getitem(self, k): return self.get(*k) if isinstance(k, tuple) and len(k) == 2 else Row(self, self.index(k, self.rows))
    __getitem__ = pyvc_getitem
    def pyvc_setitem(self, k, v):
        if not (isinstance(k, tuple) and len(k) == 2): raise Unsupported('a row stored whole')
        self.put(k[0], k[1], v)
    __setitem__ = pyvc_setitem
    def cumulative(self, axis):
        self.touch()
        if axis not in (1, -1) or self.running is not None: raise Unsupported('running sums the other way')
        return PMatrix(self.I, self.rows, self.cols, self.fn, axis)


class Row:
    pyvc_model = True
    __hash__ = None
    def __init__(self, m, r): self.m, self.r = m, r
    def __getattr__(self, n):
        if n.startswith('pyvc_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'{n} of a row of unknown length')
    def pyvc_len(self): return self.m.cols
    def pyvc_getitem(self, c): return self.m.get(self.r, c)
    __getitem__ = pyvc_getitem
    def pyvc_setitem(self, c, v): self.m.put(self.r, c, v)
    __setitem__ = pyvc_setitem


class Searched:
    """A sequence of unknown length that is searched for its first fitting element.

    Rule for a loop over it (discharged on three kinds of path):
    - an arbitrary iteration that does not leave the loop changes nothing (no object, and no local but the loop variables);
    - the loop is left at an arbitrary first position j: none of the positions named in marks that come before j leaves the loop, j does;
    - it is not left at all: none of the positions in marks leaves it.
    """
    pyvc_model = True
    __hash__ = None
    def __init__(self, I, n, at, marks): self.I, self.n, self.at, self.marks = I, n, at, marks
    def __getattr__(self, n):
        if n.startswith('pyvc_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'{n} of a row of unknown length')
    def pyvc_len(self): return self.n
    def pyvc_getitem(self, k):
        if not self.I.p.decide(z3.And(z(k, 'int') >= 0, z(k, 'int') < z(self.n, 'int'))): raise Unsupported('index perhaps out of range of a row of unknown length')
        return self.at(k)
    __getitem__ = pyvc_getitem
    def pyvc_enumerate(self, start=0): return Searched(self.I, self.n, lambda k: (start + k, self.at(k)), self.marks)
    def pyvc_foreach(self, I, s, env):
        from .engine import PathEnd
        from .interp import Poison, Brk, Cnt, Ret
        p = I.p; names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        if names & (set(env.nonl) | set(env.glob)) or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Delete)) for n in ast.walk(s)): raise Unsupported('search loop with other effects')
        before = {n: env.vars[n] for n in names if n in env.vars}
        hook = I.write_hook
        def quiet(o, k):
            if id(o) not in quiet.new: raise Unsupported(f'a search loop writes to {type(o).__name__}.{k}')
        def iteration(k, last=False):
            """-> how the loop is left, if it is"""
            quiet.new = {}; I.write_hook = quiet; left = None
            I.assign(s.target, self.at(k), env)
            try: yield from I.block(s.body, env)
            except Cnt: pass
            except (Brk, Ret) as e: left = e
            finally: I.write_hook = hook
            if last: return left
            if left is None and any(env.vars.get(n) is not before.get(n) for n in names - targets): raise Unsupported('a search loop carries something from one iteration to the next')
            for n in names: env.vars.pop(n, None)
            env.vars.update(before)
            return left
        way = p.choose(3)
        if way < 2:
            _, j = p.fresh('position in the search', 'int'); p.add(z3.And(j >= 0, j < z(self.n, 'int')))
            if way == 0:
                yield from iteration(Sym(j)); raise PathEnd('search step closed')
        for m in self.marks:
            if not p.decide(z3.And(z(m, 'int') >= 0, z(m, 'int') < (j if way == 1 else z(self.n, 'int')))): continue
            if (yield from iteration(m)): raise PathEnd('left earlier')
        if way == 1:
            left = yield from iteration(Sym(j), last=True)
            if left is None: raise PathEnd('not left here')
            if isinstance(left, Ret): raise left
            return
        for n in targets: env.vars[n] = Poison(n)
        yield from I.block(s.orelse, env)


def array(b, name, n, lo=None, hi=None):
    """an array of n given numbers between lo and hi; its elements are name(0), name(1), ..."""
    I = b.interp; _, f = b.p.fresh(f'{name} at', 'int')
    fn = S.uf(name, 'i', 'r')
    v = Sym(fn(f)); k = z3.Int(f'{name} of')
    if lo is not None: b.p.add(z3.ForAll([k], fn(k) >= lo))
    if hi is not None: b.p.add(z3.ForAll([k], fn(k) <= hi))
    return PArray(I, n, f, v)


def use(b):
    """lists of the verified code may have unknown length from here on"""
    b.interp.vlists = True


def length(v): return v._pyvc_len() if isinstance(v, VList) else v.pyvc_len() if hasattr(v, 'pyvc_len') else len(v)
