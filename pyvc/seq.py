"""Sequences of unknown length, handled through one generic element.

Rules (sound for sequences of any length):
- a comprehension over the sequence is evaluated once, on the generic element at the generic index j;
  an evaluation that would have to branch on the element is refused (Unsupported);
- two counts (or sums) over the same sequence are equal when their guards (and terms) are equal for every j;
- a for loop over the sequence runs its body once on the generic element; the body may write only to objects
  the element owns, and may not leave the loop.
"""
import ast
import z3
from . import sym as S
from .sym import Sym, Unsupported, z, fold


class Closed:
    """nothing but what is defined is known about it"""
    pyvc_model = True
    def __getattr__(self, n):
        if n.startswith('pyvc_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'{n} of a sequence of unknown length')


class Base:
    def __init__(self, b, name, n=None):
        self.b = b; self.name = name
        self.n = b.int(f'number of {name}', 0) if n is None else n
        _, self.j = b.p.fresh(f'index of {name}', 'int')
        self.counts = []; self.sums = []; self.made = []; self.extremes = []; self.split = False
        if b.symbolic: b.p.rows = getattr(b.p, 'rows', []) + [self]     # range(n) runs over the positions of this sequence

    def inside(self): return z3.And(self.j >= 0, self.j < z(self.n, 'int'))

    def same(self, t, u):
        """t = u for every index"""
        p = self.b.p
        return p.check(self.inside(), z3.Not(t == u), ms=5000) == z3.unsat

    def whole(self):
        if self.split: raise Unsupported(f'aggregate over a sequence of unknown length whose elements have gone different ways ({self.name})')

    def count(self, guard):
        if guard is not True: self.whole()
        g = z3.simplify(z(guard)) if not isinstance(guard, bool) else z3.BoolVal(guard)
        if z3.is_true(g): return self.n
        if z3.is_false(g): return 0
        for t, c in self.counts:
            if self.same(g, t): return c
        c = self.b.int(f'count of {self.name}', 0)
        self.b.assume(self.b.le(c, self.n))
        self.counts.append((g, c))
        return c

    def total(self, guard, term):
        self.whole()
        g = z3.simplify(z(guard)) if not isinstance(guard, bool) else z3.BoolVal(guard)
        if S.is_num(term): return self.count(guard) * term
        t = z(term, 'int') if not z3.is_real(z(term)) else z(term)
        for g2, t2, c in self.sums:
            if t2.sort() == t.sort() and self.same(g, g2) and self.same(t, t2): return c
        c = self.b.int(f'sum over {self.name}') if z3.is_int(t) else self.b.real(f'sum over {self.name}')
        self.b.assume(self.b.Implies(self.b.eq(self.count(guard), 0), self.b.eq(c, 0)))
        self.sums.append((g, t, c))
        return c


    def extreme(self, guard, term, least, default=None):
        """the greatest (least) term: no term is beyond it, and one of them is it"""
        self.whole(); p = self.b.p; n = self.count(guard)
        if not isinstance(n, Sym) and n == 0 or isinstance(n, Sym) and p.decide(n.z == 0):
            if default is not None: return default[0]
            raise ValueError('the sequence is empty')
        if S.is_num(term): return term
        g = z3.simplify(z(guard)) if not isinstance(guard, bool) else z3.BoolVal(guard)
        t = z(term)
        for g2, t2, l2, m in self.extremes:
            if l2 == least and t2.sort() == t.sort() and self.same(g, g2) and self.same(t, t2): return m
        m = self.b.int(f'extreme of {self.name}') if z3.is_int(t) else self.b.real(f'extreme of {self.name}')
        at = lambda e, i: z3.substitute(e, (self.j, i))
        _, w = p.fresh(f'index of the extreme of {self.name}', 'int')
        p.add(z3.And(w >= 0, w < z(self.n, 'int'), at(g, w), m.z == at(t, w)))
        beyond = lambda e: e >= m.z if least else e <= m.z
        p.add(z3.Implies(z3.And(self.inside(), g), beyond(t)))
        self.extremes.append((g, t, least, m))
        return m


class Generic:
    """what happens to one element in place of all: it may write only to what the element owns and what it makes itself"""
    def __init__(self, I, owned): self.I, self.own = I, {id(x): x for x in owned}
    def __enter__(self):
        I = self.I; self.old = I.write_hook; own = self.own
        def hook(o, k):
            if id(o) not in own and id(o) not in new: raise Unsupported(f'one pass for all elements of a sequence of unknown length writes to {type(o).__name__}.{k}')
        hook.new = new = {}
        I.write_hook = hook; I.p.generic = getattr(I.p, 'generic', 0) + 1
    def __exit__(self, *a): self.I.write_hook = self.old; self.I.p.generic -= 1; return False


class Seq(Closed):
    pyvc_model = True
    __hash__ = None

    def __init__(self, base, elem, guard=True, owned=()):
        self.base, self.elem, self.guard, self.owned = base, elem, guard, owned

    def __getitem__(self, k): return self.pyvc_getitem(k)
    def pyvc_len(self): return self.base.count(self.guard)
    def pyvc_list(self): return self
    def pyvc_truth(self): return self.pyvc_len() > 0

    def _unknown(self, *a, **k): raise Unsupported(f'element by element use of a sequence of unknown length ({self.base.name})')
    __iter__ = __len__ = __contains__ = append = remove = pop = _unknown
    def __bool__(self): return bool(self.pyvc_truth())

    def pyvc_comp(self, I, e, env, elt):
        if len(e.generators) != 1: raise Unsupported('nested comprehension over a sequence of unknown length')
        from .interp import Env
        g = e.generators[0]; p = I.p
        sub = Env(env.globals, env, (), (), (), None, env.cls, env.qual)
        I.assign(g.target, self.elem, sub)
        mark = len(p.taken)
        guard = self.guard
        with Generic(I, (self.elem, *self.owned, *self.base.made)):
            if g.ifs: self.base.whole()
            for c in g.ifs:
                guard = I.b.And(guard, condition(I, c, sub))
                if guard is False: return Seq(self.base, None, False, self.owned)
            val = elt(sub)
        if len(p.taken) != mark: raise Unsupported('comprehension that branches on the elements of a sequence of unknown length')
        if isinstance(e, ast.ListComp) and isinstance(e.elt, (ast.Dict, ast.DictComp, ast.List, ast.ListComp)): self.base.made.append(val)
        return Seq(self.base, val, guard, (*self.owned, self.elem))

    def pyvc_enumerate(self, start=0):
        if self.guard is not True or start != 0: raise Unsupported('positions in a filtered sequence of unknown length')
        return Seq(self.base, (Sym(self.base.j), self.elem), True, (*self.owned, self.elem))

    def pyvc_getitem(self, k):
        if self.guard is True and isinstance(k, Sym) and k.z.eq(self.base.j): return self.elem
        if self.guard is True and k == 0 and not isinstance(k, Sym):
            p = self.base.b.p
            if p.check(z(self.base.n, 'int') != 1, ms=5000) == z3.unsat: p.add(self.base.j == 0); return self.elem     # the only one
        self._unknown()

    def pyvc_sum(self, start=0): return start + self.base.total(self.guard, self.elem if not isinstance(self.elem, bool) else int(self.elem))
    def pyvc_extreme(self, least, default=None): return self.base.extreme(self.guard, self.elem, least, default)
    def pyvc_any(self, I): return self.base.count(I.b.And(self.guard, as_bool(I, self.elem))) > 0
    def pyvc_all(self, I): return S.equal(self.base.count(I.b.And(self.guard, I.b.Not(as_bool(I, self.elem)))), 0)

    def pyvc_foreach(self, I, s, env):
        from .interp import Poison, Brk, Cnt, Ret
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if self.guard is not True: raise Unsupported('loop over a filtered sequence of unknown length')
        if self.accumulate(I, s, env): yield from I.block(s.orelse, env); return
        I.assign(s.target, self.elem, env)
        mark = len(I.p.taken)
        with Generic(I, (self.elem, *self.owned, *self.base.made)):
            try: yield from I.block(s.body, env)
            except Cnt: pass
            except (Brk, Ret): raise Unsupported('way out of a loop over a sequence of unknown length')
        if len(I.p.taken) != mark: self.base.split = True      # from here on only facts about the one element
        for n in names:
            if n in env.vars: env.vars[n] = Poison(n)


    def accumulate(self, I, s, env):
        """a loop that only counts, sums up or collects: n += e, xs.append(e), temporaries, if and continue around them"""
        from .interp import Env, Poison
        names = {}
        def scan(body):
            for t in body:
                if isinstance(t, ast.AugAssign) and isinstance(t.op, ast.Add) and isinstance(t.target, ast.Name): k, n = 'sum', t.target.id
                elif isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Attribute) and t.value.func.attr == 'append' \
                        and isinstance(t.value.func.value, ast.Name) and len(t.value.args) == 1 and not t.value.keywords: k, n = 'list', t.value.func.value.id
                elif isinstance(t, ast.Assign) and len(t.targets) == 1 and isinstance(t.targets[0], ast.Name): k, n = 'temp', t.targets[0].id
                elif isinstance(t, ast.If): 
                    if not (scan(t.body) and scan(t.orelse)): return False
                    continue
                elif isinstance(t, (ast.Continue, ast.Pass)) or isinstance(t, ast.Expr) and isinstance(t.value, ast.Constant): continue
                else: return False
                if n not in env.local and not (k == 'list' and n in env.vars) or names.setdefault(n, k) != k or k == 'list' and names.get('append to ' + n): return False
                if k == 'list': names['append to ' + n] = 'site'
            return True
        if not scan(s.body) or not any(k in ('sum', 'list') for k in names.values()): return False
        self.base.whole()
        used = [n.id for n in ast.walk(s) if isinstance(n, ast.Name)]
        for n, k in names.items():
            if k == 'sum' and (not S.is_num(env.vars.get(n)) and not isinstance(env.vars.get(n), Sym) or used.count(n) != sum(isinstance(t, ast.AugAssign) and t.target.id == n for t in ast.walk(s))): return False
            if k == 'list' and (env.vars.get(n) != [] or used.count(n) != 1): return False
        tmp = {n for n, k in names.items() if k == 'temp'}
        sub = Env(env.globals, env, (), (), (), None, env.cls, env.qual)
        I.assign(s.target, self.elem, sub)
        p = I.p; mark = len(p.taken); out = {}
        def run(body, guard):
            """-> the condition under which the code after the body is reached"""
            for t in body:
                if isinstance(t, ast.Continue): return False
                if isinstance(t, ast.If):
                    c = condition(I, t.test, sub)
                    yes, no = run(t.body, I.b.And(guard, c)), run(t.orelse, I.b.And(guard, I.b.Not(c)))
                    guard = I.b.Or(yes, no)
                elif isinstance(t, ast.AugAssign): out.setdefault(t.target.id, []).append((guard, I.eval(t.value, sub)))
                elif isinstance(t, ast.Assign):
                    if guard is not True and guard is not self.guard: raise Unsupported('temporary set under a condition in a loop over a sequence of unknown length')
                    sub.vars[t.targets[0].id] = I.eval(t.value, sub)
                elif isinstance(t, ast.Expr) and isinstance(t.value, ast.Call):
                    v = I.eval(t.value.args[0], sub); out.setdefault(t.value.func.value.id, []).append((guard, v))
                    if isinstance(t.value.args[0], (ast.Dict, ast.DictComp, ast.List, ast.ListComp)): self.base.made.append(v)
                if len(p.taken) != mark: raise Unsupported('loop that branches on the elements of a sequence of unknown length')
            return guard
        run(s.body, self.guard)
        for n, terms in out.items():
            if names[n] == 'list': env.vars[n] = Seq(self.base, terms[0][1], terms[0][0], self.owned); continue
            v = env.vars[n]
            for g, t in terms: v = v + self.base.total(g, int(t) if isinstance(t, bool) else t)
            env.vars[n] = v
        for n in tmp | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}: env.vars[n] = Poison(n)
        return True


class Groups(Closed):
    """A sequence of any length with elements of several kinds, in any order: for each kind a sequence with its own length
    and generic element. What is done with it is done kind by kind, each under the rules for one generic element."""
    pyvc_model = True
    __hash__ = None
    def __init__(self, parts, guard=True): self.parts = [q for q in parts if q.guard is not False]
    def only(self): return self.parts[0] if len(self.parts) == 1 else self
    def pyvc_len(self):
        n = 0
        for q in self.parts: n = n + q.pyvc_len()
        return n
    def pyvc_list(self): return self
    def pyvc_truth(self): return self.pyvc_len() > 0
    def __bool__(self): return bool(self.pyvc_truth())
    def __getitem__(self, k):
        if len(self.parts) == 1: return self.parts[0][k]
        self._unknown()
    pyvc_getitem = __getitem__
    _unknown = Seq._unknown
    __iter__ = __len__ = __contains__ = append = remove = pop = _unknown
    def pyvc_sum(self, start=0):
        for q in self.parts: start = q.pyvc_sum(start)
        return start
    def pyvc_any(self, I): return I.b.Or(False, *[q.pyvc_any(I) for q in self.parts])
    def pyvc_all(self, I): return I.b.And(True, *[q.pyvc_all(I) for q in self.parts])
    def pyvc_comp(self, I, e, env, elt): return Groups([q.pyvc_comp(I, e, env, elt) for q in self.parts]).only()
    def pyvc_foreach(self, I, s, env):
        """kind by kind; lists the body appends to hold what each kind has added"""
        kept = {n: [] for n, v in env.vars.items() if v == [] and isinstance(v, list)}
        for q in self.parts:
            for n in kept: env.vars[n] = []
            for _ in q.pyvc_foreach(I, s, env): yield _
            for n in kept:
                if isinstance(env.vars[n], Seq): kept[n].append(env.vars[n])
                elif env.vars[n] != []: raise Unsupported('list filled in a loop over a sequence of several kinds')
        for n in kept: env.vars[n] = Groups(kept[n]).only() if kept[n] else []
        if s.orelse: raise Unsupported('else of a loop over a sequence of several kinds')


class Const(Seq):
    """every element is the same value"""
    def __init__(self, b, name, value, n=None): super().__init__(Base(b, name, n), value)
    def pyvc_sum(self, start=0): return start + self.base.n * self.elem


class Values(Closed):
    """any number of given numbers; their distinct values in ascending order are a sequence of unknown length"""
    pyvc_model = True
    def __init__(self, b, name, n=None, kind='real'):
        self.b, self.name = b, name; self.n = b.int(f'number of {name}', 1) if n is None else n
        self.first = b.real(name) if kind == 'real' else b.int(name)
        self.distinct = Base(b, f'distinct {name}'); b.assume(b.And(self.distinct.n >= 1, b.le(self.distinct.n, self.n)))
        self.value = Sym(S.uf(f'{name} in ascending order', 'i', 'r' if kind == 'real' else 'i')(self.distinct.j))
    def pyvc_len(self): return self.n
    def pyvc_truth(self): return True
    def pyvc_getitem(self, k):
        if k == 0: return self.first
        raise Unsupported('element by element use of given values')
    __getitem__ = pyvc_getitem
    def pyvc_set(self): return ValueSet(self)
    def pyvc_foreach(self, *a): raise Unsupported('element by element use of given values')
    pyvc_comp = pyvc_foreach


class Rows(Closed):
    """a tuple of unknown length whose elements are tuples of width numbers"""
    pyvc_model = True
    def __init__(self, b, name, width):
        self.b, self.name, self.width = b, name, width
        self.base = Base(b, name, b.int(f'number of {name}', 1)); b.assume(Sym(self.base.inside()))
    def at(self, k): return tuple(Sym(S.uf(f'{self.name} {i}', 'i', 'r')(z(k, 'int'))) for i in range(self.width))
    def pyvc_len(self): return self.base.n
    def pyvc_truth(self): return True
    def pyvc_getitem(self, k):
        kz = z(k, 'int')
        if self.b.p.check(z3.Not(z3.And(kz >= 0, kz < self.base.n.z)), ms=5000) != z3.unsat: raise Unsupported('index perhaps out of range')
        return self.at(k)
    __getitem__ = pyvc_getitem
    def seq(self): return Seq(self.base, self.at(Sym(self.base.j)))
    def pyvc_comp(self, *a): return self.seq().pyvc_comp(*a)
    def pyvc_foreach(self, *a): return self.seq().pyvc_foreach(*a)
    def pyvc_enumerate(self, start=0): return self.seq().pyvc_enumerate(start)
    def pyvc_zip(self, I, its):
        p = self.b.p
        if not all(isinstance(r, Rows) and (r.base.n.z.eq(self.base.n.z) or p.check(r.base.n.z != self.base.n.z, ms=5000) == z3.unsat) for r in its): raise Unsupported('zip of unlike sequences')
        return Seq(self.base, tuple(r.at(Sym(self.base.j)) for r in its))


class Mixed(Closed):
    """A sequence of any length with so many elements of each of some known values, in any order.

    Rule for a loop over it: run once for each value, from arbitrary numbers in everything the body writes to, the body
    must add to each of them an amount that does not depend on those numbers; after the loop each has grown by the sum
    over the values of amount times how often the value occurs. Bodies that branch on anything open are refused.
    """
    pyvc_model = True
    __hash__ = None
    def __init__(self, b, values, text=False): self.b, self.values, self.pyvc_str = b, values, text
    def pyvc_len(self):
        n = 0
        for _, k in self.values: n = n + k
        return n
    def __len__(self): raise Unsupported('native length of a sequence of unknown length')
    def __iter__(self): raise Unsupported('native iteration over a sequence of unknown length')
    def pyvc_truth(self): return self.pyvc_len() > 0
    def count(self, x): return next((k for v, k in self.values if v == x), 0)
    count.pyvc_model = True
    def pyvc_list(self): return Mixed(self.b, self.values)
    def pyvc_sum(self, start=0):
        for v, k in self.values: start = start + v * k
        return start
    def pyvc_comp(self, I, e, env, elt):
        if len(e.generators) != 1: raise Unsupported('nested comprehension over a sequence of unknown length')
        from .interp import Env
        g = e.generators[0]; out = []
        I.p.uniform += 1
        try:
            for v, k in self.values:
                sub = Env(env.globals, env, (), (), (), None, env.cls, env.qual); I.assign(g.target, v, sub)
                if all(I.truth(I.eval(c, sub)) for c in g.ifs): out.append((elt(sub), k))
        finally: I.p.uniform -= 1
        return Mixed(self.b, out)
    def pyvc_foreach(self, I, s, env):
        from .interp import Poison, Brk, Cnt, Ret
        p = I.p
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if names & (set(env.nonl) | set(env.glob)) or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Delete)) for n in ast.walk(s)): raise Unsupported('accumulating loop with other effects')
        number = lambda v: isinstance(v, Sym) and not z3.is_bool(v.z) or S.is_num(v) and not isinstance(v, bool)
        boxes = {id(v): v for v in env.vars.values() if isinstance(v, (dict, list))}
        start = {n: env.vars[n] for n in names if n in env.vars}; held = {i: (dict(v) if isinstance(v, dict) else list(v)) for i, v in boxes.items()}
        def restore(locals_, contents):
            for n in names: env.vars.pop(n, None)
            env.vars.update(locals_)
            for i, c in contents.items():
                o = boxes[i]; o.clear()
                o.update(c) if isinstance(o, dict) else o.extend(c)
        written = set(); old = I.write_hook
        def hook(o, k):
            if id(o) in hook.new: return
            if id(o) not in boxes: raise Unsupported(f'accumulating loop writes to {type(o).__name__}.{k}')
            written.add(id(o))
        def once(v):
            hook.new = {}; I.write_hook = hook; p.uniform += 1
            try:
                I.assign(s.target, v, env)
                try: yield from I.block(s.body, env)
                except Cnt: pass
                except (Brk, Ret): raise Unsupported('accumulating loop that may be left')
            finally: I.write_hook = old; p.uniform -= 1
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        for v, _ in self.values:            # what does the body write to
            yield from once(v); restore(start, held)
        cells = {('local', n): start[n] for n in names - targets if n in start and number(start[n])}
        for i in written:
            c = held[i]
            for k, x in (c.items() if isinstance(c, dict) else enumerate(c)):
                if not number(x): raise Unsupported('accumulating loop over other things than numbers')
                cells[i, k] = x
        real = {c for c, x in cells.items() if not (z3.is_int(x.z) if isinstance(x, Sym) else isinstance(x, int))}
        while True:
            fresh = {c: Sym(p.fresh('accumulated', 'real' if c in real else 'int')[1]) for c in cells}
            gone = {n: fresh['local', n] if ('local', n) in fresh else Poison(n) for n in start}
            contents = {i: ({k: fresh[i, k] for k in c} if isinstance(c, dict) else [fresh[i, k] for k in range(len(c))]) if i in written else c for i, c in held.items()}
            deltas = []; again = False
            for v, _ in self.values:
                restore(gone, contents); before = set(written)
                yield from once(v)
                if written != before: raise Unsupported('accumulating loop writes to other things on the way')
                d = {}
                for c, f in fresh.items():
                    if c[0] == 'local': new = env.vars.get(c[1])
                    else:
                        o = boxes[c[0]]
                        if len(o) != len(held[c[0]]) or isinstance(o, dict) and c[1] not in o: raise Unsupported('accumulating loop changes what there is to accumulate into')
                        new = o[c[1]]
                    if not number(new): raise Unsupported('accumulating loop over other things than numbers')
                    x = z(new)
                    if c not in real and not z3.is_int(x): real.add(c); again = True
                    d[c] = z3.simplify(x - f.z if z3.is_int(x) == z3.is_int(f.z) else z3.ToReal(x) - f.z if z3.is_int(x) else x - z3.ToReal(f.z))
                deltas.append(d)
            if not again: break
        from .pw import consts
        taken = {f.z.get_id() for f in fresh.values()}
        if any(taken & set(consts(x)) for d in deltas for x in d.values()): raise Unsupported('accumulating loop adds what depends on what it has added up')
        restore(start, held)
        for c, x in cells.items():
            for d, (_, k) in zip(deltas, self.values): x = x + fold(d[c]) * k
            if c[0] == 'local': env.vars[c[1]] = x
            else: boxes[c[0]][c[1]] = x
        for n in names:
            if ('local', n) not in cells: env.vars[n] = Poison(n)
        yield from I.block(s.orelse, env)


class ValueSet(Closed):
    pyvc_model = True
    def __init__(self, v): self.v = v
    def pyvc_len(self): return self.v.distinct.n
    def pyvc_truth(self): return True
    def pyvc_sorted(self, key, reverse):
        if key is not None or reverse: raise Unsupported('other order')
        return Seq(self.v.distinct, self.v.value)
    pyvc_foreach = pyvc_comp = Values.pyvc_foreach


def condition(I, e, env):
    """the value of a test, without branching on it"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return I.b.Not(condition(I, e.operand, env))
    if isinstance(e, ast.BoolOp):
        try: cs = [condition(I, v, env) for v in e.values]
        except (TypeError, ValueError, LookupError, AttributeError, ArithmeticError) as x: raise Unsupported(f'a test whose later part needs its earlier part ({x})')
        return (I.b.And if isinstance(e.op, ast.And) else I.b.Or)(*cs)
    return as_bool(I, I.eval(e, env))


def as_bool(I, v):
    if isinstance(v, Seq): return v.pyvc_truth()
    if isinstance(v, Sym): return v if z3.is_bool(v.z) else fold(v.z != 0)
    return I.truth(v)
