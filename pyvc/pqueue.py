"""A priority queue of arbitrary size for proofs: binary heap of [time, id, task] lists plus a dict id -> entry.

Ghost state: for every identifier i, T(i) its time, none(i) whether its task slot has been cleared, P(i) the identity
of its task, inheap(i) whether its entry is in the heap, live(i) whether the dict holds it; n is the next identifier.
Trusted contracts: heapq.heappush adds exactly that entry; heapq.heappop removes and returns an entry that is <= every
other in list order, IndexError when there is none; dict membership, pop, store, delete, len, clear; itertools.count.
"""
import z3
from . import sym as S
from .sym import Sym, Unsupported, PathEnd, Atom, z, fold

I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class TaskAtom:
    def __init__(self, tag): self.tag = tag


class Store:
    def __init__(self, b, name='q'):
        self.b = b; self.p = b.p; p = b.p
        c = lambda nm, s: z3.Const(p.fresh(f'{name}.{nm}', 'int')[0], s)
        self.T = c('T', z3.ArraySort(I_, R_)); self.P = c('P', z3.ArraySort(I_, I_)); self.none = c('none', z3.ArraySort(I_, B_))
        self.inheap = c('inheap', z3.ArraySort(I_, B_)); self.live = c('live', z3.ArraySort(I_, B_))
        self.size = c('size', I_); self.hsize = c('hsize', I_); self.n = c('n', I_)
        self.reg = []; self.tags = {}; self.last = None
        for t in self.wf(): p.add(t)
        p.add(self.n >= 0)
        self.size_axioms()

    def wf(self):
        j = z3.Int('j')
        return [z3.ForAll([j], z3.Implies(self.live[j], z3.And(self.inheap[j], z3.Not(self.none[j]))), patterns=[self.live[j]]),
                z3.ForAll([j], z3.Implies(self.inheap[j], z3.And(0 <= j, j < self.n)), patterns=[self.inheap[j]]),
                z3.ForAll([j], z3.Implies(z3.And(self.inheap[j], z3.Not(self.live[j])), self.none[j]), patterns=[self.inheap[j]])]

    def size_axioms(self):
        """cardinality: 0 exactly when empty"""
        p = self.p; j = z3.Int('j')
        p.add(self.size >= 0); p.add(self.hsize >= 0)
        p.add(z3.Implies(self.size == 0, z3.ForAll([j], z3.Not(self.live[j]), patterns=[self.live[j]])))
        w = p.fresh('w', 'int')[1]
        p.add(z3.Implies(self.size > 0, self.live[w]))
        p.add(z3.Implies(self.hsize == 0, z3.ForAll([j], z3.Not(self.inheap[j]), patterns=[self.inheap[j]])))
        w2 = p.fresh('w', 'int')[1]
        p.add(z3.Implies(self.hsize > 0, self.inheap[w2]))

    def snapshot(self):
        o = object.__new__(Store)
        o.__dict__.update(self.__dict__); return o

    def lex(self, a, c):
        return z3.Or(self.T[a] < self.T[c], z3.And(self.T[a] == self.T[c], a <= c))

    def named(self, nm, t):
        """give a store expression a name (keeps patterns usable)"""
        c = z3.Const(self.p.fresh(f'q.{nm}', 'int')[0], t.sort())
        self.p.add(c == t); return c

    def register(self, v):
        """a list built by the code under proof enters the containers"""
        if isinstance(v, Entry): return v.k
        for o, snap, k in self.reg:
            if o is v:
                if list(o) != snap and any(x is not y for x, y in zip(o, snap)): raise Unsupported('entry changed after it was queued')
                return k
        if not isinstance(v, list) or len(v) != 3: raise Unsupported('entry of another shape')
        t, k, task = v
        if task is None: raise Unsupported('entry without a task')
        kz = z3.simplify(z(k, 'int'))
        self.p.prove('push: the identifier was never used before', Sym(kz == self.n - 1) if getattr(self, 'taken', None) is not None else Sym(z3.BoolVal(False)), False)
        self.T = self.named('T', z3.Store(self.T, kz, z(t, 'real')))
        self.P = self.named('P', z3.Store(self.P, kz, self.tag(task)))
        self.none = self.named('none', z3.Store(self.none, kz, z3.BoolVal(False)))
        self.reg.append((v, list(v), kz))
        return kz

    def tag(self, task):
        if isinstance(task, TaskAtom): return task.tag
        for o, t in self.tags.values():
            if o is task or (isinstance(task, tuple) and isinstance(o, tuple) and len(o) == len(task) and all(x is y for x, y in zip(o, task))): return t
        t = self.p.fresh('task', 'int')[1]
        self.tags[id(task)] = (task, t)
        return t


class Entry:
    def __init__(self, store, k): self.s = store; self.k = k; self._task = False

    def item(self, i):
        s = self.s
        if i in (0, -3): return Sym(s.T[self.k])
        if i in (1, -2): return Sym(self.k)
        if i in (2, -1):
            return None if s.p.decide(s.none[self.k]) else TaskAtom(s.P[self.k])
        raise IndexError('list index out of range')

    def __getitem__(self, i):
        if isinstance(i, slice): return [self.item(k) for k in range(3)][i]
        return self.item(i)

    def __setitem__(self, i, v):
        s = self.s
        if i not in (2, -1): raise Unsupported('store to the time or identifier of an entry')
        if v is None: s.none = s.named('none', z3.Store(s.none, self.k, z3.BoolVal(True)))
        else: raise Unsupported('task replaced')

    def __iter__(self): return iter([self.item(0), self.item(1), self.item(2)])
    def pyvc_len(self): return 3
    def __len__(self): return 3


class Heap:
    def __init__(self, s): self.s = s

    def pyvc_heappush(self, v):
        s = self.s; k = s.register(v)
        s.p.prove('push: the entry is not in the heap yet', Sym(z3.Not(s.inheap[k])), False)
        s.inheap = s.named('inheap', z3.Store(s.inheap, k, z3.BoolVal(True))); s.hsize = s.hsize + 1

    def minimum(self):
        s = self.s; p = s.p
        if p.decide(s.hsize <= 0): raise IndexError('index out of range')
        k = p.fresh('min', 'int')[1]; j = z3.Int('j')
        p.add(s.inheap[k])
        p.add(z3.ForAll([j], z3.Implies(s.inheap[j], s.lex(k, j)), patterns=[s.inheap[j]]))
        return k

    def pyvc_heappop(self):
        s = self.s; k = self.minimum()
        s.inheap = s.named('inheap', z3.Store(s.inheap, k, z3.BoolVal(False)))
        s.hsize = s.named('hsize', s.hsize - 1)
        s.size_axioms()
        e = Entry(s, k); s.last = e
        return e

    def __getitem__(self, i):
        if i != 0: raise Unsupported('heap position')
        return Entry(self.s, self.minimum())

    def pyvc_len(self): return Sym(self.s.hsize)
    def __bool__(self): return not self.s.p.decide(self.s.hsize <= 0)

    def clear(self):
        s = self.s
        s.inheap = s.named('inheap', z3.K(I_, z3.BoolVal(False))); s.hsize = z3.IntVal(0)
    clear.pyvc_model = True


class Map:
    def __init__(self, s): self.s = s

    def _id(self, k):
        if isinstance(k, bool) or not isinstance(k, (int, Sym)): return None
        return z3.simplify(z(k, 'int')) if not (isinstance(k, Sym) and z3.is_real(k.z)) else None

    def pyvc_contains(self, k):
        kz = self._id(k)
        return False if kz is None else fold(self.s.live[kz])

    def _has(self, k):
        kz = self._id(k)
        return kz is not None and self.s.p.decide(self.s.live[kz])

    def _drop(self, kz):
        s = self.s
        s.live = s.named('live', z3.Store(s.live, kz, z3.BoolVal(False)))
        s.size = s.named('size', s.size - 1); s.size_axioms()

    def pop(self, k, *d):
        if not self._has(k):
            if d: return d[0]
            raise KeyError(k)
        kz = self._id(k); self._drop(kz)
        return Entry(self.s, kz)

    def get(self, k, d=None): return Entry(self.s, self._id(k)) if self._has(k) else d

    def pyvc_getitem(self, k):
        if not self._has(k): raise KeyError(k)
        return Entry(self.s, self._id(k))
    __getitem__ = pyvc_getitem

    def pyvc_setitem(self, k, v):
        s = self.s; r = s.register(v); kz = self._id(k)
        s.p.prove('push: the entry is filed under its own identifier', Sym(kz == r), False)
        if s.p.decide(s.live[kz]): return
        s.live = s.named('live', z3.Store(s.live, kz, z3.BoolVal(True)))
        s.size = s.named('size', s.size + 1); s.size_axioms()
    __setitem__ = pyvc_setitem

    def __delitem__(self, k): self.pop(k)
    def pyvc_len(self): return Sym(self.s.size)
    def __len__(self): raise Unsupported('native len of the symbolic dict')
    def __bool__(self): return not self.s.p.decide(self.s.size <= 0)

    def clear(self):
        s = self.s
        s.live = s.named('live', z3.K(I_, z3.BoolVal(False))); s.size = z3.IntVal(0)


class Counter:
    """itertools.count(): strictly increasing identifiers"""
    def __init__(self, s): self.s = s

    def pyvc_next(self, *d):
        s = self.s; v = s.n
        s.n = s.named('n', s.n + 1); s.taken = True
        return Sym(v)


class DropDead:
    """Loop contract for 'take entries off the heap until a live one shows up'."""
    def __init__(self, s): self.s = s

    def fits(self, interp, node, env): return True

    def enter(self, st):
        s = self.s; self.s0 = s.snapshot()
        self.roles = {}
        e = s.last
        if e is not None:
            for n in st.assigned:
                v = st.env.vars.get(n)
                if v is e: self.roles[n] = 'entry'
                elif isinstance(v, TaskAtom) and v.tag.eq(s.P[e.k]): self.roles[n] = 'task'
                elif v is None and n in st.env.vars: self.roles[n] = 'task'
                elif isinstance(v, Sym) and v.z.eq(z3.simplify(e.k)): self.roles[n] = 'id'
                elif isinstance(v, Sym) and v.z.eq(s.T[e.k]): self.roles[n] = 'time'
        self.cur = e.k if self.roles else None

    def havoc(self, st):
        s = self.s; p = s.p
        s.inheap = z3.Const(p.fresh('q.inheap', 'int')[0], z3.ArraySort(I_, B_)); s.hsize = p.fresh('q.hsize', 'int')[1]
        s.size_axioms()
        if self.roles:
            self.cur = p.fresh('cur', 'int')[1]
            e = Entry(s, self.cur); s.last = e
            none = p.decide(s.none[self.cur])
            for n, r in self.roles.items():
                st.env.vars[n] = {'entry': e, 'id': Sym(self.cur), 'time': Sym(s.T[self.cur]), 'task': None if none else TaskAtom(s.P[self.cur])}[r]

    def end(self, st):
        s = self.s
        if self.roles:
            self.cur = s.last.k

    def invariant(self, st):
        s, s0 = self.s, self.s0; j = z3.Int('j')
        out = [('no new entries', Sym(z3.ForAll([j], z3.Implies(s.inheap[j], s0.inheap[j]), patterns=[s.inheap[j]]))),
               ('dict untouched', Sym(z3.And(s.live == s0.live, s.size == s0.size, s.none == s0.none, s.T == s0.T, s.P == s0.P, s.n == s0.n)))]
        if self.roles:
            c = self.cur
            out += [('no live entry lost', Sym(z3.ForAll([j], z3.Implies(z3.And(s.live[j], j != c), s.inheap[j]), patterns=[s.live[j]]))),
                    ('current entry off the heap', Sym(z3.And(z3.Not(s.inheap[c]), 0 <= c, c < s.n, z3.Or(s.live[c], s.none[c])))),
                    ('current entry precedes the rest', Sym(z3.ForAll([j], z3.Implies(s.inheap[j], s.lex(c, j)), patterns=[s.inheap[j]])))]
        else:
            out += [('no live entry lost', Sym(z3.ForAll([j], z3.Implies(s.live[j], s.inheap[j]), patterns=[s.live[j]])))]
        return out
