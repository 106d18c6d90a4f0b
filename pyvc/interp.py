"""AST interpreter over the real function objects of /repo."""
import ast, builtins, collections, enum, functools, inspect, math, operator, os, random, textwrap, types
import numpy as np
from fractions import Fraction
import z3
from . import REPO
from . import sym as S
from .cx import Cx
from .ostr import OStr
from .sym import Sym, SStr, Unsupported, PathEnd, EngineSignal, Atom, frac, is_num

MAX_LOOP = 600
_tree_cache = {}
_fn_cache = {}


def source_node(code):
    """FunctionDef/Lambda node of a code object, from the file on disk."""
    if code in _fn_cache: return _fn_cache[code]
    fn = code.co_filename
    if fn not in _tree_cache:
        src = open(fn, encoding='utf-8').read()
        _tree_cache[fn] = ast.parse(src)
    tree = _tree_cache[fn]
    best = None
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
            line = n.lineno
            if isinstance(n, ast.FunctionDef):
                if n.name != code.co_name: continue
                if n.decorator_list: line = min(line, min(d.lineno for d in n.decorator_list))
            elif isinstance(n, ast.Lambda) and code.co_name != '<lambda>': continue
            elif isinstance(n, ast.GeneratorExp): continue
            if line == code.co_firstlineno:
                if isinstance(n, ast.Lambda):
                    pos = next(code.co_positions(), None)
                    cols = [p[2] for p in code.co_positions() if p[2] is not None and p[0] == n.body.lineno]
                    if cols and not (n.col_offset <= min(cols)): continue
                    if cols and n.end_lineno == n.lineno and max(cols) > n.end_col_offset: continue
                best = n
    if best is None: raise Unsupported(f'no source for {code.co_name}')
    _fn_cache[code] = best
    return best


_info_cache = {}


def info(node):
    """(assigned local names, nonlocal/global names, is generator)"""
    if node in _info_cache: return _info_cache[node]
    assigned, glob, nonl = set(), set(), set()
    gen = False
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, ast.FunctionDef):
            assigned.add(n.name); stack += n.decorator_list + n.args.defaults; continue
        if isinstance(n, ast.ClassDef):
            assigned.add(n.name); continue
        if isinstance(n, (ast.Lambda,)): continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            stack.append(n.generators[0].iter)
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr): assigned.add(m.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): assigned.add(n.id)
        if isinstance(n, ast.Global): glob.update(n.names)
        if isinstance(n, ast.Nonlocal): nonl.update(n.names)
        if isinstance(n, (ast.Yield, ast.YieldFrom)): gen = True
        if isinstance(n, ast.ExceptHandler) and n.name: assigned.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: assigned.add((a.asname or a.name).split('.')[0])
        stack += list(ast.iter_child_nodes(n))
    r = (assigned - glob - nonl, glob, nonl, gen)
    _info_cache[node] = r
    return r


class Poison:
    def __init__(self, name): self.name = name


class Env:
    __slots__ = ('vars', 'parent', 'func', 'local', 'glob', 'nonl', 'globals', 'cls', 'loopno', 'cells', 'qual')

    def __init__(self, globals_, parent=None, local=(), glob=(), nonl=(), cells=None, cls=None, qual=''):
        self.vars = {}; self.parent = parent; self.local = local; self.glob = glob; self.nonl = nonl
        self.globals = globals_; self.cells = cells or {}; self.cls = cls; self.qual = qual


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception): pass
class Cnt(Exception): pass


class InterpFunction:
    """A closure created by interpreted code."""
    def __init__(self, interp, node, env, name):
        self.interp = interp; self.node = node; self.env = env; self.__name__ = name
        a = node.args
        self.defaults = [interp.eval(d, env) for d in a.defaults]
        self.kwdefaults = [interp.eval(d, env) if d is not None else None for d in a.kw_defaults]
        self.__qualname__ = f'{env.qual}.<locals>.{name}'

    def __call__(self, *a, **k):
        return self.interp.call_node(self.node, list(a), k, self.env.globals, parent=self.env,
                                     defaults=self.defaults, kwdefaults=dict(zip([x.arg for x in self.node.args.kwonlyargs], self.kwdefaults)),
                                     qual=self.__qualname__, cls=self.env.cls)

    def __get__(self, obj, owner=None):
        return types.MethodType(self, obj) if obj is not None else self


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
          ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
          ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.MatMult: operator.matmul}
IOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv}
CMPOPS = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
          ast.Eq: operator.eq, ast.NotEq: operator.ne}


def is_repo_code(code):
    return code.co_filename.startswith(REPO + os.sep)


def lift(x):
    """native float -> exact decimal; numpy scalars -> python"""
    if isinstance(x, float) and not (math.isinf(x) or math.isnan(x)):
        return frac(x)
    if type(x).__module__ == 'numpy' and hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        return lift(x.item())
    return x


class Interp:
    def __init__(self, path, models):
        self.p = path; self.models = models; self.stubs = {}; self.loopspecs = {}; self.b = None
        self.depth = 0
        self.loop_counter = {}
        self.write_hook = None
        self.frames = []; self.vlists = False

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported('recursion too deep')
        try:
            return self._call(f, args, kwargs)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, types.MethodType):
            fn = f.__func__
            if fn in self.stubs:
                return self.stubs[fn](f.__self__, *args, **kwargs)
            if not isinstance(fn, types.FunctionType) or not is_repo_code(fn.__code__):
                try: m = self.stubs.get(f) or self.models.get(f)
                except TypeError: m = None
                if m is not None and f in self.stubs: return m(*args, **kwargs)
                if m is not None:
                    self.p.stats.models.add(getattr(f, '__qualname__', str(f)))
                    return m(self, *args, **kwargs)
                if isinstance(f.__self__, (random.Random, np.random.RandomState)): raise Unsupported(f'random source {f.__name__}')
            return self._call(fn, [f.__self__] + list(args), kwargs)
        if isinstance(f, InterpFunction):
            return f(*args, **kwargs)
        try:
            st = self.stubs.get(f)
        except TypeError:
            st = None
        if st is not None:
            return st(*args, **kwargs)
        if isinstance(f, Sym) or isinstance(f, Atom):
            if isinstance(f, Atom) and hasattr(f, 'on_call'): return f.on_call(*args, **kwargs)
            raise TypeError(f'{f!r} is not callable')
        if isinstance(f, functools.partial):
            return self._call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            self.p.stats.models.add(getattr(f, '__qualname__', getattr(f, '__name__', str(f))))
            return m(self, *args, **kwargs)
        if isinstance(f, types.FunctionType):
            if is_repo_code(f.__code__):
                self.p.stats.functions[f.__module__.replace('pysim.', '') + '.' + f.__qualname__] += 1
                node = source_node(f.__code__)
                cells = {}
                if f.__closure__:
                    cells = dict(zip(f.__code__.co_freevars, f.__closure__))
                parts = f.__qualname__.split('.')
                cls = parts[-2] if len(parts) >= 2 and parts[-2] != '<locals>' else None
                return self.call_node(node, args, kwargs, f.__globals__, cells=cells,
                                      defaults=list(f.__defaults__ or ()), kwdefaults=f.__kwdefaults__ or {},
                                      qual=f.__qualname__, cls=cls)
            wrapped = getattr(f, '__wrapped__', None)
            return self.native(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType, types.MethodWrapperType)):
            return self.native_method(f, args, kwargs)
        call = getattr(type(f), '__call__', None)
        if isinstance(call, types.FunctionType) and is_repo_code(call.__code__):
            return self._call(call, [f] + list(args), kwargs)
        if getattr(f, 'pyvc_model', False):
            return f(*args, **kwargs)
        if callable(f):
            return self.native(f, args, kwargs)
        raise TypeError(f"'{type(f).__name__}' object is not callable")

    def native_method(self, f, args, kwargs):
        obj = getattr(f, '__self__', None)
        if isinstance(obj, str):
            if f.__name__ == 'join' and len(args) == 1: args = [list(self.iterate(args[0]))]
            if S.deep_has_sym(args) or S.deep_has_sym(kwargs):
                return self.models['str.method'](self, obj, f.__name__, args, kwargs)
            return f(*args, **kwargs)
        if isinstance(obj, (list, dict, set, collections.deque, tuple)) or isinstance(f, types.MethodDescriptorType):
            if f.__name__ == 'sort' and S.deep_has_sym(obj):
                raise Unsupported('sorting symbolic values')
            if self.write_hook and f.__name__ in ('append', 'pop', 'clear', 'update', 'remove', 'extend', 'insert', 'add', 'setdefault', 'discard'):
                self.write_hook(obj, f.__name__)
            return f(*args, **kwargs)
        return self.native(f, args, kwargs)

    def native(self, f, args, kwargs):
        mod = getattr(f, '__module__', None) or ''
        if args and type(args[0]).__name__ == 'VList' and mod == 'pyvc.pw': return f(*args, **kwargs)
        if S.deep_has_sym(list(args)) or S.deep_has_sym(kwargs):
            if getattr(f, 'pyvc_model', False) or mod.startswith('pyvc') or mod.startswith('specs'):
                return f(*args, **kwargs)
            raise Unsupported(f'native call {mod}.{getattr(f, "__qualname__", f)} on symbolic arguments')
        conv = lambda x: float(x) if isinstance(x, Fraction) else x
        return f(*[conv(a) for a in args], **{k: conv(v) for k, v in kwargs.items()})

    def instantiate(self, cls, args, kwargs):
        m = getattr(cls, 'model_construct', None)
        if m is not None and hasattr(cls, 'model_fields'):
            for k in cls.model_fields:
                if k not in kwargs and cls.model_fields[k].is_required():
                    raise TypeError(f'missing field {k}')
            for k in kwargs:
                if k not in cls.model_fields: kwargs = {a: v for a, v in kwargs.items() if a in cls.model_fields}
            return m(**kwargs)
        if cls.__module__.startswith('pysim') and not issubclass(cls, (enum.Enum, BaseException)):
            init = cls.__init__
            if isinstance(init, types.FunctionType) and is_repo_code(init.__code__):
                obj = cls.__new__(cls)
                if getattr(self.write_hook, 'new', None) is not None: self.write_hook.new[id(obj)] = obj
                self._call(init, [obj] + list(args), kwargs)
                return obj
            return cls(*args, **kwargs)      # dataclass-generated or trivial __init__
        if issubclass(cls, BaseException):
            try: return cls(*args, **kwargs)
            except EngineSignal: raise
        if cls in (list, tuple, set, dict, frozenset, collections.deque, collections.defaultdict, collections.OrderedDict):
            return cls(*args, **kwargs)
        if cls is object: return object()
        if cls is super: raise Unsupported('explicit super()')
        return self.native(cls, args, kwargs)

    def bind(self, node, args, kwargs, defaults, kwdefaults, env, interp_name):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        v = env.vars
        for i, name in enumerate(pos):
            if i < len(args):
                if name in kwargs and name not in [x.arg for x in a.posonlyargs]:
                    raise TypeError(f"{interp_name}() got multiple values for argument '{name}'")
                v[name] = args[i]
            elif name in kwargs: v[name] = kwargs.pop(name)
            else:
                k = i - (len(pos) - len(defaults))
                if k >= 0: v[name] = defaults[k]
                else: raise TypeError(f"{interp_name}() missing required argument: '{name}'")
        if self.vlists and any(type(x).__name__ == 'Many' for x in args[:len(pos)]): raise Unsupported('arguments from something of unknown length')
        if a.vararg: v[a.vararg.arg] = self.listed(args[len(pos):]) if self.vlists and any(type(x).__name__ == 'Many' for x in args) else tuple(args[len(pos):])
        elif len(args) > len(pos):
            raise TypeError(f'{interp_name}() takes {len(pos)} positional arguments but {len(args)} were given')
        for x in a.kwonlyargs:
            if x.arg in kwargs: v[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults: v[x.arg] = kwdefaults[x.arg]
            else: raise TypeError(f"{interp_name}() missing keyword-only argument '{x.arg}'")
        if a.kwarg: v[a.kwarg.arg] = kwargs
        elif kwargs:
            raise TypeError(f"{interp_name}() got an unexpected keyword argument '{next(iter(kwargs))}'")

    def call_node(self, node, args, kwargs, globals_, parent=None, cells=None, defaults=(), kwdefaults=None, qual='', cls=None):
        if isinstance(node, ast.Lambda):
            env = Env(globals_, parent, (), (), (), cells, cls, qual)
            self.bind(node, args, kwargs, defaults, kwdefaults or {}, env, '<lambda>')
            return self.eval(node.body, env)
        local, glob, nonl, gen = info(node)
        env = Env(globals_, parent, local, glob, nonl, cells, cls, qual)
        self.bind(node, args, kwargs, defaults, kwdefaults or {}, env, node.name)
        env.func = node
        if gen:
            return self.run_gen(node, env)
        try:
            for _ in self.block(node.body, env):
                raise Unsupported('yield outside a generator')
        except Ret as r:
            return r.v
        except RuntimeError as e:
            if isinstance(e.__cause__, StopIteration): raise e.__cause__      # statements run inside Python generators
            raise
        return None

    def run_gen(self, node, env):
        try:
            yield from self.block(node.body, env)
        except Ret as r:
            return r.v

    # ------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None: raise Unsupported(f'statement {type(s).__name__}')
            r = m(s, env)
            if r is not None:
                yield from r

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Yield): return self._yield(s.value, env, None)
        if isinstance(s.value, ast.YieldFrom): return self._yield_from(s.value, env)
        if not isinstance(s.value, ast.Constant): self.eval(s.value, env)

    def _yield(self, y, env, target):
        v = yield (self.eval(y.value, env) if y.value else None)
        if target is not None: self.assign(target, v, env)

    def _yield_from(self, y, env):
        yield from self.iterate(self.eval(y.value, env))

    def s_Pass(self, s, env): pass

    def s_Assign(self, s, env):
        if isinstance(s.value, ast.Yield):
            return self._yield(s.value, env, s.targets[0])
        v = self.eval(s.value, env)
        for t in s.targets: self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target; op = type(s.op)
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            self.store(t.id, self.iop(op, old, self.eval(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            name = self.mangle(t.attr, env)
            old = self.getattr(o, name)
            self.setattr(o, name, self.iop(op, old, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env); k = self.eval(t.slice, env)
            v = self.eval(s.value, env)
            if isinstance(k, SStr) and len(k) == 1 and type(o) is dict and op is ast.Add:
                # one symbolic character as key: each candidate entry is updated under its guard
                matched = z3.Or([S.char_eq(k.chars[0], c) for c in o if isinstance(c, str)])
                if self.p.decide(z3.Not(matched)): raise KeyError('symbolic character')
                for c in o:
                    g = z3.simplify(S.char_eq(k.chars[0], c))
                    o[c] = self.binop(ast.Add, o[c], S.ite(S.fold(g), v, 0))
                return
            old = self.getitem(o, k)
            self.setitem(o, k, self.iop(op, old, v))
        else: raise Unsupported('augmented assignment target')

    def iop(self, op, a, b):
        if type(a).__name__ == 'ndarray' or isinstance(a, (list, set)):
            if op in IOPS:
                if type(a).__name__ == 'ndarray' and a.dtype != object and S.deep_has_sym([b]):
                    raise Unsupported('in-place update of a native array with symbolic values')
                if self.write_hook: self.write_hook(a, '[]')
                return IOPS[op](a, b)
        return self.binop(op, a, b)

    def s_Return(self, s, env):
        raise Ret(self.eval(s.value, env) if s.value else None)

    def s_Break(self, s, env): raise Brk()
    def s_Continue(self, s, env): raise Cnt()
    def s_Global(self, s, env): pass
    def s_Nonlocal(self, s, env): pass

    def s_Import(self, s, env):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for part in a.name.split('.')[1:]: m = getattr(m, part)
            self.store(a.asname or a.name.split('.')[0], m, env)

    def s_ImportFrom(self, s, env):
        import importlib
        m = importlib.import_module('.' * s.level + (s.module or ''), env.globals.get('__package__'))
        for a in s.names: self.store(a.asname or a.name, getattr(m, a.name), env)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, env); k = self.eval(t.slice, env)
                if self.write_hook: self.write_hook(o, 'del')
                f = getattr(type(o), '__delitem__'); f(o, k)
            elif isinstance(t, ast.Name): env.vars.pop(t.id)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if self.write_hook: self.write_hook(o, t.attr)
                delattr(o, t.attr)
            else: raise Unsupported('del')

    def s_If(self, s, env):
        c = self.eval(s.test, env)
        if isinstance(c, Sym) and self.mergeable(s):
            if self.try_merge(s, c, env): return None
        return self.block(s.body if self.truth(c) else s.orelse, env)

    def mergeable(self, s):
        if hasattr(s, '_merge'): return s._merge
        ok = True
        for st in s.body + s.orelse:
            if isinstance(st, (ast.AugAssign,)) and isinstance(st.target, ast.Name) and isinstance(st.op, (ast.Add, ast.Sub)): e = [st.value]
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name): e = [st.value]
            elif isinstance(st, ast.Pass): continue
            else: ok = False; break
            for x in e:
                for n in ast.walk(x):
                    if not isinstance(n, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.UnaryOp, ast.unaryop, ast.expr_context)) \
                            or isinstance(n, (ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)):
                        ok = False
        s._merge = ok
        return ok

    def try_merge(self, s, c, env):
        before = dict(env.vars)
        outs = []
        for stmts in (s.body, s.orelse):
            env.vars = dict(before)
            try:
                for st in stmts:
                    if not isinstance(st, ast.Pass): getattr(self, 's_' + type(st).__name__)(st, env)
            except (NameError, Unsupported):
                env.vars = before
                return False
            outs.append(env.vars)
        env.vars = before
        a, b = outs
        names = [n for n in set(a) | set(b) if a.get(n, self) is not b.get(n, self)]
        merged = {}
        for n in names:
            if n not in a or n not in b: return False
            x, y = a[n], b[n]
            if not all(is_num(v) or isinstance(v, (bool, Sym)) for v in (x, y)): return False
            bx = isinstance(x, bool) or isinstance(x, Sym) and z3.is_bool(x.z)
            by = isinstance(y, bool) or isinstance(y, Sym) and z3.is_bool(y.z)
            if bx != by or S.isreal(x) != S.isreal(y): return False
            o = before.get(n)
            if not bx and is_num(o) or isinstance(o, Sym) and not bx:
                # keep counters linear: old + ite(c, dx, dy)
                dx, dy = self.binop(ast.Sub, x, o), self.binop(ast.Sub, y, o)
                if not isinstance(dx, Sym) and not isinstance(dy, Sym):
                    merged[n] = self.binop(ast.Add, o, S.ite(c, dx, dy)); continue
            merged[n] = S.ite(c, x, y)
        env.vars.update(merged)
        return True

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise AssertionError(self.eval(s.msg, env) if s.msg else '')

    def s_Raise(self, s, env):
        if s.exc is None:
            raise self.current_exc[-1]
        e = self.eval(s.exc, env)
        if isinstance(e, type): e = self.call(e, [])
        if not isinstance(e, BaseException): raise TypeError('exceptions must derive from BaseException')
        if s.cause: self.eval(s.cause, env)
        raise e

    current_exc = []

    def s_Try(self, s, env): return self._try(s, env)

    def _try(self, s, env):
        try:
            try:
                yield from self.block(s.body, env)
            except (Ret, Brk, Cnt): raise
            except Exception as e:
                if isinstance(e, RuntimeError) and isinstance(e.__cause__, StopIteration): e = e.__cause__
                for h in s.handlers:
                    if h.type is None: match = True
                    else:
                        t = self.eval(h.type, env)
                        match = isinstance(e, t)
                    if match:
                        if h.name: env.vars[h.name] = e
                        self.current_exc.append(e)
                        try: yield from self.block(h.body, env)
                        finally: self.current_exc.pop()
                        break
                else: raise e
            else:
                yield from self.block(s.orelse, env)
        except EngineSignal:
            raise
        except BaseException:
            if s.finalbody: yield from self.block(s.finalbody, env)
            raise
        else:
            if s.finalbody: yield from self.block(s.finalbody, env)

    def s_With(self, s, env): return self._with(s, env)

    def _with(self, s, env):
        for it in s.items:
            m = self.eval(it.context_expr, env)
            v = m.__enter__()
            if it.optional_vars: self.assign(it.optional_vars, v, env)
        try:
            yield from self.block(s.body, env)
        finally:
            m.__exit__(None, None, None)

    def s_FunctionDef(self, s, env):
        f = InterpFunction(self, s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, env), [f])
        self.store(s.name, f, env)

    def loop_spec(self, s, env):
        fn = getattr(env, 'func', None)
        if fn is None or not self.loopspecs: return None
        if not hasattr(fn, '_loops'):
            loops = [n for n in ast.walk(fn) if isinstance(n, (ast.While, ast.For))]
            loops.sort(key=lambda n: (n.lineno, n.col_offset))
            fn._loops = loops
        i = next((k for k, n in enumerate(fn._loops) if n is s), None)
        spec = self.loopspecs.get((env.qual, i)) or self.loopspecs.get((env.qual, None))
        if spec is None:        # contract for whichever loop of a class (or of anything) meets the condition
            for (q, k), sp in self.loopspecs.items():
                if q.endswith('*') and (q[:-1].isdigit() or env.qual.startswith(q[:-1])) and sp.fits(self, s, env): return sp
        return spec

    def s_While(self, s, env):
        spec = self.loop_spec(s, env)
        if spec is not None: return self.loop_contract(spec, s, env)
        return self._while(s, env)

    def _while(self, s, env):
        n = 0
        while True:
            if not self.truth(self.eval(s.test, env)):
                yield from self.block(s.orelse, env)
                return
            n += 1
            if n > MAX_LOOP: raise Unsupported('loop bound exceeded')
            try: yield from self.block(s.body, env)
            except Brk: return
            except Cnt: pass

    def s_For(self, s, env):
        spec = self.loop_spec(s, env)
        if spec is not None: return self.loop_contract(spec, s, env)
        return self._for(s, env)

    def _for(self, s, env):
        it = self.eval(s.iter, env)
        if hasattr(it, 'pyvc_foreach'):
            yield from it.pyvc_foreach(self, s, env)
            return
        n = 0
        for v in self.iterate(it):
            n += 1
            if n > MAX_LOOP * 4: raise Unsupported('loop bound exceeded')
            self.assign(s.target, v, env)
            try: yield from self.block(s.body, env)
            except Brk: return
            except Cnt: pass
        yield from self.block(s.orelse, env)

    def loop_contract(self, spec, s, env):
        """spec: object with enter(st), havoc(st), invariant(st) -> [(name, cond)], guard for For loops."""
        p = self.p
        assigned = set()
        for st in s.body + ([s.target] if isinstance(s, ast.For) else []) + ([s.test] if isinstance(s, ast.While) else []):
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): assigned.add(n.id)
        assigned &= set(env.vars) | set(env.local)
        state = LoopState(self, env, s, assigned)
        if isinstance(s, ast.For): state.iter = self.eval(s.iter, env)
        if hasattr(spec, 'peel'):       # iterations the code runs before the contract applies
            left = yield from spec.peel(state)
            if left: return
        spec.enter(state)
        for name, c in spec.invariant(state): p.prove(f'{env.qual}/loop-entry:{name}', c, False)
        for n in assigned:
            if n in env.vars: env.vars[n] = Poison(n)
        spec.havoc(state); p.havoced = True
        for name, c in spec.invariant(state): p.assume(c)
        if isinstance(s, ast.For):
            more = spec.step(state)      # (guard, value) or decides
            go = more is not None
            if go: self.assign(s.target, more[0], env)
        else:
            go = self.truth(self.eval(s.test, env))
        if go:
            old_hook = self.write_hook
            self.write_hook = spec.write_guard(state) if hasattr(spec, 'write_guard') else old_hook
            try:
                try: yield from self.block(s.body, env)
                except Cnt: pass
                if hasattr(spec, 'end'): spec.end(state)
                for name, c in spec.invariant(state): p.prove(f'{env.qual}/loop-preserved:{name}', c, False)
                p.stats.completed += 1
                raise PathEnd('loop body closed')
            except Brk:
                if hasattr(spec, 'on_break'): spec.on_break(state)
            finally:
                self.write_hook = old_hook
        else:
            if hasattr(spec, 'on_exit'): spec.on_exit(state)
            yield from self.block(s.orelse, env)

    # ------------------------------------------------------------- names
    def mangle(self, name, env):
        if name.startswith('__') and not name.endswith('__') and env.cls:
            return f'_{env.cls.lstrip("_")}{name}'
        return name

    def lookup(self, name, env):
        name = self.mangle(name, env)
        e = env
        while e is not None:
            if name in e.vars and name not in e.glob:
                v = e.vars[name]
                if isinstance(v, Poison): raise Unsupported(f'value of {name} after a loop iteration is not specified')
                return v
            if name in e.local and name not in e.nonl:
                raise UnboundLocalError(f"cannot access local variable '{name}'")
            if name in e.cells and name not in e.local:
                return e.cells[name].cell_contents
            e = e.parent
        g = env.globals
        if name in g: return g[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        raise NameError(f"name '{name}' is not defined")

    def store(self, name, v, env):
        name = self.mangle(name, env)
        if name in env.glob:
            raise Unsupported('global assignment')
        if name in env.nonl:
            e = env.parent
            while e is not None:
                if name in e.vars: e.vars[name] = v; return
                e = e.parent
            raise Unsupported('nonlocal of native closure')
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name): self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]; after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1: raise ValueError('not enough values to unpack')
                for x, y in zip(t.elts[:i], vals[:i]): self.assign(x, y, env)
                self.assign(t.elts[i].value, vals[i:len(vals) - after], env)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - after:]): self.assign(x, y, env)
            else:
                if len(vals) != len(t.elts): raise ValueError('wrong number of values to unpack')
                for x, y in zip(t.elts, vals): self.assign(x, y, env)
        else: raise Unsupported('assignment target')

    # ------------------------------------------------------------- objects
    def getattr(self, o, name):
        if isinstance(o, Sym):
            if name in ('real',): return o
            raise AttributeError(name) if not hasattr(Sym, name) else Unsupported(f'attribute {name} of a number')
        if isinstance(o, SStr):
            return getattr(o, name)
        if hasattr(type(o), 'pyvc_getattr'): return o.pyvc_getattr(name)
        if isinstance(o, super):
            cls, obj = o.__thisclass__, o.__self__
            mro = type(obj).__mro__ if not isinstance(obj, type) else obj.__mro__
            for c in mro[list(mro).index(cls) + 1:]:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, property): return self.call(d.fget, [obj])
                    break
            return getattr(o, name)
        if not isinstance(o, (type, types.ModuleType)):
            t = type(o)
            for c in t.__mro__:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, property) and d.fget is not None:
                        f = d.fget
                        if f in self.stubs: return self.stubs[f](o)
                        if isinstance(f, types.FunctionType) and is_repo_code(f.__code__):
                            return self.call(f, [o])
                    break
        return getattr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Sym): raise Unsupported('attribute of a number')
        for c in type(o).__mro__:
            d = c.__dict__.get(name)
            if isinstance(d, property):
                if d.fset is None: raise AttributeError(f"property '{name}' has no setter")
                if isinstance(d.fset, types.FunctionType) and is_repo_code(d.fset.__code__):
                    self.call(d.fset, [o, v]); return
                break
        if self.write_hook: self.write_hook(o, name)
        setattr(o, name, v)

    def getitem(self, o, k):
        if isinstance(k, Sym):
            if hasattr(o, 'pyvc_getitem'): return o.pyvc_getitem(k)
            if isinstance(o, (list, tuple)) and not isinstance(o, str):
                n = len(o)
                i = self.p.pick([k.z == j for j in range(-n, n)] + [z3.Or(k.z < -n, k.z >= n)])
                if i == 2 * n: raise IndexError('index out of range')
                return o[i - n]
            if isinstance(o, dict):
                keys = [x for x in o if is_num(x)]
                i = self.p.pick([k.z == j for j in keys] + [z3.And([k.z != j for j in keys] or [z3.BoolVal(True)])])
                if i == len(keys): raise KeyError(k)
                return o[keys[i]]
            raise Unsupported('symbolic subscript')
        if isinstance(k, SStr) and isinstance(o, dict):
            for c in o:
                if isinstance(c, str) and self.truth(k == c): return o[c]
            raise KeyError('symbolic string')
        if isinstance(k, Fraction) and isinstance(o, (list, tuple, str)): raise TypeError('list indices must be integers')
        if isinstance(o, slice): raise Unsupported('slice')
        gi = getattr(type(o), '__getitem__', None)
        if isinstance(gi, types.FunctionType) and is_repo_code(gi.__code__):
            return self.call(gi, [o, k])
        return o[k]

    def setitem(self, o, k, v):
        if isinstance(k, (SStr,)): raise Unsupported('store under a symbolic key')
        if isinstance(k, Sym) and not hasattr(o, 'pyvc_setitem'):
            if isinstance(o, list):
                n = len(o)
                i = self.p.pick([k.z == j for j in range(-n, n)] + [z3.Or(k.z < -n, k.z >= n)])
                if i == 2 * n: raise IndexError('index out of range')
                o[i - n] = v; return
            raise Unsupported('store under a symbolic key')
        if self.write_hook: self.write_hook(o, '[]')
        si = getattr(type(o), '__setitem__', None)
        if isinstance(si, types.FunctionType) and is_repo_code(si.__code__):
            self.call(si, [o, k, v]); return
        if type(o).__name__ == 'ndarray' and o.dtype != object and (S.deep_has_sym([v]) or isinstance(v, Fraction)):
            if S.deep_has_sym([v]): raise Unsupported('symbolic store into a native array')
            v = float(v)
        o[k] = v

    def truth(self, v):
        if isinstance(v, Sym): return bool(v)
        if hasattr(v, 'pyvc_truth'): return bool(v.pyvc_truth())
        if isinstance(v, (bool, int, str, type(None), list, tuple, dict, set, float, Fraction)): return bool(v)
        t = type(v)
        for m in ('__bool__', '__len__'):
            f = getattr(t, m, None)
            if isinstance(f, types.FunctionType) and is_repo_code(f.__code__):
                r = self.call(f, [v])
                return self.truth(r)
        return bool(v)

    def iterate(self, v):
        if isinstance(v, Sym): raise TypeError('number is not iterable')
        if isinstance(v, Poison): raise Unsupported('iteration over unspecified value')
        it = getattr(type(v), '__iter__', None)
        if isinstance(it, types.FunctionType) and is_repo_code(it.__code__):
            v = self.call(it, [v])
        return iter(v)

    # ------------------------------------------------------------- expressions
    def eval(self, e, env):
        return getattr(self, 'e_' + type(e).__name__, self.e_unsupported)(e, env)

    def e_unsupported(self, e, env): raise Unsupported(f'expression {type(e).__name__}')

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float): return lift(v)
        return v

    def e_Name(self, e, env): return self.lookup(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), self.mangle(e.attr, env))

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(e.slice, ast.Slice):
            idx = [self.eval(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if any(isinstance(x, Sym) for x in idx):
                if hasattr(o, 'pyvc_slice'): return o.pyvc_slice(*idx)
                if isinstance(o, (str, list, tuple, SStr)) and idx[0] in (None, 0) and idx[2] is None:
                    n = len(o); u = idx[1]
                    i = self.p.pick([u.z == j for j in range(0, n)] + [u.z >= n, u.z < 0])
                    if i == n: return o[:]
                    if i == n + 1: raise Unsupported('negative symbolic slice bound')
                    return o[:i]
                raise Unsupported('symbolic slice')
            return o[slice(*idx)]
        return self.getitem(o, self.eval(e.slice, env))

    def e_Slice(self, e, env):
        return slice(*[self.eval(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, env):
        r = self.elts(e.elts, env)
        if self.vlists and any(type(x).__name__ == 'Many' for x in r): return self.listed(r)
        return tuple(r)
    def e_List(self, e, env): return self.listed(self.elts(e.elts, env))

    def stretched(self, v):
        from .pw import Many
        return [x if k == 'one' else Many(*x) for k, x in v.pyvc_stretches()]

    def listed(self, xs):
        if not self.vlists: return xs
        from .pw import VList
        return VList(self, xs)

    def created(self, o):
        if getattr(self.write_hook, 'new', None) is not None: self.write_hook.new[id(o)] = o
        return o

    def e_Set(self, e, env): return set(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                out.extend(self.stretched(v) if self.vlists and hasattr(v, 'pyvc_stretches') else self.iterate(v))
            else: out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = self.created({})
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.eval(v, env))
            else: d[self.eval(k, env)] = self.eval(v, env)
        return d

    def e_BinOp(self, e, env):
        return self.binop(type(e.op), self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        a, b = lift(a), lift(b)
        if isinstance(a, (Cx, complex)) and isinstance(b, (Cx, complex, Sym, int, Fraction)) or isinstance(b, (Cx, complex)) and isinstance(a, (Sym, int, Fraction)):
            if op is ast.Pow and not isinstance(a, (Cx, complex)): raise Unsupported('complex exponent')
            return BINOPS[op](Cx.of(a), b if op is ast.Pow else Cx.of(b))
        if op is ast.Mod and isinstance(a, str):
            if S.deep_has_sym([b]): return '<str>'
            return a % b
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)) and op is ast.Add:
            r = a + b if isinstance(a, SStr) or isinstance(b, str) else SStr.of(a) + b
            return r
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (str, list, tuple)) and isinstance(y, Sym):
                    return self.models['repeat'](self, x, y)
        na = isinstance(a, (int, Fraction)); nb = isinstance(b, (int, Fraction))
        if na and nb:
            if op is ast.Div: 
                return Fraction(a) / Fraction(b)
            if op is ast.Pow:
                return S.power(a, b)
            r = BINOPS[op](a, b)
            return r
        if op is ast.Pow and (isinstance(a, Sym) or isinstance(b, Sym)) and (na or nb or isinstance(a, Sym)):
            return S.power(a, b)
        if op is ast.FloorDiv and (isinstance(a, Sym) or isinstance(b, Sym)): return S.floordiv(a, b)
        if op is ast.Mod and (isinstance(a, Sym) or isinstance(b, Sym)): return S.mod(a, b)
        for x in (a, b):
            if isinstance(x, Poison): raise Unsupported('unspecified value')
        dn = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}.get(op)
        if dn:
            f = getattr(type(a), dn, None)
            if isinstance(f, types.FunctionType) and is_repo_code(f.__code__): return self.call(f, [a, b])
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if any(isinstance(x, (Sym, Fraction)) or isinstance(x, np.ndarray) and x.dtype == object for x in (a, b)): return self.arrays(op, a, b)
        if isinstance(a, float) and isinstance(b, Fraction): b = float(b)
        if isinstance(b, float) and isinstance(a, Fraction): a = float(a)
        return BINOPS[op](a, b)

    def arrays(self, op, a, b):
        """element by element, with broadcasting"""
        def box(x):
            if isinstance(x, np.ndarray): return x.astype(object)
            if isinstance(x, (list, tuple)): return self.models['obj_array'](self, x)
            r = np.empty((), dtype=object); r[()] = x
            return r
        x, y = np.broadcast_arrays(box(a), box(b))
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            if op in (ast.Div, ast.FloorDiv, ast.Mod):
                try: out[i] = self.binop(op, x[i], y[i])
                except ZeroDivisionError: out[i] = Poison('quotient by zero')       # numpy yields nan or inf
            else: out[i] = self.binop(op, x[i], y[i])
        return out

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sym) and z3.is_bool(v.z): return ~v
            return not self.truth(v)
        v = lift(v)
        if isinstance(e.op, ast.USub): return -v
        if isinstance(e.op, ast.UAdd): return +v
        return ~v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if isand and not t: return v if not isinstance(v, Sym) else False
            if not isand and t: return v if not (isinstance(v, Sym) and z3.is_bool(v.z)) else True
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            c = self.compare(type(op), left, right)
            if i == len(e.ops) - 1 and res is True: return c
            if not self.truth(c): return False
            left = right
        return True

    def compare(self, op, a, b):
        if op is ast.Is: return self.is_(a, b)
        if op is ast.IsNot:
            r = self.is_(a, b); return (not r) if isinstance(r, bool) else ~r
        if op is ast.In: return self.contains(b, a)
        if op is ast.NotIn:
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else ~r
        a, b = lift(a), lift(b)
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported('unspecified value')
        if op in (ast.Eq, ast.NotEq):
            f = getattr(type(a), '__eq__', None)
            if isinstance(f, types.FunctionType) and is_repo_code(f.__code__):
                r = self.call(f, [a, b])
            elif isinstance(a, SStr) or isinstance(b, SStr):
                r = SStr.of(a) == b if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) else False
            elif isinstance(a, Sym) or isinstance(b, Sym):
                r = S.equal(a, b)
            elif isinstance(a, tuple) and isinstance(b, tuple) and (S.deep_has_sym(a) or S.deep_has_sym(b)):
                r = self.b.And(len(a) == len(b), *[self.compare(ast.Eq, x, y) for x, y in zip(a, b)])
            else:
                r = CMPOPS[ast.Eq](a, b)
            if op is ast.NotEq: r = (not r) if isinstance(r, bool) else ~r
            return r
        if isinstance(b, Sym) and not isinstance(a, Sym) and type(a).__name__ != 'ndarray':
            return {ast.Lt: b.__gt__, ast.LtE: b.__ge__, ast.Gt: b.__lt__, ast.GtE: b.__le__}[op](a)
        return CMPOPS[op](a, b)

    def is_(self, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is None or b is None: return False
            if isinstance(a, bool) or isinstance(b, bool): return S.equal(a, b)
            raise Unsupported('identity of numbers')
        if isinstance(a, (Fraction, float)) and isinstance(b, (Fraction, float)): return a == b
        return a is b

    def contains(self, c, x):
        if hasattr(c, 'pyvc_contains'): return c.pyvc_contains(x)
        f = getattr(type(c), '__contains__', None)
        if isinstance(f, types.FunctionType) and is_repo_code(f.__code__):
            return self.call(f, [c, x])
        if isinstance(c, (list, tuple, set, frozenset, range)) or isinstance(c, type({}.keys())):
            if isinstance(x, Sym) or (not isinstance(c, range) and S.deep_has_sym(list(c), 1)):
                if isinstance(c, range) and c.step == 1:
                    return (x >= c.start) & (x < c.stop) if len(c) else False
                r = False
                for y in c:
                    r = self.b.Or(r, self.compare(ast.Eq, x, y))
                    if r is True: return True
                return r
            if isinstance(x, Fraction): return any(lift(y) == x for y in c)
            return x in c
        if isinstance(c, dict):
            if isinstance(x, Sym): return self.contains(list(c), x)
            if isinstance(x, SStr): return self.contains(list(c), x)
            return x in c
        if isinstance(x, SStr): raise Unsupported('substring test')
        return x in c

    def e_Call(self, e, env):
        f = None
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            cell = self.find_class(env)
            frame = env
            while not hasattr(frame, 'func') and frame.parent is not None: frame = frame.parent
            first = frame.func.args.args[0].arg
            return super(cell, frame.vars[first])
        if isinstance(e.func, ast.Name) and e.func.id == 'locals': raise Unsupported('locals()')
        f = self.eval(e.func, env)
        if f is sum and e.args and isinstance(e.args[0], ast.GeneratorExp):
            r = self.sum_genexp(e, env)
            if r is not NotImplemented: return r
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None: kw.update(self.eval(k.value, env))
            else: kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def sum_genexp(self, e, env):
        g = e.args[0]
        if len(g.generators) != 1 or len(e.args) > 1 or not isinstance(g.elt, ast.Constant): return NotImplemented
        gen = g.generators[0]
        it = self.eval(gen.iter, env)
        if not isinstance(it, (SStr, list, tuple, str)): return NotImplemented
        tot = 0
        for v in (it if isinstance(it, SStr) else list(it)):
            sub = Env(env.globals, env, (), (), (), None, env.cls, env.qual)
            self.assign(gen.target, v, sub)
            c = True
            for t in gen.ifs: c = self.b.And(c, self.eval(t, sub)) if isinstance(c, (bool, Sym)) else NotImplemented
            if not isinstance(c, (bool, Sym)): return NotImplemented
            tot = self.binop(ast.Add, tot, S.ite(c, self.e_Constant(g.elt, env), 0))
        return tot

    def find_class(self, env):
        e = env
        while e is not None:
            if '__class__' in e.cells: return e.cells['__class__'].cell_contents
            e = e.parent
        raise Unsupported('super() without class cell')

    def e_IfExp(self, e, env):
        c = self.eval(e.test, env)
        return self.eval(e.body if self.truth(c) else e.orelse, env)

    def e_Lambda(self, e, env): return InterpFunction(self, e, env, '<lambda>')

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        t = env
        while not hasattr(t, 'func') and t.parent is not None: t = t.parent
        self.store(e.target.id, v, t)
        return v

    def e_JoinedStr(self, e, env):
        out = []
        symbolic = False
        for v in e.values:
            if isinstance(v, ast.Constant): out.append(str(v.value))
            else:
                x = self.eval(v.value, env)
                spec = self.eval(v.format_spec, env) if v.format_spec else ''
                r = self.models['format'](self, x, spec, v.conversion)
                out.append(r)
        if any(getattr(x, 'pyvc_str', False) for x in out): return functools.reduce(lambda a, b: a + b, out)
        if any(isinstance(x, SStr) for x in out):
            r = SStr(())
            for x in out: r = r + x
            return r
        if any(isinstance(x, OStr) for x in out): return OStr([y for x in out for y in OStr.of(x).p])
        return ''.join(out)

    def e_FormattedValue(self, e, env):
        return self.models['format'](self, self.eval(e.value, env), '', e.conversion)

    def e_Starred(self, e, env): raise Unsupported('starred expression')

    def comp(self, e, env, elt):
        def rec(i, sub):
            if i == len(e.generators):
                yield elt(sub); return
            g = e.generators[i]
            it = first if i == 0 else self.eval(g.iter, sub)
            if hasattr(it, 'pyvc_foreach'): raise Unsupported('comprehension over a symbolic sequence')
            for v in self.iterate(it):
                s2 = Env(env.globals, sub, (), (), (), None, env.cls, env.qual)
                self.assign(g.target, v, s2)
                if all(self.truth(self.eval(c, s2)) for c in g.ifs):
                    yield from rec(i + 1, s2)
        first = self.eval(e.generators[0].iter, env)
        if hasattr(first, 'pyvc_comp'):
            return first.pyvc_comp(self, e, env, elt)
        if type(first).__name__ == 'SymRange':
            for sp in self.loopspecs.values():
                if hasattr(sp, 'comp'): return sp.comp(self, e, env, elt, first)
        return rec(0, env)

    def e_ListComp(self, e, env):
        r = self.comp(e, env, lambda s: self.eval(e.elt, s))
        return r if hasattr(r, 'pyvc_foreach') or hasattr(r, 'pyvc_list') or type(r).__name__ == 'VList' else self.listed(list(r))
    def e_SetComp(self, e, env): return set(self.comp(e, env, lambda s: self.eval(e.elt, s)))
    def e_GeneratorExp(self, e, env): return self.comp(e, env, lambda s: self.eval(e.elt, s))
    def e_DictComp(self, e, env):
        return dict(self.comp(e, env, lambda s: (self.eval(e.key, s), self.eval(e.value, s))))


class LoopState:
    def __init__(self, interp, env, node, assigned):
        self.interp = interp; self.p = interp.p; self.env = env; self.node = node; self.assigned = assigned
        self.locals = env.vars; self.g = {}
        self.before = dict(env.vars)
