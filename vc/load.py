"""Loads the current source of /repo/chainladder into the verifier process.

Every module of the package is read from /repo on every run, parsed, put through
the mechanical rewriting below and executed.  Nothing is copied by hand.  The
rewriting, which changes nothing when all values are concrete, is:

 R1 import aliases of numpy and pandas are wrapped (`_vc_mod`): a call whose
    arguments are all concrete goes to the library, a call with a symbolic
    argument goes to the library's assumed contract (vc/tensor.py, vc/models.py)
    and is out of the subset when there is none;
 R2 inside functions, `len range type isinstance min max sum abs int float list
    tuple set sorted zip enumerate any all round` are shadowed by versions that
    do the same on concrete values;
 R3 list comprehensions and generator expressions with one `for` go through
    `_vc_comp`, which evaluates them eagerly on concrete iterables and as an
    indexed family on an iterable of symbolic length;
 R4 `for` loops without break/continue/return/yield/else go through `_vc_loop`,
    which iterates normally on concrete iterables and cuts the loop at the
    invariant given by the contract on an iterable of symbolic length;
 R5 every `except` handler first lets the verifier's own control exceptions pass.

What the rewriting drops: docstrings excepted, nothing of the functions' text.
"""
import ast, builtins, importlib.abc, importlib.util, os, sys, types
import numpy as _np
from .core import Ctx, OutOfSubset, PathAbort, SymBool, SymInt, ctx, ival, mkint, I
from . import tensor as tz
from .tensor import SymTensor, deep_sym

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.join(REPO, 'chainladder')
SOURCES = {}


class Rewriter(ast.NodeTransformer):
    SHADOW = {'len', 'range', 'type', 'isinstance', 'min', 'max', 'sum', 'abs', 'int', 'float', 'list', 'tuple', 'set', 'sorted',
              'zip', 'enumerate', 'any', 'all', 'round', 'bool', 'hasattr'}

    def __init__(self, modname):
        self.mod, self.depth, self.fn, self.nloop, self.scopes = modname, 0, [], {}, []

    # R2: names
    def visit_Name(self, n):
        if self.depth and isinstance(n.ctx, ast.Load) and n.id in self.SHADOW:
            if not any(n.id in s for s in self.scopes):
                return ast.copy_location(ast.Name('_vc_' + n.id, ast.Load()), n)
        return n

    def visit_Compare(self, n):
        # `type(x) is list`: the class itself is meant
        if all(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            n.left = n.left if isinstance(n.left, ast.Name) and n.left.id in self.SHADOW else self.visit(n.left)
            n.comparators = [x if isinstance(x, ast.Name) and x.id in self.SHADOW else self.visit(x) for x in n.comparators]
            return n
        return self.generic_visit(n)

    def _func(self, n):
        for k, d in enumerate(n.decorator_list): n.decorator_list[k] = self.visit(d)
        names = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        for a in (n.args.vararg, n.args.kwarg):
            if a: names.add(a.arg)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): names.add(x.id)
        self.scopes.append(names)
        self.depth += 1
        self.fn.append(n.name)
        n.body = self._block(n.body)
        self.fn.pop()
        self.depth -= 1
        self.scopes.pop()
        return n
    visit_FunctionDef = _func

    def visit_ClassDef(self, n):
        sv, self.depth = self.depth, 0
        self.fn.append(n.name)
        n.body = self._block(n.body)
        self.fn.pop()
        self.depth = sv
        return n

    def visit_Lambda(self, n):
        self.depth += 1
        self.scopes.append({a.arg for a in n.args.args})
        n.body = self.visit(n.body)
        self.scopes.pop()
        self.depth -= 1
        return n

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list): out += r
            elif r is not None: out.append(r)
        return out

    # R1: imports
    def _alias(self, n):
        self.generic_visit(n)
        out = [n]
        for a in n.names:
            if a.name == '*': continue
            nm = a.asname or a.name.split('.')[0]
            out.append(ast.copy_location(ast.parse('%s = _vc_mod(%s)' % (nm, nm)).body[0], n))
        for x in out: ast.fix_missing_locations(x)
        return out
    visit_Import = _alias
    visit_ImportFrom = _alias

    # R3: comprehensions
    def _comp(self, n):
        if not self.depth or len(n.generators) != 1 or n.generators[0].is_async:
            return self.generic_visit(n)
        g = n.generators[0]
        for x in ast.walk(n):
            if isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom)): return self.generic_visit(n)
        it = self.visit(g.iter)
        tn = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        self.scopes.append(tn)
        elt = self.visit(n.elt)
        conds = [self.visit(c) for c in g.ifs]
        self.scopes.pop()
        kind = {ast.ListComp: 'list', ast.GeneratorExp: 'gen', ast.SetComp: 'set'}[type(n)]
        def lam(body):
            # lambda for a possibly nested target: _vc_t -> bind by a one-element list comprehension
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in g.target.elts], None, [], [], None, []), body)
                return ast.Lambda(ast.arguments([], [ast.arg('_vc_t')], None, [], [], None, []),
                                  ast.Call(inner, [ast.Starred(ast.Name('_vc_t', ast.Load()), ast.Load())], []))
            return None
        l = lam(elt)
        if l is None:
            n.elt = elt
            return self.generic_visit(n)
        cl = lam(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)) if conds else ast.Constant(None)
        r = ast.Call(ast.Name('_vc_comp', ast.Load()), [ast.Constant(kind), l, it, cl], [])
        return ast.fix_missing_locations(ast.copy_location(r, n))
    visit_ListComp = _comp
    visit_GeneratorExp = _comp
    visit_SetComp = _comp

    # R4: loops
    def visit_For(self, n):
        if not self.depth or n.orelse or self._jumps(n.body):
            return self.generic_visit(n)
        key = '.'.join(self.fn)
        k = self.nloop.get(key, 0)
        self.nloop[key] = k + 1
        stored = set()
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): stored.add(x.id)
                if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    b = x
                    while isinstance(b, (ast.Subscript, ast.Attribute)): b = b.value
                    if isinstance(b, ast.Name): stored.add('*' + b.id)
        tnames = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        names = sorted(x for x in stored if not x.startswith('*') and x not in tnames)
        refs = sorted({x[1:] for x in stored if x.startswith('*')} - set(names))
        it = self.visit(n.iter)
        body = self._block(n.body)
        v = '_vc_it_%d_%d' % (n.lineno, k)
        pre = ast.parse('%s = _vc_loop(%r, None)' % (v, '%s.%s#%d' % (self.mod, key, k))).body[0]
        pre.value.args[1] = it
        out = [pre]
        head, tail, ex = [], [], []
        if names or refs:
            mk = '_vc_locals(locals(), %r)' % (tuple(names + refs),)
            head = ast.parse('%s.head(%s)' % (v, mk)).body
            for nm in names:
                head += ast.parse('if %s.has(%r): %s = %s.get(%r)' % (v, nm, nm, v, nm)).body
                ex += ast.parse('if %s.has(%r): %s = %s.get(%r)' % (v, nm, nm, v, nm)).body
            tail = ast.parse('%s.tail(%s)' % (v, mk)).body
            ex = ast.parse('%s.exit(%s)' % (v, mk)).body + ex
        loop = ast.For(n.target, ast.Name(v, ast.Load()), head + body + tail, [], None)
        out += [loop] + ex
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out

    def _jumps(self, body):
        stack = list(body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda)): continue
            if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Await)): return True
            stack.extend(ast.iter_child_nodes(x))
        return False

    # R5: handlers
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        n.body = ast.parse('_vc_check_exc()').body + n.body
        ast.fix_missing_locations(n)
        return n

    def generic_visit(self, n):
        for f, old in ast.iter_fields(n):
            if isinstance(old, list) and old and isinstance(old[0], ast.stmt):
                setattr(n, f, self._block(old))
            elif isinstance(old, list):
                new = []
                for x in old:
                    if isinstance(x, ast.AST):
                        r = self.visit(x)
                        if isinstance(r, list): new += r
                        elif r is not None: new.append(r)
                    else: new.append(x)
                setattr(n, f, new)
            elif isinstance(old, ast.AST):
                setattr(n, f, self.visit(old))
        return n


# ------------------------------------------------------------------ runtime of the rewriting
def _vc_check_exc():
    e = sys.exc_info()[1]
    if isinstance(e, (OutOfSubset, PathAbort)): raise e


class FamList:
    """list of symbolic length n with element fn(k)"""
    _vc_fam = True
    _vc_sym = True

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def stack(self):
        from .core import z3
        probe = tz.T(self.fn(SymInt(z3.Int(ctx().name('fam'))))) 
        f = self.fn
        def el(idx):
            e = tz.T(f(mkint(tz.iterm(idx[0]))))
            return e.at(idx[1:])
        return SymTensor((self.n,) + tuple(probe.shape), el, probe.dt)

    def concat(self, axis):
        from .core import z3
        k0 = SymInt(z3.Int(ctx().name('fam')))
        if not ctx().decide(tz.cmp_terms('>', I(self.n), z3.IntVal(0))): raise ValueError('need at least one array to concatenate')
        ctx().assume(tz.And(k0.t >= 0, k0.t < I(self.n)))
        probe = tz.T(self.fn(k0))
        axis = axis % probe.ndim
        if not tz.same_dim(probe.shape[axis], 1): raise OutOfSubset('concatenation of a family of pieces longer than one')
        f = self.fn
        def el(idx):
            e = tz.T(f(mkint(tz.iterm(idx[axis]))))
            return e.at(idx[:axis] + (z3.IntVal(0),) + idx[axis + 1:])
        return SymTensor(probe.shape[:axis] + (self.n,) + probe.shape[axis + 1:], el, probe.dt)

    def __add__(self, o):
        from .core import z3
        if not isinstance(o, list): raise OutOfSubset('family + %s' % type(o).__name__)
        n, f = I(self.n), self.fn
        def fn(k):
            kt = I(k)
            r = T_int(o[-1])
            for q in range(len(o) - 2, -1, -1): r = tz.If(kt == n + q, T_int(o[q]), r)
            return mkint(z3.simplify(tz.If(kt < n, T_int(f(k)), r)))
        return FamList(mkint(z3.simplify(n + len(o))), fn) if o else self

    def __len__(self): raise OutOfSubset('len of a family')
    def __iter__(self): raise OutOfSubset('iteration over a family of symbolic length')
    def __getitem__(self, k):
        if isinstance(k, (int, SymInt)): return self.fn(k)
        raise OutOfSubset('slice of a family')


def T_int(x):
    if isinstance(x, (int, SymInt)) and not isinstance(x, bool): return I(x)
    raise OutOfSubset('family of %s' % type(x).__name__)


class KeyInt(SymInt):
    """a symbolic integer as a dictionary key: found again under the same term"""
    __slots__ = ()
    def __hash__(self): return hash(self.t.get_id())
    def __eq__(self, o): return True if isinstance(o, KeyInt) and o.t.eq(self.t) else SymInt.__eq__(self, o)


class SymRange:
    _vc_sym = True
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        d = hi - lo
        if step != 1: raise OutOfSubset('range with a step over a symbolic length')
        self.n = d
    def item(self, k): return self.lo + k
    def __iter__(self): raise OutOfSubset('iteration over a symbolic range')


class SymZip:
    _vc_sym = True
    def __init__(self, xs): self.xs = xs
    def __iter__(self): raise OutOfSubset('iteration over a symbolic zip')


def const_item(it, k):
    """the element itself when it is a constant string"""
    if it.dt == 'o' and it.ndim == 1:
        e = it.at((I(k),))
        if isinstance(e, str): return e
    if it.dt == 'i' and it.ndim == 1:
        e = it.at((I(k),))
        if ival(e) is None: return KeyInt(e)
        return mkint(e)
    return it[k]


def symlen(it):
    """(n, item) for iterables of symbolic length, else None"""
    if isinstance(it, SymRange): return it.n, it.item
    if isinstance(it, FamList): return it.n, it.fn
    if isinstance(it, SymTensor) and it.ndim and not isinstance(it.shape[0], int): return it.shape[0], (lambda k: const_item(it, k))
    if isinstance(it, SymZip):
        ls = [symlen(x) for x in it.xs]
        n = [l[0] for l in ls if l is not None][0]
        for l, x in zip(ls, it.xs):
            m = l[0] if l is not None else len(x)
            if not tz.same_dim(m, n): raise OutOfSubset('zip of sequences of different symbolic length')
        return n, (lambda k: tuple(l[1](k) if l is not None else x[k] for l, x in zip(ls, it.xs)))
    if hasattr(it, '_vc_len'): return it._vc_len(), it._vc_item
    return None


def _vc_comp(kind, f, it, cond):
    s = symlen(it) if not isinstance(it, (list, dict, str)) else None
    if s is None:
        r = [f(x) for x in it if cond is None or cond(x)]
        return set(r) if kind == 'set' else (iter(r) if kind == 'gen' else r)
    if cond is not None or kind == 'set': raise OutOfSubset('filtered comprehension over a symbolic length')
    # the elements are formed from the names and arrays as they are now, though computed when used
    f, now = freeze(f), tz.serial()
    def el(k):
        old, tz.AS_OF = tz.AS_OF, now
        try: return f(s[1](k))
        finally: tz.AS_OF = old
    return FamList(s[0], el)


def freeze(f):
    import types
    if not f.__closure__: return f
    cells = []
    for x in f.__closure__:
        try: cells.append(types.CellType(x.cell_contents))
        except ValueError: cells.append(x)
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))


class Loop:
    def __init__(self, key, it):
        self.key, self.it, self.vals, self.sym = key, it, {}, symlen(it) if not isinstance(it, (list, dict, str)) else None
    def __iter__(self):
        if self.sym is None:
            for x in self.it: yield x
            return
        c = ctx()
        inv = None
        for pat, fn in c.loopinv.items():
            if pat in self.key: inv = fn
        if inv is None: raise OutOfSubset('loop over a symbolic length without an invariant: %s' % self.key)
        from .core import z3
        self.inv = inv(self)
        n = self.sym[0]
        self.n = n
        # the body is executed once for an arbitrary iteration (unless the loop is empty)
        self.k = SymInt(z3.Int(c.name('iter')))
        self.phase = 'init'
        if not c.decide(tz.cmp_terms('>', I(n), z3.IntVal(0))):
            self.phase = 'empty'
            return
        self.mark = len(c.pc)
        c.assume(tz.And(self.k.t >= 0, self.k.t < I(n)))
        yield self.sym[1](self.k)
    def head(self, loc):
        if self.sym is None: return
        self.vals = self.inv('init', loc, mkint(I(0))) or {}
        self.vals = self.inv("havoc", loc, self.k) or {}
    def tail(self, loc):
        if self.sym is None: return
        self.inv('check', loc, self.k + 1)
        self.vals = {}
    def exit(self, loc):
        self.vals = {}
        if self.sym is None: return
        if self.phase == 'empty':
            return
        # forget the iteration's assumptions are about a fresh constant: harmless
        self.vals = self.inv("exit", loc, self.n) or {}
    def has(self, n): return n in self.vals
    def get(self, n): return self.vals[n]


def _vc_loop(key, it): return Loop(key, it)


def _vc_locals(loc, names): return {n: loc[n] for n in names if n in loc}


# ------------------------------------------------------------------ shadowed builtins
def _vc_len(x):
    if isinstance(x, SymTensor): return tz.len_of(x)
    if isinstance(x, FamList): return x.n
    if hasattr(x, '_vc_len'): return x._vc_len()
    if hasattr(x, 'values') and isinstance(getattr(x, '__dict__', {}).get('values'), SymTensor) and hasattr(x, 'kdims'):
        return x.shape[0]
    return len(x)


class _Range:
    def __call__(self, *a):
        a = [mkint(I(x)) if isinstance(x, SymTensor) is False and isinstance(x, SymInt) else (tz.dim(x) if isinstance(x, SymTensor) else x) for x in a]
        if any(isinstance(x, SymInt) for x in a):
            lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
            return SymRange(lo, hi, a[2] if len(a) > 2 else 1)
        return range(*a)
_vc_range = _Range()


def _vc_type(x, *a):
    if a: return type(x, *a)
    if hasattr(type(x), '_vc_class'): return x._vc_class
    if isinstance(x, SymTensor): return _np.ndarray if x.ndim else {'f': _np.float64, 'i': _np.int64, 'b': _np.bool_}.get(x.dt, _np.ndarray)
    if isinstance(x, SymInt): return _np.int64
    if isinstance(x, SymBool): return _np.bool_
    if hasattr(x, '_vc_class'): return x._vc_class
    if isinstance(x, FamList): return list
    return type(x)


def _unwrap_cls(c):
    if isinstance(c, tuple): return tuple(_unwrap_cls(k) for k in c)
    if isinstance(c, Fn): return c.real
    if c is _vc_list: return list
    if c is _vc_tuple: return tuple
    if c is _vc_int: return int
    if c is _vc_float: return float
    if c is _vc_set: return set
    if c is _vc_bool: return bool
    if c is _vc_range: return range
    if c is _vc_type: return type
    return c


def _vc_isinstance(x, c):
    c = _unwrap_cls(c)
    if isinstance(x, (SymTensor, SymInt, SymBool, FamList)) or hasattr(x, '_vc_class'):
        t = _vc_type(x)
        return issubclass(t, c)
    return isinstance(x, c)


def _reduce(name, real):
    def f(*a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            s = symlen(x)
            if s is not None:
                t = tz.T(x)
                return getattr(t, {'min': 'min', 'max': 'max', 'sum': 'sum', 'any': 'any', 'all': 'all'}[name])()
            if isinstance(x, SymTensor) and name in ('min', 'max'): return getattr(x, name)()
            if isinstance(x, (list, tuple)) and name in ('min', 'max') and deep_sym(x):
                r = x[0]
                for y in x[1:]:
                    r = y if ((y < r) if name == 'min' else (y > r)) else r
                return r
        return real(*a, **k)
    return f


_vc_min, _vc_max, _vc_sum, _vc_any, _vc_all = [_reduce(n, getattr(builtins, n)) for n in ('min', 'max', 'sum', 'any', 'all')]


def _cls(name, real, sym):
    class M(type):
        def __call__(cls, *a, **k):
            if a and deep_sym(a[0]): return sym(*a, **k)
            return real(*a, **k)
        def __instancecheck__(cls, x): return _vc_isinstance(x, real)
        def __eq__(cls, o): return o is cls or o is real
        def __hash__(cls): return hash(real)
        def __getattr__(cls, n): return getattr(real, n)
    return M('_vc_' + name, (), {})


def _toint(x):
    if isinstance(x, SymInt): return x
    if isinstance(x, SymTensor):
        e = x.at([tz.z3.IntVal(0)] * x.ndim)
        if x.dt in ('i', 'b'): return mkint(tz.to_i(e, x.dt))
        return mkint(tz.to_i(e, x.dt))
    if isinstance(x, SymBool): return mkint(tz.to_i(x.t, 'b'))
    raise OutOfSubset('int() of %r' % x)


def _tofloat(x):
    if isinstance(x, SymTensor):
        return x.astype('float64') if x.ndim == 0 else x.reshape(()).astype('float64')
    if isinstance(x, SymInt): return tz.scalar(x).astype('float64')
    raise OutOfSubset('float()')


def _seq(kind):
    def f(x=()):
        if isinstance(x, FamList): return x
        if isinstance(x, SymRange): return FamList(x.n, x.item)
        if symlen(x) is not None:
            n, it = symlen(x)
            return FamList(n, it)
        return kind(x)
    return f


_vc_int = _cls('int', int, _toint)
_vc_float = _cls('float', float, _tofloat)
_vc_list = _cls('list', list, _seq(list))
_vc_tuple = _cls('tuple', tuple, _seq(tuple))
def _symset(x):
    if isinstance(x, (list, tuple)): return set(x)
    if isinstance(x, SymTensor) and x.ndim == 1 and x.dt == 'i':
        # the same element everywhere
        from .core import z3
        a, b = [x.at((z3.Int(ctx().name('el')),)) for _ in range(2)]
        if a.eq(b): return {KeyInt(a)}
    raise OutOfSubset('set of a symbolic sequence')
_vc_set = _cls('set', set, _symset)
_vc_bool = _cls('bool', bool, lambda x: bool(x))


def _vc_abs(x): return abs(x)
def _vc_round(x, *a): return round(x, *a)
def _vc_hasattr(x, n):
    return hasattr(x, n)
def _vc_sorted(x, **k):
    if deep_sym(x) and symlen(x) is not None: raise OutOfSubset('sorted')
    return sorted(x, **k)
def _vc_zip(*a):
    if any(symlen(x) is not None for x in a): return SymZip(a)
    return zip(*a)
def _vc_enumerate(x, start=0):
    s = symlen(x)
    if s is not None: return FamList(s[0], lambda k: (k + start, s[1](k)))
    return enumerate(x, start)


# ------------------------------------------------------------------ library wrappers
class Fn:
    def __init__(self, path, real, model):
        self.path, self.real, self.model = path, real, model
    def __call__(self, *a, **k):
        if Ctx.cur is not None and isinstance(self.real, _np.ufunc):
            # numpy hands the call over to the first operand that takes ufuncs itself
            for x in a:
                if hasattr(type(x), '__array_ufunc__') and isinstance(getattr(x, '__dict__', {}).get('values'), SymTensor): return x.__array_ufunc__(self, '__call__', *a, **k)
        if Ctx.cur is not None and (deep_sym(a) or deep_sym(k)):
            if self.model is None: raise OutOfSubset('no contract for %s' % self.path)
            Ctx.cur.model_used.add(self.path)
            import inspect
            try: inspect.signature(self.model).bind(*a, **k)
            except TypeError: raise OutOfSubset('contract for %s does not cover these arguments' % self.path)
            except ValueError: pass
            return self.model(*a, **k)
        return self.real(*a, **k)
    def __getattr__(self, n):
        return getattr(self.__dict__['real'], n)
    def __eq__(self, o):
        return o is self or o is self.real or (isinstance(o, Fn) and o.real is self.real)
    def __hash__(self): return hash(self.real)


class Mod:
    """wrapped library module"""
    def __init__(self, real, path, models):
        self.__dict__.update(_real=real, _path=path, _models=models, _c={})
    def __getattr__(self, n):
        c = self._c
        if n in c: return c[n]
        r = getattr(self._real, n)
        full = self._path + '.' + n
        if isinstance(r, types.ModuleType): v = Mod(r, full, self._models) if n in ('linalg', 'random') else r
        elif isinstance(r, type) and full not in self._models: v = r
        elif callable(r): v = Fn(full, r, self._models.get(full))
        else: v = r
        c[n] = v
        return v
    def __setattr__(self, n, v):
        setattr(self._real, n, v)
    def __eq__(self, o): return o is self or o is self._real or (isinstance(o, Mod) and o._real is self._real)
    def __hash__(self): return hash(self._real)


_mods = {}
FUNCS = {'sparse._slicing.normalize_index': 'sparse._slicing.normalize_index'}


def _vc_mod(x):
    if x is _np: key = 'np'
    elif isinstance(x, types.ModuleType) and x.__name__ == 'pandas': key = 'pd'
    elif isinstance(x, types.FunctionType) and x.__module__ + '.' + x.__name__ in FUNCS:
        from . import models
        return Fn(FUNCS[x.__module__ + '.' + x.__name__], x, models.MODELS.get(FUNCS[x.__module__ + '.' + x.__name__]))
    else: return x
    if key not in _mods:
        from . import models
        _mods[key] = Mod(x, key, models.MODELS)
    return _mods[key]


# ------------------------------------------------------------------ import hook
RUNTIME = {k: v for k, v in list(globals().items()) if k.startswith('_vc_')}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name != 'chainladder' and not name.startswith('chainladder.'): return None
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return importlib.util.spec_from_file_location(name, os.path.join(p, '__init__.py'), loader=self, submodule_search_locations=[p])
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_file_location(name, p + '.py', loader=self)
        return None
    def create_module(self, spec): return None
    def exec_module(self, m):
        src = open(m.__spec__.origin).read()
        SOURCES[m.__spec__.origin] = src
        m.__dict__.update(RUNTIME)
        if '.tests' in m.__name__:
            exec(compile(src, m.__spec__.origin, 'exec'), m.__dict__)
            return
        tree = Rewriter(m.__name__).visit(ast.parse(src))
        tree.body = tree.body if isinstance(tree.body, list) else [tree.body]
        ast.fix_missing_locations(tree)
        exec(compile(tree, m.__spec__.origin, 'exec'), m.__dict__)


def install():
    if any(isinstance(f, Finder) for f in sys.meta_path): return
    for k in list(sys.modules):
        if k == 'chainladder' or k.startswith('chainladder.'): raise RuntimeError('chainladder already imported')
    sys.meta_path.insert(0, Finder())


def load():
    install()
    import warnings
    warnings.simplefilter('ignore')
    import chainladder
    # truth of a triangle is the truth of its length (Python would ask for a concrete integer)
    from chainladder.core.triangle import Triangle
    if not any('__bool__' in k.__dict__ for k in Triangle.__mro__): Triangle.__bool__ = lambda self: bool(_vc_len(self) != 0)
    return chainladder
