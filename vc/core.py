"""Symbolic execution context, path exploration and proof back end.

The verifier runs the real functions of /repo/chainladder (mechanically
instrumented on every run, see vc/load.py) on symbolic arguments.  This module
holds what is independent of numpy: SMT terms, the path manager, the sum /
uninterpreted-function axiom instantiation and the calls to z3 and cvc5.
"""
import sys, time
import os
_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _P not in sys.path:
    sys.path.append(_P)
import z3

z3.set_param('smt.random_seed', 1)


class OutOfSubset(Exception):
    """The code left the fragment the verifier understands: undecided."""


class PathAbort(BaseException):
    """Infeasible or fully explored path."""


# ----------------------------------------------------------------- booleans
def is_c(b):
    return b is True or b is False


def Not(a):
    if a is True: return False
    if a is False: return True
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        if any(x.eq(o) for o in out): continue
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        if any(x.eq(o) for o in out): continue
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def B(x):
    """python/z3 bool -> z3 BoolRef"""
    return z3.BoolVal(x) if is_c(x) else x


def If(c, a, b):
    if c is True: return a
    if c is False: return b
    if is_c(a) and is_c(b):
        if a is b: return a
        return c if a else Not(c)
    if is_c(a): 
        return Or(c, b) if a else And(Not(c), b)
    if is_c(b):
        return Or(Not(c), a) if b else And(c, a)
    if a.eq(b): return a
    return z3.If(c, a, b)


def Eqb(a, b):
    """boolean equality"""
    if is_c(a) and is_c(b): return a is b
    if is_c(a): return b if a else Not(b)
    if is_c(b): return a if b else Not(a)
    if a.eq(b): return True
    return a == b


# ----------------------------------------------------------------- numbers
def I(x):
    """python int / SymInt / z3 Int -> z3 Int term"""
    if isinstance(x, SymInt): return x.t
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if z3.is_expr(x): return x
    import numpy as np
    if isinstance(x, np.integer): return z3.IntVal(int(x))
    raise OutOfSubset('not an integer: %r' % (type(x),))


def R(x):
    from fractions import Fraction
    if z3.is_expr(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    if isinstance(x, SymInt): return z3.ToReal(x.t)
    if isinstance(x, (bool, int)): return z3.RealVal(int(x))
    f = Fraction(float(x))
    return z3.RealVal(str(f))


def ival(t):
    """python int if the term is a numeral, else None"""
    if isinstance(t, int): return t
    if isinstance(t, SymInt): t = t.t
    if z3.is_int_value(t): return t.as_long()
    return None


def isimp(t):
    """cheap simplification of an Int term"""
    t = z3.simplify(t)
    return t


def rnum(t):
    if z3.is_rational_value(t): return t.as_fraction()
    return None


def radd(a, b):
    x, y = rnum(a), rnum(b)
    if x is not None and x == 0: return b
    if y is not None and y == 0: return a
    if x is not None and y is not None: return z3.RealVal(str(x + y))
    return a + b


def rsub(a, b):
    x, y = rnum(a), rnum(b)
    if y is not None and y == 0: return a
    if x is not None and y is not None: return z3.RealVal(str(x - y))
    return a - b


def rmul(a, b):
    x, y = rnum(a), rnum(b)
    if x is not None and y is not None: return z3.RealVal(str(x * y))
    if x is not None:
        if x == 0: return a
        if x == 1: return b
    if y is not None:
        if y == 0: return b
        if y == 1: return a
    return a * b


def rdiv(a, b):
    x, y = rnum(a), rnum(b)
    if y is not None and y == 1: return a
    if x is not None and y is not None and y != 0: return z3.RealVal(str(x / y))
    return a / b


DAY28 = 28 * 86400 * 10**9


def msplit(t):
    """MS(x) + c -> (x, c): instants written as an offset from a month start"""
    if not z3.is_app(t): return None
    d = t.decl()
    if d.kind() == z3.Z3_OP_UNINTERPRETED:
        return (t.arg(0), 0) if d.name() == 'MS' and t.num_args() == 1 else None
    if d.kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and t.num_args() == 2:
        a, b = t.children()
        va, vb = ival(a), ival(b)
        if vb is not None:
            r = msplit(a)
            return r and (r[0], r[1] + (vb if d.kind() == z3.Z3_OP_ADD else -vb))
        if va is not None and d.kind() == z3.Z3_OP_ADD:
            r = msplit(b)
            return r and (r[0], r[1] + va)
    return None


def cmp_terms(op, a, b):
    """arithmetic comparison with constant folding"""
    if a.sort() == z3.IntSort() and z3.is_app(a) and z3.is_app(b):
        p, q = msplit(a), msplit(b)
        # month starts are at least 28 days apart, so comparing instants is comparing months
        if p and q and abs(p[1] - q[1]) < DAY28:
            (x, c), (y, d) = p, q
            if op in ('==', '!='):
                r = cmp_terms('==', z3.simplify(x - y), z3.IntVal(0)) if c == d else False
                return r if op == '==' else Not(r)
            if op in ('>', '>='): return cmp_terms('<' if op == '>' else '<=', b, a)
            strict = not (c < d or (c == d and op == '<='))
            return cmp_terms('<' if strict else '<=', z3.simplify(x - y), z3.IntVal(0))
    if a.eq(b):
        return {'==': True, '!=': False, '<': False, '<=': True, '>': False, '>=': True}[op]
    x = rnum(a) if a.sort() == z3.RealSort() else ival(a)
    y = rnum(b) if b.sort() == z3.RealSort() else ival(b)
    if x is not None and y is not None:
        return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
    if op == '==': return a == b
    if op == '!=': return z3.Not(a == b)
    if op == '<': return a < b
    if op == '<=': return a <= b
    if op == '>': return a > b
    return a >= b


# ----------------------------------------------------------------- context
class Ctx:
    cur = None

    def __init__(self, trail=(), budget=None):
        self.trail = list(trail)
        self.pos = 0
        self.pc = []            # path condition / assumptions
        self.pending = []       # alternative trails discovered
        self.fresh = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        self.obligations = []   # (name, status, info)
        self.reg = Registry()
        self.bound = []         # bound index variables currently open
        self.entail_cache = {}
        self.events = []
        self.deadline = budget
        self.nforks = 0
        self.named = {}         # things to evaluate in countermodels
        self.loopinv = {}
        self.stubs_used = set()
        self.model_used = set() # dependency models exercised

    # names -------------------------------------------------------------
    def name(self, base):
        n = self.fresh.get(base, 0)
        self.fresh[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    def int(self, base):
        return z3.Int(self.name(base))

    def real(self, base):
        return z3.Real(self.name(base))

    def bool(self, base):
        return z3.Bool(self.name(base))

    # assumptions ---------------------------------------------------------
    def assume(self, f):
        if f is True: return
        f = B(f)
        self.pc.append(f)
        self.solver.add(f)
        self.entail_cache.clear()

    def has_bound(self, f):
        if not self.bound: return False
        ids = {b.get_id() for b in self.bound}
        return bool(free_ids(f) & ids)

    def _facts(self, f):
        return self.reg.closure([f], rounds=1, light=True)

    def feasible(self, f):
        f = B(f)
        self.solver.push()
        try:
            self.solver.add(f)
            for a in self._facts(f):
                self.solver.add(a)
            r = self.solver.check()
            return r != z3.unsat
        finally:
            self.solver.pop()

    def entails(self, f):
        """is f valid under the current path condition? (sound, incomplete)"""
        if is_c(f): return f
        k = f.get_id()
        if k in self.entail_cache:
            return self.entail_cache[k][1]
        s = z3.simplify(f)
        if z3.is_true(s): r = True
        elif z3.is_false(s): r = False
        else:
            r = not self.feasible(z3.Not(f))
        self.entail_cache[k] = (f, r)
        return r

    def decide(self, f):
        """python truth value of a symbolic condition: forks the path."""
        if is_c(f): return f
        s = z3.simplify(f)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        if self.has_bound(f):
            raise OutOfSubset('branch on a bound index')
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
            self.pos += 1
            self.assume(f if v else z3.Not(f))
            return v
        if self.deadline and time.time() > self.deadline:
            raise OutOfSubset('time budget exhausted while exploring paths')
        t, e = self.feasible(f), self.feasible(z3.Not(f))
        if not t and not e:
            raise PathAbort()
        if t and e:
            self.nforks += 1
            self.pending.append(self.trail[:self.pos] + [False])
            v = True
        else:
            v = t
        self.trail.append(v)
        self.pos += 1
        self.assume(f if v else z3.Not(f))
        return v

    # obligations -----------------------------------------------------------
    def prove(self, name, goal, hints=(), timeout=None):
        r = prove(self, goal, hints, timeout)
        self.obligations.append((name, r.status, r))
        return r.status == 'proved'

    def define(self, name, term):
        """a fresh name for a term (a definition: nothing is assumed about the program)"""
        v = z3.Const('%s!def%d' % (name, len(self.pc)), term.sort())
        self.assume(v == term)
        return v

    def lemma(self, name, goal, hints=(), timeout=None, alone=False):
        """prove and, if proved, assume; alone: from no hypothesis"""
        if alone:
            pc, self.pc = self.pc, []
            try: ok = self.prove(name, goal, hints, timeout)
            finally: self.pc = pc
        else: ok = self.prove(name, goal, hints, timeout)
        if ok:
            self.assume(goal)
            return True
        return False


def ctx():
    if Ctx.cur is None:
        raise OutOfSubset('symbolic value used outside a verification run')
    return Ctx.cur


# ----------------------------------------------------------------- SymInt/SymBool
class SymBool:
    __slots__ = ('t',)
    __module__ = 'numpy'

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().decide(self.t)

    def __invert__(self): return mkbool(Not(self.t))
    def __and__(self, o): return mkbool(And(self.t, _bt(o)))
    def __or__(self, o): return mkbool(Or(self.t, _bt(o)))
    __rand__ = __and__
    __ror__ = __or__
    def __eq__(self, o): return mkbool(Eqb(self.t, _bt(o)))
    def __ne__(self, o): return mkbool(Not(Eqb(self.t, _bt(o))))
    def __hash__(self): raise OutOfSubset('hash of a symbolic value')
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def __mul__(self, o): return mkint(If(self.t, z3.IntVal(1), z3.IntVal(0))) * o
    def __add__(self, o): return mkint(If(self.t, z3.IntVal(1), z3.IntVal(0))) + o
    __radd__ = __add__


def _bt(o):
    if isinstance(o, SymBool): return o.t
    if isinstance(o, bool): return o
    import numpy as np
    if isinstance(o, np.bool_): return bool(o)
    if z3.is_bool(o): return o
    if hasattr(o, 'as_bool_term'): return o.as_bool_term()
    raise OutOfSubset('not a boolean: %r' % (type(o),))


def mkbool(t):
    return t if is_c(t) else SymBool(t)


class SymInt:
    __slots__ = ('t', 'factors')
    __module__ = 'numpy'

    def __init__(self, t, factors=None):
        self.t = t
        self.factors = factors

    def _b(self, o, f, rev=False):
        if isinstance(o, float) and not float(o).is_integer():
            from .tensor import scalar
            a, b = scalar(self), scalar(o)
            return NotImplemented if a is None else (f(b, a) if rev else f(a, b))
        if not isinstance(o, (int, SymInt)) and not _isnpint(o):
            return NotImplemented
        a, b = self.t, I(o)
        if rev: a, b = b, a
        return mkint(f(a, b))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)): return self.__rmul__(o)
        return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            from .tensor import repeat_list
            return repeat_list(o, self)
        return self._b(o, lambda a, b: a * b, True)
    def __neg__(self): return mkint(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.t < 0, -self.t, self.t))
    def __floordiv__(self, o):
        d = ival(I(o))
        if d is None or d <= 0: raise OutOfSubset('// by a symbolic or non-positive number')
        return mkint(self.t / z3.IntVal(d))
    def __mod__(self, o):
        d = ival(I(o))
        if d is None or d <= 0: raise OutOfSubset('% by a symbolic or non-positive number')
        return mkint(self.t % z3.IntVal(d))
    def __truediv__(self, o):
        from .tensor import scalar
        return scalar(self) / o
    def __rtruediv__(self, o):
        from .tensor import scalar
        return o / scalar(self)
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o): r = self * r
            return r
        raise OutOfSubset('power of a symbolic integer')

    def _c(self, o, op):
        if isinstance(o, (int, SymInt)) or _isnpint(o):
            return mkbool(cmp_terms(op, self.t, I(o)))
        if isinstance(o, float):
            return mkbool(cmp_terms(op, z3.ToReal(self.t), R(o)))
        return NotImplemented

    def __lt__(self, o): return self._c(o, '<')
    def __le__(self, o): return self._c(o, '<=')
    def __gt__(self, o): return self._c(o, '>')
    def __ge__(self, o): return self._c(o, '>=')
    def __eq__(self, o):
        return self._c(o, '==')
    def __ne__(self, o):
        return self._c(o, '!=')
    def __hash__(self): raise OutOfSubset('hash of a symbolic value')
    def __bool__(self): return ctx().decide(cmp_terms('!=', self.t, z3.IntVal(0)))

    def __index__(self):
        v = concretise(self.t)
        if v is None:
            raise OutOfSubset('concrete integer needed for %s' % self.t)
        return v
    __int__ = __index__

    def __repr__(self): return 'SymInt(%s)' % self.t
    # numpy-scalar-like
    def astype(self, *_a, **_k): return self
    def item(self): return self
    @property
    def dtype(self):
        import numpy as np
        return np.dtype('int64')
    @property
    def shape(self): return ()
    ndim = 0


def _isnpint(o):
    import numpy as np
    return isinstance(o, np.integer)


def concretise(t):
    v = ival(t)
    if v is not None: return v
    c = ctx()
    if c.has_bound(t): return None
    c.solver.push()
    try:
        if c.solver.check() != z3.sat: return None
        m = c.solver.model()
        v = m.eval(t, model_completion=True)
        if not z3.is_int_value(v): return None
    finally:
        c.solver.pop()
    v = v.as_long()
    return v if c.entails(t == v) else None


def mkint(t):
    if isinstance(t, int): return t
    t = z3.simplify(t)
    v = ival(t)
    return v if v is not None else SymInt(t)


# ----------------------------------------------------------------- term utilities
_free_cache = {}


def free_ids(f):
    """ids of the uninterpreted constants of a term"""
    if is_c(f): return frozenset()
    k = f.get_id()
    if k in _free_cache: return _free_cache[k][1]
    stack, seen, out = [f], set(), set()
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(i)
            stack.extend(e.children())
        elif z3.is_quantifier(e):
            stack.append(e.body())
    r = frozenset(out)
    _free_cache[k] = (f, r)
    return r


def free_consts(f):
    stack, seen, out = [f], set(), {}
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[i] = e
            stack.extend(e.children())
    return list(out.values())


def collect_apps(fs, decl_ids, seen):
    """applications (with arguments) of the registered declarations"""
    out = []
    stack = list(fs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen[i] = e
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.get_id() in decl_ids:
                out.append(e)
            stack.extend(e.children())
        elif z3.is_quantifier(e):
            stack.append(e.body())
    return out


class SumDef:
    """S(params) = sum_{lo <= j < hi} body(j)"""
    def __init__(self, decl, params, j, body, lo, hi, kind):
        self.decl, self.params, self.j, self.body, self.lo, self.hi, self.kind = decl, params, j, body, lo, hi, kind
        self.keep = (decl, params, j, body, lo, hi)

    def inst(self, app, what):
        if not self.params: return what
        return z3.substitute(what, *[(p, app.arg(k)) for k, p in enumerate(self.params)])

    def body_at(self, app, j):
        b = z3.substitute(self.body, (self.j, j))
        return self.inst(app, b)


class Registry:
    """Declarations with axioms that are instantiated on the ground terms of a query."""

    def __init__(self):
        self.sums = {}        # decl id -> SumDef
        self.sum_key = {}
        self.inv = {}         # decl id -> fn(app) -> [facts]
        self.skolem = {}
        self.n = 0
        self.keep = []
        self.unfold_hints = []   # (index term): split sums at these points
        self.linear_hints = []
        self.pair_facts = {}     # decl id -> fn(app1, app2) -> [facts]
        self.no_pairs = False

    def declare_inv(self, decl, fn):
        self.inv[decl.get_id()] = fn
        self.keep.append(decl)

    def declare_pair(self, decl, fn):
        self.pair_facts[decl.get_id()] = fn
        self.keep.append(decl)

    def sum_term(self, j, body, lo, hi, kind='sum'):
        """interned Sum/Prod term; j is the bound Int constant occurring in body"""
        fv = [c for c in free_consts(z3.And(body == body, lo == lo, hi == hi)) if not c.eq(j)]
        if lo.eq(hi): return z3.RealVal(0 if kind == 'sum' else 1)
        bnd = {b.get_id() for b in Ctx.cur.bound}
        params = [c for c in fv if c.sort() == z3.IntSort() and _is_index(c)]
        params.sort(key=lambda c: c.decl().name())
        formal = [z3.Int('fp!%d' % k) for k in range(len(params))]
        cj = z3.Int('sj!')
        sub = [(j, cj)] + list(zip(params, formal))
        b2 = z3.substitute(body, *sub)
        lo2 = z3.substitute(lo, *sub[1:]) if params else lo
        hi2 = z3.substitute(hi, *sub[1:]) if params else hi
        key = (kind, b2.get_id(), lo2.get_id(), hi2.get_id())
        if key not in self.sum_key:
            nm = '%s!%d' % (kind, self.n)
            self.n += 1
            decl = z3.Function(nm, *([z3.IntSort()] * len(formal)), z3.RealSort())
            d = SumDef(decl, formal, cj, b2, lo2, hi2, kind)
            self.sums[decl.get_id()] = d
            self.sum_key[key] = d
        d = self.sum_key[key]
        return d.decl(*params) if params else d.decl()

    # instantiate axioms on the ground applications in fs -------------------
    def closure(self, fs, rounds=3, light=False, extra_idx=()):
        facts = []
        seen = {}
        done = set()
        work = [f for f in fs if not is_c(f)]
        sumapps = []
        allapps = {}
        ids = set(self.sums) | set(self.inv) | set(self.pair_facts)
        for rnd in range(rounds):
            apps = collect_apps(work, ids, seen)
            new = []
            for a in apps:
                if a.get_id() in done: continue
                done.add(a.get_id())
                if self._mentions_formal(a): continue
                di = a.decl().get_id()
                if di in self.inv:
                    new += [f for f in self.inv[di](a) if f is not True]
                if di in self.pair_facts:
                    for b in allapps.get(di, []):
                        new += [f for f in self.pair_facts[di](a, b) if f is not True]
                    allapps.setdefault(di, []).append(a)
                if di in self.sums and not light:
                    new += self._sum_facts(a)
                    for b in sumapps:
                        new += self._pair(a, b)
                    sumapps.append(a)
                elif di in self.sums:
                    new += self._sum_facts(a, light=True)
            if not new: break
            new = [B(f) for f in new]
            facts += new
            work = new
        return facts

    def _mentions_formal(self, a):
        for c in free_consts(a):
            n = c.decl().name()
            if n.startswith('fp!') or n == 'sj!': return True
        return False

    def _sk(self, key, mk):
        if key not in self.skolem:
            self.skolem[key] = mk()
            self.keep.append(self.skolem[key])
        return self.skolem[key]

    def _sum_facts(self, a, light=False):
        d = self.sums[a.decl().get_id()]
        lo, hi = d.inst(a, d.lo), d.inst(a, d.hi)
        zero = z3.RealVal(0 if d.kind == 'sum' else 1)
        out = [z3.Implies(hi <= lo, a == zero), z3.Implies(hi == lo + 1, a == d.body_at(a, lo))]
        if d.kind == 'sum' and _indicator(d.body):
            out += [a >= 0, z3.Implies(hi >= lo, a <= z3.ToReal(hi - lo)), a == z3.ToReal(z3.ToInt(a))]
        if light: return out
        if d.kind == 'sum' and _indicator(d.body):
            sk4 = self._sk(('al', a.get_id()), lambda: z3.Int('skal!%d' % len(self.skolem)))
            out.append(z3.Or(hi < lo, a == z3.ToReal(hi - lo), z3.And(lo <= sk4, sk4 < hi, d.body_at(a, sk4) != 1)))
        sk = self._sk(('nn', a.get_id()), lambda: z3.Int('sknn!%d' % len(self.skolem)))
        b = d.body_at(a, sk)
        if d.kind == 'sum':
            # all terms >= 0  ==> sum >= 0 ; all terms zero ==> zero
            out.append(z3.Or(a >= 0, z3.And(lo <= sk, sk < hi, b < 0)))
            sk2 = self._sk(('zz', a.get_id()), lambda: z3.Int('skzz!%d' % len(self.skolem)))
            b2 = d.body_at(a, sk2)
            out.append(z3.Or(a == 0, z3.And(lo <= sk2, sk2 < hi, b2 != 0)))
            sk3 = self._sk(('np', a.get_id()), lambda: z3.Int('sknp!%d' % len(self.skolem)))
            b3 = d.body_at(a, sk3)
            out.append(z3.Or(a <= 0, z3.And(lo <= sk3, sk3 < hi, b3 > 0)))
        else:
            sk2 = self._sk(('oo', a.get_id()), lambda: z3.Int('skoo!%d' % len(self.skolem)))
            b2 = d.body_at(a, sk2)
            out.append(z3.Or(a == 1, z3.And(lo <= sk2, sk2 < hi, b2 != 1)))
            sk3 = self._sk(('ps', a.get_id()), lambda: z3.Int('skps!%d' % len(self.skolem)))
            b3 = d.body_at(a, sk3)
            out.append(z3.Or(a > 0, z3.And(lo <= sk3, sk3 < hi, b3 <= 0)))
        for p in self.unfold_hints:
            out += self.split(a, p)
        return out

    def split(self, a, p):
        """S(lo,hi) = S(lo,p) + f(p) + S(p+1,hi) for lo<=p<hi"""
        d = self.sums[a.decl().get_id()]
        lo, hi = d.inst(a, d.lo), d.inst(a, d.hi)
        j = z3.Int('sj!')
        body = d.inst(a, d.body)
        s1 = self.sum_term(j, body, lo, p, d.kind)
        s2 = self.sum_term(j, body, p + 1, hi, d.kind)
        fp = d.body_at(a, p)
        rhs = s1 + fp + s2 if d.kind == 'sum' else s1 * fp * s2
        return [z3.Implies(z3.And(lo <= p, p < hi), a == rhs)]

    def _pair(self, a, b):
        """congruence: equal ranges and equal bodies ==> equal sums (skolemised)."""
        if a.eq(b): return []
        d, e = self.sums[a.decl().get_id()], self.sums[b.decl().get_id()]
        if d.kind != e.kind: return []
        lo1, hi1, lo2, hi2 = d.inst(a, d.lo), d.inst(a, d.hi), e.inst(b, e.lo), e.inst(b, e.hi)
        key = tuple(sorted((a.get_id(), b.get_id())))
        sk = self._sk(('cg', key), lambda: z3.Int('skcg!%d' % len(self.skolem)))
        f, g = d.body_at(a, sk), e.body_at(b, sk)
        out = []
        same = z3.And(lo1 == lo2, hi1 == hi2)
        if not f.eq(g):
            out.append(z3.Or(z3.Not(same), a == b, z3.And(lo1 <= sk, sk < hi1, f != g)))
        else:
            out.append(z3.Implies(same, a == b))
        return out


def _indicator(b):
    if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE): return False
    x, y = rnum(b.arg(1)), rnum(b.arg(2))
    return x in (0, 1) and y in (0, 1)


def _is_index(c):
    """free Int constants a sum may depend on (all of them are abstracted, so that
    equal summands over renamed indices share one function symbol)."""
    n = c.decl().name()
    return not n.startswith('dim.')


class Result:
    def __init__(self, status, reason='', model=None, solver='z3', secs=0.0, goal=None):
        self.status, self.reason, self.model, self.solver, self.secs, self.goal = status, reason, model, solver, secs, goal


STATS = dict(queries=0, z3=0, cvc5=0, secs=0.0)
TIMEOUT = 8.0
CROSS = {'on': False}


def prove(c, goal, hints=(), timeout=None):
    t0 = time.time()
    STATS['queries'] += 1
    if goal is True or (not is_c(goal) and z3.is_true(z3.simplify(goal))):
        STATS['z3'] += 1
        return Result('proved', 'by simplification', secs=time.time() - t0, goal=goal)
    goal = B(goal)
    hyps = list(c.pc) + [B(h) for h in hints]
    neg = z3.Not(goal)
    res = None
    for rounds in getattr(c, 'rounds', (2, 4)):
        facts = c.reg.closure(hyps + [neg], rounds=rounds)
        s = z3.Solver()
        s.set('timeout', int(1000 * (timeout or TIMEOUT)))
        s.add(*hyps)
        s.add(*facts)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            STATS['z3'] += 1
            res = Result('proved', 'unsat', secs=time.time() - t0, goal=goal)
            break
        if r == z3.sat:
            res = Result('refuted', 'sat', s.model(), secs=time.time() - t0, goal=goal)
        else:
            res = Result('unknown', s.reason_unknown(), secs=time.time() - t0, goal=goal)
            # fall back on the nonlinear-arithmetic tactic pipeline, then cvc5
            r2 = _try_cvc5(s, timeout or TIMEOUT)
            if r2 == 'unsat':
                STATS['cvc5'] += 1
                res = Result('proved', 'unsat', solver='cvc5', secs=time.time() - t0, goal=goal)
                break
    STATS['secs'] += time.time() - t0
    return res


def canary(c, goals):
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*c.pc)
    s.add(*c.reg.closure(list(c.pc) + goals, rounds=2))
    return str(s.check())


def _try_cvc5(solver, timeout):
    """hand the same query to cvc5 as SMT-LIB text"""
    try:
        import cvc5
    except Exception:
        return 'unavailable'
    try:
        txt = solver.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        sl = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        sl.setOption('tlimit-per', str(int(timeout * 1000)))
        sl.setLogic('ALL')
        p = cvc5.InputParser(sl)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace('(check-sat)', ''), 'q')
        sm = p.getSymbolManager()
        while True:
            cmd = p.nextCommand()
            if cmd.isNull(): break
            cmd.invoke(sl, sm)
        r = sl.checkSat()
        return 'unsat' if r.isUnsat() else ('sat' if r.isSat() else 'unknown')
    except Exception as e:
        return 'error %s' % e


# ----------------------------------------------------------------- path exploration
class Outcome:
    def __init__(self):
        self.paths = 0
        self.obligations = {}     # name -> list of (status, Result, path no)
        self.errors = []          # out-of-subset reasons
        self.exceptions = []
        self.stubs = set()
        self.models = set()
        self.vacuous = True
        self.canary = None        # 'ok' once the must-fail obligation has failed


def explore(run, max_paths=200, budget=120.0):
    """Runs `run(ctx)` once per feasible path.  Obligations are recorded by ctx.prove."""
    out = Outcome()
    work = [[]]
    end = time.time() + budget
    while work:
        trail = work.pop()
        c = Ctx(trail, end)
        Ctx.cur = c
        done = False
        try:
            run(c)
            done = True
        except PathAbort:
            pass
        except OutOfSubset as e:
            out.errors.append(_where(e))
        except (RecursionError, z3.Z3Exception) as e:
            out.errors.append('%s: %s' % (type(e).__name__, str(e)[:200]))
        except Exception as e:
            out.exceptions.append(_where(e))
        finally:
            Ctx.cur = None
        out.paths += 1
        work += c.pending
        for name, status, r in c.obligations:
            out.obligations.setdefault(name, []).append((status, r, out.paths, c))
        out.stubs |= c.stubs_used
        out.models |= c.model_used
        if done and c.obligations and out.canary != 'ok':
            # non-vacuity: the path condition together with every axiom instance used must be satisfiable
            # as far as the solver can tell: the must-fail obligation `False` has to fail
            Ctx.cur = c
            try:
                goals = [B(r.goal) for _, _, r in c.obligations if r.goal is not True][:12]
                r = canary(c, goals)
            except Exception as e:
                r = 'error %s' % e
            finally:
                Ctx.cur = None
            if r != 'unsat':
                out.vacuous = False
                out.canary = 'ok'
            elif out.canary is None:
                out.canary = 'proved'
        if out.paths >= max_paths or time.time() > end:
            if work: out.errors.append('path budget exhausted (%d paths)' % out.paths)
            break
    return out


def _where(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    loc = [f for f in tb if '/chainladder/' in f.filename or f.filename.startswith('<vc')]
    f = loc[-1] if loc else tb[-1]
    return '%s: %s (at %s:%s %s)' % (type(e).__name__, str(e)[:300], f.filename.split('/chainladder/')[-1], f.lineno, f.name)
