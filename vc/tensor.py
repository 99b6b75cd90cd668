"""Symbolic n-dimensional arrays: the assumed contracts on numpy.

A SymTensor has a shape of python ints / SymInts and an element function from
index terms to an element.  Element representations by dtype:
  'f'  X(nan, inf, v)      extended real, v a z3 Real
  'i'  z3 Int              'b' python bool / z3 Bool
  'M'  z3 Int (ns)         datetime64[ns]      'Mm' z3 Int (months) datetime64[M]
  'dm' z3 Int (months)     timedelta64[M]      'dn' z3 Int (ns)
  'o'  anything            object arrays (labels): z3 Int codes or python objects
Arrays share mutable buffers exactly as numpy views do, so writes through a
view reach the base array and writes to an input array are visible to frame
obligations.
"""
from collections import namedtuple
import itertools
import numpy as np
import z3
from .core import (And, B, Ctx, Eqb, I, If, Implies, Not, Or, OutOfSubset, R, SymBool, SymInt,
                   cmp_terms, ctx, is_c, msplit, DAY28, ival, mkbool, mkint, radd, rdiv, rmul, rsub, rnum, isimp)

X = namedtuple('X', 'nan inf v')
ZERO, ONE = z3.RealVal(0), z3.RealVal(1)
NAN = X(True, False, ZERO)


def fin(v):
    return X(False, False, v)


def xconst(c):
    c = float(c)
    if c != c: return NAN
    if c in (float('inf'), float('-inf')): return X(False, True, ONE if c > 0 else z3.RealVal(-1))
    return fin(R(c))


def xif(c, a, b):
    if c is True: return a
    if c is False: return b
    v = a.v if a.v.eq(b.v) else (b.v if a.nan is True else a.v if b.nan is True else z3.If(c, a.v, b.v))
    return X(If(c, a.nan, b.nan), If(c, a.inf, b.inf), v)


def _noinf(cond):
    """drop an infinity flag that cannot hold"""
    if is_c(cond): return cond
    c = ctx()
    if c.entails(Not(cond)): return False
    return cond


def xadd(a, b):
    nan = Or(a.nan, b.nan)
    if a.inf is False and b.inf is False:
        return X(nan, False, radd(a.v, b.v))
    clash = And(a.inf, b.inf, Not(Eqb(cmp_terms('>', a.v, ZERO), cmp_terms('>', b.v, ZERO))))
    nan = Or(nan, clash)
    v = If(a.inf, a.v, If(b.inf, b.v, a.v + b.v))
    return X(nan, And(Not(nan), Or(a.inf, b.inf)), v)


def xneg(a):
    n = rnum(a.v)
    return X(a.nan, a.inf, z3.RealVal(str(-n)) if n is not None else -a.v)


def xsub(a, b):
    if a.inf is False and b.inf is False:
        return X(Or(a.nan, b.nan), False, rsub(a.v, b.v))
    return xadd(a, xneg(b))


def xmul(a, b):
    nan = Or(a.nan, b.nan)
    if a.inf is False and b.inf is False:
        return X(nan, False, rmul(a.v, b.v))
    nan = Or(nan, And(a.inf, Not(b.inf), cmp_terms('==', b.v, ZERO)), And(b.inf, Not(a.inf), cmp_terms('==', a.v, ZERO)))
    return X(nan, And(Not(nan), Or(a.inf, b.inf)), a.v * b.v)


def xdiv(a, b):
    nan = Or(a.nan, b.nan)
    if a.inf is False and b.inf is False and a.v.eq(b.v) and rnum(b.v) is None and _noinf(And(Not(b.nan), cmp_terms('==', b.v, ZERO))) is False:
        return X(nan, False, ONE)
    bz = And(Not(b.inf), cmp_terms('==', b.v, ZERO))
    az = And(Not(a.inf), cmp_terms('==', a.v, ZERO))
    if a.inf is False and b.inf is False:
        if bz is False:
            return X(nan, False, rdiv(a.v, b.v))
        # b == 0 may be excluded because b is then missing
        if b.nan is not False and _noinf(And(Not(b.nan), bz)) is False:
            return X(nan, False, rdiv(a.v, b.v))
        if _noinf(bz) is False:
            return X(nan, False, rdiv(a.v, b.v))
        nan2 = Or(nan, And(bz, az))
        inf = _noinf(And(Not(nan), bz, Not(az)))
        v = If(bz, If(cmp_terms('>', a.v, ZERO), ONE, z3.RealVal(-1)), rdiv(a.v, b.v)) if inf is not False else rdiv(a.v, b.v)
        return X(nan2, inf, v)
    nan = Or(nan, And(bz, az), And(a.inf, b.inf))
    inf = And(Not(nan), Or(a.inf, bz))
    v = If(b.inf, ZERO, If(bz, If(cmp_terms('>', a.v, ZERO), ONE, z3.RealVal(-1)), If(a.inf, If(cmp_terms('>', b.v, ZERO), a.v, -a.v), a.v / b.v)))
    return X(nan, inf, v)


def xcmp(op, a, b):
    ok = And(Not(a.nan), Not(b.nan))
    if a.inf is False and b.inf is False:
        r = cmp_terms(op, a.v, b.v)
    else:
        rank = lambda x: If(x.inf, If(cmp_terms('>', x.v, ZERO), ONE, z3.RealVal(-1)), ZERO)
        ra, rb = rank(a), rank(b)
        tie = cmp_terms('==', ra, rb)
        bothfin = And(Not(a.inf), Not(b.inf))
        base = cmp_terms(op, ra, rb)
        r = If(bothfin, cmp_terms(op, a.v, b.v), base)
    if op == '!=': return Or(Not(ok), r)
    return And(ok, r)


def xeq_same(a, b):
    """same extended real (NaN equals NaN)"""
    ninf = And(Not(a.inf), Not(b.inf))
    val = If(a.inf, And(b.inf, Eqb(cmp_terms('>', a.v, ZERO), cmp_terms('>', b.v, ZERO))),
             And(Not(b.inf), cmp_terms('==', a.v, b.v)))
    return And(Eqb(a.nan, b.nan), Or(a.nan, val))


# ------------------------------------------------------------------ uninterpreted reals
_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def setup_registry(c):
    """axioms of the dependencies' elementary functions"""
    reg = c.reg
    sq = uf('sqrt', RS, RS)
    reg.declare_inv(sq, lambda a: [z3.Implies(a.arg(0) >= 0, z3.And(a >= 0, a * a == a.arg(0)))])
    ex = uf('exp', RS, RS)
    reg.declare_inv(ex, lambda a: [a > 0, z3.Implies(a.arg(0) == 0, a == 1)])
    lg = uf('log', RS, RS)
    reg.declare_inv(lg, lambda a: [z3.Implies(a.arg(0) == 1, a == 0), z3.Implies(a.arg(0) > 1, a > 0)])
    ab = uf('rabs', RS, RS)
    pw = uf('ipow', RS, IS, RS)
    def pwf(a):
        x, k = a.arg(0), a.arg(1)
        out = [z3.Implies(k == 0, a == 1), z3.Implies(k == 1, a == x), z3.Implies(k == 2, a == x * x), z3.Implies(x > 0, a > 0)]
        return out
    reg.declare_inv(pw, pwf)
    def pwp(a, b):
        out = []
        for p, q in ((a, b), (b, a)):
            out.append(z3.Implies(z3.And(p.arg(0) == q.arg(0), q.arg(1) == p.arg(1) + 1, p.arg(1) >= 0), q == p * p.arg(0)))
        return out
    reg.declare_pair(pw, pwp)
    rp = uf('rpow', RS, RS, RS)
    reg.declare_inv(rp, lambda a: [z3.Implies(a.arg(1) == 0, a == 1), z3.Implies(a.arg(1) == 1, a == a.arg(0)),
                                   z3.Implies(a.arg(0) == 1, a == 1), z3.Implies(a.arg(0) > 0, a > 0),
                                   z3.Implies(a.arg(1) == 2, a == a.arg(0) * a.arg(0))])
    ms, mo = uf('MS', IS, IS), uf('MO', IS, IS)
    DAY28 = 28 * 86400 * 10**9
    def msc(a):
        m = ival(z3.simplify(a.arg(0)))
        known = [a == int(np.datetime64(m, 'M').astype('datetime64[ns]').astype('int64'))] if m is not None and -3000 < m < 3500 else []
        return [mo(a) == a.arg(0)] + known
    reg.declare_inv(ms, msc)
    def msp(a, b):
        m, n = a.arg(0), b.arg(0)
        return [z3.Implies(m < n, a + DAY28 * (n - m) <= b), z3.Implies(n < m, b + DAY28 * (m - n) <= a)]
    reg.declare_pair(ms, msp)
    reg.declare_inv(mo, lambda a: [ms(a) <= a.arg(0), a.arg(0) < ms(a + 1)])


def MS(m):
    return uf('MS', IS, IS)(m)


def instant(ns):
    """a concrete instant; exact month starts and the last instants of months are written with the month-start function"""
    ns = int(ns)
    m = np.datetime64(ns, 'ns').astype('datetime64[M]')
    nxt = m + 1
    if m.astype('datetime64[ns]').astype('int64') == ns: return MS(z3.IntVal(int(m.astype('int64'))))
    if nxt < np.datetime64('2262-02'):
        d = int(nxt.astype('datetime64[ns]').astype('int64')) - ns
        if d <= 86400 * 10**9: return MS(z3.IntVal(int(nxt.astype('int64')))) - d
    return z3.IntVal(int(ns))


def MO(t):
    # month of a month start is syntactic
    r = msplit(t)
    if r:
        if 0 <= r[1] < DAY28: return r[0]
        if -DAY28 <= r[1] < 0: return z3.simplify(r[0] - 1)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = MO(t.arg(1)), MO(t.arg(2))
        return a if a.eq(b) else z3.If(t.arg(0), a, b)
    return uf('MO', IS, IS)(t)


def xsqrt(a):
    neg = cmp_terms('<', a.v, ZERO)
    nan = Or(a.nan, neg)
    n = rnum(a.v)
    if n in (0, 1): return X(a.nan, a.inf, a.v)
    return X(nan, a.inf, uf('sqrt', RS, RS)(a.v))


def xfun(name):
    f = uf(name, RS, RS)
    def g(a):
        if a.inf is not False:
            up = cmp_terms('>', a.v, ZERO)
            if name == 'exp': return X(a.nan, And(a.inf, up), If(a.inf, If(up, ONE, ZERO), f(a.v)))
            if name == 'log':
                r = g(X(a.nan, False, a.v))
                return X(Or(a.nan, And(a.inf, Not(up)), And(Not(a.inf), r.nan)), Or(And(a.inf, up), And(Not(a.inf), r.inf)), If(a.inf, ONE, r.v))
            raise OutOfSubset('%s of a possibly infinite value' % name)
        if name == 'log':
            bad = _noinf(And(Not(a.nan), cmp_terms('<=', a.v, ZERO)))
            if bad is not False: return X(Or(a.nan, cmp_terms('<', a.v, ZERO)), And(Not(a.nan), cmp_terms('==', a.v, ZERO)), If(cmp_terms('==', a.v, ZERO), z3.RealVal(-1), f(a.v)))
        return X(a.nan, False, f(a.v))
    return g


def iabs(v):
    v = z3.simplify(v)
    return z3.If(v < 0, -v, v)


def xabs(a):
    return X(a.nan, a.inf, z3.If(a.v < 0, -a.v, a.v) if rnum(a.v) is None else z3.RealVal(str(abs(rnum(a.v)))))


def xpow(a, k, kd):
    """power; numpy: x**0 == 1 even for NaN"""
    v = k.v if isinstance(k, X) else k
    if z3.is_expr(v) and not z3.is_bool(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and rnum(v.arg(1)) is not None and rnum(v.arg(2)) is not None and (not isinstance(k, X) or (k.nan is False and k.inf is False)):
        w = lambda e: X(False, False, e) if isinstance(k, X) else e
        return xif(v.arg(0), xpow(a, w(v.arg(1)), kd), xpow(a, w(v.arg(2)), kd))
    if kd in ('i', 'b') or (kd == 'f' and isinstance(k, X) and k.nan is False and k.inf is False and rnum(k.v) is not None):
        if kd == 'b': k = If(k, z3.IntVal(1), z3.IntVal(0))
        n = ival(k) if kd in ('i', 'b') else (int(rnum(k.v)) if rnum(k.v).denominator == 1 else None)
        if n is not None:
            if n == 0: return fin(ONE)
            if n < 0: return xdiv(fin(ONE), xpow(a, z3.IntVal(-n), 'i'))
            if n <= 4:
                r = a
                for _ in range(n - 1): r = xmul(r, a)
                return r
        if kd != 'f':
            if a.nan is False and a.inf is False and rnum(a.v) == 1: return fin(ONE)
            if a.inf is not False: raise OutOfSubset('symbolic power of a possibly infinite value')
            zero = cmp_terms('==', k, z3.IntVal(0))
            if not ctx().entails(cmp_terms('>=', k, z3.IntVal(0))) and not ctx().has_bound(k) and not ctx().entails(cmp_terms('>', a.v, ZERO)):
                raise OutOfSubset('possibly negative symbolic exponent')
            return X(And(a.nan, Not(zero)), False, If(zero, ONE, uf('ipow', RS, IS, RS)(a.v, k)))
        if rnum(k.v) == 1 / 2 or str(rnum(k.v)) == '1/2': return xsqrt(a)
    if kd == 'f':
        if a.inf is not False or k.inf is not False: raise OutOfSubset('power of a possibly infinite value')
        zero = And(Not(k.nan), cmp_terms('==', k.v, ZERO))
        base1 = And(Not(a.nan), cmp_terms('==', a.v, ONE))
        # integer-valued exponent of an arange: ToReal(int)
        if z3.is_app(k.v) and k.v.decl().kind() == z3.Z3_OP_TO_REAL:
            r = uf('ipow', RS, IS, RS)(a.v, k.v.arg(0))
        else:
            r = uf('rpow', RS, RS, RS)(a.v, k.v)
        return X(And(Or(a.nan, k.nan), Not(zero), Not(base1)), False, If(zero, ONE, If(base1, ONE, r)))
    raise OutOfSubset('power')


# ------------------------------------------------------------------ conversions between dtypes
def to_f(e, dt):
    if dt == 'f': return e
    if dt == 'i' and z3.is_expr(e) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and ival(e.arg(1)) is not None and ival(e.arg(2)) is not None:
        return fin(z3.If(e.arg(0), R(ival(e.arg(1))), R(ival(e.arg(2)))))
    if dt == 'i': return fin(z3.RealVal(z3.simplify(e).as_long()) if z3.is_int_value(z3.simplify(e)) else z3.ToReal(e)) if not isinstance(e, int) else fin(R(e))
    if dt == 'b': return fin(If(e, ONE, ZERO))
    if dt == 'o':
        if isinstance(e, (int, float)): return xconst(e)
    raise OutOfSubset('cannot use dtype %s as a number' % dt)


def to_i(e, dt):
    if dt == 'i': return e
    if dt == 'b': return If(e, z3.IntVal(1), z3.IntVal(0))
    if dt == 'f' and z3.is_app(e.v) and e.v.decl().kind() == z3.Z3_OP_TO_REAL: return e.v.arg(0)
    if dt == 'f' and rnum(e.v) is not None and rnum(e.v).denominator == 1: return z3.IntVal(int(rnum(e.v)))
    raise OutOfSubset('cannot use dtype %s as an integer' % dt)


def to_b(e, dt):
    if dt == 'b': return e
    if dt == 'i': return cmp_terms('!=', e, z3.IntVal(0))
    if dt == 'f': return Or(e.nan, cmp_terms('!=', e.v, ZERO))
    raise OutOfSubset('cannot use dtype %s as a boolean' % dt)


def eif(c, a, b, dt):
    if c is True: return a
    if c is False: return b
    if dt == 'f': return xif(c, a, b)
    if dt == 'b': return If(c, a, b)
    if dt == 'o':
        if a is b or (not z3.is_expr(a) and not z3.is_expr(b) and a == b): return a
        if z3.is_expr(a) and z3.is_expr(b): return a if a.eq(b) else z3.If(c, a, b)
        # object of unlike kinds: decide
        return a if ctx().decide(c) else b
    if dt == 'M' and not a.eq(b):
        p, q = msplit(a), msplit(b)
        if p and q and p[1] == q[1]:
            m = MS(p[0] if p[0].eq(q[0]) else z3.simplify(z3.If(c, p[0], q[0])))
            return m + p[1] if p[1] else m
    return a if a.eq(b) else z3.If(c, a, b)


# ------------------------------------------------------------------ dims
def dim(x):
    """normalise a dimension"""
    if isinstance(x, SymInt): return x
    if isinstance(x, (int, np.integer)): return int(x)
    if z3.is_expr(x): return mkint(x)
    if isinstance(x, SymTensor) and x.shape == (): return mkint(to_i(x.at(()), x.dt))
    raise OutOfSubset('bad dimension %r' % (x,))


def same_dim(a, b):
    """decided equality of two dims, may fork"""
    if isinstance(a, int) and isinstance(b, int): return a == b
    t = cmp_terms('==', z3.simplify(I(a)), z3.simplify(I(b)))
    if is_c(t): return t
    c = ctx()
    if isinstance(a, FlatDim) and not isinstance(b, FlatDim) and c.entails(I(a.m) == 1): return same_dim(a.n, b)
    if isinstance(b, FlatDim) and not isinstance(a, FlatDim) and c.entails(I(b.m) == 1): return same_dim(a, b.n)
    if c.entails(t): return True
    return c.decide(t)


def bdim(a, b):
    """broadcast two dims -> (dim, a_is_one, b_is_one)"""
    if isinstance(a, int) and isinstance(b, int):
        if a == b: return a, a == 1, b == 1
        if a == 1: return b, True, False
        if b == 1: return a, False, True
        raise ValueError('operands could not be broadcast together (%d, %d)' % (a, b))
    if isinstance(a, int) and a == 1: return b, True, False
    if isinstance(b, int) and b == 1: return a, False, True
    ta, tb = I(a), I(b)
    if z3.simplify(ta).eq(z3.simplify(tb)): return a, False, False
    c = ctx()
    if c.decide(ta == tb): return (a if not isinstance(b, int) else b), False, False
    if c.decide(ta == 1): return b, True, False
    if c.decide(tb == 1): return a, False, True
    raise ValueError('operands could not be broadcast together (%s, %s)' % (a, b))


def prod_dims(ds):
    r = 1
    for d in ds: r = r * d
    return r


class FlatIdx:
    """index into an axis that is a Fortran-order flattening of (n, m): (i, j) <-> i + n*j"""
    __slots__ = ('i', 'j', 'n')
    def __init__(self, i, j, n): self.i, self.j, self.n = i, j, n
    def term(self): return self.i + self.n * self.j


class FlatDim(SymInt):
    """dimension n*m of a Fortran-order flattening"""
    __slots__ = ('n', 'm')
    def __init__(self, n, m):
        super().__init__(z3.simplify(I(n) * I(m)))
        self.n, self.m = n, m


def iterm(i):
    return i.term() if isinstance(i, FlatIdx) else i


# ------------------------------------------------------------------ buffers
class Buf:
    __slots__ = ('fn', 'label', 'writes', 'nd', 'born', 'last')
    def __init__(self, fn, label=None):
        self.fn, self.label, self.writes = memo(fn), label, []
        self.born = self.last = serial()


AS_OF = None        # serial number of the comprehension whose element is being formed
_SERIAL = [0]


def serial():
    _SERIAL[0] += 1
    return _SERIAL[0]


def _k(i):
    return (i.i.get_id(), i.j.get_id(), i.n.get_id(), 'F') if isinstance(i, FlatIdx) else i.get_id()


def memo(fn):
    cache = {}
    def g(idx):
        k = tuple(_k(i) for i in idx)
        r = cache.get(k)
        if r is None:
            r = (idx, fn(idx))
            cache[k] = r
        return r[1]
    return g


class SymTensor:
    __module__ = 'numpy'
    __array_ufunc__ = None
    __array_priority__ = 10000

    def __init__(self, shape, fn=None, dtype='f', buf=None, vmap=None, vinv=None, label=None):
        self._shape = tuple(dim(d) for d in shape)
        self.dt = dtype
        self.buf = buf if buf is not None else Buf(fn, label)
        self.vmap, self.vinv = vmap, vinv

    # --- geometry
    @property
    def shape(self): return self._shape
    @shape.setter
    def shape(self, s):
        self._shape = tuple(dim(d) for d in s)
    @property
    def ndim(self): return len(self._shape)
    @property
    def size(self): return prod_dims(self._shape)
    @property
    def dtype(self): return DT(self.dt)
    @property
    def T(self): return transpose(self)
    @property
    def values(self): return self
    @property
    def year(self):
        if self.dt not in ('M', 'Mm'): raise AttributeError('year')
        f = conv(self, 'M')
        return SymTensor(self.shape, lambda i: z3.simplify(1970 + MO(f(i)) / 12), 'i')
    @property
    def month(self):
        if self.dt not in ('M', 'Mm'): raise AttributeError('month')
        f = conv(self, 'M')
        return SymTensor(self.shape, lambda i: z3.simplify(1 + MO(f(i)) % 12), 'i')
    def __len__(self):
        return len_of(self)

    # --- access
    def at(self, idx):
        idx = tuple(idx)
        if self.vmap is not None: idx = self.vmap(idx)
        return self.buf.fn(idx)

    def atf(self, *idx):
        return to_f(self.at(tuple(I(i) if not isinstance(i, FlatIdx) else i for i in idx)), self.dt)

    def snap(self):
        if AS_OF is not None and self.buf.born <= AS_OF < self.buf.last: raise OutOfSubset('an array used by a comprehension is written to before the elements are used')
        f, vm = self.buf.fn, self.vmap
        if vm is None: return f
        return memo(lambda idx: f(vm(idx)))

    def write(self, cond_val):
        """cond_val(base_idx) -> (cond, value) ; performs the update"""
        old = self.buf.fn
        dt = self.dt
        self.buf.writes.append(cond_val)
        self.buf.last = serial()
        def new(idx):
            c, v = cond_val(idx)
            if c is False: return old(idx)
            if c is True: return v()
            return eif(c, v(), old(idx), dt)
        self.buf.fn = memo(new)

    def copy(self, *a, **k):
        return SymTensor(self.shape, self.snap(), self.dt)
    __copy__ = copy
    def __deepcopy__(self, m): return self.copy()

    # --- indexing
    def __getitem__(self, key): return getitem(self, key)
    def __setitem__(self, key, val): setitem(self, key, val)
    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise OutOfSubset('iteration over an array of symbolic length')
        for i in range(n): yield self[i]

    # --- scalars
    def __bool__(self):
        if prod_dims(self.shape) != 1 or not all(isinstance(d, int) for d in self.shape):
            for d in self.shape:
                if not same_dim(d, 1): raise ValueError('truth value of an array is ambiguous')
        return ctx().decide(to_b(self.at([z3.IntVal(0)] * self.ndim), self.dt))
    def as_bool_term(self):
        return to_b(self.at([z3.IntVal(0)] * self.ndim), self.dt)
    def __index__(self):
        if self.ndim == 0: return mkint(to_i(self.at(()), self.dt)).__index__()
        raise OutOfSubset('index from array')
    def __float__(self):
        e = to_f(self.at([z3.IntVal(0)] * self.ndim), self.dt)
        n = rnum(e.v)
        if e.nan is False and e.inf is False and n is not None: return float(n)
        raise OutOfSubset('float() of a symbolic value')
    def __int__(self): return self.__index__()
    def __hash__(self): 
        if self.ndim == 0: raise OutOfSubset('hash of a symbolic scalar')
        raise TypeError("unhashable type: 'numpy.ndarray'")
    def item(self): return self.reshape(()) if self.ndim else self
    def tolist(self): return list(self)

    # --- arithmetic
    def __add__(self, o): return binop('add', self, o)
    def __radd__(self, o): return binop('add', o, self)
    def __sub__(self, o): return binop('sub', self, o)
    def __rsub__(self, o): return binop('sub', o, self)
    def __mul__(self, o): return binop('mul', self, o)
    def __rmul__(self, o): return binop('mul', o, self)
    def __truediv__(self, o): return binop('div', self, o)
    def __rtruediv__(self, o): return binop('div', o, self)
    def __pow__(self, o): return binop('pow', self, o)
    def __rpow__(self, o): return binop('pow', o, self)
    def __neg__(self): return unop(lambda e: xneg(e), self, 'f') if self.dt == 'f' else unop(lambda e: -e, self, self.dt, conv=False)
    def __pos__(self): return self
    def __abs__(self):
        if self.dt == 'i':
            f = self.snap()
            return SymTensor(self.shape, lambda ix: (lambda v: z3.simplify(v) if ival(z3.simplify(v)) is not None else v)(iabs(f(ix))), 'i')
        return unop(xabs, self, 'f')
    def __invert__(self): return unop(Not, self, 'b', conv=False) if self.dt == 'b' else _oos('~ on non-boolean')
    def __and__(self, o): return binop('and', self, o)
    __rand__ = __and__
    def __or__(self, o): return binop('or', self, o)
    __ror__ = __or__
    def __eq__(self, o): return binop('==', self, o)
    def __ne__(self, o): return binop('!=', self, o)
    def __lt__(self, o): return binop('<', self, o)
    def __le__(self, o): return binop('<=', self, o)
    def __gt__(self, o): return binop('>', self, o)
    def __ge__(self, o): return binop('>=', self, o)
    def __round__(self, n=0): raise OutOfSubset('round')
    def _inplace(self, r):
        setitem(self, Ellipsis, r)
        return self
    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    # --- methods
    def sum(self, axis=None, keepdims=False, dtype=None, **k): return reduce_('sum', self, axis, keepdims, False)
    def mean(self, axis=None, keepdims=False, **k): return mean(self, axis, keepdims)
    def prod(self, axis=None, keepdims=False, **k): return reduce_('prod', self, axis, keepdims, False)
    def max(self, axis=None, keepdims=False, **k): return reduce_('max', self, axis, keepdims, False)
    def min(self, axis=None, keepdims=False, **k): return reduce_('min', self, axis, keepdims, False)
    def any(self, axis=None, keepdims=False): return any_(self, axis, keepdims)
    def all(self, axis=None, keepdims=False): return all_(self, axis, keepdims)
    def cumsum(self, axis=None): return cum('sum', self, axis)
    def cumprod(self, axis=None): return cum('prod', self, axis)
    def astype(self, d, **k): return astype(self, d)
    def reshape(self, *s, order='C', **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        return reshape(self, s, order)
    def flatten(self, order='C'): return reshape(self, (-1,), order).copy()
    ravel = flatten
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)): axes = tuple(axes[0])
        return transpose(self, axes or None)
    def swapaxes(self, a, b): return swapaxes(self, a, b)
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def squeeze(self, axis=None): return squeeze(self, axis)
    def argsort(self, *a, **k): raise OutOfSubset('argsort')
    def isin(self, v):
        """membership in a short concrete list"""
        if deep_sym(v) or len(v) > 8: raise OutOfSubset('isin')
        r = None
        for x in v:
            e = self == x
            r = e if r is None else r | e
        return r
    def to_numpy(self): return self
    def __getattr__(self, n):
        if not n.startswith('_') and (hasattr(np.ndarray, n) or hasattr(np, n)):
            raise OutOfSubset('array attribute %s' % n)
        raise AttributeError("array has no attribute %r" % n)
    def __repr__(self): return 'SymTensor%s:%s' % (self.shape, self.dt)


def _oos(m): raise OutOfSubset(m)


class DT:
    """stand-in for numpy dtype objects"""
    def __init__(self, d): self.d = d
    def __eq__(self, o):
        if isinstance(o, DT): return o.d == self.d
        if o in ('datetime64[ns]', '<M8[ns]'): return self.d == 'M'
        if o in (object, 'object', 'O'): return self.d == 'o'
        if o in (bool, 'bool'): return self.d == 'b'
        if o in (float, 'float64', 'float'): return self.d == 'f'
        if o in (int, 'int64', 'int'): return self.d == 'i'
        return False
    def __ne__(self, o): return not self == o
    __hash__ = None
    @property
    def kind(self): return {'f': 'f', 'i': 'i', 'b': 'b', 'M': 'M', 'Mm': 'M', 'o': 'O'}.get(self.d, 'V')


def is_sym(x):
    return isinstance(x, (SymTensor, SymInt, SymBool))


def deep_sym(x, d=0):
    if is_sym(x) or getattr(x, '_vc_sym', False): return True
    if d < 4 and isinstance(x, (list, tuple, set)): return any(deep_sym(i, d + 1) for i in x)
    if d < 2 and isinstance(x, dict): return any(deep_sym(i, d + 1) for i in x.values())
    if d < 4 and isinstance(x, slice): return any(deep_sym(i, d + 1) for i in (x.start, x.stop, x.step))
    return False


def scalar(x):
    if isinstance(x, SymTensor): return x
    if isinstance(x, SymBool): return SymTensor((), lambda i, t=x.t: t, 'b')
    if isinstance(x, SymInt): return SymTensor((), lambda i, t=x.t: t, 'i')
    if isinstance(x, (bool, np.bool_)): return SymTensor((), lambda i, t=bool(x): t, 'b')
    if isinstance(x, (int, np.integer)) and not isinstance(x, np.timedelta64): return SymTensor((), lambda i, t=z3.IntVal(int(x)): t, 'i')
    if isinstance(x, (float, np.floating)): return SymTensor((), lambda i, t=xconst(x): t, 'f')
    if isinstance(x, X): return SymTensor((), lambda i: x, 'f')
    return None


def from_concrete(a):
    """small concrete numpy array -> SymTensor (an if-chain over the index)"""
    a = np.asarray(a)
    k = a.dtype.kind
    dt = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'o', 'U': 'o', 'M': 'M', 'm': 'dn'}.get(k)
    if dt is None: raise OutOfSubset('array of dtype %s' % a.dtype)
    if dt == 'M': 
        a = a.astype('datetime64[ns]').astype('int64')
    def elem(v):
        if dt == 'f': return xconst(v)
        if dt == 'M': return instant(int(v))
        if dt in ('i', 'dn'): return z3.IntVal(int(v))
        if dt == 'b': return bool(v)
        return v
    flat = a.reshape(-1)
    if flat.size and all((flat[i] == flat[0]) or (flat[i] != flat[i] and flat[0] != flat[0]) for i in range(min(flat.size, 4096))) and flat.size <= 4096:
        e0 = elem(flat[0])
        return SymTensor(a.shape, lambda idx: e0, dt)
    if dt == 'i' and a.ndim == 1 and a.size > 2 and (np.diff(a) == a[1] - a[0]).all():
        p, q = int(a[0]), int(a[1] - a[0])
        return SymTensor(a.shape, lambda idx: isimp(p + iterm(idx[0]) * q), 'i')
    if a.size > 256: raise OutOfSubset('large concrete array mixed with symbolic data')
    def fn(idx):
        cs = [ival(z3.simplify(i)) for i in idx]
        if all(c is not None for c in cs):
            if not all(0 <= c < s for c, s in zip(cs, a.shape)): cs = [0] * len(cs)   # (reads outside lie behind a guard that excludes them)
            return elem(a[tuple(cs)])
        r = None
        for pos in itertools.product(*[range(s) for s in a.shape]):
            c = And(*[cmp_terms('==', i, z3.IntVal(p)) for i, p in zip(idx, pos)])
            r = elem(a[pos]) if r is None else eif(c, elem(a[pos]), r, dt)
        return r
    return SymTensor(a.shape, fn, dt)


def T(x):
    """anything -> SymTensor"""
    if isinstance(x, SymTensor): return x
    s = scalar(x)
    if s is not None: return s
    if getattr(x, '_vc_fam', False): return x.stack()
    if isinstance(x, np.datetime64): return SymTensor((), lambda i, t=instant(int(x.astype('datetime64[ns]').astype('int64'))): t, 'M')
    if isinstance(x, np.timedelta64):
        u = np.datetime_data(x.dtype)[0]
        n = int(x.astype('int64'))
        if u in ('M',): return SymTensor((), lambda i: z3.IntVal(n), 'dm')
        if u == 'Y': return SymTensor((), lambda i: z3.IntVal(12 * n), 'dm')
        return SymTensor((), lambda i, t=z3.IntVal(int(x.astype('timedelta64[ns]').astype('int64'))): t, 'dn')
    if isinstance(x, (list, tuple)):
        return stack_list(list(x))
    if isinstance(x, (np.ndarray, np.generic)): return from_concrete(x)
    if hasattr(x, 'to_datetime64'): return T(x.to_datetime64())
    if isinstance(x, (str,)) or x is None: return SymTensor((), lambda i: x, 'o')
    if hasattr(x, 'values') and isinstance(getattr(x, 'values'), (SymTensor, np.ndarray)): return T(x.values)
    raise OutOfSubset('cannot convert %s to an array' % type(x).__name__)


def stack_list(xs):
    if not xs: raise OutOfSubset('empty array')
    ts = [T(x) for x in xs]
    dt = join_dt([t.dt for t in ts])
    shp = ts[0].shape
    for t in ts[1:]:
        if len(t.shape) != len(shp): raise OutOfSubset('ragged array')
        for a, b in zip(t.shape, shp):
            if not same_dim(a, b): raise ValueError('inhomogeneous shape')
    fs = [conv(t, dt) for t in ts]
    def fn(idx):
        i = ival(z3.simplify(idx[0]))
        if i is not None: return fs[i](idx[1:])
        r = fs[-1](idx[1:])
        for k in range(len(fs) - 2, -1, -1):
            r = eif(cmp_terms('==', idx[0], z3.IntVal(k)), fs[k](idx[1:]), r, dt)
        return r
    return SymTensor((len(ts),) + tuple(shp), fn, dt)


def join_dt(ds):
    ds = list(dict.fromkeys(ds))
    if len(ds) == 1: return ds[0]
    s = set(ds)
    if s <= {'f', 'i', 'b'}: return 'f' if 'f' in s else 'i'
    if s <= {'f', 'i', 'b', 'o'}: return 'o' if 'o' in s else 'f'
    if s <= {'M', 'Mm'}: return 'M'
    raise OutOfSubset('mixed dtypes %s' % ds)


def conv(t, dt):
    f, d = t.snap(), t.dt
    if d == dt: return f
    if dt == 'f': return lambda idx: to_f(f(idx), d)
    if dt == 'i': return lambda idx: to_i(f(idx), d)
    if dt == 'b': return lambda idx: to_b(f(idx), d)
    if dt == 'M' and d == 'Mm': return lambda idx: MS(f(idx))
    if dt == 'o': return f
    raise OutOfSubset('conversion %s -> %s' % (d, dt))


# ------------------------------------------------------------------ elementwise
def bshape(ts):
    n = max(len(t.shape) for t in ts)
    shp = []
    ones = [[False] * n for _ in ts]
    for ax in range(n):
        d = 1
        first = True
        for k, t in enumerate(ts):
            p = ax - (n - len(t.shape))
            if p < 0: continue
            if first:
                d, first = t.shape[p], False
                if isinstance(d, int) and d == 1: pass
                continue
            d, _, _ = bdim(d, t.shape[p])
        shp.append(d)
    # second pass: which operands are length one against d
    for ax in range(n):
        for k, t in enumerate(ts):
            p = ax - (n - len(t.shape))
            if p < 0: continue
            a, d = t.shape[p], shp[ax]
            if isinstance(a, int) and a == 1 and not (isinstance(d, int) and d == 1):
                ones[k][ax] = True
            elif not isinstance(a, int) and a is not d and not z3.simplify(I(a)).eq(z3.simplify(I(d))):
                if ctx().entails(I(a) == I(d)): continue
                if ctx().entails(I(a) == 1): ones[k][ax] = True
    return tuple(shp), ones


def bidx(idx, t, ones, n):
    off = n - len(t.shape)
    out = []
    for p in range(len(t.shape)):
        i = idx[p + off]
        d = t.shape[p]
        if ones[p + off] or (isinstance(d, int) and d == 1): i = z3.IntVal(0)
        out.append(i)
    return tuple(out)


def elementwise(f, dt, *ts):
    shp, ones = bshape(ts)
    n = len(shp)
    fs = [t.snap() for t in ts]
    def fn(idx):
        return f(*[g(bidx(idx, t, o, n)) for g, t, o in zip(fs, ts, ones)])
    return SymTensor(shp, fn, dt)


def unop(f, t, dt, conv=True):
    t = T(t)
    g, d = t.snap(), t.dt
    if conv: return SymTensor(t.shape, lambda idx: f(to_f(g(idx), d)), dt)
    return SymTensor(t.shape, lambda idx: f(g(idx)), dt)


CMP = {'==', '!=', '<', '<=', '>', '>='}


def binop(op, a, b):
    for v in (a, b):
        if hasattr(v, '_vc_triangle_') or type(v).__name__ == 'Triangle': return NotImplemented
    if isinstance(b, str) and isinstance(a, SymTensor) and a.dt in ('M', 'Mm'):
        import pandas as pd
        b = pd.Timestamp(b)
    ta, tb = T(a), T(b)
    da, db = ta.dt, tb.dt
    if op in ('and', 'or'):
        if da != 'b' or db != 'b': raise OutOfSubset('bitwise operation on non-booleans')
        return elementwise(And if op == 'and' else Or, 'b', ta, tb)
    num = {'f', 'i', 'b'}
    if da in num and db in num:
        if op in CMP:
            if da != 'f' and db != 'f':
                return elementwise(lambda x, y: cmp_terms(op, to_i(x, da), to_i(y, db)), 'b', ta, tb)
            return elementwise(lambda x, y: xcmp(op, to_f(x, da), to_f(y, db)), 'b', ta, tb)
        if op == 'pow':
            if da != 'f' and db != 'f': 
                return elementwise(lambda x, y: xpow(to_f(x, da), y, db), 'f', ta, tb)
            return elementwise(lambda x, y: xpow(to_f(x, da), y, db), 'f', ta, tb)
        if op == 'div':
            return elementwise(lambda x, y: xdiv(to_f(x, da), to_f(y, db)), 'f', ta, tb)
        if da != 'f' and db != 'f':
            if da == 'b' and db == 'b' and op == 'mul': return elementwise(And, 'b', ta, tb)
            if da == 'b' and db == 'b' and op == 'add': return elementwise(Or, 'b', ta, tb)
            g = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
            return elementwise(lambda x, y: isimp(g(to_i(x, da), to_i(y, db))), 'i', ta, tb)
        g = {'add': xadd, 'sub': xsub, 'mul': xmul}[op]
        return elementwise(lambda x, y: g(to_f(x, da), to_f(y, db)), 'f', ta, tb)
    if 'o' in (da, db):
        if op in ('==', '!='):
            def oe(x, y):
                if z3.is_expr(x) and z3.is_expr(y): r = cmp_terms('==', x, y)
                elif not z3.is_expr(x) and not z3.is_expr(y): r = bool(x == y)
                else: raise OutOfSubset('object comparison')
                return r if op == '==' else Not(r)
            return elementwise(oe, 'b', ta, tb)
        raise OutOfSubset('arithmetic on objects')
    # dates
    if op in CMP:
        cv = lambda e, d: MS(e) if d == 'Mm' else e
        if {da, db} <= {'M', 'Mm'}:
            return elementwise(lambda x, y: cmp_terms(op, cv(x, da), cv(y, db)), 'b', ta, tb)
        if da == db: return elementwise(lambda x, y: cmp_terms(op, x, y), 'b', ta, tb)
    if op in ('add', 'sub'):
        sg = (lambda x, y: x + y) if op == 'add' else (lambda x, y: x - y)
        if da == 'Mm' and db in ('dm', 'i'): return elementwise(lambda x, y: isimp(sg(x, y)), 'Mm', ta, tb)
        if op == 'add' and db == 'Mm' and da in ('dm', 'i'): return elementwise(lambda x, y: isimp(x + y), 'Mm', ta, tb)
        if da == 'Mm' and db == 'Mm' and op == 'sub': return elementwise(lambda x, y: isimp(x - y), 'dm', ta, tb)
        if da == 'M' and db == 'dn': return elementwise(lambda x, y: isimp(sg(x, y)), 'M', ta, tb)
        if op == 'add' and db == 'M' and da == 'dn': return elementwise(lambda x, y: isimp(x + y), 'M', ta, tb)
        if da == 'Mm' and db == 'dn': return elementwise(lambda x, y: sg(MS(x), y), 'M', ta, tb)
        if da == 'M' and db == 'M' and op == 'sub': return elementwise(lambda x, y: isimp(x - y), 'dn', ta, tb)
        if da == db and da in ('dm', 'dn'): return elementwise(lambda x, y: isimp(sg(x, y)), da, ta, tb)
    raise OutOfSubset('operation %s on %s,%s' % (op, da, db))


# ------------------------------------------------------------------ indexing
def clamp_lo(s, n):
    """numpy normalisation of a slice bound against length n"""
    c = ctx()
    t, nt = I(s), I(n)
    if ival(t) is not None and ival(nt) is not None:
        v, m = ival(t), ival(nt)
        return z3.IntVal(max(v + m, 0) if v < 0 else min(v, m))
    if c.decide(cmp_terms('<', z3.simplify(t), z3.IntVal(0))):
        u = z3.simplify(t + nt)
        if c.decide(cmp_terms('<', u, z3.IntVal(0))): return z3.IntVal(0)
        return u
    if c.decide(cmp_terms('>', z3.simplify(t - nt), z3.IntVal(0))): return z3.simplify(nt)
    return z3.simplify(t)


def norm_slice(s, n):
    """-> (start term, step int, length dim)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, SymInt): step = step.__index__()
    step = int(step)
    nt = I(n)
    c = ctx()
    if step > 0:
        a = z3.IntVal(0) if s.start is None else clamp_lo(dim(s.start), n)
        b = z3.simplify(nt) if s.stop is None else clamp_lo(dim(s.stop), n)
        ln = z3.simplify(b - a)
        if ival(ln) is not None: ln = z3.IntVal(max(ival(ln), 0))
        elif not c.decide(cmp_terms('>=', ln, z3.IntVal(0))): ln = z3.IntVal(0)
        if step > 1: ln = z3.simplify((ln + (step - 1)) / step)
        return a, step, mkint(ln)
    if step == 0: raise ValueError('slice step cannot be zero')
    if s.start is None: a = z3.simplify(nt - 1)
    else:
        a = clamp_lo(dim(s.start), n)
        if c.decide(cmp_terms('>=', z3.simplify(a - nt), z3.IntVal(0))): a = z3.simplify(nt - 1)
    if s.stop is None: b = z3.IntVal(-1)
    else:
        t = I(dim(s.stop))
        if c.decide(cmp_terms('<', t, z3.IntVal(0))):
            t = z3.simplify(t + nt)
            if c.decide(cmp_terms('<', t, z3.IntVal(0))): t = z3.IntVal(-1)
        b = t
    ln = z3.simplify(a - b)
    if ival(ln) is not None: ln = z3.IntVal(max(ival(ln), 0))
    elif not c.decide(cmp_terms('>=', ln, z3.IntVal(0))): ln = z3.IntVal(0)
    if step < -1: ln = z3.simplify((ln + (-step - 1)) / (-step))
    return a, step, mkint(ln)


def expand_key(t, key):
    if not isinstance(key, tuple): key = (key,)
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    # boolean arrays of several dims consume several axes
    for k in key:
        if isinstance(k, SymTensor) and k.dt == 'b' and k.ndim > 1: n_real += k.ndim - 1
        elif isinstance(k, np.ndarray) and k.dtype == bool and k.ndim > 1: n_real += k.ndim - 1
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen: raise IndexError('two ellipses')
            seen = True
            out += [slice(None)] * (t.ndim - n_real)
        else:
            out.append(k)
    if not seen: out += [slice(None)] * (t.ndim - n_real)
    if n_real > t.ndim: raise IndexError('too many indices for array')
    return out


def norm_int(i, n):
    c = ctx()
    t, nt = I(i), I(n)
    if ival(t) is not None and ival(t) < 0: t = z3.simplify(t + nt)
    elif ival(t) is None and not c.has_bound(t):
        if c.decide(cmp_terms('<', t, z3.IntVal(0))): t = z3.simplify(t + nt)
    if not c.has_bound(t):
        ok = And(cmp_terms('>=', z3.simplify(t), z3.IntVal(0)), cmp_terms('<', z3.simplify(t - nt), z3.IntVal(0)))
        if not c.decide(ok): raise IndexError('index out of bounds')
    return z3.simplify(t)


def is_int(k):
    return isinstance(k, (int, np.integer, SymInt)) and not isinstance(k, bool) or (isinstance(k, SymTensor) and k.ndim == 0 and k.dt == 'i')


def getitem(t, key):
    key = expand_key(t, key)
    if all(k is None or is_int(k) or isinstance(k, slice) for k in key):
        return view(t, key)
    # fancy
    fancy = [k for k in key if not (k is None or is_int(k) or isinstance(k, slice))]
    if len(fancy) == 1 and _isbool(fancy[0]):
        m = T(fancy[0])
        if m.ndim == 1:
            ax = [i for i, k in enumerate(key) if k is fancy[0]][0]
            pre = [k if k is not fancy[0] else slice(None) for k in key]
            v = view(t, pre)
            vax = sum(1 for k in pre[:ax] if not is_int(k))
            return mask_axis(v, m, vax)
        if m.ndim == t.ndim: return mask_full(t, m)
        raise OutOfSubset('boolean mask over several axes')
    arrs = [(i, T(k)) for i, k in enumerate(key) if not (k is None or isinstance(k, slice)) and not is_int(k)]
    for _, a in arrs:
        if a.dt != 'i': raise OutOfSubset('indexing by dtype %s' % a.dt)
    adv = [i for i, k in enumerate(key) if not (k is None or isinstance(k, slice))]
    if adv[-1] - adv[0] + 1 != len(adv): raise OutOfSubset('advanced indices separated by slices')
    if len(arrs) == 1 and arrs[0][1].ndim == 1:
        i, a = arrs[0]
        pre = [slice(None) if j == i else k for j, k in enumerate(key)]
        v = view(t, pre)
        vax = sum(1 for k in pre[:i] if not is_int(k))
        return take(v, a, vax)
    if len(arrs) == 1:
        # one array of several dimensions, next to integers at most: its dimensions stand in place of the axis
        i, a = arrs[0]
        v = view(t, [slice(None) if j == i else k for j, k in enumerate(key)])
        vax = sum(1 for k in key[:i] if not is_int(k))
        f, g, n, nd = v.snap(), a.snap(), v.shape[vax], a.ndim
        def fn(idx):
            j = g(idx[vax:vax + nd])
            j = z3.If(j < 0, j + I(n), j)
            return f(idx[:vax] + (z3.simplify(j),) + idx[vax + nd:])
        return SymTensor(v.shape[:vax] + a.shape + v.shape[vax + 1:], fn, v.dt)
    raise OutOfSubset('advanced indexing with several arrays')


def _isbool(k):
    if isinstance(k, SymTensor): return k.dt == 'b'
    if isinstance(k, np.ndarray): return k.dtype == bool
    return isinstance(k, list) and k and isinstance(k[0], (bool, np.bool_))


def take(t, a, axis):
    f, g = t.snap(), a.snap()
    n = t.shape[axis]
    def fn(idx):
        j = g((idx[axis],))
        jv = ival(z3.simplify(j))
        if jv is None:
            if not ctx().entails(cmp_terms('>=', j, z3.IntVal(0))): j = z3.If(j < 0, j + I(n), j)
        elif jv < 0: j = z3.simplify(j + I(n))
        return f(idx[:axis] + (j,) + idx[axis + 1:])
    return SymTensor(t.shape[:axis] + (a.shape[0],) + t.shape[axis + 1:], fn, t.dt)


def view(t, key):
    """basic indexing: returns a view sharing the buffer"""
    shp, maps, ax = [], [], 0
    for k in key:
        if k is None:
            shp.append(1)
            maps.append(('new',))
            continue
        n = t.shape[ax]
        if is_int(k):
            if isinstance(k, SymTensor): k = mkint(k.at(()))
            maps.append(('int', norm_int(k, n)))
        else:
            if isinstance(k.start, SymTensor) or isinstance(k.stop, SymTensor):
                k = slice(None if k.start is None else dim(k.start), None if k.stop is None else dim(k.stop), k.step)
            if isinstance(n, FlatDim) and k == slice(None):
                maps.append(('flat',))
                shp.append(n)
            else:
                a, st, ln = norm_slice(k, n)
                maps.append(('sl', a, st, ln))
                shp.append(ln)
        ax += 1
    def fwd(idx):
        out, p = [], 0
        for m in maps:
            if m[0] == 'new': p += 1
            elif m[0] == 'int': out.append(m[1])
            elif m[0] == 'flat':
                out.append(idx[p]); p += 1
            else:
                i = iterm(idx[p])
                out.append(z3.simplify(m[1] + i * m[2])); p += 1
        return tuple(out)
    def inv(bidx_):
        conds, out, p = [], [], 0
        for m in maps:
            if m[0] == 'new':
                out.append(z3.IntVal(0))
                continue
            b = bidx_[p]
            p += 1
            if m[0] == 'flat':
                out.append(b)
                continue
            b = iterm(b)
            if m[0] == 'int': conds.append(cmp_terms('==', z3.simplify(b), m[1]))
            else:
                a, st, ln = m[1:]
                d = z3.simplify(b - a)
                if st == 1:
                    conds += [cmp_terms('>=', d, z3.IntVal(0)), cmp_terms('<', z3.simplify(d - I(ln)), z3.IntVal(0))]
                    out.append(d)
                elif st == -1:
                    d = z3.simplify(-d)
                    conds += [cmp_terms('>=', d, z3.IntVal(0)), cmp_terms('<', z3.simplify(d - I(ln)), z3.IntVal(0))]
                    out.append(d)
                else:
                    q = z3.simplify(d / st) if st > 0 else z3.simplify((-d) / (-st))
                    conds += [cmp_terms('==', z3.simplify(q * st), d), cmp_terms('>=', q, z3.IntVal(0)), cmp_terms('<', z3.simplify(q - I(ln)), z3.IntVal(0))]
                    out.append(q)
        return And(*conds), tuple(out)
    pv, pi = t.vmap, t.vinv
    vmap = fwd if pv is None else (lambda idx: pv(fwd(idx)))
    if pv is None: vinv = inv
    elif pi is None: vinv = None
    else:
        def vinv(b):
            c1, mid = pi(b)
            c2, out = inv(mid)
            return And(c1, c2), out
    return SymTensor(tuple(shp), dtype=t.dt, buf=t.buf, vmap=vmap, vinv=vinv)


def coerce_elem(val, dt, from_dt):
    if dt == from_dt: return val
    if dt == 'f': return to_f(val, from_dt)
    if dt == 'i': return to_i(val, from_dt)
    if dt == 'b': return to_b(val, from_dt)
    if dt == 'M' and from_dt == 'Mm': return MS(val)
    if dt == 'o': return val
    raise OutOfSubset('store %s into %s' % (from_dt, dt))


def setitem(t, key, val):
    if type(val).__name__ == 'Triangle': val = val.values
    v = T(val)
    key = expand_key(t, key)
    full_id = t.vmap is None
    if all(k is None or is_int(k) or isinstance(k, slice) for k in key):
        w = view(t, key)
        if w.vinv is None: raise OutOfSubset('write through an unsupported view')
        ones = []
        # broadcast v to w.shape
        n = w.ndim
        vs = v.shape
        if len(vs) > n:
            for d in vs[:len(vs) - n]:
                if not same_dim(d, 1): raise ValueError('could not broadcast input array')
            v = view(v, [0] * (len(vs) - n) + [slice(None)] * n)
            vs = v.shape
        one = [False] * n
        for p, d in enumerate(vs):
            q = p + n - len(vs)
            if isinstance(d, int) and d == 1: one[q] = True
            elif not same_dim(d, w.shape[q]):
                if same_dim(d, 1): one[q] = True
                else: raise ValueError('could not broadcast input array')
        g, dt, vd, k = v.snap(), t.dt, v.dt, len(vs)
        def cv(b):
            c, vi = w.vinv(b)
            def mk():
                ii = tuple(z3.IntVal(0) if one[q] else vi[q] for q in range(n - k, n))
                return coerce_elem(g(ii), dt, vd)
            return c, mk
        w.write(cv)
        return
    fancy = [k for k in key if not (k is None or is_int(k) or isinstance(k, slice))]
    if len(fancy) == 1 and _isbool(fancy[0]):
        m = T(fancy[0])
        if m.ndim == t.ndim and prod_dims(v.shape) == 1:
            for a, b in zip(m.shape, t.shape):
                if not same_dim(a, b): raise IndexError('boolean index did not match')
            g, dt, vd = m.snap(), t.dt, v.dt
            e = v.snap()([z3.IntVal(0)] * v.ndim)
            e = coerce_elem(e, dt, vd)
            pi = t.vinv
            def cv(b):
                if pi is None and t.vmap is None: return g(b), (lambda: e)
                if pi is None: raise OutOfSubset('write through an unsupported view')
                c, vi = pi(b)
                return And(c, g(vi)), (lambda: e)
            t.write(cv)
            return
        if prod_dims(v.shape) == 1:
            ax, nm = [i for i, k in enumerate(key) if k is fancy[0]][0], m.ndim
            if t.vmap is None and all(isinstance(k, slice) and k == slice(None) for i, k in enumerate(key) if i != ax):
                for a, b in zip(m.shape, t.shape[ax:ax + nm]):
                    if not same_dim(a, b): raise IndexError('boolean index did not match')
                g, dt, vd = m.snap(), t.dt, v.dt
                e = coerce_elem(v.snap()([z3.IntVal(0)] * v.ndim), dt, vd)
                t.write(lambda b: (g(tuple(b[ax:ax + nm])), (lambda: e)))
                return
    raise OutOfSubset('unsupported item assignment')


# filters ----------------------------------------------------------------
class Filter:
    """an order-preserving selection of the positions where a 1-D mask holds"""
    def __init__(self, m, n):
        c = ctx()
        self.m, self.n = m.snap(), n
        self.id = c.name('flt')
        self.count = z3.Int(self.id + '.n')
        self.sel = z3.Function(self.id + '.sel', IS, IS)
        self.rank = z3.Function(self.id + '.rank', IS, IS)
        nt = I(n)
        mm = self.m
        cnt = self.count
        c.assume(And(cnt >= 0, cnt <= nt))
        def selinv(a):
            k = a.arg(0)
            inr = z3.And(k >= 0, k < cnt)
            if c.has_bound(k): return []
            return [z3.Implies(inr, z3.And(a >= 0, a < nt, B(mm((a,))), self.rank(a) == k))]
        def rankinv(a):
            i = a.arg(0)
            return [z3.Implies(z3.And(i >= 0, i < nt, B(mm((i,)))), z3.And(a >= 0, a < cnt, self.sel(a) == i))]
        c.reg.declare_inv(self.sel, selinv)
        c.reg.declare_inv(self.rank, rankinv)
        c.reg.declare_pair(self.sel, lambda a, b: [z3.Implies(z3.And(0 <= a.arg(0), a.arg(0) < b.arg(0), b.arg(0) < cnt), a < b),
                                                    z3.Implies(z3.And(0 <= b.arg(0), b.arg(0) < a.arg(0), a.arg(0) < cnt), b < a)])


_filters = {}


def mask_axis(t, m, axis):
    if not same_dim(m.shape[0], t.shape[axis]): raise IndexError('boolean index did not match')
    c = ctx()
    key = id(m.buf), id(m.buf.fn)
    store = c.__dict__.setdefault('filters', {})
    if key not in store:
        store[key] = (Filter(m, t.shape[axis]), m.buf.fn)
    fl = store[key][0]
    f = t.snap()
    def fn(idx):
        return f(idx[:axis] + (fl.sel(idx[axis]),) + idx[axis + 1:])
    r = SymTensor(t.shape[:axis] + (mkint(fl.count),) + t.shape[axis + 1:], fn, t.dt)
    r.filter = (fl, axis, t)
    return r


class Positions(SymTensor):
    """np.where(mask)[0]: the selected positions in order; min / max are the first / last
    selected position, instantiated at the contract's hint positions (ctx.hints)"""
    def __init__(self, ar, m):
        r = mask_axis(ar, m, 0)
        super().__init__(r.shape, r.snap(), r.dt)
        self.filter, self.m0 = r.filter, m.snap()
    def _ext(self, kind):
        c = ctx()
        fl = self.filter[0]
        ok = lambda h: And(h >= 0, h < I(fl.n), B(self.m0((h,))))
        for h in list(getattr(c, 'hints', ())) + [z3.IntVal(0)]: c.assume(Implies(ok(h), fl.count >= 1))
        if not c.decide(fl.count >= 1): raise ValueError('zero-size array to reduction operation')
        v = z3.Int(c.name(kind + 'pos'))
        c.assume(ok(v))
        for h in list(getattr(c, 'hints', ())) + [z3.IntVal(0), z3.simplify(I(fl.n) - 1)]:
            c.assume(Implies(ok(h), v <= h if kind == 'min' else v >= h))
        return SymTensor((), lambda i: v, 'i')
    def min(self, axis=None, keepdims=False): return self._ext('min')
    def max(self, axis=None, keepdims=False): return self._ext('max')


def mask_full(t, m):
    raise OutOfSubset('boolean selection over all axes')


# ------------------------------------------------------------------ structure
def astype(t, d):
    s = d if isinstance(d, str) else getattr(d, '__name__', str(d))
    s = s.replace('<', '')
    if s.startswith('datetime64[M]') or s == 'M8[M]':
        if t.dt == 'Mm': return t
        f = t.snap()
        return SymTensor(t.shape, lambda i: MO(f(i)), 'Mm')
    if s.startswith('datetime64[ns]') or s == 'M8[ns]':
        if t.dt == 'M': return t.copy()
        f = t.snap()
        return SymTensor(t.shape, lambda i: MS(f(i)), 'M')
    if 'float' in s: dt = 'f'
    elif s.startswith('int') or s.startswith('uint'): dt = 'i'
    elif s.startswith('bool'): dt = 'b'
    elif s in ('object', 'O'): dt = 'o'
    else: raise OutOfSubset('astype(%s)' % s)
    if dt == 'i' and t.dt == 'f': 
        raise OutOfSubset('float to integer conversion')
    return SymTensor(t.shape, conv(t, dt), dt)


def transpose(t, axes=None):
    n = t.ndim
    axes = tuple(range(n))[::-1] if axes is None else tuple(a % n for a in axes)
    inv = [axes.index(k) for k in range(n)]
    pv, pi = t.vmap, t.vinv
    fwd = lambda idx: tuple(idx[inv[k]] for k in range(n))
    back = lambda b: (True, tuple(b[axes[k]] for k in range(n)))
    vmap = fwd if pv is None else (lambda idx: pv(fwd(idx)))
    if pv is None: vinv = back
    elif pi is None: vinv = None
    else:
        def vinv(b):
            c, mid = pi(b)
            return c, back(mid)[1]
    return SymTensor(tuple(t.shape[a] for a in axes), dtype=t.dt, buf=t.buf, vmap=vmap, vinv=vinv)


def swapaxes(t, a, b):
    ax = list(range(t.ndim))
    a, b = a % t.ndim, b % t.ndim
    ax[a], ax[b] = ax[b], ax[a]
    return transpose(t, ax)


def moveaxis(t, s, d):
    ax = list(range(t.ndim))
    s, d = s % t.ndim, d % t.ndim
    ax.pop(s)
    ax.insert(d, s)
    return transpose(t, ax)


def expand_dims(t, axis):
    n = t.ndim + 1
    axis = axis % n
    key = [slice(None)] * t.ndim
    key.insert(axis, None)
    return view(t, key)


def squeeze(t, axis=None):
    key = []
    for k, d in enumerate(t.shape):
        if axis is not None:
            axs = (axis,) if not isinstance(axis, tuple) else axis
            key.append(0 if k in [a % t.ndim for a in axs] else slice(None))
        else:
            key.append(0 if same_dim(d, 1) else slice(None))
    return view(t, key)


def repeat(t, n, axis=None):
    t = T(t)
    n = dim(n) if not isinstance(n, SymTensor) or n.ndim == 0 else _oos('repeat with counts')
    if axis is None:
        if t.ndim == 0: return SymTensor((n,), lambda idx, f=t.snap(): f(()), t.dt)
        if t.ndim > 1: raise OutOfSubset('repeat of a flattened array')
        axis = 0
    axis = axis % t.ndim
    d = t.shape[axis]
    f = t.snap()
    if isinstance(d, int) and d == 1:
        return SymTensor(t.shape[:axis] + (n,) + t.shape[axis + 1:], lambda idx: f(idx[:axis] + (z3.IntVal(0),) + idx[axis + 1:]), t.dt)
    nn = ival(I(n))
    if nn == 1: return t.copy()
    if nn is not None and nn > 0:
        return SymTensor(t.shape[:axis] + (d * n,) + t.shape[axis + 1:], lambda idx: f(idx[:axis] + (idx[axis] / nn,) + idx[axis + 1:]), t.dt)
    raise OutOfSubset('repeat by a symbolic count')


def repeat_list(l, n):
    from .load import FamList
    if len(l) == 1: return FamList(n, lambda k, e=l[0]: e)
    raise OutOfSubset('list repetition')


def tile(t, reps):
    t = T(t)
    if isinstance(reps, (tuple, list)):
        if len(reps) > t.ndim: t = view(t, [None] * (len(reps) - t.ndim) + [slice(None)] * t.ndim)
        reps = [1] * (t.ndim - len(reps)) + list(reps)
    else: reps = [1] * (t.ndim - 1) + [reps]
    f = t.snap()
    shp = []
    for d, r in zip(t.shape, reps):
        r = dim(r)
        if isinstance(r, int) and r == 1: shp.append(d)
        elif isinstance(d, int) and d == 1: shp.append(r)
        elif t.ndim == 1: shp.append(FlatDim(d, r))
        else: raise OutOfSubset('tile')
    def fn(idx):
        out = []
        for k, (d, r) in enumerate(zip(t.shape, reps)):
            i = idx[k]
            if isinstance(d, int) and d == 1: out.append(z3.IntVal(0))
            elif isinstance(dim(r), int) and dim(r) == 1: out.append(i)
            elif isinstance(i, FlatIdx): out.append(i.i)
            else: out.append(i % I(d))
        return f(tuple(out))
    return SymTensor(shp, fn, t.dt)


def reshape(t, shape, order='C'):
    order = (order or 'C').upper()
    if isinstance(shape, (int, SymInt)): shape = (shape,)
    shape = tuple(shape)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
    f = t.snap()
    # drop unit dims on both sides
    src = [(k, d) for k, d in enumerate(t.shape) if not (isinstance(d, int) and d == 1)]
    dst = [(k, d) for k, d in enumerate(shape) if not (isinstance(d, (int, np.integer)) and int(d) == 1)]
    neg = [k for k, d in dst if isinstance(d, (int, np.integer)) and int(d) == -1]
    if len(src) == len(dst) or (len(neg) == 1 and len(dst) == len(src)) or (neg and len(dst) == 1 and len(src) <= 1) or (neg and len(dst) == len(src) + 1):
        shp = []
        pairs = {}
        rest = list(src)
        if neg and len(dst) == len(src) + 1:
            # the -1 is a unit dim
            dst = [(k, d) for k, d in dst if k not in neg]
            unit = set(neg)
        else: unit = set()
        ok = True
        for (k, d), (sk, sd) in zip(dst, src):
            if not (isinstance(d, (int, np.integer)) and int(d) == -1):
                if not same_dim(dim(d), sd): ok = False
            pairs[k] = sk
        if ok:
            for k, d in enumerate(shape):
                if k in pairs: shp.append(t.shape[pairs[k]])
                else: shp.append(1)
            back = {sk: k for k, sk in pairs.items()}
            def fn(idx):
                return f(tuple(idx[back[sk]] if sk in back else z3.IntVal(0) for sk in range(t.ndim)))
            return SymTensor(shp, fn, t.dt)
    # Fortran flattening of two dims
    if len(src) == 2 and len(dst) == 1 and order == 'F':
        (a, da), (b, db) = src
        fd = FlatDim(da, db)
        if not (isinstance(dst[0][1], (int, np.integer)) and int(dst[0][1]) == -1) and not same_dim(dim(dst[0][1]), fd):
            raise ValueError('cannot reshape')
        shp = [fd if k == dst[0][0] else 1 for k in range(len(shape))]
        p = dst[0][0]
        def fn(idx):
            i = idx[p]
            if isinstance(i, FlatIdx): ii, jj = i.i, i.j
            else: ii, jj = i % I(da), i / I(da)
            return f(tuple(ii if k == a else jj if k == b else z3.IntVal(0) for k in range(t.ndim)))
        return SymTensor(shp, fn, t.dt)
    if len(src) == 1 and len(dst) == 2 and order == 'F' and isinstance(src[0][1], SymInt):
        fd = src[0][1]
        (ka, da), (kb, db) = dst
        da, db = dim(da), dim(db)
        if isinstance(fd, FlatDim) and same_dim(da, fd.n) and same_dim(db, fd.m):
            def fn(idx):
                return f(tuple(FlatIdx(idx[ka], idx[kb], I(da)) if k == src[0][0] else z3.IntVal(0) for k in range(t.ndim)))
            return SymTensor([dim(d) for d in shape], fn, t.dt)
    if all(isinstance(d, int) for d in t.shape) and all(isinstance(d, (int, np.integer)) for d in shape):
        idxs = np.arange(int(np.prod(t.shape))).reshape(t.shape, order='C')
        tgt = np.arange(int(np.prod(t.shape))).reshape(t.shape, order=order) if False else idxs.reshape([int(d) for d in shape], order=order)
        pos = list(itertools.product(*[range(d) for d in t.shape]))
        def fn(idx):
            cs = [ival(z3.simplify(i)) for i in idx]
            if all(c is not None for c in cs):
                return f(tuple(z3.IntVal(p) for p in pos[tgt[tuple(cs)]]))
            raise OutOfSubset('reshape at a symbolic index')
        return SymTensor(tgt.shape, fn, t.dt)
    raise OutOfSubset('reshape %s -> %s' % (t.shape, shape))


def concatenate(ts, axis=0):
    if getattr(ts, '_vc_fam', False): return ts.concat(axis)
    ts = [T(t) for t in ts]
    n = ts[0].ndim
    axis = axis % n
    dt = join_dt([t.dt for t in ts])
    for t in ts[1:]:
        if t.ndim != n: raise ValueError('all the input arrays must have same number of dimensions')
        for k in range(n):
            if k != axis and not same_dim(t.shape[k], ts[0].shape[k]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match')
    fs = [conv(t, dt) for t in ts]
    offs = [z3.IntVal(0)]
    for t in ts: offs.append(z3.simplify(offs[-1] + I(t.shape[axis])))
    def fn(idx):
        i = iterm(idx[axis])
        r = None
        for k in range(len(fs) - 1, -1, -1):
            cnd = cmp_terms('<', z3.simplify(i - offs[k + 1]), z3.IntVal(0)) if k < len(fs) - 1 else True
            if cnd is False: continue
            e = fs[k](idx[:axis] + (z3.simplify(i - offs[k]),) + idx[axis + 1:])
            r = e if r is None else eif(cnd, e, r, dt)
        return r
    return SymTensor(ts[0].shape[:axis] + (mkint(offs[-1]),) + ts[0].shape[axis + 1:], fn, dt)


def where(c, a=None, b=None):
    c = T(c)
    if a is None:
        if c.ndim == 1:
            n = c.shape[0]
            ar = arange(n)
            return (Positions(ar, c if c.dt == 'b' else c != 0),)
        raise OutOfSubset('where with one argument')
    a, b = T(a), T(b)
    dt = join_dt([a.dt, b.dt])
    da, db, dc = a.dt, b.dt, c.dt
    return elementwise(lambda x, y, z: eif(to_b(x, dc), coerce_elem(y, dt, da), coerce_elem(z, dt, db), dt), dt, c, a, b)


def arange(*a, **k):
    a = [dim(x) for x in a]
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a
    st = int(st)
    ln = hi - lo
    if st != 1:
        if st <= 0: raise OutOfSubset('arange step')
        ln = (ln + (st - 1)) // st
    if isinstance(ln, SymInt) and not ctx().decide(cmp_terms('>=', I(ln), z3.IntVal(0))): ln = 0
    lo_t = I(lo)
    return SymTensor((ln,), lambda idx: isimp(lo_t + iterm(idx[0]) * st), 'i')


def full(shape, v, dt='f'):
    if not isinstance(shape, (tuple, list)): shape = (shape,)
    e = xconst(v) if dt == 'f' else z3.IntVal(int(v)) if dt == 'i' else v
    return SymTensor(tuple(shape), lambda idx: e, dt)


def broadcast_to(t, shape):
    t = T(t)
    shape = tuple(dim(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,)))
    n = len(shape)
    f = t.snap()
    one = {}
    for p, d in enumerate(t.shape):
        q = p + n - t.ndim
        one[p] = isinstance(d, int) and d == 1
        if not one[p] and not same_dim(d, shape[q]): raise ValueError('could not broadcast')
    return SymTensor(shape, lambda idx: f(tuple(z3.IntVal(0) if one[p] else idx[p + n - t.ndim] for p in range(t.ndim))), t.dt)


def diff(t, n=1, axis=-1):
    t = T(t)
    axis = axis % t.ndim
    k1 = [slice(None)] * t.ndim
    k2 = list(k1)
    k1[axis], k2[axis] = slice(1, None), slice(None, -1)
    return t[tuple(k1)] - t[tuple(k2)]


# ------------------------------------------------------------------ reductions
def with_bound(n, f, base='b'):
    """evaluate f at a fresh bound index 0 <= j < n"""
    c = ctx()
    j = z3.Int(c.name(base + '$'))
    c.bound.append(j)
    c.solver.push()
    c.solver.add(j >= 0, j < I(n))
    sv, c.entail_cache = c.entail_cache, dict(c.entail_cache)
    npc = len(c.pc)
    try:
        return j, f(j)
    finally:
        c.entail_cache = sv
        c.solver.pop()
        for extra in c.pc[npc:]: c.solver.add(extra)
        c.bound.pop()


def sum_over(n, f, kind='sum', lo=None):
    """Sum_{0<=j<n} f(j) for a real-valued f of a z3 Int"""
    c = ctx()
    nv = ival(z3.simplify(I(n)))
    lov = 0 if lo is None else ival(lo)
    if nv is not None and lov is not None and nv - lov <= 6:
        r = ZERO if kind == 'sum' else ONE
        for k in range(lov, nv):
            r = radd(r, f(z3.IntVal(k))) if kind == 'sum' else rmul(r, f(z3.IntVal(k)))
        return r
    j, body = with_bound(n, f)
    b = rnum(body)
    if b is not None and b == (0 if kind == 'sum' else 1): return ZERO if kind == 'sum' else ONE
    if b is not None and kind == 'sum' and lo is None:
        return rmul(body, z3.ToReal(z3.simplify(I(n))))   # n >= 0 always
    return c.reg.sum_term(j, body, z3.IntVal(0) if lo is None else lo, z3.simplify(I(n)), kind)


def _axes(t, axis):
    if axis is None: return list(range(t.ndim))
    if isinstance(axis, (tuple, list)): return [a % t.ndim for a in axis]
    if isinstance(axis, str): raise OutOfSubset('axis name')
    if axis >= t.ndim or axis < -t.ndim: raise np.exceptions.AxisError(axis, t.ndim)
    return [axis % t.ndim]


def insert(idx, axes, js, nd):
    it = iter(idx)
    return tuple(js[axes.index(k)] if k in axes else next(it) for k in range(nd))


def nest_sum(dims, f, kind='sum'):
    def rec(k, js):
        if k == len(dims): return f(tuple(js))
        return sum_over(dims[k], lambda j: rec(k + 1, js + [j]), kind)
    return rec(0, [])


def exists_idx(dims, p):
    """exists index tuple with p: encoded as a positive count"""
    v = nest_sum(dims, lambda js: If(p(js), ONE, ZERO))
    return cmp_terms('>', v, ZERO)


def reduce_(kind, t, axis, keepdims, skipnan):
    t = T(t)
    if t.dt == 'b' and kind == 'sum':
        t0 = t
        t = SymTensor(t.shape, conv(t, 'i'), 'i')
    axes = _axes(t, axis)
    dims = [t.shape[a] for a in axes]
    f, dt, nd = t.snap(), t.dt, t.ndim
    kshape = tuple(1 if k in axes else d for k, d in enumerate(t.shape))
    oshape = tuple(d for k, d in enumerate(t.shape) if k not in axes)
    if kind in ('max', 'min'): return reduce_ext(kind, t, axes, keepdims, skipnan)
    isint = dt in ('i',)
    unit = ZERO if kind == 'sum' else ONE
    def fn(idx):
        el = lambda js: f(insert(idx, axes, js, nd))
        if isint:
            if len(dims) == 1 and isinstance(dims[0], int) and dims[0] <= 8:
                r = None
                for q in range(dims[0]):
                    e = el((z3.IntVal(q),))
                    r = e if r is None else (z3.simplify(r * e) if kind == 'prod' else z3.simplify(r + e))
                return z3.IntVal(0 if kind == 'sum' else 1) if r is None else r
            v = nest_sum(dims, lambda js: to_f(el(js), 'i').v, kind)
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
            n = rnum(v)
            if n is not None and n.denominator == 1: return z3.IntVal(int(n))
            return z3.ToInt(v)
        el0 = lambda js: to_f(el(js), dt)
        # probe flags
        flags = {}
        def val(js):
            x = el0(js)
            if x.inf is not False:
                x2 = _noinf(And(Not(x.nan), x.inf))
                if x2 is not False: raise OutOfSubset('reduction over a possibly infinite value')
            if x.nan is not False: flags['nan'] = True
            if x.nan is False: return x.v
            return If(x.nan, unit, x.v)
        v = nest_sum(dims, val, kind)
        nan = False
        if flags.get('nan') and not skipnan:
            nan = exists_idx(dims, lambda js: el0(js).nan)
        return X(nan, False, v)
    r = SymTensor(oshape, fn, 'i' if isint else 'f')
    if keepdims:
        g = r.snap()
        return SymTensor(kshape, lambda idx: g(tuple(i for k, i in enumerate(idx) if k not in axes)), r.dt)
    return r


def reduce_ext(kind, t, axes, keepdims, skipnan):
    """max / min over axes: a fresh function with witness and bound axioms"""
    c = ctx()
    dims = [t.shape[a] for a in axes]
    f, dt, nd = t.snap(), t.dt, t.ndim
    guard, nonempty = (lambda js: True), None
    if nd == 1 and getattr(t, 'filter', None) is not None and isinstance(t.filter[0].n, FlatDim):
        # extremum of the selected cells: over the cells themselves, guarded by the mask
        fl, _, base = t.filter
        dims, f = [fl.n], base.snap()
        guard = lambda js: B(fl.m((js[0],)))
        nonempty = lambda: c.entails(Or(*[And(guard((x,)), in_range(x, fl.n)) for x in [FlatIdx(a, b, I(fl.n.n)) for a, b in getattr(c, 'cell_hints', ())] + ends(fl.n)]))
    kshape = tuple(1 if k in axes else d for k, d in enumerate(t.shape))
    oshape = tuple(d for k, d in enumerate(t.shape) if k not in axes)
    if dt not in ('i', 'f', 'M', 'Mm'): raise OutOfSubset('max/min of dtype %s' % dt)
    cache = {}
    def fn(idx):
        key = tuple(i.get_id() for i in idx)
        if key in cache: return cache[key][1]
        if any(c.has_bound(i) for i in idx): raise OutOfSubset('max/min inside a sum')
        tag = c.name(kind)
        wit = [FlatIdx(z3.Int('%s.w%d' % (tag, k)), z3.Int('%s.u%d' % (tag, k)), I(d.n)) if isinstance(d, FlatDim) else z3.Int('%s.w%d' % (tag, k)) for k, d in enumerate(dims)]
        if nonempty is not None and not getattr(c, "nonempty", False) and nonempty() is not True: raise OutOfSubset('max/min of a selection that may be empty')
        rng = And(guard(wit), *[in_range(w, d) for w, d in zip(wit, dims)])
        e = f(insert(idx, axes, wit, nd))
        if dt == 'f':
            if not skipnan and e.nan is not False: raise OutOfSubset('max/min with NaN')
            val = z3.Real(tag)
            c.assume(Implies(Not(e.nan), cmp_terms('==', val, e.v)))
            c.assume(rng)
            res = X(e.nan, False, val)
            bound = lambda js: (lambda y: Implies(Not(y.nan), And(Not(e.nan), cmp_terms('>=' if kind == 'max' else '<=', val, y.v))))(f(insert(idx, axes, js, nd)))
        else:
            val = z3.Int(tag)
            ms = msplit(e) if dt == 'M' else None
            if ms:      # an instant with the same offset from a month start
                val = z3.Int(tag + '.m')
                c.assume(And(rng, val == ms[0]))
                val = MS(val) + ms[1] if ms[1] else MS(val)
            else: c.assume(And(rng, val == e))
            res = val
            bound = lambda js: cmp_terms('>=' if kind == 'max' else '<=', val, f(insert(idx, axes, js, nd)))
        c.__dict__.setdefault('extrema', []).append((dims, bound, guard))
        # instantiate at the end points, which is what range arguments need
        for js in list(itertools.product(*[ends(d) for d in dims])) + ([(FlatIdx(a, b, I(dims[0].n)),) for a, b in getattr(c, 'cell_hints', ())] if len(dims) == 1 and isinstance(dims[0], FlatDim) else []):
            c.assume(Implies(And(guard(js), *[in_range(j, d) for j, d in zip(js, dims)]) if dims else True, bound(js)))
        cache[key] = (idx, res)
        return res
    r = SymTensor(oshape, fn, dt)
    if keepdims:
        g = r.snap()
        return SymTensor(kshape, lambda idx: g(tuple(i for k, i in enumerate(idx) if k not in axes)), r.dt)
    return r


def in_range(w, d):
    if isinstance(d, FlatDim): return And(w.i >= 0, w.i < I(d.n), w.j >= 0, w.j < I(d.m))
    return And(w >= 0, w < I(d))


def ends(d):
    if isinstance(d, FlatDim):
        return [FlatIdx(a, b, I(d.n)) for a in (z3.IntVal(0), z3.simplify(I(d.n) - 1)) for b in (z3.IntVal(0), z3.simplify(I(d.m) - 1))]
    return (z3.IntVal(0), z3.simplify(I(d) - 1))


def use_extrema(js, flat=()):
    """instantiate all max/min bounds at the given index terms (contract hint)"""
    c = ctx()
    for dims, bound, guard in c.__dict__.get('extrema', []):
        for tup in itertools.product(*[[FlatIdx(a, b, I(d.n)) for a, b in flat] if isinstance(d, FlatDim) else js for d in dims]):
            c.assume(Implies(And(guard(tup), *[in_range(j, d) for j, d in zip(tup, dims)]), bound(tup)))


def any_(t, axis=None, keepdims=False):
    t = T(t)
    axes = _axes(t, axis)
    dims = [t.shape[a] for a in axes]
    f, dt, nd = t.snap(), t.dt, t.ndim
    oshape = tuple(d for k, d in enumerate(t.shape) if k not in axes)
    r = SymTensor(oshape, lambda idx: exists_idx(dims, lambda js: to_b(f(insert(idx, axes, js, nd)), dt)), 'b')
    return r


def all_(t, axis=None, keepdims=False):
    return ~any_(~(T(t) if T(t).dt == 'b' else T(t) != 0), axis, keepdims)


def count_nonnan(t, axis, keepdims):
    g, dt = t.snap(), t.dt
    return reduce_('sum', SymTensor(t.shape, lambda i: fin(If(to_f(g(i), dt).nan, ZERO, ONE)), 'f'), axis, keepdims, True)


def mean(t, axis=None, keepdims=False):
    t = T(t)
    n = prod_dims([t.shape[a] for a in _axes(t, axis)])
    return reduce_('sum', t, axis, keepdims, False) / n


def nanmean(t, axis=None, keepdims=False, **k):
    t = T(t)
    return reduce_('sum', t, axis, keepdims, True) / count_nonnan(t, axis, keepdims)


def cum(kind, t, axis):
    t = T(t)
    if axis is None: 
        if t.ndim != 1: raise OutOfSubset('cumulative reduction of a flattened array')
        axis = 0
    axis = axis % t.ndim
    f, dt = t.snap(), t.dt
    n = t.shape[axis]
    def fn(idx):
        hi = z3.simplify(idx[axis] + 1)
        flags = {}
        def val(j):
            x = to_f(f(idx[:axis] + (j,) + idx[axis + 1:]), dt)
            if x.inf is not False and _noinf(x.inf) is not False: raise OutOfSubset('cumulative reduction of a possibly infinite value')
            if x.nan is not False: flags['nan'] = True
            return x.v if x.nan is False else If(x.nan, ZERO if kind == 'sum' else ONE, x.v)
        v = sum_over(mkint(hi), val, kind)
        nan = False
        if flags.get('nan'):
            nan = cmp_terms('>', sum_over(mkint(hi), lambda j: If(to_f(f(idx[:axis] + (j,) + idx[axis + 1:]), dt).nan, ONE, ZERO)), ZERO)
        return X(nan, False, v)
    return SymTensor(t.shape, fn, 'f')


def nan_to_num(t, copy=True, **k):
    t = T(t)
    if t.dt in ('i', 'b'): return t.copy()
    f = t.snap()
    def fn(idx):
        x = f(idx)
        if x.inf is not False and _noinf(And(Not(x.nan), x.inf)) is not False:
            big = z3.RealVal('179769313486231570000000000000')
            return fin(If(x.nan, ZERO, If(x.inf, If(x.v > 0, big, -big), x.v)))
        return fin(If(x.nan, ZERO, x.v))
    return SymTensor(t.shape, fn, 'f')


def xmin(op):
    def f(a, b):
        nan = Or(a.nan, b.nan)
        c = xcmp(op, X(False, a.inf, a.v), X(False, b.inf, b.v))
        return X(nan, If(c, a.inf, b.inf), a.v if c is True else b.v if c is False else z3.If(c, a.v, b.v))
    return f


def minimum(a, b): return _mm('<=', a, b)
def maximum(a, b): return _mm('>=', a, b)


def _mm(op, a, b):
    a, b = T(a), T(b)
    da, db = a.dt, b.dt
    if da == db and da in ('M', 'Mm', 'i'):
        return elementwise(lambda x, y: z3.If(x <= y, x, y) if op == '<=' else z3.If(x >= y, x, y), da, a, b)
    if {da, db} == {'M', 'Mm'}:
        cv = lambda e, d: MS(e) if d == 'Mm' else e
        return elementwise(lambda x, y: (lambda p, q: z3.If(p <= q, p, q) if op == '<=' else z3.If(p >= q, p, q))(cv(x, da), cv(y, db)), 'M', a, b)
    g = xmin(op)
    return elementwise(lambda x, y: g(to_f(x, da), to_f(y, db)), 'f', a, b)


def isnan(t):
    t = T(t)
    if t.dt != 'f': return SymTensor(t.shape, lambda i: False, 'b')
    f = t.snap()
    return SymTensor(t.shape, lambda i: f(i).nan, 'b')


def isfinite(t):
    t = T(t)
    if t.dt != 'f': return SymTensor(t.shape, lambda i: True, 'b')
    f = t.snap()
    return SymTensor(t.shape, lambda i: And(Not(f(i).nan), Not(f(i).inf)), 'b')


def len_of(t):
    n = t.shape[0]
    return n if isinstance(n, int) else n


# ------------------------------------------------------------------ symbolic inputs
def sym_tensor(name, shape, dtype='f', inv=None, nan=True):
    """a fully symbolic input array; inv(idx, element) -> list of facts"""
    c = ctx()
    n = len(shape)
    if dtype == 'f':
        v = z3.Function(name + '.v', *([IS] * n), RS) if n else None
        nn = z3.Function(name + '.nan', *([IS] * n), BS) if n else None
        if n == 0:
            e = X(z3.Bool(name + '.nan') if nan else False, False, z3.Real(name + '.v'))
            if inv: 
                for f in inv((), e): c.assume(f)
            return SymTensor((), lambda i: e, 'f', label=name)
        def fn(idx):
            idx = tuple(iterm(i) for i in idx)
            return X(nn(*idx) if nan else False, False, v(*idx))
        if inv:
            c.reg.declare_inv(v, lambda a: [B(f) for f in inv(tuple(a.children()), X(nn(*a.children()) if nan else False, False, a))])
    else:
        rs = BS if dtype == 'b' else IS
        if n == 0:
            e = z3.Const(name, rs)
            return SymTensor((), lambda i: e, dtype, label=name)
        v = z3.Function(name, *([IS] * n), rs)
        def fn(idx): return v(*[iterm(i) for i in idx])
        if inv:
            c.reg.declare_inv(v, lambda a: [B(f) for f in inv(tuple(a.children()), a)])
    t = SymTensor(shape, fn, dtype, label=name)
    c.named[name] = t
    return t


def sym_dim(name, lo=1):
    c = ctx()
    d = z3.Int('dim.' + name)
    c.assume(d >= lo)
    c.named['dim.' + name] = SymInt(d)
    return SymInt(d)


def sym_idx(*dims, base='i'):
    """arbitrary in-range index tuple"""
    c = ctx()
    out = []
    for d in dims:
        i = z3.Int(c.name(base))
        c.assume(And(i >= 0, i < I(d)))
        out.append(i)
    return tuple(out)


def _year(t):
    if t.dt not in ('M', 'Mm'): raise AttributeError('year')
    f, d = t.snap(), t.dt
    r = SymTensor(t.shape, lambda i: z3.IntVal(1970) + (MO(f(i)) if d == 'M' else f(i)) / z3.IntVal(12), 'i')
    return mkint(r.at(())) if not t.ndim else r


def _month(t):
    if t.dt not in ('M', 'Mm'): raise AttributeError('month')
    f, d = t.snap(), t.dt
    r = SymTensor(t.shape, lambda i: z3.IntVal(1) + (MO(f(i)) if d == 'M' else f(i)) % z3.IntVal(12), 'i')
    return mkint(r.at(())) if not t.ndim else r


SymTensor.year = property(_year)
SymTensor.month = property(_month)
