"""Assumed contracts of numpy and pandas functions, by qualified name.

Each entry is used only for symbolic arguments; the conformance check
(vc/conform.py) compares every entry with the real library on random concrete
values.
"""
import numpy as np
import pandas as pd
import z3
from . import tensor as tz
from .core import OutOfSubset, SymBool, SymInt, ctx, mkint, I, And, Or, Not, If, cmp_terms, mkbool
from .tensor import SymTensor, T, fin, ZERO, ONE

MODELS = {}


def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d


@model('np.array', 'np.asarray')
def array(a, dtype=None, **k):
    t = T(a.values if isinstance(a, SymDF) else a)
    if not isinstance(t, SymTensor): t = T(t)
    r = SymTensor(t.shape, t.snap(), t.dt)
    if dtype is not None: r = tz.astype(r, dtype)
    return r


class LexOrder:
    """np.lexsort: its argsort is the rank, i.e. the number of entries that come before (stable; missing entries last)"""
    def __init__(self, keys, axis): self.keys, self.axis = [T(k) for k in keys], axis
    def argsort(self, axis=-1, **k):
        nd = self.keys[0].ndim
        ax = self.axis % nd
        if axis % nd != ax: raise OutOfSubset('argsort along another axis than lexsort')
        fs = [(t.snap(), t.dt) for t in reversed(self.keys)]
        n = self.keys[0].shape[ax]
        def lt(a, b): return Or(And(Not(a.nan), b.nan), And(Not(a.nan), Not(b.nan), tz.xcmp('<', a, b)))
        def eq(a, b): return Or(And(a.nan, b.nan), And(Not(a.nan), Not(b.nan), tz.xcmp('==', a, b)))
        def fn(idx):
            def before(p):
                r = p < idx[ax]
                for f, dt in reversed(fs):
                    a, b = tz.to_f(f(idx[:ax] + (p,) + idx[ax + 1:]), dt), tz.to_f(f(idx), dt)
                    r = Or(lt(a, b), And(eq(a, b), r))
                return r
            return fin(tz.sum_over(n, lambda p: If(before(p), ONE, ZERO)))
        return SymTensor(self.keys[0].shape, fn, 'f')


@model('np.lexsort')
def lexsort(keys, axis=-1): return LexOrder(keys, axis)


@model('np.copy')
def copy(a): return T(a).copy()


for _n in ('sum', 'mean', 'prod', 'max', 'min', 'any', 'all'):
    def _f(a, axis=None, keepdims=False, dtype=None, _n=_n, **k):
        if axis is None and not keepdims and isinstance(a, (tuple, list)) and len(a) == 1 and isinstance(a[0], SymTensor): a = a[0]
        return getattr(T(a), _n)(axis=axis, keepdims=keepdims)
    MODELS['np.' + _n] = _f


@model('np.nansum')
def nansum(a, axis=None, keepdims=False, **k): return tz.reduce_('sum', T(a), axis, keepdims, True)
@model('np.nanprod')
def nanprod(a, axis=None, keepdims=False, **k): return tz.reduce_('prod', T(a), axis, keepdims, True)
@model('np.nanmean')
def nanmean(a, axis=None, keepdims=False, **k): return tz.nanmean(a, axis, keepdims)
@model('np.nanmax')
def nanmax(a, axis=None, keepdims=False, **k): return tz.reduce_('max', T(a), axis, keepdims, True)
@model('np.nanmin')
def nanmin(a, axis=None, keepdims=False, **k): return tz.reduce_('min', T(a), axis, keepdims, True)
@model('np.cumsum')
def cumsum(a, axis=None): return tz.cum('sum', a, axis)
@model('np.cumprod')
def cumprod(a, axis=None): return tz.cum('prod', a, axis)


MODELS['np.nan_to_num'] = lambda a, **k: tz.nan_to_num(a)
MODELS['np.isnan'] = tz.isnan
MODELS['np.isfinite'] = tz.isfinite
MODELS['np.sqrt'] = lambda a: tz.unop(tz.xsqrt, a, 'f')
MODELS['np.exp'] = lambda a: tz.unop(tz.xfun('exp'), a, 'f')
MODELS['np.log'] = lambda a: tz.unop(tz.xfun('log'), a, 'f')
MODELS['np.abs'] = MODELS['np.absolute'] = lambda a: abs(T(a))
MODELS['np.where'] = tz.where
MODELS['np.arange'] = tz.arange
MODELS['np.concatenate'] = tz.concatenate
MODELS['np.repeat'] = lambda a, repeats, axis=None: tz.repeat(a, repeats, axis)
MODELS['np.tile'] = tz.tile
MODELS['np.diff'] = tz.diff
MODELS['np.broadcast_to'] = tz.broadcast_to
MODELS['np.expand_dims'] = lambda a, axis: tz.expand_dims(T(a), axis)
MODELS['np.swapaxes'] = lambda a, x, y: tz.swapaxes(T(a), x, y)
MODELS['np.transpose'] = lambda a, axes=None: tz.transpose(T(a), axes)
MODELS['np.moveaxis'] = lambda a, s, d: tz.moveaxis(T(a), s, d)
MODELS['np.squeeze'] = lambda a, axis=None: tz.squeeze(T(a), axis)
MODELS['np.reshape'] = lambda a, shape, order='C': tz.reshape(T(a), shape, order)
MODELS['np.ravel'] = lambda a, order='C': T(a).flatten(order)
MODELS['np.minimum'] = tz.minimum
MODELS['np.maximum'] = tz.maximum
MODELS['np.clip'] = lambda a, lo, hi: tz.minimum(tz.maximum(T(a), T(lo)), T(hi))
MODELS['np.shape'] = lambda a: T(a).shape
MODELS['np.multiply'] = lambda a, b: T(a) * b
MODELS['np.add'] = lambda a, b: T(a) + b
MODELS['np.subtract'] = lambda a, b: T(a) - b
MODELS['np.divide'] = lambda a, b: T(a) / b
MODELS['np.power'] = lambda a, b: T(a) ** b
MODELS['np.logical_not'] = lambda a: ~T(a)
MODELS['np.logical_and'] = lambda a, b: T(a) & b
MODELS['np.logical_or'] = lambda a, b: T(a) | b
MODELS['np.append'] = lambda a, b, axis=None: tz.concatenate([T(a), T(b)], 0 if axis is None else axis)
MODELS['np.ndim'] = lambda a: T(a).ndim


def _dts(dtype):
    if dtype is None: return 'f'
    s = dtype if isinstance(dtype, str) else getattr(dtype, '__name__', str(dtype))
    return 'f' if 'float' in s else 'i' if 'int' in s else 'b' if 'bool' in s else 'o'


def _mkfull(v):
    def f(shape, dtype=None, **k):
        dt = _dts(dtype)
        return tz.full(shape, v if dt != 'b' else bool(v), dt)
    return f
MODELS['np.ones'] = _mkfull(1)
MODELS['np.zeros'] = _mkfull(0)
MODELS['np.full'] = lambda shape, v, dtype=None: tz.broadcast_to(T(v), shape).astype('float64').copy()
def _like(v): return lambda a, dtype=None, **k: tz.full(T(a).shape, v, T(a).dt if dtype is None else _dts(dtype))
MODELS['np.ones_like'] = _like(1)
MODELS['np.zeros_like'] = _like(0)


@model('np.datetime64')
def datetime64(x, *u):
    if isinstance(x, SymTensor):
        return x
    raise OutOfSubset('datetime64')


@model('np.timedelta64')
def timedelta64(x, u=None):
    t = T(x)
    if u == 'M': return SymTensor((), lambda i, f=t.snap(): f(()), 'dm')
    raise OutOfSubset('timedelta64 unit')


@model('np.array_equal')
def array_equal(a, b):
    a, b = T(a), T(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a.shape, b.shape):
        if not tz.same_dim(x, y): return False
    return tz.all_(a == b)


# ---------------------------------------------------------------- pandas
class SymDTI(SymTensor):
    """pd.DatetimeIndex over a symbolic array of instants"""
    _vc_class = pd.DatetimeIndex
    __module__ = 'pandas'

    @property
    def values(self): return plain(self)
    def copy(self, *a, **k): return SymDTI(self.shape, self.snap(), 'M')
    def __getitem__(self, k):
        r = tz.getitem(plain(self), k)
        return as_dti(r) if r.ndim else r
    def to_numpy(self): return plain(self)
    def isin(self, v):
        v = [pd.Timestamp(x) for x in v]
        r = plain(self) != self
        for x in v: r = r | (plain(self) == x)
        return r
    def max(self, axis=None, keepdims=False): return tz.reduce_('max', plain(self), axis, keepdims, False)
    def min(self, axis=None, keepdims=False): return tz.reduce_('min', plain(self), axis, keepdims, False)
    @property
    def array(self): return plain(self)
    def to_period(self, freq=None): return SymMonths.of(plain(self)) if freq == 'M' else SymPeriods(plain(self), freq)


def conv2(t): return t if t.dt == 'M' else SymTensor(t.shape, tz.conv(t, 'M'), 'M')


class SymPeriods:
    """pd.PeriodIndex of periods starting at the given month starts (precondition: the dates are starts of
    periods of the frequency)"""
    _vc_sym = True
    _vc_class = pd.PeriodIndex
    def __init__(self, t, freq):
        self.t, self.freq = t, freq
        base = str(freq).split('-')[0]
        self.n = {'M': 1, 'Q': 3, '2Q': 6, 'Y': 12, 'A': 12, 'S': 6}.get(base)
        if self.n is None: raise OutOfSubset('period frequency %s' % freq)
    @property
    def shape(self): return self.t.shape
    def _vc_len(self): return self.t.shape[0]
    def __len__(self): return tz.len_of(self.t).__index__()
    def __getitem__(self, k):
        if isinstance(k, (int, SymInt)): return SymPeriods(self.t[k], self.freq)
        raise OutOfSubset('selection of periods')
    def min(self): return SymPeriods(tz.reduce_('min', self.t, None, False, False), self.freq)
    def max(self): return SymPeriods(tz.reduce_('max', self.t, None, False, False), self.freq)
    def _cmp(self, op, o):
        if not isinstance(o, SymPeriods) or o.freq != self.freq: raise OutOfSubset('comparison of periods')
        a, b = conv2(self.t), conv2(o.t)
        return tz.binop(op, a, b)
    def __eq__(self, o): return self._cmp('==', o)
    def __ne__(self, o): return self._cmp('!=', o)
    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __gt__(self, o): return self._cmp('>', o)
    def __ge__(self, o): return self._cmp('>=', o)
    __hash__ = None
    def to_timestamp(self, freq=None, how='start'):
        f, n = tz.conv(self.t, 'M'), self.n
        end = str(how).lower() in ('e', 'end')
        r = SymTensor(self.t.shape, lambda i: MS(z3.simplify(tz.MO(f(i)) + n)) - 1 if end else MS(tz.MO(f(i))), 'M')
        return as_dti(r) if r.ndim else r


MS = tz.MS


class SymMonths:
    """pd.PeriodIndex / Period of calendar months (t: month numbers)"""
    _vc_sym = True
    _vc_class = pd.PeriodIndex
    freq = 'M'
    def __init__(self, t): self.t = t
    @staticmethod
    def of(t):
        f = tz.conv(t, 'M')
        r = SymTensor(t.shape, lambda i: z3.simplify(tz.MO(f(i))), 'i')
        if hasattr(t, 'filter'): r.filter = t.filter
        return SymMonths(r)
    @property
    def shape(self): return self.t.shape
    def _vc_len(self): return self.t.shape[0]
    def _vc_item(self, k): return SymMonths(self.t[k])
    def __len__(self): return tz.len_of(self.t).__index__()
    def __getitem__(self, k): return SymMonths(self.t[k])
    def min(self): return SymMonths(tz.reduce_('min', self.t, None, False, False))
    def max(self): return SymMonths(tz.reduce_('max', self.t, None, False, False))
    def __add__(self, n): return SymMonths(self.t + n) if isinstance(n, (int, SymInt)) else NotImplemented
    def __sub__(self, n): return SymMonths(self.t - n) if isinstance(n, (int, SymInt)) else NotImplemented
    def _cmp(self, op, o):
        if not isinstance(o, SymMonths): raise OutOfSubset('comparison of periods')
        return tz.binop(op, self.t, o.t)
    def __eq__(self, o): return self._cmp('==', o)
    def __ne__(self, o): return self._cmp('!=', o)
    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __gt__(self, o): return self._cmp('>', o)
    def __ge__(self, o): return self._cmp('>=', o)
    __hash__ = None
    def to_timestamp(self, freq=None, how='start'):
        f = self.t.snap()
        end = str(how).lower() in ('e', 'end')
        r = SymTensor(self.t.shape, lambda i: MS(z3.simplify(f(i) + 1)) - 1 if end else MS(f(i)), 'M')
        return as_dti(r) if r.ndim else r


def plain(t):
    r = SymTensor(t.shape, dtype=t.dt, buf=t.buf, vmap=t.vmap, vinv=t.vinv)
    if hasattr(t, 'filter'): r.filter = t.filter
    return r


def as_dti(t):
    r = SymDTI(t.shape, dtype='M', buf=t.buf, vmap=t.vmap, vinv=t.vinv) if t.dt == 'M' else SymDTI(t.shape, tz.conv(t, 'M'), 'M')
    if hasattr(t, 'filter'): r.filter = t.filter
    return r


@model('pd.DatetimeIndex')
def DatetimeIndex(a, name=None, **k):
    t = T(a)
    if t.ndim != 1: raise OutOfSubset('DatetimeIndex of a %d-d array' % t.ndim)
    return as_dti(t)
MODELS['pd.to_datetime'] = lambda a, **k: a if isinstance(a, SymTensor) and a.ndim == 0 else as_dti(T(a))
MODELS['pd.Timestamp'] = lambda a, **k: a


class SymDF:
    """two-dimensional frame used only as a container"""
    _vc_sym = True
    _vc_class = pd.DataFrame
    def __init__(self, v): self.values = T(v)
    @property
    def shape(self): return self.values.shape
    def _o(self, o, f):
        return SymDF(f(self.values, o.values if isinstance(o, SymDF) else o))
    def __gt__(self, o): return self._o(o, lambda a, b: a > b)
    def __lt__(self, o): return self._o(o, lambda a, b: a < b)
    def __ge__(self, o): return self._o(o, lambda a, b: a >= b)
    def __le__(self, o): return self._o(o, lambda a, b: a <= b)
    def __eq__(self, o): return self._o(o, lambda a, b: a == b)
    def __mul__(self, o): return self._o(o, lambda a, b: a * b)
    def __add__(self, o): return self._o(o, lambda a, b: a + b)
    def unstack(self):
        v = self.values
        return SymSer(tz.reshape(v, (-1,), 'F'))
    def to_numpy(self): return self.values


class SymSer:
    """pd.Series used as a labelled 1-d container"""
    _vc_sym = True
    _vc_class = pd.Series
    prog = None
    def __init__(self, v, name=None): self.values, self.name = T(v), name
    @property
    def shape(self): return self.values.shape
    def _vc_len(self): return self.values.shape[0]
    def _vc_item(self, k): return self.values[k]
    def __len__(self):
        return tz.len_of(self.values).__index__()
    def _o(self, o, f): return SymSer(f(self.values, o.values if isinstance(o, SymSer) else o), self.name)
    def __gt__(self, o): return self._o(o, lambda a, b: a > b)
    def __lt__(self, o): return self._o(o, lambda a, b: a < b)
    def __ge__(self, o): return self._o(o, lambda a, b: a >= b)
    def __le__(self, o): return self._o(o, lambda a, b: a <= b)
    def __eq__(self, o): return self._o(o, lambda a, b: a == b)
    def __ne__(self, o): return self._o(o, lambda a, b: a != b)
    def max(self): return self.values.max()
    def min(self): return self.values.min()
    @property
    def iloc(self): return self.values
    def to_numpy(self): return self.values
    def copy(self): return SymSer(self.values.copy(), self.name)


class SymUnion:
    """pd.concat of two label series (values = index), axis=1, sorted: the ordered union of two
    arithmetic progressions with a common step and phase"""
    _vc_sym = True
    _vc_class = pd.DataFrame
    def __init__(self, p, q):
        (mk, a, st, m), (mk2, b, st2, n) = p, q
        if mk is not mk2 or st != st2: raise OutOfSubset('union of labels of different kinds')
        # preconditions checked here: common phase; overlapping or adjacent ranges (no gap)
        c = ctx()
        off = z3.simplify(b - a)
        if not c.decide(off % st == 0): raise OutOfSubset('union of labels of different phase')
        k = z3.simplify(off / st)
        m_, n_ = I(m), I(n)
        if not c.decide(And(k <= m_, k + n_ >= 0)): raise OutOfSubset('union of labels with a gap')
        lo = z3.If(k < 0, k, z3.IntVal(0))
        hi = z3.If(k + n_ > m_, k + n_, m_)
        self.n = mkint(z3.simplify(hi - lo))
        el = (lambda i: MSof(mk, a + st * (lo + tz.iterm(i[0]))))
        self.index = SymTensor((self.n,), el, 'M' if mk else 'i')
        self.index.prog = (mk, z3.simplify(a + st * lo), st, self.n)
        na = lambda s, ln: SymTensor((self.n,), lambda i: Not(And(lo + tz.iterm(i[0]) >= s, lo + tz.iterm(i[0]) < s + ln)), 'b')
        self.cols = {0: na(z3.IntVal(0), m_), 1: na(k, n_)}
        c.hints = list(getattr(c, 'hints', [])) + [z3.simplify(x - lo) for x in (z3.IntVal(0), m_ - 1, k, k + n_ - 1)]
    def sort_index(self): return self
    def _vc_len(self): return self.n
    def __len__(self): return tz.len_of(self.index).__index__()
    def __getitem__(self, k): return SymNA(self.cols[k])


def MSof(mk, m): return tz.MS(m) if mk else m


class SymNA:
    _vc_sym = True
    def __init__(self, v): self.v = v
    def isna(self): return SymSer(self.v)


@model('pd.concat')
def pdconcat(objs, axis=0, **k):
    objs = list(objs)
    if axis == 1 and len(objs) == 2 and all(isinstance(o, SymSer) and o.prog is not None for o in objs): return SymUnion(objs[0].prog, objs[1].prog)
    raise OutOfSubset('pd.concat')


MODELS['pd.DataFrame'] = lambda a, *r, **k: SymDF(a)
def _series(a, *r, name=None, index=None, **k):
    r = SymSer(a, name)
    if index is not None:
        if index is not a or getattr(a, 'prog', None) is None: raise OutOfSubset('Series with an index')
        r.prog = a.prog
    return r
MODELS['pd.Series'] = _series
MODELS['pd.Index'] = lambda a, name=None: T(a)


# ---------------------------------------------------------------- sparse
def normalize_index(idx, shape):
    """contract of sparse._slicing.normalize_index on slices, integers, Ellipsis"""
    if not isinstance(idx, tuple): idx = (idx,)
    ell = [i for i, x in enumerate(idx) if x is Ellipsis]
    if len(ell) > 1: raise IndexError("an index can only have a single ellipsis ('...')")
    if ell: idx = idx[:ell[0]] + (slice(None),) * (len(shape) - len(idx) + 1) + idx[ell[0] + 1:]
    idx = idx + (slice(None),) * (len(shape) - len(idx))
    if len(idx) > len(shape): raise IndexError('Too many indices for array')
    out = []
    c = ctx()
    for i, d in zip(idx, shape):
        if isinstance(i, slice):
            st = 1 if i.step is None else int(i.step)
            I_ = lambda x: mkint(I(tz.dim(x)))
            if st > 0:
                a = 0 if i.start is None else I_(i.start)
                b = d if i.stop is None else I_(i.stop)
                a = a + d if a < 0 else a
                # posify: `not (0 > stop >= step) and stop < 0`
                b = b + d if b < 0 else b
                a = 0 if a < 0 else a
                b = d if b > d else b
                a = b if a > b else a
            else:
                a = d - 1 if i.start is None else I_(i.start)
                b = -1 if i.stop is None else I_(i.stop)
                a = a + d if a < 0 else a
                if b < 0 and not (b >= st): b = b + d
                a = d - 1 if a > d - 1 else a
                b = -1 if b < -1 else b
                a = b if a < b else a
            out.append(slice(a, b, st))
        elif isinstance(i, (int, SymInt)) and not isinstance(i, bool):
            out.append(mkint(tz.norm_int(i, d)))
        elif isinstance(i, (list, np.ndarray)) and np.asarray(i).ndim == 1 and len(i) and np.asarray(i).dtype.kind in 'iu':
            e = [tz.norm_int(int(x), d) for x in i]
            e = [mkint(x) if isinstance(x, z3.ExprRef) else x for x in e]
            if not all(isinstance(x, (int, np.integer)) for x in e): raise OutOfSubset('normalize_index of a list counted from the end of a symbolic axis')
            out.append(np.array([int(x) for x in e]))
        else:
            raise OutOfSubset('normalize_index of %s' % type(i).__name__)
    return tuple(out)


MODELS['sparse._slicing.normalize_index'] = normalize_index
