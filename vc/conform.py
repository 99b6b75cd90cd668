"""Conformance of the models: every numpy / pandas operation the verifier models is run on random small arrays both by
the real library and by the model, and every element of the model's result is *proved* equal to the library's.
Where the proof fails the negation is tried: a model contradicts the library when it proves a different value.

Each operation is checked with concrete lengths and with symbolic lengths that are merely assumed to equal the concrete
ones, so that the axioms of sums, products, extrema, ranks and selections over symbolic axes are exercised as well.
conform.py [seed] -> prints one line per operation; exit status 1 if any result disagrees."""
import sys, os, random, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')
import numpy as np, pandas as pd
np.seterr(all='ignore')
from vc import core, load, models
from vc.core import z3
from vc import tensor as tz
from vc.core import I, And, Implies, B
from vc.tensor import SymTensor


def lift(c, a, sym):
    """the array as a symbolic array, with lengths as symbols when asked for"""
    t = tz.from_concrete(a)
    if not sym: return t
    c.assume(z3.BoolVal(True))
    dims = []
    for n in a.shape:
        if n <= 1: dims.append(n); continue
        key = 'n%d' % n
        if key not in c.__dict__.setdefault('cdims', {}):
            d = tz.sym_dim(key); c.assume(I(d) == n); c.cdims[key] = d
        dims.append(c.cdims[key])
    f = t.snap()
    return SymTensor(tuple(dims), f, t.dt)


def el(r, ix): return tz.to_f(r.at(tuple(z3.IntVal(i) for i in ix)), r.dt)


def contradicted(c, f): return not c.prove('consistent', False) and c.prove('contradiction', tz.Not(f))


def same(c, name, r, want):
    if isinstance(r, (models.SymMonths,)): r = r.t
    if isinstance(want, pd.PeriodIndex): want = np.array([(x.year - 1970) * 12 + x.month - 1 for x in want])
    if isinstance(want, pd.Index): want = want.values
    want = np.asarray(want)
    r = tz.T(r)
    if len(r.shape) != want.ndim: return 'Dshape %s, library %s' % (r.shape, want.shape)
    ok = c.prove('shape', And(True, *[B(I(a) == I(b)) for a, b in zip(r.shape, want.shape)]))
    if not ok: return ('D' if contradicted(c, And(True, *[B(I(a) == I(b)) for a, b in zip(r.shape, want.shape)])) else 'U') + 'shape %s, library %s' % (r.shape, want.shape)
    und = None
    for ix in np.ndindex(*want.shape):
        e, w = None, want[ix]
        if want.dtype.kind == 'M':
            e = r.at(tuple(z3.IntVal(i) for i in ix)); g = tz.T(pd.Timestamp(w)).at(()); f = e == g
        else:
            e = el(r, ix)
            if w != w: f = e.nan
            elif np.isinf(w): f = And(tz.Not(e.nan), e.inf, (e.v > 0) == bool(w > 0))
            else:
                x = z3.RealVal(repr(float(w)))
                f = And(tz.Not(e.nan), tz.Not(e.inf), e.v - x <= z3.RealVal('1e-9'), x - e.v <= z3.RealVal('1e-9'))
        if not c.prove('element', f):
            if contradicted(c, f): return 'Delement %s: library %r' % (ix, w)
            und = 'Uelement %s: library %r' % (ix, w)
    if und is None and c.prove('consistent', False): return 'Dinconsistent axioms: falsehood is provable'
    return und


def arrays(r):
    n, m = r.choice([2, 3]), r.choice([2, 4])
    v = lambda *s: np.array([r.choice([-2.0, -1.0, 0.0, 1.0, 1.5, 2.0, 3.0, np.nan]) for _ in range(int(np.prod(s)))]).reshape(s)
    pos = lambda *s: np.array([r.choice([.5, 1.0, 2.0, 4.0]) for _ in range(int(np.prod(s)))]).reshape(s)
    return dict(a=v(n, m), b=v(n, m), p=pos(n, m), v=v(m), w=v(n, 1), q=v(n, m, 2), i=np.array([r.randint(-3, 5) for _ in range(m)]), k=np.array([r.choice([True, False]) for _ in range(n * m)]).reshape(n, m),
                km=np.array([True] + [r.choice([True, False]) for _ in range(m - 1)]), s=v(1, m),
                d=pd.DatetimeIndex([pd.Timestamp(year=1990 + r.randint(0, 3), month=r.randint(1, 12), day=1) + (pd.offsets.MonthEnd(0) if e else pd.Timedelta(0)) for e in [r.random() < .5] * m]).values)


# name -> (arrays used, operation, symbolic lengths too?)
OPS = {}
def op(name, use, f, sym=True): OPS[name] = (use.split(), f, sym)


for _n, _f in dict(add=lambda x, y: x + y, sub=lambda x, y: x - y, mul=lambda x, y: x * y, div=lambda x, y: x / y, lt=lambda x, y: x < y, le=lambda x, y: x <= y, gt=lambda x, y: x > y, ge=lambda x, y: x >= y,
                   eq=lambda x, y: x == y, ne=lambda x, y: x != y).items():
    op(_n, 'a b', lambda np, a, b, f=_f: f(a, b))
    op(_n + ' broadcast row', 'a s', lambda np, a, b, f=_f: f(a, b))
    op(_n + ' broadcast column', 'w a', lambda np, a, b, f=_f: f(a, b))
    op(_n + ' scalar', 'a', lambda np, a, f=_f: f(a, 2))
    op(_n + ' scalar left', 'a', lambda np, a, f=_f: f(1, a))
op('neg', 'a', lambda np, a: -a); op('abs', 'a', lambda np, a: abs(a)); op('square', 'a', lambda np, a: a ** 2); op('power 0', 'a', lambda np, a: a ** 0); op('power -1', 'p', lambda np, a: a ** -1)
op('sqrt squared', 'p', lambda np, a: np.sqrt(a) ** 2); op('power 1/2 squared', 'p', lambda np, a: (a ** .5) ** 2); op('and', 'k', lambda np, a: a & ~a); op('or', 'k', lambda np, a: a | ~a); op('invert', 'k', lambda np, a: ~a)
op('sqrt of negatives missing', 'a', lambda np, a: np.isnan(np.sqrt(a - 3)))
for _n in ('sum', 'prod', 'max', 'min', 'mean'):
    for _ax in (0, 1, -1):
        op('%s axis %d' % (_n, _ax), 'p', lambda np, a, n=_n, x=_ax: getattr(a, n)(axis=x))
        op('np.%s axis %d keepdims' % (_n, _ax), 'a', lambda np, a, n=_n, x=_ax: getattr(np, n)(a, axis=x, keepdims=True), _n != 'prod')
        if _n != 'mean': op('np.nan%s axis %d' % (_n, _ax), 'a', lambda np, a, n=_n, x=_ax: getattr(np, 'nan' + n)(a, x), _n in ('sum', 'prod'))
    op('%s all' % _n, 'p', lambda np, a, n=_n: getattr(a, n)(), False)
op('np.nanmean', 'a', lambda np, a: np.nanmean(a, 0), False)
for _ax in (0, 1): op('cumsum %d' % _ax, 'p', lambda np, a, x=_ax: a.cumsum(axis=x)); op('cumprod %d' % _ax, 'p', lambda np, a, x=_ax: a.cumprod(axis=x)); op('np.diff %d' % _ax, 'a', lambda np, a, x=_ax: np.diff(a, axis=x)); op('any %d' % _ax, 'k', lambda np, a, x=_ax: a.any(axis=x), False); op('all %d' % _ax, 'k', lambda np, a, x=_ax: a.all(axis=x), False)
op('np.any', 'k', lambda np, a: np.any(a), False); op('np.all', 'k', lambda np, a: np.all(a), False)
op('nan_to_num', 'a', lambda np, a: np.nan_to_num(a)); op('isnan', 'a', lambda np, a: np.isnan(a)); op('isfinite', 'a', lambda np, a: np.isfinite(a))
op('where', 'k a b', lambda np, k, a, b: np.where(k, a, b)); op('where scalar', 'k a', lambda np, k, a: np.where(k, a, 0)); op('exp of infinite', 'a', lambda np, a: np.exp(a / 0) * 0); op('exp of infinite is infinite', 'a', lambda np, a: np.isnan(np.exp(a / 0))); op('log of infinite', 'a', lambda np, a: np.isnan(np.log(a / 0))); op('minimum', 'a b', lambda np, a, b: np.minimum(a, b)); op('maximum', 'a b', lambda np, a, b: np.maximum(a, b))
op('clip', 'a', lambda np, a: np.clip(a, -1, 2)); op('concatenate 0', 'a b', lambda np, a, b: np.concatenate((a, b), 0)); op('concatenate -1', 'a w', lambda np, a, w: np.concatenate((a, w), -1)); op('repeat', 'w', lambda np, a: np.repeat(a, 3, -1)); op('repeat rows', 's', lambda np, a: np.repeat(a, 3, 0)); op('tile', 'v', lambda np, a: np.tile(a, 2))
op('expand_dims', 'a', lambda np, a: np.expand_dims(a, 1)); op('None index', 'a', lambda np, a: a[..., None, :]); op('swapaxes', 'q', lambda np, a: np.swapaxes(a, 0, 1)); op('transpose', 'q', lambda np, a: a.transpose((2, 0, 1))); op('squeeze', 'w', lambda np, a: a[:, 0]); op('moveaxis', 'q', lambda np, a: np.moveaxis(a, 0, 2))
op('reversed', 'a', lambda np, a: a[..., ::-1]); op('slice', 'a', lambda np, a: a[..., 1:]); op('slice to -1', 'a', lambda np, a: a[:, :-1]); op('last column', 'a', lambda np, a: a[..., -1:]); op('element axis', 'a', lambda np, a: a[0]); op('step', 'v', lambda np, a: a[::2]); op('take list', 'v', lambda np, a: a[[1, 0]]); op('take pairs', 'a', lambda np, a: a[1, [[1, 0]]]); op('take by computed', 'v i', lambda np, a, i: a[abs(i) * 0 + 1]); op('take rows', 'a', lambda np, a: a[[-1, 0]])
op('mask', 'v km', lambda np, a, k: a[k], False); op('broadcast_to', 's', lambda np, a: np.broadcast_to(a, (3,) + tuple(a.shape[1:]))); op('flatten', 'a', lambda np, a: a.flatten(), False); op('reshape F', 'a', lambda np, a: a.reshape((2, -1), order='F') if a.shape[0] == 2 else a, False)
op('ones like', 'a', lambda np, a: np.ones_like(a)); op('zeros', 'a', lambda np, a: np.zeros(a.shape) + a); op('full', 'a', lambda np, a: np.full(a.shape, 2.0) * a); op('astype int', 'i', lambda np, a: (a * 2).astype('int64')); op('astype bool', 'i', lambda np, a: a.astype(bool)); op('astype float', 'k', lambda np, a: a.astype(float))
op('floor division', 'i', lambda np, a: a // 2, False); op('remainder', 'i', lambda np, a: a % 3, False)
op('lexsort rank', 'p a', lambda np, p, a: np.lexsort((p, a), axis=1).argsort(axis=1)); op('lexsort rank axis 0', 'p a', lambda np, p, a: np.lexsort((p, a), axis=0).argsort(axis=0))
def _set(key, val):
    def f(np, a, *r):
        a = a.copy(); a[key(*r) if callable(key) else key] = val(*r) if callable(val) else val
        return a
    return f
op('write slice', 'a', _set((slice(None), slice(1, None)), 7.0)); op('write mask', 'a k', lambda np, a, k: (lambda x: (x.__setitem__(k, 0.0), x)[1])(a.copy())); op('write mask on trailing axes', 'q', lambda np, a: (lambda x: (x.__setitem__((Ellipsis, a[0] > 0), 5.0), x)[1])(a.copy()))
op('write column', 'a w', lambda np, a, w: (lambda x: (x.__setitem__((Ellipsis, slice(0, 1)), w), x)[1])(a.copy())); op('write through a view', 'a', lambda np, a: (lambda x: (x[:, 1:].__setitem__((Ellipsis, slice(0, 1)), 9.0), x)[1])(a.copy()))
op('dates sorted', 'd', lambda np, d: d.max(), False); op('dates compare', 'd', lambda np, d: d <= d[0]); op('dates minimum', 'd', lambda np, d: np.minimum(d, d[:1]), False)
op('months of dates', 'd', lambda np, d: load._vc_mod(pd).DatetimeIndex(d).to_period('M') if isinstance(d, SymTensor) else pd.DatetimeIndex(d).to_period('M')); op('year', 'd', lambda np, d: (models.as_dti(d) if isinstance(d, SymTensor) else pd.DatetimeIndex(d)).year); op('month', 'd', lambda np, d: (models.as_dti(d) if isinstance(d, SymTensor) else pd.DatetimeIndex(d)).month)
op('isin dates', 'd', lambda np, d: (models.as_dti(d) if isinstance(d, SymTensor) else pd.DatetimeIndex(d)).isin(pd.DatetimeIndex(['1990-12-31', '1991-01-01', '1992-06-30'])))
op('timestamps of months', 'd', lambda np, d: (models.as_dti(d) if isinstance(d, SymTensor) else pd.DatetimeIndex(d)).to_period('M').to_timestamp(how='s')); op('isin', 'i', lambda np, a: a.isin([0, 2]) if isinstance(a, SymTensor) else np.isin(a, [0, 2]))


def main():
    load.load()
    seed, bad, n, out = int(sys.argv[1]) if len(sys.argv) > 1 else 1, 0, 0, []
    xp = load._vc_mod(np)
    for name, (use, f, symok) in OPS.items():
        for sym in ([False, True] if symok else [False]):
            for rep in range(2):
                r = random.Random('%s %s %d' % (seed, name, rep))
                A = arrays(r)
                want = f(np, *[A[u].copy() for u in use])
                got = []
                def go(c):
                    tz.setup_registry(c)
                    c.rounds = (2, 5)
                    ts = [lift(c, A[u], sym) for u in use]
                    c.reg.unfold_hints = [z3.IntVal(k) for k in range(5)]
                    got.append(same(c, name, f(xp, *ts), want))
                o = core.explore(go, 40, 60.0)
                n += 1
                msg = [g for g in got if g] or [str(e) for e in o.errors + o.exceptions] or ([] if got else ['nothing computed'])
                if msg:
                    kind = 'disagrees' if any(m[0] == 'D' for m in msg if m in got) else 'undecided'
                    bad += kind == 'disagrees'
                    out.append('%s %s%s: %s' % (kind, name, ' (symbolic lengths)' if sym else '', msg[0].lstrip('DU')[:200]))
    for x in out: print(x)
    print('%d operations, %d runs, %d disagree, %d undecided' % (len(OPS), n, bad, len(out) - bad))
    sys.exit(1 if bad else 0)


if __name__ == '__main__': main()
