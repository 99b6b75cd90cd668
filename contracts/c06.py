"""Aggregation along an axis."""
from vc.api import *
from vc import stubs
AX = {0: 'index', 1: 'columns', 2: 'origin', 3: 'development'}
FN = 'core.pandas.add_triangle_agg_func core.pandas.TrianglePandas._get_axis core.base.TriangleBase._auto_sparse utils.utility_functions.num_to_nan core.triangle.Triangle.copy'


def agg_setup(c, ax, nan=True):
    x = triangle('X', nan=nan)
    for d in x.shape: c.assume(I(d) >= 2)
    lab = (x.kdims, x.vdims, x.odims, x.ddims, x.valuation_date, x.is_cumulative, x.is_pattern, x.key_labels)
    return x, x.values.snap(), lab


def frame(c, x, r, lab, ax, keep=True):
    now = (x.kdims, x.vdims, x.odims, x.ddims, x.valuation_date, x.is_cumulative, x.is_pattern, x.key_labels)
    c.prove('input untouched', And(*[p is q for p, q in zip(now, lab)], not x.values.buf.writes, r is not x))
    c.prove('aggregated axis has length one, others keep theirs', And(*[B(I(a) == (I(1) if n == ax and keep else I(b))) for n, (a, b) in enumerate(zip(r.shape, x.shape))]))
    c.prove('other labels kept', And(*[p is q for n, (p, q) in enumerate(zip((r.kdims, r.vdims, r.odims, r.ddims), lab)) if n != ax]))
    if ax == 3: c.prove('the age axis is labelled with the valuation date', r.ddims.at((I(0),)) == x.valuation_date.at(()))
    if ax == 2: c.prove('the origin axis keeps the first origin', r.odims.at((I(0),)) == x.odims.at((I(0),)))
    c.prove('grain and valuation date kept', And(r.origin_grain == x.origin_grain, r.development_grain == x.development_grain, r.valuation_date is x.valuation_date))


@contract('C06 C04', FN, grid(ax=list(AX), by=['number', 'name']))
def agg_sum(c, ax, by):
    x, src, lab = agg_setup(c, ax)
    with stubs.storage(): r = x.sum(axis=ax if by == 'number' else AX[ax])
    frame(c, x, r, lab, ax)
    ix = list(sym_idx(*x.shape))
    tot = tz.sum_over(x.shape[ax], lambda b: N0(src(tuple(ix[:ax] + [b] + ix[ax + 1:]))))
    e = r.values.at(tuple(I(0) if n == ax else q for n, q in enumerate(ix)))
    c.prove('total of the amounts, missing as zero', And(Not(e.inf), N0(e) == tot))


@contract('C06', FN, grid(ax=list(AX)))
def agg_mean(c, ax):
    x, src, lab = agg_setup(c, ax)
    with stubs.storage(): r = x.mean(axis=ax)
    frame(c, x, r, lab, ax)
    ix = list(sym_idx(*x.shape))
    el = lambda b: src(tuple(ix[:ax] + [b] + ix[ax + 1:]))
    tot = tz.sum_over(x.shape[ax], lambda b: N0(el(b)))
    cnt = tz.sum_over(x.shape[ax], lambda b: If(el(b).nan, ZERO, ONE))
    e = r.values.at(tuple(I(0) if n == ax else q for n, q in enumerate(ix)))
    c.prove('mean of the known amounts', Implies(cnt > 0, And(Not(e.inf), N0(e) * cnt == tot)))


@contract('C06', FN, grid(ax=list(AX), fn=['max', 'min']))
def agg_ext(c, ax, fn):
    x, src, lab = agg_setup(c, ax, nan=False)
    with stubs.storage(): r = getattr(x, fn)(axis=ax)
    frame(c, x, r, lab, ax)
    ix = list(sym_idx(*x.shape))
    e = r.values.at(tuple(I(0) if n == ax else q for n, q in enumerate(ix)))
    b = z3.Int('b')
    c.assume(And(b >= 0, b < I(x.shape[ax])))
    tz.use_extrema([b])
    v = src(tuple(ix[:ax] + [b] + ix[ax + 1:])).v
    c.prove('bound on every amount', And(Not(e.inf), N0(e) >= v if fn == 'max' else N0(e) <= v))


@contract('C06', FN, grid(ax=list(AX)))
def agg_prod(c, ax):
    x, src, lab = agg_setup(c, ax)
    with stubs.storage(): r = x.prod(axis=ax)
    frame(c, x, r, lab, ax)
    ix = list(sym_idx(*x.shape))
    tot = tz.sum_over(x.shape[ax], lambda b: (lambda q: If(q.nan, ONE, q.v))(src(tuple(ix[:ax] + [b] + ix[ax + 1:]))), kind='prod')
    e = r.values.at(tuple(I(0) if n == ax else q for n, q in enumerate(ix)))
    c.prove('product of the known amounts', And(Not(e.inf), N0(e) == tot))


@contract('C06', FN, [{}])
def agg_default_axis(c):
    """without an axis the first axis longer than one is aggregated"""
    x, src, lab = agg_setup(c, 0)
    with stubs.storage(): r, q = x.sum(), x.sum(axis=0)
    ix = sym_idx(*r.shape)
    c.prove('same as aggregating the index', same(r.values.at(ix), q.values.at(ix)))


@contract('C06 C17', 'core.base.TriangleBase._auto_sparse')
def auto_sparse(c):
    """the automatic choice of storage changes no amount or label (set_backend by its contract)"""
    import chainladder as cl
    x = triangle('X')
    v, lab = x.values, dict(x.__dict__)
    calls = []
    def sb(self, backend, inplace=False, deep=False, **k):
        calls.append((self is x, inplace, backend in ('numpy', 'sparse')))
        return self
    with stubs.stub(cl.Triangle, 'set_backend', sb): r = x._auto_sparse()
    c.prove('returns the triangle itself', r is x)
    c.prove('amounts and labels are the same objects', And(x.values is v, not v.buf.writes, *[x.__dict__.get(k) is q for k, q in lab.items()]))
    c.prove('storage is changed only through set_backend in place', all(a and b and d for a, b, d in calls))
