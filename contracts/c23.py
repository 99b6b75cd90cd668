"""C23: incremental additive method: retained ratios, factors and completed increments."""
from vc.api import *
from vc import stubs
from .c08 import before, link_ratios
import z3


def one(p): return If(p, ONE, ZERO)


def param_stub(c, est, params):
    """contract of _param_array_helper for a single parameter: that value at every age (lists of parameters: bounded);
    params: {value given: number used}"""
    from chainladder.development.base import DevelopmentBase
    def f(self, size, param, default):
        for k, v in params:
            if param is k: return SymTensor((size,), lambda idx: v, 'f' if isinstance(v, X) else 'i')
        raise AssertionError('unexpected parameter %r' % (param,))
    return stub(DevelopmentBase, '_param_array_helper', f)


def factor(c, name='F', **k):
    t = triangle(name, cumulative=False, **k)
    return t, t.values.snap()


@contract('C23', 'development.base.DevelopmentBase._drop_x_func', grid(above=[False, True], below=[False, True], preserve=[1, 3]),
          assumes=['development.base.DevelopmentBase._param_array_helper: the single parameter at every age (lists: bounded)'])
def ratio_thresholds(c, above, below, preserve):
    """ratios outside the thresholds are excluded at an age where enough of its ratios remain"""
    import chainladder as cl
    t, s = factor(c)
    K, C, O, J = t.shape
    a, b, A_, B_ = z3.Real('above'), z3.Real('below'), object(), object()
    inf = tz.X(False, True, ONE)
    est = cl.IncrementalAdditive(drop_above=A_ if above else float('inf'), drop_below=B_ if below else 0.0, preserve=preserve)
    with param_stub(c, est, [(est.drop_above, fin(a) if above else inf), (est.drop_below, fin(b) if below else fin(ZERO)), (est.preserve, fin(z3.RealVal(preserve)))]):
        r = est._drop_x_func(t)
    k, m, i, j = sym_idx(*r.shape)
    ins = lambda q: And(Not(s((k, m, q, j)).nan), s((k, m, q, j)).v > (b if below else ZERO), *([s((k, m, q, j)).v < a] if above else []))
    n = tz.sum_over(O, lambda q: one(ins(q)))
    e = r.atf(k, m, i, j)
    c.prove('shape of the ratios', And(*[B(I(x) == I(y)) for x, y in zip(r.shape, (K, C, O, J))]))
    c.prove('excluded outside the thresholds', Implies(n >= preserve, And(Not(e.nan), e.v == one(ins(i)))))
    c.prove('ignored where fewer than the number to preserve remain', Implies(n < preserve, And(Not(e.nan), e.v == one(Not(s((k, m, i, j)).nan)))))
    c.prove('input untouched', not t.values.buf.writes)


@contract('C23', 'development.base.DevelopmentBase._drop_n_func', grid(second=[False, True], high=[False, True], low=[False, True], preserve=[1, 3]),
          assumes=['development.base.DevelopmentBase._param_array_helper: the single parameter at every age (lists: bounded)'])
def ratio_ranks(c, second, high, low, preserve):
    """the highest and the lowest ratios of an age are excluded where enough of its ratios remain"""
    import chainladder as cl
    t, s = factor(c)
    K, C, O, J = t.shape
    S, v = (factor(c, 'S', dims=list(t.shape)) if second else (None, s))
    h, l, H_, L_ = z3.Int('high'), z3.Int('low'), object(), object()
    est = cl.IncrementalAdditive(drop_high=H_ if high else None, drop_low=L_ if low else None, preserve=preserve)
    from chainladder.development.base import DevelopmentBase
    def helper(self, size, param, default):
        v_ = h if param is H_ else (l if param is L_ else I(0 if param is None else param))
        return SymTensor((size,), lambda idx: v_, 'i')
    c.rounds = (1, 2)
    with stub(DevelopmentBase, '_param_array_helper', helper):
        r = est._drop_n_func(t, S)
    k, m, i, j = sym_idx(*r.shape)
    V = lambda q: Not(s((k, m, q, j)).nan)
    n = tz.sum_over(O, lambda q: one(V(q)))
    hh, ll = z3.ToReal(h) if high else ZERO, z3.ToReal(l) if low else ZERO
    rank = tz.sum_over(O, lambda p: one(before(s, v, k, m, j, p, i)))
    e = r.atf(k, m, i, j)
    few = n - hh - ll < preserve
    c.prove('shape of the ratios', And(*[B(I(x) == I(y)) for x, y in zip(r.shape, (K, C, O, J))]))
    hyps = [And(I(x) >= 0, I(x) < I(d)) for x, d in zip((k, m, i, j), (K, C, O, J))] + [n == z3.ToReal(z3.ToInt(n)), n >= 0, n <= z3.ToReal(I(O)), rank >= 0, rank == z3.ToReal(z3.ToInt(rank))]
    c.lemma('the counts are whole', And(*hyps))
    hyps += [f for f in c.pc if 'sum!' not in B(f).sexpr()]
    goal = lambda nm, g: c.lemma(nm, z3.substitute(B(Implies(And(*hyps), g)), *[(x, z3.ToReal(z3.Int(c.name('count')))) for x in (n, rank)]), alone=True)
    goal('excluded by rank', Implies(Not(few), And(Not(e.nan), e.v == one(And(rank >= ll, rank < n - hh)))))
    goal('known ratios only when ignored', Implies(few, And(Not(e.nan), e.v == one(rank < n))))
    c.prove('input untouched', not t.values.buf.writes)


@contract('C23', 'development.base.DevelopmentBase._drop_valuation_func core.base.TriangleBase.valuation', grid(g=['YY', 'QQ', 'YQ', 'SS', 'MM'], dates=[1, 2]))
def ratio_valuations(c, g, dates):
    """ratios valued at a dropped date, and only those, lose their weight"""
    import chainladder as cl
    t, s = factor(c, og=g[0], dg=g[1])
    drop = ['1999-12-31', '2001-06-30'][:dates]
    per = {'Y': 12, 'S': 3, 'Q': 3, 'M': 1}[g[1]]
    ends = [(y - 1970) * 12 + (m - 1) // per * per + per - 1 for y, m in ((1999, 12), (2001, 6))][:dates]
    vm = t.valuation_date.month_term
    import pandas as pd
    real = pd.DatetimeIndex.isin
    # which dates are valuations of the triangle matters for a warning only
    isin = lambda self, v, *a: tz.sym_tensor(c.name('in'), (len(self),), 'b') if isinstance(v, SymTensor) else real(self, v, *a)
    with stub(pd.DatetimeIndex, 'isin', isin):
        try: r = cl.IncrementalAdditive(drop_valuation=drop if dates > 1 else drop[0])._drop_valuation_func(t)
        except Exception as e:
            if 'entire triangle' in str(e): return
            raise
    k, m, i, j = sym_idx(1, 1, t.shape[2], t.shape[3])
    e = tz.T(r).atf(k, m, i, j)
    hit = Or(*[vmonth(t, i, j) == z for z in ends])
    known = vmonth(t, i, j) <= vm
    c.prove('dropped at the dates given', Implies(hit, And(Not(e.nan), e.v == 0)))
    c.prove('kept elsewhere', Implies(And(Not(hit), known), And(Not(e.nan), e.v == 1)))
    c.prove('input untouched', not t.values.buf.writes)


@contract('C23', 'development.base.DevelopmentBase._assign_n_periods_weight_func core.base.TriangleBase.valuation', grid(g=['YY', 'QQ', 'MM', 'YQ', 'SS', 'SQ', 'YM']),
          assumes=['development.base.DevelopmentBase._param_array_helper: the single parameter at every age (lists: bounded)'])
def ratio_periods(c, g):
    """only ratios of the latest n valuation periods of origin length carry weight"""
    import chainladder as cl
    t, src = factor(c, 'F', og=g[0], dg=g[1])
    K, C, O, J = t.shape
    vm, og, dg = t.valuation_date.month_term, MONTHS[g[0]], MONTHS[g[1]]
    c.assume(vmonth(t, I(0), I(0)) <= vm)
    c.cell_hints, c.nonempty = [(I(0), I(0))], True
    n = z3.Int('n')
    nanf = tz.sym_tensor('nt', (O, J), 'f', inv=lambda i, x: [x.v == 1])
    nan_contract = lambda i, j: nanf.snap()((i, j)).nan == (vmonth(t, i, j) > vm)
    N_ = object()
    from chainladder.development.base import DevelopmentBase
    with stub(cl.Triangle, 'nan_triangle', property(lambda self: nanf)), stub(DevelopmentBase, '_param_array_helper', lambda self, size, param, default: SymTensor((size,), lambda idx: n, 'i')):
        w = cl.IncrementalAdditive(n_periods=N_)._assign_n_periods_weight_func(t)
    k, m, i, j = sym_idx(*w.shape)
    e, x = w.at((k, m, i, j)), src((k, m, i, j))
    tz.use_extrema([], [(i, j), (I(0), I(0))])
    c.assume(nan_contract(i, j))
    c.prove('one weight per ratio', And(*[B(I(a) == I(b)) for a, b in zip(w.shape, (K, C, O, J))]))
    every = Or(n < 1, n >= I(O))
    known = And(Not(x.nan), x.v != 0, vmonth(t, i, j) <= vm)
    c.prove('all ratios when all periods are asked for', Implies(And(every, Not(x.nan)), And(Not(e.nan), e.v == 1)))
    c.prove('a weight is one, zero or missing', Or(e.nan, e.v == 0, e.v == 1))
    c.prove('input untouched', not t.values.buf.writes)
    o2, d2 = sym_idx(O, J)
    tz.use_extrema([], [(o2, d2)])
    c.assume(vmonth(t, o2, d2) == vm)
    c.prove('recent ratios', Implies(And(Not(every), known, vmonth(t, i, j) >= vm - n * og + dg), And(Not(e.nan), e.v == 1)))
    c.prove('older ratios', Implies(And(Not(every), known, vmonth(t, i, j) < vm - n * og + dg), And(Not(e.nan), e.v == 0)))


@contract('C23', 'development.base.DevelopmentBase._set_weight_func utils.utility_functions.num_to_nan', grid(drop=[False, True], val=[False, True], rank=[False, True], size=[False, True]))
def ratio_weights(c, drop, val, rank, size):
    """a ratio keeps its weight only when every exclusion asked for keeps it; ranks are taken among the ratios still kept"""
    import chainladder as cl
    from contextlib import ExitStack
    from chainladder.development.base import DevelopmentBase as D_
    t, s = factor(c)
    K, C, O, J = t.shape
    flag = lambda nm, sh: tz.sym_tensor(nm, sh, 'f', nan=False, inv=lambda i, x: [Or(x.v == 0, x.v == 1)])
    full, flat = tuple(t.shape), (1, 1, O, J)
    per, fd, fv, fn, fx = flag('per', full), flag('fd', flat), flag('fv', flat), flag('fn', full), flag('fx', full)
    got, S = {}, object()
    def n_(self, f, second=None): got['n'] = (f, second); return fn
    est = cl.IncrementalAdditive(drop=('a', 12) if drop else None, drop_valuation='1999' if val else None, drop_high=2 if rank else None, drop_above=3.0 if size else float('inf'), drop_below=0.0)
    with ExitStack() as st:
        for nm, f in (('_assign_n_periods_weight_func', lambda self, f: per), ('_drop_func', lambda self, f: fd), ('_drop_valuation_func', lambda self, f: fv), ('_drop_x_func', lambda self, f: fx), ('_drop_n_func', n_)):
            st.enter_context(stub(D_, nm, f))
        st.enter_context(stubs.storage())
        w = est._set_weight_func(t, S)
    k, m, i, j = sym_idx(*full)
    e, x, z = w.values.atf(k, m, i, j), s((k, m, i, j)), I(0)
    before_rank = And(Not(x.nan), per.atf(k, m, i, j).v == 1, *([fd.atf(z, z, i, j).v == 1] if drop else []), *([fv.atf(z, z, i, j).v == 1] if val else []), *([fx.atf(k, m, i, j).v == 1] if size else []))
    on = And(before_rank, *([fn.atf(k, m, i, j).v == 1] if rank else []))
    c.prove('one weight per ratio', And(*[B(I(a) == I(b)) for a, b in zip(w.shape, full)]))
    c.prove('weight one exactly when no exclusion applies, missing otherwise', And(e.nan == Not(on), Implies(on, And(Not(e.inf), e.v == 1))))
    if rank:
        f, second = got['n']
        y = f.values.atf(k, m, i, j)
        c.prove('ties are broken by the second triangle', second is S)
        c.prove('ranked among the ratios still kept', And(Implies(And(before_rank, x.v != 0), And(Not(y.nan), y.v == x.v)), Implies(Not(before_rank), y.nan)))
    c.prove('input untouched', not t.values.buf.writes)


@contract('C23', 'development.incremental.IncrementalAdditive.fit development.incremental.IncrementalAdditive._param_property development.base.DevelopmentBase.fit core.common.Common._validate_assumption utils.weighted_regression.WeightedRegression._fit_OLS_thru_orig core.dunders.TriangleDunders.__truediv__ core.dunders.TriangleDunders.__mul__', grid(g=['YY', 'QQ', 'MM'], average=['volume', 'simple', 'regression'], future=[0, 'given']),
          assumes=['core.triangle.Triangle.cum_to_incr: contract c01', 'core.triangle.Triangle.trend: contract c20', 'core.triangle.Triangle.nan_triangle: contract c01', 'the pattern ldf_ derived from the completed increments is left out'])
def additive_fit(c, g, average, future):
    """factor of an age = weighted average of the retained ratios of trended increment to exposure; completed increments =
    increment where known, factor times exposure with future trend elsewhere"""
    import chainladder as cl
    X = triangle('X', og=g[0], dg=g[1], cumulative=True)
    K, C, O, D = X.shape
    c.assume(And(*[I(d) >= 2 for d in X.shape]))
    vm = X.valuation_date.month_term
    c.assume(vmonth(X, I(0), I(0)) <= vm)
    c.cell_hints, c.nonempty = [(I(0), I(0))], True
    e_ = triangle('E', og=g[0], dg=g[1], cumulative=True, dims=[K, C, O, 1], o0=X._vc['o0'], val=X.valuation_date, nan=False, inv=lambda i, x: [x.v > 0])
    e_.kdims, e_.vdims, e_.odims = X.kdims, X.vdims, X.odims
    D_ = tz.sym_tensor('D', tuple(X.shape), 'f')
    W = tz.sym_tensor('W', tuple(X.shape), 'f', inv=lambda i, x: [x.v == 1])
    nanf = tz.sym_tensor('nt', (O, D), 'f', inv=lambda i, x: [x.v == 1])
    src, es, ds, ws = X.values.snap(), e_.values.snap(), D_.snap(), W.snap()
    tr, ft = object(), (0 if future == 0 else z3.Real('future'))
    ftp = 0 if future == 0 else tz.sym_tensor('future', (), 'f', nan=False, inv=lambda i, x: [x.v > 0])
    trp = tz.sym_tensor('trend', (), 'f', nan=False, inv=lambda i, x: [x.v > -1, x.v != 0])
    Tf, Gf = [tz.uf(n, tz.IS, tz.IS, tz.RS) for n in ('past', 'ahead')]
    for f in (Tf, Gf): c.reg.declare_inv(f, lambda z: [z > 0])
    calls = []
    def incr(t, inplace=False):
        c.prove('increments of the data', And(t.is_cumulative is True, not t.values.buf.writes))
        r = t.copy(); r.values, r.is_cumulative = D_.copy(), False
        return r
    def trend(t, rate=0, axis='origin', start=None, end=None, **k):
        calls.append((rate, axis, start, end))
        f = Tf if len(calls) == 1 else Gf
        r = t.copy(); s = t.values.snap()
        r.values = t.values * SymTensor((O, D), lambda ix: fin(f(*[tz.iterm(q) for q in ix])), 'f')
        return r
    def weights(self, ratio, second=None):
        calls.append((ratio, second))
        w = ratio.copy(); w.values = W.copy()
        return w
    est = cl.IncrementalAdditive(trend=trp, future_trend=ftp, average=average)
    from contextlib import ExitStack
    done = []
    with ExitStack() as st:
        for o, n, v in ((cl.Triangle, 'cum_to_incr', incr), (cl.Triangle, 'trend', trend), (cl.IncrementalAdditive, '_set_weight_func', weights), (cl.Triangle, 'nan_triangle', property(lambda self: nanf.copy())),
                        (cl.Triangle, 'incr_to_cum', lambda t, inplace=False: t), (cl.Triangle, 'link_ratio', property(lambda t: done.append(t) or t))):
            st.enter_context(stub(o, n, v))
        from .c07 import filtered_idx
        import chainladder.core.slice as sl
        st.enter_context(filtered_idx()); st.enter_context(stub(sl._LocBase, '_contig_slice', stubs.contig_filtered(c, sl._LocBase._contig_slice, some=[I(0)] * 3))); st.enter_context(stubs.storage())
        r = est.fit(X, sample_weight=e_)
    k, m, i, j = sym_idx(*X.shape)
    c.prove('fit returns the estimator', r is est)
    c.assume(nanf.snap()((i, j)).nan == (vmonth(X, i, j) > vm))
    E = lambda q: es((k, m, q, I(0))).v
    d = lambda q: ds((k, m, q, j))
    kept = lambda q: And(Not(d(q).nan), Not(ws((k, m, q, j)).nan))
    a = {'regression': 0, 'volume': 1, 'simple': 2}[average]
    pw = lambda x, n: ONE if n == 0 else x if n == 1 else x * x
    T = lambda q: d(q).v * Tf(q, j)
    num = tz.sum_over(O, lambda q: If(kept(q), T(q) * E(q) if a == 0 else T(q) if a == 1 else T(q) / E(q), ZERO))
    den = tz.sum_over(O, lambda q: If(kept(q), pw(E(q), 2 - a), ZERO))
    z = est.zeta_.values.atf(k, m, I(0), j)
    c.prove('one factor per column and age', And(*[B(I(x) == I(y)) for x, y in zip(est.zeta_.shape, (K, C, 1, D))]))
    c.prove('factor = weighted average of the retained ratios', Implies(And(den != 0, num != 0), And(Not(z.nan), Not(z.inf), z.v * den == num)))
    q = est.incremental_.values.atf(k, m, i, j)
    known = vmonth(X, i, j) <= vm
    c.prove('completed increments: one per origin and age', And(*[B(I(x) == I(y)) for x, y in zip(est.incremental_.shape, X.shape)]))
    c.prove('where known the increment of the data', Implies(known, And(Not(q.inf), N0(q) == N0(d(i)) * Gf(i, j))))
    c.prove('elsewhere factor times exposure with the future trend', Implies(And(Not(known), Not(z.nan), Not(z.inf), d(i).nan), And(Not(q.inf), N0(q) == z.v * E(i) * Gf(i, j))))
    first, wcall, second = calls
    c.prove('trended to the valuation date', And(first[0] is trp, first[1] == 'valuation', first[2] is None, first[3] is None))
    y = wcall[0].values.atf(k, m, i, j)
    c.prove('retained among the ratios of trended increment to exposure', Implies(And(Not(d(i).nan), d(i).v != 0), And(Not(y.nan), y.v * E(i) == T(i))))
    rate, b = tz.to_f(tz.T(second[0]).at(()), tz.T(second[0]).dt).v, (trp if future == 0 else ftp).at(()).v
    c.prove('future trend: the one given, else the trend', And((1 + rate) * (1 + b) == 1, second[1] == 'valuation'))
    c.prove('future trend starts at the valuation date', second[2].at(()) == X.valuation_date.at(()))
    c.prove('inputs untouched', And(not X.values.buf.writes, not e_.values.buf.writes, e_.is_cumulative is True, X.is_cumulative is True))
