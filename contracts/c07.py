"""Development factors."""
from vc.api import *
from vc import stubs


def array_module():
    import chainladder.utils.weighted_regression as wr
    return wr.np


def regression_data(c, wt=True):
    n = [sym_dim(x) for x in ('K', 'C', 'O', 'n')]
    x = tz.sym_tensor('x', n, 'f')
    y = tz.sym_tensor('y', n, 'f')
    w = tz.sym_tensor('w', n, 'f', inv=lambda i, v: [v.v >= 0])
    return n, x, y, w


def retained(xs, ys, ws):
    """an observation counts when both amounts and its weight are present"""
    return lambda ix: And(Not(xs(ix).nan), Not(ys(ix).nan), Not(ws(ix).nan))


@contract('C07 C08 C23', 'utils.weighted_regression.WeightedRegression.fit utils.weighted_regression.WeightedRegression._fit_OLS_thru_orig')
def regression_through_origin(c):
    """slope = sum w x y / sum w x^2 over the observations present"""
    from chainladder.utils.weighted_regression import WeightedRegression
    n, x, y, w = regression_data(c)
    xs, ys, ws = x.snap(), y.snap(), w.snap()
    c.assume(I(n[2]) >= 2)
    r = WeightedRegression(axis=2, thru_orig=True, xp=array_module()).fit(x, y, w)
    k, m, j = sym_idx(n[0], n[1], n[3])
    here = retained(xs, ys, ws)
    S = lambda f: tz.sum_over(n[2], lambda i: If(here((k, m, i, j)), f(xs((k, m, i, j)).v, ys((k, m, i, j)).v, ws((k, m, i, j)).v), ZERO))
    num, den = S(lambda a, b, q: q * a * b), S(lambda a, b, q: q * a * a)
    s = r.slope_
    c.prove('one slope per index, column and age', And(*[B(I(a) == I(b)) for a, b in zip(s.shape, (n[0], n[1], n[3], 1))]))
    e = s.atf(k, m, j, I(0))
    c.prove('slope', Implies(And(den != 0, num != 0), And(Not(e.nan), Not(e.inf), e.v * den == num)))
    c.prove('no slope without observations', Implies(Or(den == 0, num == 0), e.nan))
    c.prove('inputs untouched', And(not x.buf.writes, not y.buf.writes, not w.buf.writes))


@contract('C07', 'utils.weighted_regression.WeightedRegression._fit_OLS_thru_orig', grid(average=['regression', 'volume', 'simple']))
def average_of_link_ratios(c, average):
    """with weight w/x^e (e = 0, 1, 2) the slope of regression_through_origin is the average of the link ratios y/x
    weighted by x^2, x, 1: between the smallest and largest retained link ratio, and unchanged when all amounts are
    multiplied by a positive number.  Induction over the number of origins."""
    e = {'regression': 0, 'volume': 1, 'simple': 2}[average]
    # one term of the sums w x y and w x x at weight r/x^e and scale u: r q and r q y, q = (u x)^(2-e) > 0
    x, y, r, u = z3.Reals('a b r u')
    w = r / (ONE if e == 0 else u * x if e == 1 else u * x * (u * x))
    q, k = (x * x, u * u) if e == 0 else (x, u) if e == 1 else (ONE, ONE)
    pos = And(x > 0, u > 0)
    c.lemma('weight of a term', Implies(pos, And(w * (u * x) * (u * x) == k * (r * q), k > 0, q > 0)), alone=True)
    c.lemma('numerator of a term', Implies(pos, w * (u * x) * (u * x * y) == k * (r * q * y)), alone=True)
    D_, N_ = [z3.Function(f, z3.IntSort(), z3.RealSort()) for f in ('rq', 'rqy')]     # the terms at u = 1
    n, lo, hi, ss = z3.Int('n'), z3.Real('lo'), z3.Real('hi'), z3.Real('k')
    c.assume(And(n >= 0, ss > 0))
    c.lemma('bounds of a term', Implies(And(r >= 0, q > 0, x > 0, Implies(r > 0, And(lo <= y, y <= hi))),
                                        And(r * q * y >= lo * (r * q), r * q * y <= hi * (r * q))), alone=True)
    c.reg.declare_inv(N_, lambda a: [a >= lo * D_(a.arg(0)), a <= hi * D_(a.arg(0))])
    N = lambda m: tz.sum_over(m, lambda i: N_(i))
    D = lambda m: tz.sum_over(m, lambda i: D_(i))
    Ns = lambda m: tz.sum_over(m, lambda i: ss * N_(i))
    Ds = lambda m: tz.sum_over(m, lambda i: ss * D_(i))
    induct(c, 'not below the smallest ratio', lambda m: N(m) >= lo * D(m), n)
    induct(c, 'not above the largest ratio', lambda m: N(m) <= hi * D(m), n)
    induct(c, 'numerator scales', lambda m: Ns(m) == ss * N(m), n)
    induct(c, 'weights scale', lambda m: Ds(m) == ss * D(m), n)
    dn, nn, ff = z3.Reals('dn nn ff')
    c.lemma('quotient', Implies(And(dn > 0, nn >= lo * dn, nn <= hi * dn, ff == nn / dn), And(lo <= ff, ff <= hi)), alone=True)
    c.lemma('quotient of scaled sums', Implies(And(dn > 0, u > 0), (u * nn) / (u * dn) == nn / dn), alone=True)


def filtered_idx(cap=None):
    """contract of get_idx on filtered positions (contracts c05 iloc_*, valuation_filter): origins and ages without a
    selected cell are dropped; the obligations below speak of cells by their own position"""
    import chainladder.core.slice as sl
    real = sl._LocBase.get_idx
    def get_idx(self, idx):
        if any(getattr(x, 'filter', None) is not None for x in idx if isinstance(x, tz.SymTensor)):
            if cap is not None: cap['idx'] = idx
            return self.obj
        return real(self, idx)
    return stub(sl._LocBase, 'get_idx', get_idx)


@contract('C02 C07', 'core.triangle.Triangle.is_full', assumes=['core.base.TriangleBase.nan_triangle: contract verified in c01'])
def is_full(c):
    """true exactly when no cell is beyond the valuation date: the number of cells beyond it is zero.
    Induction over origins, and over the ages of an origin"""
    import chainladder as cl
    X = triangle('X', cumulative=True)
    O, D = X.shape[2:]
    nt = tz.sym_tensor('nt', (O, D), 'f', inv=lambda i, x: [x.v == 1])
    with stub(cl.Triangle, 'nan_triangle', property(lambda self: nt)): r = X.is_full
    r = r.as_bool_term() if isinstance(r, SymTensor) else B(r)
    # flags adding up to one add up to the number of flags (arbitrary flags; for cells of an origin, then for origins)
    def counts():
        F, G, n, d = z3.Function('F', z3.IntSort(), z3.RealSort()), z3.Function('G', z3.IntSort(), z3.RealSort()), z3.Int('n'), z3.Real('d')
        c.reg.declare_inv(F, lambda a: [a + G(a.arg(0)) == d])
        c.assume(n >= 0)
        induct(c, 'sums add up', lambda m: tz.sum_over(m, lambda i: F(i)) + tz.sum_over(m, lambda i: G(i)) == z3.ToReal(m) * d, n)
    generic(c, counts)
    s = nt.snap()
    cell = lambda i, j: (If(s((i, j)).nan, ONE, ZERO), If(s((i, j)).nan, ZERO, ONE))
    row = lambda i, k: tz.sum_over(D, lambda j: cell(i, j)[k])
    tot = lambda k: tz.sum_over(O, lambda i: row(i, k))
    p, q = sym_idx(O, D)
    c.rounds = (2, 3)
    c.prove('flags of a cell add up to one', sum(cell(p, q)) == 1)
    c.assume(tot(0) + tot(1) == z3.ToReal(z3.simplify(I(D) * I(O))))      # 'sums add up' for cells of an origin (d = 1), then for origins (d = D)
    c.prove('not full only when some cell lies beyond', Implies(Not(r), tot(0) > 0))
    c.reg.unfold_hints = [p]
    c.lemma('an origin with a cell beyond', Implies(row(p, 0) > 0, tot(0) > 0))
    c.reg.unfold_hints = [q]
    c.lemma('a cell beyond', Implies(s((p, q)).nan, row(p, 0) > 0))
    c.reg.unfold_hints = []
    c.prove('not full when a cell lies beyond', Implies(s((p, q)).nan, Not(r)))


def full_stub(c, name='full'):
    """contract of is_full (contract is_full): false only when some cell lies beyond the valuation date; the caller
    uses full.at(cell) for the other direction"""
    import chainladder as cl
    seen = []
    def full(t):
        b = z3.Bool(c.name(name))
        p, q = sym_idx(t.shape[2], t.shape[3])
        v = lambda a, b_: t.valuation.at((FlatIdx(a, b_, I(t.shape[2])),))
        d = t.valuation_date.at(())
        c.assume(Implies(Not(b), v(p, q) > d))
        seen.append((b, v, d, p, q))
        return SymBool(b)
    def at(i, j):
        for b, v, d, p, q in seen: c.assume(Implies(b, v(i, j) <= d))
        return [(p, q) for b, v, d, p, q in seen]
    full.at = at
    return full


@contract('C07 C08 C04', 'core.triangle.Triangle.link_ratio core.triangle.Triangle.is_full core.dunders.TriangleDunders.__mul__ core.dunders.TriangleDunders.__rtruediv__', grid(g=['YY', 'QQ', 'MM', 'YQ', 'SS']),
          assumes=['core.slice._LocBase.get_idx: drops origins and ages with no selected cell (contracts iloc_several_axes, valuation_filter)'])
def link_ratio(c, g):
    """link ratio of a cell = the amount at the next age divided by its own amount, for cells valued before the valuation date"""
    X = triangle('X', og=g[0], dg=g[1], cumulative=True)
    c.assume(And(*[I(d) >= 2 for d in X.shape[:3]], I(X.shape[3]) >= 3))
    c.nonempty = True
    src = X.values.snap()
    lab = (X.kdims, X.vdims, X.odims, X.ddims)
    cap = {}
    import chainladder as cl
    full = full_stub(c)
    with stubs.storage(), filtered_idx(cap), stub(cl.Triangle, 'is_full', property(full)):
        r = X.link_ratio
    k, m, i, j = sym_idx(*r.shape)
    c.reg.unfold_hints = [i, j]
    tz.use_extrema([], [(i, j)] + full.at(i, j))
    c.prove('one age less', And(*[B(I(a) == I(b)) for a, b in zip(r.shape, (X.shape[0], X.shape[1], X.shape[2], SymInt(I(X.shape[3]) - 1)))]))
    x, y, e = src((k, m, i, j)), src((k, m, i, j + 1)), r.values.at((k, m, i, j))
    here = And(vmonth(X, i, j) < X.valuation_date.month_term, Not(x.nan), Not(y.nan), x.v != 0, y.v != 0)
    c.prove('ratio to the next age', Implies(here, And(Not(e.nan), Not(e.inf), e.v * x.v == y.v)))
    c.prove('nothing where an amount is missing or not yet due', Implies(Or(vmonth(X, i, j) > X.valuation_date.month_term, x.nan, y.nan), e.nan))
    c.prove('origin label', r.odims.at((i,)) == X.odims.at((i,)))
    c.prove('labelled with the earlier age', r.ddims.at((j,)) == X.ddims.at((j,)))
    c.prove('a pattern', And(r.is_pattern is True, r.is_cumulative is False))
    c.prove('input untouched', And(not X.values.buf.writes, X.is_pattern is False, X.kdims is lab[0], X.vdims is lab[1], X.odims is lab[2], X.ddims is lab[3]))


def link_stub(X):
    """contract of link_ratio as to labels (contract link_ratio), every age having a ratio that is due"""
    import chainladder as cl
    def lr(t):
        r = t.iloc[..., :-1]
        r.values = tz.sym_tensor(tz.ctx().name('lr'), r.shape, 'f')
        r.is_pattern, r.is_cumulative = True, False
        return r
    return stub(cl.Triangle, 'link_ratio', property(lr))


def weights_stub(c, X, W):
    """the weights of the exclusions (contracts c08): 0 or 1 (or missing) per cell but the last age"""
    import chainladder as cl
    from contextlib import ExitStack
    D = cl.Development
    st = ExitStack()
    def periods(self, X_, n): return W
    def drops(self, X_, lr): return tz.full(tuple(W.shape[2:]), 1)
    st.enter_context(stub(D, '_set_weight_func', lambda self, factor, secondary_rank=None: factor))
    st.enter_context(stub(D, '_assign_n_periods_weight', periods))
    st.enter_context(stub(D, '_drop_adjustment', drops))
    return st


@contract('C07', 'development.development.Development.fit development.development.Development._param_property development.base.DevelopmentBase._set_fit_groups core.common.Common._validate_assumption utils.weighted_regression.WeightedRegression._fit_OLS_thru_orig', grid(g=['YY', 'QQ', 'MM'], average=['volume', 'simple', 'regression'], n_periods=[-1, 1]),
          assumes=['weights: contracts c08', 'sigma_fill: leaves the slopes alone', 'core.triangle.Triangle.link_ratio: contract link_ratio'])
def development_fit(c, g, average, n_periods):
    """development factor = average of the retained link ratios with the weights of the chosen average"""
    import chainladder as cl
    import chainladder.core.slice as sl
    from chainladder.utils.weighted_regression import WeightedRegression
    X = triangle('X', og=g[0], dg=g[1], cumulative=True)
    c.assume(And(*[I(d) >= 2 for d in X.shape[:3]], I(X.shape[3]) >= 3))
    K, C, O, D = X.shape
    c.assume(vmonth(X, I(0), I(0)) < X.valuation_date.month_term)      # some link ratio is due
    c.cell_hints, c.nonempty = [(I(0), I(0))], True
    src = X.values.snap()
    W = tz.sym_tensor('W', (K, C, O, SymInt(z3.simplify(I(D) - 1))), 'f', inv=lambda i, x: [Or(x.v == 0, x.v == 1)])
    ws = W.snap()
    lab = (X.kdims, X.vdims, X.odims, X.ddims)
    with stubs.storage(), filtered_idx(), link_stub(X), weights_stub(c, X, W), stub(WeightedRegression, 'sigma_fill', lambda self, i: self), \
         stub(sl._LocBase, '_contig_slice', stubs.contig_filtered(c, sl._LocBase._contig_slice, some=[I(0)] * 3)):
        m_ = cl.Development(average=average, n_periods=n_periods).fit(X)
    L = m_.ldf_
    k, m, _, j = sym_idx(*L.shape)
    c.prove('one factor per column and age but the last', And(*[B(I(a) == I(b)) for a, b in zip(L.shape, (K, C, 1, SymInt(I(D) - 1)))]))
    x, y, w = [lambda i, s=s, d=d: s((k, m, i, j + d)) for s, d in ((src, 0), (src, 1), (ws, 0))]
    kept = lambda i: And(Not(x(i).nan), Not(y(i).nan), x(i).v != 0, y(i).v != 0, Not(w(i).nan), w(i).v == 1)
    e = {'regression': 2, 'volume': 1, 'simple': 0}[average]
    S = lambda f: tz.sum_over(O, lambda i: If(kept(i), f(x(i).v, y(i).v), ZERO))
    num, den = (S(lambda a, b: a * b), S(lambda a, b: a * a)) if e == 2 else (S(lambda a, b: b), S(lambda a, b: a)) if e == 1 else (S(lambda a, b: b / a), S(lambda a, b: ONE))
    f = L.values.atf(k, m, I(0), j)
    c.prove('factor = weighted average of the retained link ratios', Implies(And(den != 0, num != 0), And(Not(f.nan), Not(f.inf), f.v * den == num)))
    c.prove('no factor without retained link ratios', Implies(den == 0, f.nan))
    c.prove('labelled with the earlier age', L.ddims.at((j,)) == X.ddims.at((j,)))
    c.prove('a pattern', And(L.is_pattern is True, L.is_cumulative is False))
    c.prove('input untouched', And(not X.values.buf.writes, X.is_pattern is False, X.kdims is lab[0], X.vdims is lab[1], X.odims is lab[2], X.ddims is lab[3]))
