"""Cape Cod apriori."""
from vc.api import *
from vc import stubs
from .c09 import stub_cdf
from .c10 import case, sorted_index, ASSUME


def trended(c, X, kind):
    """contract of CapeCod._trend: a positive factor for each origin (1 column per data column)"""
    return tz.sym_tensor('T', (1, X.shape[1], X.shape[2], 1), 'f', nan=False, inv=lambda i, x: [x.v > 0])


def exposed(c, X, jd, w):
    """no zero exposure and no origin whose amount is exactly minus its exposure"""
    src = X.values.snap()
    w.values = tz.sym_tensor('W.values+', w.shape, 'f', nan=False, inv=lambda ix, x: [x.v > 0, N0(src((ix[0], ix[1], ix[2], jd(ix[2])))) + x.v != 0])


def align_stub(X, jd, cdf, w):
    """contract of _align_cdf (verified: align_cdf): the factor to ultimate of each origin's age"""
    import chainladder as cl, copy
    from vc.models import as_dti
    f = cdf.values.snap()
    def align(self, X_, sample_weight=None):
        if sample_weight is not w: raise OutOfSubset('another exposure')
        k = z3.Int(tz.ctx().name('al'))
        tz.ctx().prove('precondition of _align_cdf: the data', And(B(same(X_.values.atf(*[k] * 4), X.values.atf(*[k] * 4))), X_.ldf_ is X.ldf_ or X_.ldf_.values.buf is X.ldf_.values.buf))
        r = copy.deepcopy(X_)
        r.values = SymTensor(tuple(X.shape[:3]) + (1,), lambda ix: f((ix[0], ix[1], I(0), jd(ix[2]))), 'f')
        r.ddims = as_dti(tz.expand_dims(tz.T(X.valuation_date), 0))
        r.is_pattern = False
        r._set_slicers()
        return r
    return stub(cl.CapeCod, '_align_cdf', align)


@contract('C09 C10 C11', 'methods.base.MethodBase._align_cdf core.common.Common.cdf_ core.triangle.Triangle.nan_triangle core.dunders.TriangleDunders.__mul__ core.dunders.TriangleDunders.__add__', grid(g=['YY', 'QQ', 'MM'], K=['K', '1'], extra=[0, 1], weight=['none', 'given']), assumes=ASSUME)
def align_cdf(c, g, K, extra, weight):
    """the factor to ultimate at the age each origin has reached"""
    import chainladder as cl
    X, l, jd, cdf, w = case(c, g, K, K, extra=extra)
    exposed(c, X, jd, w)
    src, f, ws = X.values.snap(), cdf.values.snap(), w.values.snap()
    with stubs.latest_stub(X), stub_cdf(l, cdf), sorted_index():
        r = cl.CapeCod()._align_cdf(X, w) if weight == 'given' else cl.CapeCod()._align_cdf(X)
    k, m, i = sym_idx(*X.shape[:3])
    c.prove('one factor per origin', And(*[B(I(x) == I(y)) for x, y in zip(r.shape, tuple(X.shape[:3]) + (1,))]))
    e, a = r.values.atf(k, m, i, I(0)), src((k, m, i, jd(i)))
    F = f((k, m, I(0), jd(i))).v
    if weight == 'given': c.prove('factor of the age reached', And(Not(e.nan), Not(e.inf), e.v == F))
    else: c.prove('factor of the age reached', And(Not(e.inf), N0(e) == If(N0(a) == 0, ZERO, F)))
    c.prove('labels', And(r.odims.at((i,)) == X.odims.at((i,)), r.ddims.at((I(0),)) == X.valuation_date.at(()), r.valuation_date.at(()) == X.valuation_date.at(())))
    c.prove('inputs untouched', And(not X.values.buf.writes, not w.values.buf.writes, not l.values.buf.writes, X.ldf_ is l))


@contract('C11', 'methods.capecod.CapeCod._get_capecod_aprioris methods.capecod.CapeCod._onlevel methods.base.MethodBase._set_ult_attr', grid(g=['YY', 'QQ', 'MM'], K=['K', '1'], extra=[0, 1], decay=['free', 'one'], olf=['none', 'both']),
          assumes=ASSUME[:1] + ASSUME[2:] + ['methods.base.MethodBase._align_cdf: contract align_cdf', 'methods.capecod.CapeCod._trend: one positive factor per column and origin (contract trend_factor)'])
def capecod_apriori(c, g, K, extra, decay, olf):
    """apriori of origin i = sum_j w_ij * trended ultimate loss ratio_j / sum_j w_ij with
    w_ij = exposure_j / cdf_j * decay^|i-j|; detrended = apriori / trend / on-level"""
    import chainladder as cl
    X, l, jd, cdf, w0 = case(c, g, K, K, extra=extra)
    src = X.values.snap()
    exposed(c, X, jd, w0)
    f, ws = cdf.values.snap(), w0.values.snap()
    T = trended(c, X, None)
    if olf == 'both':
        for t, nm in ((X, 'oX'), (w0, 'oW')):
            o_ = triangle(nm, og=g[0], dg=g[1], cumulative=True, dims=[1, X.shape[1], X.shape[2], 1], o0=X._vc['o0'], nan=False, inv=lambda i, x: [x.v > 0])
            t.olf_ = o_
        oX, oW = X.olf_.values.snap(), w0.olf_.values.snap()
    d = tz.sym_tensor('decay', (), 'f', nan=False, inv=lambda i, x: [x.v > 0, x.v <= 1]) if decay == 'free' else 1
    o = cl.CapeCod(decay=d)
    k, m, i = sym_idx(*X.shape[:3])
    c.reg.unfold_hints = [i]
    with stubs.latest_stub(X), align_stub(X, jd, cdf, w0), sorted_index(), stub(cl.CapeCod, '_trend', lambda self, X_: T):
        a, b = o._get_capecod_aprioris(X, w0)
    c.prove('one apriori per origin', And(*[B(I(x) == I(y)) for t in (a, b) for x, y in zip(t.shape, tuple(X.shape[:3]) + (1,))]))
    re = lambda j: ws((k, m, j, I(0))).v / f((k, m, I(0), jd(j))).v
    one = lambda t, j: t((I(0), m, j, I(0))).v if olf == 'both' else ONE
    oX, oW = (oX, oW) if olf == 'both' else (None, None)
    tv = T.snap()
    dec = lambda j: tz.xpow(d.atf(), tz.iabs(i - j), 'i').v if decay == 'free' else ONE
    wt = lambda j: re(j) * dec(j)
    lr = lambda j: N0(src((k, m, j, jd(j)))) * tv((I(0), m, j, I(0))).v * one(oX, j) / (re(j) * one(oW, j))
    n = I(X.shape[2])
    den, num = tz.sum_over(n, wt), tz.sum_over(n, lambda j: wt(j) * lr(j))
    e, h = a.values.atf(k, m, i, I(0)), b.values.atf(k, m, i, I(0))
    c.lemma('own weight positive', wt(i) > 0)
    c.lemma('weights add up to a positive number', den > 0)
    c.prove('finite', And(Not(e.inf), Not(e.nan)))
    c.prove('apriori is the weighted average of the trended loss ratios', e.v * den == num)
    c.prove('detrended apriori removes the trend and on-level of the origin', And(Not(h.inf), N0(h) * tv((I(0), m, i, I(0))).v * one(oX, i) == e.v * one(oW, i)))
    c.prove('origin labels', And(a.odims.at((i,)) == X.odims.at((i,)), b.odims.at((i,)) == X.odims.at((i,))))
    c.prove('inputs untouched', And(not X.values.buf.writes, not w0.values.buf.writes, not l.values.buf.writes, X.ldf_ is l))


@contract('C11', 'methods.capecod.CapeCod._trend core.triangle.Triangle.trend', grid(g=['YY', 'QQ', 'MM'], given=['rate', 'property']), assumes=ASSUME[:1])
def trend_factor(c, g, given):
    """the factor of an origin: (1 + trend)^(years from the origin's end to the valuation date), or the trend
    factors the data carries"""
    import chainladder as cl
    X, l, jd, cdf, w = case(c, g, 'K')
    k, m, i = sym_idx(1, X.shape[1], X.shape[2])
    t = tz.sym_tensor('trend', (), 'f', nan=False, inv=lambda i, x: [x.v > -1, x.v != 0])
    o = cl.CapeCod(trend=t)
    Y = X.iloc[0] * 0 + 1
    if given == 'property':
        P = triangle('P', og=g[0], dg=g[1], cumulative=True, dims=[1, X.shape[1], X.shape[2], X.shape[3]], o0=X._vc['o0'], d0=X._vc['d0'], val=X.valuation_date, nan=False)
        Y.trend_ = P
        ps = P.values.snap()
    with stubs.latest_stub(X): f = o._trend(Y)
    x = tz.T(f).atf(k, m, i, I(0))
    if given == 'property': c.prove('the factors carried by the data', And(Not(x.inf), N0(x) == N0(ps((k, m, i, jd(i))))))
    else:
        v, vm = X._vc, X.valuation_date.month_term
        end = v['o0'] + v['og'] * (i + 1) - 1
        fac = tz.xpow(fin(1 + t.atf().v), fin(z3.ToReal(vm - If(end > vm, vm, end)) / 12), 'f').v
        c.prove('compounded over the years to the valuation date', And(Not(x.nan), Not(x.inf), x.v == fac))
        c.prove('positive', x.v > 0)
    c.prove('inputs untouched', And(not X.values.buf.writes, o.trend is t))


@contract('C11', 'methods.capecod.CapeCod.fit methods.benktander.Benktander.fit methods.benktander.Benktander._get_benktander_aprioris methods.benktander.Benktander._get_ultimate', grid(g=['YY', 'QQ', 'MM'], K=['K', '1'], n=['one', 'free']),
          assumes=ASSUME + ['methods.capecod.CapeCod._get_capecod_aprioris: one apriori per index, column and origin (contract capecod_apriori)'])
def capecod_ultimate(c, g, K, n):
    """the Benktander recursion started at exposure times the detrended apriori"""
    import chainladder as cl
    from .c09 import ult_of
    from .c10 import power
    X, l, jd, cdf, w = case(c, g, K, K)
    exposed(c, X, jd, w)
    d = ult_of(c, X, 'detrended'); d.values = tz.sym_tensor('detrended.values', d.shape, 'f', nan=False)
    a_ = ult_of(c, X, 'apriori')
    d.kdims = a_.kdims = w.kdims
    src, f, ws, ds = X.values.snap(), cdf.values.snap(), w.values.snap(), d.values.snap()
    k, m, i = sym_idx(*X.shape[:3])
    if n == 'free':
        N = z3.Int('n_iters')
        c.assume(And(N >= 2, N <= 1000))
        o = cl.CapeCod(n_iters=mkint(N))
    else:
        N = z3.IntVal(1)
        o = cl.CapeCod()
    F = f((k, m, I(0), jd(i))).v
    a, e = src((k, m, i, jd(i))), ws((k, m, i, I(0))).v * ds((k, m, i, I(0))).v
    c.assume(1 - 1 / F + R(1e-16) != 0)
    c.assume(N0(a) + e != 0)
    got = []
    with stubs.latest_stub(X), stub_cdf(l, cdf), sorted_index(), stub(cl.CapeCod, '_get_capecod_aprioris', lambda self, x, y: (got.append((x, y)), (a_, d))[1]):
        o.fit(X, sample_weight=w)
    c.prove('apriori from the data and the exposure', And(len(got) == 1, same(got[0][0].values.at((k, m, i, jd(i))), a), same(got[0][1].values.at((k, m, i, I(0))), ws((k, m, i, I(0)))), o.apriori_ is a_, o.detrended_apriori_ is d))
    c.prove('no scaling of the apriori', And(o.apriori == 1, o.ldf_ is l))
    r = o.ultimate_.values.atf(k, m, i, I(0))
    pw = power(F)
    S = tz.sum_over(N, lambda b: pw(b))
    c.prove('finite', Not(r.inf))
    c.prove('ultimate = latest * (1 + q + ... + q^(n-1)) + exposure * detrended apriori * q^n', N0(r) == S * N0(a) + pw(N) * e)
    c.prove('inputs untouched', And(not X.values.buf.writes, not l.values.buf.writes, not w.values.buf.writes, X.ldf_ is l))
