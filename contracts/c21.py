"""Predicting with a fitted model: the ultimate of the new triangle from the fitted factors (the closed form the fit
itself is proved to have), and independence of rows and columns."""
from vc.api import *
from vc import stubs
from .c09 import fitted, pattern_cdf, stub_cdf, ult_of
from .c10 import case, sorted_index, power, ASSUME, EPS


def same_index():
    """contract of MethodBase.intersection on triangles with the same index in the same order: both as they are
    (with single rows this is the code's own first branch, which is executed)"""
    import chainladder as cl
    from chainladder.methods.base import MethodBase
    real = MethodBase.__dict__['intersection']
    def f(self, a, b):
        if tz.ival(I(a.shape[0])) == 1 and tz.ival(I(b.shape[0])) == 1: return real(self, a, b)
        tz.ctx().prove('precondition of intersection: same index', a.kdims is b.kdims)
        return a, b
    return stub(MethodBase, 'intersection', f)


def model(c, o, X, l):
    """a fitted estimator: X_ is the data it was fitted to, carrying the factors"""
    o.X_ = X
    return o


def new_data(c, X, K, which):
    """the triangle predicted on: the training triangle as the user holds it (no factors attached), or another on
    the same origins and ages"""
    import copy
    if which == 'training':
        Y = copy.deepcopy(X)
        del Y.ldf_
        Y.values, Y.kdims, Y.vdims, Y.odims, Y.ddims = X.values, X.kdims, X.vdims, X.odims, X.ddims
        Y._vc = X._vc
        return Y
    Y = triangle('N', og=X.origin_grain, dg=X.development_grain, cumulative=True, dims=list(X.shape), o0=X._vc['o0'], d0=X._vc['d0'], val=X.valuation_date)
    Y.kdims, Y.vdims = X.kdims, X.vdims
    return Y


def ages_covered(c, X, l):
    top = l.ddims.max()
    tz.use_extrema([I(l.shape[3]) - 1])
    c.lemma('no age beyond the model', (X.ddims > top).sum().at(()) == 0)


AS = ASSUME + ['methods.base.MethodBase.intersection: operands as they are when they have the same index (several rows)']


@contract('C21 C09', 'methods.base.MethodBase.predict methods.base.MethodBase.intersection methods.base.MethodBase.validate_weight methods.base.MethodBase.ldf_ methods.chainladder.Chainladder.predict methods.chainladder.Chainladder._get_ultimate methods.base.MethodBase._align_cdf methods.base.MethodBase._set_ult_attr',
          grid(g=['YY', 'QQ', 'MM'], K=['K', '1'], on=['training', 'new']), assumes=AS)
def predict_chainladder(c, g, K, on):
    """ultimate of the new triangle = its latest amount times the fitted factor to ultimate of its age"""
    import chainladder as cl
    X, l, jd = fitted(c, g[0], g[1], K)
    cdf = pattern_cdf(l)
    ages_covered(c, X, l)
    Y = new_data(c, X, K, on)
    src, f = Y.values.snap(), cdf.values.snap()
    o = model(c, cl.Chainladder(), X, l)
    with stubs.latest_stub(X), stub_cdf(l, cdf), same_index(): r = o.predict(Y)
    u = r.ultimate_
    k, m, i = sym_idx(*X.shape[:3])
    c.prove('one ultimate per origin', And(*[B(I(a) == I(b)) for a, b in zip(u.shape, tuple(X.shape[:3]) + (1,))]))
    e, a = u.values.atf(k, m, i, I(0)), src((k, m, i, jd(i)))
    c.prove('the ultimate fitting gives: latest amount times factor to ultimate', Implies(And(Not(a.nan), a.v != 0), And(Not(e.inf), Not(e.nan), e.v == a.v * f((k, m, I(0), jd(i))).v)))
    c.prove('nothing from nothing', Implies(N0(a) == 0, N0(e) == 0))
    c.prove('labels', And(u.odims.at((i,)) == Y.odims.at((i,)), *[x.kdims.at((k, I(0))) == Y.kdims.at((k, I(0))) for x in (r, u)], *[x.vdims.at((m,)) == Y.vdims.at((m,)) for x in (r, u)]))
    c.prove('the data predicted on', N0(r.values.at((k, m, i, jd(i)))) == N0(a))
    c.prove('the fitted factors', r.ldf_ is l)
    c.prove('inputs untouched', And(not Y.values.buf.writes, not X.values.buf.writes, not l.values.buf.writes, o.X_ is X, X.ldf_ is l, not hasattr(Y, 'ldf_'), not hasattr(Y, 'ultimate_')))


@contract('C21 C10', 'methods.base.MethodBase.predict methods.base.MethodBase.intersection methods.base.MethodBase.validate_weight methods.benktander.Benktander.predict methods.benktander.Benktander._get_benktander_aprioris methods.benktander.Benktander._get_ultimate methods.base.MethodBase._align_cdf methods.base.MethodBase._set_ult_attr methods.bornferg.BornhuetterFerguson methods.expectedloss.ExpectedLoss',
          grid(est=['ExpectedLoss', 'BornhuetterFerguson', 'Benktander'], g=['YY', 'QQ', 'MM'], K=['K', '1'], on=['training', 'new']), assumes=AS)
def predict_expected(c, est, g, K, on):
    """ultimate of the new triangle by the recursion the fit uses, from the new amounts and exposure"""
    import chainladder as cl
    X, l, jd, cdf, w = case(c, g, K, K)
    ages_covered(c, X, l)
    Y = new_data(c, X, K, on)
    src, f, ws = Y.values.snap(), cdf.values.snap(), w.values.snap()
    k, m, i = sym_idx(*X.shape[:3])
    ap = tz.sym_tensor('apriori', (), 'f', nan=False)
    if est == 'Benktander':
        N = z3.Int('n_iters')
        c.assume(And(N >= 2, N <= 1000))
        o = cl.Benktander(apriori=ap, n_iters=mkint(N))
    else:
        N = z3.IntVal(0 if est == 'ExpectedLoss' else 1)
        o = getattr(cl, est)(apriori=ap)
        o.n_iters = 0 if est == 'ExpectedLoss' else 1       # as fit leaves it (expected_methods: number of iterations)
    model(c, o, X, l)
    F = f((k, m, I(0), jd(i))).v
    a, e = src((k, m, i, jd(i))), ws((k, m, i, I(0))).v * ap.at(()).v
    c.assume(1 - 1 / F + EPS != 0)
    c.assume(N0(a) + e != 0)
    with stubs.latest_stub(X), stub_cdf(l, cdf), sorted_index(), same_index(): r_ = o.predict(Y, sample_weight=w)
    u = r_.ultimate_
    r = u.values.atf(k, m, i, I(0))
    pw = power(F)
    S = tz.sum_over(N, lambda b: pw(b))
    c.prove('one ultimate per origin', And(*[B(I(x) == I(y)) for x, y in zip(u.shape, tuple(X.shape[:3]) + (1,))]))
    c.prove('finite', Not(r.inf))
    c.prove('the ultimate fitting gives: latest * (1 + q + ... + q^(n-1)) + expectation * q^n', N0(r) == S * N0(a) + pw(N) * e)
    c.prove('labels', And(u.odims.at((i,)) == Y.odims.at((i,)), *[x.kdims.at((k, I(0))) == Y.kdims.at((k, I(0))) for x in (r_, u)]))
    c.prove('expectation', And(same(r_.expectation_.values.atf(k, m, i, I(0)), fin(e))))
    c.prove('inputs untouched', And(not Y.values.buf.writes, not X.values.buf.writes, not l.values.buf.writes, not w.values.buf.writes, o.X_ is X, X.ldf_ is l, w.is_cumulative is True, not hasattr(Y, 'ldf_'), not hasattr(Y, 'ultimate_')))


@contract('C21 C11', 'methods.capecod.CapeCod.predict methods.base.MethodBase.predict methods.base.MethodBase.intersection methods.benktander.Benktander.predict methods.benktander.Benktander._get_ultimate methods.base.MethodBase._align_cdf',
          grid(g=['YY', 'QQ', 'MM'], K=['K', '1'], on=['training', 'new']), assumes=AS + ['methods.capecod.CapeCod._get_capecod_aprioris: one apriori per index, column and origin (contract capecod_apriori)'])
def predict_capecod(c, g, K, on):
    """apriori of the new data and exposure from the fitted factors, ultimate by Bornhuetter-Ferguson on it"""
    import chainladder as cl
    X, l, jd, cdf, w = case(c, g, K, K)
    from .c11 import exposed
    exposed(c, X, jd, w)
    ages_covered(c, X, l)
    Y = new_data(c, X, K, on)
    d = ult_of(c, X, 'detrended'); d.values = tz.sym_tensor('detrended.values', d.shape, 'f', nan=False)
    a_ = ult_of(c, X, 'apriori')
    d.kdims = a_.kdims = w.kdims
    src, f, ws, ds = Y.values.snap(), cdf.values.snap(), w.values.snap(), d.values.snap()
    k, m, i = sym_idx(*X.shape[:3])
    o = model(c, cl.CapeCod(n_iters=1), X, l)
    o.apriori, o.apriori_, o.detrended_apriori_ = 1, a_, d      # as fit leaves it
    F = f((k, m, I(0), jd(i))).v
    a, e = src((k, m, i, jd(i))), ws((k, m, i, I(0))).v * ds((k, m, i, I(0))).v
    c.assume(1 - 1 / F + EPS != 0)
    c.assume(N0(a) + e != 0)
    got = []
    with stubs.latest_stub(X), stub_cdf(l, cdf), sorted_index(), same_index(), stub(cl.CapeCod, '_get_capecod_aprioris', lambda self, x, y: (got.append((x, y)), (a_, d))[1]):
        r_ = o.predict(Y, sample_weight=w)
    c.prove('apriori from the new data, the exposure and the fitted factors', And(len(got) == 1, same(got[0][0].values.at((k, m, i, jd(i))), a), same(got[0][1].values.at((k, m, i, I(0))), ws((k, m, i, I(0)))), got[0][0].ldf_ is l, r_.apriori_ is a_, r_.detrended_apriori_ is d))
    r = r_.ultimate_.values.atf(k, m, i, I(0))
    c.prove('finite', Not(r.inf))
    c.prove('the ultimate fitting gives: latest plus the unreported share of the expectation', N0(r) == N0(a) + power(F)(z3.IntVal(1)) * e)
    c.prove('inputs untouched', And(not Y.values.buf.writes, not X.values.buf.writes, not l.values.buf.writes, not w.values.buf.writes, o.X_ is X, X.ldf_ is l, not hasattr(Y, 'ldf_'), not hasattr(Y, 'ultimate_')))
