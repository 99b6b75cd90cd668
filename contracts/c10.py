"""Expected-loss, Bornhuetter-Ferguson and Benktander ultimates."""
from vc.api import *
from vc import stubs
from .c09 import fitted, pattern_cdf, stub_cdf

EPS = R(1e-16)


def case(c, g, K, wK='K', extra=0):
    """data with a development pattern and an exposure vector (one column)"""
    X, l, jd = fitted(c, g[0], g[1], K, extra=extra)
    cdf = pattern_cdf(l)
    # all factors to ultimate positive and not within 1e-16 below one
    w = triangle('W', og=g[0], dg=g[1], cumulative=True, dims=[X.shape[0] if wK == 'K' else 1, X.shape[1], X.shape[2], 1], o0=X._vc['o0'], val=X.valuation_date, nan=False)
    if wK == 'K': w.kdims = X.kdims
    w.vdims = X.vdims
    w.odims = X.odims
    from vc.models import as_dti
    w.ddims = as_dti(tz.expand_dims(tz.T(X.valuation_date), 0))
    return X, l, jd, cdf, w


def sorted_index():
    """contract of sort_index on an index already in order: the triangle itself"""
    import chainladder as cl
    return stub(cl.Triangle, 'sort_index', lambda self, *a, **k: self)


ASSUME = ['core.triangle.Triangle.latest_diagonal: contract verified in c01', 'core.triangle.Triangle.incr_to_cum on patterns: contract verified in c14', 'core.pandas.TrianglePandas.sort_index: identity on an index in order']
FN = 'methods.benktander.Benktander._get_ultimate methods.base.MethodBase._align_cdf methods.base.MethodBase._set_ult_attr methods.base.MethodBase.fit methods.base.MethodBase.validate_X methods.benktander.Benktander.fit methods.benktander.Benktander._get_benktander_aprioris methods.base.MethodBase._include_process_variance '


def power(F):
    """the n-th power of the unreported share 1 - 1/F, as the code forms it"""
    return lambda b: tz.xpow(fin(1 - 1 / F), b, 'i').v


@contract('C10', FN + 'methods.bornferg.BornhuetterFerguson.fit methods.expectedloss.ExpectedLoss.fit', grid(est=['ExpectedLoss', 'BornhuetterFerguson', 'Benktander'], g=['YY', 'QQ', 'MM'], K=['K', '1'], wK=['K'], extra=[0, 1]) + [dict(est='Benktander', g='YY', K='K', wK='1', extra=0)],
          assumes=ASSUME)
def expected_methods(c, est, g, K, wK, extra):
    """ultimate = latest * (1 + q + ... + q^(n-1)) + apriori * exposure * q^n with q the unreported share;
    n = 0 expected loss, n = 1 Bornhuetter-Ferguson, n >= 2 Benktander"""
    import chainladder as cl
    X, l, jd, cdf, w = case(c, g, K, wK if K == 'K' else '1', extra=extra)
    src, f, ws = X.values.snap(), cdf.values.snap(), w.values.snap()
    k, m, i = sym_idx(*X.shape[:3])
    ap = tz.sym_tensor('apriori', (), 'f', nan=False)
    if est == 'Benktander':
        N = z3.Int('n_iters')
        c.assume(And(N >= 2, N <= 1000))
        o = cl.Benktander(apriori=ap, n_iters=mkint(N))
    else:
        N = z3.IntVal(0 if est == 'ExpectedLoss' else 1)
        o = getattr(cl, est)(apriori=ap)
    F = f((k, m, I(0), jd(i))).v
    kw = k if wK == 'K' or K == '1' else I(0)
    a, e = src((k, m, i, jd(i))), ws((kw, m, i, I(0))).v * ap.at(()).v
    c.assume(1 - 1 / F + EPS != 0)
    c.assume(N0(a) + e != 0)        # an origin with neither amounts nor exposure carries no ultimate
    with stubs.latest_stub(X), stub_cdf(l, cdf), sorted_index():
        r_ = o.fit(X, sample_weight=w)
        u = o.ultimate_
    c.prove('fit returns the estimator', r_ is o)
    c.prove('number of iterations', I(o.n_iters) == N)
    c.prove('fitted to the data and its factors', And(o.ldf_ is l, o.X_ is not X))
    c.prove('one ultimate per origin', And(*[B(I(x) == I(y)) for x, y in zip(u.shape, tuple(X.shape[:3]) + (1,))]))
    r = u.values.atf(k, m, i, I(0))
    pw = power(F)
    S = tz.sum_over(N, lambda b: pw(b))
    c.prove('finite', Not(r.inf))
    c.prove('ultimate = latest * (1 + q + ... + q^(n-1)) + expectation * q^n', N0(r) == S * N0(a) + pw(N) * e)
    c.prove('origin labels kept', u.odims.at((i,)) == X.odims.at((i,)))
    c.prove('cumulative', u.is_cumulative is True)
    c.prove('inputs untouched', And(not X.values.buf.writes, not l.values.buf.writes, not w.values.buf.writes, X.ldf_ is l, w.is_cumulative is True))


@contract('C10', FN, grid(part=['n=0', 'n=1', 'step']))
def one_recursion(c, part):
    """the closed form of expected_methods obeys: expected loss at n = 0, Bornhuetter-Ferguson at n = 1 and
    ultimate(n+1) = latest + q * ultimate(n); induction over n"""
    L, E, F, n = z3.Real('latest'), z3.Real('expectation'), z3.Real('F'), z3.Int('n')
    c.assume(And(n >= 0, F > 0))
    q, pw = 1 - 1 / F, power(F)
    S = lambda b: tz.sum_over(b, lambda x: pw(x))
    U = lambda b: S(b) * L + pw(b) * E
    if part == 'n=0': c.prove('no iteration: the expectation', U(z3.IntVal(0)) == E)
    elif part == 'n=1': c.prove('one iteration: latest plus the unreported share of the expectation', U(z3.IntVal(1)) == L + q * E)
    else:
        n1, n2 = z3.simplify(n + 1), z3.simplify(n + 2)
        c.reg.unfold_hints = [n, n1]
        c.assume(pw(n1) == pw(n) * q)      # power axiom at n and n + 1
        c.assume(pw(n2) == pw(n1) * q)
        c.prove('power sum: base', S(z3.IntVal(1)) == 1 + q * S(z3.IntVal(0)))
        c.prove('power sum: step', Implies(S(n1) == 1 + q * S(n), S(n2) == 1 + q * S(n1)))
        c.prove('recursion', Implies(S(n1) == 1 + q * S(n), U(n1) == L + q * U(n)))
