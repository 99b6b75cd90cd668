"""Completed triangles."""
from vc.api import *
from vc import stubs
from .c09 import fitted, pattern_cdf, stub_cdf, ult_of


@contract('C12', 'core.common._get_full_expectation core.common.Common.full_expectation_ core.common.Common.cdf_ core.pandas.TrianglePandas.rename core.dunders.TriangleDunders.__truediv__', grid(g=['YY', 'QQ', 'MM'], extra=[0, 1]),
          assumes=['utils.utility_functions.concat: contract vc/stubs.py (labels and amounts in order)', 'core.triangle.Triangle.incr_to_cum on patterns: contract verified in c14'])
def full_expectation(c, g, extra):
    """every age holds the ultimate divided by that age's factor to ultimate; the last column is the ultimate"""
    import chainladder as cl
    X, l, jd = fitted(c, g[0], g[1], extra=extra)
    u = ult_of(c, X)
    cdf = pattern_cdf(l)
    f, us = cdf.values.snap(), u.values.snap()
    o = cl.Chainladder(); o.X_ = X; o.ultimate_ = u
    with stubs.patch_concat(None, 'core.common'), stub_cdf(l, cdf): r = o.full_expectation_
    n = I(l.shape[3])
    c.prove('one column per age and the ultimate', And(*[B(I(a) == I(b)) for a, b in zip(r.shape, (X.shape[0], X.shape[1], X.shape[2], n + 1))]))
    k, m, i, j = sym_idx(*r.shape)
    e, a = r.values.atf(k, m, i, j), us((k, m, i, I(0)))
    F = f((k, m, I(0), j)).v
    c.prove('expected amount = ultimate / factor to ultimate', Implies(And(j < n, Not(a.nan)), And(Not(e.nan), Not(e.inf), e.v * F == a.v)))
    c.prove('the last column is the ultimate', Implies(j == n, And(Not(e.inf), N0(e) == N0(a))))
    c.prove('missing ultimate, missing expectation', Implies(a.nan, e.nan))
    c.prove('ages', r.ddims.at((j,)) == If(j < n, l._vc['d0'] + l._vc['dg'] * j, I(9999)))
    c.prove('inputs untouched', And(not u.values.buf.writes, not l.values.buf.writes, o.ultimate_ is u))


def full_case(c, g, extra):
    X, l, jd = fitted(c, g[0], g[1], extra=extra)
    u = ult_of(c, X)
    return X, l, jd, u


@contract('C12', 'core.common._get_full_triangle core.common.Common.full_triangle_ core.base.TriangleBase.valuation core.slice.TriangleSlicer.__getitem__ core.slice.TriangleSlicer._slice_valuation core.dunders.TriangleDunders.__mul__ core.dunders.TriangleDunders.__add__ core.dunders.TriangleDunders.__sub__', grid(g=['YY', 'QQ', 'MM'], extra=[0, 1]),
          assumes=['core.triangle.Triangle.latest_diagonal: contract verified in c01', 'core.triangle.Triangle.incr_to_cum of cumulative amounts: contract verified in c01', 'core.slice._LocBase.get_idx: drops origins and ages with no selected cell (contracts c05)',
                   'core.dunders.TriangleDunders.__add__ of the data and the run-off on different ages: contract verified in c03'])
def full_triangle(c, g, extra):
    """beyond the valuation date: latest amount plus the unreported amount emerging with the factors after the valuation date"""
    import chainladder as cl
    import chainladder.core.slice as sl
    X, l, jd, u = full_case(c, g, extra)
    src, fs, us = X.values.snap(), l.values.snap(), u.values.snap()
    D, n = I(X.shape[3]), I(l.shape[3])
    # every cell of the completed triangle is valued before the label of the ultimate (end of 2261)
    c.assume(vmonth(X, I(X.shape[2]) - 1, n) < 12 * 290)
    add, got = cl.Triangle.__add__, []
    def add_stub(a, b):
        if isinstance(b, cl.Triangle) and a is X:
            got.append(b)
            return 'sum'
        return add(a, b)
    o = cl.Chainladder(); o.X_ = X; o.ultimate_ = u
    k, m, i, j = sym_idx(X.shape[0], X.shape[1], X.shape[2], l.shape[3])
    L, U = N0(src((k, m, i, jd(i)))), us((k, m, i, I(0)))
    f = lambda b: If(b < jd(i), ONE, fs((k, m, I(0), b)).v)         # factor in force: one up to the latest diagonal
    P = lambda q: tz.sum_over(z3.simplify(q + 1), lambda b: f(b), kind='prod')
    last = z3.simplify(n - 1)
    # hint: the accumulated factors as the code forms them
    em = l.copy() * (u / u)
    kn = (em.valuation < X.valuation_date).reshape(em.shape[-2:], order='F')[None, None]
    cp = (em * ~kn + (em * 0 + 1) * kn).values.cumprod(axis=3)
    cs = {}
    for q in (j, last):
        x = cs[q] = cp.at((k, m, i, q))
        c.lemma('factors after the latest diagonal accumulate', Implies(And(Not(U.nan), U.v != 0), And(Not(x.nan), Not(x.inf), x.v == P(q))), timeout=30)
    c.cell_hints = [(I(0), last)]
    with stubs.storage(), stubs.latest_stub(X), stub(cl.Triangle, 'incr_to_cum', lambda self, inplace=False: self.copy()), stub(sl._LocBase, 'get_idx', lambda self, idx: self.obj), stub(cl.Triangle, '__add__', add_stub):
        r = o.full_triangle_
    c.prove('data plus run-off', And(r == 'sum', len(got) == 1))
    R_ = got[0]
    c.prove('one run-off age per factor', And(*[B(I(a) == I(b)) for a, b in zip(R_.shape, (X.shape[0], X.shape[1], X.shape[2], n))]))
    v = X._vc
    c.prove('run-off ages are one step after the factor ages, the last one is the ultimate', R_.ddims.at((j,)) == If(j == n - 1, I(9999), v['d0'] + v['dg'] * (j + 1)))
    e = R_.values.atf(k, m, i, j)
    future = j >= jd(i)
    ok = And(Not(U.nan), U.v != 0, P(n - 1) != 1)
    c.prove('reported cells are left to the data', Implies(Not(future), e.nan))
    cond = And(future, ok)
    xj, xl = cs[j].v, cs[last].v
    E, t = c.define('E', N0(e)), c.define('t', (xj - 1) / (xl - 1))
    c.lemma('finite run-off', Implies(cond, Not(e.inf)))
    c.lemma('run-off of the code', Implies(cond, E == L + t * (U.v - L)), timeout=30)
    c.lemma('share of the emergence', Implies(xl != 1, t * (xl - 1) == xj - 1))
    l_, u_, p_, q_ = c.define('L', L), c.define('U', U.v), c.define('P', P(j)), c.define('Q', P(last))
    c.lemma('algebra', Implies(And(E == l_ + t * (u_ - l_), t * (q_ - 1) == p_ - 1), (E - l_) * (q_ - 1) == (p_ - 1) * (u_ - l_)), alone=True)
    c.prove('run-off in proportion to the emergence', Implies(cond, (E - l_) * (q_ - 1) == (p_ - 1) * (u_ - l_)))
    c.prove('inputs untouched', And(not X.values.buf.writes, not u.values.buf.writes, not l.values.buf.writes, o.ultimate_ is u, X.ldf_ is l, B(l.ddims.at((j,)) == v['d0'] + v['dg'] * j)))
