"""Age-to-age and age-to-ultimate factors."""
from vc.api import *
from vc import stubs


def one(x):
    """a missing factor counts as one"""
    return If(x.nan, ONE, x.v)


def nz(x):
    return Or(x.nan, x.v != 0)


def pattern(og, dg, rows, **k):
    t = triangle(og=og, dg=dg, pattern=True, dims=[None, None, 1 if rows == 'one' else None, None], live=rows == 'one', **k)
    c = ctx()
    if rows == 'many':
        # a fitted pattern carries the valuation date of the infinite future
        c.assume(And(I(t.shape[2]) >= 2, I(t.shape[3]) >= 2))
        c.assume(vmonth(t, I(t.shape[2]) - 1, I(t.shape[3]) - 1) <= t.valuation_date.month_term)
        from vc import tensor as tz
    return t


def keep_labels(c, r, t):
    c.prove('labels kept', And(r.kdims is t.kdims, r.vdims is t.vdims, r.odims is t.odims, r.ddims is t.ddims))


@contract('C14 C09', 'core.triangle.Triangle.incr_to_cum core.base.TriangleBase.nan_triangle utils.utility_functions.num_to_value core.triangle.Triangle.copy', grid(g=['YY', 'QQ', 'MM', 'SS'], rows=['one', 'many'], part=['last', 'step']))
def factors_to_ultimate(c, g, rows, part):
    """cdf[last] = ldf[last]; cdf[j] = ldf[j] * cdf[j+1]"""
    t = pattern(g[0], g[1], rows, cumulative=False)
    src, D = t.values.snap(), I(t.shape[3])
    r = t.incr_to_cum()
    k, m, i, j = sym_idx(*t.shape)
    x = lambda q: r.values.atf(k, m, i, q)
    if part == 'last':
        e, f = x(D - 1), src((k, m, i, z3.simplify(D - 1)))
        c.prove('factor at the last age is its own age-to-age factor', Implies(nz(f), And(Not(e.nan), Not(e.inf), e.v == one(f))))
    else:
        c.assume(j + 1 < D)
        c.reg.unfold_hints = [z3.simplify(D - 1 - j)]
        e, n, f = x(j), x(z3.simplify(j + 1)), src((k, m, i, j))
        c.prove('age-to-ultimate factor = age-to-age factor times the next age-to-ultimate factor', Implies(nz(f), And(Not(e.nan), Not(e.inf), e.v == one(f) * n.v)))
    c.prove('flagged as accumulated', r.is_cumulative is True)
    c.prove('still a pattern', r.is_pattern is True)
    keep_labels(c, r, t)
    c.prove('input untouched', And(not t.values.buf.writes, t.is_cumulative is False))


@contract('C14 C23', 'core.triangle.Triangle.incr_to_cum core.base.TriangleBase.nan_triangle', grid(g=['YY', 'QQ', 'MM'], part=['last', 'step']))
def additive_to_ultimate(c, g, part):
    """additive patterns accumulate by summation from the last age back"""
    t = pattern(g[0], g[1], 'one', cumulative=False)
    t.is_additive = True
    src, D = t.values.snap(), I(t.shape[3])
    r = t.incr_to_cum()
    k, m, i, j = sym_idx(*t.shape)
    x = lambda q: r.values.atf(k, m, i, q)
    if part == 'last':
        e, f = x(D - 1), src((k, m, i, z3.simplify(D - 1)))
        c.prove('remaining amount at the last age is its own', And(Not(e.nan), Not(e.inf), e.v == N0(f)))
    else:
        c.assume(j + 1 < D)
        c.reg.unfold_hints = [z3.simplify(D - 1 - j)]
        e, n, f = x(j), x(z3.simplify(j + 1)), src((k, m, i, j))
        c.prove('remaining amount = own amount plus the remaining amount of the next age', And(Not(e.nan), Not(e.inf), e.v == N0(f) + n.v))
    keep_labels(c, r, t)
    c.prove('input untouched', And(not t.values.buf.writes, t.is_cumulative is False))


@contract('C14', 'core.triangle.Triangle.cum_to_incr core.dunders.TriangleDunders.__truediv__ core.slice._LocBase.get_idx', grid(g=['YY', 'QQ', 'MM'], k1=[True, False]),
          assumes=['utils.utility_functions.concat: contract vc/stubs.py (labels and amounts in order)'])
def ultimate_to_factors(c, g, k1):
    """ldf[last] = cdf[last]; ldf[j] * cdf[j+1] = cdf[j]"""
    t = pattern(g[0], g[1], 'one', cumulative=True, nan=False, inv=lambda i, x: [x.v > 0])
    src, D = t.values.snap(), I(t.shape[3])
    c.assume(D > 2)
    c.assume(I(t.shape[0]) == 1 if k1 else I(t.shape[0]) > 1)
    with stubs.patch_concat(None, 'core.triangle'):
        r = t.cum_to_incr()
    k, m, i, j = sym_idx(*t.shape)
    e = r.values.atf(k, m, i, j)
    last = z3.simplify(D - 1)
    c.prove('last factor kept', Implies(j == D - 1, And(Not(e.nan), Not(e.inf), e.v == src((k, m, i, last)).v)))
    c.prove('factor = ratio to the next age-to-ultimate factor', Implies(j < D - 1, And(Not(e.nan), Not(e.inf), e.v * src((k, m, i, z3.simplify(j + 1))).v == src((k, m, i, j)).v)))
    c.prove('flagged as age-to-age', r.is_cumulative is False)
    c.prove('ages kept', r.ddims.at((j,)) == t.ddims.at((j,)))
    c.prove('input untouched', And(not t.values.buf.writes, t.is_cumulative is True))


def tail_case(c, og, dg, period, decay=True, **kw):
    import chainladder as cl
    X = triangle('X', og=og, dg=dg, cumulative=True)
    K, M, O, D = X.shape
    c.assume(I(D) >= 3)
    n = SymInt(z3.simplify(I(D) - 1))
    g = X._vc
    l = triangle('L', og=og, dg=dg, pattern=True, cumulative=False, dims=[K, M, 1, n], o0=g['o0'], d0=g['d0'], nan=False, inv=lambda i, x: [x.v > 0], live=False)
    X.ldf_ = l
    d = tz.sym_tensor('decay', (), 'f', nan=False, inv=lambda i, x: [x.v > 0, x.v <= 1])
    t = tz.sym_tensor('tail', (), 'f', nan=False, inv=lambda i, x: [x.v > 0])
    return X, l, cl.TailConstant(tail=t, decay=d, projection_period=period, **kw), t.at(()).v, d.at(()).v


EXTRA = {'Y': 1, 'S': 2, 'Q': 4, 'M': 12}


def init_ldf(c):
    """contract of _get_initial_ldf (proved by initial_decay_factor): positive"""
    z = tz.sym_tensor('first', (), 'f', nan=False, inv=lambda i, x: [x.v > 0])
    return lambda self, xp, tail: z


@contract('C14', 'tails.base.TailBase.fit tails.base.TailBase._apply_decay tails.constant.TailConstant.fit', grid(g=['YY', 'QQ', 'SS', 'MM'], period=[12, 24]))
def tail_constant(c, g, period):
    import chainladder.tails.base as tb
    X, l, est, tail, decay = tail_case(c, g[0], g[1], period)
    src, D = l.values.snap(), I(X.shape[3])
    with stub(tb.TailBase, '_get_initial_ldf', init_ldf(c)):
        r = est.fit(X)
    P, s = EXTRA[g[1]] * period // 12, MONTHS[g[1]]
    L = r.ldf_
    c.prove('one more age for the end of the data and one per projected period', And(*[B(I(a) == b) for a, b in zip(L.shape, (I(l.shape[0]), I(l.shape[1]), 1, D + P))]))
    k, m, i, j = sym_idx(*L.shape)
    e = L.values.atf(k, m, i, j)
    c.prove('factors before the end of the data kept', Implies(j < D - 1, And(Not(e.nan), Not(e.inf), e.v == src((k, m, i, j)).v)))
    c.prove('ages run on at the development step', L.ddims.at((j,)) == l._vc['d0'] + s * j)
    f = lambda q: L.values.atf(k, m, i, z3.simplify(D - 1 + q))
    tot = tz.sum_over(P, lambda q: f(q).v, 'prod') * f(I(P)).v
    c.prove('factors are numbers', And(Not(e.nan), Not(e.inf)))
    c.prove('projected factors compound to the tail', tot == tail)
    c.prove('input untouched', And(not l.values.buf.writes, not X.values.buf.writes, X.ldf_ is l, B(I(l.shape[3]) == D - 1)))


@contract('C14', 'tails.constant.TailConstant.fit tails.base.TailBase.fit tails.base.TailBase._apply_decay', grid(g=['YY', 'QQ', 'MM'], period=[12, 24]))
def tail_constant_attached(c, g, period):
    """from the attachment age on, the factors compound to the tail; before it they are kept"""
    import chainladder.tails.base as tb
    X, l, est, tail, decay = tail_case(c, g[0], g[1], period)
    src, D = l.values.snap(), I(X.shape[3])
    P, s = EXTRA[g[1]] * period // 12, MONTHS[g[1]]
    a = z3.Int('attach')
    c.assume(And(a >= 1, a < D - 1, D + P < 1000))
    c.hints = [a]
    est.attachment_age = mkint(l._vc['d0'] + s * a)
    with stub(tb.TailBase, '_get_initial_ldf', init_ldf(c)):
        r = est.fit(X)
    L = r.ldf_
    k, m, i, j = sym_idx(*L.shape)
    e = L.values.atf(k, m, i, j)
    c.prove('shape', B(I(L.shape[3]) == D + P))
    c.prove('factors before the attachment age kept', Implies(j < a, And(Not(e.nan), Not(e.inf), e.v == src((k, m, i, j)).v)))
    f = lambda q: L.values.atf(k, m, i, z3.simplify(a + q))
    tot = tz.sum_over(z3.simplify(D + P - 1 - a), lambda q: f(q).v, 'prod') * f(z3.simplify(D + P - 1 - a)).v
    c.prove('factors are numbers', And(Not(e.nan), Not(e.inf)))
    c.prove('factors from the attachment age on compound to the tail', tot == tail)
    c.prove('input untouched', And(not l.values.buf.writes, not X.values.buf.writes, X.ldf_ is l, B(I(l.shape[3]) == D - 1)))


@contract('C14', 'tails.base.TailBase._get_initial_ldf', [{}])
def initial_decay_factor(c):
    """for a tail above one the first projected development is positive and solves a*x^2 + b*x = log(tail)"""
    import chainladder as cl
    d = tz.sym_tensor('decay', (), 'f', nan=False, inv=lambda i, x: [x.v > 0, x.v <= 1])
    t = tz.sym_tensor('tail', (), 'f', nan=False, inv=lambda i, x: [x.v > 1])
    est = cl.TailConstant(tail=t, decay=d)
    import numpy
    c.reg.unfold_hints = [I(0)]
    from vc import load
    x = tz.T(est._get_initial_ldf(load._mods['np'], t)).at(())
    dv, tv = d.at(()).v, t.at(()).v
    pw = lambda q: tz.T(d ** SymInt(q)).at(()).v
    b = tz.sum_over(1000, lambda q: pw(q))
    a = tz.sum_over(1000, lambda q: pw(q) * pw(q))
    c.lemma('sums of powers are positive', And(a > 0, b > 0))
    c.prove('a number', And(Not(x.nan), Not(x.inf)))
    c.prove('positive', x.v > 0)
    c.prove('solves the second-order expansion of the tail', a * x.v * x.v + b * x.v == tz.uf('log', tz.RS, tz.RS)(tv))
