"""Trend factors."""
from vc.api import *
from vc import stubs


def stamp(c, name, kind):
    """a symbolic date: the first instant (kind s) or the last instant (kind e) of a month"""
    m = z3.Int(name + '.m')
    t = SymTensor((), lambda i: MS(m) if kind == 's' else MS(m + 1) - 1, 'M')
    return t, m


@contract('C20', 'core.triangle.Triangle.trend core.triangle.Triangle.origin core.base.TriangleBase.valuation core.triangle.Triangle.nan_triangle core.triangle.Triangle.copy', grid(g=['YY', 'QQ', 'MM', 'YQ'], axis=['origin', 'valuation'], dates=['default', 'given', 'start', 'end']))
def trend(c, g, axis, dates):
    """known cell * (1 + trend)^(months from the clipped origin end / valuation to the start date / 12)"""
    X = triangle('X', og=g[0], dg=g[1])
    src = X.values.snap()
    v = X._vc
    c.assume(And(I(X.shape[2]) >= 2, I(X.shape[3]) >= 2))
    t = tz.sym_tensor('trend', (), 'f', nan=False, inv=lambda i, x: [x.v > -1])
    kw, s, e = {}, X.valuation_date.month_term, v['o0']
    if dates in ('given', 'start'): kw['start'], s = stamp(c, 'start', 's')
    if dates in ('given', 'end'): kw['end'], e = stamp(c, 'end', 'e')
    r = X.trend(t, axis, **kw)
    k, m, i, j = sym_idx(*X.shape)
    a, x = src((k, m, i, j)), r.values.atf(k, m, i, j)
    mo = v['o0'] + v['og'] * (i + 1) - 1 if axis == 'origin' else vmonth(X, i, j)
    lo, hi = If(e <= s, e, s), If(e <= s, s, e)
    cl_ = If(mo < lo, lo, If(mo > hi, hi, mo))
    known = vmonth(X, i, j) <= X.valuation_date.month_term
    fac = tz.xpow(fin(1 + t.atf().v), fin(z3.ToReal(s - cl_) / 12), 'f').v
    c.prove('finite', Not(x.inf))
    c.prove('known cell times compounded trend', Implies(And(known, Not(a.nan)), And(Not(x.nan), x.v == a.v * fac)))
    c.prove('no cell created or removed', Implies(known, x.nan == B(a.nan) if not isinstance(a.nan, bool) else B(x.nan) == a.nan))
    c.prove('labels kept', And(r.kdims is X.kdims, r.vdims is X.vdims, r.odims.at((i,)) == X.odims.at((i,)), r.ddims.at((j,)) == X.ddims.at((j,)), r.valuation_date.at(()) == X.valuation_date.at(())))
    c.prove('input untouched', And(r is not X, not X.values.buf.writes))


@contract('C20', 'core.triangle.Triangle.trend', grid(g=['YY', 'QQ', 'MM'], axis=['origin', 'valuation']))
def trend_zero(c, g, axis):
    """no trend, no change"""
    X = triangle('X', og=g[0], dg=g[1])
    src = X.values.snap()
    c.assume(And(I(X.shape[2]) >= 2, I(X.shape[3]) >= 2))
    r = X.trend(0, axis)
    q = sym_idx(*X.shape)
    a, x = src(q), r.values.atf(*q)
    known = vmonth(X, q[2], q[3]) <= X.valuation_date.month_term
    c.prove('unchanged', Implies(known, same(a, x)))


@contract('C20', 'adjustments.trend.Trend.fit adjustments.trend.Trend.transform core.triangle.Triangle.trend core.dunders.TriangleDunders.__truediv__', grid(g=['YY', 'QQ', 'MM'], axis=['origin', 'valuation'], dates=['default', 'given']))
def trend_estimator(c, g, axis, dates):
    """the fitted factors of several trends are the product of the factors of each"""
    import chainladder as cl
    X = triangle('X', og=g[0], dg=g[1])
    src = X.values.snap()
    v = X._vc
    c.assume(And(I(X.shape[0]) >= 2, I(X.shape[1]) >= 2, I(X.shape[2]) >= 2, I(X.shape[3]) >= 2))
    t = [tz.sym_tensor('trend%d' % n, (), 'f', nan=False, inv=lambda i, x: [x.v > -1]) for n in range(2)]
    S = E = None
    vm = X.valuation_date.month_term
    if dates == 'given':
        S = [stamp(c, 's%d' % n, 's') for n in range(2)]
        E = [stamp(c, 'e%d' % n, 'e') for n in range(2)]
        for s_, e_ in zip(S, E): c.assume(s_[1] > e_[1])
        ds = [(s_[0], e_[0]) for s_, e_ in zip(S, E)]
    o = cl.Trend(trends=list(t), axis=axis, **(dict(dates=ds) if dates == 'given' else dict(dates=[(None, None)] * 2)))
    r_ = o.fit(X)
    k, m, i, j = sym_idx(*X.shape)
    mo = v['o0'] + v['og'] * (i + 1) - 1 if axis == 'origin' else vmonth(X, i, j)
    fac = ONE
    for n in range(2):
        s_, e_ = (S[n][1], E[n][1]) if S else (vm, v['o0'])
        at = If(mo < e_, e_, If(mo > s_, s_, mo))
        fac = fac * tz.xpow(fin(1 + t[n].atf().v), fin(z3.ToReal(s_ - at) / 12), 'f').v
    a, x = src((k, m, i, j)), o.trend_.values.atf(k, m, i, j)
    known = vmonth(X, i, j) <= vm
    c.prove('fit returns the estimator', r_ is o)
    c.prove('factors multiply', Implies(And(known, Not(a.nan), a.v != 0), And(Not(x.nan), Not(x.inf), x.v == fac)))
    y = o.transform(X)
    c.prove('transform carries the factors and keeps the amounts', And(same(y.values.at((k, m, i, j)), a), y.trend_ is o.trend_, y is not X))
    c.prove('input untouched', And(not X.values.buf.writes, 'trend_' not in X.__dict__))
