"""Chain-ladder ultimate."""
from vc.api import *
from vc import stubs
from .c14 import one


def fitted(c, og='Y', dg='Y', K='K', rows=1, extra=0, X_kw={}, **k):
    """a cumulative triangle carrying a development pattern on its own ages (and `extra` projected ones)"""
    kw = dict(dims=[1 if K == '1' else None, None, None, None]); kw.update(X_kw)
    X = triangle('X', og=og, dg=dg, cumulative=True, **kw)
    Kd, C, O, D = X.shape
    if K != '1': c.assume(I(Kd) >= 2)
    c.assume(And(I(C) >= 2, I(O) >= 2, I(D) >= 2))
    jd = stubs.on_lattice(c, X)
    g = X._vc
    n = D if not extra else SymInt(z3.simplify(I(D) + extra))
    l = triangle('L', og=og, dg=dg, pattern=True, cumulative=False, dims=[Kd, C, rows, n], o0=g['o0'], d0=g['d0'], nan=False, inv=lambda i, x: [x.v > 0], val=X.valuation_date)
    l.kdims, l.vdims = X.kdims, X.vdims
    X.ldf_ = l
    c.lemma('no age of the pattern precedes the data', (l.ddims < X.ddims[0]).sum().at(()) == 0)
    return X, l, jd


def pattern_cdf(l):
    """contract of incr_to_cum on a pattern (verified: contracts/c14 factors_to_ultimate): positive numbers
    cdf with cdf[last] = ldf[last] and cdf[j] = ldf[j] * cdf[j+1]; labels kept"""
    import copy
    c = tz.ctx()
    r = copy.copy(l)
    r.values = tz.sym_tensor('cdf', l.shape, 'f', nan=False, inv=lambda i, x: [x.v > 0])
    r.is_cumulative = True
    r._set_slicers()
    r._vc = l._vc
    return r


def stub_cdf(l, cdf):
    import chainladder as cl
    import copy
    def itc(self, inplace=False):
        if self.is_pattern is not True: raise OutOfSubset('incr_to_cum of amounts')
        tz.ctx().prove('precondition of cdf_: the fitted factors', self.values.buf is l.values.buf)
        r = copy.deepcopy(cdf)
        return r
    return stub(cl.Triangle, 'incr_to_cum', itc)


@contract('C09', 'methods.chainladder.Chainladder._get_ultimate methods.base.MethodBase._align_cdf methods.base.MethodBase._set_ult_attr core.common.Common.cdf_ core.triangle.Triangle.val_to_dev', grid(g=['YY', 'QQ', 'MM', 'YQ'], K=['K', '1'], extra=[0, 1]), thorough=[dict(g='SS', K='K', extra=4)],
          assumes=['core.triangle.Triangle.latest_diagonal: contract verified in c01', 'core.triangle.Triangle.incr_to_cum on patterns: contract verified in c14'])
def chainladder_ultimate(c, g, K, extra):
    """ultimate = latest amount times the age-to-ultimate factor of its age"""
    import chainladder as cl
    X, l, jd = fitted(c, g[0], g[1], K, extra=extra)
    cdf = pattern_cdf(l)
    src, f = X.values.snap(), cdf.values.snap()
    lab = (X.kdims, X.vdims, X.odims, X.ddims)
    with stubs.latest_stub(X), stub_cdf(l, cdf):
        u = cl.Chainladder()._get_ultimate(X)
    k, m, i, _ = sym_idx(*u.shape)
    c.prove('one ultimate per origin', And(*[B(I(a) == I(b)) for a, b in zip(u.shape, tuple(X.shape[:3]) + (1,))]))
    e, a = u.values.atf(k, m, i, I(0)), src((k, m, i, jd(i)))
    c.prove('ultimate = latest amount times the age-to-ultimate factor', Implies(And(Not(a.nan), a.v != 0), And(Not(e.inf), Not(e.nan), e.v == a.v * f((k, m, I(0), jd(i))).v)))
    c.prove('nothing from nothing', Implies(N0(a) == 0, N0(e) == 0))
    c.prove('origin labels kept', u.odims.at((i,)) == X.odims.at((i,)))
    c.prove('labelled ultimate', And(I(u.ddims.shape[0]) == 1, u.ddims.at((I(0),)) == tz.T(__import__('pandas').Timestamp(cl.options.ULT_VAL)).at(())) if hasattr(u.ddims, 'at') else u.ddims[0] == __import__('pandas').Timestamp(cl.options.ULT_VAL))
    c.prove('cumulative', u.is_cumulative is True)
    c.prove('input untouched', And(not X.values.buf.writes, not l.values.buf.writes, X.kdims is lab[0], X.vdims is lab[1], X.odims is lab[2], X.ddims is lab[3], X.ldf_ is l))


def ult_of(c, X, name='U', K=None):
    """an ultimate vector as _set_ult_attr leaves it (postcondition of chainladder_ultimate)"""
    import chainladder as cl, pandas as pd
    from vc.models import as_dti
    u = triangle(name, og=X._vc['og'] and X.origin_grain, dg=X.development_grain, cumulative=True, dims=[X.shape[0] if K is None else K, X.shape[1], X.shape[2], 1], o0=X._vc['o0'], live=False)
    if K is None: u.kdims = X.kdims
    u.vdims, u.odims = X.vdims, X.odims
    u.ddims = pd.DatetimeIndex([cl.options.ULT_VAL])
    u.valuation_date = pd.Timestamp(cl.options.ULT_VAL)
    return u


@contract('C09 C10 C12', 'core.common.Common.ibnr_ methods.base.MethodBase.latest_diagonal core.dunders.TriangleDunders.__sub__', grid(g=['YY', 'QQ', 'MM'], of=['method', 'triangle']),
          assumes=['core.triangle.Triangle.latest_diagonal: contract verified in c01'])
def ibnr(c, g, of):
    """ibnr = ultimate - latest diagonal"""
    import chainladder as cl
    X, l, jd = fitted(c, g[0], g[1])
    u = ult_of(c, X)
    src, us = X.values.snap(), u.values.snap()
    if of == 'method': o = cl.Chainladder(); o.X_ = X
    else: o = X
    o.ultimate_ = u
    with stubs.latest_stub(X): r = o.ibnr_
    k, m, i = sym_idx(*X.shape[:3])
    c.prove('one per origin', And(*[B(I(a) == I(b)) for a, b in zip(r.shape, tuple(X.shape[:3]) + (1,))]))
    e = r.values.atf(k, m, i, I(0))
    c.prove('ultimate minus latest amount', And(Not(e.inf), N0(e) == N0(us((k, m, i, I(0)))) - N0(src((k, m, i, jd(i))))))
    c.prove('origin labels kept', r.odims.at((i,)) == X.odims.at((i,)))
    c.prove('inputs untouched', And(not X.values.buf.writes, not u.values.buf.writes, o.ultimate_ is u))


@contract('C09 C14', 'methods.base.MethodBase.validate_X tails.constant.TailConstant.fit tails.base.TailBase.transform development.base.DevelopmentBase.fit_transform', grid(g=['YY', 'QQ', 'MM'], tail=['missing', 'present']))
def validate_X(c, g, tail):
    """a pattern that stops at the data's last age is completed by factors of one; otherwise it is taken as it is"""
    import chainladder as cl
    from .c14 import EXTRA
    X, l, jd = fitted(c, g[0], g[1], extra=-1 if tail == 'missing' else 0)
    c.assume(I(X.shape[3]) >= 3)
    f, D, n = l.values.snap(), I(X.shape[3]), I(l.shape[3])
    src = X.values.snap()
    import chainladder.tails.base as tb
    with stub(tb.TailBase, 'tail_', property(lambda self: None)):      # frame shown to users, not part of the ultimate
        r = cl.Chainladder().validate_X(X)
    L = r.ldf_
    k, m, i, j = sym_idx(*L.shape)
    e = L.values.atf(k, m, i, j)
    if tail == 'missing':
        P = EXTRA[g[1]]
        c.prove('ages', I(L.shape[3]) == n + 1 + P)
        c.prove('known factors kept', Implies(j < n, And(Not(e.nan), Not(e.inf), e.v == f((k, m, i, j)).v)))
        c.prove('no development beyond the data', Implies(j >= n, And(Not(e.nan), Not(e.inf), e.v == 1)))
    else:
        c.prove('pattern taken as it is', And(L is l, not l.values.buf.writes))
    q = sym_idx(*X.shape)
    c.prove('amounts of the data', And(same(r.values.at(q), src(q)), *[B(I(a) == I(b)) for a, b in zip(r.shape, X.shape)]))
    c.prove('input untouched', And(r is not X, not X.values.buf.writes, not l.values.buf.writes, X.ldf_ is l))
