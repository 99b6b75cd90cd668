"""Cumulative / incremental conversion."""
from vc.api import *
from vc import stubs
GR = [('Y', 'Y'), ('Y', 'Q'), ('Q', 'Q'), ('Q', 'M'), ('M', 'M'), ('Y', 'M'), ('Y', 'S'), ('S', 'S')]


@contract('C01 C02 C05', 'core.base.TriangleBase.valuation core.base.TriangleBase.nan_triangle', [dict(og=a, dg=b) for a, b in GR])
def known_cells(c, og, dg):
    t = triangle(og=og, dg=dg)
    v = t.valuation
    i, j = sym_idx(t.shape[2], t.shape[3])
    e = v.at((FlatIdx(i, j, I(t.shape[2])),))
    c.prove('valuation of a cell = end of the month its age reaches', e == MS(vmonth(t, i, j) + 1) - 1)
    x = t.nan_triangle.atf(i, j)
    c.prove('known-cell mask: missing iff valued after the valuation date', Eqb(x.nan, vmonth(t, i, j) > t.valuation_date.month_term))
    c.prove('known-cell mask: one elsewhere', Or(x.nan, x.v == 1))


def known(t, i, j):
    return vmonth(t, i, j) <= t.valuation_date.month_term


@contract('C01', 'core.triangle.Triangle.incr_to_cum utils.utility_functions.num_to_nan utils.utility_functions.num_to_value core.base.TriangleBase.nan_triangle core.triangle.Triangle.copy',
          grid(g=['YY', 'YQ', 'QQ', 'MM', 'SS', 'YM'], inplace=[False, True]))
def incr_to_cum(c, g, inplace):
    t = triangle(og=g[0], dg=g[1], cumulative=False)
    src, before = t.values.snap(), t.values
    r = t.incr_to_cum(inplace=inplace)
    k, m, i, j = sym_idx(*t.shape)
    tot = tz.sum_over(j + 1, lambda b: N0(src((k, m, i, b))))
    x = r.values.atf(k, m, i, j)
    c.prove('known cell = running total of the incremental amounts, missing as zero', Implies(known(t, i, j), And(Not(x.inf), N0(x) == tot)))
    c.prove('cell beyond the valuation date stays empty', Implies(Not(known(t, i, j)), x.nan))
    c.prove('flagged cumulative', r.is_cumulative is True)
    if not inplace:
        c.prove('input amounts untouched', And(t.values is before, not before.buf.writes, t.is_cumulative is False))
        c.prove('result does not alias the input', r.values.buf is not before.buf and r is not t)
    else: c.prove('in place returns the object itself', r is t)
    c.prove('labels kept', r.odims is t.odims and r.ddims is t.ddims and r.kdims is t.kdims and r.vdims is t.vdims and r.valuation_date is t.valuation_date)


@contract('C01', 'core.triangle.Triangle.incr_to_cum', grid(g=['YY', 'QQ'], inplace=[False, True]))
def incr_to_cum_of_cumulative(c, g, inplace):
    t = triangle(og=g[0], dg=g[1], cumulative=True)
    v = t.values
    r = t.incr_to_cum(inplace=inplace)
    k, m, i, j = sym_idx(*t.shape)
    c.prove('already cumulative: amounts unchanged', same(r.values.at((k, m, i, j)), v.at((k, m, i, j))))
    c.prove('already cumulative: flag unchanged', r.is_cumulative is True)


@contract('C01', 'core.triangle.Triangle.cum_to_incr core.slice._LocBase.get_idx core.slice._LocBase._contig_slice core.slice._LocBase._normalize_index core.dunders.TriangleDunders.__sub__',
          grid(g=['YY', 'YQ', 'QQ', 'MM', 'SS']), assumes=['utils.utility_functions.concat: contract vc/stubs.py (labels and amounts in order)'])
def cum_to_incr(c, g):
    t = triangle(og=g[0], dg=g[1], cumulative=True)
    src = t.values.snap()
    k, m, i, j = sym_idx(*t.shape)
    # a well-formed triangle has no amount beyond its valuation date
    with stubs.patch_concat(None, 'core.triangle'):
        r = t.cum_to_incr()
    tz.use_extrema([i, j], [(i, j), (i, j - 1)])
    x = r.values.atf(k, m, i, j)
    prev = tz.z3.If(j > 0, N0(src((k, m, i, j - 1))), ZERO)
    kn = known(t, i, j)
    c.prove('known cell = difference to the preceding age, missing as zero', Implies(kn, N0(x) == N0(src((k, m, i, j))) - prev))
    c.prove('flagged incremental', r.is_cumulative is False)
    c.prove('shape kept', And(*[B(I(a) == I(b)) for a, b in zip(r.shape, t.shape)]))
    c.prove('valuation date kept', r.valuation_date.at(()) == t.valuation_date.at(()))
    c.prove('ages kept', r.ddims.at((j,)) == t.ddims.at((j,)))
    c.prove('input untouched', not t.values.buf.writes and t.is_cumulative is True)


@contract('C01', 'core.triangle.Triangle.incr_to_cum core.triangle.Triangle.cum_to_incr', grid(g=['YY', 'YQ', 'QQ', 'MM'], part=['base', 'step']),
          assumes=['utils.utility_functions.concat: contract vc/stubs.py (labels and amounts in order)'])
def round_trip(c, g, part):
    """cumulative -> incremental -> cumulative gives the amounts back: induction over the age"""
    t = triangle(og=g[0], dg=g[1], cumulative=True)
    src = t.values.snap()
    k, m, i, j = sym_idx(*t.shape)
    with stubs.patch_concat(None, 'core.triangle'):
        r = t.cum_to_incr()
    r = r.incr_to_cum()
    at_ = lambda q: r.values.at((k, m, i, q))
    if part == 'base':
        tz.use_extrema([I(0)], [(i, I(0))])
        e = at_(I(0))
        c.prove('first age: the amount comes back', Implies(known(t, i, I(0)), And(Not(e.inf), N0(e) == N0(src((k, m, i, I(0)))))))
    else:
        c.assume(j >= 1)
        tz.use_extrema([j, j - 1], [(i, j), (i, j - 1)])
        c.reg.unfold_hints = [j]
        e, p = at_(j), at_(j - 1)
        hyp = And(Not(p.inf), N0(p) == N0(src((k, m, i, j - 1))))
        c.prove('if it comes back at the preceding age it comes back at this age', Implies(And(known(t, i, j), hyp), And(Not(e.inf), N0(e) == N0(src((k, m, i, j))))))


@contract('C01', 'core.triangle.Triangle.incr_to_cum core.triangle.Triangle.cum_to_incr', grid(g=['YY', 'YQ', 'QQ', 'MM']),
          assumes=['utils.utility_functions.concat: contract vc/stubs.py (labels and amounts in order)'])
def round_trip_incremental(c, g):
    """incremental -> cumulative -> incremental gives the amounts back"""
    t = triangle(og=g[0], dg=g[1], cumulative=False)
    src = t.values.snap()
    k, m, i, j = sym_idx(*t.shape)
    a = t.incr_to_cum()
    with stubs.patch_concat(None, 'core.triangle'):
        r = a.cum_to_incr()
    tz.use_extrema([j, j - 1], [(i, j), (i, j - 1)])
    c.reg.unfold_hints = [j]
    e = r.values.at((k, m, i, j))
    c.prove('the amount comes back', Implies(known(t, i, j), And(Not(e.inf), N0(e) == N0(src((k, m, i, j))))))
    c.prove('flagged incremental', r.is_cumulative is False)


@contract('C01 C09 C10 C12', 'core.triangle.Triangle.latest_diagonal core.slice.TriangleSlicer.__getitem__ core.slice.TriangleSlicer._slice_valuation core.slice._LocBase.get_idx core.pandas.add_triangle_agg_func', grid(g=['YY', 'QQ', 'MM', 'YQ', 'SS']),
          assumes=['core.slice._LocBase.get_idx: drops origins and ages with no selected cell (contracts iloc_several_axes, valuation_filter)'])
def latest_diagonal(c, g):
    """one amount per origin: the one valued at the valuation date"""
    import chainladder.core.slice as sl
    t = triangle(og=g[0], dg=g[1], cumulative=True)
    c.assume(And(I(t.shape[3]) > 1, I(t.shape[0]) > 1))
    src, v = t.values.snap(), t._vc
    vm = t.valuation_date.month_term
    jd = lambda i: (vm - (v['o0'] + v['og'] * i + v['d0'] - 1)) / v['dg']
    # the valuation date falls on the origin/age lattice and the first origin's age at that date is on the axis
    c.assume((vm - (v['o0'] + v['d0'] - 1)) % v['dg'] == 0)
    c.assume(And(jd(I(0)) >= 0, jd(I(0)) < I(t.shape[3])))
    k, m, i, j = sym_idx(*t.shape)
    on = vmonth(t, i, j) == vm
    c.cell_hints = [(I(0), jd(I(0)))]
    with stubs.storage(), stub(sl._LocBase, 'get_idx', lambda self, idx: self.obj):
        r = t.latest_diagonal
    c.reg.unfold_hints = [j]
    c.prove('shape', And(*[B(I(r.shape[q]) == I(t.shape[q])) for q in range(3)], I(r.shape[3]) == 1))
    e = r.values.at((k, m, i, I(0)))
    c.prove('amount valued at the valuation date', Implies(on, And(Not(e.inf), N0(e) == N0(src((k, m, i, j))))))
    c.prove('origin label kept', r.odims.at((i,)) == t.odims.at((i,)))
    c.prove('labelled with the valuation date', r.ddims.at((I(0),)) == t.valuation_date.at(()))
    c.prove('input untouched', not t.values.buf.writes)
