"""C13: Mack standard errors."""
from vc.api import *
from vc import stubs
from .c09 import fitted, pattern_cdf, stub_cdf


def mack_case(c, g, extra):
    """data with development factors, their standard errors and a completed triangle"""
    X, l, jd = fitted(c, g[0], g[1], extra=extra)
    K, C, O, D = X.shape
    cdf = pattern_cdf(l)
    v = X._vc
    F = triangle('F', og=g[0], dg=g[1], cumulative=True, dims=[K, C, O, mkint(z3.simplify(I(l.shape[3]) + 1))], o0=v['o0'], d0=v['d0'], ult=True, val=X.valuation_date)
    F.kdims, F.vdims, F.odims = X.kdims, X.vdims, X.odims
    X._full_triangle_ = F
    def stat(name):
        s = triangle(name, og=g[0], dg=g[1], pattern=True, cumulative=False, dims=[K, C, 1, D], o0=v['o0'], d0=v['d0'], nan=False, inv=lambda i, x: [x.v >= 0], val=X.valuation_date)
        s.kdims, s.vdims = X.kdims, X.vdims
        return s
    X.std_err_, X.sigma_ = stat('SE'), stat('SG')
    return X, l, cdf, F, jd


def recursion(c, shape, step):
    """loop invariant of the accumulation over ages: before iteration k the array holds k + 1 columns, the first
    zero and every other one the step from its predecessor"""
    def make(loop):
        st = {}
        def fam(n, nm):
            f = tz.uf(c.name(nm), *([tz.IS] * 4), tz.RS)
            a = SymTensor(tuple(shape) + (mkint(z3.simplify(I(n) + 1)),), lambda ix: fin(f(*[tz.iterm(x) for x in ix])), 'f')
            return a, f
        def h(op, loc, k):
            if op == 'init':
                a = loc['risk_arr']
                q = sym_idx(*shape)
                e = a.atf(*q, I(0))
                c.prove('one column before the first age', And(I(a.shape[3]) == 1, *[B(I(x) == I(y)) for x, y in zip(a.shape, shape)]))
                c.prove('no error at the first age', And(Not(e.nan), Not(e.inf), e.v == 0))
                return None
            if op in ('havoc', 'exit'):
                a, f = fam(k, 'R')
                if op == 'exit': c.ghost = f
                else: st['a'], st['f'] = a, f; c.assume(True)
                c.reg.declare_inv(f, lambda z: [Implies(z.children()[3] == 0, z == 0), z >= 0])
                return {'risk_arr': a}
            a, f = loc['risk_arr'], st['f']
            q = sym_idx(*shape)
            p = z3.simplify(I(k) - 1)
            c.prove('one column more', And(I(a.shape[3]) == I(k) + 1, *[B(I(x) == I(y)) for x, y in zip(a.shape, shape)]))
            j = z3.Int(c.name('col'))
            c.assume(And(j >= 0, j <= p))
            e = a.atf(*q, j)
            c.prove('earlier columns kept', And(Not(e.nan), Not(e.inf), e.v == f(*q, j)))
            e = a.atf(*q, I(k))
            c.prove('next column', And(Not(e.nan), Not(e.inf), e.v >= 0, step(q, p, f(*q, p), e.v)))
        return h
    return make


@contract('C13', 'methods.mack.MackChainladder._mack_recursion', grid(g=['YY', 'QQ', 'MM'], extra=[1, 3], est=['parameter_risk_', 'process_risk_']))
def risk_by_origin(c, g, extra, est):
    """risk of an origin at the next age: sqrt((factor * risk)^2 + (completed amount * standard error)^2) beyond the
    valuation date, none up to it"""
    import chainladder as cl
    X, l, cdf, F, jd = mack_case(c, g, extra)
    D = I(X.shape[3])
    fs, cs, Fs = l.values.snap(), cdf.values.snap(), F.values.snap()
    if est == 'parameter_risk_': S = X.std_err_
    else:
        S = triangle('FSE', og=g[0], dg=g[1], cumulative=True, dims=list(X.shape), o0=X._vc['o0'], d0=X._vc['d0'], nan=False, inv=lambda i, x: [x.v >= 0], val=X.valuation_date)
    se = S.values.snap()
    o = cl.MackChainladder()
    vm = X.valuation_date.month_term
    row = (lambda i: I(0)) if est == 'parameter_risk_' else (lambda i: i)
    def step(q, j, prev, new):
        k, m, i = q
        f = If(j < D - 1, fs((k, m, I(0), j)).v, cs((k, m, I(0), D - 1)).v)
        x = N0(Fs((k, m, i, j))) * se((k, m, row(i), j)).v
        future = Or(j == D - 1, vmonth(X, i, j + 1) > vm)
        return If(future, new * new == (f * prev) * (f * prev) + x * x, new == 0)
    c.loopinv = {'_mack_recursion#0': recursion(c, X.shape[:3], step)}
    with stub_cdf(l, cdf), stub(cl.MackChainladder, '_get_full_std_err_', lambda self, X=None: S):
        r = o._mack_recursion(est, X)
    k, m, i, j = sym_idx(*r.shape)
    c.prove('one column per age and the ultimate', And(*[B(I(a) == I(b)) for a, b in zip(r.shape, (X.shape[0], X.shape[1], X.shape[2], D + 1))]))
    e = r.values.atf(k, m, i, j)
    c.prove('the accumulated risk', And(Not(e.nan), Not(e.inf), e.v == c.ghost(k, m, i, j)))
    c.prove('valued like the completed triangle', r.valuation_date is F.valuation_date or r.valuation_date.at(()) == F.valuation_date.at(()))
    c.prove('ages', r.ddims.at((j,)) == If(j < D, X._vc['d0'] + X._vc['dg'] * j, I(9999)))
    c.prove('inputs untouched', And(*[not t.values.buf.writes for t in (X, F, l, cdf, S)]))


AVG = {'regression': 0, 'volume': 1, 'simple': 2}


@contract('C13', 'methods.mack.MackChainladder._get_full_std_err_ core.base.TriangleBase.valuation', grid(g=['YY', 'QQ', 'MM'], avg=['regression', 'volume', 'simple']),
          assumes=['Development.average_: the same averaging at every age'])
def full_std_err(c, g, avg):
    """standard error of a link ratio: sigma / sqrt(completed amount ^ (2 - exponent of the averaging)), dropped link ratios carry none"""
    import chainladder as cl
    X, l, cdf, F, jd = mack_case(c, g, 1)
    D, O = I(X.shape[3]), I(X.shape[2])
    vm = X.valuation_date.month_term
    w = tz.sym_tensor('W', (X.shape[0], X.shape[1], X.shape[2], mkint(z3.simplify(D - 1))), 'f', inv=lambda i, x: [Or(x.v == 1, x.v == 0)])
    X.w_ = w
    from vc.load import FamList
    X.average_ = FamList(mkint(z3.simplify(D - 1)), lambda k: avg)
    Fs, Sg, ws = F.values.snap(), X.sigma_.values.snap(), w.snap()
    with stub(cl.MackChainladder, 'full_triangle_', property(lambda self: F)):
        r = cl.MackChainladder()._get_full_std_err_(X)
    k, m, i, j = sym_idx(*X.shape)
    c.prove('one per origin and age', And(*[B(I(a) == I(b)) for a, b in zip(r.shape, X.shape)]))
    e, x, s = r.values.atf(k, m, i, j), Fs((k, m, i, j)), Sg((k, m, I(0), j)).v
    p = {'regression': x.v * x.v, 'volume': x.v, 'simple': ONE}[avg]
    y = ws((k, m, i, j))
    out = And(j < D - 1, Not(y.nan), y.v == 0, vmonth(X, i, j) < vm)
    c.prove('sigma over the root of the weight', Implies(And(Not(x.nan), x.v > 0, Not(out)), And(Not(e.nan), Not(e.inf), e.v >= 0, e.v * e.v * p == s * s)))
    c.prove('excluded link ratios of the past carry none', Implies(out, And(Not(e.nan), e.v == 0)))
    c.prove('no amount, no error', Implies(And(Or(x.nan, x.v <= 0), B(avg == 'volume')), And(Not(e.nan), e.v == 0)))
    c.prove('inputs untouched', And(*[not t.values.buf.writes for t in (X, F, X.sigma_)], not w.buf.writes))


@contract('C13', 'methods.mack.MackChainladder.mack_std_err_ methods.mack.MackChainladder.total_process_risk_ core.dunders.TriangleDunders.__pow__ core.dunders.TriangleDunders.__add__ core.pandas.TrianglePandas.sum core.pandas.TrianglePandas.sqrt', grid(g=['YY', 'QQ', 'MM']))
def totals(c, g):
    """the standard error of an origin combines its two risks; the process risk of all origins combines those of each"""
    import chainladder as cl
    o = cl.MackChainladder()
    P = triangle('P', og=g[0], dg=g[1], cumulative=True, ult=True, nan=False, inv=lambda i, x: [x.v >= 0])
    Q = triangle('Q', og=g[0], dg=g[1], cumulative=True, ult=True, nan=False, dims=list(P.shape), inv=lambda i, x: [x.v >= 0], val=P.valuation_date)
    for t in (P, Q): c.assume(And(*[I(n) >= 2 for n in t.shape]))
    Q.kdims, Q.vdims, Q.odims, Q.ddims = P.kdims, P.vdims, P.odims, P.ddims
    import pandas as pd
    P.valuation_date = Q.valuation_date = pd.Timestamp(cl.options.ULT_VAL)      # as _mack_recursion leaves it
    c.assume(vmonth(P, I(P.shape[2]) - 1, I(P.shape[3])) < 12 * 290)
    ps, qs = P.values.snap(), Q.values.snap()
    o.parameter_risk_, o.process_risk_ = P, Q
    with stubs.storage():
        r = o.mack_std_err_
        k, m, i, j = sym_idx(*P.shape)
        e, a, b = r.values.atf(k, m, i, j), ps((k, m, i, j)).v, qs((k, m, i, j)).v
        c.prove('one per origin and age', And(*[B(I(x) == I(y)) for x, y in zip(r.shape, P.shape)]))
        c.prove('square root of the sum of the squared risks', And(Not(e.inf), N0(e) >= 0, N0(e) * N0(e) == a * a + b * b))
        t = o.total_process_risk_
    c.prove('one origin', And(I(t.shape[2]) == 1, *[B(I(t.shape[x]) == I(P.shape[x])) for x in (0, 1, 3)]))
    e = t.values.atf(k, m, I(0), j)
    S = tz.sum_over(P.shape[2], lambda x: qs((k, m, x, j)).v * qs((k, m, x, j)).v)
    c.prove('root of the sum of the squares', And(Not(e.inf), N0(e) >= 0, N0(e) * N0(e) == S))
    c.prove('inputs untouched', And(not P.values.buf.writes, not Q.values.buf.writes))


def minus_stub(c, F, X, got):
    """contract of the difference of triangles on the same origins (verified: contracts/c03): ages of the longer one,
    missing counts as zero (whether a zero is stored as missing is left open)"""
    import chainladder as cl, copy
    real = cl.Triangle.__sub__
    def sub(a, b):
        if a is not F: return real(a, b)
        k = z3.Int(c.name('ms'))
        if not tz.same_dim(b.shape[2], F.shape[2]): raise AssertionError('difference of triangles on other origins')
        c.lemma('precondition of the difference: origins of the data', Implies(And(k >= 0, k < I(b.shape[2])), b.odims.at((k,)) == F.odims.at((k,))))
        c.lemma('precondition of the difference: ages of the data', Implies(And(k >= 0, k < I(b.shape[3])), And(b.ddims.at((k,)) == X.ddims.at((k,)), I(b.shape[3]) == I(X.shape[3]))))
        r = copy.copy(F)
        f, g, D = F.values.snap(), b.values.snap(), I(X.shape[3])
        nf = tz.uf(c.name('subnan'), *([tz.IS] * 4), tz.BS)
        def el(ix):
            ix = tuple(tz.iterm(x) for x in ix)
            v = N0(f(ix)) - If(ix[3] < D, N0(g(ix)), ZERO)
            return tz.X(And(nf(*ix), v == 0), False, v)
        r.values = SymTensor(F.shape, el, 'f')
        r._set_slicers()
        got.append(b)
        return r
    return stub(cl.Triangle, '__sub__', sub)


@contract('C13', 'methods.mack.MackChainladder._mack_recursion core.slice.TriangleSlicer._slice_valuation core.slice.Ilocation.__getitem__ core.pandas.TrianglePandas.sum core.dunders.TriangleDunders.__mul__', grid(g=['YY', 'QQ', 'MM'], extra=[1, 3]),
          assumes=['core.dunders.TriangleDunders.__sub__ of the completed triangle and the past on different ages: contract verified in c03', 'core.slice._LocBase.get_idx: drops origins and ages with no selected cell (contracts c05)'])
def total_parameter_risk(c, g, extra):
    """parameter risk of all origins: the recursion on the sum of the amounts still to be developed at each age"""
    import chainladder as cl
    import chainladder.core.slice as sl
    X, l, cdf, F, jd = mack_case(c, g, extra)
    D, O = I(X.shape[3]), X.shape[2]
    fs, cs, Fs, xs, se = l.values.snap(), cdf.values.snap(), F.values.snap(), X.values.snap(), X.std_err_.values.snap()
    vm = X.valuation_date.month_term
    import pandas as pd
    c.assume(vmonth(X, I(O) - 1, I(l.shape[3])) < 12 * 290)
    one = (X.shape[0], X.shape[1], 1)
    def step(q, j, prev, new):
        k, m, i = q
        f = If(j < D - 1, fs((k, m, I(0), j)).v, cs((k, m, I(0), D - 1)).v)
        s = tz.sum_over(O, lambda b: (N0(Fs((k, m, b, j))) - If(vmonth(X, b, j) < vm, N0(xs((k, m, b, j))), ZERO)) * se((k, m, I(0), j)).v)
        return new * new == (f * prev) * (f * prev) + s * s
    c.loopinv = {'_mack_recursion#0': recursion(c, one, step)}
    got, real = [], sl._LocBase.get_idx
    with stubs.storage(), stub_cdf(l, cdf), stub(sl._LocBase, 'get_idx', lambda self, idx: self.obj if tz.same_dim(self.obj.shape[3], X.shape[3]) else real(self, idx)), minus_stub(c, F, X, got):
        r = cl.MackChainladder()._mack_recursion('total_parameter_risk_', X)
    k, m, i, j = sym_idx(*r.shape)
    c.prove('one column per age and the ultimate, all origins together', And(*[B(I(a) == I(b)) for a, b in zip(r.shape, one + (D + 1,))]))
    e = r.values.atf(k, m, i, j)
    c.prove('the accumulated risk', And(Not(e.nan), Not(e.inf), e.v == c.ghost(k, m, i, j)))
    c.prove('ages', r.ddims.at((j,)) == If(j < D, X._vc['d0'] + X._vc['dg'] * j, I(9999)))
    c.prove('inputs untouched', And(*[not t.values.buf.writes for t in (X, F, l, cdf, X.std_err_)]))
