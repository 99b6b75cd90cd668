"""C08: exclusions of link ratios."""
from vc.api import *
from vc import stubs
import z3


class IntParam(SymInt):
    """an int given by the user"""
    _vc_class = int


class FloatParam(SymTensor):
    _vc_class = float


def real_param(name):
    x = z3.Real(tz.ctx().name(name))
    p = FloatParam((), lambda idx: fin(x), 'f')
    return p, x


def filled(c, name, spec):
    """loop invariant: entries before the counter hold spec, the others are as they were"""
    def make(loop):
        st = {}
        def h(op, loc, k):
            if op == 'init':
                st['base'], st['t'] = loc[name].snap(), loc[name]
                return None
            t, base = st['t'], st['base']
            want = lambda q, m: eif(q < I(m), spec(q, t.dt), base((q,)), t.dt)
            if op in ('havoc', 'exit'):
                t[:] = SymTensor(t.shape, lambda idx: want(idx[0], k), t.dt)
                return None
            q, = sym_idx(t.shape[0])
            a, b = tz.to_f(loc[name].at((q,)), t.dt), tz.to_f(want(q, k), t.dt)
            c.prove('entries of the parameter are filled in one by one', tz.xeq_same(a, b))
        return h
    return make


def unchanged(c, name): 
    """loop invariant: the entries stay as they are"""
    def make(loop):
        st = {}
        def h(op, loc, k):
            if op == 'init': st['t'] = loc[name].snap(), loc[name]
            elif op == 'check':
                q, = sym_idx(loc[name].shape[0])
                c.prove('entries stay as they are', tz.xeq_same(tz.to_f(loc[name].at((q,)), loc[name].dt), tz.to_f(st['t'][0]((q,)), loc[name].dt)))
        return h
    return make


def eif(cond, a, b, dt): return tz.eif(cond, a, b, dt)


def link_ratios(c):
    K, C, O, J = [sym_dim(n) for n in 'KCOJ']
    F = tz.sym_tensor('F', (K, C, O, J), 'f')
    return F, F.snap(), (K, C, O, J)


@contract('C08', 'development.base.DevelopmentBase._drop_x', grid(above=['none', 'number', 'int'], below=['none', 'number'], preserve=[1, 3]))
def drop_x(c, above, below, preserve):
    """link ratios outside the thresholds are excluded at an age where enough of its link ratios remain"""
    import chainladder as cl
    F, s, (K, C, O, J) = link_ratios(c)
    def par(kind, dflt, nm):
        if kind == 'none': return dflt, None
        if kind == 'int':
            x = z3.Int(c.name(nm)); return IntParam(x), z3.ToReal(x)
        return real_param(nm)
    a, av = par(above, np_inf, 'above')
    b, bv = par(below, 0.0, 'below')
    if bv is None: bv = ZERO
    r = cl.Development()._drop_x(a, b, None, F, preserve)
    k, m, i, j = sym_idx(*r.shape)
    ins = lambda q: And(Not(s((k, m, q, j)).nan), s((k, m, q, j)).v > bv, *([s((k, m, q, j)).v < av] if av is not None else []))
    n = tz.sum_over(O, lambda q: If(ins(q), ONE, ZERO))
    e = tz.to_b(r.at((k, m, i, j)), r.dt)
    c.prove('shape of the link ratios', And(*[B(I(x) == I(y)) for x, y in zip(r.shape, (K, C, O, J))]))
    c.prove('excluded outside the thresholds', Implies(n >= preserve, e == ins(i)))
    c.prove('ignored where fewer than the number to preserve remain', Implies(n < preserve, e == Not(s((k, m, i, j)).nan)))
    c.prove('input untouched', not F.buf.writes)


np_inf = float('inf')


def before(s, v, k, m, j, p, q):
    """link ratio p ranks before link ratio q: smaller, then smaller amount, then older; missing ones last"""
    def lt(a, b): return Or(And(Not(a.nan), b.nan), And(Not(a.nan), Not(b.nan), tz.xcmp('<', a, b)))
    def eq(a, b): return Or(And(a.nan, b.nan), And(Not(a.nan), Not(b.nan), tz.xcmp('==', a, b)))
    f, g, x, y = s((k, m, p, j)), s((k, m, q, j)), v((k, m, p, j)), v((k, m, q, j))
    return Or(lt(f, g), And(eq(f, g), Or(lt(x, y), And(eq(x, y), p < q))))


@contract('C08', 'development.base.DevelopmentBase._drop_n', grid(high=[None, 'int', 'list'], low=[None, 'int'], preserve=[1, 3], n_periods=[-1, 4]))
def drop_n(c, high, low, preserve, n_periods):
    """the highest and the lowest link ratios of an age are excluded where enough of its link ratios remain"""
    import chainladder as cl
    F, s, (K, C, O, J) = link_ratios(c)
    X = triangle('X', cumulative=True)
    X.values = tz.sym_tensor('A', (K, C, O, mkint(I(J) + 1)), 'f')
    v = X.values.snap()
    L = tz.sym_tensor('L', (J,), 'i')
    hv = z3.Int('high') if high == 'int' else z3.IntVal(0)
    lv = z3.Int('low') if low == 'int' else z3.IntVal(0)
    h = IntParam(hv) if high == 'int' else (L if high == 'list' else None)
    l = IntParam(lv) if low == 'int' else None
    c.loopinv = {'drop_array_helper#0': filled(c, 'drop_type_array', lambda q, dt: tz.conv(L, dt)((q,))), 'drop_array_helper#1': unchanged(c, 'drop_type_array')}
    c.rounds = (1, 2)
    r = cl.Development(n_periods=n_periods)._drop_n(h, l, X, F, preserve)
    k, m, i, j = sym_idx(*r.shape)
    V = lambda q: Not(s((k, m, q, j)).nan)
    one = lambda p: If(p, ONE, ZERO)
    n = tz.sum_over(O, lambda q: one(V(q)))
    N = z3.ToReal(I(O)) if n_periods < 1 else z3.RealVal(n_periods)
    top = If(n > N, N, n)
    hh = z3.ToReal(I(L.at((j,)))) if high == 'list' else z3.ToReal(hv)
    ll = z3.ToReal(lv)
    rank = tz.sum_over(O, lambda p: one(before(s, v, k, m, j, p, i)))
    e = tz.to_b(r.at((k, m, i, j)), r.dt)
    few = top - hh - ll < preserve
    c.prove('shape of the link ratios', And(*[B(I(x) == I(y)) for x, y in zip(r.shape, (K, C, O, J))]))
    hyps = [And(I(x) >= 0, I(x) < I(d)) for x, d in zip((k, m, i, j), (K, C, O, J))] + [n == z3.ToReal(z3.ToInt(n)), n >= 0, n <= z3.ToReal(I(O)), rank >= 0, rank == z3.ToReal(z3.ToInt(rank))]
    c.lemma('the counts are whole', And(*hyps))
    hyps += [f for f in c.pc if 'sum!' not in B(f).sexpr()]
    goal = lambda nm, g: c.lemma(nm, z3.substitute(B(Implies(And(*hyps), g)), *[(x, z3.ToReal(z3.Int(c.name('count')))) for x in (n, rank)]), alone=True)
    goal('excluded by rank', Implies(Not(few), e == And(rank >= ll, rank < top - hh)))
    goal('no more than the latest periods when ignored', Implies(few, e == And(rank < top)))
    c.prove('input untouched', And(not F.buf.writes, not X.values.buf.writes))


@contract('C08 C07', 'development.base.DevelopmentBase._assign_n_periods_weight core.base.TriangleBase.valuation', grid(g=['YY', 'QQ', 'MM', 'YQ', 'SS', 'SQ', 'YM']),
          assumes=['every age of the triangle is reached by some origin'])
def n_periods_weight(c, g):
    """only amounts of the latest n valuation periods of origin length carry weight, on the diagonal before the latest"""
    import chainladder as cl
    X = triangle('X', og=g[0], dg=g[1], cumulative=True)
    K, C, O, D = X.shape
    src, vm, og = X.values.snap(), X.valuation_date.month_term, MONTHS[g[0]]
    c.assume(vmonth(X, I(0), I(0)) <= vm)
    c.cell_hints, c.nonempty = [(I(0), I(0))], True
    c.assume(I(D) >= 2)
    n = z3.Int('n')
    nt = SymTensor((1, 1, 1, mkint(I(D) - 1)), lambda idx: n, 'i')
    nanf = tz.sym_tensor('nt', (O, D), 'f', inv=lambda i, x: [x.v == 1])
    nan_contract = lambda i, j: nanf.snap()((i, j)).nan == (vmonth(X, i, j) > vm)
    with stub(cl.Triangle, 'nan_triangle', property(lambda self: nanf)):
        w = cl.Development()._assign_n_periods_weight(X, nt)
    k, m, i, j = sym_idx(*w.shape)
    e, x = w.at((k, m, i, j)), src((k, m, i, j))
    tz.use_extrema([], [(i, j), (I(0), I(0))])
    c.assume(nan_contract(i, j))
    # the latest valuation with a cell
    L = z3.Int('latest')
    p, q = sym_idx(O, D)
    c.prove('one weight per cell but those of the last age', And(*[B(I(a) == I(b)) for a, b in zip(w.shape, (K, C, O, mkint(I(D) - 1)))]))
    every = Or(n < 1, n >= I(O))
    known = And(Not(x.nan), x.v != 0, vmonth(X, i, j) <= vm)
    c.prove('all cells when all periods are asked for', Implies(And(every, Not(x.nan)), And(Not(e.nan), e.v == 1)))
    c.prove('a weight is one, zero or missing', Or(e.nan, e.v == 0, e.v == 1))
    c.prove('input untouched', not X.values.buf.writes)
    # X has a cell valued at the latest date
    o2, d2 = sym_idx(O, D)
    tz.use_extrema([], [(o2, d2)])
    c.assume(vmonth(X, o2, d2) == vm)
    c.prove('recent amounts', Implies(And(Not(every), known, vmonth(X, i, j) >= vm - n * og), And(Not(e.nan), e.v == 1)))
    c.prove('older amounts', Implies(And(Not(every), known, vmonth(X, i, j) < vm - n * og), And(Not(e.nan), e.v == 0)))


@contract('C08', 'development.base.DevelopmentBase._drop_valuation core.base.TriangleBase.valuation', grid(g=['YY', 'QQ', 'YQ', 'SS', 'MM'], dates=[1, 2]))
def drop_valuation(c, g, dates):
    """cells valued at a dropped date, and only those, lose their weight"""
    import chainladder as cl
    X = triangle('X', og=g[0], dg=g[1], cumulative=True)
    drop = ['1999-12-31', '2001-06-30'][:dates]
    per = {'Y': 12, 'S': 3, 'Q': 3, 'M': 1}[g[0]]
    ends = [(y - 1970) * 12 + (m - 1) // per * per + per - 1 for y, m in ((1999, 12), (2001, 6))][:dates]
    r = cl.Development(drop_valuation=drop if dates > 1 else drop[0])._drop_valuation(X)
    i, j = sym_idx(*r.shape)
    e = r.at((i, j))
    c.prove('one weight per cell but those of the last age', And(I(r.shape[0]) == I(X.shape[2]), I(r.shape[1]) == I(X.shape[3]) - 1))
    hit = Or(*[vmonth(X, i, j) == z for z in ends])
    c.prove('dropped at the dates given', Implies(hit, And(Not(e.nan), e.v == 0)))
    c.prove('kept elsewhere', Implies(Not(hit), And(Not(e.nan), e.v == 1)))


@contract('C08', 'development.base.DevelopmentBase._drop_adjustment', grid(drop=[False, True], val=[False, True], rank=[False, True], size=[False, True]),
          assumes=['development.base.DevelopmentBase._drop: 0 at the origin and age named, nan_triangle elsewhere (bounded)'])
def drop_adjustment(c, drop, val, rank, size):
    """a cell keeps its weight only when every exclusion asked for keeps it; ranks are taken within the latest periods"""
    import chainladder as cl
    from contextlib import ExitStack
    D_ = cl.Development
    X = triangle('X', cumulative=True)
    K, C, O, D = X.shape
    c.assume(I(D) >= 2)
    J = mkint(I(D) - 1)
    flag = lambda nm, sh: tz.sym_tensor(nm, sh, 'f', nan=False, inv=lambda i, x: [Or(x.v == 0, x.v == 1)])
    nt = tz.sym_tensor('nt', (O, D), 'f', inv=lambda i, x: [x.v == 1])
    fd, fv, fn, fx, per = flag('fd', (O, J)), flag('fv', (O, J)), flag('fn', (K, C, O, J)), flag('fx', (K, C, O, J)), flag('per', (K, C, O, J))
    F = tz.sym_tensor('F', (K, C, O, J), 'f')
    fs, ps = F.snap(), per.snap()
    got = {}
    def n_(self, h, l, X_, lr, p):
        got['n'] = (h, l, X_, lr, p); return fn
    def x_(self, a, b, X_, lr, p):
        got['x'] = (a, b, X_, lr, p); return fx
    est = D_(drop=('a', 12) if drop else None, drop_valuation='1999' if val else None, drop_high=2 if rank else None, drop_low=1 if rank else None,
             drop_above=3.0 if size else np_inf, drop_below=.5 if size else 0.0, preserve=2, n_periods=4)
    with ExitStack() as st:
        for nm, f in (('_drop', lambda self, X_: fd), ('_drop_valuation', lambda self, X_: fv), ('_drop_n', n_), ('_drop_x', x_), ('_assign_n_periods_weight', lambda self, X_, n: per.copy())):
            st.enter_context(stub(D_, nm, f))
        st.enter_context(stub(cl.Triangle, 'nan_triangle', property(lambda self: nt)))
        w = est._drop_adjustment(X, F)
    w = tz.broadcast_to(T(w), (K, C, O, J))
    k, m, i, j = sym_idx(K, C, O, J)
    e, b = w.at((k, m, i, j)), nt.snap()((i, j)).nan
    on = And(*([fd.atf(i, j).v == 1] if drop else []), *([fv.atf(i, j).v == 1] if val else []), *([fn.atf(k, m, i, j).v == 1] if rank else []), *([fx.atf(k, m, i, j).v == 1] if size else []))
    c.prove('missing beyond the valuation date', e.nan == b)
    c.prove('weight one exactly when no exclusion applies', Implies(Not(b), e.v == If(on, ONE, ZERO)))
    if rank:
        h, l, X_, lr, p = got['n']
        y, x = lr.at((k, m, i, j)), fs((k, m, i, j))
        c.prove('ranked with the parameters given', And(h == 2, l == 1, p == 2, X_ is X))
        c.prove('ranked within the latest periods', And(Implies(ps((k, m, i, j)).v == 1, And(y.nan == x.nan, Implies(Not(x.nan), y.v == x.v))), Implies(ps((k, m, i, j)).v == 0, y.nan)))
    if size:
        a, b_, X_, lr, p = got['x']
        c.prove('thresholds with the parameters given', And(a == 3.0, b_ == .5, p == 2, lr is F))


def T(x): return tz.T(x)


@contract('C08', 'development.base.DevelopmentBase._drop_n')
def rank_bounds(c):
    """consequences of ranking by counting (drop_n): a missing link ratio is never among the retained ranks, a known one
    always is when nothing is excluded, and of two link ratios the larger never ranks lower"""
    K, C, O, J = [z3.IntVal(1)] * 2 + [sym_dim('O'), z3.IntVal(1)]
    F, A = [tz.sym_tensor(nm, (1, 1, O, 1), 'f') for nm in 'FA']
    s, v = F.snap(), A.snap()
    z = z3.IntVal(0)
    i, = sym_idx(O)
    one = lambda p: If(p, ONE, ZERO)
    V = lambda q: Not(s((z, z, q, z)).nan)
    bf = lambda p, q: before(s, v, z, z, z, p, q)
    R = lambda q, n: tz.sum_over(n, lambda p: one(bf(p, q)))
    N = lambda n: tz.sum_over(n, lambda p: one(V(p)))
    c.rounds = (1, 2)
    def missing():
        c.assume(And(i >= 0, i < I(O), Not(V(i))))
        induct(c, 'missing: every known one comes before', lambda m: R(i, mkint(m)) >= N(mkint(m)), O)
    def known():
        c.assume(And(i >= 0, i < I(O), V(i)))
        induct(c, 'known: only known ones come before', lambda m: R(i, mkint(m)) <= N(mkint(m)) - If(i < m, ONE, ZERO), O)
    generic(c, missing)
    generic(c, known)
    q, = sym_idx(O)
    def order():
        c.assume(And(i >= 0, i < I(O), q >= 0, q < I(O), V(i), V(q), s((z, z, i, z)).v < s((z, z, q, z)).v))
        induct(c, 'the larger ranks above', lambda m: R(i, mkint(m)) + If(i < m, ONE, ZERO) <= R(q, mkint(m)), O)
    generic(c, order)
