"""C04 bounded stand-in: operations and estimators leave their inputs as they were."""
from common import *

OPS = {
 'incr': lambda t, u: t.cum_to_incr(), 'cum': lambda t, u: t.incr_to_cum(), 'd2v': lambda t, u: t.dev_to_val(), 'v2d': lambda t, u: t.dev_to_val().val_to_dev(),
 'add': lambda t, u: t + u, 'sub': lambda t, u: t - u, 'mul': lambda t, u: t * u, 'div': lambda t, u: t / u, 'adds': lambda t, u: t + 1, 'rsub': lambda t, u: 1 - t,
 'rdiv': lambda t, u: 1 / t, 'pow': lambda t, u: t ** 2, 'neg': lambda t, u: -t, 'abs': lambda t, u: abs(t), 'lt': lambda t, u: t < 500.0, 'eq': lambda t, u: t == u,
 'add1': lambda t, u: t + u.iloc[..., :1], 'addo': lambda t, u: t + u.iloc[:, :, 1:, :], 'addo1': lambda t, u: u.iloc[:, :, :1, :] + t, 'addc': lambda t, u: t + u[[u.columns[0]]],
 'addr': lambda t, u: u.iloc[:1] + t,
 'iloc': lambda t, u: t.iloc[:1], 'iloc2': lambda t, u: t.iloc[..., 1:, :], 'iloc3': lambda t, u: t.iloc[..., :-1], 'loc': lambda t, u: t.loc[..., :t.development.iloc[-1]],
 'col': lambda t, u: t[t.columns[0]], 'cols': lambda t, u: t[list(t.columns)], 'orig': lambda t, u: t[t.origin > t.origin[0]], 'val': lambda t, u: t[t.valuation < t.valuation_date],
 'dev': lambda t, u: t[t.development <= t.ddims[-1]], 'sum0': lambda t, u: t.sum(0), 'sum1': lambda t, u: t.sum(1), 'sum2': lambda t, u: t.sum(2), 'sum3': lambda t, u: t.sum(3),
 'mean': lambda t, u: t.mean(2), 'max': lambda t, u: t.max(2), 'std': lambda t, u: t.std(2), 'prod': lambda t, u: t.prod(3), 'gb': lambda t, u: t.groupby(t.key_labels[0]).sum(),
 'gbo': lambda t, u: t.groupby('origin', axis=2).sum() if False else t.sum(), 'latest': lambda t, u: t.latest_diagonal, 'lr': lambda t, u: t.link_ratio, 'grain': lambda t, u: t.grain('OYDY'),
 'trend': lambda t, u: t.trend(.05), 'trendv': lambda t, u: t.trend(.05, axis='valuation'), 'drop': lambda t, u: t.drop(t.columns[0], axis=1) if len(t.columns) > 1 else t, 'dropna': lambda t, u: t.dropna(),
 'fillna': lambda t, u: t.fillna(0), 'fillzero': lambda t, u: t.fillna(1.0), 'rename': lambda t, u: t.copy().rename('columns', ['x%d' % i for i in range(len(t.columns))]),
 'sparse': lambda t, u: t.set_backend('sparse'), 'numpy': lambda t, u: t.set_backend('numpy'), 'copy': lambda t, u: t.copy(), 'frame': lambda t, u: t.to_frame(keepdims=True),
 'frame2': lambda t, u: t.to_frame(), 'json': lambda t, u: cl.read_json(t.to_json()), 'concat': lambda t, u: cl.concat((t, u.copy().rename('columns', ['c%d' % i for i in range(u.shape[1])])), axis=1), 'concat0': lambda t, u: cl.concat((t.iloc[:1], t.iloc[1:]), axis=0),
 'minimum': lambda t, u: np.minimum(t, u) if False else t.minimum(u), 'maximum': lambda t, u: t.maximum(u), 'sqrt': lambda t, u: t.sqrt() if False else t.exp() if False else t.log(),
 'assign': lambda t, u: t.assign(zz=lambda x: x[x.columns[0]] * 2) if False else t.copy(), 'shift': lambda t, u: t.shift(1), 'head': lambda t, u: t.head(), 'sort': lambda t, u: t.sort_index(),
 'idx': lambda t, u: t.index, 'nan': lambda t, u: t.nan_triangle, 'repr': lambda t, u: repr(t), 'round': lambda t, u: t.round(1), 'reindex': lambda t, u: t.reindex(columns=list(t.columns) + ['q'], fill_value=0),
 'heat': lambda t, u: t.is_full, 'T': lambda t, u: t.T, 'xs': lambda t, u: t.xs(t.index.iloc[0, 0]) if len(t.key_labels) == 1 else t, 'var': lambda t, u: t.var(2),
 'median': lambda t, u: t.median(2), 'min': lambda t, u: t.min(2), 'quantile': lambda t, u: t.quantile(q=.5, axis=2), 'dropd': lambda t, u: t.iloc[..., ::2], 'broadcast': lambda t, u: t.iloc[:1].broadcast_axis('columns', ['a', 'b']) if t.shape[1] == 1 else t,
}

def _set(t, u, key):
    q = t.copy()
    w = u[[u.columns[-1]]]
    s = snapshot(w)
    q[key] = w
    if snapshot(w) != s: raise Fail('assigning a triangle as column %s changed it' % key)
    return q


def _setiloc(t, u):
    q = t.copy().set_backend('numpy')
    q.iloc[:, 0] = u.iloc[:, -1].set_backend('numpy')
    return q


OPS['setcol'] = lambda t, u: _set(t, u, t.columns[-1])
OPS['setcol0'] = lambda t, u: _set(t, u, t.columns[0])
OPS['setnew'] = lambda t, u: _set(t, u, 'brandnew')
OPS['setiloc'] = _setiloc

# fit() pushes triangle-derived objects through every public estimator that is deterministic
def ESTS():
    d = cl.Development
    return {
 'dev': lambda: d(), 'devs': lambda: d(average='simple', n_periods=3), 'devr': lambda: d(average='regression'), 'devdrop': lambda: d(drop_high=True, drop_low=True, preserve=1),
 'devval': lambda: d(drop_valuation='2001'), 'devabove': lambda: d(drop_above=3.0), 'devconst': lambda: cl.DevelopmentConstant(patterns={12 * k: 1 + 1. / k for k in range(1, 400)}, style='ldf') ,
 'inc': None, 'tailc': lambda: cl.TailConstant(1.05), 'tailcurve': lambda: cl.TailCurve(), 'tailbondy': lambda: cl.TailBondy(), 'cl': lambda: cl.Chainladder(), 'mack': lambda: cl.MackChainladder(),
 'bf': lambda: cl.BornhuetterFerguson(), 'bk': lambda: cl.Benktander(n_iters=3), 'cc': lambda: cl.CapeCod(trend=.02, decay=.9), 'el': lambda: cl.ExpectedLoss(.7), 'trend': lambda: cl.Trend(.05),
 'munich': None, 'clark': lambda: cl.ClarkLDF(), 'pipe': lambda: cl.Pipeline([('d', cl.Development()), ('t', cl.TailConstant(1.1)), ('m', cl.Chainladder())]),
 'vote': lambda: cl.VotingChainladder([('a', cl.Chainladder()), ('b', cl.Benktander(n_iters=2))], weights=None),
 'tweedie': None, 'barnett': None, 'disposal': None,
}


def cases(r, tier):
    ops, ests = sorted(OPS), sorted(k for k, v in ESTS().items() if v)
    while True:
        p = rnd_case(r, cuts=1)
        u = r.random()
        p['vcol'] = r.random() < .4
        p['mode'] = 'op' if u < .7 else 'est'
        if p['mode'] == 'op': p['names'] = [r.choice(ops) for _ in range(8)]
        else:
            p.update(holes=0, zeros=0, neg=r.choice([0, 0, .25]), pre=r.random() < .4, og=r.choice(['Y', 'Y', 'Q']), dg='Y', no=r.choice([5, 6, 7]), nd=None, shift=0)
            if p['og'] == 'Q': p['dg'] = 'Q'
            p['names'] = [r.choice(ests) for _ in range(3)]
        yield p


STAT = None


def addv(t):
    t['vv'] = lambda x: x[x.columns[0]] * 2
    return t


def poke(o):
    """mutate a returned triangle through the documented mutating interface"""
    if not isinstance(o, cl.Triangle) or 0 in o.shape: return
    c = o.columns[0]
    try: o['poke'] = lambda x: x[x.columns[0]] + 1
    except Exception: pass
    try: o['poke2'] = 1.0
    except Exception: pass
    if o.array_backend == 'numpy':
        try: o.iloc[0, 0, 0, 0] = -123456.0
        except Exception: pass
    try: o.iat[0, 0, 0, 0] = -654321.0
    except Exception: pass
    try: o.is_cumulative = not o.is_cumulative
    except Exception: pass
    try: o.rename('columns', ['n%d' % k for k in range(o.shape[1])])
    except Exception: pass


def check(p):
    t, u = make(p), make({**p, 'seed': p['seed'] + 1})
    if p['vcol']: t, u = addv(t), addv(u)
    if p['mode'] == 'op':
        for nm in p['names']:
            s, q = snapshot(t), snapshot(u)
            try: o = OPS[nm](t, u)
            except Fail: raise
            except Exception: o = None
            if STAT is not None: STAT[nm] = STAT.get(nm, 0) + (o is not None)
            if snapshot(t) != s: raise Fail('%s changed its operand: %s' % (nm, which(t, s)))
            if snapshot(u) != q: raise Fail('%s changed its second operand: %s' % (nm, which(u, q)))
            if o is not t and o is not u: poke(o)
            if snapshot(t) != s: raise Fail('changing the result of %s changed its operand: %s' % (nm, which(t, s)))
            if snapshot(u) != q: raise Fail('changing the result of %s changed its second operand: %s' % (nm, which(u, q)))
    else:
        E = ESTS()
        x = t.sum(1) if False else t
        sw = (x.latest_diagonal * 0 + 5000.0)
        if p.get('pre'): x = cl.Development().fit_transform(x)      # a triangle that carries a development pattern already
        kids = lambda: {k: snapshot(v) for k, v in vars(x).items() if isinstance(v, cl.Triangle)}
        sub0 = kids()
        def whole(nm):
            now = kids()
            for k in sub0:
                if now.get(k) != sub0[k]: raise Fail('%s changed the %s of its triangle' % (nm, k))
        for nm in p['names']:
            s, q = snapshot(x), snapshot(sw)
            e = E[nm]()
            par = {k: repr(v) for k, v in e.get_params(deep=False).items()}
            outs = []
            try:
                f = e.fit(x, sample_weight=sw) if nm in ('bf', 'bk', 'cc', 'el', 'vote') else e.fit(x)
            except Exception: f = None
            if STAT is not None: STAT[nm] = STAT.get(nm, 0) + (f is not None)
            if snapshot(x) != s: raise Fail('%s.fit changed its triangle: %s' % (nm, which(x, s)))
            if snapshot(sw) != q: raise Fail('%s.fit changed its sample_weight: %s' % (nm, which(sw, q)))
            whole(nm + '.fit')
            if f is None: continue
            if {k: repr(v) for k, v in e.get_params(deep=False).items()} != par and nm not in ('pipe', 'vote'): raise Fail('%s.fit changed its parameters' % nm)
            for meth in ('transform', 'predict'):
                if hasattr(f, meth):
                    fs = {k: snapshot(v) for k, v in vars(f).items() if isinstance(v, cl.Triangle) and k.endswith('_') and v is not x}
                    try: o = f.predict(x, sample_weight=sw) if meth == 'predict' and nm in ('bf', 'bk', 'cc', 'el', 'vote') else getattr(f, meth)(x)
                    except Exception: o = None
                    if snapshot(x) != s: raise Fail('%s.%s changed its triangle: %s' % (nm, meth, which(x, s)))
                    if snapshot(sw) != q: raise Fail('%s.%s changed its sample_weight: %s' % (nm, meth, which(sw, q)))
                    for k in fs:
                        if k in vars(f) and snapshot(getattr(f, k)) != fs[k]: raise Fail('%s.%s changed the fitted %s' % (nm, meth, k))
                    outs.append(o)
            for a in ('ultimate_', 'ibnr_', 'full_triangle_', 'full_expectation_', 'ldf_', 'cdf_', 'summary_', 'total_mack_std_err_', 'mack_std_err_', 'apriori_', 'detrended_apriori_', 'w_', 'std_residuals_'):
                try: outs.append(getattr(f, a))
                except Exception: pass
            whole(nm)
            if snapshot(x) != s: raise Fail('reading the results of %s changed its triangle: %s' % (nm, which(x, s)))
            for o in outs:
                if isinstance(o, cl.Triangle) and o is not x and o is not sw: poke(o)
            if snapshot(x) != s: raise Fail('changing the results of %s changed its triangle: %s' % (nm, which(x, s)))
            if snapshot(sw) != q: raise Fail('changing the results of %s changed its sample_weight: %s' % (nm, which(sw, q)))


def which(t, s):
    n = ['labels', 'amounts', 'valuation_date', 'is_cumulative', 'is_pattern', 'origin_grain', 'development_grain', 'origin_close', 'backend', 'virtual columns', 'view']
    return ', '.join(a for a, b, c in zip(n, s, snapshot(t)) if b != c)
