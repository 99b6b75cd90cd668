"""C17 bounded stand-in: the sparse and dense backends agree."""
from common import *

OPS = {
 'conv': lambda t, u: t, 'cum': lambda t, u: t.incr_to_cum(), 'incr': lambda t, u: t.cum_to_incr(), 'd2v': lambda t, u: t.dev_to_val(), 'v2d': lambda t, u: t.dev_to_val().val_to_dev(),
 'add': lambda t, u: t + u, 'sub': lambda t, u: t - u, 'mul': lambda t, u: t * u, 'div': lambda t, u: t / u, 'adds': lambda t, u: t + 3, 'subs': lambda t, u: 3 - t, 'muls': lambda t, u: t * .5,
 'divs': lambda t, u: t / 7, 'neg': lambda t, u: -t, 'abs': lambda t, u: abs(t), 'pow': lambda t, u: t ** 2, 'addo': lambda t, u: t + u.iloc[:, :, 1:, :], 'addd': lambda t, u: t + u.iloc[..., 1:],
 'addod': lambda t, u: u.iloc[:, :, :-1, :] - t.iloc[..., 1:], 'addr': lambda t, u: t + u.iloc[:1], 'addc': lambda t, u: u[[u.columns[-1]]] + t, 'addld': lambda t, u: t / u.iloc[..., :1], 'rdiv': lambda t, u: 1 / t,
 'sum0': lambda t, u: t.sum(0), 'sum1': lambda t, u: t.sum(1), 'sum2': lambda t, u: t.sum(2), 'sum3': lambda t, u: t.sum(3), 'gb': lambda t, u: t.groupby(t.key_labels[0]).sum(),
 'il0': lambda t, u: t.iloc[-1], 'il1': lambda t, u: t.iloc[:, ::-1], 'il2': lambda t, u: t.iloc[:, :, 1:], 'il3': lambda t, u: t.iloc[..., ::2], 'il4': lambda t, u: t.iloc[..., :2], 'cols': lambda t, u: t[list(t.columns)[::-1]],
 'org': lambda t, u: t[t.origin > t.origin[0]], 'val': lambda t, u: t[t.valuation < t.valuation_date], 'dev': lambda t, u: t[t.development <= t.ddims[min(2, len(t.ddims) - 1)]], 'lr': lambda t, u: t.incr_to_cum().link_ratio,
 'latest': lambda t, u: t.latest_diagonal, 'trend': lambda t, u: t.trend(.05), 'trendv': lambda t, u: t.trend(.05, axis='valuation'), 'grain': lambda t, u: t.grain('OYDY'), 'copy': lambda t, u: t.copy(), 'drop': lambda t, u: t.drop(t.columns[0], axis=1) if t.shape[1] > 1 else t,
 'dropna': lambda t, u: t.dropna(), 'concat': lambda t, u: cl.concat((t.iloc[:1], t.iloc[1:]), 0) if t.shape[0] > 1 else t, 'minimum': lambda t, u: t.minimum(u), 'maximum': lambda t, u: t.maximum(u), 'exp': lambda t, u: (t / 1e6),
 'setcol': lambda t, u: setcol(t, u, 'new'), 'setcol2': lambda t, u: setcol(t, u, t.columns[-1]), 'vcol': lambda t, u: vcol(t), 'fillna': lambda t, u: t.fillna(5.0), 'frame': lambda t, u: t.to_frame(keepdims=True), 'json': lambda t, u: cl.read_json(t.to_json()), 'index': lambda t, u: t.sort_index(),
 'reindex': lambda t, u: t.reindex(columns=list(t.columns)[::-1] + ['qq'], fill_value=0), 'shift': lambda t, u: t.shift(1), 'head': lambda t, u: t.head(2), 'tail': lambda t, u: t.tail(2), 'bcast': lambda t, u: t.iloc[:, :, 0] * u,
}
METH = {'cl': lambda: cl.Chainladder(), 'bf': lambda: cl.BornhuetterFerguson(.8), 'bk': lambda: cl.Benktander(.8, n_iters=3), 'cc': lambda: cl.CapeCod(.01, .95), 'el': lambda: cl.ExpectedLoss(.9),
        'tail': lambda: cl.Pipeline([('t', cl.TailConstant(1.07)), ('m', cl.Chainladder())]), 'dev': lambda: cl.Pipeline([('t', cl.Development(average='simple', n_periods=3)), ('m', cl.Chainladder())])}


def setcol(t, u, k):
    q = t.copy(); q[k] = u.iloc[:, 0] * 2
    return q


def vcol(t):
    q = t.copy(); q['zz'] = lambda x: x[x.columns[0]] * 3
    return q['zz']


def cases(r, tier):
    ops, ms = sorted(OPS), sorted(METH)
    while True:
        p = rnd_case(r, cuts=1)
        p['mode'] = 'op' if r.random() < .8 else 'meth'
        p['names'] = [r.choice(ops) for _ in range(6)] if p['mode'] == 'op' else [r.choice(ms) for _ in range(3)]
        p['chain'] = r.random() < .4
        if p['mode'] == 'meth': p.update(og='Y', dg='Y', no=r.choice([4, 5, 6]), nd=None, shift=0, holes=0, neg=0, zeros=0, cum=True)
        if p['mode'] == 'meth': p['agecut'] = None
        yield p


STAT = None
# operations the property does not list: sparse may refuse them, but not answer differently
OUTSIDE = {'setcol', 'setcol2', 'fillna', 'vcol', 'reindex', 'shift', 'frame', 'json', 'minimum', 'maximum', 'index'}


def run(f, *a):
    try: return f(*a), None
    except Exception as e: return None, e


def comp(nm, a, b):
    if not hasattr(a, 'ddims') or not hasattr(b, 'ddims'):
        if isinstance(a, pd.DataFrame):
            if list(a.columns) != list(b.columns): raise Fail('%s: frames differ in columns' % nm)
            need(diffarr(a.select_dtypes('number').values, b.select_dtypes('number').values, nm + ' '))
        else: need(diffarr(np.array(dense(a), float), np.array(dense(b), float), nm + ' '))
        return
    if labels(a) != labels(b): raise Fail('%s: labels differ between backends' % nm)
    need(diffarr(dense(a), dense(b), nm + ' '))
    for q in ('valuation_date', 'is_cumulative', 'is_pattern', 'origin_grain', 'development_grain'):
        if getattr(a, q) != getattr(b, q): raise Fail('%s: %s differs between backends' % (nm, q))


def check(p):
    t, u = make({**p, 'backend': 'numpy'}), make({**p, 'backend': 'numpy', 'seed': p['seed'] + 1})
    old = cl.options.AUTO_SPARSE if hasattr(cl.options, 'AUTO_SPARSE') else None
    for auto in ((True, False) if p['seed'] % 2 else (True,)):
        cl.options.AUTO_SPARSE = auto
        try:
            s, w = t.set_backend('sparse'), u.set_backend('sparse')
            comp('conversion', t, s)
            comp('conversion back', t, s.set_backend('numpy'))
            comp('double conversion', s, t.set_backend('numpy').set_backend('sparse'))
            if p['mode'] == 'op':
                a, b = t, s
                for nm in p['names']:
                    x, e = run(OPS[nm], a, u)
                    y, f = run(OPS[nm], b, w)
                    if STAT is not None: STAT[nm] = STAT.get(nm, 0) + (e is None)
                    if e is not None: continue           # an operation refused on the dense form decides nothing here
                    if f is not None and nm in OUTSIDE: continue
                    if f is not None: raise Fail('%s: sparse raised %r, dense did not' % (nm, f))
                    comp(nm, x, y)
                    if p['chain'] and hasattr(x, 'ddims') and x.shape == a.shape and nm not in OUTSIDE and nm not in ('lr', 'vcol', 'rdiv', 'pow'): a, b = x, y
            else:
                for nm in p['names']:
                    lt, ls = t.latest_diagonal * 0 + 4000.0, s.latest_diagonal * 0 + 4000.0
                    kw = lambda z: {'sample_weight': z} if nm in ('bf', 'bk', 'cc', 'el') else {}
                    m, n = METH[nm]().fit(t, **kw(lt)), METH[nm]().fit(s, **kw(ls))
                    m, n = [z.named_steps.m if hasattr(z, 'named_steps') else z for z in (m, n)]
                    comp(nm + ' ultimate', m.ultimate_, n.ultimate_)
                    comp(nm + ' ibnr', m.ibnr_, n.ibnr_)
                    comp(nm + ' full triangle', m.full_triangle_, n.full_triangle_)
                    comp(nm + ' ldf', m.ldf_, n.ldf_)
        finally:
            cl.options.AUTO_SPARSE = True
