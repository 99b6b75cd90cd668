"""C18 bounded stand-in: JSON, pickle and long-table round trips."""
from common import *
import tempfile


def cases(r, tier):
    while True:
        p = rnd_case(r, cuts=1)
        p['sub'] = r.choice(['none', 'none', 'val', 'origins', 'devs', 'vcol', 'latest', 'lr', 'ult'])
        p['how'] = r.choice(['json', 'json', 'pickle', 'frame', 'est'])
        p['pick'] = r.random()
        p['e'] = r.randrange(10**6)
        yield p


def sub(t, p):
    k = p['sub']
    if k == 'val': return t.dev_to_val()
    if k == 'origins': return t.iloc[:, :, int(p['pick'] * len(t.odims)):, :]
    if k == 'devs': return t.iloc[..., :max(1, int(p['pick'] * len(t.ddims)))]
    if k == 'latest' and t.shape[3] > 1:
        x = t.latest_diagonal
        return x if hasattr(x, 'ddims') else t
    if k == 'vcol' and t.array_backend == 'numpy':
        t = t.copy(); t['vv'] = t[t.columns[0]] * 2
        return t
    return t


def same(a, b, what):
    if labels(a)[1:] != labels(b)[1:]: raise Fail('%s: labels differ: %s vs %s' % (what, labels(a)[1:], labels(b)[1:]))
    need(diffarr(dense(b), dense(a), what + ' '))
    for q in ('is_cumulative', 'is_val_tri', 'origin_grain', 'development_grain', 'is_pattern'):
        if getattr(a, q) != getattr(b, q): raise Fail('%s: %s is %r, was %r' % (what, q, getattr(b, q), getattr(a, q)))
    if mo(a.valuation_date) != mo(b.valuation_date): raise Fail('%s: valuation date %s, was %s' % (what, b.valuation_date, a.valuation_date))


def est(p):
    r = random.Random(p['e'])
    n = r.choice([-1, 2, 3, 5])
    E = [lambda: cl.Development(n_periods=n, average=r.choice(['simple', 'volume', 'regression']), drop_high=r.choice([None, True, 2]), drop=r.choice([None, ('1995', 12), [('1996', 12), ('1995', 24)]]), preserve=r.choice([1, 3])),
         lambda: cl.Chainladder(), lambda: cl.BornhuetterFerguson(apriori=r.random()), lambda: cl.Benktander(apriori=r.random(), n_iters=r.randint(1, 9)), lambda: cl.CapeCod(trend=r.random() / 10, decay=r.random()),
         lambda: cl.TailConstant(tail=1 + r.random() / 10, decay=r.random(), attachment_age=r.choice([None, 24, 36])), lambda: cl.TailCurve(curve=r.choice(['exponential', 'inverse_power']), extrap_periods=r.randint(50, 100)),
         lambda: cl.MackChainladder(), lambda: cl.ExpectedLoss(apriori=r.random()), lambda: cl.Trend(trends=[.05, .03], dates=[(None, '1997'), ('1997', None)]), lambda: cl.BootstrapODPSample(n_sims=r.randint(10, 90), random_state=r.randint(1, 99)),
         lambda: cl.Pipeline([('dev', cl.Development(average='simple', n_periods=n)), ('tail', cl.TailConstant(1.05)), ('model', cl.Benktander(n_iters=r.randint(1, 5)))]), lambda: cl.ClarkLDF(growth=r.choice(['loglogistic', 'weibull']))]
    return r.choice(E)()


def params(e):
    return {k: (params(v) if hasattr(v, 'get_params') else v) for k, v in e.get_params(deep=False).items() if k != 'steps'} | ({'steps': [(n, type(s).__name__, params(s)) for n, s in e.steps]} if hasattr(e, 'steps') else {})


def norm(x):
    if isinstance(x, dict): return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [norm(v) for v in x]
    return x


def check(p):
    if p['how'] == 'est':
        e = est(p)
        f = cl.read_json(e.to_json())
        if type(f) is not type(e): raise Fail('estimator read back as %s, was %s' % (type(f).__name__, type(e).__name__))
        if norm(params(f)) != norm(params(e)): raise Fail('%s parameters read back %s, were %s' % (type(e).__name__, params(f), params(e)))
        return
    t = sub(make(p), p)
    if 0 in t.shape: return
    s = snapshot(t)
    t = t.sort_index()
    s = snapshot(t)
    if p['how'] == 'json' and (p['sub'] in ('devs', 'latest', 'origins') or p['zeros'] or p['holes'] or p.get('agecut') or p.get('orgcut')):
        # rebuilt from the long table: parts of the axes that hold no amount are not recorded
        if p['sub'] == 'devs' or not len(cellmap(t)): return
        b = cl.read_json(t.to_json())
        if (b.is_cumulative != t.is_cumulative): raise Fail('JSON round trip: form')
        cm = cellmap(t.cum_to_incr())
        if len({k[2] for k in cm}) < 2 or len({k[3] for k in cm}) < 2:
            # known finding C18-single: the grain of a table with one origin or one valuation is guessed
            if b.is_val_tri != t.is_val_tri or diffmap(cellmap(b.cum_to_incr()), cm): raise Fail('JSON of amounts in a single origin or valuation period: grain or view not restored')
            return
        if min(t.shape[2:]) > 1 and (b.is_cumulative, b.is_val_tri) != (t.is_cumulative, t.is_val_tri): raise Fail('JSON round trip: form or view')
        if p['sub'] == 'latest': need(diffmap(cellmap(b), cellmap(t)) and 'JSON: ' + str(diffmap(cellmap(b), cellmap(t))))
        else: need(diffmap(cellmap(b.cum_to_incr()), cellmap(t.cum_to_incr())) and 'JSON: ' + str(diffmap(cellmap(b), cellmap(t))))
    elif p['how'] == 'json':
        b = cl.read_json(t.to_json())
        same(t, b, 'JSON round trip')
        if labels(t)[0] != labels(b)[0]: raise Fail('JSON round trip: key labels')
        same(t, cl.read_json(b.to_json()), 'second JSON round trip')
    elif p['how'] == 'pickle':
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 't.pkl'); t.to_pickle(f); b = cl.read_pickle(f)
        same(t, b, 'pickle round trip')
        if b.array_backend != t.array_backend: raise Fail('pickle round trip: backend')
    else:
        if p['sub'] in ('latest',) or t.shape[3] == 1 or t.shape[2] == 1: return
        f = t.to_frame(keepdims=True, implicit_axis=True).reset_index()
        cols = [str(c) for c in t.columns]
        f = f[f[cols].notna().any(axis=1)]
        if not len(f) or f['origin'].nunique() < 2 or f['valuation'].nunique() < 2: return      # the grain cannot be told
        b = cl.Triangle(f, origin='origin', development='valuation', columns=cols, index=list(t.key_labels), cumulative=t.is_cumulative)
        need(diffmap(cellmap(b), cellmap(t)) and 'long table: ' + str(diffmap(cellmap(b), cellmap(t))))
    if snapshot(t) != s: raise Fail('saving changed the triangle')
