"""C21 bounded stand-in: predict equals fit, rows and columns are independent."""
from c10 import *

M = {'cl': lambda: cl.Chainladder(), 'bf': lambda: cl.BornhuetterFerguson(.8), 'bk': lambda: cl.Benktander(.8, n_iters=3), 'cc': lambda: cl.CapeCod(.02, .9), 'el': lambda: cl.ExpectedLoss(.9), 'mack': lambda: cl.MackChainladder(),
     'vote': lambda: cl.VotingChainladder([('a', cl.Chainladder()), ('b', cl.BornhuetterFerguson(.7))], default_weighting=(1, 3))}


def cases(r, tier):
    while True: yield mcase(r, K=r.choice([1, 2, 3]), model=r.choice(sorted(M)), kind=r.choice(['pred', 'alone', 'perm', 'pipe', 'newrows']), swk='vary', expo=r.choice([100., 5000.]), holes=r.choice([0, 0, .2]), q=r.randrange(10**6))


def lab(x): return [tuple(map(str, z)) for z in np.array(x.kdims).reshape(len(x.kdims), -1)]


def bylab(x, t): return dense(x.iloc[[lab(x).index(y) for y in lab(t)]])


def go(p, q, t, e):
    m = M[p['model']]()
    st = []
    p = {**p, 'dev': p['dev'] or bool(p['tail'])}
    x = t
    for _, s in pipe(p, q if q else {}, m)[:-1]: x = s.fit_transform(x)
    if p['model'] in ('cl', 'mack'): return m.fit(x), x
    return m.fit(x, sample_weight=e), x


def check(p):
    z = prep(p)
    if not z: return
    t, q = z
    if p['model'] == 'mack' and (min(t.shape[2:]) < 4 or p['backend'] == 'sparse' or p['holes']): return
    e, a = exposure(p, t)
    if e.shape[2] != t.shape[2]: return
    kw = {} if p['model'] in ('cl', 'mack') else {'sample_weight': e}
    m, x = go(p, q, t, e)
    U = bylab(m.ultimate_, t)
    r = random.Random(p['q'])
    if p['kind'] == 'pred':
        for nm, y in (('training triangle', x), ('plain training triangle', t)):
            if p['model'] == 'vote' and nm[0] == 'p': continue
            g = m.predict(y, **kw)
            need(diffarr(bylab(g.ultimate_, t), U, '%s predicted on the %s ' % (p['model'], nm), 1e-8))
            if p['model'] != 'vote': need(diffarr(bylab(g.ibnr_, t), bylab(m.ibnr_, t), 'ibnr ', 1e-7))
    elif p['kind'] == 'pipe':
        st = [('dev', cl.Development(**q))] + ([('tail', cl.TailConstant(p['tail']))] if p['tail'] else []) + [('m', M[p['model']]())]
        P = cl.Pipeline(st)
        P.fit(t, **({} if not kw else {'sample_weight': e}))
        if p['dev']: need(diffarr(bylab(P.named_steps.m.ultimate_, t), U, 'pipeline ', 1e-8))
        g = P.predict(t, **({} if not kw else {'sample_weight': e}))
        need(diffarr(bylab(g.ultimate_, t), bylab(P.named_steps.m.ultimate_, t), 'pipeline predict ', 1e-8))
    elif p['kind'] == 'alone':
        for k in range(t.shape[0]):
            for c in range(t.shape[1]):
                y = t.iloc[k:k + 1, c:c + 1]
                if y.shape != (1, 1) + t.shape[2:] or mo(y.valuation_date) != mo(t.valuation_date): continue
                g, _ = go(p, q, y, e.iloc[k:k + 1, c:c + 1])
                need(diffarr(dense(g.ultimate_)[0, 0], U[k, c], '%s fitted alone, row %d column %d ' % (p['model'], k, c), 1e-8))
                if p['model'] == 'mack': need(diffarr(dense(g.mack_std_err_)[0, 0], dense(m.mack_std_err_)[k, c], 'standard error fitted alone ', 1e-7))
    elif p['kind'] == 'perm':
        o = list(range(t.shape[0])); r.shuffle(o)
        g, _ = go(p, q, t.iloc[o], e.iloc[o])
        need(diffarr(bylab(g.ultimate_, t), U, '%s with rows permuted ' % p['model'], 1e-8))
    else:
        # a fitted model predicts a subset of the rows with the patterns of those rows
        if t.shape[0] < 2 or p['model'] in ('vote', 'mack'): return
        k = r.randrange(t.shape[0])
        y, f = t.iloc[k:k + 1], e.iloc[k:k + 1]
        if y.shape[1:] != t.shape[1:] or mo(y.valuation_date) != mo(t.valuation_date): return
        g = m.predict(y, **({} if not kw else {'sample_weight': f}))
        need(diffarr(dense(g.ultimate_)[0], U[k], '%s predicting row %d alone ' % (p['model'], k), 1e-8))
