"""C10 bounded stand-in: expected loss, Bornhuetter-Ferguson, Benktander."""
from methlib import *


def cases(r, tier):
    while True: yield mcase(r, n_iters=r.choice([0, 1, 1, 2, 3, 4, 7, 25]), apriori=r.choice([.5, 1.0, 1.3]), model=r.choice(['bk', 'bk', 'bf', 'el']), swk=r.choice(['one', 'vary', 'vary', 'single']), expo=r.choice([100.0, 5000.0]), latest0=r.random() < .2)


def exposure(p, t):
    """exposure triangle and its amounts"""
    e = t.latest_diagonal * 0
    a = np.ones(e.shape) * p['expo']
    if p['swk'] == 'vary': a = a * (1 + np.arange(a.size).reshape(a.shape) % 7)
    e = e.set_backend('numpy').copy()
    e.values = a
    if p['swk'] == 'single':
        e = e.iloc[:1, :1]; a = np.ones(t.shape[:3] + (1,)) * dense(e)
    return e.set_backend(t.array_backend), a


def check(p):
    z = prep(p)
    if not z: return
    t, q = z
    e, a = exposure(p, t)
    if e.shape[2] != t.shape[2]: return
    n = {'bk': p['n_iters'], 'bf': 1, 'el': 0}[p['model']]
    M = {'bk': lambda: cl.Benktander(apriori=p['apriori'], n_iters=n), 'bf': lambda: cl.BornhuetterFerguson(apriori=p['apriori']), 'el': lambda: cl.ExpectedLoss(apriori=p['apriori'])}[p['model']]
    m = fitm(p, q, M(), xform(p, t), e)
    lab = lambda x: [tuple(map(str, z)) for z in np.array(x.kdims).reshape(len(x.kdims), -1)]
    if sorted(lab(m.ultimate_)) != sorted(lab(t)): raise Fail('ultimate rows differ from the triangle')
    mu = m.ultimate_.iloc[[lab(m.ultimate_).index(z) for z in lab(t)]]
    U = dense(mu)
    if U.shape != t.shape[:3] + (1,): raise Fail('ultimate shape %s' % (U.shape,))
    I = dense(m.ibnr_.iloc[[lab(m.ibnr_).index(z) for z in lab(t)]])
    for k in range(t.shape[0]):
        for c in range(t.shape[1]):
            cd = cdfs(ldfs(t, q, k, c, p['tail']))
            for i, (j, x) in enumerate(latest(t, k, c)):
                if j is None or cd[j] != cd[j]: continue
                qq, u = 1 - 1 / cd[j], a[k, c, i, 0] * p['apriori']
                for _ in range(n): u = (x or 0.0) + qq * u
                eq(U[k, c, i, 0], u, '%s(%d) ultimate row %d column %d origin %d' % (p['model'], n, k, c, i))
                eq(I[k, c, i, 0], u - (x or 0.0), 'ibnr', 1e-7)
