"""C12 bounded stand-in: completed triangles and full expectations."""
from c10 import *


def cases(r, tier):
    while True: yield mcase(r, model=r.choice(['cl', 'cl', 'bk', 'bf', 'cc']), n_iters=r.choice([1, 2, 4]), apriori=r.choice([.5, 1.3]), swk=r.choice(['one', 'vary']), expo=r.choice([100.0, 5000.0]), cumx=r.random() < .85)


def check(p):
    z = prep(p)
    if not z: return
    t, q = z
    t = t.sort_index()
    e, a = exposure(p, t)
    if e.shape[2] != t.shape[2]: return
    M = {'cl': lambda: cl.Chainladder(), 'bk': lambda: cl.Benktander(apriori=p['apriori'], n_iters=p['n_iters']), 'bf': lambda: cl.BornhuetterFerguson(apriori=p['apriori']), 'cc': lambda: cl.CapeCod()}[p['model']]
    m = fitm(p, q, M(), xform(p, t), None if p['model'] == 'cl' else e)
    F, G, U = m.full_triangle_, m.full_expectation_, dense(m.ultimate_)
    if not p['cumx']:
        if F.is_cumulative: raise Fail('full triangle of incremental data is cumulative')
        F = F.incr_to_cum()
    f = dense(F)
    T = dense(t)
    J = t.shape[3]
    if [int(x) for x in F.ddims][:J] != [int(x) for x in t.ddims] or int(F.ddims[-1]) != 9999: raise Fail('ages of the full triangle: %s' % list(F.ddims))
    CD = dense(m.cdf_)
    for k in range(t.shape[0]):
        for c in range(t.shape[1]):
            l = ldfs(t, q, k, c, p['tail'])
            cd = cdfs(l)
            if any(x != x for x in cd): continue
            for i, (j0, x) in enumerate(latest(t, k, c)):
                if x is None or x == 0: continue
                for j in range(J):
                    if j <= j0 and T[k, c, i, j] == T[k, c, i, j]: eq(f[k, c, i, j], T[k, c, i, j], 'known cell row %d column %d origin %d age %d' % (k, c, i, j), 1e-7)
                    if j > j0 and p['model'] == 'cl': eq(f[k, c, i, j], f[k, c, i, j - 1] * l[j - 1], 'projected cell row %d column %d origin %d age %d' % (k, c, i, j), 1e-7)
                eq(f[k, c, i, -1], U[k, c, i, 0], 'end of row %d column %d origin %d' % (k, c, i), 1e-7)
                if p['cumx']:
                    g = dense(G)[k, c, i]
                    if len(g) != CD.shape[3] + 1: raise Fail('ages of the full expectation')
                    for j in range(CD.shape[3]): eq(g[j], U[k, c, i, 0] / CD[k, c, 0, j], 'expectation', 1e-7)
                    eq(g[-1], U[k, c, i, 0], 'end of the expectation', 1e-7)
                    for j in range(J): eq(CD[k, c, 0, j], cd[j], 'cdf', 1e-8)
