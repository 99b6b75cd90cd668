"""C09 bounded stand-in: chain-ladder ultimates."""
from methlib import *


def cases(r, tier):
    while True: yield mcase(r, alter=r.random())


def check(p):
    z = prep(p)
    if not z: return
    t, q = z
    m = fitm(p, q, cl.Chainladder(), xform(p, t))
    U, I = dense(m.ultimate_), dense(m.ibnr_)
    if [mo(x) for x in m.ultimate_.odims] != [mo(x) for x in t.odims]: raise Fail('ultimate origins differ from the triangle')
    if m.ultimate_.shape[:2] != t.shape[:2] or m.ultimate_.shape[3] != 1: raise Fail('ultimate shape')
    for k in range(t.shape[0]):
        for c in range(t.shape[1]):
            cd = cdfs(ldfs(t, q, k, c, p['tail']))
            for i, (j, x) in enumerate(latest(t, k, c)):
                if x is None or cd[j] != cd[j]: continue
                eq(U[k, c, i, 0], x * cd[j], 'ultimate row %d column %d origin %d' % (k, c, i))
                eq(I[k, c, i, 0], x * cd[j] - x, 'ibnr row %d column %d origin %d' % (k, c, i), 1e-7)
                if not p['tail'] and j == t.shape[3] - 1 and abs(np.nan_to_num(I[k, c, i, 0])) > 1e-9 * abs(x): raise Fail('fully developed origin has IBNR')
