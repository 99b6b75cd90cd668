"""C19 bounded stand-in: voting ensembles."""
from c10 import *


def cases(r, tier):
    while True: yield mcase(r, n_est=r.choice([2, 3]), how=r.choice(['none', 'default', 'array', 'array3', 'array4', 'list', 'dict', 'callable']), w=r.randrange(10**6), swk='vary', expo=r.choice([100., 5000.]), drop=r.random() < .15, pred=r.random() < .3, holes=0, dev=True)


def check(p):
    z = prep(p)
    if not z: return
    t, q = z
    t = t.sort_index()
    e, a = exposure(p, t)
    if e.shape[2] != t.shape[2]: return
    r = random.Random(p['w'])
    n, I = p['n_est'], t.shape[2]
    ests = [('a', cl.Chainladder()), ('b', cl.BornhuetterFerguson(apriori=.7)), ('c', cl.CapeCod())][:n]
    if p['drop']: ests[r.randrange(n)] = ('d', 'drop')
    rnd = lambda: [r.choice([0, .25, .5, 1, 2]) for _ in range(n - 1)] + [r.choice([.25, 1, 3])]
    live = [i for i, (_, x) in enumerate(ests) if x != 'drop']
    def ok(w):
        w = list(w)
        if sum(w[i] for i in live) == 0: w[live[0]] = 1.0
        return w
    W = [ok(rnd()) for _ in range(I)]
    dflt, K, C = None, t.shape[0], t.shape[1]
    full = [[W] * C] * K
    if p['how'] == 'none': wt, full = None, [[[[1.0] * n] * I] * C] * K
    elif p['how'] == 'default':
        dflt = tuple(ok(rnd())); wt = None; full = [[[list(dflt)] * I] * C] * K
    elif p['how'] == 'array': wt = np.array(W)
    elif p['how'] == 'array3':
        f = [[ok(rnd()) for _ in range(I)] for _ in range(C)]
        wt = np.array(f); full = [f] * K
    elif p['how'] == 'array4':
        full = [[[ok(rnd()) for _ in range(I)] for _ in range(C)] for _ in range(K)]
        wt = np.array(full)
    elif p['how'] == 'list': wt = W
    elif p['how'] == 'dict':
        dflt = tuple(ok(rnd()))
        W2 = [W[i] if r.random() < .6 else list(dflt) for i in range(I)]
        wt = {str(o): tuple(W2[i]) for i, o in enumerate(t.origin) if tuple(W2[i]) != dflt}
        full = [[W2] * C] * K
        if not wt: return
    else:
        m = {o: tuple(W[i]) for i, o in enumerate(t.origin)}
        wt = lambda o: m[o]
    x = cl.Development(**q).fit_transform(t)
    if p['tail']: x = cl.TailConstant(p['tail']).fit_transform(x)
    v = cl.VotingChainladder(estimators=ests, weights=wt, default_weighting=dflt).fit(x, sample_weight=e)
    u = v.ultimate_
    if p['pred']: u = v.predict(x, sample_weight=e).ultimate_
    mem = {i: dense(ests[i][1].__class__(**ests[i][1].get_params()).fit(x, sample_weight=e).ultimate_) for i in live}
    U = dense(u)
    if U.shape != t.shape[:3] + (1,): raise Fail('ultimate shape')
    for k in range(K):
        for c in range(C):
            for i in range(I):
                w = [full[k][c][i][j] for j in live]
                ms = [mem[j][k, c, i, 0] for j in live]
                if any(y != y for y in ms): continue
                eq(U[k, c, i, 0], sum(y * z for y, z in zip(ms, w)) / sum(w), 'weights by %s: ultimate row %d column %d origin %d' % (p['how'], k, c, i))
                if not min(ms) - 1e-7 * abs(min(ms)) <= U[k, c, i, 0] <= max(ms) * (1 + 1e-7): raise Fail('ultimate outside the members')
