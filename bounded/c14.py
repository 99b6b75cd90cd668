"""C14 bounded stand-in: cumulative factors and tails."""
from methlib import *


def cases(r, tier):
    while True: yield mcase(r, kind=r.choice(['const', 'const', 'const', 'curve', 'bondy', 'clark', 'mpat', 'chain', 'none']), tf=r.choice([1.0, 1.02, 1.1, 1.4, .98]), decay=r.choice([.5, .8, .2, 1.0]), att=r.random() if r.random() < .5 else None, proj=r.choice([12, 12, 24, 36]), curve=r.choice(['exponential', 'inverse_power']), zeros=0, holes=0)


def prod(x):
    o = 1.0
    for y in x: o *= y
    return o


def check(p):
    z = prep(p)
    if not z: return
    t, q = z
    if t.shape[3] < 3 or t.shape[2] < 3: return
    d = cl.Development(**q).fit(t)
    X = d.transform(t)
    L0 = dense(d.ldf_)
    if np.isnan(L0).any(): return
    J = t.shape[3]
    ages = [int(x) for x in t.ddims]
    if p['kind'] == 'none': T, A = d, J - 1
    elif p['kind'] == 'mpat':
        pat = {a: 1 + .5 ** (j + 1) for j, a in enumerate(ages)}
        T = cl.DevelopmentConstant(patterns=pat, style='ldf').fit(t)
        L = dense(T.ldf_)
        for j in range(J - 1): eq(L[0, 0, 0, j], pat[ages[j]], 'constant development factor')
        if p['seed'] % 2:
            T2 = cl.DevelopmentConstant(patterns={a: prod(pat[b] for b in ages[j:]) for j, a in enumerate(ages)}, style='cdf').fit(t)
            need(diffarr(dense(T2.cdf_)[..., :J], [[[[prod(pat[b] for b in ages[j:]) for j in range(dense(T2.cdf_).shape[3])]] * 1] * t.shape[1]] * t.shape[0], 'constant cdf ', 1e-8))
        A = 0
    elif p['kind'] in ('const', 'chain'):
        A = J - 1 if p['att'] is None else int(p['att'] * (J - 1))
        T = cl.TailConstant(p['tf'], decay=p['decay'], attachment_age=None if p['att'] is None else ages[A], projection_period=p['proj']).fit(X)
    elif p['kind'] == 'curve':
        if (L0 <= 1.0001).any() or L0.shape[3] < 3: return
        A = J - 1 if p['att'] is None else int(p['att'] * (J - 1))
        T = cl.TailCurve(p['curve'], attachment_age=None if p['att'] is None else ages[A], projection_period=p['proj']).fit(X)
    elif p['kind'] == 'bondy':
        if (L0 <= 1.0001).any() or t.shape[:2] != (1, 1) or J < 5: return
        A = J - 1
        T = cl.TailBondy(projection_period=p['proj']).fit(X)
    elif p['kind'] == 'clark':
        if (L0 <= 1.0001).any() or t.shape[:2] != (1, 1) or J < 4 or p['dg'] != p['og']: return
        A = J - 2
        T = cl.TailClark(projection_period=p['proj']).fit(X)
    L, C = dense(T.ldf_), dense(T.cdf_)
    if not np.isfinite(L).all(): return
    for a in np.ndindex(L.shape[:3]):
        for j in range(L.shape[3]): eq(C[a][j], prod(L[a][j:]), '%s: cdf at age %d' % (p['kind'], j), 1e-8)
    need(diffarr(dense(T.cdf_.cum_to_incr()), L, 'cdf back to ldf ', 1e-8))
    if p['kind'] in ('none', 'mpat'): return
    if L.shape[:2] != L0.shape[:2]: raise Fail('tail shape')
    need(diffarr(L[..., :A], np.repeat(L0[..., :A], L.shape[2], 2), '%s: factors before the attachment ' % p['kind'], 1e-12))
    n = {'Y': 1, 'S': 2, 'Q': 4, 'M': 12}[t.development_grain] * (p['proj'] // 12) + 1
    if p['kind'] != 'bondy' and L.shape[3] != J - 1 + n: raise Fail('%s: %d factors, expected %d' % (p['kind'], L.shape[3], J - 1 + n))
    if p['kind'] in ('const', 'chain'):
        for a in np.ndindex(L.shape[:3]): eq(C[a][A], p['tf'], 'tail factor from the attachment age', 1e-8)
    if p['kind'] == 'chain':
        m = cl.Chainladder().fit(T.transform(X))
        if p['att'] is None and (T.ldf_.shape[2] == 1):
            for k in range(t.shape[0]):
                for c in range(t.shape[1]):
                    cd = cdfs(list(L0[k, c, 0]) + [p['tf']])
                    for i, (j, x) in enumerate(latest(t, k, c)):
                        if x is not None: eq(dense(m.ultimate_)[k, c, i, 0], x * cd[j], 'ultimate with tail')
