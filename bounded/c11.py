"""C11 bounded stand-in: Cape Cod."""
from c10 import *


def cases(r, tier):
    while True: yield mcase(r, n_iters=r.choice([1, 1, 2, 3]), trend=r.choice([0, .03, -.02]), decay=r.choice([1, .9, .5]), swk=r.choice(['one', 'vary', 'vary']), expo=r.choice([100.0, 5000.0]), olf=r.choice([None, None, 'w', 'x', 'both']))


def check(p):
    z = prep(p)
    if not z: return
    t, q = z
    e, a = exposure(p, t)
    if e.shape[2] != t.shape[2]: return
    rs = np.random.RandomState(p['seed'] % 1000)
    ox, ow = [rs.uniform(.8, 1.3, t.shape[2]) if p['olf'] in (z, 'both') and p['cumx'] and t.array_backend == 'numpy' else np.ones(t.shape[2]) for z in 'xw']
    def onlevel(z, o):
        z = z.copy()
        f = z.latest_diagonal
        f = f.set_backend('numpy').copy()
        f.values = np.ones((1, 1) + f.shape[2:]) * o[None, None, :, None]
        f.kdims, f.vdims = f.kdims[:1], f.vdims[:1]
        z.olf_ = f
        return z
    x = xform(p, t)
    if (ow != 1).any(): e = onlevel(e, ow)
    if (ox != 1).any(): x = onlevel(x, ox)
    m = fitm(p, q, cl.CapeCod(trend=p['trend'], decay=p['decay'], n_iters=p['n_iters']), x, e)
    lab = lambda x: [tuple(map(str, z)) for z in np.array(x.kdims).reshape(len(x.kdims), -1)]
    U, A, D = [dense(z.iloc[[lab(z).index(y) for y in lab(t)]]) for z in (m.ultimate_, m.apriori_, m.detrended_apriori_)]
    I = t.shape[2]
    V = mo(t.valuation_date)
    for k in range(t.shape[0]):
        for c in range(t.shape[1]):
            cd = cdfs(ldfs(t, q, k, c, p['tail']))
            la = latest(t, k, c)
            if any(j is None or x is None or cd[j] != cd[j] or x == 0 for j, x in la): continue
            # years between the origin end (or the valuation date, when earlier) and the valuation date
            yr = [max(0, V - (mo(o) + MON[p['og']] - 1)) / 12 for o in t.odims]
            tr = [(1 + p['trend']) ** y for y in yr]
            w = [a[k, c, i, 0] / cd[la[i][0]] for i in range(I)]
            for i in range(I):
                num = sum(w[h] * p['decay'] ** abs(i - h) * la[h][1] * tr[h] * ox[h] / (w[h] * ow[h]) for h in range(I))
                den = sum(w[h] * p['decay'] ** abs(i - h) for h in range(I))
                eq(A[k, c, i, 0], num / den, 'apriori row %d column %d origin %d' % (k, c, i), 2e-3 if p['trend'] else 1e-8)
                eq(D[k, c, i, 0], A[k, c, i, 0] / tr[i] / ox[i] * ow[i], 'detrended apriori', 2e-3 if p['trend'] else 1e-8)
                u = D[k, c, i, 0] * a[k, c, i, 0]
                j, x = la[i]
                for _ in range(p['n_iters']): u = x + (1 - 1 / cd[j]) * u
                eq(U[k, c, i, 0], u, 'ultimate')
