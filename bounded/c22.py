"""C22 bounded stand-in: Berquist-Sherman."""
from common import *


def cases(r, tier):
    while True:
        p = rnd_case(r, C=1, neg=0, zeros=0, holes=0, nd=None, keys=1)
        og = r.choice(['Y', 'Y', 'Q', 'M', 'S'])
        p.update(og=og, dg=og, no=r.choice([4, 5, 6, 7]), shift=0, tr=r.choice([0.0, .15, .05, -.02]), K=r.choice([1, 1, 2]))
        yield p


def check(p):
    r = random.Random(p['seed'])
    t0 = make({**p, 'cum': True, 'backend': 'numpy'})
    if t0.shape[3] < 4 or not val_anchor_ok(t0, p): return
    I, J = t0.shape[2:]
    D = dense(t0)
    t = t0.copy()
    K = t0.shape[0]
    rep, clo, pay, inc = [np.full((K, 1, I, J), np.nan) for _ in range(4)]
    for k in range(K):
        for i in range(I):
            N = 200 + r.random() * 300
            for j in range(J):
                if D[k, 0, i, j] != D[k, 0, i, j]: continue
                rep[k, 0, i, j] = N * (1 - .4 ** (j + 1) * r.uniform(.9, 1.1))
                clo[k, 0, i, j] = N * (1 - .6 ** (j + 1) * r.uniform(.98, 1.02)) * .9
                pay[k, 0, i, j] = clo[k, 0, i, j] * (3 + j * .5) * 10
                inc[k, 0, i, j] = pay[k, 0, i, j] + (rep[k, 0, i, j] - clo[k, 0, i, j]) * (50 + 9 * i + 5 * j) * r.uniform(.8, 1.2)
    cols = {'Paid': pay, 'Incurred': inc, 'Reported': rep, 'Closed': clo}
    t = t0.rename('columns', ['Paid'])
    t.values = pay
    for n in ('Incurred', 'Reported', 'Closed'):
        x = t['Paid'].copy(); x.values = cols[n]; t[n] = x
    s = snapshot(t)
    if p['backend'] == 'sparse': t = t.set_backend('sparse')
    b = cl.BerquistSherman('Paid', 'Incurred', 'Reported', 'Closed', trend=p['tr']).fit(t)
    A = b.transform(t) if p['seed'] % 2 else b.adjusted_triangle_
    if list(A.columns) != list(t.columns): raise Fail('columns')
    vm, V = valm(t), mo(t.valuation_date)
    X = dense(A)
    T = dense(t)
    if X.shape != T.shape: raise Fail('shape')
    for c, n in enumerate(t.columns):
        for k in range(K):
            for i in range(I):
                for j in range(J):
                    g, w = X[k, c, i, j], T[k, c, i, j]
                    if vm[i, j] == V:
                        if not close(g, w, 1e-9): raise Fail('latest %s of origin %d: got %r, expected %r' % (n, i, g, w))
                    if vm[i, j] > V and np.nan_to_num(g): raise Fail('future cell')
                    if n == 'Reported' and vm[i, j] <= V and not close(g, w, 1e-9): raise Fail('reported counts changed')
                    if n == 'Incurred' and vm[i, j] <= V:
                        li = [h for h in range(I) if vm[h, j] == V][0]
                        av = lambda h: (inc[k, 0, h, j] - pay[k, 0, h, j]) / (rep[k, 0, h, j] - clo[k, 0, h, j])
                        want = av(li) * (1 + p['tr']) ** (-(V - vm[i, j]) / 12)
                        op = rep[k, 0, i, j] - clo[k, 0, i, j]
                        if not close((g - pay[k, 0, i, j]) / op, want, 1e-7): raise Fail('case average of origin %d age %d: got %r, expected %r' % (i, j, (g - pay[k, 0, i, j]) / op, want))
    if snapshot(t.set_backend('numpy'))[:2] != s[:2]: raise Fail('input changed')
