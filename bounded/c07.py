"""C07 bounded stand-in: fitted factors against the documented weighted averages."""
from fitlib import *


def cases(r, tier):
    while True:
        p = rnd_case(r, neg=0, cuts=1)
        p['shift'] = min(p['shift'], 0)
        J = 30
        p['average'] = r.choice(['volume', 'simple', 'regression']) if r.random() < .6 else [r.choice(['volume', 'simple', 'regression']) for _ in range(90)]
        p['n'] = r.choice([-1, -1, 2, 3, 4, 5])
        p['gb'] = r.random() < .15
        p['kind'] = r.choice(['fit', 'fit', 'scale', 'alone', 'sigma'])
        p['const'] = r.choice([3.7, 1e3, .01])
        yield p


def check(p):
    t = triangle_of(p)
    if not val_anchor_ok(t, p) or t.shape[3] < 2: return
    J = t.shape[3]
    av = p['average'] if isinstance(p['average'], str) else p['average'][:J - 1]
    q = dict(average=av, n_periods=p['n'])
    gb = None
    if p['gb']: gb = t.key_labels[0]
    d = cl.Development(groupby=gb, **q).fit(t)
    u = t.groupby(gb).sum() if gb else t
    L = dense(d.ldf_)
    for k in range(u.shape[0]):
        for c in range(u.shape[1]):
            ret = retained(u, q, k, c)
            want = factors(u, q, k, c)
            need(diffarr(L[k, c, 0], want, 'ldf of row %d column %d ' % (k, c), 1e-9))
            for j, z in enumerate(ret):
                lr = [y / x for _, x, y in z]
                if z and min(x for _, x, _ in z) > 0 and not min(lr) * (1 - 1e-9) <= L[k, c, 0, j] <= max(lr) * (1 + 1e-9): raise Fail('factor outside the range of its link ratios at age %d' % j)
            if p['kind'] == 'sigma' and p['n'] == -1:
                S, SE = dense(d.sigma_)[k, c, 0], dense(d.std_err_)[k, c, 0]
                avs = tolist(av, J - 1, 'volume')
                for j, z in enumerate(ret):
                    if len(z) < 2 or min(x for _, x, _ in z) <= 0: continue
                    e = EXP[avs[j]]
                    mse = sum(x ** -e * (y - want[j] * x) ** 2 for _, x, y in z) / (len(z) - 1)
                    sc = sum(x ** -e * y * y for _, x, y in z)
                    if mse < 1e-12 * sc: continue
                    if not close(S[j], mse ** .5, 1e-7): raise Fail('sigma at age %d: got %r, expected %r' % (j, S[j], mse ** .5))
                    se = (mse / sum(x ** (2 - e) for _, x, _ in z)) ** .5
                    if not close(SE[j], se, 1e-7): raise Fail('standard error at age %d: got %r, expected %r' % (j, SE[j], se))
    if p['kind'] == 'scale':
        f = cl.Development(groupby=gb, **q).fit(t * p['const']).ldf_
        need(diffarr(dense(f), L, 'factors of the scaled triangle ', 1e-8))
    if p['kind'] == 'alone' and not gb:
        for k in range(t.shape[0]):
            for c in range(t.shape[1]):
                a = t.iloc[k:k + 1, c:c + 1]
                if a.shape != (1, 1) + t.shape[2:]: continue
                need(diffarr(dense(cl.Development(**q).fit(a).ldf_)[0, 0], L[k, c], 'fitted alone, row %d column %d ' % (k, c), 1e-9))
