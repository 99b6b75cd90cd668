"""Plain-Python reading of documented development-factor estimation."""
from common import *

EXP = {'regression': 0, 'volume': 1, 'simple': 2}


def tolist(v, n, default=None):
    v = list(v) if isinstance(v, (list, tuple)) else [v] * n
    return (v + [default] * n)[:n]


def triangle_of(p):
    return make({**p, 'neg': 0, 'cum': True})


def retained(t, q, k, c):
    """retained[j] = [(i, x, y)] for each age j, for index row k and column c"""
    v, vm = dense(t)[k, c], valm(t)
    I, J = v.shape
    og, dg = MON[t.origin_grain], MON[t.development_grain]
    V = mo(t.valuation_date)
    nper = tolist(q.get('n_periods', -1), J - 1, -1)
    hi, lo = tolist(q.get('drop_high') or 0, J - 1, 0), tolist(q.get('drop_low') or 0, J - 1, 0)
    ab, be = tolist(q.get('drop_above', np.inf), J - 1, np.inf), tolist(q.get('drop_below', 0.0), J - 1, 0.0)
    pres = q.get('preserve', 1)
    out = []
    for j in range(J - 1):
        cand = []
        for i in range(I):
            x, y = v[i, j], v[i, j + 1]
            if x != x or y != y or x == 0 or y == 0: continue
            cand.append((i, float(x), float(y)))
        n = nper[j]
        inn = lambda i: n < 1 or vm[i, j] >= V - n * og
        win = [z for z in cand if inn(z[0])]
        keep = set(z[0] for z in win)
        if hi[j] or lo[j]:
            h, l = int(hi[j]), int(lo[j])
            srt = sorted(win, key=lambda z: (z[2] / z[1], z[1]))
            cnt = len(win) if n < 1 else min(n, len(win))
            if cnt - h - l >= pres: keep &= set(z[0] for z in srt[l:cnt - h])
        if ab[j] != np.inf or be[j] != 0.0 or q.get('drop_above', np.inf) != np.inf or q.get('drop_below', 0.0) != 0.0:
            z = [z[0] for z in cand if be[j] < z[2] / z[1] < ab[j]]
            if len(z) >= pres: keep &= set(z)
        for o, a in q.get('drop') or []:
            keep = {i for i in keep if not (mo(t.odims[i]) == o and int(t.ddims[j]) == a)}
        for m in q.get('drop_valuation') or []:
            keep = {i for i in keep if vm[i, j] != m}
        out.append([z for z in cand if z[0] in keep])
    return out


def factor(cells, avg):
    e = EXP[avg]
    n = sum(x ** (1 - e) * y for _, x, y in cells)
    d = sum(x ** (2 - e) for _, x, y in cells)
    return n / d if cells else float('nan')


def factors(t, q, k, c):
    J = t.shape[3]
    avg = tolist(q.get('average', 'volume'), J - 1, 'volume')
    return [factor(z, avg[j]) for j, z in enumerate(retained(t, q, k, c))]
