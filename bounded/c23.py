"""C23 bounded stand-in: incremental additive method."""
from fitlib import *


def cases(r, tier):
    while True:
        p = rnd_case(r, cuts=2, neg=0, zeros=0, holes=r.choice([0, 0, .2]))
        p['shift'] = min(p['shift'], 0)
        q = dict(trend=r.choice([0.0, .05, -.02]), future_trend=r.choice([0, .03]), average=r.choice(['volume', 'simple', 'regression']), n_periods=r.choice([-1, -1, 2, 3]))
        for nm in r.sample(['h', 'l', 'ab', 'be', 'dv', 'drop', 'n', 'avg'], r.choice([0, 1, 1, 2, 3])):
            one = lambda ch: r.choice(ch) if r.random() < .6 else [r.choice(ch) for _ in range(90)]
            if nm == 'h': q['drop_high'] = one([1, 2])
            if nm == 'l': q['drop_low'] = one([1, 2])
            if nm == 'ab': q['drop_above'] = one([.1, .3, .6, 2.0])
            if nm == 'be': q['drop_below'] = one([-.1, .02, .1, .3])
            if nm == 'n': q['n_periods'] = [r.choice([-1, 2, 3, 4]) for _ in range(90)]
            if nm == 'avg': q['average'] = [r.choice(['volume', 'simple', 'regression']) for _ in range(90)]
            if nm == 'dv': p['ndv'] = r.randint(1, 2)
            if nm == 'drop': p['ndrop'] = r.randint(1, 3)
        if r.random() < .5: q['preserve'] = r.choice([1, 2, 3])
        p.update(q=q, cumx=r.random() < .8, e=r.randrange(10**6))
        yield p


def check(p):
    t = make({**p, 'cum': True})
    if not val_anchor_ok(t, p) or t.shape[3] < 3 or t.shape[2] < 3: return
    inc = make({**p, 'cum': False})
    e = t.latest_diagonal.set_backend('numpy').copy()
    if e.shape[2] != t.shape[2]: return
    a = 1000.0 + (np.arange(np.prod(e.shape)).reshape(e.shape) * 37) % 400
    e.values = a
    r = random.Random(p['e'])
    q = dict(p['q'])
    I, J = t.shape[2:]
    vm, V = valm(t), mo(t.valuation_date)
    drops, dvs = [], []
    if p.get('ndrop'):
        cells = [(i, j) for i in range(I) for j in range(J) if vm[i, j] <= V]
        drops = r.sample(cells, min(p['ndrop'], len(cells)))
        q['drop'] = [(str(t.origin[i]), int(t.ddims[j])) for i, j in drops]
        if len(drops) == 1: q['drop'] = q['drop'][0]
    if p.get('ndv'):
        dg = MON[t.development_grain]
        vs = [m for m in sorted(set(int(x) for x in vm.flatten() if x < V)) if (m + 1) % dg == 0]      # calendar ends of a development period
        dvs = r.sample(vs, min(p['ndv'], len(vs)))
        q['drop_valuation'] = [str(pd.Period(start(m), freq='M')) for m in dvs]
        if len(dvs) == 1: q['drop_valuation'] = q['drop_valuation'][0]
        if not dvs: q.pop('drop_valuation')
    for k in ('drop_high', 'drop_low', 'drop_above', 'drop_below', 'n_periods', 'average'):
        if isinstance(q.get(k), list): q[k] = q[k][:J]
    tr, ft = q['trend'], q['future_trend'] or q['trend']
    m = cl.IncrementalAdditive(**q).fit(t if p['cumx'] else inc, sample_weight=e)
    Z, F = dense(m.zeta_), dense(m.incremental_)
    D = dense(t.cum_to_incr())
    og = MON[t.origin_grain]
    lst = lambda k, d: tolist(q.get(k) if q.get(k) is not None else d, J, d)
    hi, lo, ab, be, nper, avg = lst('drop_high', 0), lst('drop_low', 0), lst('drop_above', np.inf), lst('drop_below', -np.inf), lst('n_periods', -1), lst('average', 'volume')
    pres = q.get('preserve', 1)
    for k in range(t.shape[0]):
        for c in range(t.shape[1]):
            for j in range(J):
                S = {}
                for i in range(I):
                    d = D[k, c, i, j]
                    if vm[i, j] > V or d != d or d == 0: continue
                    S[i] = (a[k, c, i, 0], d * (1 + tr) ** ((V - vm[i, j]) / 12))
                rt = {i: y / x for i, (x, y) in S.items()}
                near = any(abs(v - b) < 1e-9 for v in rt.values() for b in (ab[j], be[j]))
                n = nper[j]
                keep = {i for i in S if (n < 1 or n >= I or vm[i, j] > V - n * og) and (i, j) not in drops and vm[i, j] not in dvs}
                z = {i for i in S if be[j] < rt[i] < ab[j]}
                if len(z) >= pres: keep &= z
                if hi[j] or lo[j] or 'drop_high' in q or 'drop_low' in q:
                    h, l = int(hi[j]), int(lo[j])
                    srt = sorted(keep, key=lambda i: (rt[i], S[i][1], i))
                    near |= any(abs(rt[srt[x]] - rt[srt[x + 1]]) < 1e-9 for x in range(len(srt) - 1))
                    if len(srt) - h - l >= pres: keep = set(srt[l:len(srt) - h])
                if near: continue
                kept = [S[i] for i in sorted(keep)]
                ex = EXP[avg[j]]
                z = sum(x ** (1 - ex) * y for x, y in kept) / sum(x ** (2 - ex) for x, y in kept) if kept else float('nan')
                if not close(Z[k, c, 0, j], z, 1e-8): raise Fail('factor row %d column %d age %d: got %r, expected %r' % (k, c, j, Z[k, c, 0, j], z))
                for i in range(I):
                    if vm[i, j] <= V: w = D[k, c, i, j]
                    else: w = z * a[k, c, i, 0] * (1 + ft) ** ((vm[i, j] - V) / 12)
                    g = F[k, c, i, j]
                    if not close(np.nan_to_num(g), np.nan_to_num(w), 1e-8): raise Fail('increment row %d column %d origin %d age %d (%s): got %r, expected %r' % (k, c, i, j, 'known' if vm[i, j] <= V else 'future', g, w))
