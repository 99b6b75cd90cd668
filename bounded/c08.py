"""C08 bounded stand-in: exclusions, against the plain-Python oracle and by altering only excluded cells."""
from fitlib import *


def cases(r, tier):
    while True:
        p = rnd_case(r, neg=0, cuts=1)
        p['shift'] = min(p['shift'], 0)
        if p['seed'] % 2: p.update(no=r.choice([5, 6, 7]), og='Y', dg='Y', shift=0, nd=None)
        if r.random() < .25: p.update(no=r.choice([6, 7, 9]), og='Y', dg='Y', shift=0, agecut=r.choice([2, 3, 4]))
        q = {'average': r.choice(['volume', 'simple', 'regression'])}
        for nm in r.sample(['n', 'hl', 'ab', 'drop', 'dv'], r.choice([1, 1, 1, 2, 3])):
            if nm == 'n': q['n_periods'] = r.randint(1, 6) if r.random() < .6 else [r.choice([-1, 2, 3, 4]) for _ in range(90)]
            if nm == 'hl':
                z = lambda: r.choice([True, 1, 2, 3]) if r.random() < .5 else [r.choice([0, 1, 2]) for _ in range(90)]
                u = r.random()
                if u < .7: q['drop_high'] = z()
                if u > .4: q['drop_low'] = z()
                q['preserve'] = r.choice([1, 1, 2, 3])
            if nm == 'ab':
                u = r.random()
                if u < .7: q['drop_above'] = r.choice([1.1, 1.5, 2.0])  if r.random() < .6 else [r.choice([1.1, 1.5, 2.0, 9.0]) for _ in range(90)]
                if u > .4: q['drop_below'] = r.choice([1.02, 1.1, 1.3]) if r.random() < .6 else [r.choice([0.0, 1.02, 1.1, 1.3]) for _ in range(90)]
                q['preserve'] = r.choice([1, 1, 2, 3])
            if nm == 'drop': p['ndrop'] = r.randint(1, 3)
            if nm == 'dv': p['ndv'] = r.randint(1, 2)
        p['q'] = q
        p['e'] = r.randrange(10**6)
        yield p


def real(t, q):
    """parameters as the estimator takes them"""
    z = dict(q)
    J = t.shape[3]
    for k in ('n_periods', 'drop_high', 'drop_low', 'drop_above', 'drop_below'):
        if isinstance(z.get(k), list): z[k] = z[k][:J - 1]
    if z.get('drop'):
        z['drop'] = [(str(t.origin[[mo(x) for x in t.odims].index(o)]), a) for o, a in z['drop']]
        if len(z['drop']) == 1: z['drop'] = z['drop'][0]
    if z.get('drop_valuation'):
        z['drop_valuation'] = [str(pd.Period(start(m), freq='M')) for m in z['drop_valuation']]
        if len(z['drop_valuation']) == 1: z['drop_valuation'] = z['drop_valuation'][0]
    return z


def check(p):
    t = triangle_of(p)
    if not val_anchor_ok(t, p) or t.shape[3] < 3 or t.shape[2] < 3: return
    r = random.Random(p['e'])
    q = dict(p['q'])
    o, a, V = [mo(x) for x in t.odims], [int(x) for x in t.ddims], mo(t.valuation_date)
    if p.get('ndrop'):
        cells = [(o[i], a[j]) for i in range(len(o)) for j in range(len(a) - 1) if o[i] + a[j + 1] - 1 <= V]
        q['drop'] = r.sample(cells, min(p['ndrop'], len(cells)))
    if p.get('ndv'):
        vs = [m for m in sorted(set(x for x in valm(t)[:, :-1].flatten() if x < V)) if (V - m) % MON[p['og']] == 0 and (m + 1) % MON[p['og']] == 0]
        if vs: q['drop_valuation'] = r.sample(vs, min(p['ndv'], len(vs)))
    z = real(t, q)
    try: d = cl.Development(**z).fit(t)
    except Exception as e:
        if 'entire triangle has been dropped' in str(e): return
        raise
    L = dense(d.ldf_)
    for k in range(t.shape[0]):
        for c in range(t.shape[1]):
            need(diffarr(L[k, c, 0], factors(t, q, k, c), '%s: ldf of row %d column %d ' % (z, k, c), 1e-9))
    # altering only excluded observations (origin/age, valuation or period exclusions) changes nothing
    if any(x in q for x in ('drop_high', 'drop_low', 'drop_above', 'drop_below')) or t.array_backend != 'numpy': return
    u = t.copy()
    ret = [[retained(t, q, k, c) for c in range(t.shape[1])] for k in range(t.shape[0])]
    ch = 0
    for k in range(t.shape[0]):
        for c in range(t.shape[1]):
            used = set()
            for j, zz in enumerate(ret[k][c]):
                for i, _, _ in zz: used |= {(i, j), (i, j + 1)}
            for i in range(t.shape[2]):
                for j in range(t.shape[3]):
                    if (i, j) not in used and u.values[k, c, i, j] == u.values[k, c, i, j]:
                        u.values[k, c, i, j] = u.values[k, c, i, j] * r.choice([.5, 3.0, 10.0]); ch += 1
    if ch: need(diffarr(dense(cl.Development(**z).fit(u).ldf_), L, '%s: altering %d excluded amounts changed the factors ' % (z, ch), 1e-9))
