"""C16 bounded stand-in: coarsening the grain."""
from common import *

ORD = 'YSQM'


def cases(r, tier):
    while True:
        p = rnd_case(r, cuts=1)
        og, dg = r.choice([('Q', 'Q'), ('Q', 'M'), ('M', 'M'), ('Y', 'Q'), ('Y', 'M'), ('S', 'Q'), ('S', 'S'), ('Y', 'S'), ('S', 'M')])
        p.update(og=og, dg=dg, nd=None)
        p['no'] = {'Y': r.randint(2, 4), 'S': r.choice([4, 5, 6]), 'Q': r.choice([5, 6, 8, 9, 12]), 'M': r.choice([12, 14, 24])}[og]
        p['shift'] = r.choice([0, 0, 0, 1, 2, -1]) if MON[og] > MON[dg] else r.choice([0, 0, 1, 3])
        go = r.choice(ORD[:ORD.index(og) + 1])
        gd = r.choice([g for g in ORD[:ORD.index(dg) + 1] if ORD.index(g) >= ORD.index(go)] or [go])
        p['go'], p['gd'] = go, gd
        if og in 'QM' and r.random() < .3: p['m0'] = r.choice([3, 6, 9] if og == 'Q' else [1, 3, 5, 6, 10])
        if og == 'S' and r.random() < .2: p['m0'] = 6
        # half-years start at the first origin of the triangle, not at January: keep to calendar halves
        if p.get('m0', 0) % 6 and go == 'S': p['m0'] = 6
        # ... and to halves of the origins that are left when the oldest ones are cut
        if p.get('orgcut') and 'S' in (go, p['og']): p['orgcut'] = None
        n = MON[og] // MON[dg] * p['no'] + p['shift']
        if n > 3 and r.random() < .15: p['orgcut'], p['agecut'] = None, r.randint(max(1, n - MON[og] // MON[dg]), n - 2)    # valuations nothing is known of
        p['direct'], p['two'], p['val'] = r.random() < .6, r.random() < .5, r.random() < .2
        if p['direct']: p['agecut'] = p['orgcut'] = None
        yield p


def per(m, g):
    return m // MON[g]


def expected(t, go, gd, cum):
    """{(row, col, coarse origin start, valuation month): amount} from the fine triangle's cells"""
    v, vm, o = dense(t), valm(t), [mo(x) for x in t.odims]
    V = min(mo(t.valuation_date), int(vm.max()))          # cut by age, the latest valuation left
    ks = [tuple(map(str, k)) for k in np.array(t.kdims).reshape(len(t.kdims), -1)]
    out = {}
    vs = [m for m in sorted(set(int(x) for x in vm.flatten())) if m <= V]
    keep = [m for m in vs if (V - m) % MON[gd] == 0]
    for (k, c, i, j), x in np.ndenumerate(np.nan_to_num(v)):
        if not x or vm[i, j] > V: continue
        m = int(vm[i, j])
        if cum:
            if m not in keep: continue
            z = m
        else:
            z = V - (V - m) // MON[gd] * MON[gd]
        q = (ks[k], str(t.vdims[c]), per(o[i], go) * MON[go], z)
        out[q] = out.get(q, 0.0) + x
    return {k: x for k, x in out.items() if x}


def check(p):
    p = {**DEFAULT, **p}
    t = make(p)
    if p.get('agecut') and t.is_full: return        # a completed triangle is carried forward
    go, gd = p['go'], p['gd']
    if p['val']: t = t.dev_to_val()
    g = t.grain('O%sD%s' % (go, gd))
    fine = t.val_to_dev() if p['val'] else t
    exp = expected(fine, go, gd, p['cum'])
    need(diffmap(cellmap(g), exp))
    if g.origin_grain != go or g.development_grain != gd: raise Fail('grain is O%sD%s, asked O%sD%s' % (g.origin_grain, g.development_grain, go, gd))
    if mo(g.valuation_date) != min(mo(t.valuation_date), int(valm(t).max())): raise Fail('valuation date changed')
    if g.is_cumulative != t.is_cumulative: raise Fail('cumulative flag changed')
    if g.is_val_tri != t.is_val_tri: raise Fail('view changed')
    if not p['cum'] and not close(float(np.nansum(dense(g))), float(np.nansum(dense(t))), 1e-7): raise Fail('incremental grand total changed')
    V = min(mo(t.valuation_date), int(valm(t).max()))
    aligned = (V + 1) % MON[gd] == 0
    if p['two']:
        for mo_, md in random.Random(p['seed']).sample([(a, b) for a in ORD for b in ORD], 6):
            if not (ORD.index(go) <= ORD.index(mo_) <= ORD.index(p['og']) and ORD.index(gd) <= ORD.index(md) <= ORD.index(p['dg']) and ORD.index(mo_) <= ORD.index(md)): continue
            if (p['m0'] % 6 or p.get('orgcut')) and mo_ == 'S': continue
            # cumulative coarsening in two steps keeps the same valuations when the latest one closes the coarse period
            h = t.grain('O%sD%s' % (mo_, md)).grain('O%sD%s' % (go, gd))
            need(diffmap(cellmap(h), exp) and 'via O%sD%s: %s' % (mo_, md, diffmap(cellmap(h), exp)))
    if p['direct'] and aligned and not p['val']:
        df, names, keys = frame(p)
        if not p['cum']:
            df['origin'] = df.origin.map(lambda x: start(per(mo(x), go) * MON[go]))
            df['dev'] = df.dev.map(lambda x: end(per(mo(x), gd) * MON[gd] + MON[gd] - 1))
            d = build(df, names, keys, False, None)
            need(diffmap(cellmap(d), exp) and 'built directly: ' + str(diffmap(cellmap(d), exp)))
