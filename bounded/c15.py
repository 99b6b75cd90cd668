"""C15 bounded stand-in: construction from tabular records."""
from common import *

FMT = ['ts', 'ts', 'start', 'str', 'period', 'yyyymm', 'mid', 'date_mid_origin']


def cases(r, tier):
    while True:
        p = rnd_case(r)
        p['backend'] = 'numpy'
        p['fmt'] = r.choice(FMT)
        p['dups'] = r.random() < .4          # several records per cell
        p['early'] = r.random() < .25        # records valued before their origin
        p['shuffle'] = r.random() < .6
        p['cum'] = r.random() < .5
        p['noidx'] = r.random() < .2
        p['nanamt'] = r.random() < .15
        p['sparse_arg'] = r.random() < .3
        p['strcols'] = r.random() < .5
        yield p


def records(p):
    df, names, keys = frame(p)
    r = random.Random(p['seed'] + 5)
    rec = df.to_dict('records')
    if p['dups']:
        for x in list(rec):
            if r.random() < .3:
                y = dict(x)
                for n in names:
                    q = round(x[n] * r.random(), 2); y[n] = q; x[n] = round(x[n] - q, 2)
                rec.append(y)
    early = []
    if p['early'] and MON[p['og']] >= 3:
        ok = [x for x in rec if mo(x['origin']) > p['y0'] * 12 + MON[p['og']]]
        for x in r.sample(ok, min(2, len(ok))):
            y = dict(x); y['dev'] = end(mo(x['origin']) - 1); early.append(y)
    if p['nanamt']:
        for x in rec:
            if r.random() < .1: x[names[0]] = np.nan
    return rec, early, names, keys


def check(p):
    p = {**DEFAULT, **p}
    rec, early, names, keys = records(p)
    if p['noidx']: keys = []
    r = random.Random(p['seed'] + 9)
    allr = rec + early
    if p['shuffle']: r.shuffle(allr)
    df = pd.DataFrame(allr)
    out = df.copy()
    f = p['fmt']
    dg, og = MON[p['dg']], MON[p['og']]
    if f == 'start': out['dev'] = out['dev'].map(lambda d: start(mo(d) - dg + 1))
    if f == 'str': out['dev'], out['origin'] = out['dev'].dt.strftime('%Y-%m-%d'), out['origin'].dt.strftime('%Y-%m-%d')
    if f == 'period' and p['dg'] == 'M': out['dev'] = out['dev'].dt.to_period('M')
    if f == 'yyyymm': out['dev'] = out['dev'].dt.strftime('%Y%m').astype(int)
    if f == 'mid' and dg == 1: out['dev'] = out['dev'].map(lambda d: d - pd.Timedelta(days=r.randint(0, 20)))
    if f == 'date_mid_origin' and p['og'] == 'M': out['origin'] = out['origin'].map(lambda d: d + pd.Timedelta(days=r.randint(0, 25)))
    before = out.copy()
    t = cl.Triangle(out, origin='origin', development='dev', columns=names if len(names) > 1 or not p['strcols'] else names[0],
                    index=(keys if len(keys) > 1 or not p['strcols'] else keys[0]) if keys else None, cumulative=p['cum'],
                    **({'array_backend': 'sparse'} if p['sparse_arg'] else {}))
    if not out.equals(before): raise Fail('construction changed the input data frame')
    exp = {}
    for x in rec:
        for n in names:
            if x[n] == x[n]:
                k = (tuple(str(x[q]) for q in keys) if keys else ('Total',), n, mo(x['origin']), mo(x['dev']))
                exp[k] = exp.get(k, 0.0) + x[n]
    exp = {k: v for k, v in exp.items() if v}
    ms = sorted({d.month for d in pd.to_datetime(pd.DataFrame(allr)['dev'])})
    gaps = {b - a for a, b in zip(ms, ms[1:])}
    if not val_anchor_ok(t, p) and early and len(gaps) > 1 and t.development_grain == 'M': return      # irregular valuation months are read as monthly
    # an absent quarter leaves irregular months, which are read as monthly
    irr = lambda c: len({b - a for s in [sorted({d.month for d in pd.to_datetime(pd.DataFrame(allr)[c])})] for a, b in zip(s, s[1:])}) > 1
    if not val_anchor_ok(t, p) and (t.origin_grain == 'M' and irr('origin') or t.development_grain == 'M' and irr('dev')): return
    ko = [mo(x['origin']) for x in allr if x not in early]
    if not val_anchor_ok(t, {**p, 'no': (max(ko) - min(ko)) // MON[p['og']] + 1}): raise Fail('grain read as O%sD%s with %d origins, data are O%sD%s with %d' % (t.origin_grain, t.development_grain, len(t.odims), p['og'], p['dg'], p['no']))
    need(diffmap(cellmap(t), exp))
    V = max(mo(x['dev']) for x in allr)
    if mo(t.valuation_date) != V: raise Fail('valuation date %s, latest record valued %s' % (t.valuation_date, end(V)))
    d = dense(t)
    for n, c in enumerate(names):
        e = sum(x[c] for x in rec if x[c] == x[c])
        if not close(float(np.nansum(d[:, n])), e, 1e-7): raise Fail('column total %s: %r, expected %r' % (c, float(np.nansum(d[:, n])), e))
    if t.is_cumulative != p['cum']: raise Fail('cumulative flag')
    if list(map(str, t.columns)) != names: raise Fail('columns')
    # row order never changes an amount
    o2 = out.iloc[::-1].reset_index(drop=True)
    t2 = cl.Triangle(o2, origin='origin', development='dev', columns=names, index=keys or None, cumulative=p['cum'])
    need(diffmap(cellmap(t2), exp) and 'reversed rows: ' + str(diffmap(cellmap(t2), exp)))
    if labels(t2)[3:] != labels(t)[3:] or sorted(labels(t2)[1]) != sorted(labels(t)[1]): raise Fail('axes depend on the row order')
