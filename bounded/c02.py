"""C02 bounded stand-in: development and valuation views of generated triangles."""
from common import *


def cases(r, tier):
    yield dict(big=1, seed=r.randrange(10**6))
    while True:
        p = rnd_case(r, cuts=1)
        p['sub'] = r.choice(['none', 'none', 'none', 'origins', 'devs', 'vals', 'ostep', 'dstep'])
        p['inplace'] = r.random() < .3
        p['pick'] = r.random()
        p['first_missing'] = r.random() < .2
        yield p


def sub(t, p):
    k = p['sub']
    if k == 'origins': return t.iloc[:, :, int(p['pick'] * len(t.odims)):, :]
    if k == 'devs': return t.iloc[..., int(p['pick'] * len(t.ddims)):]
    if k == 'ostep': return t.iloc[:, :, ::2, :]
    if k == 'dstep': return t.iloc[..., int(p['pick'] * 2)::2]
    if k == 'vals':
        v = sorted(set(t.valuation[t.valuation <= t.valuation_date]))
        return t[t.valuation <= v[int(p['pick'] * len(v))]]
    return t


def big(p):
    """a completed monthly triangle: more cells than half precision can count"""
    n = 61 + p['seed'] % 5
    t = make(dict(DEFAULT, og='M', dg='M', no=n, seed=p['seed']))
    x = np.nan_to_num(dense(t)); x[x == 0] = 1.0
    t = t.copy(); t.values = x; t.valuation_date = pd.Timestamp('2261-12-31 23:59:59.999999999')
    if not t.is_full: raise Fail('a triangle with every cell known is not full')
    need(diffarr(dense(t.dev_to_val().val_to_dev())[..., :n], dense(t), 'completed triangle there and back '))


def check(p):
    if p.get('big'): return big(p)
    t = sub(make(p), p)
    a = cellmap(t)
    if not a: return                # nothing known: no valuation to label
    tot = float(np.nan_to_num(dense(t)).sum())
    v = t.copy().dev_to_val(inplace=True) if p['inplace'] else t.dev_to_val()
    if not v.is_val_tri: raise Fail('dev_to_val result is not a valuation triangle')
    if t.is_full and t.is_cumulative and t.shape[2] > 1:
        # a full triangle is carried forward: later valuations hold the last amount of the origin
        last = {}
        for k in sorted(a, key=lambda k: k[3]): last[k[:3]] = k[3]
        exp = dict(a)
        for x in v.ddims:
            for k, q in last.items():
                if mo(x) > q: exp[k + (mo(x),)] = a[k + (q,)]
        need(diffmap(cellmap(v), exp) and 'full triangle: ' + str(diffmap(cellmap(v), exp)))
        return
    need(diffmap(cellmap(v), a))
    if not close(float(np.nan_to_num(dense(v)).sum()), tot, 1e-7): raise Fail('total changed by dev_to_val')
    if [str(x) for x in np.array(v.kdims).flatten()] != [str(x) for x in np.array(t.kdims).flatten()]: raise Fail('index changed')
    if list(v.vdims) != list(t.vdims) or list(v.odims) != list(t.odims): raise Fail('columns or origins changed')
    b = v.copy().val_to_dev(inplace=True) if p['inplace'] else v.val_to_dev()
    if b.is_val_tri: raise Fail('val_to_dev result is a valuation triangle')
    need(diffmap(cellmap(b), a))
    if len(t.ddims) > 1 and p['sub'] in ('none', 'origins'):
        d = np.nan_to_num(dense(t)).any(axis=(0, 1, 2)).nonzero()[0]
        if len(d) and not set(int(x) for x in np.array(t.ddims)[d]) <= set(int(x) for x in b.ddims):
            raise Fail('ages lost by the round trip')
        if p['sub'] == 'none' and not p.get('agecut') and not p.get('orgcut') and not p['holes'] and not p['zeros'] and labels(b) != labels(t): raise Fail('labels changed by the round trip')
    if b.valuation_date != t.valuation_date or v.valuation_date != t.valuation_date: raise Fail('valuation date changed')
    if b.is_cumulative != t.is_cumulative: raise Fail('cumulative flag changed')
    n = v.shape[-1]
    lo = int(p['pick'] * n)
    hi = max(lo + 1, n - int(p['pick'] * 1000) % n)
    w = v.iloc[..., lo:hi]
    need(diffmap(cellmap(w.val_to_dev()), cellmap(w)) and 'valuation slice %d:%d to development: ' % (lo, hi) + str(diffmap(cellmap(w.val_to_dev()), cellmap(w))))
    need(diffmap(cellmap(v.dev_to_val()), a))
    need(diffmap(cellmap(t.val_to_dev()), a))
    need(diffmap(cellmap(b.dev_to_val()), a))
