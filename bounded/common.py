"""Bounded stand-in machinery: deterministic generation of triangles, an
independent plain-Python reading of a triangle, and comparison helpers.

Nothing here is counted as proved.  The campaigns run the real, unmodified code
of /repo on generated inputs and serve (a) as labelled bounded stand-ins for the
functions outside the verifier's reach and (b) as the search for a failing input
when an obligation fails.
"""
import json, math, os, random, sys, warnings
import numpy as np
import pandas as pd
warnings.simplefilter('ignore')
np.seterr(all='ignore')
import chainladder as cl

MON = {'Y': 12, 'S': 6, 'Q': 3, 'M': 1}


def ym(m):
    return m // 12, m % 12 + 1


def start(m):
    y, k = ym(m)
    return pd.Timestamp(year=y, month=k, day=1)


def end(m):
    return start(m + 1) - pd.Timedelta(days=1)


def mo(ts):
    ts = pd.Timestamp(ts)
    return ts.year * 12 + ts.month - 1


DEFAULT = dict(seed=0, og='Y', dg='Y', no=4, nd=None, K=1, C=1, backend='numpy', cum=True, holes=0.0, zeros=0.0, neg=0.0,
               shift=0, y0=1995, keys=1, scale=1000.0, growth=True, m0=0)


def frame(p):
    """long data frame of incremental records of the case (one record per known cell)"""
    p = {**DEFAULT, **p}
    r = random.Random(p['seed'])
    og, dg = MON[p['og']], MON[p['dg']]
    o0 = p['y0'] * 12 + p['m0']
    no = p['no']
    V = o0 + og * no - 1 + p['shift'] * dg      # latest valuation month
    rows = []
    names = ['v%d' % c for c in range(p['C'])]
    keys = []
    for k in range(p['K']):
        keys.append(tuple('%s%d' % ('abc'[q], (k if q == 0 else (k * 7 + q) % 3)) for q in range(p['keys'])))
    for k in range(p['K']):
        for i in range(no):
            os_ = o0 + og * i
            lag = 1
            while True:
                age = lag * dg
                vm = os_ + age - 1
                if vm > V or (p['nd'] and lag > p['nd']): break
                # anchors keep the axes well defined
                anchor = k == 0 and (i == 0 or vm == V)
                if anchor or r.random() >= p['holes']:
                    row = {'origin': start(os_), 'dev': end(vm)}
                    for q in range(p['keys']): row['k%d' % q] = keys[k][q]
                    for nm in names:
                        a = round(math.exp(r.gauss(0, .7)) * p['scale'] / lag, 2)
                        u = r.random()
                        if u < p['zeros'] : a = 0.0
                        elif u < p['zeros'] + p['neg']: a = -a / 4
                        row[nm] = a
                    rows.append(row)
                lag += 1
    return pd.DataFrame(rows), names, ['k%d' % q for q in range(p['keys'])]


def build(df, names, keys, cumulative, backend='numpy', **kw):
    t = cl.Triangle(df, origin='origin', development='dev', columns=names, index=keys, cumulative=cumulative, **kw)
    return t.set_backend(backend) if backend else t


def make(p):
    """triangle of the case"""
    q = {**DEFAULT, **p}
    df, names, keys = frame(p)
    t = build(df, names, keys, False, None)
    if q['cum']: t = t.incr_to_cum()
    if q.get('agecut') and t.shape[3] - q['agecut'] >= 2: t = t[t.development <= int(t.ddims[-1 - q['agecut']])]      # more origins than ages
    if q.get('orgcut') and t.shape[2] - q['orgcut'] >= 2: t = t[t.origin >= str(t.origin[q['orgcut']])]              # more ages than origins
    return t.set_backend(q['backend'])


def dense(t):
    v = t.values if hasattr(t, 'ddims') else t
    if hasattr(v, 'todense'): v = v.todense()
    return np.array(v, dtype=float)


def valm(t):
    """month in which each (origin, age) cell is valued; 99999 for ultimates"""
    o = [mo(x) for x in t.odims]
    if isinstance(t.ddims, pd.DatetimeIndex):
        d = [99999 if x.year >= 2261 else mo(x) for x in t.ddims]
        return np.array([[y for y in d] for _ in o])
    return np.array([[99999 if a == 9999 else x + int(a) - 1 for a in t.ddims] for x in o])


def cellmap(t, nz=True):
    """{(index labels, column, origin month, valuation month): amount}; zeros and missing dropped"""
    v, vm, o = dense(t), valm(t), [mo(x) for x in t.odims]
    ks = [tuple(map(str, k)) for k in np.array(t.kdims).reshape(len(t.kdims), -1)]
    out = {}
    for a, b, i, j in zip(*np.nonzero(np.nan_to_num(v))):
        k = (ks[a], str(t.vdims[b]), o[i], int(vm[i, j]))
        out[k] = out.get(k, 0.0) + v[a, b, i, j]
    return out


def close(a, b, tol=1e-8):
    if isinstance(a, float) and a != a and b != b: return True
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def diffmap(a, b, tol=1e-7):
    """first key on which two cell maps differ"""
    sc = max([abs(x) for x in list(a.values()) + list(b.values())] + [1.0])
    for k in sorted(set(a) | set(b), key=str):
        x, y = a.get(k, 0.0), b.get(k, 0.0)
        if not close(x, y, tol) and abs(x - y) > 1e-9 * sc: return 'cell %s: got %r, expected %r' % (k, x, y)
    return None


def diffarr(a, b, what='', tol=1e-7, nan0=True):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    if a.shape != b.shape: return '%s: shape %s, expected %s' % (what, a.shape, b.shape)
    if nan0: a, b = np.nan_to_num(a), np.nan_to_num(b)
    bad = ~((np.abs(a - b) <= tol * np.maximum(1, np.maximum(np.abs(a), np.abs(b)))) | (np.isnan(a) & np.isnan(b)) | (a == b))
    if bad.any():
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        return '%s%s: got %r, expected %r' % (what, list(k), float(a[k]), float(b[k]))
    return None


def labels(t):
    return (tuple(t.key_labels), tuple(map(str, np.array(t.kdims).flatten())), tuple(map(str, t.vdims)), tuple(mo(x) for x in t.odims),
            tuple(('v', str(x)) if isinstance(t.ddims, pd.DatetimeIndex) else (str(int(x)) if not isinstance(x, str) else x) for x in t.ddims))


def snapshot(t):
    """everything observable of a triangle, for frame checks"""
    return (labels(t), np.array(dense(t), copy=True).tobytes(), str(t.valuation_date), t.is_cumulative, t.is_pattern, t.origin_grain,
            t.development_grain, t.origin_close, t.array_backend, tuple(sorted(map(str, t.virtual_columns.columns))),
            str(type(t.ddims).__name__ == 'DatetimeIndex'))


def rnd_case(r, **kw):
    """random triangle parameters"""
    og, dg = r.choice([('Y', 'Y')] * 4 + [('Y', 'Q')] * 3 + [('Q', 'Q')] * 2 + [('Y', 'M'), ('Q', 'M'), ('M', 'M'), ('S', 'S'), ('Y', 'S'), ('S', 'Q')])
    per = MON[og] // MON[dg]
    no = r.choice([2, 3, 4, 5, 6]) if MON[og] >= 6 else r.choice([4, 5, 6, 8])
    shift = 0
    u = r.random()
    if per > 1 and u < .3: shift = -r.randint(1, per - 1)        # latest origin partially developed
    elif u < .5: shift = r.randint(1, 3)                          # run-off beyond the last origin
    nd = None
    if r.random() < .2: nd = r.randint(2, max(2, no * per - 1))
    p = dict(seed=r.randrange(10**9), og=og, dg=dg, no=no, nd=nd, K=r.choice([1, 1, 2, 3]), C=r.choice([1, 1, 2, 3]),
             backend=r.choice(['numpy', 'numpy', 'sparse']), cum=r.random() < .6, holes=r.choice([0, 0, .1, .3]),
             zeros=r.choice([0, 0, .1]), neg=r.choice([0, 0, .15]), shift=shift, y0=r.choice([1981, 1995, 1999, 2004, 2015]),
             keys=r.choice([1, 1, 2]))
    cuts = kw.pop('cuts', 0)
    if cuts:
        u = r.random() if cuts == 1 else r.uniform(.15, 1)      # 2: every origin reaches the valuation date
        if u < .15: p['agecut'] = r.choice([1, 2, 3, 4, 6])
        elif u < .25: p['orgcut'] = r.choice([1, 2, 3])
    p.update(kw)
    return p


def val_anchor_ok(t, p):
    """generated axes are what the case meant (grain inference can collapse tiny cases)"""
    o = [mo(x) for x in t.odims]
    g = MON[p['og']]
    a = p.get('orgcut') or 0
    return (t.origin_grain == p['og'] and t.development_grain == p['dg'] and len(o) >= p['no'] - a
            and o in [[p['y0'] * 12 + p.get('m0', 0) + g * (i + b) for i in range(len(o))] for b in {0, a}])


class Fail(Exception):
    pass


def need(msg):
    if msg: raise Fail(msg)
