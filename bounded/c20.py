"""C20 bounded stand-in: trending."""
from common import *


def cases(r, tier):
    while True:
        p = rnd_case(r, cuts=1)
        p.update(tr=r.choice([.05, -.03, .2, 0.0]), axis=r.choice(['origin', 'valuation', 2]), s=r.random() if r.random() < .4 else None, e=r.random() if r.random() < .4 else None, kind=r.choice(['one', 'one', 'two', 'est', 'val']), asstr=r.random() < .5, fwd=r.random() < .3)
        yield p


def fac(t, tr, axis, s, e):
    """documented factor of each (origin, age) cell"""
    V, o = mo(t.valuation_date), [mo(x) for x in t.odims]
    S = V if s is None else s
    E = o[0] if e is None else e
    lo, hi = min(S, E), max(S, E)
    og = MON[t.origin_grain]
    vm = valm(t)
    out = np.empty(vm.shape)
    for i in range(vm.shape[0]):
        for j in range(vm.shape[1]):
            m = o[i] + og - 1 if axis in ('origin', 2) else vm[i, j]
            out[i, j] = (1 + tr) ** ((S - max(min(m, hi), lo)) / 12)
    return out


def check(p):
    t = make(p)
    if not val_anchor_ok(t, p): return
    V, o0 = mo(t.valuation_date), mo(t.odims[0])
    span = max(V - o0, 1)
    s = None if p['s'] is None else o0 + int((.5 + p['s'] / 2) * span)
    e = None if p['e'] is None else o0 + int(p['e'] / 2 * span)
    if p['fwd'] and p['kind'] == 'one' and s is not None and e is not None: s, e = e, s      # a window given in forward order
    dt = lambda m: None if m is None else ('%d-%02d' % ym(m) if p['asstr'] else pd.Timestamp(start(m)))
    D, vm = dense(t), valm(t)
    kn = vm <= V
    def same(x, want, nm):
        if labels(x) != labels(t): raise Fail(nm + ': labels')
        need(diffarr(dense(x)[..., kn], (D * want)[..., kn], nm + ' ', 1e-9))
        if np.nan_to_num(dense(x)[..., ~kn]).any(): raise Fail(nm + ': created cells')
        if ((np.nan_to_num(dense(x)) != 0) != (np.nan_to_num(D) != 0)).any(): raise Fail(nm + ': cells created or removed')
    if p['kind'] == 'two':
        same(t.trend(p['tr'], p['axis']).trend(.1, p['axis']), fac(t, p['tr'], p['axis'], None, None) * fac(t, .1, p['axis'], None, None), 'two trends')
        a, b = t.trend(p['tr'], p['axis'], start=dt(s), end=dt(e)), t.trend(.02, 'valuation')
        same(a.trend(.02, 'valuation'), fac(t, p['tr'], p['axis'], s, e) * fac(t, .02, 'valuation', None, None), 'trend after trend')
    elif p['kind'] == 'est':
        m = s if s is not None else V - 12
        if p['axis'] == 2: return
        T = cl.Trend(trends=[p['tr'], .07], dates=[(None, dt(m)), (dt(m), None)], axis=p['axis']).fit(t)
        want = fac(t, p['tr'], p['axis'], None, m) * fac(t, .07, p['axis'], m, None)
        x = dense(T.trend_)
        nz = np.nan_to_num(D) != 0
        need(diffarr(x[nz], np.broadcast_to(want, D.shape)[nz], 'trend factors ', 1e-9))
        y = T.transform(t)
        if snapshot(y)[:2] != snapshot(t)[:2]: raise Fail('Trend.transform changed amounts')
    elif p['kind'] == 'val':
        if t.is_full and t.is_cumulative: return       # a full triangle is carried forward in the valuation view
        v = t.dev_to_val().trend(p['tr'], p['axis'] if p['axis'] != 2 else 'origin').val_to_dev()
        w = t.trend(p['tr'], p['axis'])
        need(diffmap(cellmap(v), cellmap(w)))
    else:
        same(t.trend(p['tr'], p['axis'], start=dt(s), end=dt(e)), fac(t, p['tr'], p['axis'], s, e), 'trend %s to %s' % (s, e))
        same(t.trend(0.0, p['axis'], start=dt(s), end=dt(e)), np.ones(vm.shape), 'zero trend')
