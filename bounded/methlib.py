"""Plain-Python reserving methods for comparison with the estimators."""
from fitlib import *


def mcase(r, **kw):
    p = rnd_case(r, neg=0, cuts=2)
    p['shift'] = min(p['shift'], 0)
    p.update(average=r.choice(['volume', 'simple', 'regression']), n=r.choice([-1, -1, 3, 4]), tail=r.choice([None, None, 1.05, 1.2, .97]), dev=r.random() < .7)
    p['nd'] = None if r.random() < .9 else p['nd']
    p['cumx'] = r.random() < .8
    p.update(kw)
    return p


def prep(p):
    """(triangle handed to the method, the same in cumulative form, development parameters) or None"""
    t = triangle_of(p)
    if not val_anchor_ok(t, p) or t.shape[3] < 2 or t.shape[2] < 2: return None
    q = dict(average=p['average'], n_periods=p['n']) if p['dev'] else {}
    return t, q


def ldfs(t, q, k, c, tail):
    """age-to-age factors of every age, the last being the tail"""
    return factors(t, q, k, c) + [tail or 1.0]


def cdfs(l):
    out = [1.0] * (len(l) + 1)
    for j in range(len(l) - 1, -1, -1): out[j] = out[j + 1] * l[j]
    return out[:-1]


def latest(t, k, c):
    """[(age index, amount or None)] of each origin at the valuation date"""
    v, vm, V = dense(t)[k, c], valm(t), mo(t.valuation_date)
    out = []
    for i in range(v.shape[0]):
        js = [j for j in range(v.shape[1]) if vm[i, j] == V]
        x = float(v[i, js[0]]) if js else None
        out.append((js[0] if js else None, x if x is not None and x == x else None))
    return out


def xform(p, t):
    return t if p['cumx'] else t.cum_to_incr()


def pipe(p, q, model):
    st = []
    if p['dev'] or (p['tail'] and p.get('pred') is not None): st.append(('dev', cl.Development(**q)))
    if p['tail']: st.append(('tail', cl.TailConstant(p['tail'])))
    return st + [('m', model)]


def fitm(p, q, model, x, sw=None):
    st = pipe(p, q, model)
    for _, s in st[:-1]: x = s.fit_transform(x)
    return model.fit(x, sample_weight=sw) if sw is not None else model.fit(x)


def eq(a, b, what, tol=1e-8):
    a, b = (0.0 if x is None or x != x else x for x in (a, b))
    if not close(a, b, tol): raise Fail('%s: got %r, expected %r' % (what, a, b))
