"""C03 bounded stand-in: label-aligned arithmetic on generated triangles."""
from common import *


def cases(r, tier):
    while True:
        p = rnd_case(r, cuts=1)
        p['rel'] = r.choice(['same', 'same', 'rows', 'rowsub', 'cols', 'cols', 'colsub', 'colsub', 'col1', 'row1', 'org', 'dev', 'orgdev', 'org1', 'dev1', 'scalar', 'scalar', 'rowmiss'])
        p['sc'] = r.choice([2, 0.5, -3.0, 1, 7.25])
        p['pick'] = r.random()
        p['seed2'] = r.randrange(10**6)
        p['b2'] = r.choice(['numpy', 'sparse'])
        if p['rel'] in ('org', 'dev', 'orgdev') and r.random() < .4: p['rel2'] = r.choice(['row1', 'col1'])
        if p['rel'] in ('rows', 'rowsub', 'row1', 'rowmiss'): p['K'], p['keys'] = r.choice([2, 3, 4]), 1
        if p['rel'] in ('cols', 'colsub', 'col1'): p['C'] = r.choice([2, 3])
        yield p


def lab(t):
    """{(row, col, origin, age-or-valuation label): amount} of all cells, nonzero"""
    v, o = dense(t), [mo(x) for x in t.odims]
    d = [mo(x) for x in t.ddims] if isinstance(t.ddims, pd.DatetimeIndex) else [int(x) for x in t.ddims]
    ks = [tuple(map(str, k)) for k in np.array(t.kdims).reshape(len(t.kdims), -1)]
    return {(ks[a], str(t.vdims[b]), o[i], d[j]): v[a, b, i, j] for a, b, i, j in zip(*np.nonzero(np.nan_to_num(v)))}


def partner(a, p):
    b = make({**p, 'seed': p['seed2'], 'backend': p['b2']})
    r = random.Random(p['seed2'])
    k = p['rel']
    if k == 'rows':
        ix = list(range(b.shape[0])); r.shuffle(ix); b = b.iloc[ix]
    if k == 'rowmiss': b = b.iloc[1:]
    if k == 'rowsub': b = b.iloc[0]
    if k == 'cols':
        c = list(b.columns); r.shuffle(c); b = b[c]
    if k == 'colsub': b = b[list(b.columns)[1:]]
    if k == 'col1': b = b[[list(b.columns)[-1]]]
    if k == 'row1': b = b.sum(0) if b.shape[0] > 1 else b
    if p.get('rel2') == 'row1' and b.shape[0] > 1: b = b.iloc[:1]
    if p.get('rel2') == 'col1': b = b[[list(b.columns)[-1]]]
    n, m = b.shape[2], b.shape[3]
    if k in ('org', 'orgdev'): b = b.iloc[:, :, (1 if p['pick'] < .5 else 0):(n if p['pick'] < .5 else n - 1), :]
    if k in ('dev', 'orgdev') and m > 2: b = b.iloc[..., (1 if p['pick'] < .5 else 0):(m if p['pick'] < .5 else m - 1)]
    if k == 'org1': b = b.iloc[:, :, :1, :]
    if k == 'dev1': b = b.iloc[..., :1]
    return b


def bc(m, k, axes):
    """amount at label k of a map whose length-one axes broadcast"""
    k = list(k)
    for ax, v in axes.items(): k[ax] = v
    return m.get(tuple(k), 0.0)


def check(p):
    a = make(p)
    ok = valm(a) <= mo(a.valuation_date)
    if p['rel'] == 'scalar':
        A = np.nan_to_num(dense(a))
        s = p['sc']
        for nm, got, exp in (('a+s', a + s, (A + s) * ok), ('a-s', a - s, (A - s) * ok), ('a*s', a * s, A * s), ('a/s', a / s, A / s), ('s+a', s + a, (A + s) * ok),
                             ('s-a', s - a, (s - A) * ok), ('s*a', s * a, A * s), ('-a', -a, -A), ('abs', abs(a), abs(A)),
                             ('a**2', a ** 2, A ** 2)):
            need(diffarr(dense(got), exp, nm + ' '))
            if labels(got) != labels(a): raise Fail(nm + ' changed labels')
        with np.errstate(all='ignore'):
            q = dense(s / a)
        nz = A != 0
        need(diffarr(q[nz], s / A[nz], 's/a on known cells '))
        return
    b = partner(a, p)
    if 0 in b.shape: return
    if (a.origin_grain, a.development_grain) != (b.origin_grain, b.development_grain): return     # arithmetic of different grains is refused
    la, lb = lab(a), lab(b)
    kx, ky = [set(str(x) for x in np.array(t.kdims).flatten()) for t in (a, b)]
    axa, axb = {}, {}
    key = lambda t: tuple(map(str, np.array(t.kdims)[0]))
    dd = lambda t: mo(t.ddims[0]) if isinstance(t.ddims, pd.DatetimeIndex) else int(t.ddims[0])
    for q, one, other in ((axa, a, b), (axb, b, a)):
        if one.shape[0] == 1 and (other.shape[0] > 1 or True): q[0] = key(one)
        if one.shape[1] == 1: q[1] = str(one.vdims[0])
        if one.shape[2] == 1 and other.shape[2] > 1: q[2] = mo(one.odims[0])
        if one.shape[3] == 1 and other.shape[3] > 1: q[3] = dd(one)
    if p['rel'] == 'colsub' and b.shape[1] == 1: pass
    rowalign = not (p['rel'] == 'rowmiss' and b.shape[0] > 1)

    def lin(sgn, got, nm):
        g = lab(got)
        keys = set(g) | {k for k in la if not axa} | {k for k in lb if not axb}
        for k in keys:
            e = bc(la, k, axa) + sgn * bc(lb, k, axb)
            if not close(g.get(k, 0.0), e, 1e-7) and abs(g.get(k, 0.0) - e) > 1e-6: raise Fail('%s at %s: got %r, expected %r' % (nm, k, g.get(k, 0.0), e))
        # every label of either operand appears in the result
        for ax, q in ((0, 'index'), (1, 'column'), (2, 'origin'), (3, 'age')):
            have = {0: {tuple(map(str, k)) for k in np.array(got.kdims).reshape(len(got.kdims), -1)}, 1: set(map(str, got.vdims)), 2: {mo(x) for x in got.odims},
                    3: {dd2 for dd2 in ([mo(x) for x in got.ddims] if isinstance(got.ddims, pd.DatetimeIndex) else [int(x) for x in got.ddims])}}[ax]
            want = ({k[ax] for k in la} if ax not in axa else set()) | ({k[ax] for k in lb} if ax not in axb else set())
            if not want <= have: raise Fail('%s lost %s labels %s' % (nm, q, sorted(want - have, key=str)[:3]))
        return g
    s1 = lin(1, a + b, 'a+b')
    s2 = lab(b + a)
    if a.shape[0] == b.shape[0] == 1: s1, s2 = [{k[1:]: v for k, v in s.items()} for s in (s1, s2)]     # a single row keeps the name of either operand
    if a.shape[1] == b.shape[1] == 1: s1, s2 = [{k[:-3] + k[-2:]: v for k, v in s.items()} for s in (s1, s2)]
    need(diffmap(s2, s1) and 'addition does not commute: ' + str(diffmap(s2, s1)))
    lin(-1, a - b, 'a-b')
    # cells of the sum beyond the operands' valuations stay empty
    if p['rel'] in ('same', 'rows', 'cols', 'colsub', 'rowsub', 'row1', 'col1', 'rowmiss'):
        need(diffmap(lab((a + b) - b) if not axa or p['rel'] == 'same' else la, la) if not (p['rel'] in ('rowsub', 'row1', 'col1')) else None)
        g, q = lab(a * b), a / b
        if rowalign:
            for k in set(g) | set(la):
                e = bc(la, k, axa) * bc(lb, k, axb)
                if not close(g.get(k, 0.0), e, 1e-7): raise Fail('a*b at %s: got %r, expected %r' % (k, g.get(k, 0.0), e))
            q = lab(q)
            for k in set(la):
                d = bc(lb, k, axb)
                if d and not close(q.get(k, 0.0), bc(la, k, axa) / d, 1e-7): raise Fail('a/b at %s: got %r, expected %r' % (k, q.get(k, 0.0), bc(la, k, axa) / d))
