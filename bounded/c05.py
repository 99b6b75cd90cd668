"""C05 bounded stand-in: positional, label, boolean and valuation selections."""
from common import *

KINDS = ['iloc_i', 'iloc_list', 'iloc_slice', 'iloc_all', 'iloc_neg', 'iloc_step', 'col', 'cols', 'loc_idx', 'loc_dev', 'loc_devr', 'loc_cols', 'bool_idx', 'origin', 'origin_eq', 'origin_mask', 'dev', 'dev_mask', 'val_lt', 'val_le', 'val_gt',
         'val_eq', 'val_band', 'iat', 'latest', 'loc_origin', 'val_view', 'loc_row_dev', 'chain', 'iloc_setitem']


def cases(r, tier):
    while True:
        p = rnd_case(r, cuts=1)
        p['K'] = r.choice([1, 2, 3, 4])
        p['kinds'] = [r.choice(KINDS) for _ in range(6)]
        p['sel'] = r.randrange(10**9)
        yield p


def want(t, r, i=None, c=None, o=None, d=None):
    """(labels, dense) of the selection of the four position lists"""
    v = dense(t)
    n = v.shape
    i, c, o, d = [list(range(n[k])) if x is None else list(x) for k, x in enumerate((i, c, o, d))]
    kd = np.array(t.kdims).reshape(n[0], -1)
    dl = [mo(x) for x in t.ddims] if isinstance(t.ddims, pd.DatetimeIndex) else [int(x) for x in t.ddims]
    return ([tuple(map(str, kd[k])) for k in i], [str(t.vdims[k]) for k in c], [mo(t.odims[k]) for k in o], [dl[k] for k in d]), v[np.ix_(i, c, o, d)]


def cmp_(nm, t, got, w, cells=None):
    lab = want(got, None)[0]
    for q, a, b in zip(('index', 'columns', 'origins', 'ages'), lab, w[0]):
        if a != b: raise Fail('%s: %s are %s, expected %s' % (nm, q, a[:8], b[:8]))
    need(diffarr(dense(got), w[1], nm + ' '))
    if got.valuation_date > t.valuation_date: raise Fail('%s: valuation date moved forward to %s' % (nm, got.valuation_date))
    if got.is_cumulative != t.is_cumulative or got.origin_grain != t.origin_grain or got.development_grain != t.development_grain: raise Fail('%s: flags changed' % nm)


def rng_(r, n):
    a, b = sorted([r.randint(0, n), r.randint(0, n)])
    return (a, b) if b > a else (0, n)


def do(t, kind, r, nm):
    K, C, O, D = t.shape
    if kind == 'iloc_i':
        i = r.randrange(K); cmp_(nm, t, t.iloc[i], want(t, r, [i]))
        c = r.randrange(C); cmp_(nm, t, t.iloc[:, c], want(t, r, None, [c]))
        d = r.randrange(D); cmp_(nm, t, t.iloc[..., d], want(t, r, None, None, None, [d]))
        o = r.randrange(O); cmp_(nm, t, t.iloc[..., o, :], want(t, r, None, None, [o]))
    elif kind == 'iloc_list':
        i = r.sample(range(K), r.randint(1, K)); c = r.sample(range(C), r.randint(1, C))
        cmp_('%s %s' % (nm, i), t, t.iloc[i], want(t, r, i)); cmp_('%s %s' % (nm, c), t, t.iloc[:, c], want(t, r, None, c))
        cmp_('%s %s %s' % (nm, i, c), t, t.iloc[i, c], want(t, r, i, c))
    elif kind == 'iloc_slice':
        o, d = rng_(r, O), rng_(r, D)
        cmp_('%s %s %s' % (nm, o, d), t, t.iloc[:, :, o[0]:o[1], d[0]:d[1]], want(t, r, None, None, range(*o), range(*d)))
    elif kind == 'iloc_all':
        i, c, o, d = rng_(r, K), rng_(r, C), rng_(r, O), rng_(r, D)
        cmp_(nm, t, t.iloc[i[0]:i[1], c[0]:c[1], o[0]:o[1], d[0]:d[1]], want(t, r, range(*i), range(*c), range(*o), range(*d)))
    elif kind == 'iloc_neg':
        a = -r.randint(1, D); cmp_('%s %d' % (nm, a), t, t.iloc[..., a:], want(t, r, None, None, None, range(D + a, D)))
        if a > -D: cmp_('%s :%d' % (nm, a), t, t.iloc[..., :a], want(t, r, None, None, None, range(0, D + a)))
        b = -r.randint(1, O); cmp_('%s o%d' % (nm, b), t, t.iloc[:, :, b:, :], want(t, r, None, None, range(O + b, O)))
        cmp_('%s i-1' % nm, t, t.iloc[-1], want(t, r, [K - 1])); cmp_('%s d-1' % nm, t, t.iloc[..., -1], want(t, r, None, None, None, [D - 1]))
    elif kind == 'iloc_step':
        s = r.choice([2, 3]); cmp_(nm, t, t.iloc[..., ::s], want(t, r, None, None, None, range(0, D, s)))
        cmp_(nm, t, t.iloc[:, :, ::s, :], want(t, r, None, None, range(0, O, s)))
        cmp_(nm, t, t.iloc[::s], want(t, r, range(0, K, s)))
        cmp_(nm + ' -1', t, t.iloc[::-1], want(t, r, range(K - 1, -1, -1)))
    elif kind == 'col':
        c = r.randrange(C); cmp_(nm, t, t[t.columns[c]], want(t, r, None, [c]))
    elif kind in ('cols', 'loc_cols'):
        c = r.sample(range(C), r.randint(1, C)); q = [t.columns[k] for k in c]
        cmp_('%s %s' % (nm, c), t, t[q] if kind == 'cols' else t.loc[:, q], want(t, r, None, c))
    elif kind == 'loc_idx':
        i = r.randrange(K)
        lab = [tuple(k) for k in np.array(t.kdims).reshape(K, -1)]
        cmp_(nm, t, t.loc[lab[i] if len(lab[i]) > 1 else lab[i][0]], want(t, r, [i]))
    elif kind == 'loc_dev':
        d = r.randrange(D); cmp_(nm, t, t.loc[..., t.ddims[d]], want(t, r, None, None, None, [d]))
    elif kind == 'loc_devr':
        a, b = rng_(r, D); cmp_(nm, t, t.loc[..., t.ddims[a]:t.ddims[b - 1]], want(t, r, None, None, None, range(a, b)))
    elif kind == 'loc_origin':
        a, b = rng_(r, O); q = t.origin
        cmp_(nm, t, t.loc[:, :, q[a]:q[b - 1], :], want(t, r, None, None, range(a, b)))
    elif kind == 'loc_row_dev':
        a, b = rng_(r, D); i = r.randrange(K); lab = [tuple(k) for k in np.array(t.kdims).reshape(K, -1)]
        cmp_(nm, t, t.loc[lab[i] if len(lab[i]) > 1 else lab[i][0], :, :, t.ddims[a]:t.ddims[b - 1]], want(t, r, [i], None, None, range(a, b)))
    elif kind == 'bool_idx':
        k = t.key_labels[0]; x = r.choice(list(t.index[k]))
        w = [n for n, z in enumerate(t.index[k]) if z == x]
        cmp_(nm, t, t[t[k] == x], want(t, r, w))
        w2 = [n for n, z in enumerate(t.index[k]) if z != x]
        if w2: cmp_(nm + '!=', t, t[t[k] != x], want(t, r, w2))
        cmp_(nm + 'isin', t, t[t.index[k].isin([x])], want(t, r, w))
    elif kind in ('origin', 'origin_eq'):
        n = r.randrange(O); q = t.origin[n]
        if kind == 'origin_eq': cmp_(nm, t, t[t.origin == q], want(t, r, None, None, [n]))
        else:
            cmp_(nm + ' >=', t, t[t.origin >= q], want(t, r, None, None, range(n, O)))
            if n: cmp_(nm + ' <', t, t[t.origin < q], want(t, r, None, None, range(n)))
    elif kind == 'origin_mask':
        m = [r.random() < .6 for _ in range(O)]
        if any(m): cmp_('%s %s' % (nm, m), t, t[np.array(m)], want(t, r, None, None, [n for n in range(O) if m[n]]))
    elif kind in ('dev', 'dev_mask'):
        if t.is_val_tri: return
        n = r.randrange(D); q = t.ddims[n]
        if kind == 'dev':
            cmp_(nm + ' <=', t, t[t.development <= q], want(t, r, None, None, None, range(n + 1)))
            cmp_(nm + ' ==', t, t[t.development == q], want(t, r, None, None, None, [n]))
        else:
            m = [r.random() < .6 for _ in range(D)]
            if any(m): cmp_('%s %s' % (nm, m), t, t[pd.Series(m)] if False else t[(t.development.isin([x for x, z in zip(t.ddims, m) if z]))], want(t, r, None, None, None, [n for n in range(D) if m[n]]))
    elif kind.startswith('val_') and kind != 'val_view':
        if D == 1 or O == 1: return
        vm = valm(t); vv = sorted(set(t.valuation)); a, b = sorted([r.choice(vv), r.choice(vv)])
        F = {'val_lt': (t.valuation < b, vm < mo(b)), 'val_le': (t.valuation <= a, vm <= mo(a)), 'val_gt': (t.valuation > a, vm > mo(a)), 'val_eq': (t.valuation == a, vm == mo(a)),
             'val_band': ((t.valuation >= a) & (t.valuation <= b), (vm >= mo(a)) & (vm <= mo(b)))}[kind]
        key, m = F
        if not key.any(): return
        try: got = t[key]
        except ValueError as e:
            if 'Fancy indexing' in str(e): return      # a refused selection is not a wrong one
            raise
        exp = {}
        full = want(t, r)
        for (k, c, i, j), x in np.ndenumerate(np.nan_to_num(full[1])):
            if x and m[i, j]: exp[(full[0][0][k], full[0][1][c], full[0][2][i], full[0][3][j])] = x
        g = want(got, r); have = {}
        for (k, c, i, j), x in np.ndenumerate(np.nan_to_num(g[1])):
            if x: have[(g[0][0][k], g[0][1][c], g[0][2][i], g[0][3][j])] = x
        need(diffmap(have, exp) and '%s %s..%s: %s' % (nm, a, b, diffmap(have, exp)))
        if got.valuation_date > t.valuation_date: raise Fail('%s: valuation date moved forward' % nm)
        if kind in ('val_lt', 'val_le') and mo(got.valuation_date) > (mo(b) - 1 if kind == 'val_lt' else mo(a)): raise Fail('%s: valuation date %s after the filter' % (nm, got.valuation_date))
        if g[0][0] != full[0][0] or g[0][1] != full[0][1]: raise Fail('%s: index or columns changed' % nm)
        if list(g[0][2]) != [x for x, z in zip(full[0][2], m.any(1)) if z] : raise Fail('%s: origins %s' % (nm, g[0][2]))
        if list(g[0][3]) != [x for x, z in zip(full[0][3], m.any(0)) if z] : raise Fail('%s: ages %s' % (nm, g[0][3]))
    elif kind == 'iat':
        i, c, o, d = r.randrange(K), r.randrange(C), r.randrange(O), r.randrange(D)
        x = t.iat[i, c, o, d]
        need(diffarr(np.array(x, dtype=float).reshape(()), dense(t)[i, c, o, d], nm + ' '))
    elif kind == 'latest':
        if t.is_val_tri or not t.is_cumulative or 1 in (O, D): return
        v, vm, V = dense(t), valm(t), mo(t.valuation_date)
        if not (vm == V).any(): return      # nothing is valued at the valuation date: the selection is refused
        exp = np.zeros((K, C, O))
        for i in range(O):
            js = [j for j in range(D) if vm[i, j] == V]
            if js: exp[:, :, i] = np.nan_to_num(v[..., i, js[0]])
        got = t.latest_diagonal
        m = np.array([any(vm[i, j] == V for j in range(D)) for i in range(O)])
        x = dense(got)[..., 0]
        if x.shape[2] == O: x = x[:, :, m]          # origins past their last age may or may not be listed
        need(diffarr(x, exp[:, :, m], nm + ' '))
    elif kind == 'val_view':
        v = t.dev_to_val()
        if v.shape[3] > 1:
            a, b = rng_(r, v.shape[3])
            cmp_(nm, v, v.iloc[..., a:b], want(v, r, None, None, None, range(a, b)))
            o = rng_(r, v.shape[2]); cmp_(nm, v, v.iloc[:, :, o[0]:o[1], :], want(v, r, None, None, range(*o)))
    elif kind == 'chain':
        o = rng_(r, O); s = t.iloc[:, :, o[0]:o[1], :]
        if 0 in s.shape: return
        d = rng_(r, s.shape[3])
        cmp_(nm, t, s.iloc[..., d[0]:d[1]], want(t, r, None, None, range(*o), range(*d)))
        cmp_(nm, t, t[t.columns[:1]].iloc[:, :, o[0]:o[1], d[0]:d[1]], want(t, r, None, [0], range(*o), range(*d)))
    elif kind == 'iloc_setitem':
        if t.array_backend != 'numpy': return
        q = t.copy(); a, b = rng_(r, O); c = r.randrange(C)
        q.iloc[:, c, a:b] = 77.0
        e = dense(t); e[:, c, a:b] = 77.0
        need(diffarr(dense(q), e, nm + ' '))


def check(p):
    t = make(p)
    r = random.Random(p['sel'])
    for k in p['kinds']: do(t, k, r, k)
