"""C06 bounded stand-in: aggregation along axes and by group."""
from common import *

FN = {'sum': np.nansum, 'mean': np.nanmean, 'max': np.nanmax, 'min': np.nanmin, 'std': np.nanstd, 'prod': np.nanprod, 'var': np.nanvar, 'median': np.nanmedian}


def cases(r, tier):
    while True:
        p = rnd_case(r, cuts=1)
        p['K'], p['C'] = r.choice([1, 2, 3, 4, 6]), r.choice([1, 2, 3])
        p['ops'] = [(r.choice(['agg', 'agg', 'gb0', 'gb0m', 'gb1', 'gb2', 'gb3', 'total', 'gball']), r.choice(['sum', 'sum', 'sum', 'mean', 'max', 'min', 'std', 'prod', 'var', 'median']), r.randrange(4)) for _ in range(5)]
        p['sel'] = r.randrange(10**9)
        if r.random() < .5: p['scale'] = 3.0
        yield p


def red(v, f, ax, zero):
    w = np.where(np.isnan(v), 0, v) if zero else v
    with np.errstate(all='ignore'): return np.expand_dims(FN[f](w, axis=ax), ax)


def arr(x, n):
    return np.array(dense(x), dtype=float).reshape(n)


def check(p):
    t = make(p)
    r = random.Random(p['sel'])
    v = dense(t)
    v = np.where(v == 0, np.nan, v)
    for kind, f, ax in p['ops']:
        sp_ = t.array_backend == 'sparse'
        if f in ('median', 'var') and sp_: f = 'sum'
        if kind == 'agg':
            # non-sum aggregates are claimed over non-missing amounts of dense triangles
            if f != 'sum' and sp_: f = 'sum'
            names = {0: 'index', 1: 'columns', 2: 'origin', 3: 'development'}
            got = getattr(t, f)(names[ax] if r.random() < .4 else ax)
            e = red(v, f, ax, False)
            n = list(v.shape); n[ax] = 1
            need(diffarr(arr(got, n), e, '%s(axis=%d) ' % (f, ax), tol=1e-6))
            if hasattr(got, 'ddims'):
                la, lb = labels(t), labels(got)
                for q, a in ((1, 0), (2, 1), (3, 2), (4, 3)):
                    if a != ax and la[q] != lb[q]: raise Fail('%s(axis=%d) changed the labels of axis %d' % (f, ax, a))
                if got.is_cumulative != t.is_cumulative: raise Fail('flag changed')
        elif kind == 'total':
            x = t
            for a in r.sample(range(4), 4):
                x = x.sum(a) if hasattr(x, 'ddims') else x
            tot = float(np.nansum(v))
            x = float(np.nan_to_num(dense(x)).sum())
            if not close(x, tot, 1e-7): raise Fail('grand total after summing every axis: got %r, expected %r' % (x, tot))
        elif kind in ('gb0', 'gb0m'):
            ks = t.key_labels if kind == 'gb0m' else [r.choice(t.key_labels)]
            got = getattr(t.groupby(ks if len(ks) > 1 or r.random() < .5 else ks[0]), f)() if not (sp_ and f != 'sum') else t.groupby(ks).sum()
            f_ = 'sum' if sp_ else f
            idx = t.index[ks].apply(lambda x: tuple(map(str, x)), axis=1).tolist()
            gi = [tuple(map(str, k)) for k in np.array(got.kdims).reshape(len(got.kdims), -1)]
            if sorted(gi) != sorted(set(idx)): raise Fail('groupby %s: groups %s, expected %s' % (ks, gi, sorted(set(idx))))
            if list(got.key_labels) != list(ks): raise Fail('groupby %s: key labels %s' % (ks, got.key_labels))
            g = dense(got)
            for n, k in enumerate(gi):
                e = red(v[[m for m, z in enumerate(idx) if z == k]], f_, 0, False)[0]
                need(diffarr(g[n], e, 'groupby %s %s group %s ' % (ks, f_, k), tol=1e-6))
            if labels(got)[2:] != labels(t)[2:]: raise Fail('groupby changed other labels')
        elif kind == 'gball':
            got = t.groupby([0] * len(t)).sum() if False else t.groupby(t.key_labels[0]).sum()
            if not close(float(np.nansum(dense(got))), float(np.nansum(v)), 1e-7): raise Fail('groupby changed the grand total')
        elif kind == 'gb1':
            by = [r.choice(['x', 'y']) for _ in range(t.shape[1])]
            got = t.groupby(by, axis=1).sum()
            u = sorted(set(by))
            if list(map(str, got.vdims)) != u: raise Fail('column groups %s, expected %s' % (list(got.vdims), u))
            for n, k in enumerate(u): need(diffarr(dense(got)[:, n], np.nansum(v[:, [m for m, z in enumerate(by) if z == k]], 1), 'column group %s ' % k))
            if labels(got)[:2] != labels(t)[:2] or labels(got)[3:] != labels(t)[3:]: raise Fail('column groupby changed other labels')
        elif kind == 'gb2':
            if t.shape[2] < 2 or t.origin_grain == 'Y': continue
            by = t.origin.year
            got = t.groupby(by, axis=2).sum() if r.random() < .5 else t.groupby(list(pd.PeriodIndex(by.astype(str), freq='Y')), axis=2).sum()
            u = sorted(set(by))
            g = dense(got)
            if len(u) != g.shape[2]: raise Fail('origin groups: %d, expected %d' % (g.shape[2], len(u)))
            for n, k in enumerate(u): need(diffarr(g[:, :, n], np.nansum(v[:, :, [m for m, z in enumerate(by) if z == k]], 2), 'origin group %s ' % k))
            if [x.year for x in pd.DatetimeIndex(got.odims)] != u: raise Fail('origin group labels %s, expected %s' % (got.odims, u))
        elif kind == 'gb3':
            m = t.shape[3]
            if m < 2: continue
            b = sorted(r.randrange(2) for _ in range(m))
            got = t.groupby(b, axis=3).sum()
            g = dense(got)
            for n, k in enumerate(sorted(set(b))): need(diffarr(g[..., n], np.nansum(v[..., [q for q, z in enumerate(b) if z == k]], 3), 'age group %s ' % k))
