"""Slicing."""
from vc.api import *
from vc import stubs
import numpy as np


@contract('C05', 'core.slice._LocBase._contig_slice', grid(s=[1, -1, 2, 3, -2]))
def contig_slice_progression(c, s):
    import chainladder.core.slice as sl
    N, n = sym_dim('N'), sym_dim('n')
    a = z3.Int('a')
    c.assume(And(a >= 0, a < I(N), a + s * (I(n) - 1) >= 0, a + s * (I(n) - 1) < I(N)))
    arr = SymTensor((n,), lambda i: a + s * iterm(i[0]), 'i')
    r = sl._LocBase._contig_slice(arr)
    if isinstance(r, slice):
        b, st, ln = tz.norm_slice(r, N)
        c.prove('selects as many positions as the index array', I(ln) == I(n))
        c.prove('first position', b == a)
        c.prove('step', Or(I(n) == 1, st == s))
    else:
        c.prove('returns the index array itself', r is arr)


@contract('C05', 'core.slice._LocBase._contig_slice')
def contig_slice_any(c):
    """any in-range array of distinct positions: a slice result selects exactly the array, in order"""
    import chainladder.core.slice as sl
    N, n = sym_dim('N'), sym_dim('n', 2)
    arr = sym_tensor('arr', (n,), 'i', inv=lambda i, e: [z3.Implies(And(i[0] >= 0, i[0] < I(n)), And(e >= 0, e < I(N)))])
    try:
        r = sl._LocBase._contig_slice(arr)
    except OutOfSubset as e:
        raise
    if not isinstance(r, slice):
        c.prove('irregular: the array itself is returned', r is arr)


@contract('C05', 'core.slice._LocBase._contig_slice')
def contig_slice_scalar(c):
    import chainladder.core.slice as sl
    N = sym_dim('N')
    a, = sym_idx(N)
    r = sl._LocBase._contig_slice(SymInt(a))
    b, st, ln = tz.norm_slice(r, N)
    c.prove('one position', And(B(I(ln) == 1), b == a))
    r2 = sl._LocBase._contig_slice([SymInt(a)])
    b, st, ln = tz.norm_slice(r2, N)
    c.prove('one position of a list', And(B(I(ln) == 1), b == a))


def start_stop(c, name, N, kind):
    """a positional selector of the kind with symbolic bounds (any sign) -> (selector, start, step, length)"""
    if kind == 'int':
        a = c.int(name)
        c.assume(And(a >= -I(N), a < I(N)))
        return SymInt(a), z3.If(a < 0, a + I(N), a), 1, z3.IntVal(1)
    if kind == 'from':
        a = c.int(name); c.assume(And(a >= 0, a < I(N)))
        return slice(SymInt(a), None), a, 1, I(N) - a
    if kind == 'fromneg':
        a = c.int(name); c.assume(And(a >= 1, a <= I(N)))
        return slice(SymInt(-a), None), I(N) - a, 1, a
    if kind == 'to':
        b = c.int(name); c.assume(And(b >= 1))
        return slice(None, SymInt(b)), z3.IntVal(0), 1, z3.If(b > I(N), I(N), b)
    if kind == 'toneg':
        b = c.int(name); c.assume(And(b >= 1, b < I(N)))
        return slice(None, SymInt(-b)), z3.IntVal(0), 1, I(N) - b
    if kind == 'both':
        a, b = c.int(name), c.int(name); c.assume(And(0 <= a, a < b, a < I(N)))
        return slice(SymInt(a), SymInt(b)), a, 1, z3.If(b > I(N), I(N), b) - a
    if kind == 'step2':
        a = c.int(name); c.assume(And(0 <= a, a < I(N)))
        return slice(SymInt(a), None, 2), a, 2, (I(N) - a + 1) / 2
    if kind == 'rev':
        return slice(None, None, -1), I(N) - 1, -1, I(N)
    if kind == 'all':
        return slice(None), z3.IntVal(0), 1, I(N)


KINDS = ['int', 'from', 'fromneg', 'to', 'toneg', 'both']


@contract('C05 C04', 'core.slice.Ilocation.__getitem__ core.slice._LocBase._normalize_index core.slice._LocBase.get_idx core.slice._LocBase._contig_slice',
          [dict(ax=ax, kind=k) for ax in range(4) for k in KINDS] + [dict(ax=ax, kind=k) for ax in (0, 1) for k in ('step2', 'rev')] + [dict(ax=2, kind='step2'), dict(ax=3, kind='step2')],
          assumes=['sparse._slicing.normalize_index: contract in vc/models.py'])
def iloc_one_axis(c, ax, kind):
    t = triangle(og='Q', dg='Q')
    sel, a, st, ln = start_stop(c, 's', t.shape[ax], kind)
    key = [slice(None)] * 4
    key[ax] = sel
    before, src, dims0 = t.values, t.values.snap(), [t.kdims, t.vdims, t.odims, t.ddims]
    r = t.iloc[tuple(key)]
    c.prove('number of selected labels', And(*[B(I(r.shape[q]) == (ln if q == ax else I(t.shape[q]))) for q in range(4)]))
    idx = sym_idx(*r.shape)
    pos = [a + st * i if q == ax else i for q, i in enumerate(idx)]
    x, y = r.values.at(idx), src(tuple(pos))
    c.prove('each cell keeps its amount', same(x, y))
    lab, lab0 = [r.kdims, r.vdims, r.odims, r.ddims], [t.kdims, t.vdims, t.odims, t.ddims]
    c.prove('labels are those selected, in order',
            And(*[lab[q].at((idx[q],) + ((z3.IntVal(0),) if q == 0 else ())) == lab0[q].at((pos[q],) + ((z3.IntVal(0),) if q == 0 else ())) for q in range(4)]))
    c.prove('valuation date never moves forward', r.valuation_date.at(()) <= t.valuation_date.at(()))
    tz.use_extrema(idx[2:], [(idx[2], idx[3])])
    v = r.valuation.at((FlatIdx(idx[2], idx[3], I(r.shape[2])),))
    c.prove('no known cell lies beyond the new valuation date', Implies(v <= t.valuation_date.at(()), v <= r.valuation_date.at(())))
    c.prove('input untouched', And(not before.buf.writes, t.values is before, all(p is q for p, q in zip(dims0, lab0))))
    c.prove('slicers belong to the result', r.iloc.obj is r and r.loc.obj is r)


@contract('C05', 'core.slice.Ilocation.__getitem__ core.slice._LocBase.get_idx', grid(k=['int', 'fromneg'], o=['from', 'int'], d=['toneg', 'both', 'int']),
          assumes=['sparse._slicing.normalize_index: contract in vc/models.py'], paths=2000)
def iloc_several_axes(c, k, o, d):
    t = triangle(og='Y', dg='Q')
    sels = [start_stop(c, 's%d' % q, t.shape[q], kind) for q, kind in enumerate((k, 'all', o, d))]
    src = t.values.snap()
    r = t.iloc[tuple(s[0] for s in sels)]
    c.prove('number of selected labels', And(*[B(I(r.shape[q]) == sels[q][3]) for q in range(4)]))
    idx = sym_idx(*r.shape)
    c.prove('each cell keeps its amount', same(r.values.at(idx), src(tuple(s[1] + i for s, i in zip(sels, idx)))))
    c.prove('origins', r.odims.at((idx[2],)) == t.odims.at((sels[2][1] + idx[2],)))
    c.prove('ages', r.ddims.at((idx[3],)) == t.ddims.at((sels[3][1] + idx[3],)))


def cut_date(c, name='cut'):
    v = c.int(name)
    d = SymTensor((), lambda i: MS(v + 1) - 1, 'M')
    return v, d


@contract('C05 C04', 'core.slice.TriangleSlicer.__getitem__ core.slice.TriangleSlicer._slice_valuation core.base.TriangleBase.valuation',
          grid(g=['YY', 'YQ', 'QQ'], op=['<', '<=', '>', '>=', '==', '!=']), assumes=['core.slice._LocBase.get_idx on filtered positions: contract verified for contiguous positions (iloc_one_axis, contig_slice_progression)'])
def valuation_filter(c, g, op):
    import chainladder.core.slice as sl
    from vc.core import cmp_terms
    t = triangle(og=g[0], dg=g[1])
    c.assume(I(t.shape[3]) > 1)
    c.nonempty = True      # precondition: at least one cell is selected (an empty selection is refused later, by get_idx)
    cut, cd = cut_date(c)
    before, src = t.values, t.values.snap()
    key = {'<': t.valuation < cd, '<=': t.valuation <= cd, '>': t.valuation > cd, '>=': t.valuation >= cd, '==': t.valuation == cd, '!=': t.valuation != cd}[op]
    cap = {}
    def get_idx(self, idx):
        cap['idx'] = idx
        return self.obj
    with stub(sl._LocBase, 'get_idx', get_idx):
        try: r = t[key]
        except ValueError: raise
    i, j = sym_idx(t.shape[2], t.shape[3])
    k, m = sym_idx(t.shape[0], t.shape[1])
    keep = cmp_terms(op, vmonth(t, i, j), cut)
    x, y = r.values.atf(k, m, i, j), src((k, m, i, j))
    c.prove('retained cell keeps its amount (zero as missing)', Implies(keep, N0(x) == N0(y)))
    c.prove('filtered cell becomes missing', Implies(Not(keep), x.nan))
    tz.use_extrema([i], [(i, j)])
    c.prove('valuation date never moves forward', r.valuation_date.at(()) <= t.valuation_date.at(()))
    ax, ay, ao, ad = cap['idx']
    c.prove('index and columns untouched', ax == slice(None) and ay == slice(None))
    c.reg.unfold_hints = [i, j]
    for nm, arr, q in (('origin', ao, i), ('age', ad, j)):
        fl, fax, base = arr.filter
        c.prove('no %s holding a retained cell is dropped' % nm, Implies(keep, B(fl.m((q,)))))
        c.prove('positions of the kept %ss are their own' % nm, base.at((q,)) == q)
    c.prove('input untouched', And(not before.buf.writes, t.values is before))
