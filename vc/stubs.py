"""Contracts of callees that callers are checked against (instead of the callee's body)."""
import copy
from .core import *
from . import tensor as tz
from .tensor import SymTensor
from .tri import stub
from .models import as_dti


def tmax(a, b):
    return tz.maximum(tz.T(a), tz.T(b))


def concat(objs, axis, ignore_index=False, sort=False):
    """contract of utils.utility_functions.concat for aligned operands, axis 2/3 (and 0/1 by position):
    amounts and labels are the operands' in order, the valuation date is the latest of the operands'"""
    objs = list(objs)
    ax = objs[0]._get_axis(axis)
    if ax not in (0, 1, 2, 3): raise OutOfSubset('concat axis')
    mapper = {0: "kdims", 1: "vdims", 2: "odims", 3: "ddims"}
    if sort or ignore_index: raise OutOfSubset('concat options')
    # precondition: the other axes have the same labels (origin/development compared by content)
    for k in (2, 3):
        if k == ax: continue
        a = getattr(objs[0], mapper[k])
        for o in objs[1:]:
            b = getattr(o, mapper[k])
            if not tz.same_dim(a.shape[0], b.shape[0]): raise AssertionError('concat of triangles with different %s' % mapper[k])
            if not ctx().decide(tz.all_(tz.T(a) == tz.T(b)).as_bool_term()): raise AssertionError('concat of triangles with different %s' % mapper[k])
    out = copy.deepcopy(objs[0])
    out.values = tz.concatenate([o.values for o in objs], ax)
    d = tz.concatenate([tz.T(getattr(o, mapper[ax])) for o in objs], 0)
    setattr(out, mapper[ax], as_dti(d) if ax == 3 and d.dt == 'M' else d)
    v = objs[0].valuation_date
    for o in objs[1:]: v = tmax(v, o.valuation_date)
    out.valuation_date = v
    out._set_slicers()
    return out


def patch_concat(cl, *mods):
    """stub concat in the listed modules (as imported names)"""
    import importlib
    from contextlib import ExitStack
    st = ExitStack()
    for m in mods:
        st.enter_context(stub(importlib.import_module('chainladder.' + m), 'concat', concat))
    return st


def contig_filtered(c, real, steps=None, hint=None, some=()):
    """contract of _LocBase._contig_slice on filtered positions (verified for arithmetic progressions by
    contracts.c05 contig_slice_progression): requires the selected positions to be an arithmetic
    progression of the given step, returns the slice first:last+1:step"""
    seq, some = list(steps or []), list(some)
    def f(arr):
        if isinstance(arr, SymTensor) and getattr(arr, 'filter', None) is not None:
            fl, ax, base = arr.filter
            s = seq.pop(0) if seq else 1
            n = fl.count
            for h in [some.pop(0)] if some else []: c.assume(Implies(And(h >= 0, h < I(fl.n), B(fl.m((h,)))), n >= 1)); c.lemma('precondition of _contig_slice: selection not empty', n >= 1)
            if not c.decide(n >= 1): raise ValueError('Slice returns empty Triangle')
            lo, hi = fl.sel(z3.IntVal(0)), fl.sel(z3.simplify(n - 1))
            for q in (lo, hi):      # end points are selected positions
                c.assume(And(q >= 0, q < I(fl.n), B(fl.m((q,)))))
            c.assume(lo <= hi)
            x = z3.Int(c.name('cx'))
            # no selected position outside [lo, hi]: instance of the order axiom, for use by callers
            c.__dict__.setdefault('spans', []).append((fl, lo, hi))
            if hint: c.reg.unfold_hints = list(c.reg.unfold_hints) + hint(len(c.spans), x, lo, hi)
            c.lemma('precondition of _contig_slice: selected positions are evenly spaced', Implies(And(lo <= x, x <= hi), Eqb(B(fl.m((x,))), (x - lo) % s == 0) if s != 1 else B(fl.m((x,)))))
            return slice(mkint(lo), mkint(hi) + 1, s) if s != 1 else slice(mkint(lo), mkint(hi) + 1)
        return real(arr)
    return staticmethod(f)


def use_spans(c, js):
    for fl, lo, hi in c.__dict__.get('spans', []):
        for j in js:
            c.assume(Implies(And(j >= 0, j < I(fl.n), B(fl.m((j,)))), And(lo <= j, j <= hi)))


def storage():
    """contract of _auto_sparse: the storage may change, never the amounts or labels (proved in
    contracts/c06 auto_sparse up to set_backend; bounded check in C17 for set_backend)"""
    from chainladder.core.base import TriangleBase
    return stub(TriangleBase, '_auto_sparse', lambda self: self)


def latest_stub(base):
    """contract of Triangle.latest_diagonal (verified: contracts/c01 latest_diagonal) for triangles on the
    origin and age labels of `base`: one column labelled with the valuation date, holding for each origin the
    amount valued at that date (missing as zero; whether a zero is stored as missing is left open)"""
    import chainladder as cl
    v = base._vc
    def latest(t):
        c = ctx()
        k = z3.Int(c.name('ld'))
        if not tz.same_dim(t.shape[2], base.shape[2]) or not tz.same_dim(t.shape[3], base.shape[3]): raise AssertionError('latest_diagonal of a triangle on other labels')
        c.lemma('precondition of latest_diagonal: origins of the data', Implies(And(k >= 0, k < I(t.shape[2])), t.odims.at((k,)) == base.odims.at((k,))))
        c.lemma('precondition of latest_diagonal: ages of the data', Implies(And(k >= 0, k < I(t.shape[3])), t.ddims.at((k,)) == base.ddims.at((k,))))
        c.lemma('precondition of latest_diagonal: valued at the date of the data', t.valuation_date.at(()) == base.valuation_date.at(()))
        c.prove('precondition of latest_diagonal: cumulative', t.is_cumulative is True)
        r = copy.deepcopy(t)
        src = t.values.snap()
        nf = tz.uf(c.name('ldnan'), *([tz.IS] * 3), tz.BS)
        vm = base.valuation_date.month_term
        def el(ix):
            i = ix[2]
            j = z3.simplify((vm - (v['o0'] + v['og'] * i + v['d0'] - 1)) / v['dg'])
            s = src((ix[0], ix[1], i, j))
            val = If(s.nan, tz.ZERO, s.v)
            return tz.X(And(nf(ix[0], ix[1], i), val == 0), s.inf, val)
        r.values = SymTensor((t.shape[0], t.shape[1], t.shape[2], 1), el, 'f')
        r.ddims = as_dti(tz.expand_dims(tz.T(t.valuation_date), 0))
        r._set_slicers()
        return r
    return stub(cl.Triangle, 'latest_diagonal', property(latest))


def on_lattice(c, t):
    """precondition of latest_diagonal: the valuation date is a lattice point, every origin has an age at it on the axis"""
    v, vm = t._vc, t.valuation_date.month_term
    jd = lambda i: (vm - (v['o0'] + v['og'] * i + v['d0'] - 1)) / v['dg']
    c.assume((vm - (v['o0'] + v['d0'] - 1)) % v['dg'] == 0)
    c.assume(And(jd(I(0)) >= 0, jd(I(0)) < I(t.shape[3])))
    c.assume(And(jd(I(t.shape[2]) - 1) >= 0, jd(I(t.shape[2]) - 1) < I(t.shape[3])))
    return lambda i: z3.simplify(jd(i))
