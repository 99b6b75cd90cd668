"""Symbolic Triangles: real Triangle instances whose attributes are symbolic."""
import numpy as np, z3
import pandas as pd
from contextlib import contextmanager
from . import tensor as tz
from .core import And, Or, Not, If, Implies, I, SymInt, ctx, mkint, cmp_terms, OutOfSubset, B
from .tensor import SymTensor, MS, MO, X, fin, sym_tensor, sym_dim, sym_idx, xeq_same
from .models import SymDTI, as_dti

MONTHS = {'Y': 12, 'S': 6, 'Q': 3, 'M': 1}


class Lbl(SymTensor):
    """label array (object dtype) of symbolic length"""


def cells(name, shape, nan=True, inv=None):
    return sym_tensor(name, shape, 'f', nan=nan, inv=inv)


def triangle(name='X', dims=None, og='Y', dg='Y', nan=True, inv=None, val=None, cumulative=True, pattern=False,
             o0=None, d0=None, ult=False, val_tri=False, dlast=None, live=True):
    """precondition of a well-formed triangle:
       odims[i] = first instant of month o0 + og*i, ddims[j] = d0 + dg*j (months)"""
    import chainladder as cl
    from chainladder.core.slice import VirtualColumns, Ilocation, Location, Iat, At
    c = ctx()
    t = object.__new__(cl.Triangle)
    if dims is None:
        dims = [sym_dim(name + a) for a in 'KCOD']
    dims = [sym_dim(name + a) if d is None else d for a, d in zip('KCOD', dims)]
    K, C, O, D = dims
    o0 = z3.Int('o0') if o0 is None else I(o0)
    d0 = z3.Int('d0') if d0 is None else I(d0)
    og_, dg_ = MONTHS[og], MONTHS[dg]
    c.assume(And(o0 >= -2400, o0 <= 6000))
    c.assume(And(d0 >= 1, d0 <= 12))
    c.assume(I(O) <= 5000)
    c.assume(And(I(D) >= 1, d0 + dg_ * I(D) < 9999))
    t.values = sym_tensor(name + '.values', (K, C, O, D), 'f', nan=nan, inv=inv)
    t.odims = SymTensor((O,), lambda i: MS(z3.simplify(o0 + og_ * tz.iterm(i[0]))), 'M', label=name + '.odims')
    if val_tri:
        v0 = z3.Int('v0') if not isinstance(val_tri, z3.ExprRef) else val_tri
        t.ddims = SymDTI((D,), lambda i: MS(z3.simplify(v0 + dg_ * tz.iterm(i[0]) + 1)) - 1, 'M', label=name + '.ddims')
    elif ult:
        c.assume(I(D) >= 2)
        t.ddims = SymTensor((D,), lambda i: z3.If(tz.iterm(i[0]) == I(D) - 1, z3.IntVal(9999), z3.simplify(d0 + dg_ * tz.iterm(i[0]))), 'i', label=name + '.ddims')
    else:
        t.ddims = SymTensor((D,), lambda i: z3.simplify(d0 + dg_ * tz.iterm(i[0])), 'i', label=name + '.ddims')
    t.odims.prog = (MS, o0, og_, O)
    if not (ult or val_tri): t.ddims.prog = (None, d0, dg_, D)
    t.kdims = SymTensor((K, 1), lambda i: z3.Function(name + '.key', z3.IntSort(), z3.IntSort())(i[0]), 'o', label=name + '.kdims')
    t.vdims = SymTensor((C,), lambda i: z3.Function(name + '.col', z3.IntSort(), z3.IntSort())(i[0]), 'o', label=name + '.vdims')
    t.key_labels = ['Total']
    t.origin_grain, t.development_grain, t.origin_close = og, dg, 'DEC'
    if val is None:
        v = z3.Int(name + '.vm')
        c.assume(And(v >= -2400, v <= 9999 * 6))
        val = SymTensor((), lambda i: MS(v + 1) - 1, 'M')
        val.month_term = v
        # every origin has started by the valuation date
        if live: c.assume(o0 + og_ * (I(O) - 1) <= v)
    t.valuation_date = val
    t.is_cumulative, t.is_pattern = cumulative, pattern
    t.array_backend = 'numpy'
    t.columns_label, t.origin_label, t.index_label = None, None, None
    t.virtual_columns = VirtualColumns(t)
    t._set_slicers()
    t._vc = dict(o0=o0, d0=d0, og=og_, dg=dg_, dims=dims, name=name)
    c.named[name] = t
    return t


def vmonth(t, i, j):
    """month (ordinal) in which the cell of origin i and age j is valued:
       the age counts months from the origin start"""
    g = t._vc
    return g['o0'] + g['og'] * i + g['d0'] + g['dg'] * j - 1


@contextmanager
def stub(obj, name, val):
    """replace a callee by its contract for the duration of the run"""
    had = name in obj.__dict__ if isinstance(obj, type) else True
    old = obj.__dict__.get(name) if isinstance(obj, type) else getattr(obj, name)
    ctx().stubs_used.add('%s.%s' % (getattr(obj, '__name__', obj), name))
    setattr(obj, name, val)
    try:
        yield
    finally:
        if had: setattr(obj, name, old)
        else: delattr(obj, name)


def same(a, b):
    return xeq_same(a, b)


def at(t, *idx):
    return tz.T(t).atf(*idx)


def N0(x):
    """missing counts as zero"""
    return If(x.nan, tz.ZERO, x.v)
