"""Registration of contracts.  A contract is a function run(c, **variant) that
builds symbolic arguments meeting the precondition, calls the real (mechanically
instrumented) function of /repo and states the postconditions with c.prove."""
import itertools
from .core import *
from .core import z3, Ctx
from . import tensor as tz
from .tensor import SymTensor, X, fin, MS, MO, ZERO, ONE, iterm, sym_tensor, sym_dim, sym_idx, FlatIdx
from .tri import triangle, vmonth, stub, same, at, N0, cells, MONTHS
from .load import load

CONTRACTS = []


class Contract:
    def __init__(self, props, fns, run, variants, budget, assumes, thorough, paths):
        self.props, self.fns, self.run, self.variants, self.budget, self.assumes, self.thorough, self.paths = \
            props, fns, run, variants, budget, assumes, thorough, paths
        self.name = run.__name__


def grid(**k):
    """cartesian product of variant values"""
    return [dict(zip(k, v)) for v in itertools.product(*k.values())]


def contract(props, fns, variants=None, budget=100.0, assumes=(), thorough=None, paths=400):
    """props: property ids the contract serves; fns: functions whose current source is executed
    symbolically; assumes: callee contracts assumed without proof here; thorough: extra variants"""
    props = props.split() if isinstance(props, str) else props
    fns = fns.split() if isinstance(fns, str) else fns
    def d(run):
        CONTRACTS.append(Contract(props, fns, run, variants or [{}], budget, list(assumes), thorough or [], paths))
        return run
    return d


def unit_name(ct, v):
    return ct.name + ('[%s]' % ','.join('%s=%s' % x for x in v.items()) if v else '')


def induct(c, name, P, n, lo=0, use=None):
    """P(lo) and P(k) -> P(k+1) for every k >= lo, hence P(n) for n >= lo (P: z3 Int -> formula;
    use: k -> a fact proved before for an arbitrary index, instantiated at k)"""
    k = z3.Int(c.name('ind'))
    if not c.prove(name + ': base', P(z3.IntVal(lo))): return False
    old = c.reg.unfold_hints
    c.reg.unfold_hints = list(old) + [k]
    try: ok = c.prove(name + ': step', Implies(And(k >= lo, k < I(n), P(k), use(k) if use else True), P(z3.simplify(k + 1))))
    finally: c.reg.unfold_hints = old
    if ok: c.assume(Implies(I(n) >= lo, P(I(n))))
    return ok


def generic(c, f):
    """f proves statements about fresh (arbitrary) functions and numbers only, from no other hypothesis; they may be
    instantiated afterwards at any function or number by the caller"""
    pc, c.pc = c.pc, []
    c.solver.push()
    cache, c.entail_cache = c.entail_cache, {}
    try: return f()
    finally:
        c.pc, c.entail_cache = pc, cache
        c.solver.pop()
