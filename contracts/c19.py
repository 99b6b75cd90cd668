"""Voting ensembles (for one, two and three members, one of them possibly dropped)."""
from contextlib import ExitStack
from vc.api import *
from vc import stubs
from .c09 import fitted, ult_of

WEIGHTS = ['none', 'default', 'origin', 'column', 'index']


@contract('C19', 'workflow.voting.VotingChainladder.fit workflow.voting.VotingChainladder._get_ultimate workflow.voting.VotingChainladder.predict workflow.voting._BaseChainladderVoting.fit workflow.voting._BaseChainladderVoting._coerce_assum_vector_to_array workflow.voting._BaseChainladderVoting._broadcast_weights',
          grid(w=WEIGHTS, n=[1, 2, 3], drop=[False]) + grid(w=WEIGHTS, n=[2, 3], drop=[True]),
          assumes=['sklearn: _fit_single_estimator fits the given estimator, clone copies it, joblib runs the calls in order', 'each member predicts an ultimate for every index, column and origin (contracts c09, c10)'])
def voting(c, w, n, drop):
    """ultimate = sum of weight * member ultimate / sum of weights over the members that are not dropped"""
    import chainladder as cl
    import chainladder.workflow.voting as wv
    X, l, jd = fitted(c, 'Y', 'Y')
    K, C, O, D = X.shape
    us = [ult_of(c, X, 'U%d' % e) for e in range(n)]
    sn = [u.values.snap() for u in us]
    shape = {'origin': (O, n), 'column': (C, O, n), 'index': (K, C, O, n)}.get(w)
    kw = {}
    if shape is not None: W = kw['weights'] = tz.sym_tensor('weights', shape, 'f', nan=False, inv=lambda i, x: [x.v >= 0])
    if w == 'default':
        dw = [tz.sym_tensor('dw%d' % e, (), 'f', nan=False, inv=lambda i, x: [x.v >= 0]) for e in range(n)]
        kw['default_weighting'] = tuple(dw)
    ests = [cl.Chainladder() for e in range(n)]
    for e, o in enumerate(ests): o.member = e
    members = [('m%d' % e, o) for e, o in enumerate(ests)]
    kept = list(range(n))
    if drop:
        members[0] = ('m0', 'drop')
        kept = kept[1:]
    v = wv.VotingChainladder(estimators=members, **kw)
    used = []
    def predict(self, X_, sample_weight=None):
        used.append((self.member, X_))
        r = X_.copy()
        r.ultimate_ = us[self.member]
        return r
    wf = W.snap() if shape is not None else None
    with ExitStack() as st:
        for o, nm, f in ((wv, 'Parallel', lambda n_jobs=None: (lambda gen: [g() for g in gen])), (wv, 'delayed', lambda fn: (lambda *a, **k: (lambda: fn(*a, **k)))),
                         (wv, '_fit_single_estimator', lambda est, *a, **k: est), (wv, 'clone', lambda est: est), (cl.Chainladder, 'predict', predict)): st.enter_context(stub(o, nm, f))
        r_ = v.fit(X)
        p = v.predict(X)
    k, m, i = sym_idx(K, C, O)
    def wt(e):
        if w == 'none': return ONE
        if w == 'default': return dw[e].atf().v
        ix = {'origin': (i, I(e)), 'column': (m, i, I(e)), 'index': (k, m, i, I(e))}[w]
        return wf(ix).v
    mem = [N0(sn[e]((k, m, i, I(0)))) for e in kept]
    tot = sum([wt(e) for e in kept], z3.RealVal(0))
    num = sum([wt(e) * x for e, x in zip(kept, mem)], z3.RealVal(0))
    c.prove('fit returns the estimator', r_ is v)
    for nm, t in (('fit', v.ultimate_), ('predict', p.ultimate_)):
        c.prove(nm + ': one ultimate per origin', And(*[B(I(x) == I(y)) for x, y in zip(t.shape, (K, C, O, 1))]))
        e = t.values.atf(k, m, i, I(0))
        c.prove(nm + ': weighted average of the member ultimates', Implies(tot > 0, And(Not(e.inf), N0(e) * tot == num)))
        for b in kept if len(kept) > 1 else []:
            c.prove(nm + ': member %d with weight zero has no say' % b, Implies(And(tot > 0, wt(b) == 0), N0(e) * tot == sum([wt(q) * x for q, x in zip(kept, mem) if q != b], z3.RealVal(0))))
        x, bd = c.define('x', N0(e)), z3.Real('bound')
        ws = [c.define('w', wt(q)) for q in kept]
        ms = [c.define('m', q) for q in mem]
        c.lemma(nm + ': average', Implies(tot > 0, And(x * sum(ws, z3.RealVal(0)) == sum([p_ * q for p_, q in zip(ws, ms)], z3.RealVal(0)), sum(ws, z3.RealVal(0)) > 0, *[q >= 0 for q in ws])))
        T_ = sum(ws, z3.RealVal(0))
        for sg, txt in ((1, 'not below the smallest member'), (-1, 'not above the largest member')):
            low = And(*[sg * q >= sg * bd for q in ms])
            # each term of the weighted sum is at least weight * bound
            for p_, q in zip(ws, ms): c.lemma(nm + ': term', Implies(And(p_ >= 0, sg * q >= sg * bd), sg * p_ * (q - bd) >= 0), alone=True)
            c.lemma(nm + ': sum of terms', Implies(And(x * T_ == sum([p_ * q for p_, q in zip(ws, ms)], z3.RealVal(0)), *[sg * p_ * (q - bd) >= 0 for p_, q in zip(ws, ms)]), sg * (x - bd) * T_ >= 0), alone=True)
            c.lemma(nm + ': sign', Implies(And(sg * (x - bd) * T_ >= 0, T_ > 0), sg * x >= sg * bd), alone=True)
            c.prove(nm + ': ' + txt, Implies(And(tot > 0, low), sg * x >= sg * bd))
    c.prove('members are used once for fit and once for predict, in order', [q for q, _ in used] == kept * 2)
    c.prove('inputs untouched', And(not X.values.buf.writes, *[not u.values.buf.writes for u in us], True if shape is None else not W.buf.writes))
