"""C13 bounded stand-in: Mack recursion."""
from methlib import *


def cases(r, tier):
    while True: yield mcase(r, n=r.choice([-1, -1, 3, 4]), pred=r.random() < .2, tail=r.choice([None, None, 1.05, 1.2]), hl=r.random() < .2, cumx=True, zeros=0, holes=0, avl=[r.choice(['volume', 'simple', 'regression']) for _ in range(140)] if r.random() < .3 else None)


def check(p):
    z = prep(p)
    if not z: return
    t, q = z
    if min(t.shape[2:]) < 4: return
    if p['hl'] and p['dev']: q['drop_high'] = 1
    if p['avl'] and p['dev'] and not p['pred']: q['average'] = p['avl'][:t.shape[3] - 1]      # averaging chosen per age
    try: m = fitm(p, q, cl.MackChainladder(), t)
    except ValueError as e:
        if 'mixed sparse-dense' in str(e): return   # refused by the sparse backend
        raise
    X = m.X_
    S, SE, L, CD, F = dense(X.sigma_), dense(X.std_err_), dense(X.ldf_), dense(X.cdf_), dense(m.full_triangle_)
    J, I = t.shape[3], t.shape[2]
    if np.isnan(SE[..., :J]).any() or np.isnan(S[..., :J]).any(): return
    src = m
    if p['pred']: src = m.predict(t)
    PR, QR, MS = [dense(getattr(src, n)) for n in ('parameter_risk_', 'process_risk_', 'mack_std_err_')]
    TP, TQ = dense(src.total_process_risk_), dense(src.total_parameter_risk_)
    TM = np.array(src.total_mack_std_err_)
    vm, V = valm(t), mo(t.valuation_date)
    avs = [EXP[p['average']] if p['dev'] else 1] * J
    if isinstance(q.get('average'), list): avs = [EXP[x] for x in q['average']]; avs += avs[-1:]
    for k in range(t.shape[0]):
        for c in range(t.shape[1]):
            tq = 0.0
            for j in range(J):
                tail = j == J - 1
                fj = L[k, c, 0, j] if not tail else CD[k, c, 0, J - 1]
                fut = lambda i: tail or vm[i, j + 1] > V
                for i in range(I):
                    w = '%s row %d column %d origin %d age %d' % ('%s', k, c, i, j + 1)
                    x = F[k, c, i, j]
                    x = 0.0 if x != x else x
                    for A, nm in ((PR, 'parameter risk'), (QR, 'process risk')):
                        if not fut(i): want = 0.0
                        else:
                            se = SE[k, c, 0, j] if nm[1] == 'a' else (S[k, c, 0, j] / x ** ((2 - avs[j]) / 2) if x > 0 else 0.0)
                            se = 0.0 if se != se else se
                            want = (fj * np.nan_to_num(A[k, c, i, j])) ** 2 + (x * se) ** 2
                        eq(np.nan_to_num(A[k, c, i, j + 1]) ** 2, want, w % nm, 1e-7)
                s = sum(np.nan_to_num(F[k, c, i, j]) for i in range(I) if fut(i) and vm[i, j] >= V)
                tq = (fj * tq) ** 2 + (s * np.nan_to_num(SE[k, c, 0, j])) ** 2
                tq = tq ** .5
                eq(TQ[k, c, 0, j + 1], tq, 'total parameter risk age %d' % (j + 1), 1e-6)
            for j in range(J + 1):
                eq(np.nan_to_num(TP[k, c, 0, j]) ** 2, sum(np.nan_to_num(QR[k, c, i, j]) ** 2 for i in range(I)), 'total process risk', 1e-7)
                for i in range(I): eq(np.nan_to_num(MS[k, c, i, j]) ** 2, np.nan_to_num(PR[k, c, i, j]) ** 2 + np.nan_to_num(QR[k, c, i, j]) ** 2, 'Mack standard error', 1e-7)
            eq(np.nan_to_num(TM[k, c]) ** 2, np.nan_to_num(TP[k, c, 0, -1]) ** 2 + np.nan_to_num(TQ[k, c, 0, -1]) ** 2, 'total Mack standard error', 1e-7)
