"""C01 bounded stand-in: cumulative/incremental conversion of generated triangles."""
from common import *


def cases(r, tier):
    while True:
        p = rnd_case(r, cuts=1)
        p['sub'] = r.choice(['none', 'none', 'origin1', 'dev2', 'dev1', 'val', 'origins'])
        p['inplace'] = r.random() < .3
        p['pick'] = r.random()
        yield p


def sub(t, p):
    k = p['sub']
    if k == 'origin1': return t.iloc[:, :, int(p['pick'] * len(t.odims)), :]
    if k == 'origins': return t.iloc[:, :, int(p['pick'] * len(t.odims)):, :]
    if k == 'dev2': return t.iloc[..., :2]
    if k == 'dev1': return t.iloc[..., :1]
    if k == 'val': return t.dev_to_val()
    return t


def check(p):
    t = sub(make({**p, 'cum': False}), p)
    vm = valm(t)
    V = mo(t.valuation_date)
    inc = np.nan_to_num(dense(t)) * (vm <= V)
    need(diffarr(dense(t), inc, 'amount beyond the valuation date in the incremental triangle '))
    exp = np.cumsum(inc, -1) * (vm <= V)
    ic = (lambda z: z.copy().incr_to_cum(inplace=True)) if p['inplace'] else (lambda z: z.incr_to_cum())
    ci = (lambda z: z.copy().cum_to_incr(inplace=True)) if p['inplace'] else (lambda z: z.cum_to_incr())
    c = ic(t)
    need(diffarr(dense(c), exp, 'cumulative '))
    if labels(c) != labels(t): raise Fail('labels changed by incr_to_cum')
    if not c.is_cumulative: raise Fail('incr_to_cum result not flagged cumulative')
    b = ci(c)
    need(diffarr(dense(b), inc, 'incremental after round trip '))
    if labels(b) != labels(t): raise Fail('labels changed by cum_to_incr')
    if b.is_cumulative: raise Fail('cum_to_incr result flagged cumulative')
    if b.valuation_date != t.valuation_date: raise Fail('valuation date changed by the round trip')
    c2 = ic(b)
    need(diffarr(dense(c2), exp, 'cumulative after second round trip '))
    need(diffarr(dense(ic(c)), exp, 'incr_to_cum of a cumulative triangle '))
    need(diffarr(dense(ci(b)), inc, 'cum_to_incr of an incremental triangle '))
    if p['sub'] in ('none', 'val', 'origins') and p['nd'] is None and not p.get('agecut'):
        ld = np.nan_to_num(dense(c.latest_diagonal)).reshape(inc.shape[:3])
        need(diffarr(ld, inc.sum(-1), 'latest diagonal of the cumulative form '))
