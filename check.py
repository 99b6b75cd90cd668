"""Decides one property: check.py C01 [--tier quick|thorough]

 1. contracts: the verifier (vc/) regenerates every obligation of the property
    from /repo's current source and discharges it with z3 / cvc5;
 2. bounded stand-ins: the campaign bounded/cNN.py runs the real code on
    generated inputs, both as the labelled stand-in for functions outside the
    verifier's reach and as the search for a failing input when an obligation
    is not accepted.

Exit 0: held on everything explored.  Exit 1: VIOLATION line(s)."""
import argparse, hashlib, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
NW = 8


def env(**k):
    e = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    e.update(k)
    return e


def contracts(prop, tier):
    out = os.path.join(HERE, 'evidence', '.%s.contracts.json' % prop)
    if os.path.exists(out): os.remove(out)
    p = subprocess.run([PY, os.path.join(HERE, 'vc', 'run.py'), prop, out, '--tier', tier, '--deadline', '300' if tier == 'quick' else '900'],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
    try: r = json.load(open(out))
    except Exception: r = dict(units={}, meta={}, wall=0, error=p.stdout[-2000:])
    if os.path.exists(out): os.remove(out)
    return r


def campaign(prop, tier, seed, secs, maxn, known):
    mod = prop.lower()
    if not os.path.exists(os.path.join(HERE, 'bounded', mod + '.py')): return None
    ps = [subprocess.Popen([PY, os.path.join(HERE, 'bounded', 'worker.py'), mod, '%s-%s-%d' % (seed, prop, w), tier, str(secs), str(maxn)],
                           env=env(VERIF_KNOWN=json.dumps(known)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for w in range(NW)]
    tot = dict(n=0, distinct=set(), samples=[], fails=[], known={}, slow=0, dead=[])
    for p in ps:
        try: o, e = p.communicate(timeout=secs + 150)
        except subprocess.TimeoutExpired:
            p.kill(); o, e = p.communicate()
        try: r = json.loads(o.strip().splitlines()[-1])
        except Exception:
            tot['dead'].append((e or o)[-1500:])
            continue
        tot['n'] += r['n']; tot['distinct'] |= set(r['distinct']); tot['samples'] += r['samples']; tot['fails'] += r['fails']; tot['slow'] += r['slow']
        for k, v in r['known'].items(): tot['known'][k] = tot['known'].get(k, 0) + v
    return tot


def replay_file(prop, tag, d):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    h = hashlib.md5(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:8]
    f = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (prop, tag, h))
    json.dump(d, open(f, 'w'), indent=1, default=str)
    return os.path.relpath(f, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--record', action='store_true', help='record the proved obligations as the baseline')
    ap.add_argument('--no-bounded', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    quick = a.tier != 'thorough'
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
    known = [k for k in kf['findings'] if k['property'] == a.prop]
    bl_file = os.path.join(HERE, 'baseline', a.prop + '.json')
    base = set(json.load(open(bl_file))) if os.path.exists(bl_file) else set()

    cr = contracts(a.prop, a.tier)
    obl, undecided, refuted, exceptions = {}, [], [], []
    fns, assumes, models, stubs, paths = set(), set(), set(), set(), 0
    solver = dict(z3=0, cvc5=0); secs = 0.0
    if cr.get('error'): undecided.append('contract verifier did not run: ' + cr['error'])
    for u, r in cr['units'].items():
        m = cr['meta'][u]
        ok_unit = not r['errors'] and not r['exceptions'] and not r['vacuous']
        for n, d in r['obligations'].items():
            key = u + ': ' + n
            st = d['status']
            if st == 'proved' and r['vacuous']: st = 'unknown'
            # a proof on every explored path counts only if every path was explored
            if st == 'proved' and (r['errors'] or r['exceptions']): st = 'unknown'
            obl[key] = st
            if st == 'refuted': refuted.append((key, d))
            elif st != 'proved': undecided.append('%s: %s' % (key, d.get('reason') or 'not every path was explored'))
        for e in r['errors']: undecided.append('%s: %s' % (u, e))
        for e in r['exceptions']: exceptions.append('%s: %s' % (u, e))
        if r['vacuous'] and r['obligations']: undecided.append('%s: no satisfiable path (vacuous)' % u)
        paths += r['paths']
        if r['obligations']:
            fns |= set(m['fns']); assumes |= set(m['assumes']); models |= set(r['models']); stubs |= set(r['stubs'])
        for k in ('z3', 'cvc5'): solver[k] += r['stats'].get(k, 0)
        secs += r['stats'].get('secs', 0)
    missing = sorted(base - set(obl)) if quick else []
    for x in missing: undecided.append('%s: obligation recorded on the pinned tree was not generated' % x)
    proved = sorted(k for k, s in obl.items() if s == 'proved')
    if a.record:
        os.makedirs(os.path.dirname(bl_file), exist_ok=True)
        json.dump(proved, open(bl_file, 'w'), indent=0)
    t1 = time.time()

    camp = None
    trouble = bool(refuted or exceptions or undecided)
    if not a.no_bounded:
        # quick: a fixed number of cases with a time cap; more when an obligation was not accepted
        sec, n = (45, 400) if quick else (420, 10**6)
        if trouble and quick: sec, n = 120, 4000
        camp = campaign(a.prop, a.tier, a.seed, sec, n, known)
        if trouble and quick and camp and not camp['fails'] and refuted:
            c2 = campaign(a.prop, 'quick', 'search-%d' % a.seed, 90, 10**6, known)
            for k in ('n', 'slow'): camp[k] += c2[k]
            camp['distinct'] |= c2['distinct']; camp['fails'] += c2['fails']; camp['dead'] += c2['dead']

    lines = []
    names = [k for k, _ in refuted] + [e.split(': ', 1)[0] + ': no exception' for e in exceptions]
    if camp and camp['dead'] and len(camp['dead']) == NW:
        # the package cannot even be imported or the campaign cannot run
        f = replay_file(a.prop, 'harness', dict(property=a.prop, kind='crash', output=camp['dead'][0]))
        print('bounded campaign could not run: %s' % camp['dead'][0][-600:])
        if re.search(r'chainladder/[a-z_/]+\.py', camp['dead'][0]):
            lines.append('VIOLATION property=%s replay=%s' % (a.prop, f))
    if camp and camp['fails']:
        for x in camp['fails'][:3]:
            f = replay_file(a.prop, 'case', dict(property=a.prop, kind='case', module=a.prop.lower(), case=x['case'], message=x['message'], failed_obligations=names,
                                                 how='%s bounded/replay.py <this file>' % PY))
            print('  failing input: %s\n    %s' % (json.dumps(x['case'], default=str)[:600], x['message'][-400:].replace('\n', '\n    ')))
            lines.append('VIOLATION property=%s replay=%s' % (a.prop, f))
    elif refuted:
        for k, d in refuted[:5]:
            f = replay_file(a.prop, 'obligation', dict(property=a.prop, kind='obligation', obligation=k, goal=d.get('goal'), verifier_output=dict(status='refuted', reason=d.get('reason'), countermodel=d.get('model'), solver=d.get('solver')),
                                                       how='%s vc/run.py %s /tmp/out.json -v' % (PY, a.prop)))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, f))
    for k, d in refuted: print('  obligation not accepted: %s' % k)
    for e in exceptions[:5]: print('  exception on a symbolic path: %s' % e[:300])
    for u in undecided[:12]: print('  undecided: %s' % u[:300])
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))

    claimed = level(a.prop)
    ev = dict(property=a.prop, tier='quick' if quick else 'thorough', seed=a.seed, level=claimed, wall_s=round(time.time() - t0, 2), violations=len(lines))
    cov = dict(obligations=len(obl), discharged=len(proved), checker_cmd='%s vc/run.py %s OUT.json --tier %s' % (PY, a.prop, a.tier),
               trusted_base=['vc/core.py, vc/tensor.py, vc/load.py, vc/tri.py (path exploration, mechanical instrumentation R1-R5, symbolic arrays)',
                             'z3 %s, cvc5 1.1.2 (fallback)' % zver()] + ['assumed contract: ' + m for m in sorted(models)] + ['callee stub: ' + s for s in sorted(stubs)],
               functions_under_contract=sorted(fns), units=len(cr['units']), paths=paths, queries_by_back_end=solver, solver_s=round(secs, 2), contract_wall_s=round(t1 - t0, 2),
               refuted=[k for k, _ in refuted], undecided=undecided[:60], exceptions=exceptions[:20])
    if not quick:
        p = subprocess.run([PY, os.path.join(HERE, 'vc', 'conform.py'), str(a.seed)], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
        cov['model_conformance'] = (p.stdout.strip().splitlines() or ['no output'])[-1] + ('' if p.returncode == 0 else ' -- A MODEL CONTRADICTS THE LIBRARY')
        print('models against numpy / pandas: ' + cov['model_conformance'])
    if camp:
        cov['bounded_stand_in'] = dict(label='bounded, not counted as proved', evaluations=camp['n'], distinct=len(camp['distinct']), slow=camp['slow'], workers_dead=len(camp['dead']),
                                       rule=(doc(a.prop) or ''), failing=len(camp['fails']), known=camp['known'])
        cov['evaluations'] = camp['n']
        cov['distinct_nontrivial'] = len(camp['distinct'])
        cov['rule'] = 'bounded stand-in: random cases of bounded/%s.py from VERIF_SEED; distinct by canonical JSON of the case' % a.prop.lower()
        cov['samples'] = camp['samples'][:3]
    ev['coverage'] = cov
    ev['assumptions'] = sorted(assumes) + ['machine floating point is treated as exact real arithmetic with NaN and signed infinity', 'numpy/pandas functions satisfy their contracts in vc/tensor.py and vc/models.py (conformance-tested by vc/conform.py)']
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged (%d undecided), %s bounded cases, %.1f s' % (a.prop, len(proved), len(obl), len(undecided), camp['n'] if camp else 0, time.time() - t0))
    for l in lines: print(l)
    sys.exit(1 if lines else 0)


def level(prop):
    for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
        if c['property'] == prop: return c['level']
    return 'other'


def doc(prop):
    try: return open(os.path.join(HERE, 'bounded', prop.lower() + '.py')).read().split('"""')[1].strip()
    except Exception: return ''


def zver():
    try:
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
        import z3
        return z3.get_version_string()
    except Exception: return '?'


if __name__ == '__main__': main()
