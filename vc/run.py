"""Runs the contracts of one property: run.py C01 OUT.json [--tier quick|thorough] [--only substr] [-v]

The package is loaded (instrumented from the current source of /repo) once, then
each contract variant is explored in a forked process with a time limit."""
import sys, os, json, time, traceback, argparse, importlib, pkgutil, signal, resource
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def load_contracts():
    from vc import api
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module('contracts.' + m)
    return api.CONTRACTS


def model_text(r):
    if r.model is None: return ''
    try:
        out = []
        for d in r.model.decls():
            out.append('%s = %s' % (d.name(), str(r.model[d]).replace('\n', ' ')[:200]))
        return sorted(out)[:120]
    except Exception as e:
        return [str(e)]


def run_unit(ct, v, budget):
    from vc import core
    from vc import tensor as tz
    t0 = time.time()
    def go(c):
        tz.setup_registry(c)
        ct.run(c, **v)
    o = core.explore(go, ct.paths, budget)
    obs = {}
    for name, rs in o.obligations.items():
        st = [s for s, *_ in rs]
        worst = 'refuted' if 'refuted' in st else ('unknown' if 'unknown' in st else 'proved')
        d = dict(status=worst, paths=len(rs), solver=sorted({r.solver for _, r, *_ in rs}))
        if worst != 'proved':
            r = [r for s, r, *_ in rs if s == worst][0]
            d['goal'] = str(r.goal)[:4000]
            d['reason'] = r.reason
            d['model'] = model_text(r)
        obs[name] = d
    return dict(unit=None, obligations=obs, paths=o.paths, errors=sorted(set(o.errors))[:10], exceptions=sorted(set(o.exceptions))[:10],
                vacuous=o.vacuous, canary=o.canary, models=sorted(o.models), stubs=sorted(o.stubs), secs=time.time() - t0,
                stats=dict(core.STATS))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('out'); ap.add_argument('--tier', default='quick')
    ap.add_argument('--only', default=''); ap.add_argument('-v', action='store_true'); ap.add_argument('-vv', action='store_true'); ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--deadline', type=float, default=420.0)
    a = ap.parse_args(); a.v = a.v or a.vv
    from vc import load, api
    t0 = time.time()
    load.load()
    cts = load_contracts()
    units = []
    for ct in cts:
        if a.prop != 'ALL' and a.prop not in ct.props: continue
        for v in ct.variants + (ct.thorough if a.tier == 'thorough' else []):
            n = api.unit_name(ct, v)
            if a.only and a.only not in n: continue
            units.append((n, ct, v))
    res, running, queue = {}, {}, list(units)
    tmp = a.out + '.d'
    os.makedirs(tmp, exist_ok=True)
    while queue or running:
        while queue and len(running) < a.j:
            n, ct, v = queue.pop(0)
            f = os.path.join(tmp, '%d.json' % (len(units) - len(queue)))
            left = a.deadline - (time.time() - t0)
            if left < 5:
                res[n] = dict(obligations={}, errors=['not started: time limit of the check'], exceptions=[], vacuous=True, paths=0, secs=0, stats={}, models=[], stubs=[], canary=None)
                continue
            b = min(ct.budget * (3 if a.tier == 'thorough' else 1), left)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    limit()
                    r = run_unit(ct, v, b)
                    json.dump(r, open(f, 'w'))
                except BaseException as e:
                    json.dump(dict(obligations={}, errors=['verifier: ' + traceback.format_exc(limit=-3)], exceptions=[], vacuous=True, paths=0, secs=0, stats={}, models=[], stubs=[], canary=None), open(f, 'w'))
                os._exit(0)
            running[pid] = (n, ct, v, f, time.time() + b + 45)
        time.sleep(0.02)
        for pid in list(running):
            n, ct, v, f, end = running[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            if not p and time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                p = pid
            if p:
                del running[pid]
                try: r = json.load(open(f))
                except Exception:
                    r = dict(obligations={}, errors=['time or memory limit'], exceptions=[], vacuous=True, paths=0, secs=0, stats={}, models=[], stubs=[], canary=None)
                res[n] = r
                if a.v:
                    bad = {k: d['status'] for k, d in r['obligations'].items() if d['status'] != 'proved'}
                    print('%-60s %2d obl %3d paths %5.1fs %s' % (n, len(r['obligations']), r['paths'], r['secs'], 'OK' if not bad and not r['errors'] and not r['exceptions'] and not r['vacuous'] and r['canary'] == 'ok' else '!!'))
                    for k in bad: print('      ', bad[k], k, *((r['obligations'][k]['goal'][:1500], '|', '; '.join(r['obligations'][k]['model'][:60])[:1500]) if a.vv else ()))
                    for e in r['errors'] + r['exceptions']: print('       ', e[:400])
                    if r['vacuous']: print('        vacuous')
                    if r['canary'] != 'ok': print('        canary', r['canary'])
                    sys.stdout.flush()
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    meta = {}
    for n, ct, v in units:
        meta[n] = dict(fns=ct.fns, assumes=ct.assumes, contract=ct.name)
    json.dump(dict(units=res, meta=meta, wall=time.time() - t0), open(a.out, 'w'), indent=1)
    if a.v: print('wall %.1f' % (time.time() - t0))


if __name__ == '__main__':
    main()
