"""One worker of a bounded campaign: worker.py cNN seed tier seconds maxcases -> one JSON line.
Runs the unmodified code of VERIF_REPO (default /repo)."""
import os, sys
os.environ.setdefault('OMP_NUM_THREADS', '1'); os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import importlib, json, random, time, traceback, hashlib, signal
mod, seed, tier, secs, maxn = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4]), int(sys.argv[5])
m = importlib.import_module(mod)
import chainladder
known = json.loads(os.environ.get('VERIF_KNOWN', '[]'))


def is_known(case, msg):
    for k in known:
        if k.get('contains') and k['contains'] not in msg: continue
        if all(case.get(a) == b for a, b in k.get('case', {}).items()): return k['id']
    return None


class Slow(BaseException): pass
def alarm(*a): raise Slow()
signal.signal(signal.SIGALRM, alarm)
r = random.Random(seed)
g = m.cases(r, tier)
t0 = time.time(); n = 0; seen = set(); samples = []; fails = []; hits = {}; slow = 0
while n < maxn and time.time() - t0 < secs and len(fails) < 3:
    case = next(g, None)
    if case is None: break
    n += 1
    k = json.dumps(case, sort_keys=True, default=str)
    seen.add(hashlib.md5(k.encode()).hexdigest())
    if len(samples) < 1: samples.append(case)
    msg = None
    signal.alarm(60)
    try: m.check(case)
    except m.Fail as e: msg = 'Fail: ' + str(e)
    except Slow: slow += 1
    except MemoryError: slow += 1
    except Exception as e: msg = ''.join(traceback.format_exc(limit=-6))
    signal.alarm(0)
    if msg is not None:
        kid = is_known(case, msg)
        if kid: hits[kid] = hits.get(kid, 0) + 1
        else: fails.append(dict(case=case, message=msg[-3000:]))
print(json.dumps(dict(n=n, distinct=sorted(seen), samples=samples, fails=fails, known=hits, slow=slow, secs=time.time() - t0, code=os.path.dirname(chainladder.__file__)), default=str))
