"""run campaigns by hand: drive.py c01 [n] [seed]"""
import sys, importlib, random, time, traceback, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
m = importlib.import_module(sys.argv[1]); n = int(sys.argv[2]) if len(sys.argv) > 2 else 100
r = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
seen = {}; t0 = time.time(); k = 0
g = m.cases(r, 'quick')
for k in range(n):
    c = next(g, None)
    if c is None: break
    try: m.check(c)
    except m.Fail as e: seen.setdefault(str(e)[:60], [0, c, str(e)])[0] += 1
    except Exception as e:
        seen.setdefault(repr(e)[:80], [0, c, ''.join(traceback.format_exc(limit=-4))])[0] += 1
print('%s: %d cases %.1fs' % (sys.argv[1], k + 1, time.time() - t0))
for q, (n, c, e) in list(seen.items())[:int(os.environ.get("NF","6"))]: print('###', n, e[-700:], '\n   ', json.dumps(c))
