"""replay.py FILE: runs the failing input of a replay file against the real code; exit 1 if it still fails"""
import sys, os, json, importlib
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo')); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(sys.argv[1]))
if d.get('kind') != 'case':
    print(json.dumps(d, indent=1)); sys.exit(0)
importlib.import_module(d['module']).check(d['case'])
print('the case passes')
