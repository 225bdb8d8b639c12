"""Constants the functions of the current tree use, written to engine/known.json.

Assignments concentrate on the other constants a function uses (ones that a change brought in)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = '/tmp/known.%d' % os.getpid()
for c in json.load(open(V + '/MANIFEST.json'))['checks']:
    subprocess.run([sys.executable, V + '/engine/check.py', c['property']], cwd=V, stdout=subprocess.DEVNULL,
                   env=dict(os.environ, CHECK_KNOWN=F, CHECK_SECS='0.02', CHECK_EVID='/tmp/knownev'))
out = {}
for l in open(F):
    k, i, b = json.loads(l)
    o = out.setdefault(k, (set(), set()))
    o[0].update(map(tuple, i))
    o[1].update(map(tuple, b))
os.remove(F)
json.dump({k: [sorted(i), sorted(b)] for k, (i, b) in sorted(out.items())}, open(V + '/engine/known.json', 'w'))
print({k: (len(i), len(b)) for k, (i, b) in out.items()})
