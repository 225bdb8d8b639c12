"""Fingerprints of the value graphs of the current tree, written to engine/vetted.json.

Run it after a thorough run (VERIF_TIER=thorough of the properties with cmd.* obligations) was quiet on this tree: quick runs
explore fewer assignments of graphs listed there and five times as many of any other."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = '/tmp/digests.%d' % os.getpid()
for c in json.load(open(V + '/MANIFEST.json'))['checks']:
    subprocess.run([sys.executable, V + '/engine/check.py', c['property']], cwd=V, stdout=subprocess.DEVNULL,
                   env=dict(os.environ, CHECK_DIGESTS=F, CHECK_SECS='0.05', CHECK_EVID='/tmp/vetev'))
out = {}
for l in open(F):
    n, d = l.split()
    out.setdefault(n, set()).add(d)
os.remove(F)
json.dump({n: sorted(d) for n, d in sorted(out.items())}, open(V + '/engine/vetted.json', 'w'), indent=1)
print({n: len(d) for n, d in out.items()})
