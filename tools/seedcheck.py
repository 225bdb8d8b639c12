"""Run checks against the MIR of planted bugs or refactorings: seedcheck.py [--all] [ids]"""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MIR = '/tmp/seedmir'
man = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]


def one(a):
    i, p = a
    r = subprocess.run([sys.executable, V + '/engine/check.py', p], capture_output=True, text=True, cwd=V,
                       env=dict(os.environ, CHECK_DUMP='%s/%s.json' % (MIR, i), CHECK_EVID='/tmp/seedev/%s-%s' % (i, p), CHECK_SERIAL='1'))
    return i, p, r.returncode, r.stdout + r.stderr


def main(args):
    allp = '--all' in args
    ids = [a for a in args if not a.startswith('--')]
    sys.path.insert(0, V + '/tools')
    import seeds
    todo = []
    for d in seeds.SEEDS:
        if ids and d['id'] not in ids:
            continue
        if not os.path.exists('%s/%s.json' % (MIR, d['id'])):
            continue
        for p in (man if allp else [d['property']]):
            todo.append((d['id'], p))
    prim = {d['id']: d['property'] for d in seeds.SEEDS}
    with ThreadPoolExecutor(8) as ex:
        for i, p, rc, out in ex.map(one, todo):
            v = [l for l in out.splitlines() if l.startswith(p + ':')]
            if p == prim[i]:
                print('%-28s %s %s %s' % (i, p, {0: 'MISSED', 1: 'caught'}.get(rc, 'ERROR %d' % rc), v[0][:150] if v else out[-300:]))
            elif rc == 1:
                print('%-28s   also %s' % (i, p))


main(sys.argv[1:])
