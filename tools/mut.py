"""Small changes without demonstrations: bugs the checks should see, rewrites on which they have to stay quiet.

mut.py [-v] [-b] [@C01,C02] [id ...]   (-b: rewrites only, several to a tree)
 extract the MIR of each changed tree (tools/mutants.py) and run the checks it names"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/tools', V + '/engine']
S, MIR = '/tmp/mutrepo', '/tmp/mutmir'
import extract, mutants, mutants_b, mutants_c, mutants_d  # noqa: E402,F401


def bundled(ms):
    """rewrites of different files, put together in as few trees as possible"""
    out = []
    for m in ms:
        fs = {e[0] for e in m['edits']}
        for b in out:
            if not fs & b['files'] and len(b['parts']) < 14:
                break
        else:
            b = dict(files=set(), parts=[], edits=[], props='', same=True)
            out.append(b)
        b['files'] |= fs
        b['parts'].append(m['id'])
        b['edits'] += m['edits']
    for i, b in enumerate(out):
        b['id'] = 'bundle%d' % i
        print(b['id'], ' '.join(b['parts']))
    return out


def main(ids):
    only = [i[1:].split(',') for i in ids if i[0] == '@']
    verb, bundle = '-v' in ids, '-b' in ids
    ids = [i for i in ids if i[0] not in '@-']
    if not os.path.isdir(S):
        subprocess.run(['cp', '-a', '/repo', S], check=True)
    subprocess.run('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=S, check=True)
    os.makedirs(MIR, exist_ok=True)
    man = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    todo, kind = [], {}
    chosen = [m for m in mutants.ALL if not ids or any(
        i == m['id'] or m['id'].startswith(i.rstrip('*')) and i.endswith('*') for i in ids)]
    if bundle:
        chosen = bundled([m for m in chosen if m['same']])
    for m in chosen:
        subprocess.run('git checkout -q -- .', shell=True, cwd=S)
        bad = None
        for f, old, new in m['edits']:
            s = open('%s/%s' % (S, f)).read()
            if s.count(old) != 1:
                bad = '%s: %d matches of %r' % (f, s.count(old), old[:50])
                break
            open('%s/%s' % (S, f), 'w').write(s.replace(old, new))
        out = '%s/%s.json' % (MIR, m['id'])
        if not bad:
            try:
                json.dump(extract.dump(S), open(out, 'w'))
            except extract.ExtractError as e:
                bad = 'does not build: ' + str(e)[-600:]
        if bad:
            print(m['id'], 'NO', bad)
            continue
        kind[m['id']] = m
        ps = (m['props'].split() if isinstance(m['props'], str) else list(m['props'])) or man
        if only:
            ps = [p for p in ps if p in only[0]]
        todo += [(m['id'], p) for p in ps]
    subprocess.run('git checkout -q -- .', shell=True, cwd=S)

    def one(a):
        i, p = a
        r = subprocess.run([sys.executable, V + '/engine/check.py', p], capture_output=True, text=True, cwd=V,
                           env=dict(os.environ, CHECK_DUMP='%s/%s.json' % (MIR, i), CHECK_EVID='/tmp/mutev/%s-%s' % (i, p), CHECK_SERIAL='1', CHECK_SECS=os.environ.get('CHECK_SECS', '4')))
        return i, p, r.returncode, r.stdout + r.stderr
    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', 8))) as ex:
        by = {}
        for i, p, rc, out in ex.map(one, todo):
            v = [l for l in out.splitlines() if l.startswith(p + ':')]
            u = [l.strip() for l in out.splitlines() if l.startswith('  undecided')]
            by.setdefault(i, []).append((p, rc, v, u, out))
            if len(by[i]) < sum(x == i for x, _ in todo):
                continue
            same = kind[i]['same']      # a bug has to be seen by one of the checks it names
            hit = any(x[1] == 1 for x in by[i])
            for p, rc, v, u, out in by[i]:
                good = rc == 0 if same else hit and rc in (0, 1)
                if good and (not u or not same) and not verb:
                    continue
                print('%-4s %-34s %s %s %s' % ('ok' if good else 'BAD', i, p, {0: 'quiet', 1: 'alarm'}.get(rc, 'ERR'), (
                    v[0][:230] if rc == 1 and v else '; '.join(u)[:200] if u else '' if rc == 0 else out[-300:])), flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
