"""Make and confirm planted bugs: python3 tools/seed.py [id ...]  (definitions: tools/seeds.py)

Each is applied in a scratch copy of /repo, built, run against the existing tests and its demonstration
(which has to pass without and fail with it), then written to seeded/<id>/.  The MIR of each changed tree
is kept in /tmp/seedmir for tools/seedcheck.py."""
import json, os, shutil, subprocess, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/tools', V + '/engine']
S, MIR = '/tmp/seedrepo', '/tmp/seedmir'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def prepare():
    if os.path.isdir(S):
        shutil.rmtree(S)
    sh('cp -a /repo %s' % S)
    os.makedirs(MIR, exist_ok=True)
    r = sh('cargo build --offline', cwd=S, env=env())
    assert r.returncode == 0, r.stderr


def env():
    e = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
             CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=S + '/target')
    return e


def apply(edits):
    for f, old, new in edits:
        p = os.path.join(S, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            return '%s: %d matches of %r' % (f, n, old[:60])
        open(p, 'w').write(s.replace(old, new))


def build():
    sh('rm -rf target/debug/.fingerprint/mapeditr-*', cwd=S)
    r = sh('cargo build --offline', cwd=S, env=env())
    return r.stderr[-1500:] if r.returncode else ''


def main(ids):
    import seeds
    prepare()
    os.makedirs('/tmp/seedbin', exist_ok=True)
    clean = '/tmp/seedbin/clean'
    shutil.copy(S + '/target/debug/mapeditr', clean)
    for d in seeds.SEEDS:
        if ids and d['id'] not in ids:
            continue
        sh('git checkout -q -- .', cwd=S)
        e = apply(d['edits'])
        if e:
            print(d['id'], 'NO', e)
            continue
        diff = sh('git diff', cwd=S).stdout
        e = build()
        if e:
            print(d['id'], 'DOES NOT BUILD', e)
            continue
        t = sh('cargo test --offline -- --test-threads 8', cwd=S, env=env())
        if 'test result: ok. 22 passed' not in t.stdout:
            print(d['id'], 'TESTS FAIL', t.stdout[-800:])
            continue
        out = os.path.join(V, 'seeded', d['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        shutil.copy(V + '/lib/mtmap.py', out + '/mtmap.py')
        open(out + '/demo.py', 'w').write(seeds.HEAD + d['demo'])
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: behaves as stated; nonzero: broken\nexec python3 "$(dirname "$0")/demo.py"\n')
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        cur = S + '/target/debug/mapeditr'
        a = sh('bash %s/demo.sh' % out, cwd=S, timeout=250)
        b = sh('bash %s/demo.sh' % out, cwd=S, env=dict(os.environ, MAPEDITR=clean), timeout=250)
        ok = a.returncode != 0 and b.returncode == 0
        print(d['id'], 'ok' if ok else 'DEMO WRONG patched=%d clean=%d' % (a.returncode, b.returncode), d['property'])
        if not ok:
            print((a.stdout + a.stderr)[-600:], '-----', (b.stdout + b.stderr)[-900:])
            shutil.rmtree(out)
            continue
        import extract
        json.dump(extract.dump(S), open('%s/%s.json' % (MIR, d['id']), 'w'))
    sh('git checkout -q -- .', cwd=S)


if __name__ == '__main__':
    main(sys.argv[1:])
