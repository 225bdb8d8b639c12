"""Build the MIR driver (if needed) and dump /repo's current MIR as JSON."""
import glob, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MAPEDITR_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')


class ExtractError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise ExtractError('%s failed:\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def base_env():
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET',
              'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'RUSTC'):
        env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'
    return env


def build_driver():
    exe = os.path.join(BUILD, 'drv/release/mirdump')
    src = os.path.join(VERIF, 'driver/src/main.rs')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    env = base_env()
    env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'drv')
    run(['cargo', '+nightly', 'build', '--release', '--offline'],
        cwd=os.path.join(VERIF, 'driver'), env=env)
    return exe


def dump(repo=None, out=None):
    """Type-check the crate in `repo` with the driver and return the parsed dump."""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    exe = build_driver()
    tag = 'tgt' if repo == '/repo' else 'tgt-other'
    tgt = os.path.join(BUILD, tag)
    for f in glob.glob(os.path.join(tgt, '*/.fingerprint/mapeditr-*')) + glob.glob(os.path.join(tgt, '*/build/mapeditr')):
        shutil.rmtree(f, ignore_errors=True)
    out = out or os.path.join(BUILD, 'mir-%d.json' % os.getpid())
    env = base_env()
    sysroot = run(['rustc', '+nightly', '--print', 'sysroot'], env=env).strip()
    env.update({
        'RUSTFLAGS': '-C overflow-checks=off -C debug-assertions=off -Zallow-features= -Zmir-opt-level=0 -Zinline-mir=no '
                     '--cap-lints allow',
        'RUSTC_WORKSPACE_WRAPPER': exe,
        'LD_LIBRARY_PATH': sysroot + '/lib',
        'CARGO_TARGET_DIR': tgt,
        'MIRDUMP_OUT': out,
        'CARGO_INCREMENTAL': '0',
    })
    run(['cargo', '+nightly', 'check', '--offline', '--bin', 'mapeditr'], cwd=repo, env=env)
    if not os.path.exists(out):
        raise ExtractError('the MIR driver produced no output (crate renamed?)')
    try:
        with open(out) as f:
            return json.load(f)
    finally:
        os.unlink(out)


if __name__ == '__main__':
    d = dump(sys.argv[1] if len(sys.argv) > 1 else None)
    json.dump(d, open(sys.argv[2] if len(sys.argv) > 2 else '/dev/stdout', 'w'))
