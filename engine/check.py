"""check <property>: decide a property of /repo's current source.

Exit 0: every obligation of the property is discharged (or could not be decided, which the evidence says).
Exit 1: VIOLATION lines name the construct.  The engine never runs the analysed program.
"""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('CHECK_EVID') or os.path.join(VERIF, 'evidence')
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.setrecursionlimit(20000)

import extract  # noqa: E402

MODULES = ('ob_cmd', 'ob_spatial', 'ob_util', 'ob_codec', 'ob_query', 'ob_order', 'ob_db', 'ob_run', 'ob_ui', 'ob_locks', 'ob_cli', 'ob_err', 'ob_arith', 'ob_text')


class Result(object):
    """outcome of one obligation"""

    def __init__(self, ob):
        self.ob = ob
        self.viol = []       # (key, message, construct)
        self.undecided = []
        self.parts = []      # (part, how)  discharged sub-obligations
        self.stats = {}

    def bad(self, key, msg, src=''):
        self.viol.append((key, msg, src))

    def unk(self, part, why):
        self.undecided.append((part, str(why)[:300]))

    def ok(self, part, how):
        self.parts.append((part, how))

    def count(self, **kw):
        for k, v in kw.items():
            self.stats[k] = self.stats.get(k, 0) + v


class Ctx(object):
    def __init__(self, dump, seed, tier):
        import interp
        import core
        self.dump, self.seed, self.tier = dump, seed, tier
        self.eng = interp.Engine(dump)
        self.memo = {}
        self.deep = 300 * float(os.environ.get('CHECK_SECS', 1))      # time for graphs no run has explored in depth
        core.FIXEDLEN.update(nodes=4096, param1=4096, param2=4096)

    @property
    def worlds(self):
        return 6000 if self.tier == 'thorough' else 500

    @property
    def secs(self):
        return (150 if self.tier == 'thorough' else 8) * float(os.environ.get('CHECK_SECS', 1))

    def once(self, key, f):
        if key not in self.memo:
            self.memo[key] = f()
        return self.memo[key]


OBS = []


class Ob(object):
    def __init__(self, id_, props, rule, fn):
        self.id, self.props, self.rule, self.fn = id_, props, rule, fn


def ob(id_, props, rule, tech=None):
    def d(f):
        o = Ob(id_, props.split(), rule, f)
        o.tech = tech
        OBS.append(o)
        return f
    return d


def load():
    for m in MODULES:
        importlib.import_module(m)


def known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                f = l[7:].split(' ', 2)
                out.append((f[0].split('=')[1], f[1].split('=')[1], f[2] if len(f) > 2 else ''))
    return out


def run(prop, ctx, only=None):
    only = only or os.environ.get('CHECK_ONLY')
    res = []
    for o in OBS:
        if prop not in o.props or (only and only not in o.id):
            continue
        r = Result(o)
        t = time.time()
        try:
            o.fn(ctx, prop, r)
        except Exception as e:    # an engine limit is never an alarm
            if os.environ.get('CHECK_DEBUG'):
                traceback.print_exc()
            r.unk('engine', '%s: %s' % (type(e).__name__, e))
        r.wall = time.time() - t
        res.append(r)
    return res


def main(argv):
    prop = argv[0]
    only = argv[1] if len(argv) > 1 else None
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    load()
    if os.environ.get('CHECK_DUMP'):
        dump = json.load(open(os.environ['CHECK_DUMP']))
    else:
        try:
            dump = extract.dump()
        except extract.ExtractError as e:
            print('the crate does not build: %s' % str(e)[-3000:])
            return 2
    ctx = Ctx(dump, seed, tier)
    res = run(prop, ctx, only)
    kn = [(k, m) for p, k, m in known() if p == prop]
    viol, seen = [], set()
    for r in res:
        for key, msg, src in r.viol:
            if any(k == key for k, _ in kn):
                if key not in seen:
                    print('KNOWN-FINDING: property=%s %s %s' % (prop, key, msg))
                seen.add(key)
                continue
            viol.append((r, key, msg, src))
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for i, (r, key, msg, src) in enumerate(viol):
        p = os.path.join(EVID, "replay", '%s-%d.json' % (prop, i))
        with open(p, 'w') as f:
            json.dump({'property': prop, 'obligation': r.ob.id, 'rule': r.ob.rule, 'key': key, 'construct': src,
                       'finding': msg, 'rerun': 'VERIF_SEED=%d python3 engine/check.py %s %s' % (seed, prop, r.ob.id)},
                      f, indent=1)
        print('%s: %s [%s] at %s' % (prop, msg, key, src or '(whole function)'))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    evidence(prop, tier, seed, res, viol, time.time() - t0, dump)
    nund = sum(len(r.undecided) for r in res)
    print('%s: %d obligations, %d parts discharged, %d undecided, %d violations, %.1f s' %
          (prop, len(res), sum(len(r.parts) for r in res), nund, len(viol), time.time() - t0))
    for r in res:
        for part, why in r.undecided:
            print('  undecided: %s / %s: %s' % (r.ob.id, part, why))
    if not res:
        print('no obligation is registered for %s' % prop)
        return 2
    return 1 if viol else 0


def evidence(prop, tier, seed, res, viol, wall, dump):
    how = {}
    for r in res:
        for _, h in r.parts:
            how[h] = how.get(h, 0) + 1
    stats = {}
    for r in res:
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
    parts = sum(len(r.parts) for r in res)
    und = [{'obligation': r.ob.id, 'part': p, 'reason': w} for r in res for p, w in r.undecided]
    cov = {
        'explanation': 'Static analysis of the type-checked MIR of the current tree: each obligation below compares a '
                       'summary derived from the MIR (or a path/typestate/flow fact over it) with the rule it names.',
        'functions_in_crate': len(dump['bodies']),
        'obligations': parts + len(und) + len(viol),
        'discharged': parts,
        'discharged_by': how,
        'undecided': und,
        'analysed': stats,
        'rules': [{'obligation': r.ob.id, 'rule': r.ob.rule, 'parts': [p for p, _ in r.parts][:60],
                   'wall_s': round(r.wall, 2)} for r in res],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ['rustc\'s MIR is what the compiler builds', 'library contracts in engine/lib.py',
                          'the oracle in engine/spec_*.py states the intended behaviour'],
          'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    import check
    sys.exit(check.main(sys.argv[1:]))
