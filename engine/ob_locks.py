"""Ownership dataflow over MIR: what is still held at a call that may wait.

Forward may-analysis per body: a local holds a resource (lock guard, sending half of a channel) from the statement that
moves it in until it is dropped or moved out.  At every call the resources held by the frame are checked against what the
callee may do, transitively over the call graph (closures passed to a call count as called)."""
import json
import re
from check import ob
from interp import norm, fnname
from rand import Undecided

TECH = 'ownership dataflow over MIR and the call graph'
SE, CE = 'instance::ServerEvent', 'instance::ClientEvent'

WAITS = [
    ('locks', re.compile(r'^std::sync::(Mutex::lock|Mutex::try_lock|RwLock::(read|write)|Condvar::wait)')),
    ('sends', re.compile(r'^std::sync::(mpsc|mpmc)::(Sync)?Sender::(send|try_send)')),
    ('receives', re.compile(r'^std::sync::(mpsc|mpmc)::Receiver::(recv|iter|try_iter|into_iter|recv_timeout|recv_deadline|try_recv)')),
    ('joins', re.compile(r'^std::thread::(JoinHandle|ScopedJoinHandle)::join|^std::thread::scope')),
    ('sleeps', re.compile(r'^std::thread::(sleep|park|yield_now)')),
    ('prints', re.compile(r'^std::io::(_print|_eprint|stdout|stderr|stdin|Stdin|Stdout|Write|Read|BufRead|stdio)\b')),
    ('queries SQLite', re.compile(r'^sqlite::')),
    ('compresses', re.compile(r'^(flate2|zstd)::')),
    ('uses files', re.compile(r'^std::fs::|^std::process::')),
]


def bodies(ctx):
    return ctx.eng.bodies


def callees(ctx, b, tm):
    """(path, callee body ids, closure bodies passed)"""
    f, out = tm[1], set()
    path = None
    if 'fn' in f:
        path = norm(f['fn']['path'])
        for k in (f['fn'].get('res'), f['fn']):
            if k and k.get('local') and k['u'] in ctx.eng.bodies:
                out.add(k['u'])
                break
    clos = set()
    for a in tm[2]:
        t = a.get('t', '')
        if 'fn' in a and a['fn'].get('local'):
            clos.add(a['fn']['u'])
        if 'closure' in t:
            clos |= closure_ids(ctx, b, t)
    return path, out, clos


def closure_ids(ctx, b, t):
    ids = ctx.once('locks.clo', lambda: {})
    if not ids:
        for u, x in ctx.eng.bodies.items():
            if '{closure' in u:
                ids.setdefault(u, u)
    got = {u for u in ids if u in t or u.split('::', 1)[-1] in t}
    if got:
        return got
    # closures of this body
    pre = b['u'] + '::{closure'
    return {u for u in ids if u.startswith(pre)}


def effects(ctx):
    """body id -> set of kinds it may do, with one witness each"""
    def f():
        direct, edges = {}, {}
        for u, b in ctx.eng.bodies.items():
            d, e = {}, set()
            for bb in b['bbs']:
                if bb['cl'] or bb['tm'][0] != 'call':
                    continue
                path, cs, clos = callees(ctx, b, bb['tm'])
                e |= cs | clos
                for k in kinds(path, bb['tm']):
                    d.setdefault(k, '%s at %s' % (path, bb['tm'][-1]))
            direct[u], edges[u] = d, e
        eff = {u: dict(d) for u, d in direct.items()}
        ch = True
        while ch:
            ch = False
            for u in eff:
                for v in edges[u]:
                    for k, w in eff.get(v, {}).items():
                        if k not in eff[u]:
                            eff[u][k] = w
                            ch = True
        return eff, edges
    return ctx.once('locks.effects', f)


def kinds(path, tm):
    out = set()
    if path is None:
        return out
    for k, r in WAITS:
        if r.search(path):
            out.add(k)
    if 'receives' in out:
        t = ' '.join(a.get('t', '') for a in tm[2][:1])
        for ty in (SE, CE):
            if ty in t:
                out.add('receives ' + ty)
    return out


# ------------------------------------------------------------------ what a type owns
def owns(ctx, what):
    """predicate on type strings: the type owns (not borrows) a `what`"""
    adts = set()
    memo = {}

    def strip(t):
        # borrowed parts do not own: cut '&T' arguments at top level of each list
        out, i = '', 0
        while i < len(t):
            if t[i] == '&':
                d = 0
                while i < len(t) and not (d == 0 and t[i] in ',>)]}'):
                    d += t[i] in '<(['
                    d -= t[i] in '>)]'
                    i += 1
                continue
            if t.startswith(('fn(', 'for<', 'unsafe fn(')) and i == 0:
                return ''
            out += t[i]
            i += 1
        return out

    def p(t):
        r = memo.get(t)
        if r is None:
            s = strip(t)
            r = memo[t] = bool(what.search(s)) or any(re.search(r'(?<![\w:])%s(?![\w:])' % re.escape(a), s) for a in adts)
        return r
    while True:
        new = {n for n, d in ctx.eng.types.items() if n not in adts and
               any(p(ty) for v in d['variants'] for _, ty in v[1])}
        if not new:
            break
        adts |= new
        memo.clear()
    return p


def moves(x, out):
    if isinstance(x, dict):
        if x.get('mv') and 'l' in x:
            out.append(x)
        for v in x.values():
            moves(v, out)
    elif isinstance(x, list):
        for v in x:
            moves(v, out)


def held(b, pred):
    """{block: locals that may own a resource on entry}"""
    loc = [i for i, (t, _) in enumerate(b['locals']) if pred(t) or '{closure' in t]
    if not [i for i in loc if pred(b['locals'][i][0])] and not any('{closure' in b['locals'][i][0] for i in loc):
        return None
    ins = {0: frozenset(i for i in loc if 1 <= i <= b['argc'] and pred(b['locals'][i][0]))}
    work = [0]

    def kill(s, ps):
        for p in ps:
            if not p['p'] or pred(p.get('t', '')):
                if not any(e[0] == '*' for e in p['p']):
                    s.discard(p['l'])

    def gen(s, dst, ps, fresh):
        if any(e[0] == '*' for e in dst['p']):
            return
        t = b['locals'][dst['l']][0]
        if pred(t) and (fresh or any(pred(p.get('t', '')) for p in ps) or not ps and pred(dst.get('t', ''))):
            s.add(dst['l'])
    sites = []

    def step(k, s):
        bb = b['bbs'][k]
        s = set(s)
        for st in bb['st']:
            if st[0] != '=':
                continue
            ps = []
            moves(st[2], ps)
            kill(s, ps)
            gen(s, st[1], ps, False)
        return s

    def succ(k, s):
        tm = b['bbs'][k]['tm']
        if tm[0] == 'goto':
            return [(tm[1], s)]
        if tm[0] == 'switch':
            return [(x[1], s) for x in tm[3]] + [(tm[4], s)]
        if tm[0] == 'drop':
            s = set(s)
            if not tm[1]['p']:
                s.discard(tm[1]['l'])
            elif pred(tm[1].get('t', '')) and not any(e[0] == '*' for e in tm[1]['p']):
                s.discard(tm[1]['l'])
            return [(tm[2], s)]
        if tm[0] == 'assert':
            return [(tm[4], s)]
        if tm[0] == 'call':
            s = set(s)
            ps = []
            moves(tm[2], ps)
            kill(s, ps)
            if tm[3] and pred(tm[3].get('t', '')):
                s.add(tm[3]['l'])
            return [(tm[4], s)] if tm[4] is not None else []
        return []
    seen = 0
    while work:
        k = work.pop()
        seen += 1
        if seen > 20000:
            raise Undecided('dataflow of ' + b['name'])
        for t, s in succ(k, step(k, ins[k])):
            if not isinstance(t, int) or b['bbs'][t]['cl']:
                continue
            n = ins.get(t, frozenset()) | s
            if n != ins.get(t) or t not in ins:
                ins[t] = frozenset(n)
                work.append(t)
    return {k: step(k, s) for k, s in ins.items()}


def flow(ctx, res, pred, bad, what, key):
    """no call with a forbidden effect while a resource is held"""
    eff, edges = effects(ctx)
    nb = ns = 0
    for u, b in sorted(ctx.eng.bodies.items()):
        outs = held(b, pred)
        if outs is None:
            continue
        for k, s in sorted(outs.items()):
            tm = b['bbs'][k]['tm']
            if tm[0] != 'call':
                continue
            own = set(i for i in s if pred(b['locals'][i][0]))
            ps = []
            moves(tm[2], ps)
            own -= {p['l'] for p in ps}
            path, cs, clos = callees(ctx, b, tm)
            if path and path.endswith(('mem::forget', 'ManuallyDrop::new', 'Box::leak', 'Box::into_raw')) and \
                    any(pred(p.get('t', '')) for p in ps):
                res.bad('%s.%s.forget' % (key, b['name']), '%s never lets go of %s' % (b['name'], what), tm[-1])
                return
            if not own:
                continue
            nb += 1
            ns += 1
            if any(path and path.startswith(x) for x in ('std::thread::Builder::spawn', 'std::thread::spawn')):
                clos = set()
            did = {x: '%s at %s' % (path, tm[-1]) for x in kinds(path, tm)}
            for v in cs | clos:
                for x, w in eff.get(v, {}).items():
                    did.setdefault(x, w)
            for x in sorted(did):
                if bad(x):
                    nm = b['locals'][min(own)][1] or b['locals'][min(own)][0]
                    res.bad('%s.%s.%s' % (key, b['name'], x), '%s %s (%s) while it holds %s (%s)' %
                            (b['name'], x, did[x], what, nm), '%s (%s)' % (tm[-1], b['name']))
                    return
    res.ok(what, '%d calls made while holding one, in %d bodies' % (ns, len(ctx.eng.bodies)))


@ob('locks.guard', 'C19', 'no function waits, sends, prints, uses SQLite or takes a lock while it holds the guard of the status '
    'lock (ownership dataflow over MIR, transitively over the call graph)', tech=TECH)
def o_guard(ctx, prop, res):
    try:
        flow(ctx, res, owns(ctx, re.compile(r'\b(MutexGuard|RwLockReadGuard|RwLockWriteGuard|MappedMutexGuard)<')),
             lambda k: True, 'the status lock', 'guard')
    except (Undecided, KeyError, IndexError, TypeError) as e:
        res.unk('guard', repr(e))


@ob('locks.sender', 'C19', 'nobody who waits for messages, or for the worker to end, owns the sending half of the same channel, '
    'so that the wait ends when the other side is gone (ownership dataflow over MIR)', tech=TECH)
def o_sender(ctx, prop, res):
    try:
        flow(ctx, res, owns(ctx, re.compile(r'Sender<%s>' % SE)),
             lambda k: k in ('receives ' + SE, 'joins'), 'the worker\'s sending half', 'sender')
        flow(ctx, res, owns(ctx, re.compile(r'Sender<%s>' % CE)),
             lambda k: k in ('receives ' + CE,), 'the user interface\'s sending half', 'answer')
    except (Undecided, KeyError, IndexError, TypeError) as e:
        res.unk('sender', repr(e))
