"""Which part of a command's effects each property speaks about, over interpreted effect streams."""
import hashlib
import os
import pickle
import signal
import time
import core
import rand
from rand import O, M, Q, Tup, UNDEF, Undecided, num

DBQ = Q('DB:db')
FIELDS = ('version', 'flags', 'lighting_complete', 'static_objects', 'timestamp', 'node_timers', 'metadata',
          'node_data.param1', 'node_data.param2')


class Eff(object):
    __slots__ = ('name', 'vals', 'src')

    def __init__(self, name, vals, src):
        self.name, self.vals, self.src = name, vals, src


def effects(w, items):
    out = []
    for name, vals, g, nest, src in items:
        for f in rand.frames(w, nest, 0, w.root, {}):
            if w.g(g, f):
                out.append(Eff(name, tuple(w.ev(v, f) for v in vals), src))
    return out


def raw(w, db, key):
    return w.app_('getblk', db, key)


def decoded(w, data):
    """-> block or None; ('raw', data) decodes by contract"""
    if isinstance(data, Tup) and len(data) == 2 and data[0] == 'ser':
        return data[1] if isinstance(data[1], O) else None
    r = w.app_('deser', data)
    return r.get('0') if r.var == 'Ok' else None


def path(b, p):
    for n in p.split('.'):
        if not isinstance(b, O):
            return UNDEF
        b = b.get(n)
    return b


def names(b):
    """node names by position"""
    m, ns = path(b, 'nimap.0'), path(b, 'node_data.nodes')
    if not isinstance(m, M) or not isinstance(ns, tuple):
        return UNDEF
    return tuple(m.d.get(i, UNDEF) for i in ns)


def writes(effs):
    """{key: [(data, src)]} of the main map; data None = deleted"""
    out = {}
    for e in effs:
        if e.name == 'set_block' and e.vals[0] == DBQ:
            out.setdefault(e.vals[1], []).append((e.vals[2], e.src))
        elif e.name == 'delete_block' and e.vals[0] == DBQ:
            out.setdefault(e.vals[1], []).append((None, e.src))
    return out


def final(w, effs, field):
    """{key: (value of the field after the command, where written)}"""
    out = {}
    ws = writes(effs)
    for k in set(ws) | set(w.bkey(p) for p in w.blocks):
        d = ws.get(k)
        if d is None:
            o = raw(w, DBQ, k)
            if o.var != 'Ok':
                continue
            data, src = o.get('0'), ''
        elif len(set(x[0] for x in d)) > 1:
            raise Undecided('block written several times')
        else:
            data, src = d[0]
        if data is None:
            out[k] = ('deleted', src)
            continue
        b = decoded(w, data)
        if b is None:
            out[k] = (('raw', data), src)
        elif field == 'names':
            out[k] = (names(b), src)
        else:
            out[k] = (path(b, field), src)
    return out


def brief(a, b):
    """what differs, in a few words"""
    if type(a) != type(b) or isinstance(a, (int, Q, str)):
        return '%s instead of %s' % (repr(a)[:120], repr(b)[:120])
    if isinstance(a, M):
        for k in sorted(set(a.d) | set(b.d), key=repr):
            if k not in a.d:
                return 'entry %r is missing' % (k,)
            if k not in b.d:
                return 'entry %r remains' % (k,)
            if a.d[k] != b.d[k]:
                return 'entry %r: %s' % (k, brief(a.d[k], b.d[k]))
    if isinstance(a, tuple):
        if len(a) != len(b):
            return '%d elements instead of %d' % (len(a), len(b))
        d = [i for i in range(len(a)) if a[i] != b[i]]
        if d:
            return 'element %d (of %d that differ): %s' % (d[0], len(d), brief(a[d[0]], b[d[0]]))
    if isinstance(a, O):
        if a.var != b.var:
            return '%s instead of %s' % (a.var, b.var)
        for k, v in a.canon()[1:]:
            if b.get(k) != v:
                return '%s: %s' % (k, brief(v, b.get(k)))
    return '%s instead of %s' % (repr(a)[:120], repr(b)[:120])


def cmp_maps(a, b, what, anysrc=''):
    for k in sorted(set(a) | set(b), key=repr):
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            return (x or ('', anysrc))[1] or anysrc, '%s of block %s: %s' % (what, k, 'not there any more' if x is None else 'added')
        if x[0] != y[0]:
            return x[1] or anysrc, '%s of block %s: %s' % (what, k, brief(x[0], y[0]))
    return None


def srcs(effs, name):
    for e in effs:
        if e.name == name:
            return e.src
    return ''


def tally(effs, pick):
    out = {}
    for e in effs:
        if pick(e):
            k = (e.name,) + e.vals
            out[k] = (out.get(k, (0,))[0] + 1, e.src)
    return out


# ------------------------------------------------------------------ views: (world, code, spec) -> None | (source, message)
def v_fields(*fields):
    def f(w, code, spec):
        for x in fields:
            r = cmp_maps(final(w, code, x), final(w, spec, x), x, srcs(code, 'set_block'))
            if r:
                return r
    return f


def v_others(*touched):
    """fields a command must not touch keep their stored value"""
    def f(w, code, spec):
        for k, d in writes(code).items():
            o = raw(w, DBQ, k)
            if o.var != 'Ok':
                continue
            orig = decoded(w, o.get('0'))
            for data, src in d:
                b = decoded(w, data) if data is not None else None
                if b is None or orig is None:
                    continue
                for x in FIELDS + (('names',) if 'names' not in touched else ()):
                    if x in touched:
                        continue
                    p, q = (names(b), names(orig)) if x == 'names' else (path(b, x), path(orig, x))
                    if p != q:
                        return src, '%s of block %s changed: %s' % (x, k, brief(p, q))
    return f


def v_progress(w, code, spec):
    for n in ('inc_done', 'inc_failed'):
        a, b = tally(code, lambda e: e.name == n), tally(spec, lambda e: e.name == n)
        x, y = a.get((n,), (0, ''))[0], b.get((n,), (0, ''))[0]
        if x != y:
            what = 'counted as processed' if n == 'inc_done' else 'counted as failed'
            return srcs(code, n), '%d blocks %s instead of %d' % (x, what, y)
    # undecodable blocks stay as they are
    sk = writes(spec)
    for k, d in writes(code).items():
        o = raw(w, DBQ, k)
        if o.var == 'Ok' and decoded(w, o.get('0')) is None and k not in sk:
            return d[0][1], 'block %s, which cannot be decoded, is written' % k


def v_own(w, code, spec):
    """writes go to the position they were read from; nothing is added or removed"""
    ws, ss = writes(code), writes(spec)
    for k in ws:
        for data, src in ws[k]:
            o = raw(w, DBQ, k)
            if data is None:
                if k not in ss or ss[k][0][0] is not None:
                    return src, 'block %s is deleted' % k
                continue
            if o.var != 'Ok':
                if k not in ss:
                    return src, 'block %s, which the map did not have, is written' % k
            if k in ss and ss[k][0][0] is not None:
                a, b = decoded(w, data), decoded(w, ss[k][0][0])
                for x in ('timestamp', 'flags', 'static_objects', 'version'):
                    if a is not None and b is not None and path(a, x) != path(b, x):
                        return src, 'block %s is written with another block\'s data (%s)' % (k, x)
            elif k not in ss:
                a, b = decoded(w, data), decoded(w, o.get('0')) if o.var == 'Ok' else None
                if a is None or b is None:
                    return src, 'block %s is written although nothing was selected' % k
                for x in ('timestamp', 'flags', 'static_objects', 'version'):
                    if path(a, x) != path(b, x):
                        return src, 'block %s is written with another block\'s data (%s)' % (k, x)
    for k in ss:
        if ss[k][0][0] is None and k not in ws:
            return '', 'block %s is not deleted' % k
    for e in code:
        if e.name in ('set_block', 'delete_block') and e.vals[0] != DBQ:
            return e.src, 'write to %r' % e.vals[0]


def v_idb(w, code, spec):
    for e in code:
        if e.name in ('set_block', 'delete_block', 'vacuum', 'commit_if_needed', 'begin_if_needed') and e.vals[0] != DBQ:
            return e.src, '%s on the input map' % e.name


def v_count(w, code, spec):
    a = [e for e in code if e.name == 'count']
    b = [e for e in spec if e.name == 'count']
    if len(a) != len(b):
        return srcs(code, 'count'), '%d counts reported instead of %d' % (len(a), len(b))
    for x, y in zip(a, b):
        if tuple(map(num, x.vals)) != tuple(map(num, y.vals)):
            return x.src, 'reports %s changes, %s are made' % (x.vals, y.vals)


def v_query(w, code, spec):
    a, b = tally(code, lambda e: e.name == 'query'), tally(spec, lambda e: e.name == 'query')
    for k in a:
        if k not in b:
            return a[k][1], 'blocks are queried with %s' % '; '.join(
                '%s: %s' % (n, brief(x, y)) for n, x, y in zip(('map', 'names', 'area', 'invert', 'partial'), k[1:], list(b)[0][1:]) if x != y) \
                if b else 'query not expected'
    for k in b:
        if k not in a:
            return srcs(code, 'query'), 'query missing'


def v_ungenerated(w, code, spec):
    """blocks marked as not generated keep their data"""
    ws = writes(code)
    for k, d in ws.items():
        o = raw(w, DBQ, k)
        for data, src in d:
            if o.var == 'Ok' and not w.app_('gen', o.get('0')):
                sd = writes(spec).get(k)
                if sd is None or sd[0][0] != data:
                    return src, 'block %s, which is not generated, is written' % k
            if isinstance(data, Q) and not w.app_('gen', data):
                return src, 'the data of a block that is not generated is stored as block %s' % k


def v_only_vacuum(w, code, spec):
    a = [e for e in code if e.name == 'vacuum']
    if len(a) != 1 or a[0].vals[0] != DBQ:
        return srcs(code, 'vacuum'), 'the main map is vacuumed %d times' % len(a)
    for e in code:
        if e.name in ('set_block', 'delete_block', 'query'):
            return e.src, '%s while vacuuming' % e.name


def v_both(*vs):
    def f(w, code, spec):
        for v in vs:
            r = v(w, code, spec)
            if r:
                return r
    return f


def v_all(w, code, spec):
    for x in ('names',) + FIELDS:
        r = cmp_maps(final(w, code, x), final(w, spec, x), x, srcs(code, 'set_block'))
        if r:
            return r


def repeated(b):
    """a name that the block's name table holds more than once"""
    m = path(b, 'nimap')
    m = m.get('0') if isinstance(m, O) else None
    seen = set()
    for v in m.d.values() if isinstance(m, M) else ():
        if v in seen:
            return v
        seen.add(v)


def v_named(w, code, spec):
    """every node ID in a saved block has a name; unselected nodes keep theirs"""
    for k, d in writes(code).items():
        for data, src in d:
            b = decoded(w, data) if data is not None else None
            if b is None:
                continue
            n = names(b)
            if n is UNDEF or UNDEF in n:
                return src, 'block %s is saved with node IDs that have no name' % k
            o = raw(w, DBQ, k)
            old = decoded(w, o.get('0')) if o.var == 'Ok' else None
            x = repeated(b)
            if x is not None and (old is None or repeated(old) is None):
                return src, 'block %s is saved with a name table that lists %s twice' % (k, brief(x, None)[:60])
    return v_fields('names')(w, code, spec)


def terms_of(items, loops=()):
    out = []
    for name, vals, g, nest, src in items:
        out += list(vals) + core.b_support(g)
        for n in nest:
            b = n if isinstance(n, core.T) else n.base
            if b is not None:
                out.append(b)
    for l in loops:
        for m in l.mods.values():
            out += [m[k] for k in ('init', 'next') if k in m]
        for c, st in list(getattr(l, 'outs', ())):
            out += core.b_support(c)
        for c, _ in l.exits:
            out += core.b_support(c)
    return out


def digest(items, loops):
    """fingerprint of the analysed value graphs"""
    idx, gidx, h = {}, {}, hashlib.blake2b(digest_size=16)
    BD = {'b': (0,), 'ite': (0,), 'exists': (1,), 'comp': (1,), 'firstval': (1,), 'mapcomp': (1,), 'mapof': (1,), 'scatter': (2,)}

    def put(tab, k, row):
        tab[k] = len(tab)
        h.update(repr(row).encode())

    def bdd(f):
        if f <= 1:
            return f
        if f not in gidx:
            v, lo, hi = core._nodes[f]
            row = ('g', term(core._atom_of[v]), bdd(lo), bdd(hi))
            put(gidx, f, row)
        return 'g%d' % gidx[f]

    def part(x):
        return term(x) if isinstance(x, core.T) else '(%s)' % ','.join(map(part, x)) if isinstance(x, tuple) else repr(x)

    def term(t):
        if t not in idx:
            b = BD.get(t.op, ())
            row = (t.op,) + tuple(bdd(x) if i in b else part(x) for i, x in enumerate(t.a))
            put(idx, t, row)
        return 't%d' % idx[t]
    for name, vals, g, nest, src in items:
        row = ('item', name, part(tuple(vals)), bdd(g), [part(n) if isinstance(n, core.T) else n.id for n in nest])
        h.update(repr(row).encode())
    for l in loops:
        h.update(repr(('loop', l.id, l.base is not None and term(l.base), bdd(l.more))).encode())
        for k in sorted(l.mods, key=repr):
            h.update(repr(('mod',) + tuple(part(l.mods[k][x]) for x in ('init', 'next') if x in l.mods[k])).encode())
        for c, st in list(getattr(l, 'outs', ())):
            h.update(repr(('out', bdd(c))).encode())
        for c, _ in l.exits:
            h.update(repr(('exit', bdd(c))).encode())
    return h.hexdigest()


def compare(code, spec, types, loops, views, pre=None, n=14, fix=None, seed=0, secs=25, spec_effects=True, known=None):
    """-> ({view name: (seed, source, message)}, worlds, interpreted effects)"""
    pool = rand.Pool(terms_of(code, loops), terms_of(spec), known)

    def work(k, step, t0):
        found, done, neff, und = {}, 0, 0, []
        for i in range(k, n * 6, step):
            if done * step >= n or time.time() - t0 > secs:
                break
            w = rand.World((seed, i) if seed else i, types, loops, fix, pool)
            try:
                with spare(t0, secs):
                    if pre is not None and not pre(w):
                        continue
                    a, b = effects(w, code), effects(w, spec) if spec_effects else []
                    done += 1
                    neff += len(a) + len(b)
                    for nm, v in views.items():
                        if nm not in found:
                            r = v(w, a, b)
                            if r:
                                found[nm] = (i,) + r
            except TimeUp:
                break
            except Undecided as e:
                und.append(str(e))
                if len(und) > 5 and not done:
                    break
            if len(found) == len(views):
                break
        return found, done, neff, und
    found, done, neff, und = {}, 0, 0, []
    for f, d, e, u in parallel(work):
        for nm, x in f.items():
            if nm not in found or x[0] < found[nm][0]:
                found[nm] = x
        done += d
        neff += e
        und += u
    if not found and und and len(und) * 3 > done:
        raise Undecided(und[0])
    if not found and done < 2:
        raise Undecided('no assignment satisfies the precondition')
    return found, done, neff


class TimeUp(BaseException):
    pass


class allow(object):
    """gives the enclosed interpretation so many seconds"""

    def __init__(self, secs):
        self.secs = max(secs, 1)

    def up(self, *a):
        raise TimeUp()

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self.up)
        signal.setitimer(signal.ITIMER_REAL, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def spare(t0, secs):
    """what an interpretation begun now may still take"""
    return allow(secs * 1.5 + 15 - (time.time() - t0))


def parallel(work):
    """work(k, of, start) in forked processes"""
    t0 = time.time()
    n = min(8, os.cpu_count() or 1)
    if n < 2 or os.environ.get('CHECK_SERIAL'):
        return [work(0, 1, t0)]
    kids = []
    for k in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                try:
                    r = work(k, n, t0)
                except Exception as e:
                    r = e
                with os.fdopen(wr, 'wb') as f:
                    try:
                        f.write(pickle.dumps(r))
                    except Exception:
                        f.write(pickle.dumps(Undecided('worker: %r' % (r,))))
            finally:
                os._exit(0)
        os.close(wr)
        kids.append((pid, rd))
    out = []
    for pid, rd in kids:
        with os.fdopen(rd, 'rb') as f:
            b = f.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(b) if b else Undecided('worker died'))
    for r in out:
        if isinstance(r, Exception):
            raise r
    return out
