"""Which blocks query_keys selects."""
import random
import anchors
import fnob
import rand
import spec_codec as S
import views
from check import ob
from fnob import A, Fn, PANIC
from rand import NoneV, Some, Tup, Undecided, O

QK = 'utils::query_keys'
PARAMS = ['db', 'status', 'search_strs', 'area', 'invert', 'include_partial']


def query_fn(ctx):
    def f():
        a = {n: x for n, x in anchors.command_anchors().items()
             if n.endswith('MapDatabase::iter_rows') or 'StatusServer::' in n}
        return Fn(ctx, QK, anchors=a)
    return ctx.once('query_fn', f)


def key(p):
    return p[0] + p[1] * 4096 + p[2] * 4096 * 4096


def unkey(k):
    out = []
    for _ in range(3):
        v = (k + 2048) % 4096 - 2048
        out.append(v)
        k = (k - v) // 4096
    return out


def contained(lo, hi, p):
    return all(l <= c * 16 and c * 16 + 15 <= h for l, h, c in zip(lo, hi, p))


def touched(lo, hi, p):
    return all(l <= c * 16 + 15 and c * 16 <= h for l, h, c in zip(lo, hi, p))


def scene(r, pool):
    S.focus(r, pool)
    b = [S.ror(r, r.choice((0, 0, -1, 3, -1900, 1900, r.randrange(-1936, 1936))), -1936, 1936) for _ in 'xyz']
    k = S.hotn(r, -(1 << 35), 1 << 35)
    if k is not None and abs(k) > 4096:
        b = [max(-1936, min(1936, c)) for c in unkey(k)]
    lo = [x * 16 + r.choice((0, 0, 1, 15, r.randrange(16))) for x in b]
    for i in range(3):
        lo[i] = S.ror(r, lo[i], -30976, 30976)
    hi = [l + S.ror(r, r.choice((0, 1, 14, 15, 16, 31, 47, r.randrange(60))), 0, 4000) for l in lo]
    if r.random() < .3:
        hi[r.randrange(3)] += 400
    names = [bytes(r.choice(b'ab:_z') for _ in range(S.ror(r, r.choice((1, 3, 5, 9)), 1, 300))) for _ in range(S.ror(r, r.choice((0, 0, 1, 1, 2, 3)), 0, 70))]
    names = [bytes(S.rbytes(r, len(n))) if S.FOCB and r.random() < .3 else n for n in names]
    if r.random() < .1:
        names.append(bytes(r.randrange(97, 123) for _ in range(r.choice((255, 256, 300, 1000)))))
    rows = []
    many = r.random() < .03
    for i in range(2200 if many else S.ror(r, r.choice((0, 1, 4, 9, 12)), 0, 1500)):
        k = many or r.random()
        if k < .75:
            p = [r.choice((l // 16, h // 16, l // 16 - 1, h // 16 + 1, (l + h) // 32)) for l, h in zip(lo, hi)]
        else:
            p = [r.choice((-1937, 1936, 0, 0, -1, r.randrange(-2048, 2048))) for _ in 'xyz']
        for j in range(3):
            p[j] = S.ror(r, p[j], -2048, 2047)
        h = S.hotn(r, -(1 << 35) + 1, (1 << 35) - 1)
        if h is not None and abs(h) > 4096:
            p = unkey(h)
        p = [max(-2048, min(2047, c)) for c in p]
        v = S.ror(r, r.choice((0, 24, 25, 27, 28, 28, 28, 29, 29, 30, 200, 255)), 0, 255)
        d = bytes(S.rbytes(r, S.ror(r, r.choice((0, 1, 3, 9)), 0, 5000)) if S.FOC or S.FOCB else
                  [r.randrange(256) for _ in range(r.choice((0, 1, 3, 9)))])
        # 0: nothing, 1: the exact entry, 2: without length, 3: wrong length, 4: prefix of a longer name
        for n in r.sample(names, r.randrange(len(names) + 1)) if names else ():
            how = r.choice((1, 1, 2, 3, 4))
            ln = len(n).to_bytes(2, 'big')
            far = [abs(v) for v in S.FOC if 5000 < abs(v) < 200000]
            if far and len(d) < 5000 and r.random() < .1:
                d += bytes(r.choice(far) + r.randrange(-3, 4))
            d += ln + n if how == 1 else n if how == 2 else bytes((0, len(n) + 1 & 255)) + n if how == 3 else \
                (len(n) + 2).to_bytes(2, 'big') + n + b'xx'
        rows.append((key(p), p, b'' if r.random() < .06 else bytes((v,)) + d))
    far = [abs(v) for v in S.FOC if 1500 < abs(v) < 140000]
    if far and r.random() < .02:
        k = r.choice(far) + 2
        rows += [(i - k // 2, unkey(i - k // 2), b'') for i in range(k)]
    seen, out = set(), []
    for x in rows:
        if x[0] not in seen:
            seen.add(x[0])
            out.append(x)
    area = None if r.random() < .2 else (tuple(lo), tuple(hi))
    return names, area, r.random() < .5 if area else False, r.random() < .5, out


def verdict(names, area, invert, partial, p, d):
    """True: has to be selected, False: must not be, None: either"""
    if area:
        c, t = contained(area[0], area[1], p), touched(area[0], area[1], p)
        if not (((not c) if partial else (not t)) if invert else (t if partial else c)):
            return False
    if not names or not d or d[0] > 28:
        return True
    if any(len(n).to_bytes(2, 'big') + n in d for n in names):
        return True
    return None


@ob('query_keys', 'C22 C09 C10 C23', 'query_keys returns exactly the keys of the rows the selection calls for, each once, '
    'in any order; a block up to version 28 may be left out only when its data has none of the searched names')
def o_query(ctx, prop, res):
    try:
        fn = query_fn(ctx)
    except Undecided as e:
        return res.unk('query_keys', e)
    if fn.names != PARAMS:
        return res.unk('query_keys', 'parameters')
    res.count(functions=1)

    def one(i):
        r = random.Random(repr((ctx.seed, 'query', i)))
        names, area, invert, partial, rows = scene(r, fn.pool())
        vals = [rand.Q('db'), rand.Q('status'), tuple(tuple(n) for n in names), Some(A(*area)) if area else NoneV, invert, partial]
        w = fn.world((ctx.seed, i), vals)
        w.rows = [Tup((k, tuple(d))) for k, p, d in rows]
        ret, _, at = fn.run(vals, w=w, post=False)
        say = 'area %s%s%s, names %s' % (fnob.short(A(*area)) if area else 'none', ' inverted' if invert else '',
                                        ' (partial blocks too)' if partial else '', names)
        if ret is PANIC:
            return 'the query panics: ' + say, at
        if not isinstance(ret, tuple):
            raise Undecided('not a list of keys')
        got = [rand.num(k) for k in ret]
        if len(set(got)) != len(got):
            return 'a block is returned twice: ' + say, None
        if set(got) - {k for k, _, _ in rows}:
            return 'a block that is not saved is returned: ' + say, None
        for k, p, d in rows:
            x = verdict(names, area, invert, partial, p, d)
            if x is not None and (k in got) != x:
                return 'the block at %s (%s) is %s: %s' % (
                    tuple(p), 'data %s' % fnob.short(d, 60), 'skipped although it is selected' if x else 'returned although it is not selected',
                    say), None
        return True
    from ob_codec import much, parallel, verdict as vd
    vd(ctx, res, 'query_keys', fn, parallel(ctx, much(ctx, fn), much(ctx, fn, ctx.secs), one))
