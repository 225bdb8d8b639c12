"""Contracts the command summaries rely on, each against the code that has to keep it."""
import core
import fnob
import rand
from check import ob
from fnob import A, V, Fn, PANIC, sweep, xyz, ends
from rand import O, M, Q, Tup, UNDEF, UNITV, NoneV, Some, Undecided

BU, NM, NI = 'block_utils::', 'map_block::name_id_map::NameIdMap::', 'NameIdMap'
MBT = rand.MBT


def world(ctx, r, fn=None):
    return rand.World(r.randrange(1 << 40), ctx.eng.types, pool=fn and fn.pool())


def gpart(r, w=None):
    """two parts of blocks of the same size"""
    lo, hi, dl, dh = [], [], [], []
    m, foc = r.random(), [abs(v) for v in w.foc if abs(v) <= 16] if w is not None else ()
    for _ in 'xyz':
        n = r.choice((1, 16, 15, 2, r.randrange(1, 17))) if m < .8 else r.choice((1, 1, 2))
        if foc and r.random() < .3:
            n = max(1, r.choice(foc))
        a, b = r.randrange(0, 17 - n), r.randrange(0, 17 - n)
        if m < .15 or m > .9:
            a, b = (0, 16 - n) if m < .05 or m > .95 else (16 - n, 0)
        elif foc and r.random() < .3:
            a = min(r.choice(foc), 16 - n)
        lo.append(a)
        hi.append(a + n - 1)
        dl.append(b)
        dh.append(b + n - 1)
    return A(lo, hi), A(dl, dh)


def post(fn, name):
    """the value a function leaves behind parameter `name`"""
    def f(*vals):
        ret, ps, at = fn.run(list(vals))
        if ret is PANIC:
            return PANIC
        return ps[name]
    f.label, f.where = fn.name, fnob.where(fn)
    return f


def blocks_differ(fields):
    import views

    def f(got, want):
        if got is PANIC:
            return 'function panics'
        if not isinstance(got, O):
            raise Undecided('not a block')
        for x in fields:
            a, b = (views.names(got), views.names(want)) if x == 'names' else (views.path(got, x), views.path(want, x))
            if a != b:
                if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                    i = [i for i in range(len(a)) if a[i] != b[i]][0]
                    return '%s of node %d is %s, should be %s' % (x, i, fnob.short(named(a[i])), fnob.short(named(b[i])))
                return '%s is %s, should be %s' % (x, fnob.short(a), fnob.short(b))
    return f


def named(v):
    if isinstance(v, tuple) and v and all(isinstance(c, int) for c in v):
        return bytes(c & 255 for c in v).decode('latin1')
    return v


import views  # noqa: E402
ALL = ('names',) + views.FIELDS


def mapdiff(got, want):
    if got is PANIC:
        return 'function panics'
    if got == want:
        return
    if not isinstance(got, M):
        raise Undecided('not a map')
    for k in sorted(set(got.d) | set(want.d)):
        a, b = got.d.get(k), want.d.get(k)
        if a != b:
            return 'entry %s is %s, should be %s' % (k, 'absent' if a is None else 'present' if b is None else 'different',
                                                      'absent' if b is None else 'there' if a is None else 'as given')


@ob('merge_blocks', 'C12 C13 C14 C11', 'merge_blocks copies names, param1 and param2 of the source part to the destination '
    'part and leaves the rest')
def o_merge(ctx, prop, res):
    try:
        fn = Fn(ctx, BU + 'merge_blocks')
    except Undecided as e:
        return res.unk('merge_blocks', e)
    if not {'src_block', 'dst_block'} <= set(fn.names) or len(fn.names) != 4:
        return res.unk('merge_blocks', 'parameters')
    i = [fn.names.index(n) if n in fn.names else k for k, n in enumerate(('src_block', 'dst_block', 'src_area', 'dst_area'))]

    def gen(r):
        w = world(ctx, r, fn)
        sa, da = gpart(r, w)
        v = {i[0]: w.genblock(r, 's'), i[1]: w.genblock(r, 'd'), i[2]: sa, i[3]: da}
        return tuple(v[k] for k in range(4))
    res.count(functions=1)
    sweep(ctx, res, 'merge_blocks', post(fn, 'dst_block'), gen,
          lambda *v: rand.World(0, ctx.eng.types).c_merge_blocks(*[v[k] for k in i]), n=ctx.worlds // 3,
          cmpf=blocks_differ(ALL))


@ob('merge_metadata', 'C12 C13 C11', 'merge_metadata replaces the metadata of the destination part by that of the source part')
def o_mmeta(ctx, prop, res):
    try:
        fn = Fn(ctx, BU + 'merge_metadata')
    except Undecided as e:
        return res.unk('merge_metadata', e)
    if fn.names != ['src_meta', 'dst_meta', 'src_area', 'dst_area']:
        return res.unk('merge_metadata', 'parameters')

    def meta(w, r, a, k):
        d = {}
        lo, hi = ends(a)
        for i in range(w.length(r, 40, (0, 1, 2, 4, 8))):
            if r.random() < .6:
                p = [r.choice((l, h, r.randrange(l, h + 1))) + r.choice((0, 0, 0, 1, -1)) for l, h in zip(lo, hi)]
                p = [max(0, min(15, c)) for c in p]
                x = p[0] + 16 * p[1] + 256 * p[2]
            else:
                x = w.near(r, (0, 0, 0)) if w.foc else r.randrange(4096)
            d[x] = w.gen('map_block::metadata::NodeMetadata', (k, i))
        return M(d)

    def gen(r):
        w = world(ctx, r, fn)
        sa, da = gpart(r, w)
        return meta(w, r, sa, 's'), meta(w, r, da, 'd'), sa, da
    res.count(functions=1)
    sweep(ctx, res, 'merge_metadata', post(fn, 'dst_meta'), gen, rand.World(0, ctx.eng.types).c_merge_metadata, cmpf=mapdiff)


def gaps(w, r, b):
    """the same block with gaps, unused and duplicate names in its name-ID map"""
    m, nd = b.get('nimap').get('0').d, b.get('node_data')
    to, new, nxt = {}, {}, r.choice((0, 0, 1, 3))
    for k in sorted(m):
        to[k] = [nxt]
        new[nxt] = m[k]
        nxt += r.choice((1, 1, 1, 2, 4))
        if r.random() < .4:
            if r.random() < .7:
                to[k].append(nxt)
            new[nxt] = m[k]
            nxt += 1
    if r.random() < .3:
        new[nxt] = (117, 110, 117, 115)
    b = w.setf(b, ('f', 'nimap'), O(NI, NI, {'0': M(new)}))
    return w.setf(b, ('f', 'node_data'), w.setf(nd, ('f', 'nodes'), tuple(r.choice(to[x]) for x in nd.get('nodes'))))


def many(w, r, b):
    """a block with a long name-ID map, the last names repeating early ones"""
    n = r.choice([abs(v) for v in w.foc if 2 < abs(v) < 600] or [256]) + r.randrange(1, 6)
    ns = [tuple(b'n%d' % i) for i in range(n)]
    m = dict(enumerate(ns + [r.choice((ns[r.randrange(n)], ns[-1], ns[0])) for _ in range(r.randrange(4))]))
    if r.random() < .3:
        m = {k + 1: v for k, v in m.items()}
    nodes = list(m) * (4096 // len(m)) + list(m)[:4096 % len(m)]
    r.shuffle(nodes)
    b = w.setf(b, ('f', 'nimap'), O(NI, NI, {'0': M(m)}))
    return w.setf(b, ('f', 'node_data'), w.setf(b.get('node_data'), ('f', 'nodes'), tuple(nodes)))


@ob('clean_name_id_map', 'C12 C13 C14 C10', 'clean_name_id_map keeps every node\'s name and leaves each name once, used, '
    'under consecutive IDs')
def o_clean(ctx, prop, res):
    try:
        fn = Fn(ctx, BU + 'clean_name_id_map')
    except Undecided as e:
        return res.unk('clean_name_id_map', e)
    if len(fn.names) != 1:
        return res.unk('clean_name_id_map', 'parameters')

    def gen(r):
        w = world(ctx, r, fn)
        b = w.genblock(r, 'b')
        if r.random() < (.4 if w.foc else .04):
            return (many(w, r, b),)
        return (gaps(w, r, b) if r.random() < .8 else b,)

    def cmp_(got, want):
        m = blocks_differ(ALL)(got, want)
        if m:
            return m
        ids = got.get('nimap').get('0').d
        if len(set(ids.values())) != len(ids):
            return 'name-ID map still has duplicate names'
        if set(ids) != set(got.get('node_data').get('nodes')):
            return 'name-ID map has IDs no node uses'
        if sorted(ids) != list(range(len(ids))):
            return 'IDs are not consecutive'
    res.count(functions=1)
    sweep(ctx, res, 'clean_name_id_map', post(fn, fn.names[0]), gen, lambda b: b, n=ctx.worlds // 3, cmpf=cmp_)


@ob('name_id_map', 'C10 C12 C13 C14 C22', 'get_id finds a name, get_max_id the largest ID, remove_shift removes one ID '
    'and closes the gap')
def o_nimap(ctx, prop, res):
    cur = [None]

    def nim(r):
        w = world(ctx, r, cur[0])
        n = w.length(r, 300, (0, 1, 2, 3, 5))
        ids = sorted(r.sample(range(n * 2 + 1), n)) if r.random() < .3 else list(range(n))
        pool = w.names + [(97, 98), (97,)]
        pool += [(98, 48 + i // 256 % 10, i % 256) for i in range(n - len(pool))]
        return O(NI, NI, {'0': M({i: r.choice(pool) if r.random() < .2 else pool[k % len(pool)] for k, i in enumerate(ids)})}), pool

    def g_id(r):
        m, pool = nim(r)
        return m, r.choice(pool)

    def g_rs(r):
        m, _ = nim(r)
        if not m.get('0').d:
            return m, 0
        return m, r.choice(sorted(m.get('0').d))

    def o_id(m, n):
        k = sorted(k for k, v in m.get('0').d.items() if v == n)
        return Some(k[0]) if k else NoneV
    w0 = rand.World(0, ctx.eng.types)
    for name, gen, orc, ps in (
            ('get_id', g_id, o_id, None),
            ('get_max_id', lambda r: (nim(r)[0],), lambda m: Some(max(m.get('0').d)) if m.get('0').d else NoneV, None),
            ('remove_shift', g_rs, lambda m, i: w0.app_('remove_shift', m, i) if i in m.get('0').d else None, 'self')):
        try:
            fn = Fn(ctx, NM + name)
        except Undecided as e:
            res.unk(name, e)
            continue
        cur[0] = fn
        res.count(functions=1)
        f = post(fn, ps) if ps else fn
        sweep(ctx, res, name, f, gen, orc, cmpf=(lambda g, w: mapdiff(g.get('0') if isinstance(g, O) else g, w.get('0'))) if ps else None)


@ob('cache', 'C12 C13', 'a cache hit returns what was stored under that key last')
def o_cache(ctx, prop, res):
    C = 'utils::CacheMap::'
    try:
        new, get, ins = [Fn(ctx, C + n) for n in ('with_capacity', 'get', 'insert')]
    except Undecided as e:
        return res.unk('CacheMap', e)
    res.count(functions=3)

    def history(cap, ops):
        st, _, _ = new.run([cap])
        out = []
        for op, k, v in ops:
            if op == 'get':
                x, ps, _ = get.run([st, k])
                if x is PANIC:
                    return PANIC
                out.append(x)
            else:
                x, ps, _ = ins.run([st, k, v])
                if x is PANIC:
                    return PANIC
            st = ps.get('self', st)
        return tuple(out)
    history.label, history.where = 'CacheMap', fnob.where(get)

    def gen(r):
        w = world(ctx, r, r.choice((new, get, ins)))
        cap = max(1, w.length(r, 40, (1, 2, 3, 5)))
        n = r.randrange(4, 16) if cap < 8 else 3 * cap
        return cap, tuple((r.choice(('get', 'insert')), r.randrange(cap + 3), Q(('v', i))) for i in range(n))

    def orc(cap, ops):
        d, out = {}, []
        for op, k, v in ops:
            if op == 'get':
                out.append(d.get(k))
            else:
                d[k] = v
        return tuple(out)

    def cmp_(got, want):
        if got is PANIC:
            return 'cache panics'
        for a, b in zip(got, want):
            if not isinstance(a, O):
                raise Undecided('cache result')
            if a.var == 'Some' and (b is None or a.get('0') != b):
                return 'cache returns %s for a key last stored as %s' % (a.get('0'), b)
    sweep(ctx, res, 'CacheMap', history, gen, orc, n=ctx.worlds // 2, cmpf=cmp_)
