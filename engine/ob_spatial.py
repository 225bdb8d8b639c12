"""C24: coordinate and area arithmetic (and the contracts the command summaries use for it)."""
import core
import fnob
import rand
import spec_cmd
from core import *
from check import ob
from fnob import A, V, V3T, AT, Fn, PANIC, xyz, ends, sweep, proved
from lib import dive, reme
from rand import O, NoneV, Some, Undecided
from spec_cmd import Box, V3, box, v3

L = 31000
SP = 'spatial::'


def coord(r, pool=None, lim=L):
    m = r.random()
    if pool is not None and m < .15:
        v = pool.pick(r, -lim, lim)
        if v is not None:
            return v
    if m < .5:
        v = 16 * r.randrange(-6, 7) + r.choice((0, 0, -1, 1, 15, 7))
    elif m < .6:
        v = r.choice((-1, 1)) * (lim - r.choice((0, 0, 1, 15, 16, r.randrange(40))))
    elif m < .8:
        v = r.randrange(-40, 40)
    else:
        v = r.randrange(-lim, lim + 1)
    return max(-lim, min(lim, v))


def gvec(r, pool=None, lim=L):
    return V(*[coord(r, pool, lim) for _ in 'xyz'])


def near(r, lo, hi, lim=L):
    """a coordinate around [lo, hi]"""
    v = r.choice((lo, hi, (lo + hi) // 2)) + r.choice((0, 0, -1, 1, -16, 16, 15, -15, r.randrange(-20, 20)))
    return max(-lim, min(lim, v))


def garea(r, pool=None, lim=L, small=0, hot=()):
    lo, hi, long = [], [], hot and r.randrange(9)
    wide = 0 if small or r.random() < .9 else r.choice((3, 5, 6, 7))
    for i in range(3):
        a = coord(r, pool, lim)
        if wide >> i & 1:       # from one end of the map to the other
            lo.append(-lim + r.choice((0, 0, r.randrange(50))))
            hi.append(lim - r.choice((0, 0, r.randrange(50))))
            continue
        if small:
            b = a + r.choice((0, 1, r.randrange(small)))
            if hot and i == long:
                b = a + max(0, min(400, abs(r.choice(hot)) + r.choice((0, 1, -1, -2))))
        else:
            b = r.choice((a, a + 15, a + 16, a + r.randrange(50), coord(r, pool, lim)))
        b = max(-lim, min(lim, b))
        lo.append(min(a, b))
        hi.append(max(a, b))
    return A(lo, hi)


def gblock(r, a):
    lo, hi = ends(a)
    return V(*[near(r, l, h) // 16 for l, h in zip(lo, hi)])


def opt_area(lo, hi):
    return Some(A(lo, hi)) if all(a <= b for a, b in zip(lo, hi)) else NoneV


# -------------------------------------------------------------- term specifications
def vt(v):
    return adt(V3T, 'Vec3', ('x', 'y', 'z'), v.c)


def opt(b):
    return ite(b_and(*[le(l, h) for l, h in zip(b.lo.c, b.hi.c)]), some(b.term()), NONE)


def S(n):
    return mk('sym', n)


def mm(f, a, b):
    return V3(*[fn2(f, x, y) for x, y in zip(a.c, b.c)])


def fdiv(v, k=0):
    return V3(*[dive(add(x, Int(k)), Int(16)) for x in v.c])


LIM = {'spatial::vec3::Vec3::is_valid_block_pos': 1937, 'spatial::vec3::Vec3::is_valid_node_pos': L}


def bl(g):
    return mk('b', g) if isinstance(g, int) else g


def specs():
    s, p = lambda: box(S('self')), lambda n: v3(S(n))

    def lim(k):
        return B(b_and(*[b_and(le(Int(-k), x), le(x, Int(k))) for x in p('self').c]))
    def unkey():
        k = S('key')
        y = dive(add(k, Int(2048)), Int(4096))
        z = dive(add(y, Int(2048)), Int(4096))
        cs = sub(k, scale(y, 4096)), sub(y, scale(z, 4096)), z
        return vt(V3(*[mk('trunc', 'i32', 32, c) for c in cs]))
    out = {
        'vec3::Vec3::from_block_key': unkey,
        'vec3::Vec3::is_valid_block_pos': lambda: lim(1937),
        'vec3::Vec3::is_valid_node_pos': lambda: lim(L),
        'vec3::Vec3::to_block_key': lambda: add(add(p('self').c[0], scale(p('self').c[1], 4096)), scale(p('self').c[2], 1 << 24)),
        'area::Area::is_valid': lambda: B(b_and(*[le(l, h) for l, h in zip(s().lo.c, s().hi.c)])),
        'area::Area::from_unsorted': lambda: Box(mm('min', p('a'), p('b')), mm('max', p('a'), p('b'))).term(),
        'area::Area::volume': lambda: s().volume(),
        'area::Area::intersection': lambda: opt(Box(mm('max', s().lo, box(S('rhs')).lo), mm('min', s().hi, box(S('rhs')).hi))),
        'area::Area::contains': lambda: B(s().contains(p('pos'))),
        'area::Area::contains_block': lambda: B(s().contains_block(p('block_pos'))),
        'area::Area::touches_block': lambda: B(s().touches_block(p('block_pos'))),
        'area::Area::to_contained_block_area': lambda: opt(Box(fdiv(s().lo, 15), fdiv(s().hi, -15))),
        'area::Area::to_touching_block_area': lambda: Box(fdiv(s().lo), fdiv(s().hi)).term(),
        'area::Area::abs_block_overlap': lambda: opt(s().abs(p('block_pos'))),
        'area::Area::rel_block_overlap': lambda: opt(s().rel(p('block_pos'))),
        'area::Area as Add<Vec3>::add': lambda: (s() + p('rhs')).term(),
        'area::Area as Sub<Vec3>::sub': lambda: (s() - p('rhs')).term(),
        'vec3::Vec3 as Add::add': lambda: vt(p('self') + p('rhs')),
        'vec3::Vec3 as Sub::sub': lambda: vt(p('self') - p('rhs')),
        'vec3::Vec3 as Add<i32>::add': lambda: vt(V3(*[add(x, S('rhs')) for x in p('self').c])),
        'vec3::Vec3 as Sub<i32>::sub': lambda: vt(V3(*[sub(x, S('rhs')) for x in p('self').c])),
        'vec3::Vec3 as Mul<i32>::mul': lambda: vt(V3(*[mul(x, S('rhs')) for x in p('self').c])),
    }
    return out


# -------------------------------------------------------------- value specifications
def o_from_block_key(k):
    x = (k + 2048) % 4096 - 2048
    k = (k - x) // 4096
    y = (k + 2048) % 4096 - 2048
    return V(x, y, (k - y) // 4096)


def ov(f):
    def g(a, b):
        b = xyz(b) if isinstance(b, O) else (b,) * 3
        return V(*[f(x, y) for x, y in zip(xyz(a), b)])
    return g


def o_contains(a, p):
    lo, hi = ends(a)
    return all(l <= x <= h for l, x, h in zip(lo, xyz(p), hi))


def o_cblock(a, b):
    lo, hi = ends(a)
    return all(l <= 16 * x and 16 * x + 15 <= h for l, x, h in zip(lo, xyz(b), hi))


def o_tblock(a, b):
    lo, hi = ends(a)
    return all(l <= 16 * x + 15 and 16 * x <= h for l, x, h in zip(lo, xyz(b), hi))


def o_abs(a, b):
    lo, hi = ends(a)
    b = xyz(b)
    return opt_area([max(l, 16 * x) for l, x in zip(lo, b)], [min(h, 16 * x + 15) for h, x in zip(hi, b)])


def o_rel(a, b):
    lo, hi = ends(a)
    b = xyz(b)
    return opt_area([max(l - 16 * x, 0) for l, x in zip(lo, b)], [min(h - 16 * x, 15) for h, x in zip(hi, b)])


def o_vol(a):
    n = 1
    for l, h in zip(*ends(a)):
        n *= h - l + 1
    return n


def o_unsorted(a, b):
    a, b = xyz(a), xyz(b)
    return A([min(p) for p in zip(a, b)], [max(p) for p in zip(a, b)])


def o_shift(k):
    def f(a, o):
        lo, hi = ends(a)
        o = xyz(o)
        return A([x + k * y for x, y in zip(lo, o)], [x + k * y for x, y in zip(hi, o)])
    return f


def value_specs():
    def pair(r, q):
        if r.random() < .5:      # faces of the area around the faces of the block
            b = [coord(r, q) // 16 for _ in 'xyz']
            one, lo, hi = r.randrange(3), [], []
            for i, x in enumerate(b):
                x *= 16
                d = (0, 0, 1, -1, 15, 14, 16, -15, -16) if i == one else (0, 0, -1, -20)
                lo.append(x + r.choice(d))
                hi.append(max(lo[-1], x + 15 - r.choice(d)))
            return A(lo, hi), V(*b)
        a = garea(r, q)
        return a, gblock(r, a)

    def pos(r, q):
        a = garea(r, q)
        lo, hi = ends(a)
        return a, V(*[near(r, l, h) for l, h in zip(lo, hi)])

    def two(r, q):
        a = garea(r, q)
        lo, hi = ends(a)
        p, b = [[near(r, l, h) for l, h in zip(lo, hi)] for _ in 'ab']
        return a, A([min(z) for z in zip(p, b)], [max(z) for z in zip(p, b)])

    def one(r, q):
        return (garea(r, q),)

    def unsorted(r, q):
        a, b = gvec(r, q), gvec(r, q)
        return a, V(*[r.choice((x, y, x + 1, x - 1)) for x, y in zip(xyz(a), xyz(b))])

    def wild(r, q):
        a, b = unsorted(r, q)
        return (O(AT, 'Area', {'min': a, 'max': b}),)

    def vv(r, q):
        return gvec(r, q), gvec(r, q)

    def vi(r, q):
        return gvec(r, q, 2000), r.choice((16, 15, 1, -1, 0, coord(r, q, 200)))

    def v1(lim):
        def f(r, q):
            return (V(*[r.choice((coord(r, q), r.choice((-1, 1)) * (lim + r.choice((0, 0, 1, -1, 2, 15))))) for _ in 'xyz']),)
        return f

    def isect(a, b):
        (l, h), (m, k) = ends(a), ends(b)
        return opt_area([max(x) for x in zip(l, m)], [min(x) for x in zip(h, k)])

    def blk(r, q):
        return (V(*[r.choice((coord(r, q, 2047), -2048, 2047)) for _ in 'xyz']),)

    def okey(v):
        x, y, z = xyz(v)
        return x + y * 4096 + z * 4096 * 4096

    def lim(k):
        return lambda v: all(-k <= x <= k for x in xyz(v))
    return {
        'vec3::Vec3::from_block_key': (lambda r, q: (okey(blk(r, q)[0]),), o_from_block_key),
        'vec3::Vec3::to_block_key': (blk, okey),
        'vec3::Vec3::from_u16_key': (lambda r, q: (r.randrange(4096),), lambda k: V(k % 16, k // 16 % 16, k // 256)),
        'vec3::Vec3::is_valid_block_pos': (v1(1937), lim(1937)),
        'vec3::Vec3::is_valid_node_pos': (v1(L), lim(L)),
        'vec3::Vec3 as Add::add': (vv, ov(lambda x, y: x + y)),
        'vec3::Vec3 as Sub::sub': (vv, ov(lambda x, y: x - y)),
        'vec3::Vec3 as Mul::mul': (lambda r, q: (gvec(r, q, 2000), gvec(r, q, 20)), ov(lambda x, y: x * y)),
        'vec3::Vec3 as Add<i32>::add': (vi, ov(lambda x, y: x + y)),
        'vec3::Vec3 as Sub<i32>::sub': (vi, ov(lambda x, y: x - y)),
        'vec3::Vec3 as Mul<i32>::mul': (vi, ov(lambda x, y: x * y)),
        'area::Area::is_valid': (wild, lambda a: all(l <= h for l, h in zip(*ends(a)))),
        'area::Area::from_unsorted': (unsorted, o_unsorted),
        'area::Area::volume': (one, o_vol),
        'area::Area::intersection': (two, isect),
        'area::Area::contains': (pos, o_contains),
        'area::Area::contains_block': (pair, o_cblock),
        'area::Area::touches_block': (pair, o_tblock),
        'area::Area::to_contained_block_area': (one, lambda a: opt_area(*[[(x + k) // 16 for x in e] for e, k in zip(ends(a), (15, -15))])),
        'area::Area::to_touching_block_area': (one, lambda a: A(*[[x // 16 for x in e] for e in ends(a)])),
        'area::Area::abs_block_overlap': (pair, o_abs),
        'area::Area::rel_block_overlap': (pair, o_rel),
        'area::Area as Add<Vec3>::add': (vv2, o_shift(1)),
        'area::Area as Sub<Vec3>::sub': (vv2, o_shift(-1)),
    }


def vv2(r, q):
    return garea(r, q), gvec(r, q)


@ob('spatial', 'C24', 'each coordinate and area function computes its mathematical definition for every position within '
    'the map limits')
def o_spatial(ctx, prop, res):
    terms, vals = specs(), value_specs()
    for n in sorted(vals):
        part = n.replace('area::Area', 'Area').replace('vec3::Vec3', 'Vec3')
        try:
            fn = Fn(ctx, SP + n)
        except Undecided as e:
            res.unk(part, e)
            continue
        res.count(functions=1)
        if n in terms and not fn_traps(fn, n) and proved(ctx, res, part, fn, terms[n]()):
            if not fn.arith:
                continue
            part += ' without overflow'
        gen, orc = vals[n]
        pool = rand.Pool([fn.s.ret])
        sweep(ctx, res, part, fn, lambda r: gen(r, pool), orc)


def fn_traps(fn, n):
    """panics other than the range check of to_block_key"""
    return bool(fn.stops) and not n.endswith('to_block_key')


class Iter(object):
    """the sequence a (new, next) pair of summaries yields"""

    def __init__(self, ctx, new, nxt, label):
        self.new, self.next = Fn(ctx, new), Fn(ctx, nxt)
        self.label, self.where = label, '%s (%s)' % (self.next.s.span, nxt)
        if len(self.next.post) != 1:
            raise Undecided('iterator state')
        self.state = list(self.next.post)[0]
        self.hot = [v for f in (self.new, self.next) for v in f.pool().hot]

    def __call__(self, a, cap=5000):
        st, _, at = self.new.run([a])
        if st is PANIC:
            return PANIC
        out = []
        while len(out) < cap:
            x, post, at = self.next.run([st])
            if x is PANIC:
                return PANIC
            if not isinstance(x, O):
                raise Undecided('iterator result')
            if x.var == 'None':
                return tuple(out)
            out.append(x.get('0'))
            st = post[self.state]
        return tuple(out) + ('...',)


def seqdiff(got, want):
    if got == want:
        return
    if got is PANIC:
        return 'iteration panics'
    for i, (a, b) in enumerate(zip(got + (None,), want + (None,))):
        if a != b:
            return 'iteration yields %s as element %d, should yield %s' % (fnob.short(a), i, fnob.short(b))


@ob('iterators', 'C24 C09 C10', 'iterating over an area yields each of its positions once, iterating over the rest of a '
    'block yields each other index once')
def o_iter(ctx, prop, res):
    try:
        it = Iter(ctx, SP + 'area::Area as IntoIterator::into_iter', SP + 'area::AreaIterator as Iterator::next', 'iterating over an area')
        sweep(ctx, res, 'AreaIterator', it, lambda r: (garea(r, it.next.pool(), small=5, hot=it.hot),),
              lambda a: tuple(V(x, y, z) for z in span(a, 'z') for y in span(a, 'y') for x in span(a, 'x')),
              n=ctx.worlds // 5, cmpf=seqdiff)
    except Undecided as e:
        res.unk('AreaIterator', e)
    try:
        it = Iter(ctx, SP + 'InverseBlockIterator::new', SP + 'InverseBlockIterator as Iterator::next', 'iterating over the rest of a block')
        sweep(ctx, res, 'InverseBlockIterator', it, lambda r: ginner(r, it.hot),
              lambda a: tuple(i for i in range(4096) if not o_contains(a, V(i % 16, i // 16 % 16, i // 256))),
              n=ctx.worlds // 5, cmpf=seqdiff)
    except Undecided as e:
        res.unk('InverseBlockIterator', e)


def ginner(r, hot=()):
    hot = [abs(v) + d for v in hot for d in (0, 1, -1) if 0 <= abs(v) + d < 16]
    lo, hi = [], []
    big = r.random() < .5
    for i in range(3):
        a, b = sorted((r.choice((0, 0, 15, r.randrange(16))), r.choice((15, 15, 0, r.randrange(16)))))
        if big and (i or r.random() < .3):
            a, b = r.choice(((0, 15), (1, 15), (0, 14), (a, b)))
        if hot and r.random() < .3:
            a = r.choice(hot)
            b = max(b, r.choice([a, 15] + hot))
        a, b = min(a, b), max(a, b)
        lo.append(a)
        hi.append(b)
    return (A(lo, hi),)


def span(a, c):
    return range(a.get('min').get(c), a.get('max').get(c) + 1)
