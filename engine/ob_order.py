"""An overlapping clone reads every block before it rewrites it."""
import random
import core
import ob_cmd
import rand
import trace
import views
from check import ob
from rand import O, Q, Ok, Some, Undecided


class CloneWorld(rand.World):
    """every block is saved and readable, nothing is found in the cache (it may always have been evicted)"""

    def app(self, n, a, t, fr):
        if n == 'cachehit':
            return False
        if n == 'gen':
            return True
        if n == 'deser':
            return Ok(Q(('orig', self.ev(a[0], fr))))
        if n in ('clean', 'merge_blocks', 'merge_metadata', 'ser', 'get_id', 'max_id', 'remove_shift'):
            return Q((n,) + tuple(rand.hash_of(self.ev(x, fr)) for x in a))
        return super().app(n, a, t, fr)

    def present(self, db, k):
        return True


def original(v, depth=0):
    """the stored data or the block read from it, however wrapped"""
    if isinstance(v, O):
        if v.var in ('Some', 'Ok'):
            return original(v.get('0'))
        return v.var in ('None', 'Err')
    if isinstance(v, Q):
        return isinstance(v.k, tuple) and v.k[0] in ('orig', 'blk')
    return False


def blockof(v):
    while isinstance(v, O) and v.var in ('Some', 'Ok'):
        v = v.get('0')
    while isinstance(v, Q) and isinstance(v.k, tuple) and v.k[0] in ('orig',):
        v = v.k[1]
        v = v if isinstance(v, Q) else Q(v)
    if isinstance(v, Q) and isinstance(v.k, tuple) and v.k[0] == 'blk':
        return v.k[2]


def sel(ev):
    if ev.kind == 'db' and ev.name in ('get_block', 'set_block', 'delete_block'):
        return ev.name, ev.vals[:2]
    if ev.kind == 'call' and ev.name == 'cache_insert':
        return ev.name, ev.vals


def order(ctx, res, name, rewritten):
    fn, s = ob_cmd.summary(ctx, name)
    if fn is None:
        return res.unk(name, 'no function found for the command in the command table')
    if s.unk:
        return res.unk(name, 'unmodelled: %s' % ', '.join(sorted(s.unk))[:200])
    items = trace.select(s, sel)
    loops, byid, first = trace.prepare(s, items)
    res.count(functions=1, effect_sites=len(items))
    hot = rand.Pool(views.terms_of(ob_cmd.items_code(s), s.loops), views.terms_of(ob_cmd.items_spec(ob_cmd.spec_of(name)))).hot

    def one(i):
        r = random.Random(repr((ctx.seed, 'order', i)))
        w = CloneWorld((ctx.seed, 'order', i), ctx.eng.types, loops, ob_cmd.fixes(name))
        w.org = [0, 0, 0]
        w.box = [(x, x + r.choice((0, 15, 16, 30, 40))) for x in [r.randrange(-20, 20) for _ in 'xyz']]
        w.off = [r.choice((0, 0, 1, -1, 16, -16, 5, -7, 20, -20, r.randrange(-36, 37))) for _ in 'xyz']
        if r.random() < .2:
            o = [r.choice((-1, 1)) * r.choice((1930, 1934, 1000)) * 16 for _ in 'xyz']
            w.box = [(p + d, q + d) for (p, q), d in zip(w.box, o)]
        elif hot and r.random() < .7:
            v = r.choice(hot) * r.choice((1, -1))
            o = w.unkey(v) if r.random() < .6 or abs(v) > 1930 else [v if r.random() < .5 else 0 for _ in 'xyz']
            w.box = [(p + 16 * d, q + 16 * d) for (p, q), d in zip(w.box, o)]
        rs = [range(min(p, p + d) // 16, max(q, q + d) // 16 + 1) for (p, q), d in zip(w.box, w.off)]
        w.blocks = [(x, y, z) for x in rs[0] for y in rs[1] for z in rs[2]]
        if any(abs(c) > 1937 for p in w.blocks for c in p) or len(w.blocks) > 200:
            return None
        say = 'area %s, offset %s' % (' '.join('%d..%d' % b for b in w.box), tuple(w.off))
        written, n = {}, 0
        for e in trace.trace(w, items, byid, first):
            k = e.vals[1] if e.name != 'cache_insert' else e.vals[0]
            src = '%s (%s)' % (e.e.span, e.e.fn)
            n += 1
            if e.name == 'cache_insert':
                if not original(e.vals[1]):
                    return '%s caches a changed block: %s' % (name, say), src
                if blockof(e.vals[1]) not in (None, k):
                    return '%s caches block %s under the key of another block: %s' % (name, blockof(e.vals[1]), say), src
            elif e.name == 'get_block' and k in written and rewritten:
                return '%s reads block %s after rewriting it: %s' % (name, w.unkey(k), say), src
            elif e.name == 'set_block':
                written[k] = 1
        return True if n else None
    from ob_codec import parallel
    done, hit, und = parallel(ctx, ctx.worlds // 3, ctx.secs * 2, one)
    res.count(assignments=done)
    if hit:
        res.bad(name + '.order', hit[0], hit[1])
    elif len(und) * 3 > done or done < 5:
        res.unk(name + '.order', und[0] if und else 'no assignment')
    else:
        res.ok(name + '.order', 'random interpretation of the ordered trace')


@ob('clone.order', 'C20 C12 C13', 'in the interpreted trace of clone (every lookup a cache miss) no block is read from the map '
    'after it was rewritten, and only blocks as read from the map are cached, each under its own key')
def o_order(ctx, prop, res):
    order(ctx, res, 'clone', True)


@ob('overlay.cache', 'C12 C13 C03', 'in the interpreted trace of overlay (every lookup a cache miss) only blocks as read from the map '
    'are cached, each under its own key')
def o_cached(ctx, prop, res):
    order(ctx, res, 'overlay', False)
