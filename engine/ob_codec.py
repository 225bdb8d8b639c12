"""Reading and writing mapblocks against the format (spec_codec)."""
import time
import random
import core
import fnob
import rand
import views
import spec_codec as S
from check import ob
from fnob import Fn, PANIC
from rand import O, M, Q, Tup, UNINIT, Uninit, Undecided, Ok, Err

D = 'map_block::map_block::MapBlock::deserialize'
W = 'map_block::map_block::MapBlock::serialize'
G = 'map_block::map_block::is_valid_generated'
L = 'map_block::static_object::LuaEntityData::deserialize'


def fn(ctx, name):
    return ctx.once(('codec', name), lambda: Fn(ctx, name))


def parallel(ctx, n, secs, one):
    """one(i) -> None | finding; returns (assignments, first finding, undecided)"""
    def work(k, step, t0):
        done, und = 0, []
        for i in range(k, n, step):
            if time.time() - t0 > secs:
                break
            try:
                with views.spare(t0, secs):
                    x = one(i)
            except views.TimeUp:
                break
            except Undecided as e:
                und.append(str(e) or 'undecided')
                if len(und) > 8 and not done:
                    break
                continue
            if x is None:
                continue
            done += 1
            if x is not True:
                return done, (i, x), und
        return done, None, und
    done, und, hit = 0, [], None
    for d, h, u in views.parallel(work):
        done += d
        und += u
        if h and (hit is None or h[0] < hit[0]):
            hit = h
    return done, hit and hit[1], und


def much(ctx, f, n=None):
    """more where the function uses constants it is not known to use"""
    n = n or ctx.worlds
    return n if f.pool().none else n * 3


def verdict(ctx, res, part, f, out):
    done, hit, und = out
    res.count(assignments=done)
    if hit:
        res.bad(part, hit[0] if isinstance(hit, tuple) else hit, hit[1] if isinstance(hit, tuple) and hit[1] else fnob.where(f))
    elif len(und) * 3 > done or done < 5:
        res.unk(part, und[0] if und else 'no assignment')
    else:
        res.ok(part, 'random interpretation of the value graph')


def diff(a, b, path=''):
    """first difference of two values, for the message"""
    if isinstance(a, O) and isinstance(b, O) and a.var == b.var:
        for k in b.f:
            if a.get(k) != b.f[k]:
                return diff(a.get(k), b.f[k], path + '.' + k)
    if isinstance(a, M) and isinstance(b, M):
        for k in sorted(set(a.d) | set(b.d), key=repr):
            if a.d.get(k) != b.d.get(k):
                return diff(a.d.get(k), b.d.get(k), path + '[%s]' % fnob.short(k, 40))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return '%s has %d elements, should have %d' % (path or 'it', len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + '[%d]' % i)
    return '%s is %s, should be %s' % (path or 'it', fnob.short(a, 60), fnob.short(b, 60))


def has_uninit(v, seen=None):
    if v is UNINIT:
        return True
    if isinstance(v, O):
        return any(has_uninit(x) for x in v.f.values())
    if isinstance(v, M):
        return any(has_uninit(x) or has_uninit(k) for k, x in v.d.items())
    if isinstance(v, tuple):
        return any(x is UNINIT or isinstance(x, (tuple, O, M)) and has_uninit(x) for x in v)
    return False


# ------------------------------------------------------------------ writing
@ob('codec.write', 'C05 C06', 'For every supported version the writer\'s value graph, interpreted on random blocks, is a '
    'sequence that the documented format decodes to the same block (entries without variables and inventory lists '
    'dropped): field order, widths, byte order, counts, length prefixes, compression framing, nothing left over')
def write(ctx, prop, res):
    f = fn(ctx, W)
    for v in (25, 27, 28, 29):
        def one(i):
            r = random.Random(repr((ctx.seed, 'w', v, i)))
            S.focus(r, f.pool())
            b = S.rblock(r, v)
            want = S.nonempty(b)
            ret, _, at = f.run([S.value(b)], (ctx.seed, i), post=False)
            if ret is PANIC:
                return ('a version %d block makes the writer panic: %s' % (v, brief(b)), at)
            if not isinstance(ret, tuple):
                raise Undecided('not bytes')
            try:
                got = S.decode(ret, strict=True)
            except (S.Bad, S.Open) as e:
                return ('a saved version %d block does not follow the format (%s): %s' % (v, e, brief(b)), None)
            a, w = S.value(got), S.value(want)
            if a != w:
                return ('in a saved version %d block %s: %s' % (v, diff(a, w).lstrip('.'), brief(b)), None)
            return True
        verdict(ctx, res, 'write v%d' % v, f, parallel(ctx, much(ctx, f) // 4, much(ctx, f, ctx.secs) / 2, one))


def brief(b):
    return 'metadata %s, %d objects, %d timers, %d names' % (
        {p: (len(m[0]), len(m[1])) for p, m in list(b['metadata'].items())[:4]}, len(b['objects']), len(b['timers']),
        len(b['nimap']))


# ------------------------------------------------------------------ reading
@ob('codec.read', 'C05', 'For every supported version the reader\'s value graph, interpreted on random well-formed '
    'blocks, yields exactly the fields the documented format assigns to the bytes')
def read(ctx, prop, res):
    f = fn(ctx, D)
    for v in (25, 27, 28, 29):
        def one(i):
            r = random.Random(repr((ctx.seed, 'r', v, i)))
            S.focus(r, f.pool())
            b = S.rblock(r, v)
            if v < 28:
                for p, (vs, inv) in b['metadata'].items():
                    b['metadata'][p] = ({k: (x, False) for k, (x, _) in vs.items()}, inv)
            ret, _, at = f.run([S.encode(b)], (ctx.seed, i), post=False)
            if ret is PANIC:
                return ('a well-formed version %d block makes the reader panic: %s' % (v, brief(b)), at)
            if not isinstance(ret, O):
                raise Undecided('no result')
            if ret.var != 'Ok':
                return ('a well-formed version %d block is rejected: %s' % (v, brief(b)), None)
            a, w = ret.get('0'), S.value(b)
            if a != w:
                return ('in a version %d block read %s: %s' % (v, diff(a, w).lstrip('.'), brief(b)), None)
            return True
        verdict(ctx, res, 'read v%d' % v, f, parallel(ctx, much(ctx, f) // 4, much(ctx, f, ctx.secs) / 2, one))


@ob('codec.damaged', 'C07', 'The reader\'s value graph, interpreted on damaged blocks (truncated, overwritten, inserted or '
    'missing bytes, damaged compression, positions outside the block, unnamed node IDs), never reaches a panic, rejects '
    'what the format forbids and otherwise yields what the bytes say')
def damaged(ctx, prop, res):
    f = fn(ctx, D)
    for v in (25, 27, 28, 29):
        def one(i):
            r = random.Random(repr((ctx.seed, 'd', v, i)))
            S.focus(r, f.pool())
            b = S.rblock(r, v, big=False)
            seq = S.damage(r, b)
            ret, _, at = f.run([seq], (ctx.seed, i), post=False)
            if ret is PANIC:
                return ('a damaged block makes the reader panic: %s' % show(seq), at)
            if not isinstance(ret, O):
                raise Undecided('no result')
            try:
                want = S.decode(seq)
            except S.Bad as e:
                if ret.var == 'Ok':
                    return ('a damaged block (%s) is accepted: %s' % (e, show(seq)), None)
                return True
            except S.Open:
                if ret.var == 'Ok':
                    bad = invariant(ret.get('0'))
                    if bad:
                        return ('the block read from damaged data has %s' % bad, None)
                return True
            if ret.var != 'Ok':
                return ('a readable block is rejected: %s' % show(seq), None)
            a, w = ret.get('0'), S.value(want)
            if a != w:
                return ('in a block read %s' % diff(a, w).lstrip('.'), None)
            return True
        verdict(ctx, res, 'damaged v%d' % v, f, parallel(ctx, ctx.worlds, ctx.secs / 2, one))


def invariant(b):
    nd = b.get('node_data')
    for n in ('nodes', 'param1', 'param2'):
        if len(nd.get(n)) != 4096:
            return '%d %s' % (len(nd.get(n)), n)
    nim = b.get('nimap').get('0').d
    for i in set(nd.get('nodes')):
        if i not in nim:
            return 'no name for node ID %s' % i
    for p in b.get('metadata').d:
        if p >= 4096:
            return 'metadata at position %d' % p
    for t in b.get('node_timers'):
        if t.get('pos') >= 4096:
            return 'a timer at position %d' % t.get('pos')


def show(seq):
    out = []
    for x in seq[:40]:
        out.append('<%d compressed bytes%s>' % (len(x[1]), '' if x[2] else ', damaged') if isinstance(x, Tup) else '%02x' % x)
    return ' '.join(out) + (' ... (%d)' % len(seq) if len(seq) > 40 else '')


# ------------------------------------------------------------------ entity data
@ob('codec.entity', 'C07 C09', 'LuaEntityData::deserialize yields name and data of exactly the type 7, version 1 objects '
    'and an error for every other or truncated one')
def entity(ctx, prop, res):
    f = fn(ctx, L)

    def one(i):
        r = random.Random(repr((ctx.seed, 'e', i)))
        S.focus(r, f.pool())
        n, d = S.rbytes(r, S.rlen(r, (300,))), S.rbytes(r, S.rlen(r, (300, 70000) if r.random() < .05 else ()))
        data = (1,) + S.S(2, n) + S.S(4, d) + S.rbytes(r, r.choice((0, 0, 1, 9)))
        k = r.random()
        if k < .3:
            data = S.hurt(r, data)
        elif k < .4:
            data = ()
        ty = 7 if r.random() < .8 else S.ror(r, r.choice((0, 1, 6, 8, 255)), 0, 255)
        q = S.Rd(data)
        try:
            if ty != 7 or q.u(1) != 1:
                raise S.Bad()
            want = Ok(O('LuaEntityData', 'LuaEntityData', {'name': q.st(2), 'data': q.st(4)}))
        except S.Bad:
            want = None
        obj = O('StaticObject', 'StaticObject', {'obj_type': ty, 'f_pos': fnob.V(0, 0, 0), 'data': data})
        ret, _, at = f.run([obj], (ctx.seed, i), post=False)
        if ret is PANIC:
            return ('object data %s makes it panic' % show(data), at)
        if not isinstance(ret, O):
            raise Undecided('no result')
        if (ret.var == 'Ok') != (want is not None):
            return ('object of type %d with data %s is %s' % (ty, show(data), 'rejected' if want else 'accepted'), None)
        if want is not None and ret != want:
            return ('entity %s' % diff(ret, want).lstrip('.'), None)
        return True
    verdict(ctx, res, 'entity', f, parallel(ctx, ctx.worlds * 6, ctx.secs, one))


@ob('codec.generated', 'C13', 'is_valid_generated is true exactly for data of at least two bytes in a supported version '
    'whose flags (inside the compressed data in version 29) do not have bit 3 set')
def generated(ctx, prop, res):
    f = fn(ctx, G)

    def one(i):
        r = random.Random(repr((ctx.seed, 'g', i)))
        S.focus(r, f.pool())
        v = r.choice((25, 26, 27, 28, 29, 29, 29, 24, 30, 0, 255, 27, 28))
        fl = S.ror(r, r.choice((0, 3, 8, 11, 0x0c, 0xf7, r.randrange(256))), 0, 255)
        k = r.random()
        if v == 29:
            want = not fl & 8
            body = (fl,) + S.rbytes(r, S.ror(r, r.choice((0, 5)), 0, 5000))
            seq = (v, Tup(('zs', body, True)))
            if k < .1:
                seq, want = (v, Tup(('zs', (), True))), False
            elif k < .2:
                seq, want = (v, Tup(('zs', (), False))), False
            elif k < .3:
                seq, want = (v, r.choice((0, 0xff, 0x28)), 0xff), False
            elif k < .4:
                seq, want = (v,), False
            elif k < .5:
                seq = (v, Tup(('zs', body, True)), 0)
        else:
            want = 25 <= v <= 29 and not fl & 8
            seq = (v, fl) + S.rbytes(r, S.ror(r, r.choice((0, 0, 5)), 0, 5000))
            if k < .1:
                seq, want = (v,), False
            elif k < .15:
                seq, want = (), False
        ret, _, at = f.run([seq], (ctx.seed, i), post=False)
        if ret is PANIC:
            return ('data %s makes it panic' % show(seq), at)
        if rand.truth(ret) != want:
            return ('data %s counts as %sgenerated' % (show(seq), '' if not want else 'not '), None)
        return True
    verdict(ctx, res, 'is_valid_generated', f, parallel(ctx, ctx.worlds * 6, ctx.secs, one))


# ------------------------------------------------------------------ memory
def allocs(f):
    return [e for e in f.s.events if e.kind == 'alloc' and e.vals]


def total(seq):
    return sum(total(x[1]) if isinstance(x, Tup) else 1 for x in seq)


@ob('codec.alloc', 'C18', 'Every capacity the reader requests (with_capacity, reserve, vec!, resize) is, on random damaged '
    'input, at most the number of bytes present plus 8192 elements')
def alloc(ctx, prop, res):
    for name, gen in ((D, None), (L, 'e')):
        f = fn(ctx, name)
        al = allocs(f)

        def one(i):
            r = random.Random(repr((ctx.seed, 'a', name, i)))
            if gen:
                data = (1,) + S.S(2, S.rbytes(r, S.rlen(r))) + S.S(4, S.rbytes(r, S.rlen(r)))
                seq = S.hurt(r, data)
                val = O('StaticObject', 'StaticObject', {'obj_type': 7, 'f_pos': fnob.V(0, 0, 0), 'data': seq})
            else:
                val = seq = S.damage(r, S.rblock(r, big=False))
            w = f.world((ctx.seed, i), [val])
            lim = total(seq) + 8192
            for e in al:
                for fr in rand.frames(w, e.loops, 0, w.root, {}):
                    if w.g(e.g, fr):
                        n = rand.num(w.ev(e.vals[0], fr))
                        if n > lim:
                            return ('room for %d elements is reserved while the data has %d bytes' % (n, lim - 8192),
                                    '%s (%s)' % (e.span, e.fn))
            return True
        verdict(ctx, res, 'capacities of ' + name, f, parallel(ctx, ctx.worlds * 6, ctx.secs, one))
        res.count(allocation_sites=len(al))


INT = {'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'usize', 'isize', 'f32', 'f64'}


@ob('codec.uninit', 'C17', 'Interpreting the reader\'s and the writer\'s value graph with poisoned elements for memory that '
    'was only allocated, no poisoned element is ever used or returned; set_len is reached only for plain number types')
def uninit(ctx, prop, res):
    for name in (D, W, L, G):
        f = fn(ctx, name)

        def one(i):
            r = random.Random(repr((ctx.seed, 'u', name, i)))
            S.focus(r, f.pool())
            b = S.rblock(r, big=r.random() < .3)
            seq = S.encode(b) if r.random() < .3 else S.damage(r, b)
            val = S.value(b) if name == W else seq
            if name == L:
                data = (1,) + S.S(2, S.rbytes(r, S.rlen(r))) + S.S(4, S.rbytes(r, S.rlen(r)))
                data = S.hurt(r, data) if r.random() < .7 else data
                val = O('StaticObject', 'StaticObject', {'obj_type': 7, 'f_pos': fnob.V(0, 0, 0), 'data': data})
            try:
                ret, _, at = f.run([val], (ctx.seed, i), post=False)
                if ret is not PANIC and has_uninit(ret):
                    return ('its result holds uninitialised memory for %s' % (show(seq) if name != W else brief(b)), None)
            except Uninit:
                return ('uninitialised memory is used for %s' % (show(seq) if name != W else brief(b)), None)
            return True
        verdict(ctx, res, 'poison ' + name, f, parallel(ctx, ctx.worlds, ctx.secs / 2, one))
    setlen_types(ctx, res)


def calls(b):
    for bb in b['bbs']:
        t = bb['tm']
        if t[0] == 'call' and 'fn' in t[1]:
            yield t


def setlen_types(ctx, res):
    """element types with which length-setting without initialisation is instantiated, over the whole crate"""
    bad, todo, seen = [], [], set()
    bodies = {b['u']: b for b in ctx.dump['bodies']}
    n = 0

    def elem(t):
        t = t.strip()
        while t.startswith('&'):
            t = t.lstrip('&').strip()
            t = t[4:] if t.startswith('mut ') else t
        return t[t.index('<') + 1:-1].split(', ')[0] if 'Vec<' in t else t
    users = {}
    for b in ctx.dump['bodies']:
        for t in calls(b):
            p = core_norm(t[1]['fn']['path'])
            if p == 'std::vec::Vec::set_len':
                n += 1
                e = elem(t[2][0].get('t', ''))
                if e in INT:
                    continue
                if len(e) <= 2 or e.isupper():
                    users.setdefault(b['u'], e)
                else:
                    bad.append((e, t[-1], b['name']))
    # generic helpers: look at their instantiations
    while users:
        u, e = users.popitem()
        if u in seen:
            continue
        seen.add(u)
        for b in ctx.dump['bodies']:
            for t in calls(b):
                f = t[1]['fn']
                if f['u'] == u or (f.get('res') or {}).get('u') == u:
                    n += 1
                    for x in f.get('args') or []:
                        if x in INT:
                            continue
                        if len(x) <= 2:
                            users.setdefault(b['u'], x)
                        else:
                            bad.append((x, t[-1], b['name']))
    res.count(uninitialised_allocation_sites=n)
    for e, sp, nm in bad:
        res.bad('set_len ' + e, 'memory for elements of type %s is exposed without initialisation' % e, '%s (%s)' % (sp, nm))
    if not bad:
        res.ok('element types of set_len', 'instantiations over the call graph')


def core_norm(p):
    import interp
    return interp.norm(p)
