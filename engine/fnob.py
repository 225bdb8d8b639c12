"""Function-level obligations: the summary of one function against a specification.

A summary is a value graph of the result and of what the function leaves behind its &mut parameters.  Where the
specification can be written as a value graph the two are compared in normal form (for all inputs); otherwise both are
interpreted over random assignments to the parameters (random interpretation, see DESIGN.md)."""
import random
import time
import zlib
import core
import norm
import rand
import views
from interp import RANGE
from core import T, mk, b_and, b_not, as_bool, is_ok, le, lt, eq, Int
from rand import O, M, Q, Tup, UNDEF, UNITV, Undecided, NoneV, Some, Ok, Err, Frame

PANIC = Q('PANIC')
WIDE = ('i64', 'u64', 'usize', 'isize', 'i128', 'u128')


class Fn(object):
    def __init__(self, ctx, name, anchors=None, args=None):
        self.ctx, self.name, self._pool = ctx, name, None
        if name not in ctx.eng.byname:
            raise Undecided('no function ' + name)
        was, ctx.eng.ovf = ctx.eng.ovf, True
        try:
            s = self.s = ctx.eng.summarize(name, anchors=anchors, args=args)
        finally:
            ctx.eng.ovf = was
        if s.unk:
            raise Undecided('unmodelled: %s' % ', '.join(sorted(s.unk))[:200])
        self.types = ctx.eng.types
        b = ctx.eng.byname[name]
        self.names, self.syms, self.refs = [], [], []
        for i, v in enumerate(s.args):
            nm = b['locals'][i + 1][1] or 'a%d' % i
            self.names.append(nm)
            self.refs.append(b['locals'][i + 1][0].startswith('&'))
            self.syms.append(mk('sym', nm))
        # the post-state of parameters and the panics
        self.post = {n: s.st.s[('P', n)] for n in self.names if ('P', n) in s.st.s}
        self.stops = []
        for e in s.events:
            if e.kind in ('panic', 'assert', 'unwrap', 'index', 'slice', 'lencheck'):
                g = e.g
                if e.kind == 'assert':
                    g = b_and(e.g, b_not(as_bool(e.res)))
                elif e.kind == 'unwrap':
                    g = b_and(e.g, b_not(is_ok(e.vals[0])))
                elif e.kind == 'index' and len(e.vals) > 1:
                    g = b_and(g, b_not(b_and(le(Int(0), e.vals[1]), lt(e.vals[1], e.vals[0]))))
                elif e.kind == 'slice' and len(e.vals) > 2:
                    g = b_and(g, b_not(b_and(le(Int(0), e.vals[1]), le(e.vals[1], e.vals[2]), le(e.vals[2], e.vals[0]))))
                elif e.kind == 'lencheck':
                    g = b_and(g, b_not(eq(*e.vals[:2])))
                if g:
                    self.stops.append((e.name, (), g, e.loops, '%s (%s)' % (e.span, e.fn)))
        # arithmetic whose result may leave its type (64-bit sums and products stay inside)
        self.arith = []
        for e in s.events:
            if e.kind == 'arith':
                wide = e.name in WIDE
                if wide and e.call != 'Sub' or wide and e.name[0] == 'i':
                    continue
                lo, hi = RANGE[e.name]
                g = b_and(e.g, b_not(b_and(le(Int(lo), e.vals[0]), *([] if wide else [le(e.vals[0], Int(hi))]))))
                if g:
                    self.arith.append((e.name, (), g, e.loops, '%s (%s)' % (e.span, e.fn)))
        self.span = s.span
        self.ret = ctx.eng.deep(s.st, s.ret)

    def pool(self):
        """the constants the function's value graph uses and is not known to use (engine/known.json)"""
        if self._pool is None:
            its = [('', [self.ret] + list(self.post.values()), core.b_and(), (), '')]
            its += [e[:5] for e in self.stops + self.arith]
            self._pool = rand.Pool(views.terms_of(its, self.s.loops), known=self.name)
        return self._pool

    def items(self, sel):
        out = []
        for e in self.s.events:
            r = sel(e)
            if r:
                out.append((r[0], r[1], e.g, e.loops, '%s (%s)' % (e.span, e.fn)))
        return out

    def world(self, seed, vals, fix=None, pool=None):
        w = rand.World(seed, self.types, self.s.loops, fix, pool)
        w.root = Frame(None, frozenset(), {}, {})
        w.root.vals.update(zip(self.syms, vals))
        return w

    def overflow(self, w, limit=300):
        """where arithmetic overflows (the first iterations of every loop are looked at)"""
        for e in self.arith:
            try:
                for n, f in enumerate(rand.frames(w, e[3], 0, w.root, {})):
                    if n > limit:
                        break
                    if w.g(e[2], f):
                        return 'arithmetic overflow at ' + e[4]
            except Undecided:
                pass

    def run(self, vals, seed=0, fix=None, post=True, w=None):
        """-> (result or PANIC, {param: value afterwards}, where it panics)"""
        w = w or self.world(seed, vals, fix)
        for e in self.stops:
            for f in rand.frames(w, e[3], 0, w.root, {}):
                if w.g(e[2], f):
                    return PANIC, {}, e[4]
        if self.arith and zlib.crc32(repr(seed).encode()) % 4 != 1:
            at = self.overflow(w)
            if at:
                return PANIC, {}, at
        ret = w.ev(self.ret, w.root)
        return ret, {n: w.ev(t, w.root) for n, t in self.post.items()} if post else {}, ''


def sweep(ctx, res, part, fn, gen, oracle, n=None, secs=None, cmpf=None):
    """interpret fn's summary on assignments gen(r) and compare with oracle(*vals) (PANIC = must panic,
    None = assignment outside the precondition)"""
    n = n or ctx.worlds
    secs = secs or ctx.secs
    cmpf = cmpf or (lambda got, want: None if got == want else 'result is %s, should be %s' % (short(got), short(want)))

    def work(k, step, t0):
        done, und = 0, []
        for i in range(k, n, step):
            if time.time() - t0 > secs:
                break
            r = random.Random(repr((ctx.seed, part, i)))
            try:
                with views.spare(t0, secs):
                    vals = gen(r)
                    want = oracle(*vals)
                    if want is None:
                        continue
                    got = call(fn, vals, (ctx.seed, i))
                    done += 1
                    m = cmpf(got, want)
                if m:
                    return done, (i, vals, m), und
            except views.TimeUp:
                break
            except Undecided as e:
                und.append(str(e))
                if len(und) > 5 and not done:
                    break
        return done, None, und
    done, und = 0, []
    hit = None
    for d, h, u in views.parallel(work):
        done += d
        und += u
        if h and (hit is None or h[0] < hit[0]):
            hit = h
    res.count(assignments=done)
    if hit:
        i, vals, m = hit
        res.bad(part, '%s: for (%s) the %s' % (fname(fn), ', '.join(short(v) for v in vals), m), where(fn))
    elif und and len(und) * 3 > done or done < 2:
        res.unk(part, und[0] if und else 'no assignment satisfies the precondition')
    else:
        res.ok(part, 'random interpretation of the value graph')


def fname(fn):
    return fn.name if isinstance(fn, Fn) else getattr(fn, 'label', 'function')


def where(fn):
    return '%s (%s)' % (fn.s.span, fn.name) if isinstance(fn, Fn) else getattr(fn, 'where', '')


def call(fn, vals, seed=0):
    if isinstance(fn, Fn):
        return fn.run(vals, seed)[0] if not any(m for m in ()) else None
    return fn(*vals)


def short(v, n=160):
    if isinstance(v, O):
        if v.var == 'Vec3':
            return '(%s, %s, %s)' % tuple(v.get(c) for c in 'xyz')
        if v.var == 'Area':
            return '%s..%s' % (short(v.get('min')), short(v.get('max')))
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def proved(ctx, res, part, fn, spec, under=1):
    """normal-form equality of the result with a specification term; -> bool"""
    try:
        if norm.teq(fn.s.ret, spec, under):
            res.ok(part, 'equal normal forms (all inputs)')
            return True
    except Exception:
        pass
    return False


# ------------------------------------------------------------------ values
V3T, AT = 'spatial::vec3::Vec3', 'spatial::area::Area'


def V(x, y, z):
    return O(V3T, 'Vec3', {'x': x, 'y': y, 'z': z})


def A(lo, hi):
    return O(AT, 'Area', {'min': V(*lo), 'max': V(*hi)})


def xyz(v):
    if not isinstance(v, O):
        raise Undecided('not a position')
    return tuple(v.get(c) for c in 'xyz')


def ends(a):
    return xyz(a.get('min')), xyz(a.get('max'))
