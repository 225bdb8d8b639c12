"""Arithmetic of the commands: every result fits its type (intervals over the value graph; what they cannot show is
interpreted on random assignments)."""
import random
import core
import interp
import ob_cmd
import rand
from check import ob
from core import Int, comps, allkids, b_and, b_not, le
from fnob import WIDE
from interp import RANGE
from ob_codec import parallel
from rand import Undecided

INF = 1 << 200
ALL = (-INF, INF)
TECH = 'interval analysis over the value graph of the MIR, then random interpretation'


def hull(*xs):
    return min(x[0] for x in xs), max(x[1] for x in xs)


def times(a, b):
    ps = [x * y for x in a for y in b]
    return min(ps), max(ps)


class Bounds(object):
    """intervals of integer terms, given what is known of arguments, positions and blocks"""

    def __init__(self):
        self.memo = {}

    def coord(self, t):
        """component of a vector, by where the vector comes from"""
        s, seen = [t], 0
        while s and seen < 12:
            x = s.pop()
            seen += 1
            if x.op == 'app' and x.a[0] == 'bpos':
                return -2048, 2047
            if x.op == 'fld':
                if x.a[1] == 'f_pos':
                    return None
                if x.a[1] == 'area':
                    return -31000, 31000
                if x.a[1] == 'offset':
                    return -62000, 62000
            s += allkids(x)[:1]

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = ALL
            r = self.memo[t] = self.calc(t)
        return r

    def calc(self, t):
        op = t.op
        if op == 'int':
            return t.a[0], t.a[0]
        if op == 'b':
            return 0, 1
        if op == 'lin':
            lo = hi = t.a[0]
            for x, k in t.a[1]:
                a, b = self.of(x)
                lo += min(a * k, b * k)
                hi += max(a * k, b * k)
            return max(lo, -INF), min(hi, INF)
        if op == 'mul':
            return times(self.of(t.a[0]), self.of(t.a[1]))
        if op == 'ite':
            return hull(self.of(t.a[1]), self.of(t.a[2]))
        if op in ('dive', 'reme') and t.a[1].op == 'int' and t.a[1].a[0] > 0:
            k = t.a[1].a[0]
            if op == 'reme':
                return 0, k - 1
            a, b = self.of(t.a[0])
            return a // k, b // k
        if op == 'el':
            b = comps(t.a[0])
            b = b[0] if len(b) == 1 else t.a[0]
            if b.op == 'range':
                return self.of(b.a[0])[0], self.of(b.a[1])[1] - 1
        if op == 'trunc':
            r, x = RANGE.get(t.a[0], ALL), self.of(t.a[2])
            return x if r[0] <= x[0] and x[1] <= r[1] else r
        if op in ('len', 'ln'):
            return 0, 1 << 48
        if op == 'fld' and t.a[1] in ('x', 'y', 'z'):
            r = self.coord(t)
            if r:
                return r
            return RANGE['i32']
        if op == 'pay' and t.a[0].op == 'app' and t.a[0].a[0] == 'max_id':
            return 0, 4095
        return RANGE.get(core.TYPE.get(t), ALL)


class ArithWorld(rand.World):
    """objects may be at any position a block can store"""

    def genobj(self, r, key, bpos=None):
        o = super().genobj(r, key, bpos)
        if r.random() < .15:
            o.f['f_pos'] = self.vec([r.choice((-1 << 31, (1 << 31) - 1, r.randrange(-1 << 31, 1 << 31))) for _ in 'xyz'])
        return o


def over_keys(l):
    return l.base is not None and any(x.op == 'app' and x.a[0] == 'qk' for x in below(l.base))


def below(t, seen=None):
    seen = set() if seen is None else seen
    if t not in seen:
        seen.add(t)
        for x in allkids(t):
            below(x, seen)
    return seen


def accumulates(e, byid):
    """the sum runs on over all blocks"""
    todo, seen = [x for x in below(e.vals[0]) if x.op == 'mu'], set()
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        l = byid.get(m.a[0])
        if l is None:
            continue
        if over_keys(l):
            return True
        i = interp.MUINIT.get(m)
        if i is not None:
            todo += [x for x in below(i) if x.op == 'mu']
    return False


def summary(ctx, name):
    def f():
        ctx.memo.pop('sum.' + name, None)
        was, ctx.eng.ovf = ctx.eng.ovf, True
        try:
            return ob_cmd.summary(ctx, name)
        finally:
            ctx.eng.ovf = was
            ctx.memo.pop('sum.' + name, None)
    return ctx.once('arith.' + name, f)


def where(e):
    return '%s (%s)' % (e.span, e.fn)


def make(name):
    props = ob_cmd.PROPS[name].split()
    props = [p for p in props if p in ('C09', 'C10', 'C12', 'C23')] + ['C07']

    @ob('arith.' + name, ' '.join(props), 'no addition, subtraction or multiplication in %s leaves its type; counters that run on '
        'over all blocks are wide enough for every node of a map' % name, TECH)
    def f(ctx, prop, res):
        fn, s = summary(ctx, name)
        if fn is None:
            return res.unk(name, 'no function found for the command in the command table')
        if s.unk:
            return res.unk(name, 'unmodelled: %s' % ', '.join(sorted(s.unk))[:200])
        byid = {l.id: l for l in s.loops}
        bd, left, n = Bounds(), [], 0
        for e in s.events:
            if e.kind != 'arith':
                continue
            n += 1
            lo, hi = RANGE[e.name]
            wide = e.name in WIDE
            if wide and e.call != 'Sub':
                continue          # sums and products in 64 bits
            a, b = bd.of(e.vals[0])
            if lo <= a and (b <= hi or wide):
                continue
            if e.call == 'Add' and accumulates(e, byid):
                cst, ts = core.as_lin(e.vals[0])
                one = cst == 1 and len(ts) == 1 and len(e.loops) == 1
                if prop == 'C23' and not (one and hi >= 1 << 31 - 1):
                    res.bad('arith.' + name, '%s: a counter over all blocks has only the type %s' % (name, e.name), where(e))
                continue
            left.append((e, b_and(e.g, b_not(b_and(le(Int(lo), e.vals[0]), *([] if wide else [le(e.vals[0], Int(hi))]))))))
        res.count(functions=1, operations=n)
        left = [x for x in left if x[1]]
        if prop == 'C23' and res.viol:
            return
        if not left:
            return res.ok(name, '%d operations, intervals' % n)
        hits = {}

        def one(i):
            r = random.Random(repr((ctx.seed, 'arith', name, i)))
            w = ArithWorld((ctx.seed, 'arith', i), ctx.eng.types, s.loops, ob_cmd.fixes(name))
            if not ob_cmd.pre(name)(w):
                return None
            for e, g in left:
                for k, fr in enumerate(rand.frames(w, e.loops, 0, w.root, {})):
                    if k > 700:
                        break
                    if w.g(g, fr):
                        return ('%s: the result %s does not fit the type %s' % (name, w.ev(e.vals[0], fr), e.name), where(e))
            return True
        done, hit, und = parallel(ctx, ctx.worlds // 5, ctx.secs / 2, one)
        res.count(assignments=done)
        if hit:
            res.bad('arith.' + name, hit[0], hit[1])
        elif len(und) * 3 > done or not done:
            res.unk(name, und[0] if und else 'no assignment')
        else:
            res.ok(name, '%d operations: intervals for %d, random interpretation for %d' % (n, n - len(left), len(left)))


for _n in ob_cmd.PROPS:
    if _n not in ('vacuum', 'deleteblocks'):
        make(_n)
