"""Errors of the database inside a command."""
import random
import ob_cmd
import ob_db
import rand
import trace
from check import ob
from ob_codec import parallel
from rand import O, Q, Err, Undecided

OPS = ('get_block', 'set_block', 'delete_block', 'vacuum')


def sel(ev):
    if ev.kind == 'db' and ev.name in OPS:
        return ev.name, tuple(ev.vals[:2]) + (ev.res,)
    if ev.kind == 'status' and ev.name in ('log_error', 'log_info', 'end_editing', 'inc_done', 'inc_failed'):
        return ev.name, ()


class ErrWorld(rand.World):
    """now and then the database fails"""
    rate = (5, 5)     # one in so many reads, and so many changes, fails
    bad = None

    def app(self, n, a, t, fr):
        if n == 'getblk':
            if self.h('getblk', repr([self.ev(x, fr) for x in a])) % self.rate[0] == 0:
                return Err(self.bad)
        if n == 'dbres':
            if self.h('dbres', a[0], repr([self.ev(x, fr) for x in a[1:4]])) % self.rate[1] == 0:
                return Err(self.bad)
        if n == 'cachehit':
            return False
        return super().app(n, a, t, fr)


def one(ctx, name, s, items, loops, byid, first, i):
    r = random.Random(repr((ctx.seed, 'err', name, i)))
    w = ErrWorld((ctx.seed, 'err', i), ctx.eng.types, loops, ob_cmd.fixes(name))
    w.rate = r.choice(((1, 1), (2, 2), (5, 5), (10 ** 9, 1), (10 ** 9, 2), (4, 10 ** 9)))
    w.bad = ob_db.read_errors(ctx)[1]
    if not ob_cmd.pre(name)(w):
        return None
    tr = trace.trace(w, items, byid, first)
    k = next((k for k, e in enumerate(tr) if e.name in OPS and isinstance(e.vals[-1], O) and e.vals[-1].var == 'Err'
              and e.vals[-1].get('0') == w.bad), None)
    if k is None:
        return None
    f = tr[k]
    for e in tr[k + 1:]:
        if e.name in ('PANIC', 'log_error'):
            return True
        if e.name in OPS or e.name == 'log_info':
            break
    else:
        e = None
    return ('%s: a database error of %s is discarded%s' % (name, f.name, ', %s follows' % e.name if e else ''),
            '%s (%s)' % (f.e.span, f.e.fn))


def make(name):
    @ob('err.' + name, 'C04', 'in %s a failing database call ends the run or is logged as an error: no other database call and '
        'no report follows it' % name)
    def f(ctx, prop, res):
        fn, s = ob_cmd.summary(ctx, name)
        if fn is None:
            return res.unk(name, 'no function found for the command in the command table')
        if s.unk:
            return res.unk(name, 'unmodelled: %s' % ', '.join(sorted(s.unk))[:200])
        items = trace.select(s, sel, panics=('unwrap', 'panic'))
        loops, byid, first = trace.prepare(s, items)
        ops = [x for x in items if x.name in OPS]
        res.count(functions=1, effect_sites=len(ops))
        done, hit, und = parallel(ctx, ctx.worlds // 4, ctx.secs, lambda i: one(ctx, name, s, items, loops, byid, first, i))
        res.count(assignments=done)
        if hit:
            res.bad('err.' + name, hit[0], hit[1])
        elif not done or len(und) * 3 > done:
            res.unk(name, und[0] if und else 'no assignment in which the database fails')
        else:
            res.ok(name, 'random interpretation of the ordered trace')


for _n in ob_cmd.PROPS:
    make(_n)
