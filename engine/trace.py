"""Ordered traces: the effects of a summary in the order in which they happen, under a random assignment."""
from core import T, mk, comps, allkids, b_support, b_and, b_not, as_bool, is_ok, le, lt, eq, Int


class Slim(object):
    """a loop with only the state that the observed effects depend on"""

    def __init__(self, l, mods):
        self.__dict__.update(l.__dict__)
        self.mods = mods


def slim(loops, terms):
    byid = {l.id: l for l in loops}
    need, seen, done = list(terms), set(), set()
    mus = set()

    def loop(l):
        if l.id not in done:
            done.add(l.id)
            if l.base is not None:
                need.append(l.base)
            for c, _ in list(getattr(l, 'outs', ())) + list(l.exits):
                need.extend(b_support(c))
    while need:
        n = need.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op in ('mu', 'after', 'more', 'lexit', 'while') and n.a[0] in byid:
            loop(byid[n.a[0]])
        if n.op in ('mu', 'after'):
            l = byid.get(n.a[0])
            for k, m in l.mods.items() if l else ():
                if m['mu'] is n or n.op == 'after' and k == (n.a[1], n.a[2]):
                    mus.add((l.id, k))
                    need += [m['init']] + ([m['next']] if 'next' in m else [])
        if n.op == 'el':
            for l in loops:
                if l.exits and l.base is not None and n.a[0] in comps(l.base):
                    loop(l)
        need += allkids(n)
    return [Slim(l, {k: m for k, m in l.mods.items() if (l.id, k) in mus}) for l in loops]


class Ev(object):
    def __init__(self, key, name, vals, e):
        self.key, self.name, self.vals, self.e = key, name, vals, e

    def __repr__(self):
        return '%s%r' % (self.name, tuple(self.vals))


class Item(object):
    def __init__(self, i, e, g, name, vals):
        self.i, self.e, self.g, self.name, self.vals = i, e, g, name, tuple(vals)


def stop_guard(e):
    """when an event ends the function by a panic (None: it never does)"""
    if e.kind == 'panic':
        return e.g
    if e.kind == 'assert':
        return b_and(e.g, b_not(as_bool(e.res)))
    if e.kind == 'unwrap':
        return b_and(e.g, b_not(is_ok(e.vals[0])))
    if e.kind == 'index' and len(e.vals) > 1:
        return b_and(e.g, b_not(b_and(le(Int(0), e.vals[1]), lt(e.vals[1], e.vals[0]))))
    if e.kind == 'slice' and len(e.vals) > 2:
        return b_and(e.g, b_not(b_and(le(Int(0), e.vals[1]), le(e.vals[1], e.vals[2]), le(e.vals[2], e.vals[0]))))
    if e.kind == 'lencheck':
        return b_and(e.g, b_not(eq(*e.vals[:2])))


def select(s, sel, panics=False):
    """the events sel() wants, as items: sel(ev) -> None | (name, terms)"""
    out = []
    for i, e in enumerate(s.events):
        r = sel(e)
        if r:
            out.append(Item(i, e, e.g, r[0], r[1]))
        if panics and (panics is True or e.kind in panics):
            g = stop_guard(e)
            if g:
                out.append(Item(i + .5, e, g, 'PANIC', ()))
    return out


def prepare(s, items, more=()):
    """loops reduced to what the items (and the terms `more`) need; first event of every loop"""
    first, terms, ids = {}, list(more), set()
    for x in items:
        terms += list(x.vals) + b_support(x.g)
        for l in x.e.loops:
            ids.add(l.id)
    for i, e in enumerate(s.events):
        for l in e.loops:
            first.setdefault(l.id, i)
    for l in s.loops:
        if l.id in ids:
            for c, _ in list(getattr(l, 'outs', ())) + list(l.exits):
                terms += b_support(c)
            if l.base is not None:
                terms.append(l.base)
    ls = slim(s.loops, terms)
    return ls, {l.id: l for l in ls}, first


def trace(w, items, loops, first):
    """the items that happen in world w, in order, up to the first panic"""
    out = []

    def go(nest, i, fr, used, key, x):
        if i == len(nest):
            if w.g(x.g, fr):
                out.append((tuple(key) + (x.i,), x, fr))
            return
        l = loops.get(nest[i].id, nest[i])
        toks, u2 = None, dict(used)
        if l.base is not None and l.base.op != 'while':
            toks = []
            for c in comps(l.base):
                d = u2.get(c, 0)
                u2[c] = d + 1
                toks.append(mk('el', c, d))
        for n, f in enumerate(w.run(l, fr, toks)):
            go(nest, i + 1, f, u2, key + [first.get(l.id, x.i), n], x)
    for x in items:
        go(x.e.loops, 0, w.root, {}, [], x)
    out.sort(key=lambda x: x[0])
    res = []
    for k, x, fr in out:
        res.append(Ev(k, x.name, tuple(w.ev(v, fr) for v in x.vals), x.e))
        if x.name == 'PANIC':
            break
    return res
