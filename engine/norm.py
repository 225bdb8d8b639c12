"""Canonical forms: gated case values, guards modulo the order theory, effect streams."""
import core
from core import *
from interp import rebuild, atom_b


# ---------------------------------------------------------------- guards
def theory(atoms):
    """facts relating integer atoms over the same linear form (as a BDD)"""
    by = {}
    for a in atoms:
        if a.op in ('le0', 'eq0'):
            c, ts = as_lin(a.a[0])
            key = tuple(sorted(((t.id, k) for t, k in ts.items())))
            by.setdefault(key, []).append((a.op, c, a))
            # the negated form
    r = 1
    done = set()
    for key, xs in by.items():
        nkey = tuple(sorted((i, -k) for i, k in key))
        grp = [(o, c, 1, a) for o, c, a in xs]
        if nkey in by and (nkey, key) not in done:
            done.add((key, nkey))
            grp += [(o, c, -1, a) for o, c, a in by[nkey]]
        # variable y = sum k*t.  le0 with sign +: y <= -c ; sign -: -y + c <= 0 -> y >= c
        pts = sorted(set([-c for o, c, s, a in grp if s == 1] + [c for o, c, s, a in grp if s == -1]))
        if len(grp) < 2:
            continue
        # regions of y: representative values around every threshold
        reps = sorted(set(q for p in pts for q in (p - 1, p, p + 1)))
        alts = 0
        for y in reps:
            m = 1
            for o, c, s, a in grp:
                v = s * y + c
                val = v <= 0 if o == 'le0' else v == 0
                m = b_and(m, b_var(a) if val else b_not(b_var(a)))
            alts = b_or(alts, m)
        r = b_and(r, alts)
    # exists over one base is monotonic; it implies that the base is not empty
    ex = [a for a in atoms if a.op == 'exists']
    for i, a in enumerate(ex):
        for b in ex[i + 1:]:
            if a.a[0] is b.a[0]:
                if b_imp(a.a[1], b.a[1]):
                    r = b_and(r, b_or(b_not(b_var(a)), b_var(b)))
                if b_imp(b.a[1], a.a[1]):
                    r = b_and(r, b_or(b_not(b_var(b)), b_var(a)))
        b0 = a.a[0]
        if b0.op == 'range' and b0.a[0] is Int(0):
            e0 = eq(b0.a[1], Int(0))
            if e0 > 1 and any(x.op == 'eq0' and x in atoms for x in b_support(e0)):
                r = b_and(r, b_not(b_and(b_var(a), e0)))
    # one term cannot equal two different constants
    eqs = [a for a in atoms if a.op == 'eq']
    for i, a in enumerate(eqs):
        for b in eqs[i + 1:]:
            for x, y in ((0, 0), (0, 1), (1, 0), (1, 1)):
                if a.a[x] is b.a[y] and a.a[1 - x].op == b.a[1 - y].op == 'bytes' \
                        and a.a[1 - x] is not b.a[1 - y]:
                    r = b_and(r, b_not(b_and(b_var(a), b_var(b))))
    return r


def geq(f, g, under=1):
    """guards equal modulo the order theory, where `under` holds"""
    if f == g:
        return True
    x = b_and(b_xor(f, g), under)
    if x == 0:
        return True
    return b_and(x, theory(b_support(x))) == 0


def unsat(f):
    return f == 0 or b_and(f, theory(b_support(f))) == 0


_cons = {}


def constrain(f, c):
    """generalised cofactor: canonical representative of f on the set c"""
    if c == 1 or f <= 1:
        return f
    if c == 0:
        return 0
    if f == c:
        return 1
    k = (f, c)
    r = _cons.get(k)
    if r is not None:
        return r
    vf, f0, f1 = core._nodes[f]
    vc, c0, c1 = core._nodes[c]
    v = min(vf, vc)
    if vf != v:
        f0 = f1 = f
    if vc != v:
        c0 = c1 = c
    if c0 == 0:
        r = constrain(f1, c1)
    elif c1 == 0:
        r = constrain(f0, c0)
    else:
        r = core._mkb(v, constrain(f0, c0), constrain(f1, c1))
    _cons[k] = r
    return r


# ---------------------------------------------------------------- values
class Canon(object):
    """canonical form of terms under a context guard"""

    def __init__(self, under=1):
        self.u = under
        self.memo = {}

    def guard(self, f):
        f = b_subst(f, self.atom)
        f = constrain(f, self.u)
        th = theory(b_support(f))
        return constrain(f, th) if th > 1 else f

    def atom(self, a):
        if a.op == 'exists':
            return hoist(self.term(a.a[0]), (self.guard(a.a[1]),), lambda base, gs: exists(base, gs[0]))
        return atom_b(self.term(a))

    def term(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._term(t)
        return r

    def cases(self, t, g, out):
        if t.op == 'ite':
            c = self.guard(t.a[0])
            self.cases(t.a[1], b_and(g, c), out)
            self.cases(t.a[2], b_and(g, b_not(c)), out)
            return
        if g == 0 or unsat(b_and(g, self.u)):
            return
        x = self.term(t)
        if x.op == 'case':
            for v, h in x.a[0]:
                k = b_and(g, h)
                if k:
                    out[v] = b_or(out.get(v, 0), k)
            return
        if x.op == 'ite':
            return self.cases(x, g, out)
        if x.op == 'undef':
            return
        out[x] = b_or(out.get(x, 0), g)

    def absorb(self, out):
        """a sum over no element is 0; an update of no element leaves the value: drop the redundant gate"""
        for v in list(out):
            alt = None
            if v.op == 'sum':
                cs = v.a[1].a[0] if v.a[1].op == 'case' else ((v.a[1], 1),)
                alt, base, cond = Int(0), v.a[0], b_or(*[g for x, g in cs if x is not Int(0)])
            elif v.op == 'scatter':
                alt, base, cond = v.a[0], v.a[1], v.a[2]
            elif v.op == 'mapcomp' and v.a[0].op == 'keys' and v.a[2].op == 'at' and v.a[2].a[0] is v.a[0].a[0]:
                alt, base, cond = v.a[0].a[0], v.a[0], b_not(v.a[1])
            if alt is None or alt not in out:
                continue
            e = hoist(base, (cond,), lambda b, gs: exists(b, gs[0]))
            k = b_and(out[alt], b_not(e))
            if k:
                out[v] = b_or(out[v], k)
                out[alt] = b_and(out[alt], e)
                if unsat(b_and(out[alt], self.u)):
                    del out[alt]

    def _term(self, t):
        if t.op == 'ite':
            out = {}
            self.cases(t, 1, out)
            if not out:
                return mk('undef')
            self.absorb(out)
            if len(out) == 1:
                return list(out)[0]
            # join values of the same shape: keep as sorted cases
            its = []
            for v, g in sorted(out.items(), key=lambda x: x[0].id):
                g = constrain(g, self.u)
                th = theory(b_support(g))
                if th > 1:
                    g = constrain(g, th)
                its.append((v, g))
            r = mk('case', tuple(its))
            if t in core.TYPE:
                core.TYPE.setdefault(r, core.TYPE[t])
            return r
        if t.op == 'case':
            return t
        if t.op == 'b':
            return B(self.guard(t.a[0]))
        if t.op == 'sum':
            base, x = self.term(t.a[0]), self.term(t.a[1])
            if x.op == 'b':
                x = mk('case', tuple(sorted(((Int(0), b_not(x.a[0])), (Int(1), x.a[0])), key=lambda z: z[0].id)))
            cs = x.a[0] if x.op == 'case' else ((x, 1),)
            out = {}
            outer = free_atoms(base, [g for _, g in cs])

            def go(i, gs, ctx):
                if i == len(outer):
                    parts = tuple((v, g) for (v, _), g in zip(cs, gs) if g)
                    r = sum_(base, parts[0][0] if len(parts) == 1 else mk('case', parts))
                    out[r] = b_or(out.get(r, 0), ctx)
                    return
                v = core._var_of[outer[i]]
                h, l = tuple(b_cof(g, v, 1) for g in gs), tuple(b_cof(g, v, 0) for g in gs)
                if h == l:
                    return go(i + 1, h, ctx)
                go(i + 1, h, b_and(ctx, b_var(outer[i])))
                go(i + 1, l, b_and(ctx, b_not(b_var(outer[i]))))
            go(0, tuple(g for _, g in cs), 1)
            self.absorb(out)
            if len(out) == 1:
                return list(out)[0]
            return mk('case', tuple(sorted(out.items(), key=lambda z: z[0].id)))
        return crebuild(t, self.term, self.guard)


def bound(base):
    return set(comps(base))


_tokm = {}


def tokens(t):
    r = _tokm.get(t)
    if r is None:
        if t.op == 'el':
            r = frozenset((t,))
        else:
            r = frozenset()
            for x in allkids(t):
                r |= tokens(x)
        if t.op in ('acc', 'mu', 'after'):
            r |= frozenset((t,))
        _tokm[t] = r
    return r


def free_atoms(base, gs):
    """atoms in the guards that do not depend on the elements of base"""
    bs = bound(base)
    out = []
    for g in gs:
        for a in b_support(g):
            if a not in out and not any(x.op != 'el' or x.a[0] in bs for x in tokens(a)):
                out.append(a)
    return sorted(out, key=lambda a: core._var_of[a])


def hoist(base, gs, f):
    """f(base, gs) with the atoms that do not depend on the element tested outside"""
    outer = free_atoms(base, gs)

    def go(i, gs):
        if i == len(outer) or len(outer) > 12:
            return f(base, gs)
        v = core._var_of[outer[i]]
        h, l = tuple(b_cof(g, v, 1) for g in gs), tuple(b_cof(g, v, 0) for g in gs)
        if h == l:
            return go(i + 1, h)
        return b_ite(b_var(outer[i]), go(i + 1, h), go(i + 1, l))
    return go(0, gs)


def crebuild(x, go, gb):
    """structural rebuild that keeps case nodes in place"""
    op, a = x.op, x.a
    if op in ('int', 'bytes', 'sym', 'cst', 'cname', 'fnc', 'flt', 'undef', 'mu', 'after', 'more', 'ref'):
        return x
    if op == 'lin':
        r = Int(a[0])
        for t, k in a[1]:
            r = add(r, scale(go(t), k))
        return r
    if op == 'exists':
        return mk('exists', go(a[0]), gb(a[1]))
    if op in ('comp', 'firstval', 'mapcomp'):
        return mk(op, go(a[0]), gb(a[1]), go(a[2]))
    if op == 'mapof':
        return mk(op, go(a[0]), gb(a[1]), go(a[2]), go(a[3]))
    if op == 'scatter':
        return mk(op, go(a[0]), go(a[1]), gb(a[2]), go(a[3]), go(a[4]))

    def gx(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(gx(z) for z in y)
        return y
    r = mk(op, *[gx(y) for y in a])
    for d in (core.TYPE, core.KIND):
        if x in d:
            d.setdefault(r, d[x])
    return r


_orig_allkids = core.allkids


def allkids(t):
    if t.op == 'case':
        out = []
        for v, g in t.a[0]:
            out.append(v)
            out += b_support(g)
        return out
    return _orig_allkids(t)


core.allkids = allkids


def teq(a, b, under=1):
    """canonically equal under a guard"""
    if a is b:
        return True
    c = Canon(under)
    x, y = c.term(a), c.term(b)
    if x is y:
        return True
    return _teq(x, y, under)


def _teq(x, y, u):
    if x is y:
        return True
    if x.op == 'case' or y.op == 'case':
        cx = dict(x.a[0]) if x.op == 'case' else {x: 1}
        cy = dict(y.a[0]) if y.op == 'case' else {y: 1}
        ks = set(cx) | set(cy)
        return all(geq(cx.get(k, 0), cy.get(k, 0), u) for k in ks)
    if x.op != y.op or len(x.a) != len(y.a):
        return False
    if x.op == 'b':
        return geq(x.a[0], y.a[0], u)

    def ge(p, q, i):
        if isinstance(p, T):
            return isinstance(q, T) and _teq(p, q, u)
        if isinstance(p, tuple):
            return isinstance(q, tuple) and len(p) == len(q) and all(ge(m, n, None) for m, n in zip(p, q))
        if p == q:
            return True
        if isinstance(p, int) and isinstance(q, int) and \
                (x.op, i) in (('exists', 1), ('comp', 1), ('firstval', 1), ('mapcomp', 1), ('mapof', 1), ('scatter', 2)):
            return geq(p, q)
        return False
    return all(ge(p, q, i) for i, (p, q) in enumerate(zip(x.a, y.a)))


# ---------------------------------------------------------------- effect streams
class Eff(object):
    """one normalised effect: name, iteration bases, guard, values"""
    __slots__ = ('name', 'bases', 'g', 'vals', 'src')

    def __init__(self, name, bases, g, vals, src=''):
        self.name, self.bases, self.g, self.vals, self.src = name, tuple(bases), g, tuple(vals), src

    def __repr__(self):
        return '%s%s IF %s IN %s' % (self.name, tuple(show(v, 8) for v in self.vals), b_str(self.g, 6),
                                     [show(b, 4) for b in self.bases])


def flat_bases(bases):
    out = []
    for b in bases:
        out += list(comps(b))
    return tuple(out)


def effects(summary, sel):
    """sel(ev) -> None or (name, vals) ; list of Eff in program order"""
    out = []
    for e in summary.events:
        r = sel(e)
        if r is None:
            continue
        name, vals = r
        bases = []
        for l in e.loops:
            bases.append(l.base if l.base is not None else mk('while', l.id))
        out.append(Eff(name, flat_bases(bases), e.g, vals, '%s (%s)' % (e.span, e.fn)))
    return out


def merge_effects(effs):
    """group by (name, bases); join events with exclusive guards into one gated event"""
    groups = {}
    for e in effs:
        if unsat(e.g):
            continue
        groups.setdefault((e.name, e.bases, len(e.vals)), []).append(e)
    out = {}
    for k, es in groups.items():
        cur = []
        for e in es:
            e = Eff(e.name, e.bases, Canon().guard(e.g), e.vals, e.src)
            for i, c in enumerate(cur):
                if unsat(b_and(c.g, e.g)):
                    vals = [ite(c.g, x, y) for x, y in zip(c.vals, e.vals)]
                    cur[i] = Eff(c.name, c.bases, b_or(c.g, e.g), vals, c.src if c.src == e.src else c.src + ', ' + e.src)
                    break
            else:
                cur.append(e)
        out[k] = cur
    return out


def same_effects(code, spec):
    """-> (equal, list of (key, code effs, spec effs) that differ)"""
    a, b = merge_effects(code), merge_effects(spec)
    bad = []
    for k in list(a) + [k for k in b if k not in a]:
        x, y = a.get(k, []), b.get(k, [])
        if len(x) != len(y):
            bad.append((k, x, y))
            continue
        # match as sets
        rest = list(y)
        for e in x:
            for f in rest:
                if geq(e.g, f.g) and all(teq(p, q, e.g) for p, q in zip(e.vals, f.vals)):
                    rest.remove(f)
                    break
            else:
                bad.append((k, x, y))
                break
    return not bad, bad


def breaks(summary):
    """loop exits before the end of the iteration: list of Eff"""
    out = []
    for l in summary.loops:
        for g, tgt in l.exits:
            out.append((l, g))
    return out
