"""BDD guards and hash-consed value terms of the gated value-flow analysis."""

# ---------------------------------------------------------------- BDDs
FALSE, TRUE = 0, 1
_nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
_uniq = {}
_itec = {}
_var_of = {}      # atom term -> variable
_atom_of = []     # variable -> atom term


_limit = [12000000]


class TooBig(Exception):
    pass


class limited(object):
    """with limited(n): at most n more nodes"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = _limit[0]
        _limit[0] = min(self.old, len(_nodes) + self.n)

    def __exit__(self, *a):
        _limit[0] = self.old


def _mkb(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_nodes)
        if n > _limit[0]:
            raise TooBig('decision diagrams beyond the limit')
        _nodes.append(k)
        _uniq[k] = n
    return n


def b_var(atom):
    v = _var_of.get(atom)
    if v is None:
        v = len(_atom_of)
        _var_of[atom] = v
        _atom_of.append(atom)
    return _mkb(v, 0, 1)


def b_ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _itec.get(k)
    if r is not None:
        return r
    nf, ng, nh = _nodes[f], _nodes[g], _nodes[h]
    v = min(nf[0], ng[0], nh[0])
    f0, f1 = (nf[1], nf[2]) if nf[0] == v else (f, f)
    g0, g1 = (ng[1], ng[2]) if ng[0] == v else (g, g)
    h0, h1 = (nh[1], nh[2]) if nh[0] == v else (h, h)
    r = _mkb(v, b_ite(f0, g0, h0), b_ite(f1, g1, h1))
    _itec[k] = r
    return r


def b_not(a):
    return b_ite(a, 0, 1)


def b_and(*xs):
    r = 1
    for x in xs:
        r = b_ite(r, x, 0)
    return r


def b_or(*xs):
    r = 0
    for x in xs:
        r = b_ite(r, 1, x)
    return r


def b_xor(a, b):
    return b_ite(a, b_not(b), b)


def b_imp(a, b):
    return b_ite(a, b, 1) == 1


_restc = {}


def b_restrict(f, c):
    """Coudert-Madre restrict: simplify f, agreeing with it wherever c holds."""
    if c == 0 or c == 1 or f <= 1:
        return f
    k = (f, c)
    r = _restc.get(k)
    if r is not None:
        return r
    vf, f0, f1 = _nodes[f]
    vc, c0, c1 = _nodes[c]
    if vc < vf:
        r = b_restrict(f, b_or(c0, c1))
    else:
        if vc == vf:
            if c0 == 0:
                r = b_restrict(f1, c1)
            elif c1 == 0:
                r = b_restrict(f0, c0)
            else:
                r = _mkb(vf, b_restrict(f0, c0), b_restrict(f1, c1))
        else:
            r = _mkb(vf, b_restrict(f0, c), b_restrict(f1, c))
    _restc[k] = r
    return r


def b_cof(f, var, val):
    """cofactor of f with respect to an atom's variable"""
    memo = {}

    def go(n):
        if n <= 1:
            return n
        v, lo, hi = _nodes[n]
        if v > var:
            return n
        if v == var:
            return hi if val else lo
        r = memo.get(n)
        if r is None:
            r = _mkb(v, go(lo), go(hi))
            memo[n] = r
        return r
    return go(f)


def b_support(f):
    seen, out, st = set(), [], [f]
    while st:
        n = st.pop()
        if n <= 1 or n in seen:
            continue
        seen.add(n)
        v, lo, hi = _nodes[n]
        if v not in out:
            out.append(v)
        st += [lo, hi]
    return [_atom_of[v] for v in sorted(set(out))]


def b_eval(f, fn):
    while f > 1:
        v, lo, hi = _nodes[f]
        f = hi if fn(_atom_of[v]) else lo
    return f == 1


def b_subst(f, fn, memo=None):
    """replace every atom a by the BDD fn(a)"""
    memo = {} if memo is None else memo

    def go(n):
        if n <= 1:
            return n
        r = memo.get(n)
        if r is None:
            v, lo, hi = _nodes[n]
            r = b_ite(fn(_atom_of[v]), go(hi), go(lo))
            memo[n] = r
        return r
    return go(f)


def b_str(f, depth=6):
    if f == 1:
        return 'true'
    if f == 0:
        return 'false'
    # sum of cubes, abbreviated
    cubes = []

    def go(n, acc):
        if len(cubes) > 6:
            return
        if n == 0:
            return
        if n == 1:
            cubes.append(' & '.join(acc) or 'true')
            return
        v, lo, hi = _nodes[n]
        a = show(_atom_of[v], depth)
        go(hi, acc + [a])
        go(lo, acc + ['!' + a])
    go(f, [])
    s = ' | '.join('(%s)' % c for c in cubes[:6])
    return s + (' | ...' if len(cubes) > 6 else '')


# ---------------------------------------------------------------- terms
class T(object):
    __slots__ = ('op', 'a', 'id')

    def __repr__(self):
        return show(self)


_terms = {}
TYPE = {}       # leaf term -> rust type string
EQ_CONST = {}   # leaf term -> constants it is compared with


def mk(op, *args):
    k = (op,) + args
    t = _terms.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = args
        t.id = len(_terms)
        _terms[k] = t
    return t


def children(t):
    for x in t.a:
        yield from _kids(x)


def _kids(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _kids(y)


UNIT = mk('tup', ())


def Int(n):
    return mk('int', n)


def B(n):
    return mk('b', n)


BT, BF = B(1), B(0)


def adt(ty, var, names, vals):
    return mk('adt', ty, var, tuple(names), tuple(vals))


def some(x):
    return adt('Option', 'Some', ('0',), (x,))


NONE = adt('Option', 'None', (), ())


def ok(x):
    return adt('Result', 'Ok', ('0',), (x,))


def err(x):
    return adt('Result', 'Err', ('0',), (x,))


VARIANTS = {'Option': ('None', 'Some'), 'Result': ('Ok', 'Err'),
            'ControlFlow': ('Continue', 'Break'), 'Ordering': ('Less', 'Equal', 'Greater')}


def short(p):
    """short ADT name: path without generics/crate for std types"""
    for s in ('option::Option', 'result::Result', 'ops::ControlFlow', 'cmp::Ordering'):
        if p.endswith(s):
            return s.split('::')[-1]
    return p


def lin(const, terms):
    """terms: dict T->coef"""
    ts = tuple(sorted(((t, c) for t, c in terms.items() if c != 0), key=lambda x: x[0].id))
    if not ts:
        return Int(const)
    if const == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return mk('lin', const, ts)


def as_lin(t):
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    if t.op == 'b':
        return as_lin(ite(t.a[0], Int(1), Int(0)))
    return 0, {t: 1}


def add(x, y, k=1):
    cx, tx = as_lin(x)
    cy, ty = as_lin(y)
    r = dict(tx)
    for t, c in ty.items():
        r[t] = r.get(t, 0) + k * c
    return lin(cx + k * cy, r)


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    c, t = as_lin(x)
    return lin(c * k, {a: b * k for a, b in t.items()})


def mul(x, y):
    if x.op == 'int':
        return scale(y, x.a[0])
    if y.op == 'int':
        return scale(x, y.a[0])
    if x.id > y.id:
        x, y = y, x
    return mk('mul', x, y)


def neg(x):
    return scale(x, -1)


def ite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a is b:
        return a
    if a.op == 'undef':
        return b
    if b.op == 'undef':
        return a
    if a.op == 'b' and b.op == 'b':
        return B(b_ite(c, a.a[0], b.a[0]))
    if a.op == 'ite' and a.a[0] == c:
        return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] == c:
        return ite(c, a, b.a[2])
    if a.op == 'b' and b.op not in ('int', 'lin'):
        return B(b_ite(c, a.a[0], as_bool(b)))
    if b.op == 'b' and a.op not in ('int', 'lin'):
        return B(b_ite(c, as_bool(a), b.a[0]))
    if a.op == 'adt' and b.op == 'adt' and a.a[:3] == b.a[:3]:
        return adt(a.a[0], a.a[1], a.a[2], [ite(c, x, y) for x, y in zip(a.a[3], b.a[3])])
    if a.op == 'tup' and b.op == 'tup' and len(a.a[0]) == len(b.a[0]):
        return mk('tup', tuple(ite(c, x, y) for x, y in zip(a.a[0], b.a[0])))
    if a.op == 'clo' and b.op == 'clo' and a.a[0] == b.a[0]:
        return mk('clo', a.a[0], tuple(ite(c, x, y) for x, y in zip(a.a[1], b.a[1])))
    if a.op == 'rec' or b.op == 'rec':
        ba = a.a[0] if a.op == 'rec' else a
        bb = b.a[0] if b.op == 'rec' else b
        if ba is bb:
            da = dict(a.a[1]) if a.op == 'rec' else {}
            db = dict(b.a[1]) if b.op == 'rec' else {}
            r = {}
            for k in list(da) + [k for k in db if k not in da]:
                va = da.get(k)
                vb = db.get(k)
                if va is None:
                    va = proj(ba, k)
                if vb is None:
                    vb = proj(ba, k)
                r[k] = ite(c, va, vb)
            return mkrec(ba, r)
    if a.op == 'ite' and a.a[0] == b_not(c):
        return ite(c, a.a[2], b)
    if b.op == 'ite' and b.a[0] == b_not(c):
        return ite(c, a, b.a[1])
    # Some(x?Some) if x is Some, else None  ==  x
    for p, x, y in ((c, a, b), (b_not(c), b, a)):
        if x.op == 'adt' and y.op == 'adt' and x.a[1] in ('Some', 'Ok') and x.a[3] and x.a[3][0].op == 'pay' \
                and x.a[3][0].a[1] == x.a[1]:
            v = x.a[3][0].a[0]
            if is_var(v, x.a[1], None) == p and (y is NONE or (y.a[1] == 'Err' and y.a[3] and y.a[3][0].op == 'pay'
                                                               and y.a[3][0].a[0] is v)):
                return v
    # canonical polarity: the condition holds when all its atoms do
    if not b_top(c):
        c, a, b = b_not(c), b, a
    return mk('ite', c, a, b)


def b_top(f):
    while f > 1:
        f = _nodes[f][2]
    return f == 1


def as_bool(t):
    """term of type bool -> BDD"""
    if t.op == 'b':
        return t.a[0]
    if t.op == 'int':
        return 1 if t.a[0] else 0
    if t.op == 'ite':
        return b_ite(t.a[0], as_bool(t.a[1]), as_bool(t.a[2]))
    if t.op == 'undef':
        return 0
    return b_var(t)


def mkbool(t):
    return B(as_bool(t))


def _ekey(e):
    return tuple(x if not isinstance(x, T) else x.id for x in e)


def mkrec(base, d):
    d = {k: v for k, v in d.items() if not (base.op != 'undef' and proj(base, k) is v)}
    if not d:
        return base
    return mk('rec', base, tuple(sorted(d.items(), key=lambda kv: str(_ekey(kv[0])))))


# path elements: ('f', name) | ('vf', variant, name) | ('i', T) | ('v', variant)
def proj(v, e):
    op = v.op
    if op == 'undef':
        return v
    if op == 'ite':
        c, a, b = v.a
        if e[0] in ('vf', 'v'):
            ia, ib = is_var(a, e[1], None), is_var(b, e[1], None)
            if ia == 0:
                return proj(b, e)
            if ib == 0:
                return proj(a, e)
        return ite(c, proj(a, e), proj(b, e))
    if e[0] == 'f':
        if op == 'adt':
            if e[1] in v.a[2]:
                return v.a[3][v.a[2].index(e[1])]
        elif op == 'tup':
            i = int(e[1]) if e[1].isdigit() else -1
            if 0 <= i < len(v.a[0]):
                return v.a[0][i]
        elif op == 'clo':
            return v.a[1][int(e[1])]
        elif op == 'rec':
            for k, x in v.a[1]:
                if k == e:
                    return x
            return proj(v.a[0], e)
        elif op == 'cur':  # Cursor etc. never projected
            pass
        return mk('fld', v, e[1])
    if e[0] == 'vf':
        if op == 'adt':
            if v.a[1] == e[1] and e[2] in v.a[2]:
                return v.a[3][v.a[2].index(e[2])]
            return mk('undef')
        if op == 'rec':
            for k, x in v.a[1]:
                if k == e:
                    return x
            return proj(v.a[0], e)
        if op == 'branch':
            x = v.a[0]
            if e[1] == 'Continue':
                return payload(x)
            return mk('residual', x)
        return mk('pay', v, e[1], e[2])
    if e[0] == 'v':
        return v
    if e[0] == 'i':
        return at(v, e[1])
    raise ValueError(e)


def payload(x):
    """success payload of an Option/Result term"""
    if x.op == 'adt':
        if x.a[1] in ('Some', 'Ok'):
            return x.a[3][0]
        return mk('undef')
    if x.op == 'ite':
        c, a, b = x.a
        return ite(c, payload(a), payload(b))
    k = KIND.get(x)
    v = {'Option': 'Some', 'Result': 'Ok'}.get(k, None)
    if v is None:
        v = 'Ok' if looks_result(x) else 'Some'
    return proj(x, ('vf', v, '0'))


KIND = {}   # opaque term -> 'Option' | 'Result'


def looks_result(x):
    t = TYPE.get(x, '')
    if 'Option<' in t and (('Result<' not in t) or t.index('Option<') < t.index('Result<')):
        return False
    if 'Result<' in t:
        return True
    return False


def errpay(x):
    if x.op == 'adt':
        if x.a[1] == 'Err':
            return x.a[3][0]
        return mk('undef')
    if x.op == 'ite':
        c, a, b = x.a
        return ite(c, errpay(a), errpay(b))
    return proj(x, ('vf', 'Err', '0'))


def _holds_ref(x):
    return x.op == 'ref' or x.op in ('tup', 'arr') and any(_holds_ref(y) for y in x.a[0])


def at(v, i):
    op = v.op
    if op == 'undef':
        return v
    if op == 'ite':
        return ite(v.a[0], at(v.a[1], i), at(v.a[2], i))
    if op == 'arr' and i.op == 'int' and 0 <= i.a[0] < len(v.a[0]):
        return v.a[0][i.a[0]]
    if op == 'arr' and 0 < len(v.a[0]) <= 8 and any(_holds_ref(x) for x in v.a[0]):
        r = v.a[0][-1]      # what a reference among the elements points to has to stay visible
        for n in range(len(v.a[0]) - 2, -1, -1):
            r = ite(eq(i, Int(n)), v.a[0][n], r)
        return r
    if op == 'bytes' and i.op == 'int' and 0 <= i.a[0] < len(v.a[0]):
        return Int(v.a[0][i.a[0]])
    if op == 'repeat':
        return v.a[0]
    if op == 'aset':
        arr, j, x = v.a
        e = eq(i, j)
        if e == 1:
            return x
        if e == 0:
            return at(arr, i)
        return ite(e, x, at(arr, i))
    if op == 'rec':
        return at(v.a[0], i)
    if op == 'scatter' and v.a[3].op == 'el' and v.a[3].a[0] is v.a[1] and v.a[1].op == 'range' \
            and i.op != 'el':
        pass
    if op == 'sub':    # subslice
        return at(v.a[0], add(i, v.a[1]))
    return mk('at', v, i)


def upd(v, path, x):
    if not path:
        return x
    e, rest = path[0], path[1:]
    if e[0] == 'v':
        return upd(v, rest, x)
    if e[0] == 'i':
        old = at(v, e[1])
        return mk('aset', v, e[1], upd(old, rest, x))
    if v.op == 'ite' and e[0] == 'vf':
        c, a, b = v.a
        ia, ib = is_var(a, e[1], None), is_var(b, e[1], None)
        return ite(c, a if ia == 0 else upd(a, path, x), b if ib == 0 else upd(b, path, x))
    old = proj(v, e)
    new = upd(old, rest, x)
    if v.op == 'adt':
        name = e[1] if e[0] == 'f' else e[2]
        if name in v.a[2] and (e[0] == 'f' or v.a[1] == e[1]):
            i = v.a[2].index(name)
            return adt(v.a[0], v.a[1], v.a[2], v.a[3][:i] + (new,) + v.a[3][i + 1:])
    if v.op == 'tup' and e[0] == 'f':
        i = int(e[1])
        if i < len(v.a[0]):
            return mk('tup', v.a[0][:i] + (new,) + v.a[0][i + 1:])
    if v.op == 'clo' and e[0] == 'f':
        i = int(e[1])
        return mk('clo', v.a[0], v.a[1][:i] + (new,) + v.a[1][i + 1:])
    if v.op == 'rec':
        d = dict(v.a[1])
        d[e] = new
        return mkrec(v.a[0], d)
    return mkrec(v, {e: new})


def is_var(t, v, variants):
    """BDD: enum term t is variant v"""
    op = t.op
    if op == 'adt':
        return 1 if t.a[1] == v else 0
    if op == 'ite':
        return b_ite(t.a[0], is_var(t.a[1], v, variants), is_var(t.a[2], v, variants))
    if op == 'undef':
        return 0
    if op == 'branch':
        s = is_ok(t.a[0])
        return s if v == 'Continue' else b_not(s)
    if op == 'residual':
        # Result<Infallible, E> / Option<Infallible>
        return 1 if v in ('Err', 'None') else 0
    if op == 'rec':
        return is_var(t.a[0], v, variants)
    if variants is None:
        variants = {'Some': VARIANTS['Option'], 'None': VARIANTS['Option'],
                    'Ok': VARIANTS['Result'], 'Err': VARIANTS['Result'],
                    'Continue': VARIANTS['ControlFlow'], 'Break': VARIANTS['ControlFlow']}.get(v)
    if variants:
        if len(variants) == 1:
            return 1
        if set(variants) == {'None', 'Some'}:
            variants = ('Some', 'None')
        r = 1
        for w in variants[:-1]:
            a = b_var(mk('is', t, w))
            if w == v:
                return b_and(r, a)
            r = b_and(r, b_not(a))
        return r
    return b_var(mk('is', t, v))


def is_ok(x):
    """BDD: Option/Result term is Some/Ok"""
    if x.op == 'adt':
        return 1 if x.a[1] in ('Some', 'Ok') else 0
    if x.op == 'ite':
        return b_ite(x.a[0], is_ok(x.a[1]), is_ok(x.a[2]))
    if x.op in ('undef', 'residual'):
        return 0
    k = KIND.get(x)
    if k == 'Result' or (k is None and looks_result(x)):
        return is_var(x, 'Ok', VARIANTS['Result'])
    return is_var(x, 'Some', VARIANTS['Option'])


def disc(t, variants):
    """variants: tuple of (value, name)"""
    if t.op == 'adt':
        for n, v in variants:
            if v == t.a[1]:
                return Int(n)
    if t.op == 'ite':
        return ite(t.a[0], disc(t.a[1], variants), disc(t.a[2], variants))
    return mk('disc', t, variants)


def le0(t):
    """BDD for integer term t <= 0"""
    if t.op == 'int':
        return 1 if t.a[0] <= 0 else 0
    if t.op == 'ite':
        return b_ite(t.a[0], le0(t.a[1]), le0(t.a[2]))
    c, ts = as_lin(t)
    if len(ts) == 1:
        (x, k), = ts.items()
        if x.op == 'sum' and c in (0, 1) and abs(k) == 1:
            pos = some_positive(x)
            if pos is not None:
                if k == 1:
                    return b_not(pos) if c == 0 else 0
                return pos if c == 1 else 1
    # push through ite summands (few, small)
    for x, k in ts.items():
        if x.op == 'ite' and x.a[1].op in ('int', 'lin', 'fld', 'at') and len(ts) <= 4:
            rest = sub(t, scale(x, k))
            return b_ite(x.a[0], le0(add(rest, scale(x.a[1], k))), le0(add(rest, scale(x.a[2], k))))
    items = sorted(ts.items(), key=lambda z: z[0].id)
    import math
    g = 0
    for _, k in items:
        g = math.gcd(g, abs(k))
    if items[0][1] < 0:
        # t<=0  <=>  not (-t+1 <= 0)
        return b_not(le0(add(neg(t), Int(1))))
    if g > 1:
        # sum g*k*x <= -c  <=> sum k*x <= floor(-c/g)
        c2 = -((-c) // g)
        t = lin(c2, {x: k // g for x, k in items})
    return b_var(mk('le0', t))


def some_positive(s):
    """sum of terms that are never negative: the BDD that it is positive"""
    def go(x):
        if x.op == 'int':
            return None if x.a[0] < 0 else 1 if x.a[0] else 0
        if x.op == 'ite':
            a, b = go(x.a[1]), go(x.a[2])
            return None if a is None or b is None else b_ite(x.a[0], a, b)
        if x.op == 'case':
            r = 0
            for v, g in x.a[0]:
                a = go(v)
                if a is None:
                    return None
                r = b_or(r, b_and(g, a))
            return r
        if x.op == 'b':
            return x.a[0]
        if x.op == 'sum':
            return some_positive(x)
        return None
    c = go(s.a[1])
    return None if c is None else exists(s.a[0], c)


def lt(a, b):
    return le0(add(sub(a, b), Int(1)))


def le(a, b):
    return le0(sub(a, b))


def numeric(t):
    return t.op in ('int', 'lin')


def eq(a, b):
    """BDD for equality of two terms"""
    if a is b:
        return 1
    if a.op == 'undef' or b.op == 'undef':
        return 0
    if a.op == 'ite':
        return b_ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite':
        return b_ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.op == 'b' or b.op == 'b':
        return b_not(b_xor(as_bool(a), as_bool(b)))
    for x, y in ((a, b), (b, a)):
        if x.op == 'disc' and y.op == 'int':
            for n, v in x.a[1]:
                if n == y.a[0]:
                    return is_var(x.a[0], v, tuple(w for _, w in x.a[1]))
            return 0
    if a.op == 'disc' and b.op == 'disc':
        x, y = a.a[0], b.a[0]
        r = 0
        for n, v in a.a[1]:
            vs = tuple(w for _, w in a.a[1])
            r = b_or(r, b_and(is_var(x, v, vs), is_var(y, v, vs)))
        return r
    if a.op == 'adt' or b.op == 'adt':
        if a.op != 'adt':
            a, b = b, a
        if b.op == 'adt':
            if a.a[1] != b.a[1]:
                return 0
            r = 1
            for x, y in zip(a.a[3], b.a[3]):
                r = b_and(r, eq(x, y))
            return r
        vs = VARIANTS.get(a.a[0])
        enum = vs is not None or a.a[0] in ENUMS or a.a[1] != a.a[0].split('::')[-1]
        r = is_var(b, a.a[1], vs or ENUMS.get(a.a[0])) if enum else 1
        for n, x in zip(a.a[2], a.a[3]):
            e = ('vf', a.a[1], n) if enum else ('f', n)
            r = b_and(r, eq(x, proj(b, e)))
        return r
    if a.op == 'tup' and b.op == 'tup':
        r = 1
        for x, y in zip(a.a[0], b.a[0]):
            r = b_and(r, eq(x, y))
        return r
    if a.op in ('bytes', 'fnc') and b.op in ('bytes', 'fnc'):
        return 0
    if numeric(a) or numeric(b) or intlike(a) or intlike(b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'sum' and y.op == 'int' and y.a[0] == 0:
                pos = some_positive(x)
                if pos is not None:
                    return b_not(pos)
        d = sub(a, b)
        if d.op == 'int':
            return 1 if d.a[0] == 0 else 0
        c, ts = as_lin(d)
        items = sorted(ts.items(), key=lambda z: z[0].id)
        if items[0][1] < 0:
            d = neg(d)
        for x, y in ((a, b), (b, a)):
            if y.op == 'int':
                EQ_CONST.setdefault(x, set()).add(y.a[0])
        return b_var(mk('eq0', d))
    if a.id > b.id:
        a, b = b, a
    for x, y in ((a, b), (b, a)):
        if y.op == 'bytes':
            EQ_CONST.setdefault(x, set()).add(y)
            if len(y.a[0]) == 0:
                return eq(ln(x), Int(0))
    return b_var(mk('eq', a, b))


ENUMS = {}  # adt path -> variants (for enums only)

INTT = {'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128'}


def intlike(t):
    return TYPE.get(t) in INTT or t.op in ('len', 'sum', 'trunc', 'div', 'rem', 'dive', 'reme',
                                           'shr', 'band', 'mul', 'min', 'max')


def fn2(op, x, y):
    """min/max"""
    if x.op == 'int' and y.op == 'int':
        return Int(min(x.a[0], y.a[0]) if op == 'min' else max(x.a[0], y.a[0]))
    c = le(x, y)
    if c == 1:
        return x if op == 'min' else y
    if c == 0:
        return y if op == 'min' else x
    return ite(c, x, y) if op == 'min' else ite(c, y, x)


def ln(v):
    """length of a vec/slice/string/map value"""
    if v.op in ('arr',):
        return Int(len(v.a[0]))
    if v.op == 'bytes':
        return Int(len(v.a[0]))
    if v.op in ('aset', 'scatter', 'sset', 'sorted', 'reversed', 'sortedby'):
        return ln(v.a[0])
    if v.op == 'uninitvec':
        return v.a[0]
    if v.op == 'ite':
        return ite(v.a[0], ln(v.a[1]), ln(v.a[2]))
    if v.op == 'repeat':
        return v.a[1]
    if v.op == 'sub':
        return v.a[2]
    if v.op == 'push':
        return add(ln(v.a[0]), Int(1))
    if v.op == 'cat':
        return add(ln(v.a[0]), ln(v.a[1]))
    if v.op == 'comp':
        return sum_(v.a[0], ite(v.a[1], Int(1), Int(0)))
    if v.op == 'vecrem':
        return sub(ln(v.a[0]), Int(1))
    if FIXEDLEN and v.op == 'fld' and v.a[1] in FIXEDLEN and v.a[0].op == 'fld' and v.a[0].a[1] == 'node_data':
        return Int(FIXEDLEN[v.a[1]])
    return mk('len', v)


# lengths fixed by the decoder (obligation node_data_len); set while commands are analysed
FIXEDLEN = {}


def is_empty(v):
    if v.op == 'comp':
        return b_not(exists(v.a[0], v.a[1]))
    if v.op == 'ite':
        return b_ite(v.a[0], is_empty(v.a[1]), is_empty(v.a[2]))
    if v.op == 'cat':
        return b_and(is_empty(v.a[0]), is_empty(v.a[1]))
    if v.op == 'push':
        return 0
    return eq(ln(v), Int(0))


def comps(base):
    return base.a[0] if base.op == 'prod' else (base,)


def prodbase(bs):
    """product of iteration bases; independent ones in canonical order"""
    out = []
    for b in bs:
        out += list(comps(b))
    if len(out) == 1:
        return out[0]
    if not any(mentions_el(b) for b in out):
        out.sort(key=lambda b: b.id)
    return mk('prod', tuple(out))


_mel = {}


def mentions_el(t):
    r = _mel.get(t)
    if r is None:
        if t.op == 'el':
            r = True
        else:
            r = any(mentions_el(x) for x in allkids(t))
        _mel[t] = r
    return r


def allkids(t):
    """child terms, including those inside guards (arguments that are BDDs)"""
    op = t.op
    if op == 'b':
        return b_support(t.a[0])
    if op == 'ite':
        return b_support(t.a[0]) + [t.a[1], t.a[2]]
    if op == 'exists':
        return [t.a[0]] + b_support(t.a[1])
    if op in ('comp', 'firstval', 'mapcomp'):
        return [t.a[0]] + b_support(t.a[1]) + [t.a[2]]
    if op == 'mapof':
        return [t.a[0]] + b_support(t.a[1]) + [t.a[2], t.a[3]]
    if op == 'scatter':
        return [t.a[0], t.a[1]] + b_support(t.a[2]) + [t.a[3], t.a[4]]
    if op in ('mu', 'after', 'more', 'lexit'):
        return []
    if op == 'ref':
        return [e[1] for e in t.a[1] if e[0] == 'i']
    return list(children(t))


def exists(base, cond):
    if cond == 0:
        return 0
    if cond > 1:
        sup = b_support(cond)
        if len(sup) == 1 and sup[0].op == 'exists' and cond == b_var(sup[0]):
            return exists(prodbase((base, sup[0].a[0])), sup[0].a[1])
    return b_var(mk('exists', base, cond))


def sum_(base, x):
    if x.op == 'int' and x.a[0] == 0:
        return x
    if x.op == 'sum':
        return sum_(prodbase((base, x.a[0])), x.a[1])
    if x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1:
        return scale(sum_(base, x.a[1][0][0]), x.a[1][0][1])
    r = mk('sum', base, x)
    return r


def firstval(base, cond, v):
    return mk('firstval', base, cond, v)


def mapcomp(m, base, cond, val):
    """map with the keys of m that satisfy cond, and values val (over the token of keys(m))"""
    if cond == 1 and val.op == 'at' and val.a[0] is m and val.a[1].op == 'el':
        return m
    return mk('mapcomp', base, cond, val)


def scatter(arr, base, cond, idx, val):
    """arr with arr[idx] := val for every element of base that satisfies cond"""
    if cond == 0:
        return arr
    return mk('scatter', arr, base, cond, idx, val)


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '#%d' % t.id
    d = depth - 1
    op, a = t.op, t.a
    if op == 'int':
        return str(a[0])
    if op == 'b':
        return '[%s]' % b_str(a[0], d)
    if op == 'lin':
        s = ' + '.join(('%d*%s' % (k, show(x, d))) if k != 1 else show(x, d) for x, k in a[1])
        return '(%s%s)' % (s, ' + %d' % a[0] if a[0] else '')
    if op == 'fld':
        return '%s.%s' % (show(a[0], d), a[1])
    if op == 'pay':
        return '%s?%s' % (show(a[0], d), a[1])
    if op == 'at':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'sym':
        return str(a[0])
    if op == 'adt':
        n = a[0].split('::')[-1]
        return '%s::%s{%s}' % (n, a[1], ', '.join('%s' % (show(v, d)) for f, v in zip(a[2], a[3]))) \
            if a[3] else '%s::%s' % (n, a[1])
    if op == 'tup':
        return '(%s)' % ', '.join(show(x, d) for x in a[0])
    if op == 'ite':
        return 'ite(%s; %s; %s)' % (b_str(a[0], d), show(a[1], d), show(a[2], d))
    if op == 'bytes':
        return repr(bytes(a[0])[:40])
    if op == 'le0':
        return '%s<=0' % show(a[0], d)
    if op == 'eq0':
        return '%s==0' % show(a[0], d)
    if op == 'is':
        return '%s is %s' % (show(a[0], d), a[1])
    if op == 'eq':
        return '%s==%s' % (show(a[0], d), show(a[1], d))
    if op == 'el':
        return 'el<%s>%s' % (show(a[0], 2), a[1:])
    if op == 'exists':
        return 'exists(%s: %s)' % (show(a[0], 2), b_str(a[1], d))
    if op == 'ref':
        return '&%s' % show_place(a)
    return '%s(%s)' % (op, ', '.join(show_arg(x, d) for x in a))


def show_arg(x, d):
    if isinstance(x, T):
        return show(x, d)
    if isinstance(x, tuple):
        return '(%s)' % ', '.join(show_arg(y, d) for y in x)
    return str(x)


def show_place(a):
    root, path = a
    s = '.'.join(str(x) for x in root)
    for e in path:
        s += '[%s]' % show(e[1], 3) if e[0] == 'i' else '.' + '.'.join(str(x) for x in e[1:])
    return s


# ---------------------------------------------------------------- slices
def slice_of(v, lo, hi):
    """value of v[lo..hi]"""
    if v.op == 'ite':
        return ite(v.a[0], slice_of(v.a[1], lo, hi), slice_of(v.a[2], lo, hi))
    if lo.op == 'int' and hi.op == 'int' and v.op == 'bytes':
        return mk('bytes', v.a[0][lo.a[0]:hi.a[0]])
    if lo.op == 'int' and lo.a[0] == 0 and hi is ln(v):
        return v
    if v.op == 'sub':
        return mk('sub', v.a[0], add(v.a[1], lo), sub(hi, lo))
    return mk('sub', v, lo, sub(hi, lo))


_proj0, _upd0, _at0 = proj, upd, at


def proj(v, e):
    if e[0] == 's':
        return slice_of(v, e[1], e[2])
    return _proj0(v, e)


def at(v, i):
    if v.op == 'sset':
        arr, lo, hi, x = v.a
        c = b_and(le(lo, i), lt(i, hi))
        return ite(c, at(x, sub(i, lo)), at(arr, i))
    if v.op == 'mapset':
        arr, j, x = v.a
        return ite(eq(i, j), x, at(arr, i))
    return _at0(v, i)


def upd(v, path, x):
    if path and path[0][0] == 's':
        if len(path) > 1 and path[1][0] == 'i':
            return upd(v, (('i', add(path[0][1], path[1][1])),) + path[2:], x)
        return mk('sset', v, path[0][1], path[0][2], upd(proj(v, path[0]), path[1:], x))
    return _upd0(v, path, x)


def has(m, k):
    if m.op == 'mapset':
        return b_or(eq(m.a[1], k), has(m.a[0], k))
    if m.op == 'mapdel':
        return b_and(b_not(eq(m.a[1], k)), has(m.a[0], k))
    if m.op == 'mapnew':
        return 0
    if m.op == 'ite':
        return b_ite(m.a[0], has(m.a[1], k), has(m.a[2], k))
    if k.op == 'el' and k.a[0].op == 'keys' and k.a[0].a[0] is m:
        return 1
    return b_var(mk('has', m, k))
