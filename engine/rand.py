"""Random interpretation of value-graph terms (Gulwani & Necula), a filter for normal forms that differ.

When the normal forms of the code and of the specification are not identical, both value graphs are
interpreted over randomly chosen assignments of the opaque inputs.  A disagreement witnesses that the
difference is real; agreement on every assignment means that it is only a difference of form.
"""
import functools
import hashlib
import json
import os
import random
import re
import core
from core import *
import interp
import anchors

NWORLDS = 14


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- values
class Q(object):
    """opaque value"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Q) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'Q%s' % (self.k,)


UNDEF = Q('undef')
UNINIT = Q('uninit')


class Uninit(Undecided):
    """an uninitialised element is used"""


class O(object):
    """struct or enum value (fields generated on demand)"""
    __slots__ = ('ty', 'var', 'f', 'src', '_h')

    def __init__(self, ty, var, f, src=None):
        self.ty, self.var, self.f, self.src, self._h = ty, var, f, src, None

    def get(self, n):
        if n in self.f:
            return self.f[n]
        if self.src is None:
            return UNDEF
        w, key, ftys = self.src
        for i, (fn, ft) in enumerate(ftys):
            if fn == n or str(i) == n:
                v = w.gen(ft, (key, fn), fn)
                self.f[fn] = v
                return v
        return UNDEF

    def canon(self):
        if self._h is None:
            if self.src is not None:
                for fn, ft in self.src[2]:
                    self.get(fn)
            self._h = (self.var,) + tuple(sorted(self.f.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, O) and (o is self or o.canon() == self.canon())

    def __hash__(self):
        return hash(self.canon())

    def __repr__(self):
        return '%s%r' % (self.var, self.f)


class M(object):
    """map value"""
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d, self._h = d, None

    def canon(self):
        if self._h is None:
            self._h = frozenset(self.d.items())
        return self._h

    def __eq__(self, o):
        return isinstance(o, M) and o.canon() == self.canon()

    def __hash__(self):
        return hash(self.canon())

    def __repr__(self):
        return 'M%r' % self.d


def Some(x):
    return O('Option', 'Some', {'0': x})


NoneV = O('Option', 'None', {})


def Ok(x):
    return O('Result', 'Ok', {'0': x})


def Err(x):
    return O('Result', 'Err', {'0': x})


UNITV = ('tup',)


class Tup(tuple):
    """tuple value (sequences are plain tuples)"""
    def __eq__(self, o):
        return isinstance(o, Tup) and tuple.__eq__(self, o)

    def __hash__(self):
        return tuple.__hash__(self) ^ 77


def decode(x):
    return bytes(num(c) & 255 for c in x).decode('utf8', 'surrogateescape')


def chrapp(n, vs):
    x = vs[0]
    if not isinstance(x, int):
        return UNDEF
    c = chr(x) if 0 <= x < 0x110000 else '\0'
    if n == 'to_ascii_lowercase':
        return ord(c.lower()) if x < 128 else x
    if n == 'to_ascii_uppercase':
        return ord(c.upper()) if x < 128 else x
    if n == 'is_digit':
        try:
            return x < 128 and int(c, num(vs[1])) >= 0
        except ValueError:
            return False
    a = n.startswith('is_ascii')
    if n == 'is_ascii':
        return x < 128
    if a and x > 127:
        return False
    f = {'lowercase': str.islower, 'uppercase': str.isupper, 'digit': str.isdigit, 'alphanumeric': str.isalnum,
         'alphabetic': str.isalpha, 'numeric': str.isnumeric, 'whitespace': str.isspace,
         'control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160, 'hexdigit': lambda c: c in '0123456789abcdefABCDEF',
         'graphic': lambda c: 32 < ord(c) < 127, 'punctuation': lambda c: 32 < ord(c) < 127 and not c.isalnum()}
    k = n[9:] if a else n[3:]
    if k not in f:
        raise Undecided('character operation ' + n)
    return bool(f[k](c))


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, Q):
        if v is UNINIT:
            raise Uninit('uninitialised memory is read')
        return 0 if v is UNDEF else int(hashlib.blake2b(repr(v.k).encode(), digest_size=2).hexdigest(), 16) % 7
    return 0


def truth(v):
    if isinstance(v, Q):
        return num(v) % 2 == 1
    return bool(v) if isinstance(v, (bool, int)) else False


def key_sort(v):
    return repr(v) if not isinstance(v, (int, tuple)) else v


NAMES = [tuple(x) for x in (b'air', b'a:b', b'a:c', b'default:stone', b'x', b'default:dirt')]
MBT = 'map_block::map_block::MapBlock'
INTS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64,
        'isize': 64, 'u128': 128, 'i128': 128}


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Frame(object):
    __slots__ = ('parent', 'depth', 'toks', 'vals', 'memo', 'lev', 'pos')

    def __init__(self, parent, toks, vals, lev, pos=None):
        self.parent, self.toks, self.vals, self.lev, self.pos = parent, toks, vals, lev, pos
        self.depth = parent.depth + 1 if parent else 0
        self.memo = {}


# ---------------------------------------------------------------- worlds
_known = []


def flat(x):
    if isinstance(x, frozenset):
        return '{%s}' % ' '.join(sorted(flat(y) for y in x))
    return '(%s)' % ' '.join(flat(y) for y in x) if isinstance(x, tuple) else str(x)


def known_consts():
    if not _known:
        try:
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known.json')) as f:
                _known.append(json.load(f))
        except OSError:
            _known.append({})
    return _known[0]


class Pool(object):
    """constants of the value graphs: assignments are drawn around them

    hot: constants that the code uses where the specification does not - assignments that concentrate on one or
    two of them reach conditions that single out a value, a length or a piece of text"""

    def __init__(self, code=(), spec=(), known=None):
        ci, cb = consts(code)
        si, sb = consts(spec)
        sv = set()
        if known is not None:      # functions without a specification as a value graph: what they are known to use
            if os.environ.get('CHECK_KNOWN'):      # tools/known.py collects them
                with open(os.environ['CHECK_KNOWN'], 'a') as f:
                    f.write(json.dumps([known, sorted((flat(x), v) for x, v in ci), sorted(cb)]) + '\n')
            k = known_consts().get(known)
            if k is None:
                if not spec:
                    ci, cb = set(), set()
            else:
                ik, bk = {tuple(x) for x in k[0]}, {tuple(x) for x in k[1]}
                si |= {(x, v) for x, v in ci if (flat(x), v) in ik}
                sb |= cb & bk
                sv = {v for _, v in ik}
        cv, sv = {v for _, v in ci}, sv | {v for _, v in si}
        self.ints, self.bytes = sorted(cv | sv), sorted(cb | sb)
        new = {v for _, v in ci - si}
        self.hot = sorted(v for v in new if v not in (0, 1, -1) and (v not in sv or abs(v) < 64))
        self.hotb = sorted(cb - sb)
        self.hot += [v for v in self.hot if v not in sv] * 3
        self.none = not self.hot and not self.hotb

    def pick(self, r, lo, hi, foc=()):
        src = foc if foc and r.random() < .8 else self.hot if self.hot and r.random() < .6 else self.ints
        if not src:
            return None
        v = r.choice(src) * r.choice((1, 1, 1, -1)) + r.choice((0, 0, 1, -1))
        return v if lo <= v <= hi else None


def consts(terms):
    """({(what the constant is used in, constant)}, byte strings)"""
    ints, bs, seen, todo = set(), set(), set(), list(terms)

    def leaf(t):
        return t.op if t.op not in ('fld', 'app', 'len') else (t.op,) + tuple(x for x in t.a if isinstance(x, str)) \
            if t.op != 'len' else ('len', leaf(t.a[0]))
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'lin':
            w = frozenset(leaf(x) for x, _ in t.a[1] if isinstance(x, T))
            ints.add((('lin', w), t.a[0]))
            ints.update((('mul', leaf(x) if isinstance(x, T) else ''), k) for x, k in t.a[1] if isinstance(k, int))
        elif t.op == 'bytes':
            bs.add(tuple(t.a[0]))
        for x in allkids(t):
            if isinstance(x, T):
                if x.op == 'int' and t.op == 'arr' and all(isinstance(y, T) and y.op == 'int' and 0 <= y.a[0] < 256 for y in t.a[0]):
                    bs.add(tuple(y.a[0] for y in t.a[0]))
                elif x.op == 'int':
                    ints.add(((t.op,) + tuple(y for y in t.a if isinstance(y, str)), x.a[0]))
                else:
                    todo.append(x)
    return ints, bs


EMPTYPOOL = None
LIM = 1936


# base, operands outside, guards and terms under the binder
BINDERS = {'exists': (0, (), (1,), ()), 'sum': (0, (), (), (1,)), 'comp': (0, (), (1,), (2,)), 'firstval': (0, (), (1,), (2,)),
           'mapcomp': (0, (), (1,), (2,)), 'mapof': (0, (), (1,), (2, 3)), 'scatter': (1, (0,), (2,), (3, 4)),
           'fold': (0, (2,), (), (3,))}


DEPS = {}


class World(object):
    nf = Q('nf')        # the error of reading a block that is not there

    def __init__(self, seed, types, loops=(), fix=None, pool=None):
        self.seed, self.types = seed, types
        self.root = Frame(None, frozenset(), {}, {})
        self.loops = {l.id: l for l in loops}
        self.fix = fix or {}
        self.pool = pool or Pool()
        self.budget = 3000000
        key = tuple(id(l) for l in loops)
        if key not in DEPS:
            DEPS[key] = {}, tuple(loops)
        self.deps_memo = DEPS[key][0]
        self.itm = {}
        self.unsafe = None
        r = random.Random(repr(seed))
        m = r.random()
        self.foc, self.focb = (), ()
        if not self.pool.none and r.random() < .7:
            if self.pool.hot:
                self.foc = [r.choice(self.pool.hot) for _ in range(r.choice((1, 1, 2)))]
            if self.pool.hotb:
                self.focb = [r.choice(self.pool.hotb) for _ in range(r.choice((1, 1, 2)))]
        self.org = [r.choice((-LIM, 0, LIM - 1)) for _ in 'xyz'] if m < .12 else [0, 0, 0]
        self.box = self.genbox(r)
        self.exact = []
        for v in self.foc:       # the area reaches the value, as a node or as a block position or as the key of a block
            if 4096 <= abs(v) < 1 << 36 and r.random() < .4:
                p = self.unkey(r.choice((v, -v)))
                if all(abs(c) <= 1932 for c in p):
                    self.org = p
                    self.exact.append(tuple(p))
                    self.box = self.genbox(r)
                    continue
            if 40 < abs(v) < 32000 and r.random() < .4:
                for i in range(3):
                    if r.random() < .4:
                        v *= r.choice((1, -1))
                        o = v // 16 if abs(v) > LIM + 2 or r.random() < .7 else v + r.choice((-1, 0, 1))
                        self.org[i] = o
                        self.box[i] = (16 * o + r.randrange(-18, 16), 16 * o + r.randrange(16, 40))
        m = r.random()
        step = [0, 0, 0]
        for i in range(3):
            if r.random() < .7:
                step[i] = r.choice([0, 16, -16, 1, -1, 15, -15, 17, r.randrange(-40, 40), r.randrange(-20, 20)])
        for v in self.foc:       # far copies, with the area on the other side of the map
            if 300 < abs(v) < 61900 and r.random() < .2:
                i = r.randrange(3)
                v = r.choice((1, 1, 1, -1)) * v
                step[i] = v + r.choice((0, 0, 1, -1, 2, -2, 16, -16, r.randrange(-40, 40)))
                o = -(v // 32) + r.choice((0, 0, r.randrange(-100, 100)))
                self.org[i] = o = max(-LIM, min(LIM - 1, o))
                self.box[i] = (16 * o + r.randrange(-18, 16), 16 * o + r.randrange(16, 40))
        self.off = step
        self.blocks = self.genblocks(r)
        names = NAMES[:] + [b + r.choice(((120,), (95, 49), (58, 98))) for b in NAMES[1:4]]
        for b in self.pool.bytes:
            if 0 < len(b) < 20:
                names.append(b)
        r.shuffle(names)
        self.names = []
        for n in names:
            if n not in self.names and len(self.names) < 2 + self.h('nn') % 4:
                self.names.append(n)
        if r.random() < .4:      # names that are prefixes of each other
            n = r.choice(self.names)
            self.names.append(n + r.choice([(120,), (120, 121), tuple(b'_long_name')]))
        self.strs = [(), (49,), (48,), (97, 98), self.names[0], tuple(r.randrange(256) for _ in range(3))]
        self.strs += [b for b in self.pool.hotb][:6]
        if self.foc or self.focb:
            self.names = [self.spice(r, n) for n in self.names]
            self.strs = [self.spice(r, n) for n in self.strs]

    def spice(self, r, s, p=.3):
        """text with a piece of what the world concentrates on"""
        bits = [b for b in self.focb if len(b) < 12] + [(abs(v),) for v in self.foc if 0 < abs(v) < 256]
        if not bits or r.random() > p:
            return s
        x, s = r.choice(bits), tuple(s)
        ends = [0, len(s), len(s), r.randrange(len(s) + 1)] + [i for i, c in enumerate(s) if c in (10, 32, 34)] * 2
        i = r.choice(ends) + (r.random() < .3)
        return s[:i] + x + s[i:]

    def h(self, *k):
        return int(hashlib.blake2b(repr((self.seed, k)).encode(), digest_size=8).hexdigest(), 16)

    def rng(self, *k):
        return random.Random(self.h(*k))

    # -------------------------------------------------------- generation
    def gen(self, ty, key, hint=''):
        ty = ty.strip()
        while ty.startswith('&'):
            ty = ty[1:].strip()
            if ty.startswith("'"):
                ty = ty.split(' ', 1)[1]
            if ty.startswith('mut '):
                ty = ty[4:]
        f = self.fix.get(hint) or self.fix.get(ty)
        if f is not None:
            r = f(self, key, ty)
            if r is not None:
                return r
        r = self.rng(key)
        if ty in INTS:
            n = INTS[ty]
            if r.random() < (.5 if self.foc else .3):
                v = self.pool.pick(r, 0, (1 << n) - 1, self.foc) if ty[0] == 'u' else \
                    self.pool.pick(r, -(1 << n - 1), (1 << n - 1) - 1, self.foc)
                if v is not None:
                    return v
            if r.random() < .06:
                return r.choice([(1 << n) - 1, (1 << n) - 2, 1 << n - 1] if ty[0] == 'u' else
                                [-(1 << n - 1), (1 << n - 1) - 1, -1])
            if ty == 'u8':
                return r.choice([0, 1, 2, 255, r.randrange(256)])
            if ty[0] == 'u':
                return r.choice([0, 1, 2, 3, r.randrange(20)])
            return r.randrange(-6, 20)
        if ty == 'bool':
            return r.random() < .5
        if ty in ('f32', 'f64'):
            return float(r.randrange(-300, 300))
        if ty == 'char':
            return r.randrange(32, 127)
        if ty in ('()', '!'):
            return UNITV
        base, args = ty, []
        if ty.endswith('>') and '<' in ty:
            base, args = ty[:ty.index('<')], split_args(ty[ty.index('<') + 1:-1])
        b = base.split('::')[-1]
        if b in ('Box', 'Arc', 'Rc', 'Cow', 'Mutex') and args:
            return self.gen(args[-1], key, hint)
        if b == 'Option':
            return NoneV if r.random() < .35 else Some(self.gen(args[0], (key, 'S'), hint))
        if b == 'Result':
            return Err(self.gen(args[1], (key, 'E'))) if r.random() < .3 else Ok(self.gen(args[0], (key, 'K')))
        if b in ('String', 'str') or ty in ('std::vec::Vec<u8>', '[u8]'):
            return self.genbytes(r, hint)
        if b == 'Vec' or b == 'VecDeque':
            return tuple(self.gen(args[0], (key, i), hint) for i in range(self.length(r)))
        if ty.startswith('[') and ';' in ty:
            t, n = ty[1:-1].rsplit(';', 1)
            try:
                return tuple(self.gen(t, (key, i), hint) for i in range(int(n.split('_')[0])))
            except ValueError:
                return tuple(self.gen(t, (key, i), hint) for i in range(2))
        if ty.startswith('['):
            return tuple(self.gen(ty[1:-1], (key, i), hint) for i in range(self.length(r)))
        if b in ('BTreeMap', 'HashMap'):
            d = {}
            for i in range(self.length(r, 400 if self.foc and r.random() < .4 else 40, (0, 1, 2, 3, 4))):
                k = self.gen(args[0], (key, 'k', i), hint)
                if k in d and isinstance(k, tuple):
                    k += tuple(b'%d' % i)
                d[k] = self.gen(args[1], (key, 'v', i), hint)
            return M(d)
        if ty.startswith('('):
            return Tup(self.gen(t, (key, i)) for i, t in enumerate(split_args(ty[1:-1])))
        if ty == MBT:
            return self.genblock(r, key)
        if ty == 'spatial::area::Area':
            return self.genarea(r, hint)
        t = self.types.get(base) or self.types.get(ty)
        if t is not None:
            v = t['variants'][r.randrange(len(t['variants']))] if t['variants'] else [b, []]
            return O(base, v[0], {}, (self, key, v[1]))
        return Q((ty, key))

    def length(self, r, cap=40, usual=(0, 0, 1, 2, 3)):
        n = [abs(v) + d for v in self.foc for d in (0, 1, 2, 1 + r.randrange(8)) if abs(v) + d <= cap]
        if n and r.random() < .3:
            return r.choice(n)
        if r.random() < .1:
            v = self.pool.pick(r, 0, min(cap, 40))
            if v is not None:
                return v
        return r.choice(usual)

    def genbytes(self, r, hint):
        s = self.genbytes_(r, hint)
        return self.spice(r, s, .5) if hint in ('data', 'inv') and (self.foc or self.focb) else s

    def genbytes_(self, r, hint):
        if hint in ('node', 'nodes', 'new_node', 'item', 'new_item', 'object', 'name', 'nimap', 'names', 'items'):
            return r.choice(self.names)
        if hint == 'data':
            n = bytes(r.choice(self.names)).decode('latin1') + r.choice(['', ' 5', ' 1 3', ' ', '"', '  x'])
            return tuple(r.choice([n, 'return {["age"] = 3, ["itemstring"] = "%s", ["x"] = "y"}' % n, 'return {itemstring="%s",age=3}' % n,
                                   'return {["age"] = 3}', 'return {age=1,itemstring="%s"} ["itemstring"] = "zz"' % n, '',
                                   'itemstring="%s"' % n]).encode('latin1'))
        if hint == 'inv':
            out = ['List main 3']
            k = self.length(r, 80, (0, 1, 3, 5))
            one = r.choice(self.names) if k > 5 and r.random() < .7 else None
            for _ in range(k + 1 if one else k):
                n = bytes(one or r.choice(self.names)).decode('latin1')
                c, w = r.choice([0, 1, 1, 2, 5, 10, 99, 65535]), r.choice([0, 0, 1, 9, 65535])
                if one and r.random() < .97:
                    out.append(r.choice(['Item ' + n, 'Item %s %d' % (n, c), 'Item %s %d %d' % (n, c, w)]))
                    continue
                out.append(r.choice(['Item ' + n, 'Item %s %d' % (n, c), 'Empty', 'Width 3', 'Item', '', 'Item  ' + n,
                                     'Item %s ' % n, 'Item %s %d ' % (n, c), 'Item %s %d  %d' % (n, c, w),
                                     'Item %s %d %d' % (n, c, w), 'Xtem ' + n, 'Item %s %d %d ' % (n, c, w),
                                     'Item %s %d %d a b  c' % (n, c, w), 'Item %s 01 %d' % (n, w), 'Item %s 1 00' % n,
                                     'Item %s %d %d \x01x\x02' % (n, c, w), 'Item %s %d %d \x01 \x02 \x03' % (n, c, w)]))
            far = [abs(v) for v in self.foc if 12 < abs(v) < 9000]
            if far and r.random() < .3:
                x = r.choice(('Item %s 5 6 ' % n, 'Item %s 5 6' % n, 'Item %s 5' % n, 'Item ' + n)) if k else 'Item ' + bytes(r.choice(self.names)).decode('latin1')
                out.insert(r.randrange(len(out)) + 1, x + ' 5 6 '[:max(0, 5 - x.count(' '))] + 'm' * (r.choice(far) - len(x) + r.randrange(-7, 8)))
            out.append('EndInventory')
            return tuple(('\n'.join(out) + r.choice(['\n', '', '\n\n'])).encode('latin1'))
        if r.random() < .04:
            v = self.pool.pick(r, 0, 300)
            if v:
                return tuple(r.randrange(97, 99) for _ in range(v))
        return r.choice(self.strs)

    def genbox(self, r):
        cs = []
        for o in self.org:
            n = r.choice([1, 2, 5, 14, 15, 16, 17, 31, 32, r.randrange(1, 50), r.randrange(1, 20)])
            a = r.choice([-16, 0, 16, -1, 15, r.randrange(-20, 20), r.randrange(-20, 20)])
            cs.append((a + 16 * o, a + n - 1 + 16 * o))
        return cs

    def genarea(self, r, hint=''):
        cs = self.box if hint == 'area' else self.genbox(r)
        return O('spatial::area::Area', 'Area', {'min': self.vec([c[0] for c in cs]),
                                                 'max': self.vec([c[1] for c in cs])})

    def genblocks(self, r):
        """block positions in, at and around the area and its shifted copy"""
        ps = []
        for o in ([0, 0, 0], self.off):
            ps.append([range((a + d) // 16 - 1, (b + d) // 16 + 2) for (a, b), d in zip(self.box, o)])
        out = self.exact[:]
        for _ in range(5 + r.randrange(5)):
            rs = r.choice(ps)
            p = tuple(r.choice(x) if r.random() < .35 or len(x) < 3 else r.choice(x[1:-1]) for x in rs)
            if p not in out:
                out.append(p)
        return out

    def vec(self, c):
        return O('spatial::vec3::Vec3', 'Vec3', dict(zip('xyz', c)))

    def near(self, r, bpos):
        """an index in the block, often at a face of the area"""
        c = []
        k = r.choice((0, 0, 1)) if r.random() < .2 else None       # a corner of the area: the lowest, the highest or any
        k = None if k is None else r.randrange(2) if k == 0 else 2
        for (a, b), p, d in zip(self.box, bpos or (0, 0, 0), r.choice(((0, 0, 0), self.off))):
            m = r.random()
            if k is not None:
                v = (a, b, r.choice((a, b)))[k] + d - 16 * p
                c.append(v if 0 <= v < 16 else r.randrange(16))
                continue
            v = r.choice([a, a - 1, b, b + 1]) + d - 16 * p if m < .6 else r.choice([0, 15, r.randrange(16)])
            c.append(v if 0 <= v < 16 else r.randrange(16))
        if self.foc and r.random() < .25:
            v = abs(r.choice(self.foc)) + r.choice((0, 0, 0, 1, -1))
            if 0 <= v < 4096:
                return v
            i = r.randrange(3)
            v -= 16 * (bpos or (0, 0, 0))[i]
            if 0 <= v < 16:
                c[i] = v
        return c[0] + 16 * c[1] + 256 * c[2]

    def genblock(self, r, key, bpos=None):
        n = r.choice([1, 2, 3, 3, 4, 5, 5])
        names = list(dict.fromkeys(self.names + [x for x in NAMES if r.random() < .4]))
        r.shuffle(names)
        n = min(n, len(names))
        ids = list(range(n))
        if r.random() < .12:      # IDs nothing uses
            ids = sorted(r.sample(range(n + 4), n))
        far = [k for v in self.foc for k in (abs(v) - 1, abs(v), abs(v) + 1) if n <= k < 4090]
        if far and r.random() < .3:
            ids = sorted(set(ids[:-1]) | {r.choice(far)} if r.random() < .6 else set(r.sample(far, min(n, len(far)))))
            n = len(ids)
        nimap = M(dict(zip(ids, names)))
        mode = r.random()
        few = [k for v in self.foc for k in (abs(v), 4096 - abs(v)) if 0 < k < 4096]
        if n > 1 and r.random() < (.2 if self.foc else .06):      # one node in two places
            a, x = r.sample(ids, 2)
            nodes = [a] * 4096
            nodes[self.near(r, bpos)] = x
            nodes[r.choice([0, 4095] + [abs(v) + d for v in self.foc for d in (-1, 0, 0, 1) if 0 < abs(v) + d < 4096])] = x
        elif few and mode < .35:
            nodes = [r.choice(ids)] * 4096
            x = r.choice(ids)
            for i in r.sample(range(4096), r.choice(few)):
                nodes[i] = x
        elif mode < .2 or n == 1:
            nodes = [r.choice(ids)] * 4096
            for _ in range(r.randrange(1, 12)):
                nodes[self.near(r, bpos)] = r.choice(ids)
        elif mode < .5:
            nodes = r.choices(ids, weights=[8] + [1] * (n - 1), k=4096)
        else:
            nodes = r.choices(ids, k=4096)
        meta = {}
        nm = self.length(r, 4096 if r.random() < .1 else 40, (0, 1, 2, 4, 6))
        if nm > 6:
            for i, x in enumerate(sorted(r.sample(range(4096), min(nm, 4096)))):
                meta[x] = self.gen('map_block::metadata::NodeMetadata', (key, 'meta', i % 50))
            nm = 3
        for i in range(nm):
            meta[r.choice([0, 15, 16, 255, 4095, self.near(r, bpos), self.near(r, bpos), self.near(r, bpos)])] = \
                self.gen('map_block::metadata::NodeMetadata', (key, 'meta', i))
        timers = []
        nt = self.length(r, 4096, (0, 1, 2, 4))
        for i in range(nt):
            o = self.gen('map_block::node_timer::NodeTimer', (key, 'timer', i))
            o.f['pos'] = self.near(r, bpos) if nt < 20 else i % 4096
            timers.append(o)
        objs = tuple(self.genobj(r, (key, 'obj', i), bpos) for i in range(self.length(r, 2600 if r.random() < .2 else 400, (0, 1, 2, 3, 4))))
        p2 = [0, 1, 2, 3] + [abs(v) % 256 for v in self.foc] + ([255] if r.random() < .2 else [])
        nd = O('NodeData', 'NodeData', {
            'nodes': tuple(nodes),
            'param1': tuple(r.choices(range(256), k=4096)),
            'param2': tuple(r.choices(p2, k=4096))})
        t = self.types.get(MBT)
        o = O(MBT, 'MapBlock', {'nimap': O('NameIdMap', 'NameIdMap', {'0': nimap}), 'node_data': nd,
                                'metadata': M(meta), 'static_objects': objs, 'node_timers': tuple(timers)},
              (self, key, t['variants'][0][1]))
        o.f['version'] = r.choice([25, 27, 28, 29, 29])
        return o

    def genobj(self, r, key, bpos=None):
        o = self.gen('map_block::static_object::StaticObject', key)
        if 'f_pos' in [x[0] for x in (o.src[2] if o.src else ())]:
            c = []
            for a, b in self.box:
                m = r.random()
                v = r.choice([a, a - 1, b, b + 1]) if m < .5 else r.randrange(a, b + 1) if m < .9 else r.choice([-1, 0, 1])
                c.append(v * 10000 + r.choice([0, -5000, 4999, 5000, -5001, -4999, r.randrange(-5000, 5000), r.randrange(-9999, 9999)]))
            o.f['f_pos'] = self.vec(c)
        return o

    def bkey(self, p):
        return p[0] + 4096 * p[1] + 16777216 * p[2]

    def unkey(self, k):
        out = []
        for _ in range(3):
            v = (k + 2048) % 4096 - 2048
            out.append(v)
            k = (k - v) // 4096
        return out

    # -------------------------------------------------------- dependencies
    def deps(self, t):
        r = self.deps_memo.get(t)
        return r if r is not None else self.solve(t)

    def ldeps(self, l):
        if l is None:
            return frozenset()
        r = self.deps_memo.get(('L', l.id))
        return r if r is not None else self.solve(('L', l.id))

    def solve(self, top):
        """bound tokens each term depends on: least fixed point (terms and loops refer to each other)"""
        memo = self.deps_memo
        order, seen = [], set()
        kids = {}

        def need(n):
            out = []
            if isinstance(n, tuple):
                l = self.loops.get(n[1])
                if l is None:
                    return out
                if l.base is not None:
                    out.append(l.base)
                for m in l.mods.values():
                    out.append(m['init'])
                    if 'next' in m:
                        out.append(m['next'])
                for c, st in getattr(l, 'outs', ()):
                    out += b_support(c)
                    out += st.values()
                for c, _ in l.exits:
                    out += b_support(c)
                return out
            op = n.op
            if op in ('el', 'acc'):
                out.append(n.a[0])
                if op == 'el':
                    for l in self.loops.values():
                        if l.exits and l.base is not None and n.a[0] in comps(l.base):
                            out.append(('L', l.id))
            elif op in ('mu', 'after', 'more', 'lexit', 'while'):
                out.append(('L', n.a[0]))
            else:
                out += allkids(n)
            return out
        st = [(top, None)]
        seen.add(top)
        kids[top] = need(top)
        st = [(top, iter(kids[top]))]
        while st:
            n, it = st[-1]
            for k in it:
                if k not in seen and k not in memo:
                    seen.add(k)
                    kids[k] = need(k)
                    st.append((k, iter(kids[k])))
                    break
            else:
                order.append(n)
                st.pop()
        val = {}

        def get(k):
            r = memo.get(k)
            return r if r is not None else val.get(k, frozenset())

        def gg(g):
            r = frozenset()
            for a in b_support(g):
                r |= get(a)
            return r

        def eqn(n):
            r = frozenset()
            if isinstance(n, tuple):
                l = self.loops.get(n[1])
                if l is None:
                    return r
                for k in kids[n]:
                    r |= get(k)
                own = set(m['mu'] for m in l.mods.values())
                r = frozenset(x for x in r if x not in own)
                if l.base is not None:
                    mx = {}
                    for x in r:
                        if x.op == 'el' and x.a[0] in comps(l.base):
                            mx[x.a[0]] = max(mx.get(x.a[0], 0), x.a[1])
                    r = frozenset(x for x in r if not (x.op == 'el' and x.a[0] in mx and mx[x.a[0]] == x.a[1]))
                return r
            op = n.op
            if op in ('el', 'acc', 'mu'):
                r = frozenset((n,))
            if op == 'sym' and (n.a[0] in ('split.elem', 'sort.elem', 'sort.elem2', 'sort.x', 'sort.y') or str(n.a[0])[:1] == '#'):
                return frozenset((n,))
            if op in BINDERS:
                bi, oi, gi, xi = BINDERS[op]
                base = n.a[bi]
                d = frozenset()
                for i in gi:
                    d |= gg(n.a[i])
                for i in xi:
                    d |= get(n.a[i])
                if base.op == 'while':
                    r = d
                else:
                    own = set(self.tokens_of(base, d))
                    if op == 'fold':
                        accs = [x for x in d if x.op == 'acc' and x.a[0] is base]
                        if accs:
                            own.add(max(accs, key=lambda x: x.a[1]))
                    r = frozenset(x for x in d if x not in own)
                r |= get(base)
                for i in oi:
                    r |= get(n.a[i])
                return r
            for k in kids[n]:
                r |= get(k)
            return r
        for _ in range(30):
            ch = False
            for n in order:
                r = eqn(n)
                if r != val.get(n):
                    val[n] = r
                    ch = True
            if not ch:
                break
        else:
            raise Undecided('dependencies')
        memo.update(val)
        return val[top]

    def gdeps(self, g):
        r = frozenset()
        for a in b_support(g):
            r |= self.deps(a)
        return r

    # -------------------------------------------------------- evaluation
    def ev(self, t, fr):
        op = t.op
        if op == 'int':
            return t.a[0]
        lev = fr.lev.get(t)
        if lev is None:
            d = self.deps(t)
            f = fr
            while f.depth and not (f.toks & d):
                f = f.parent
            lev = f.depth
            fr.lev[t] = lev
        while fr.depth > lev:
            fr = fr.parent
        m = fr.memo
        r = m.get(t, m)
        if r is m:
            self.budget -= 1
            if self.budget < 0:
                raise Undecided('too large')
            r = m[t] = self._ev(op, t.a, t, fr)
        return r

    def g(self, f, fr):
        nodes, atoms = core._nodes, core._atom_of
        while f > 1:
            v, lo, hi = nodes[f]
            f = hi if self.ev(atoms[v], fr) else lo
        return f == 1

    def bind(self, fr, toks, bodies):
        """tokens of `toks` (list) bound for evaluation of bodies"""
        return frozenset(toks)

    def tokens_of(self, base, deps):
        """el tokens a binder over base binds, given the dependencies of its body"""
        out, used = [], {}
        cs = comps(base)
        for i, c in enumerate(cs):
            n = cs.count(c)
            ds = [x.a[1] for x in deps if x.op == 'el' and x.a[0] is c]
            mx = max(ds) if ds else n - 1
            k = used.get(c, 0)
            used[c] = k + 1
            out.append(mk('el', c, max(0, mx - (n - 1)) + k))
        return out

    def elems(self, base, fr):
        """values of a single base"""
        op = base.op
        if op == 'range':
            lo, hi = num(self.ev(base.a[0], fr)), self.ev(base.a[1], fr)
            if base.a[1].op == 'sym' and base.a[1].a[0] == 'infinity':
                raise Undecided('unbounded iteration')
            return range(lo, num(hi))
        if op == 'keys':
            m = self.ev(base.a[0], fr)
            if not isinstance(m, M):
                return []
            return sorted(m.d, key=key_sort)
        if op == 'optbase':
            return [0]
        if op == 'inv':
            a = self.ev(base.a[0], fr)
            return [i for i in range(4096) if not self.inside(a, (i & 15, i >> 4 & 15, i >> 8))]
        if op == 'rows':
            if getattr(self, 'rows', None) is not None:
                return self.rows
            return [Tup((self.bkey(p), Q(('row', p)))) for p in self.blocks]
        if op == 'items':
            x = self.ev(base.a[0], fr)
            if isinstance(x, tuple):
                return list(x)
            if isinstance(x, Q):
                return [Q((x.k, 'item', i)) for i in range(self.h('items', x.k) % 4)]
            return []
        if op == 'chars':
            x = self.ev(base.a[0], fr)
            return [ord(c) for c in decode(x)] if isinstance(x, tuple) else []
        raise Undecided('base ' + op)

    def inside(self, a, p):
        if not isinstance(a, O):
            return False
        return all(num(a.get('min').get(c)) <= v <= num(a.get('max').get(c)) for c, v in zip('xyz', p))

    def iterate(self, base, fr, toks, bodies_deps=None, lev=None):
        """frames of every element of a base (product: nested, first component outermost)"""
        cs = comps(base)
        key = ('lev', base, tuple(toks))
        ts = frozenset(toks)
        lev = {}
        if len(cs) == 1:
            for i, v in enumerate(self.elems(cs[0], fr)):
                if i > 70000:
                    raise Undecided('long iteration')
                yield Frame(fr, ts, {toks[0]: v}, lev, {toks[0]: i})
            return

        levs = [{} for _ in cs]

        def go(i, f):
            if i == len(cs):
                yield f
                return
            for n, v in enumerate(self.elems(cs[i], f)):
                if n > 70000:
                    raise Undecided('long iteration')
                yield from go(i + 1, Frame(f, frozenset((toks[i],)), {toks[i]: v}, levs[i], {toks[i]: n}))
        yield from go(0, fr)

    def over(self, base, fr, deps):
        toks = self.tokens_of(base, deps)
        if base.op == 'while':
            l = self.loops.get(base.a[0])
            if l is None:
                raise Undecided('while')
            return self.run(l, fr)
        # loops that carry state (a summary over a base whose loop also has recurrences)
        mus = [x for x in deps if x.op == 'mu']
        if mus:
            for l in self.loops.values():
                if l.base is base and any(m['mu'] in mus for m in l.mods.values()):
                    return self.run(l, fr)
        return self.iterate(base, fr, toks)

    def run(self, l, fr, toks=None, full=False):
        """frames of the iterations of a loop, binding its recurrences; stops after the breaking iteration"""
        mods = [(k, m) for k, m in l.mods.items() if m['mu'].op == 'mu']
        mus = frozenset(m['mu'] for _, m in mods)
        st = {m['mu']: self.ev(m['init'], fr) for _, m in mods}
        outs = getattr(l, 'outs', ())
        lev = {}
        if l.base is None:
            for it in range(3000):
                f = Frame(fr, mus, st, lev, {})
                yield f
                if any(self.g(c, f) for c, _ in outs):
                    return
                st = {m['mu']: self.ev(m['next'], f) for _, m in mods}
            raise Undecided('loop does not end')
        if toks is None:
            d = frozenset()
            for _, m in mods:
                d |= self.deps(m['next'])
            for g, _ in l.exits:
                d |= self.gdeps(g)
            toks = self.tokens_of(l.base, d)
        rev = l.its and l.its[0][2] == 'rev'
        it = self.iterate(l.base, fr, toks)
        if rev:
            it = reversed(list(it))
        for f0 in it:
            f = Frame(f0, mus, st, lev, {}) if mods else f0
            yield f
            if l.exits and any(self.g(c, f) for c, _ in l.exits):
                return
            if mods:
                st = {m['mu']: self.ev(m['next'], f) for _, m in mods}

    def final(self, l, fr):
        """frame of the iteration that breaks out, and whether it did"""
        last = None
        for f in self.run(l, fr):
            last = f
        if last is None:
            return None, False
        ex = l.exits if l.base is not None else [(c, 0) for c, _ in getattr(l, 'outs', ())]
        return last, any(self.g(c, last) for c, _ in ex)

    def after(self, t, fr):
        l = self.loops.get(t.a[0])
        if l is None:
            raise Undecided('loop')
        m = l.mods.get((t.a[1], t.a[2]))
        if m is None:
            raise Undecided('loop state')
        if l.base is None:
            last = None
            for f in self.run(l, fr):
                last = f
            for c, st in l.outs:
                if self.g(c, last):
                    return self.ev(st[(t.a[1], t.a[2])], last)
            raise Undecided('loop exit')
        last = None
        for f in self.run(l, fr):
            last = f
        if last is None:
            return self.ev(m['init'], fr)
        return self.ev(m['next'], last)

    def _ev(self, op, a, t, fr):
        ev = self.ev
        if op == 'el':
            f = fr
            while f is not None:
                if t in f.vals:
                    return f.vals[t]
                f = f.parent
            for l in self.loops.values():
                if l.exits and l.base is not None and a[0] in comps(l.base):
                    last, brk = self.final(l, fr)
                    if brk:
                        f = last
                        while f is not None:
                            for x, v in f.vals.items():
                                if x.op == 'el' and x.a[0] is a[0]:
                                    return v
                            f = f.parent
            return UNDEF
        if op in ('acc', 'mu') or op == 'sym':
            f = fr
            while f is not None:
                if t in f.vals:
                    return f.vals[t]
                f = f.parent
            if op == 'mu':
                l = self.loops.get(a[0])
                if l is None:
                    raise Undecided('mu')
                last, brk = self.final(l, fr)
                if last is None:
                    return UNDEF
                return ev(t, last) if t in last.vals else UNDEF
            if op == 'acc':
                raise Undecided('acc')
            if str(a[0]).startswith('DB:'):
                return Q(a[0])
            return self.gen(core.TYPE.get(t, ''), ('sym', a[0]), str(a[0]))
        if op == 'lin':
            r = a[0]
            for x, k in a[1]:
                r += k * num(ev(x, fr))
            return r
        if op == 'le0':
            return num(ev(a[0], fr)) <= 0
        if op == 'eq0':
            x = a[0]
            return num(ev(x, fr)) == 0
        if op == 'b':
            return self.g(a[0], fr)
        if op == 'ite':
            return ev(a[1] if self.g(a[0], fr) else a[2], fr)
        if op == 'case':
            for v, g in a[0]:
                if self.g(g, fr):
                    return ev(v, fr)
            return UNDEF
        if op == 'fld':
            return self.field(ev(a[0], fr), a[1])
        if op == 'pay':
            x = ev(a[0], fr)
            if isinstance(x, O):
                return x.get(a[2]) if x.var == a[1] else UNDEF
            if isinstance(x, Q) and x is not UNDEF:
                return self.typed(t, (x.k, a[1], a[2]))
            return UNDEF
        if op == 'is':
            x = ev(a[0], fr)
            if isinstance(x, O):
                return x.var == a[1]
            if isinstance(x, Q) and x is not UNDEF:
                return self.h('is', x.k, a[1]) % 2 == 0
            return False
        if op == 'at':
            return self.index(ev(a[0], fr), ev(a[1], fr))
        if op == 'len':
            x = ev(a[0], fr)
            if isinstance(x, tuple):
                return len(x)
            if isinstance(x, M):
                return len(x.d)
            if isinstance(x, Q) and x is not UNDEF:
                return self.h('len', x.k) % 5
            return 0
        if op == 'has':
            x = ev(a[0], fr)
            if isinstance(x, M):
                return ev(a[1], fr) in x.d
            if isinstance(x, Q) and x is not UNDEF:
                return self.h('has', x.k, repr(ev(a[1], fr))) % 2 == 0
            return False
        if op == 'eq':
            return ev(a[0], fr) == ev(a[1], fr)
        if op == 'exists':
            for f in self.over(a[0], fr, self.gdeps(a[1])):
                if self.g(a[1], f):
                    return True
            return False
        if op == 'sum':
            r = 0
            for f in self.over(a[0], fr, self.deps(a[1])):
                r += num(ev(a[1], f))
            return r
        if op in ('comp', 'firstval', 'mapcomp'):
            out, d = [], {}
            for f in self.over(a[0], fr, self.gdeps(a[1]) | self.deps(a[2])):
                if self.g(a[1], f):
                    v = ev(a[2], f)
                    if op == 'firstval':
                        return v
                    if op == 'mapcomp':
                        for x, k in f.vals.items():
                            if x.op == 'el':
                                d[k] = v
                    else:
                        out.append(v)
            if op == 'firstval':
                return UNDEF
            return M(d) if op == 'mapcomp' else tuple(out)
        if op == 'mapof':
            d = {}
            for f in self.over(a[0], fr, self.gdeps(a[1]) | self.deps(a[2]) | self.deps(a[3])):
                if self.g(a[1], f):
                    d[ev(a[2], f)] = ev(a[3], f)
            return M(d)
        if op == 'scatter':
            arr = ev(a[0], fr)
            isM = isinstance(arr, M)
            if not isM and not isinstance(arr, tuple):
                raise Undecided('scatter of opaque')
            arr = dict(arr.d) if isM else list(arr)
            g = a[2]
            for f in self.over(a[1], fr, self.gdeps(a[2]) | self.deps(a[3]) | self.deps(a[4])):
                if g == 1 or self.g(g, f):
                    i = ev(a[3], f)
                    if isM:
                        arr[i] = ev(a[4], f)
                    elif 0 <= num(i) < len(arr):
                        arr[num(i)] = ev(a[4], f)
            return M(arr) if isM else tuple(arr)
        if op == 'fold':
            base, order, init, body = a
            deps = self.deps(body)
            accs = [x for x in deps if x.op == 'acc' and x.a[0] is base]
            mus = [x for x in deps if x.op == 'mu']
            l = mus and next((l for l in self.loops.values() if l.base is base and any(
                m['mu'] in mus for m in l.mods.values())), None)
            if not accs and not l:
                return ev(body, fr)
            acc = max(accs, key=lambda x: x.a[1]) if accs else None
            v = ev(init, fr)
            if l:       # the body reaches the recurrences of the loop through a loop inside
                it = self.run(l, fr)
            else:
                it = self.iterate(base, fr, self.tokens_of(base, deps))
                if order == 'rev':
                    it = reversed(list(it))
            lev, ts = {}, frozenset((acc,))
            for f in it:
                v = ev(body, Frame(f, ts, {acc: v}, lev, {}))
            return v
        if op == 'after':
            return self.after(t, fr)
        if op in ('more',):
            return True
        if op == 'lexit':
            l = self.loops.get(a[0])
            last, brk = self.final(l, fr)
            return bool(brk and self.g(l.exits[a[1]][0], last))
        if op == 'adt':
            vs = {n: ev(x, fr) for n, x in zip(a[2], a[3])}
            return O(a[0], a[1], vs)
        if op == 'tup':
            return Tup(ev(x, fr) for x in a[0]) if a[0] else UNITV
        if op == 'arr':
            return tuple(ev(x, fr) for x in a[0])
        if op == 'bytes':
            return tuple(a[0])
        if op == 'repeat':
            n = num(ev(a[1], fr))
            if n > 100000:
                raise Undecided('large')
            return (ev(a[0], fr),) * max(0, n)
        if op == 'undef':
            raise Undecided('undefined value')
        if op == 'rec':
            x = ev(a[0], fr)
            for e, v in a[1]:
                x = self.setf(x, e, ev(v, fr))
            return x
        if op == 'aset':
            x, i, v = ev(a[0], fr), ev(a[1], fr), ev(a[2], fr)
            if isinstance(x, M):
                d = dict(x.d)
                d[i] = v
                return M(d)
            if isinstance(x, tuple):
                i = num(i)
                return x[:i] + (v,) + x[i + 1:] if 0 <= i < len(x) else x
            return Q(('aset', x, i, v))
        if op == 'mapset':
            x = ev(a[0], fr)
            d = dict(x.d) if isinstance(x, M) else {}
            d[ev(a[1], fr)] = ev(a[2], fr)
            return M(d)
        if op == 'mapdel':
            x = ev(a[0], fr)
            d = dict(x.d) if isinstance(x, M) else {}
            d.pop(ev(a[1], fr), None)
            return M(d)
        if op == 'mapdels':
            x = ev(a[0], fr)
            d = dict(x.d) if isinstance(x, M) else {}
            for k in ev(a[1], fr):
                d.pop(k, None)
            return M(d)
        if op == 'mapputs':
            x = ev(a[0], fr)
            d = dict(x.d) if isinstance(x, M) else {}
            for k in ev(a[1], fr):
                d[k[0]] = k[1]
            return M(d)
        if op == 'mapnew':
            return M({})
        if op == 'push':
            x = ev(a[0], fr)
            return (x if isinstance(x, tuple) else ()) + (ev(a[1], fr),)
        if op == 'cat':
            x, y = ev(a[0], fr), ev(a[1], fr)
            if isinstance(x, tuple) and isinstance(y, tuple):
                return tuple(x) + tuple(y)
            return Q(('cat', x, y))
        if op == 'sub':
            x, lo, n = ev(a[0], fr), num(ev(a[1], fr)), num(ev(a[2], fr))
            if isinstance(x, tuple):
                return x[max(0, lo):max(0, lo) + max(0, n)]
            return Q(('sub', x, lo, n))
        if op == 'sset':
            x, lo, hi, v = [ev(y, fr) for y in a]
            if isinstance(x, tuple) and isinstance(v, tuple):
                return x[:num(lo)] + v + x[num(hi):]
            return Q(('sset', x, lo, hi, v))
        if op in ('vecrem', 'vecswaprem'):
            x, i = ev(a[0], fr), num(ev(a[1], fr))
            if not isinstance(x, tuple) or not 0 <= i < len(x):
                return UNDEF
            if op == 'vecrem':
                return x[:i] + x[i + 1:]
            y = list(x)
            l = y.pop()
            if i < len(y):
                y[i] = l
            return tuple(y)
        if op == 'reversed':
            return tuple(reversed(ev(a[0], fr)))
        if op == 'deduped':
            v = ev(a[0], fr)
            if not isinstance(v, tuple):
                raise Undecided('deduped')
            return tuple(x for i, x in enumerate(v) if i == 0 or x != v[i - 1])
        if op == 'sorted':
            v = ev(a[0], fr)
            if not isinstance(v, tuple):
                return Q(('sorted', v))
            lev, ts = {}, frozenset((a[1],))
            return tuple(sorted(v, key=lambda x: ev(a[2], Frame(fr, ts, {a[1]: x}, lev, {}))))
        if op == 'sortedby':
            v = ev(a[0], fr)
            if not isinstance(v, tuple):
                raise Undecided('sortedby')
            ts, order = frozenset((a[1], a[2])), {'Less': -1, 'Equal': 0, 'Greater': 1}

            def cmp_(x, y):
                o = ev(a[3], Frame(fr, ts, {a[1]: x, a[2]: y}, {}, {}))
                if not isinstance(o, O) or o.var not in order:
                    raise Undecided('sortedby')
                return order[o.var]
            return tuple(sorted(v, key=functools.cmp_to_key(cmp_)))
        if op == 'uninitvec':
            n = num(ev(a[0], fr))
            if n > 1 << 20:
                raise Undecided('large')
            return (UNINIT,) * n
        if op == 'mul':
            return num(ev(a[0], fr)) * num(ev(a[1], fr))
        if op in ('div', 'dive', 'rem', 'reme'):
            x, y = num(ev(a[0], fr)), num(ev(a[1], fr))
            if y == 0:
                return UNDEF
            if op == 'dive':
                return (x - x % abs(y)) // y
            if op == 'reme':
                return x % abs(y)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q if op == 'div' else x - q * y
        if op in ('band', 'bor', 'bxor', 'shl', 'shr'):
            x, y = num(ev(a[0], fr)), num(ev(a[1], fr))
            if op == 'band':
                return x & y
            if op == 'bor':
                return x | y
            if op == 'bxor':
                return x ^ y
            if y < 0 or y > 128:
                return UNDEF
            return x << y if op == 'shl' else x >> y
        if op == 'trunc':
            n = num(ev(a[2], fr)) & ((1 << a[1]) - 1)
            if a[0].startswith('i') and n >= 1 << (a[1] - 1):
                n -= 1 << a[1]
            return n
        if op == 'disc':
            x = ev(a[0], fr)
            for n, v in a[1]:
                if isinstance(x, O) and x.var == v:
                    return n
            return UNDEF
        if op == 'fcmp':
            x, y = num(ev(a[1], fr)), num(ev(a[2], fr))
            return {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[a[0]]
        if op == 'bnot':
            return ~num(ev(a[-1], fr))
        if op == 'flt':
            return Q(('flt', a[0]))
        if op in ('cst', 'cname', 'fnc'):
            return Q((op,) + tuple(str(x) for x in a))
        if op == 'item':
            x = ev(a[0], fr)
            return x
        if op == 'residual':
            x = ev(a[0], fr)
            return x
        if op == 'branch':
            raise Undecided('branch')
        if op == 'it':
            return tuple(self.items(t, fr))
        if op == 'clo':
            return Q(('clo', a[0]) + tuple(repr(ev(x, fr)) for x in a[1]))
        if op == 'ref':
            raise Undecided('reference')
        if op == 'app':
            return self.app(a[0], a[1:], t, fr)
        if op in ('hv', 'ev'):
            if not str(a[0]).startswith('status.'):
                raise Undecided('unmodelled %s' % a[0])
            return self.typed(t, (op,) + tuple(self.dig(x, fr) for x in a))
        raise Undecided(op)

    def dig(self, x, fr):
        if isinstance(x, T):
            return hash_of(self.ev(x, fr))
        return str(x)

    def field(self, x, n):
        if isinstance(x, O):
            if n in x.f:
                return x.f[n]
            return x.get(n)
        if isinstance(x, Tup):
            return x[int(n)] if n.isdigit() and int(n) < len(x) else UNDEF
        if isinstance(x, Q) and x is not UNDEF:
            return Q((x.k, n))
        return UNDEF

    def setf(self, x, e, v):
        if e[0] == 'i':
            raise Undecided('element write')
        n = e[1] if e[0] == 'f' else e[2]
        if isinstance(x, O):
            f = dict(x.f)
            o = O(x.ty, x.var, f, None)
            if x.src:
                for fn, ft in x.src[2]:
                    f[fn] = x.get(fn)
            f[n] = v
            return o
        if isinstance(x, Tup):
            y = list(x)
            y[int(n)] = v
            return Tup(y)
        return Q(('setf', x, n, v))

    def index(self, x, i):
        if isinstance(x, tuple):
            i = num(i)
            return x[i] if 0 <= i < len(x) else UNDEF
        if isinstance(x, M):
            return x.d.get(i, UNDEF)
        if isinstance(x, Q) and x is not UNDEF:
            return Q((x.k, 'at', repr(i)))
        return UNDEF

    def typed(self, t, key):
        ty = core.TYPE.get(t, '')
        if not ty or ty == 'key':
            k = core.KIND.get(t)
            if k == 'Option':
                return Some(Q(key)) if self.h('k', key) % 3 else NoneV
            if k == 'Result':
                return Ok(Q(key)) if self.h('k', key) % 3 else Err(Q((key, 'e')))
            return Q(key)
        return self.gen(ty, key, '')

    def items(self, it, fr):
        """elements of an iterator term"""
        a = it.a
        k = a[0]
        if k == 'slice':
            v = self.ev(a[2], fr) if a[2].op != 'ref' else None
            if not isinstance(v, tuple):
                raise Undecided('iterator')
            return list(v)
        if k == 'split':
            v = self.ev(a[1], fr)
            if not isinstance(v, tuple):
                raise Undecided('iterator')
            n = num(self.ev(a[3], fr))
            tok = mk('sym', 'split.elem')
            lev, ts = {}, frozenset((tok,))
            out, cur = [], []
            for x in v:
                if n != len(out) + 1 and self.g(as_bool(a[2]), Frame(fr, ts, {tok: x}, lev, {})):
                    out.append(tuple(cur))
                    cur = []
                else:
                    cur.append(x)
            out.append(tuple(cur))
            return out
        if k == 'adv':
            return self.items(a[1], fr)[a[2]:]
        if k == 'range':
            return list(range(num(self.ev(a[1], fr)), num(self.ev(a[2], fr))))
        if k in ('take', 'skip'):
            n = num(self.ev(a[2], fr))
            xs = self.items(a[1], fr)
            return xs[:n] if k == 'take' else xs[n:]
        if k == 'flatten' and a[1].a[0] == 'opt':
            v = self.ev(a[1].a[2], fr)
            if isinstance(v, O) and v.var == 'None':
                return []
            if isinstance(v, O) and isinstance(v.get('0'), tuple):
                return list(v.get('0'))
        if k == 'opaque':
            v = self.ev(a[1], fr)
            if isinstance(v, tuple):
                return list(v)
        raise Undecided('iterator ' + k)

    # -------------------------------------------------------- contracts
    def app_(self, n, *vals):
        '''contract applied to values'''
        xs = [mk('sym', '#%d' % i) for i in range(len(vals))]
        f = Frame(self.root, frozenset(xs), dict(zip(xs, vals)), {})
        return self.app(n, xs, None, f)

    def app(self, n, a, t, fr):
        ev = self.ev
        if n == 'qk':
            db, search, area, inv, part = [ev(x, fr) for x in a]
            key = ('qk', hash_of(db), hash_of(search))
            r = self.rng(key)
            out = []
            for p in self.blocks:
                if isinstance(area, O) and area.var == 'Some':
                    b = area.get('0')
                    if not isinstance(b, O):
                        continue
                    cor = [(p[0] * 16 + i, p[1] * 16 + j, p[2] * 16 + k) for i in (0, 15) for j in (0, 15) for k in (0, 15)]
                    con = self.inside(b, cor[0]) and self.inside(b, cor[7])
                    tch = all(num(b.get('min').get(c)) <= p[i] * 16 + 15 and p[i] * 16 <= num(b.get('max').get(c))
                              for i, c in enumerate('xyz'))
                    if truth(inv):
                        ok_ = not con if truth(part) else not tch
                    else:
                        ok_ = tch if truth(part) else con
                    if not ok_:
                        continue
                if r.random() < .9 and self.present(db, self.bkey(p)):
                    out.append(self.bkey(p))
            r.shuffle(out)
            return tuple(out)
        if n == 'bpos':
            return self.vec(self.unkey(num(ev(a[0], fr))))
        if n == 'getblk':
            db, k = ev(a[0], fr), ev(a[1], fr)
            return Ok(Q(('blk', db, k))) if self.present(db, k) else Err(self.nf)
        if n == 'gen':
            d = ev(a[0], fr)
            return self.h('gen', d) % 5 != 0
        if n == 'deser':
            d = ev(a[0], fr)
            if self.h('deser', d) % 6 == 0:
                return Err(Q('bad'))
            if isinstance(d, Q) and isinstance(d.k, tuple) and d.k[0] == 'blk' and isinstance(d.k[2], int):
                key = ('block', hash_of(d))
                return Ok(self.genblock(self.rng(key), key, self.unkey(d.k[2])))
            return Ok(self.gen(MBT, ('block', hash_of(d))))
        if n == 'ser':
            return Tup(('ser', ev(a[0], fr)))
        if n in ('get_id', 'max_id', 'remove_shift'):
            m = self.field(ev(a[0], fr), '0')
            if not isinstance(m, M):
                return UNDEF
            if n == 'max_id':
                return Some(max(m.d)) if m.d else NoneV
            if n == 'get_id':
                x = ev(a[1], fr)
                for k in sorted(m.d):
                    if m.d[k] == x:
                        return Some(k)
                return NoneV
            i = num(ev(a[1], fr))
            return O('NameIdMap', 'NameIdMap', {'0': M({(k - 1 if k > i else k): v for k, v in m.d.items() if k != i})})
        if n in ('clean', 'merge_blocks', 'merge_metadata'):
            vs = [ev(x, fr) for x in a]
            return getattr(self, 'c_' + n)(*vs)
        if n in ('maxkey', 'minkey'):
            m = ev(a[0], fr)
            if not isinstance(m, M) or not m.d:
                return UNDEF
            return (max if n == 'maxkey' else min)(m.d, key=key_sort)
        if n == 'idx':
            f = fr
            while f is not None:
                if f.pos and a[0] in f.pos:
                    return f.pos[a[0]]
                f = f.parent
            return UNDEF
        if n in ('rowkey', 'rowdata'):
            x = ev(a[0], fr)
            return x[0 if n == 'rowkey' else 1] if isinstance(x, Tup) else UNDEF
        if n == 'cachehit':
            return a[0] in anchors.CACHE and self.h('hit', hash_of(ev(a[0], fr))) % 2 == 0
        if n == 'cached':
            if a[0] in anchors.CACHE:
                return ev(anchors.CACHE[a[0]], fr)
            return UNDEF
        if n == 'dbres':
            return Ok(UNITV)
        if n == 'nth':
            its, k = self.items(a[0], fr), num(ev(a[1], fr))
            return Some(its[k]) if k < len(its) else NoneV
        if n == 'nthback':
            its, k = self.items(a[0], fr), num(ev(a[1], fr))
            return Some(its[-1 - k]) if k < len(its) else NoneV
        if n == 'chunks':
            v, k = ev(a[0], fr), num(ev(a[1], fr))
            if isinstance(v, tuple) and k > 0:
                return tuple(v[i:i + k] for i in range(0, len(v) - k + 1, k))
            return UNDEF
        if n in ('starts_with', 'ends_with'):
            x, y = ev(a[0], fr), ev(a[1], fr)
            if isinstance(x, tuple) and isinstance(y, tuple):
                return x[:len(y)] == y if n == 'starts_with' else x[len(x) - len(y):] == y and len(y) <= len(x)
        if n == 'find':
            x, y = ev(a[1], fr), ev(a[0], fr)
            if isinstance(x, tuple) and isinstance(y, tuple):
                i = bytes(num(c) & 255 for c in x).find(bytes(num(c) & 255 for c in y))
                return Some(i) if i >= 0 else NoneV
        if n in ('take_while', 'skip_while', 'map_while'):
            xs = list(ev(a[0], fr))
            i = next((i for i, x in enumerate(xs) if not truth(x[0])), len(xs))
            return tuple(x[1] for x in (xs[i:] if n == 'skip_while' else xs[:i]))
        if n == 'flat':
            out = []
            for x in ev(a[0], fr):
                if isinstance(x, O) and x.var in ('Some', 'None', 'Ok', 'Err'):
                    out += [x.get('0')] if x.var in ('Some', 'Ok') else []
                elif isinstance(x, tuple):
                    out += x
                else:
                    raise Undecided('flattening')
            return tuple(out)
        if n == 'pow':
            x, y = num(ev(a[0], fr)), num(ev(a[1], fr))
            return x ** y if 0 <= y < 200 else UNDEF
        if n.startswith('cast_'):
            return num(ev(a[0], fr))
        if n in ('max', 'min'):
            v = ev(a[0], fr)
            return (max if n == 'max' else min)(v, key=key_sort) if v else UNDEF
        if n in ('fAdd', 'fSub', 'fMul', 'fDiv'):
            x, y = num(ev(a[0], fr)), num(ev(a[1], fr))
            if n == 'fDiv':
                return x / y if y else UNDEF
            return x + y if n == 'fAdd' else x - y if n == 'fSub' else x * y
        if n in ('fmt_big_num', 'disp', 'usz', 'fmtargs', 'format', 'to_string', 'context', 'tryfromerr', 'into', 'from'):
            vs = [ev(x, fr) if isinstance(x, T) else x for x in a]
            if n in ('format', 'to_string', 'into', 'from') and isinstance(vs[-1], tuple) and not isinstance(vs[-1], Tup):
                return vs[-1]
            return Tup((n,) + tuple(vs))
        if n == 'str.parse':
            m = re.match(r'^([iu])(8|16|32|64|128|size)$', a[0].a[0])
            x = ev(a[1], fr)
            if not m or not isinstance(x, tuple):
                raise Undecided('parse as ' + a[0].a[0])
            sg, b = m.group(1) == 'i', 64 if m.group(2) == 'size' else int(m.group(2))
            t = decode(x)
            if not re.match(r'^[+-]?[0-9]+$' if sg else r'^[+]?[0-9]+$', t):
                return Err(Q('parse error'))
            v = int(t)
            return Ok(v) if (-1 << (b - 1) if sg else 0) <= v < (1 << (b - 1 if sg else b)) else Err(Q('parse error'))
        if n.startswith('str.'):
            return self.strapp(n[4:], [ev(x, fr) if isinstance(x, T) else x for x in a])
        if n.startswith('chr.'):
            return chrapp(n[4:], [ev(x, fr) for x in a])
        if n.startswith('io.'):
            import iolib
            return iolib.evaluate(self, n[3:], a, t, fr)
        if n not in ('lua',):
            raise Undecided('unmodelled %s' % n)
        vs = tuple(self.dig(x, fr) for x in a)
        return self.typed(t, ('app', n) + vs)


    def strapp(self, n, vs):
        if not isinstance(vs[0], tuple) or isinstance(vs[0], Tup):
            return UNDEF
        s = decode(vs[0])
        enc = lambda x: tuple(x.encode('utf8', 'surrogateescape'))
        set_ = n.endswith('.set')
        n = n[:-4] if set_ else n
        k = None
        if n in ('splitn', 'rsplitn'):
            k = num(vs.pop(1))
        p = None
        if len(vs) > 1:
            v = vs[1]
            if isinstance(v, int):
                p = re.escape(chr(v))
            elif set_:
                p = '[%s]' % ''.join(re.escape(chr(num(x))) for x in v) if v else '(?!)'
            elif isinstance(v, tuple):
                t = decode(v)
                if t[:1] == '@' and t != '@':
                    cs = [c for c in set(s) if chrapp(t[1:], [ord(c)])]
                    p = '[%s]' % ''.join(map(re.escape, cs)) if cs else '(?!)'
                else:
                    p = re.escape(t)
            else:
                return UNDEF
        if n == 'eq_ignore_ascii_case':
            return bytes(vs[0]).lower() == bytes(vs[1]).lower()
        if n in ('to_lowercase', 'to_uppercase'):
            return enc(s.lower() if n == 'to_lowercase' else s.upper())
        if n == 'to_ascii_lowercase':
            return tuple(bytes(vs[0]).lower())
        if n == 'to_ascii_uppercase':
            return tuple(bytes(vs[0]).upper())
        if n == 'is_ascii':
            return all(num(c) < 128 for c in vs[0])
        if n in ('trim', 'trim_start', 'trim_end'):
            p = r'\s'
            n += '_matches'
        ms = list(re.finditer(p, s, re.S)) if p is not None else []
        at = lambda i: len(s[:i].encode('utf8', 'surrogateescape'))
        if n == 'contains':
            return bool(ms)
        if n in ('find', 'rfind'):
            return Some(at(ms[0 if n == 'find' else -1].start())) if ms else NoneV
        if n in ('split_once', 'rsplit_once'):
            if not ms:
                return NoneV
            m = ms[0 if n == 'split_once' else -1]
            return Some(Tup((enc(s[:m.start()]), enc(s[m.end():]))))
        if n in ('trim_matches', 'trim_start_matches', 'trim_end_matches'):
            if 'end' not in n:
                s = re.sub(r'\A(?:%s)+' % p, '', s)
            if 'start' not in n:
                s = re.sub(r'(?:%s)+\Z' % p, '', s)
            return enc(s)
        if n == 'strip_prefix':
            m = re.match(p, s)
            return Some(enc(s[m.end():])) if m else NoneV
        if n == 'strip_suffix':
            m = re.search('(?:%s)\\Z' % p, s)
            return Some(enc(s[:m.start()])) if m else NoneV
        if n == 'char_indices':
            return tuple(Tup((at(i), ord(c))) for i, c in enumerate(s))
        if n in ('split_whitespace', 'split_ascii_whitespace'):
            return tuple(enc(x) for x in s.split())
        if n == 'lines':
            ls = s.split('\n')
            if ls and not ls[-1]:
                ls.pop()
            return tuple(enc(x[:-1] if x.endswith('\r') else x) for x in ls)
        if n == 'matches':
            return tuple(enc(m.group()) for m in ms)
        if n in ('split', 'rsplit', 'splitn', 'rsplitn', 'split_terminator', 'split_inclusive'):
            if k == 0:
                return ()
            if n == 'rsplitn':
                ms = ms[max(0, len(ms) - (k - 1)):]
            elif k is not None:
                ms = ms[:k - 1]
            out, i = [], 0
            for m in ms:
                out.append(s[i:m.end() if n == 'split_inclusive' else m.start()])
                i = m.end()
            out.append(s[i:])
            if n in ('split_terminator', 'split_inclusive') and not out[-1]:
                out.pop()
            if n in ('rsplit', 'rsplitn'):
                out.reverse()
            return tuple(enc(x) for x in out)
        raise Undecided('string operation ' + n)

    def present(self, db, k):
        return self.h('absent', db, k) % 5 != 0

    # what the block utilities do (each is checked against its own code by the 'util' obligations)
    def part(self, a):
        lo, hi = [[num(a.get(m).get(c)) for c in 'xyz'] for m in ('min', 'max')]
        return lo, hi

    def parts(self, sa, da):
        if not isinstance(sa, O) or not isinstance(da, O):
            raise Undecided('merge of unknown parts')
        (l, h), (dl, dh) = self.part(sa), self.part(da)
        if any(x < 0 or y > 15 or x > y for x, y in zip(l + dl, h + dh)) or \
                [y - x for x, y in zip(l, h)] != [y - x for x, y in zip(dl, dh)]:
            return None
        return l, h, dl

    def c_merge_blocks(self, src, dst, sa, da):
        p = self.parts(sa, da)
        if p is None or not isinstance(src, O) or not isinstance(dst, O):
            return Q(('merge_blocks', 'invalid'))
        l, h, dl = p
        sn, dn = src.get('node_data'), dst.get('node_data')
        sm, dm = src.get('nimap').get('0').d, dst.get('nimap').get('0').d
        nd = max(dm) + 1 if dm else 0
        names = dict(dm)
        for k, v in sm.items():
            names[k + nd] = v
        fs = {f: (sn.get(f), list(dn.get(f))) for f in ('nodes', 'param1', 'param2')}
        d = sum((b - a) * m for a, b, m in zip(l, dl, (1, 16, 256)))
        for z in range(l[2], h[2] + 1):
            for y in range(l[1], h[1] + 1):
                i, j = l[0] + 16 * y + 256 * z, h[0] + 1 + 16 * y + 256 * z
                for f, (x, o) in fs.items():
                    o[i + d:j + d] = [v + nd for v in x[i:j]] if f == 'nodes' else x[i:j]
        b = self.setf(dst, ('f', 'nimap'), O('NameIdMap', 'NameIdMap', {'0': M(names)}))
        return self.setf(b, ('f', 'node_data'), O('NodeData', 'NodeData', {f: tuple(o) for f, (x, o) in fs.items()}))

    def c_merge_metadata(self, src, dst, sa, da):
        p = self.parts(sa, da)
        if p is None or not isinstance(src, M) or not isinstance(dst, M):
            return Q(('merge_metadata', 'invalid'))
        l, h, dl = p
        d = sum((b - a) * m for a, b, m in zip(l, dl, (1, 16, 256)))

        def pos(i):
            return i & 15, i >> 4 & 15, i >> 8 & 15
        out = {k: v for k, v in dst.d.items() if not self.inside(da, pos(k))}
        for k, v in src.d.items():
            if self.inside(sa, pos(k)):
                out[k + d] = v
        return M(out)

    def c_clean(self, b):
        if not isinstance(b, O):
            return Q('clean')
        nd, m = b.get('node_data'), b.get('nimap').get('0').d
        used = set(nd.get('nodes'))
        ids, new, to = {}, {}, {}
        for k in sorted(m):
            if k in used:
                if m[k] not in ids:
                    ids[m[k]] = len(new)
                    new[len(new)] = m[k]
                to[k] = ids[m[k]]
        b = self.setf(b, ('f', 'nimap'), O('NameIdMap', 'NameIdMap', {'0': M(new)}))
        return self.setf(b, ('f', 'node_data'), self.setf(nd, ('f', 'nodes'), tuple(to.get(i, UNDEF) for i in nd.get('nodes'))))


def hash_of(v):
    return hashlib.blake2b(stable(v).encode(), digest_size=8).hexdigest()


def stable(v):
    if isinstance(v, O):
        c = v.canon()
        return '%s{%s}' % (c[0], ','.join('%s:%s' % (k, stable(x)) for k, x in c[1:]))
    if isinstance(v, M):
        return 'M{%s}' % ','.join(sorted('%s:%s' % (stable(k), stable(x)) for k, x in v.d.items()))
    if isinstance(v, tuple):
        if len(v) > 50 and all(isinstance(x, int) for x in v[:5]):
            return repr(tuple(v))
        return '(%s)' % ','.join(stable(x) for x in v)
    return repr(v)


# ---------------------------------------------------------------- streams
def frames(w, nest, i, fr, used):
    """frames of the iterations of a loop nest (Loop objects or base terms)"""
    if i == len(nest):
        yield fr
        return
    n = nest[i]
    base = n if isinstance(n, T) else n.base
    toks = None
    u2 = dict(used)
    if base is not None and base.op != 'while':
        toks = []
        for c in comps(base):
            d = u2.get(c, 0)
            u2[c] = d + 1
            toks.append(mk('el', c, d))
    if isinstance(n, T):
        if base.op == 'while':
            raise Undecided('while')
        it = w.iterate(base, fr, toks)
    else:
        it = w.run(n, fr, toks)
    for f in it:
        yield from frames(w, nest, i + 1, f, u2)


def stream(w, items):
    """multiset of effects: {(name, values): count}"""
    out = {}
    for name, vals, g, nest, src in items:
        for f in frames(w, nest, 0, w.root, {}):
            if w.g(g, f):
                k = (name,) + tuple(w.ev(v, f) for v in vals)
                o = out.get(k)
                out[k] = (o[0] + 1 if o else 1, src)
    return out


def differ(code, spec, types, loops, fix=None, pre=None, n=NWORLDS):
    """-> None if no assignment tells the streams apart, else (world, message, source)"""
    done = 0
    for seed in range(n * 4):
        if done >= n:
            break
        w = World(seed, types, loops, fix)
        if pre is not None and not pre(w):
            continue
        done += 1
        a, b = stream(w, code), stream(w, spec)
        for k in a:
            if k not in b or a[k][0] != b[k][0]:
                return seed, k, a[k][1], 'the code does this, the property does not ask for it'
        for k in b:
            if k not in a:
                src = ''
                for x in a:
                    if x[0] == k[0]:
                        src = a[x][1]
                return seed, k, src, 'required by the property, not done by the code'
    if done < n // 3:
        raise Undecided('no assignment satisfies the precondition')
    return None
