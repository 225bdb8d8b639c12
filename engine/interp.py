"""Guarded value-flow analysis over MIR.

Every function is analysed once per calling context in reverse post-order over
its CFG.  A state is (guard, store); states are merged at joins with gates
(ITE terms on the BDD of the joining edge), so no path is ever enumerated.
Loops are summarised: places written in the body become `mu` tokens, one
symbolic iteration is analysed, and the recurrences are closed (flag -> exists,
counter -> sum, pushes -> comprehension) or left opaque.  The result is a list
of guarded effect events plus the gated return value.
"""
import re, sys
import core
from core import *

sys.setrecursionlimit(20000)


def norm(path):
    """strip generic arguments / impl headers from a printed path"""
    out, depth, i = [], 0, 0
    while i < len(path):
        c = path[i]
        if c == '<':
            depth += 1
        elif c == '>' and not (i > 0 and path[i - 1] == '-'):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.strip(':')


def fnname(name):
    """key of a function: path without generics; trait methods as `Type as Trait::method`"""
    m = re.match(r'^<(.*) as (.*)>::(\w+)$', name)
    if m:
        ty, tr = strip_ref(m.group(1)), m.group(2)
        tr = re.sub(r'[\w]+::', '', tr)
        return '%s as %s::%s' % (ty if '<' not in ty else norm(ty), tr, m.group(3))
    return norm(name)


def strip_ref(t):
    t = t.strip()
    while True:
        if t.startswith('&'):
            t = t[1:].lstrip()
            if t.startswith("'"):
                t = t.split(' ', 1)[1] if ' ' in t else t
            if t.startswith('mut '):
                t = t[4:]
            t = t.strip()
        else:
            return t


class St(object):
    __slots__ = ('g', 's')

    def __init__(self, g, s):
        self.g = g
        self.s = s

    def copy(self):
        return St(self.g, dict(self.s))


class Ev(object):
    """one guarded effect"""
    __slots__ = ('n', 'kind', 'name', 'args', 'vals', 'g', 'loops', 'span', 'fn', 'res', 'place',
                 'rootval', 'call', 'spans', 'stack')

    def __repr__(self):
        return '#%d %s %s(%s)%s if %s in %s @%s' % (
            self.n, self.kind, self.name, ', '.join(show(v, 4) for v in self.vals),
            ' place=' + show_place(self.place) if self.place else '',
            b_str(self.g, 4), [l.id for l in self.loops], self.span)


class Loop(object):
    def __init__(self, id, fn, key):
        self.id = id
        self.fn = fn
        self.key = key
        self.its = []          # (iterator term, base, order)
        self.mods = {}         # (root, path) -> dict(init, mu, next, after)
        self.entry = None
        self.entry_g = 1
        self.more = b_var(mk('more', id))
        self.assume = []       # (var, val) pairs true inside an iteration
        self.exits = []
        self.base = None
        self.ind = None
        self.elcond = 1
        self.outs = []

    def __repr__(self):
        return 'Loop(%s %s)' % (self.id, show(self.base, 4) if self.base else None)


class Summary(object):
    def __init__(self, fn, args, ret, events, st, loops, eng):
        self.fn, self.args, self.ret, self.events, self.st, self.loops = fn, args, ret, events, st, loops
        self.eng = eng

    def find(self, name=None, kind=None):
        return [e for e in self.events if (name is None or e.name == name)
                and (kind is None or e.kind == kind)]


class Unmodelled(Exception):
    pass


class Cfg(object):
    """per-body CFG facts"""

    def __init__(self, b):
        self.b = b
        n = len(b['bbs'])
        self.succ = [self._succ(bb) for bb in b['bbs']]
        # reachable RPO
        seen, post = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.succ[y])))
                    break
            else:
                post.append(x)
                st.pop()
        self.rpo = post[::-1]
        self.idx = {x: i for i, x in enumerate(self.rpo)}
        pred = {x: [] for x in self.rpo}
        for x in self.rpo:
            for y in self.succ[x]:
                pred[y].append(x)
        self.pred = pred
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in self.rpo[1:]:
                ps = [p for p in pred[x] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    a, c = d, p
                    while a != c:
                        while self.idx[a] > self.idx[c]:
                            a = idom[a]
                        while self.idx[c] > self.idx[a]:
                            c = idom[c]
                    d = a
                if idom.get(x) != d:
                    idom[x] = d
                    ch = True
        self.idom = idom
        self.loops = {}
        for x in self.rpo:
            for y in self.succ[x]:
                if self.dom(y, x):
                    body = self.loops.setdefault(y, {y})
                    stk = [x]
                    while stk:
                        z = stk.pop()
                        if z not in body:
                            body.add(z)
                            stk += pred[z]
        # blocks that can reach a return
        can = set(x for x in self.rpo if b['bbs'][x]['tm'][0] == 'return')
        stk = list(can)
        while stk:
            z = stk.pop()
            for p in pred.get(z, []):
                if p not in can:
                    can.add(p)
                    stk.append(p)
        self.can = can

    def dom(self, a, x):
        while True:
            if a == x:
                return True
            if x == 0 or x not in self.idom:
                return False
            x = self.idom[x]

    @staticmethod
    def _succ(bb):
        t = bb['tm']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            r = []
            for _, y in t[3]:
                if y not in r:
                    r.append(y)
            if t[4] not in r:
                r.append(t[4])
            return r
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        return []


class Call(object):
    """a call being modelled"""
    __slots__ = ('eng', 'st', 'fn', 'path', 'args', 'tys', 'dty', 'span', 'frame', 'bb', 'fnd', 'k')

    def val(self, i):
        return self.eng.deref(self.st, self.args[i])

    def deep(self, i):
        return self.eng.deep(self.st, self.args[i])

    def event(self, kind, name, place=None, vals=None, res=None):
        return self.eng.event(self, kind, name, place, vals, res)


class Frame(object):
    __slots__ = ('key', 'body', 'cfg', 'u')


RANGE = {'%s%d' % (s, n): (-(1 << n - 1), (1 << n - 1) - 1) if s == 'i' else (0, (1 << n) - 1)
         for n in (8, 16, 32, 64, 128) for s in 'iu'}
RANGE.update(usize=RANGE['u64'], isize=RANGE['i64'])


class Engine(object):
    MAXDEPTH = 40
    ovf = False       # record the value of every addition, subtraction and multiplication (ob_arith)

    def __init__(self, dump):
        self.bodies = {b['u']: b for b in dump['bodies']}
        self.byname = {}
        for b in dump['bodies']:
            if b['kind'] in ('fn', 'method'):
                self.byname.setdefault(fnname(b['name']), b)
        self.dump = dump
        for t in dump['types']:
            if t['enum']:
                vs = tuple(v[0] for v in t['variants'])
                core.ENUMS[t['path']] = vs
                core.VARIANTS[t['path']] = vs
        core.ENUMS['sqlite::State'] = core.VARIANTS['sqlite::State'] = ('Row', 'Done')
        self.types = {t['path']: t for t in dump['types']}
        self.cfgs = {}
        self.anchors = {}
        import lib
        import iolib
        self.lib = lib
        self.reset()

    def reset(self):
        self.events = []
        self.loops = []
        self.gstack = []
        self.mute = 0
        self.wlogs = []
        self.framekeys = {}
        self.loopids = {}
        self.modcache = {}
        self.allloops = []
        self.indcache = {}
        self.depth = 0
        self.stack = []
        self.unk = {}
        self.seq = 0
        self.evc = {}

    # ------------------------------------------------------------ lookup
    def body(self, name):
        return self.byname.get(name)

    def find_fn(self, suffix):
        r = [n for n in self.byname if n == suffix or n.endswith('::' + suffix)]
        return r[0] if len(r) == 1 else None

    def cfg(self, b):
        c = self.cfgs.get(b['u'])
        if c is None:
            c = self.cfgs[b['u']] = Cfg(b)
        return c

    def unknown(self, what, where=''):
        if not self.mute:
            self.unk[what] = self.unk.get(what, 0) + 1

    # ------------------------------------------------------------ store
    def root_init(self, st, root, val):
        st.s[root] = val

    def read(self, st, root, path):
        v = st.s.get(root)
        if v is None:
            v = mk('undef')
        for e in path:
            v = proj(v, e)
        return v

    def write(self, st, root, path, val):
        for lg in self.wlogs:
            lg.add((root, tuple(path)))
        v = st.s.get(root)
        if v is None:
            v = mk('undef')
        if not path:
            st.s[root] = val
            return
        if v.op == 'undef':
            v = mk('sym', 'partial')
        st.s[root] = upd(v, tuple(path), val)

    def deref(self, st, t):
        if t.op == 'ref':
            return self.read(st, t.a[0], t.a[1])
        if t.op == 'ite':
            return ite(t.a[0], self.deref(st, t.a[1]), self.deref(st, t.a[2]))
        return t

    def deep(self, st, t, d=0):
        """replace references by the values they point to"""
        if d > 8:
            return t
        if t.op == 'ref':
            return self.deep(st, self.read(st, t.a[0], t.a[1]), d + 1)
        if t.op == 'ite':
            a, b = self.deep(st, t.a[1], d), self.deep(st, t.a[2], d)
            return ite(t.a[0], a, b)
        if t.op == 'adt' and t.a[3]:
            return adt(t.a[0], t.a[1], t.a[2], [self.deep(st, x, d + 1) for x in t.a[3]])
        if t.op in ('tup', 'arr'):
            return mk(t.op, tuple(self.deep(st, x, d + 1) for x in t.a[0]))
        if t.op == 'app':
            if any(isinstance(x, T) and x.op in ('ref', 'adt', 'tup', 'arr', 'app', 'ite') for x in t.a):
                r = mk('app', *[self.deep(st, x, d + 1) if isinstance(x, T) else x for x in t.a])
                if t in core.TYPE:
                    core.TYPE.setdefault(r, core.TYPE[t])
                if t in core.KIND:
                    core.KIND.setdefault(r, core.KIND[t])
                return r
        if t.op == 'comp':
            v = self.deep(st, t.a[2], d + 1)
            return mk('comp', t.a[0], t.a[1], v)
        return t

    def write_ref(self, st, t, sub_path, val, cond=1):
        """write through a reference term (guarded when the reference is gated)"""
        if t.op == 'ref':
            p = t.a[1] + tuple(sub_path)
            if cond != 1:
                val = ite(cond, val, self.read(st, t.a[0], p))
            self.write(st, t.a[0], p, val)
            return True
        if t.op == 'ite':
            a = self.write_ref(st, t.a[1], sub_path, val, b_and(cond, t.a[0]))
            b = self.write_ref(st, t.a[2], sub_path, val, b_and(cond, b_not(t.a[0])))
            return a or b
        return False

    # ------------------------------------------------------------ places
    def place(self, st, fr, p):
        """-> list of (cond, root, path)"""
        cur = [(1, ('L', fr.key, p['l']), ())]
        pend = None
        for e in p['p']:
            k = e[0]
            if k == '*':
                nxt = []
                for c, r, pa in cur:
                    v = self.read(st, r, pa)
                    nxt += self._pt(c, r, pa, v)
                cur = nxt
                continue
            if k == 'f':
                if pend is not None:
                    el = ('vf', pend, e[1])
                    pend = None
                else:
                    el = ('f', e[1])
            elif k == 'v':
                pend = e[1]
                continue
            elif k == 'i':
                iv = self.read(st, ('L', fr.key, e[1]), ())
                el = ('i', iv)
            elif k == 'c':
                if e[2]:
                    el = None
                    n2 = []
                    for c, r, pa in cur:
                        v = self.read(st, r, pa)
                        n2.append((c, r, pa + (('i', core.sub(ln(v), Int(e[1]))),)))
                    cur = n2
                    continue
                el = ('i', Int(e[1]))
            elif k == 's':
                n2 = []
                for c, r, pa in cur:
                    v = self.read(st, r, pa)
                    hi = core.sub(ln(v), Int(e[2])) if e[3] else Int(e[2])
                    n2.append((c, r, pa + (('s', Int(e[1]), hi),)))
                cur = n2
                continue
            else:
                self.unknown('place ' + str(e))
                continue
            cur = [(c, r, addp(pa, el)) for c, r, pa in cur]
        return cur

    def _pt(self, c, r, pa, v):
        if v.op == 'ref':
            return [(c, v.a[0], v.a[1])]
        if v.op == 'ite':
            return [x for x in self._pt(b_and(c, v.a[0]), r, pa, v.a[1]) +
                    self._pt(b_and(c, b_not(v.a[0])), r, pa, v.a[2]) if x[0] != 0]
        return [(c, r, pa)]

    def rplace(self, st, fr, p):
        alts = self.place(st, fr, p)
        v = None
        for c, r, pa in reversed(alts):
            x = self.read(st, r, pa)
            v = x if v is None else ite(c, x, v)
        if v.op in LEAF and v not in core.TYPE and p.get('t'):
            core.TYPE[v] = p['t']
        return v

    def wplace(self, st, fr, p, val, span=None):
        alts = self.place(st, fr, p)
        for c, r, pa in alts:
            if pa or any(e[0] == '*' for e in p['p']):
                self.wevent(st, fr, c, r, pa, val, span)
            x = val if c == 1 else ite(c, val, self.read(st, r, pa))
            self.write(st, r, pa, x)

    def wevent(self, st, fr, c, r, pa, val, span):
        if self.mute or (r[0] == 'L' and r[1] == fr.key and r[2] == 0):
            return
        if r[0] == 'L' and fr.body['locals'] and r[1] == fr.key and \
                fr.body['locals'][r[2]][1] is None and not any(e[0] == 'i' for e in pa):
            # building a temporary field by field
            pass
        e = Ev()
        e.kind, e.name, e.args, e.vals, e.place = 'mut', 'set', (), (val,), (r, pa)
        e.rootval = st.s.get(r)
        e.res = None
        self._fin(e, b_and(st.g, c), span, fr.body['name'])

    def _fin(self, e, g, span, fn):
        for x in self.gstack:
            g = b_and(g, x)
        for l in self.loops:
            for var, val in l.assume:
                g = b_cof(g, var, val)
        e.g = g
        e.loops = tuple(self.loops)
        e.span = span or ''
        e.fn = fn
        e.stack = tuple(self.stack)
        self.seq += 1
        e.n = self.seq
        self.events.append(e)

    def event(self, call, kind, name, place=None, vals=None, res=None):
        if self.mute:
            return None
        e = Ev()
        e.kind, e.name, e.args = kind, name, tuple(call.args)
        e.vals = tuple(vals) if vals is not None else tuple(call.deep(i) for i in range(len(call.args)))
        e.place = place
        e.rootval = call.st.s.get(place[0]) if place else None
        e.res = res
        e.call = call.path
        self._fin(e, call.st.g, call.span, call.frame.body['name'])
        return e

    # ------------------------------------------------------------ operands
    def const(self, st, fr, c):
        t = c['t']
        if 'int' in c:
            if t == 'bool':
                return B(1 if c['int'] else 0)
            return Int(c['int'])
        if 'fn' in c:
            r = mk('fnc', norm(c['fn']['path']), c['fn']['u'])
            FND[r] = c['fn']
            return r
        if 'closure' in c:
            return mk('clo', c['closure'], ())
        if 'promoted' in c:
            return self.eval_const(st, '%s#promoted%d' % (c['of'], c['promoted']))
        if 'bytes' in c:
            return mk('bytes', tuple(c['bytes']))
        if t == '()':
            return UNIT
        if 'name' in c:
            b = None
            for u, x in self.bodies.items():
                if x['kind'] in ('const', 'static') and x['name'] == c['name']:
                    b = x
            if b is not None:
                return self.eval_const(st, b['u'])
            r = mk('cname', norm(c['name']))
            core.TYPE.setdefault(r, t)
            return r
        s = c.get('s', '')
        m = re.match(r'^(?:const )?(-?[\d_]+(?:\.\d+)?)(f32|f64)$', s.replace('_f', 'f'))
        if t in ('f32', 'f64'):
            return mk('flt', s)
        r = mk('cst', t, s)
        core.TYPE.setdefault(r, t)
        return r

    def eval_const(self, st, u):
        b = self.bodies.get(u)
        if b is None:
            return mk('cst', 'unknown', u)
        r = self.run_body(st, b, [], ('const', u), fresh_guard=True)
        if r is None:
            return mk('undef')
        return r

    def operand(self, st, fr, o):
        if 'k' in o:
            return self.const(st, fr, o)
        return self.rplace(st, fr, o)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            alts = self.place(st, fr, r[2])
            v = None
            for c, root, pa in reversed(alts):
                # reference to an opaque reference value: keep the place
                x = mk('ref', root, pa)
                v = x if v is None else ite(c, x, v)
            return v
        if k == 'agg':
            kind, ops = r[1], r[2]
            vs = [self.operand(st, fr, o) for o in ops]
            if kind[0] == 'array':
                return mk('arr', tuple(vs))
            if kind[0] == 'tuple':
                return mk('tup', tuple(vs))
            if kind[0] == 'adt':
                return adt(short(kind[1]), kind[2], kind[3][:len(vs)], vs)
            if kind[0] == 'closure':
                return mk('clo', kind[1], tuple(vs))
            if kind[0] == 'rawptr':
                return vs[0]
            return mk('app', 'agg', *vs)
        if k == 'disc':
            v = self.rplace(st, fr, r[1])
            if v.op not in LEAF or v not in core.TYPE:
                pass
            return disc(v, tuple((n, s) for n, s in r[2]))
        if k == 'bin':
            return self.binop(r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4])
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if r[3] == 'bool':
                    return B(b_not(as_bool(v)))
                return mk('bnot', r[3], v)
            if r[1] == 'Neg':
                if r[3] in ('f32', 'f64'):
                    return mk('app', 'fneg', v)
                return neg(v)
            if r[1] == 'PtrMetadata':
                return ln(self.deref(st, v))
            return mk('app', 'un' + r[1], v)
        if k == 'cast' and r[1] == 'BoxDerefTransmute' and 'l' in r[2]:
            v = self.read(st, ('L', fr.key, r[2]['l']), ())
            if v.op == 'ref' and v.a[0][0] == 'T':
                return v
        if k == 'cast':
            return self.cast(r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            m = re.match(r'^(\d+)', r[2])
            n = Int(int(m.group(1))) if m else mk('cst', 'usize', r[2])
            return mk('repeat', v, n)
        self.unknown('rvalue ' + str(r)[:60])
        return mk('app', 'rv', str(r)[:80])

    def cast(self, kind, v, ft, tt):
        if kind.startswith('IntToInt'):
            bits = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64,
                    'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128, 'bool': 1, 'char': 32}
            if ft == 'bool':
                return ite(as_bool(v), Int(1), Int(0))
            fb, tb = bits.get(ft, 64), bits.get(tt, 64)
            if tb < fb:
                return trunc(tt, tb, v)
            return v
        if 'FloatToInt' in kind or 'IntToFloat' in kind or 'FloatToFloat' in kind:
            r = mk('app', 'cast_' + tt, v)
            core.TYPE.setdefault(r, tt)
            return r
        return v

    def binop(self, op, a, b, ty):
        op = op.replace('Unchecked', '').replace('WithOverflow', '')
        if ty == 'bool':
            x, y = as_bool(a), as_bool(b)
            if op == 'BitAnd':
                return B(b_and(x, y))
            if op == 'BitOr':
                return B(b_or(x, y))
            if op in ('BitXor', 'Ne'):
                return B(b_xor(x, y))
            if op == 'Eq':
                return B(b_not(b_xor(x, y)))
            if op == 'Lt':
                return B(b_and(b_not(x), y))
            if op == 'Le':
                return B(b_or(b_not(x), y))
            if op == 'Gt':
                return B(b_and(x, b_not(y)))
            if op == 'Ge':
                return B(b_or(x, b_not(y)))
        if ty in ('f32', 'f64'):
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                return B(b_var(mk('fcmp', op, a, b)))
            r = mk('app', 'f' + op, a, b)
            core.TYPE.setdefault(r, ty)
            return r
        if op == 'Eq':
            return B(eq(a, b))
        if op == 'Ne':
            return B(b_not(eq(a, b)))
        if op == 'Lt':
            return B(lt(a, b))
        if op == 'Le':
            return B(le(a, b))
        if op == 'Gt':
            return B(lt(b, a))
        if op == 'Ge':
            return B(le(b, a))
        if op == 'Cmp':
            return ite(lt(a, b), adt('Ordering', 'Less', (), ()),
                       ite(eq(a, b), adt('Ordering', 'Equal', (), ()), adt('Ordering', 'Greater', (), ())))
        return arith(op, a, b, ty)

    # ------------------------------------------------------------ running bodies
    def run_body(self, st, b, args, site, fresh_guard=False):
        """inline a body; updates st in place; returns the value (None: diverges)"""
        if self.depth > self.MAXDEPTH or b['u'] in self.stack and self.stack.count(b['u']) > 1:
            self.unknown('recursion ' + b['name'])
            return self.opaque('rec', b['name'], args, b['locals'][0][0])
        fr = Frame()
        parent = self.stack_keys[-1] if getattr(self, 'stack_keys', None) else 0
        fk = (parent, site, b['u'])
        fr.key = self.framekeys.setdefault(fk, len(self.framekeys) + 1)
        fr.body = b
        fr.cfg = self.cfg(b)
        fr.u = b['u']
        if not hasattr(self, 'stack_keys'):
            self.stack_keys = []
        self.stack_keys.append(fr.key)
        self.stack.append(b['u'])
        self.depth += 1
        saved_g = st.g
        self.gstack.append(saved_g)
        inner = St(1, st.s)
        for i, a in enumerate(args):
            inner.s[('L', fr.key, i + 1)] = a
        try:
            outs, backs, rets = self.region(fr, 0, set(fr.cfg.rpo), inner, None)
        finally:
            self.gstack.pop()
            self.depth -= 1
            self.stack.pop()
            self.stack_keys.pop()
        if not rets:
            st.s = inner.s
            st.g = 0
            return None
        m = self.merge(rets)
        st.s = m.s
        st.g = saved_g
        return m.s.get(('L', fr.key, 0), UNIT)

    def merge(self, sts):
        if len(sts) == 1:
            return St(sts[0].g, sts[0].s)
        tot = b_or(*[s.g for s in sts])
        keys = {}
        for s in sts:
            for k in s.s:
                keys[k] = 1
        conds = [b_restrict(s.g, tot) for s in sts]
        out = {}
        U = mk('undef')
        for k in keys:
            v0 = sts[0].s.get(k, U)
            same = all(s.s.get(k, U) is v0 for s in sts[1:])
            if same:
                out[k] = v0
                continue
            v = sts[-1].s.get(k, U)
            for s, c in zip(reversed(sts[:-1]), reversed(conds[:-1])):
                v = ite(c, s.s.get(k, U), v)
            out[k] = v
        return St(tot, out)

    def region(self, fr, entry, blocks, st, header):
        incoming = {entry: [st]}
        outs, backs, rets = [], [], []
        cfg = fr.cfg
        done = set()

        def dispatch(tgt, s):
            if s.g == 0:
                return
            if tgt == 'ret':
                if header is None:
                    rets.append(s)
                else:
                    outs.append(('ret', s))
            elif header is not None and tgt == header:
                backs.append(s)
            elif tgt not in blocks:
                outs.append((tgt, s))
            else:
                incoming.setdefault(tgt, []).append(s)

        order = [x for x in cfg.rpo if x in blocks]
        for x in order:
            if x not in incoming or x in done:
                continue
            m = self.merge(incoming.pop(x))
            if m.g == 0:
                continue
            if x in cfg.loops and x != header:
                for tgt, s in self.cfg_loop(fr, x, cfg.loops[x], m):
                    dispatch(tgt, s)
                continue
            for tgt, s in self.block(fr, x, m):
                dispatch(tgt, s)
        return outs, backs, rets

    def block(self, fr, x, st):
        bb = fr.body['bbs'][x]
        st = St(st.g, dict(st.s))
        for s in bb['st']:
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2])
                if self.ovf and s[2][0] == 'bin' and s[2][1][:3] in ('Add', 'Sub', 'Mul') and s[2][4] in RANGE and v.op != 'int':
                    self.arith_event(st, fr, s[2][4], s[2][1][:3], v, s[3])
                if v.op in LEAF and v not in core.TYPE and s[1].get('t'):
                    core.TYPE[v] = s[1]['t']
                self.wplace(st, fr, s[1], v, s[3])
            elif s[0] == 'setdisc':
                self.unknown('setdisc')
        t = bb['tm']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'drop':
            self.lib.on_drop(self, st, fr, t)
            return [(t[2], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'assert':
            if not self.mute and t[3] != 'overflow':
                c = Call()
                c.eng, c.st, c.fn, c.path, c.frame, c.span = self, st, None, 'assert', fr, t[-1]
                c.args = [self.operand(st, fr, o) for o in t[4]]
                h = as_bool(self.operand(st, fr, t[1]))
                c.event('assert', t[3], res=B(h if t[2] else b_not(h)))
            return [(t[5], st)]
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'call':
            return self.call_term(fr, x, st, t)
        if k in ('unreachable', 'resume', 'abort'):
            return []
        self.unknown('terminator ' + k)
        return []

    def arith_event(self, st, fr, ty, op, v, span):
        c = Call()
        c.eng, c.st, c.fn, c.path, c.frame, c.span, c.args = self, st, None, op, fr, span, []
        c.event('arith', ty, vals=[v])

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        ty = t[2]
        edges = []
        rest = 1
        for n, y in t[3]:
            if ty == 'bool':
                c = as_bool(v) if n else b_not(as_bool(v))
            else:
                c = eq(v, Int(n))
            edges.append((b_and(rest, c), y))
            rest = b_and(rest, b_not(c))
        edges.append((rest, t[4]))
        by = {}
        for c, y in edges:
            by[y] = b_or(by.get(y, 0), c)
        # edges that can only panic / are unreachable do not constrain the others
        dead = [y for y in by if y not in fr.cfg.can and not self._loops_forever(fr, y)]
        care = b_not(b_or(*[by[y] for y in dead])) if dead else 1
        out = []
        for y, c in by.items():
            if y in dead:
                if fr.body['bbs'][y]['tm'][0] == 'unreachable':
                    continue
                g = b_and(st.g, c)
            else:
                g = b_and(st.g, b_restrict(c, care)) if care not in (0, 1) else b_and(st.g, c)
            if g != 0:
                out.append((y, St(g, st.s)))
        return out

    def _loops_forever(self, fr, y):
        return False

    # ------------------------------------------------------------ loops
    def cfg_loop(self, fr, h, body, st):
        def iteration(s):
            outs, backs, rets = self.region(fr, h, body, s, h)
            return outs, backs
        return self.run_loop(fr, ('cfg', h), st, iteration)

    def run_loop(self, fr, key, st, iteration):
        """-> list of (target, state)"""
        lk = (fr.key, key)
        lid = self.loopids.setdefault(lk, len(self.loopids) + 1)
        mods = set(self.modcache.get(lk, ()))
        first = lk not in self.modcache
        # discovery
        for _ in range(6):
            if first or True:
                self.mute += 1
                L, res, log = self._pass(fr, lid, st, mods, iteration)
                self.mute -= 1
                new = self._norm_mods(log, st.s, mods)
                if new == mods:
                    break
                mods = new
        self.modcache[lk] = mods
        if L.base is None and lk not in self.indcache:
            self.indcache[lk] = self._induction(L, res)
        elif L.base is not None:
            self.indcache.setdefault(lk, None)
        ind = self.indcache.get(lk)
        L, (outs, backs), log = self._pass(fr, lid, st, mods, iteration, ind)
        return self._close(L, st, outs, backs)

    def _norm_mods(self, log, entry, mods):
        ps = set()
        for root, path in list(log) + list(mods):
            if root not in entry:
                continue
            p = []
            for e in path:
                if e[0] != 'f':
                    break
                p.append(e)
            ps.add((root, tuple(p)))
        # drop paths covered by a shorter prefix
        return set((r, p) for r, p in ps
                   if not any((r, p[:k]) in ps for k in range(len(p))))

    def _pass(self, fr, lid, st, mods, iteration, ind=None):
        L = Loop(lid, fr.body['name'], fr.key)
        L.ev0 = len(self.events)
        L.entry = dict(st.s)
        L.entry_g = st.g
        s = St(1, dict(st.s))
        for root, path in sorted(mods, key=str):
            init = self.read(s, root, path)
            if init.op == 'it':
                continue
            if ind is not None and ind[0] == (root, path):
                lo, hi, step = ind[1], ind[2], ind[3]
                base = mk('range', lo, hi)
                tok = self.el_token(base)
                L.base = base
                L.its.append((mk('it', 'range', lo, hi), base, 'fwd' if step > 0 else 'rev'))
                L.assume.append(ind[4])
                mu = tok
            else:
                mu = mk('mu', lid, root, path)
                if init.op in ('int', 'lin') or intlike(init):
                    core.TYPE.setdefault(mu, core.TYPE.get(init, 'i64'))
                elif init.op == 'b':
                    core.TYPE.setdefault(mu, 'bool')
                elif init in core.TYPE:
                    core.TYPE.setdefault(mu, core.TYPE[init])
                if init in core.KIND:
                    core.KIND.setdefault(mu, core.KIND[init])
                MUINIT[mu] = init
            L.mods[(root, path)] = dict(init=init, mu=mu)
            v = s.s.get(root)
            s.s[root] = upd(v, path, mu) if path else mu
        L.ind = ind
        log = set()
        self.wlogs.append(log)
        self.loops.append(L)
        self.gstack.append(st.g)
        L.assume.append((core._var_of[mk('more', lid)], 1))
        if not self.mute:
            self.allloops.append(L)
        try:
            res = iteration(s)
        finally:
            self.gstack.pop()
            self.loops.pop()
            self.wlogs.pop()
        return L, res, log

    def el_token(self, base):
        """symbolic element of a (single) iteration base, at the current nesting depth"""
        d = sum(list(comps(l.base)).count(base) for l in self.loops if l.base is not None)
        t = mk('el', base, d)
        core.TYPE.setdefault(t, 'i64' if base.op in ('range', 'inv') else '')
        return t

    def tmpkey(self, c, what):
        k = (tuple(self.stack_keys), c.bb, c.k, what)
        return self.framekeys.setdefault(k, len(self.framekeys) + 1)

    def _induction(self, L, res):
        outs, backs = res
        if not backs:
            return None
        cands = {}
        for tgt, s in outs:
            sup = b_support(s.g)
            if len(sup) == 1 and sup[0].op == 'le0':
                a = sup[0]
                pol = s.g != b_var(a)     # in-loop value of the atom
                cands[a] = pol
        for (root, path), m in L.mods.items():
            mu = m['mu']
            if mu.op != 'mu':
                continue
            steps = set()
            for b in backs:
                d = core.sub(self.read(b, root, path), mu)
                steps.add(d)
            if len(steps) != 1:
                continue
            d = steps.pop()
            if d.op != 'int' or d.a[0] not in (1, -1):
                continue
            step = d.a[0]
            for a, pol in cands.items():
                c, ts = as_lin(a.a[0])
                k = ts.pop(mu, 0)
                rest = lin(c, ts)
                if abs(k) != 1 or mentions_mu(rest, L.id):
                    continue
                # atom: k*mu + rest <= 0
                tok_hi = tok_lo = None
                if k == 1 and pol:        # mu <= -rest
                    hi = add(neg(rest), Int(1))
                elif k == -1 and not pol:  # -mu + rest > 0  -> mu < rest
                    hi = rest
                else:
                    hi = None
                if k == -1 and pol:       # mu >= rest
                    lo = rest
                elif k == 1 and not pol:  # mu > -rest
                    lo = add(neg(rest), Int(1))
                else:
                    lo = None
                init = m['init']
                if step == 1 and hi is not None:
                    rng = (init, hi)
                elif step == -1 and lo is not None:
                    rng = (lo, add(init, Int(1)))
                else:
                    continue
                base = mk('range', *rng)
                tok = self.el_token(base)
                a2 = le0(add(scale(tok, k), rest))
                sup = b_support(a2)
                if len(sup) != 1:
                    continue
                var = core._var_of[sup[0]]
                val = 1 if (a2 == b_var(sup[0])) == bool(pol) else 0
                return ((root, path), rng[0], rng[1], step, (var, val))
        return None

    def _close(self, L, st, outs, backs):
        more = core._var_of[mk('more', L.id)]
        # last value of every modified place after a complete iteration
        nb = self.merge(backs) if backs else None

        def cofm(g):
            for var, val in L.assume:
                g = b_cof(g, var, val)
            return g

        for (root, path), m in L.mods.items():
            if nb is None:
                m['next'] = m['mu']
            else:
                m['next'] = cof_term(self.read(nb, root, path), cofm)
                if L.elcond != 1:
                    m['next'] = ite(cofm(L.elcond), m['next'], m['mu'])
        # reads of an element at the index this iteration itself writes see the
        # value from before the loop
        self._own_reads(L)
        ex, br = [], []
        for tgt, s in outs:
            if L.base is not None and cofm(s.g) == 0:
                ex.append((tgt, s))
            else:
                br.append((tgt, s))
        if L.base is None and len(outs) == 1:
            ex, br = outs, []
        res = []
        brc = [cofm(s.g) for _, s in br]
        anyb = b_or(*brc) if brc else 0
        base = L.base if L.base is not None else mk('while', L.id)
        has_break = exists(base, anyb) if anyb else 0
        after = {}
        if ex or L.base is not None:
            for (root, path), m in L.mods.items():
                after[(root, path)] = m['after'] = self.close_rec(L, base, root, path, m, cofm)
        for tgt, s in ex:
            o = St(b_and(st.g, b_not(has_break)), dict(s.s))
            for (root, path), v in after.items():
                rv = o.s.get(root)
                o.s[root] = upd(rv, path, v) if path else v
            res.append((tgt, o))
        prev = 0
        L.outs = [] if L.base is not None else [
            (cofm(s.g), dict((k, cof_term(self.read(s, k[0], k[1]), cofm)) for k in L.mods)) for _, s in outs]
        for i, (tgt, s) in enumerate(br):
            if len(br) == 1:
                g = has_break
            else:
                a = b_var(mk('lexit', L.id, i)) if i < len(br) - 1 else 1
                g = b_and(has_break, b_not(prev), a)
                prev = b_or(prev, a)
            L.exits.append((brc[i], tgt))
            res.append((tgt, St(b_and(st.g, g), dict(s.s))))
        # several exit edges to one target: merge here, in order
        return res

    def _own_reads(self, L):
        if L.base is None:
            return
        sub = {}
        for (root, path), m in L.mods.items():
            mu, init, nx = m['mu'], m['init'], m['next']
            if mu.op != 'mu' or nx is mu:
                continue
            w = writes_of(nx, mu)
            if not w:
                continue
            idxs = set(x[2] for x in w)
            for kind, b, idx, cond, val in w:
                pass
            idxs = set(x[2] for x in w)
            if len(idxs) != 1:
                continue
            idx = idxs.pop()
            bases = [L.base] + [x[1] for x in w if x[1] is not None]
            if not injective(idx, bases):
                continue
            sub[mk('at', mu, idx)] = at(init, idx)
            m['idx'] = idx
        if not sub:
            return
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is None:
                r = sub[x] if x in sub else rebuild(x, go)
                memo[x] = r
            return r

        def gb(f):
            return b_subst(f, lambda a: atom_b(go(a)))
        self.own_go, self.own_gb = go, gb
        for m in L.mods.values():
            m['next'] = go(m['next'])
        L.own = (go, gb)
        for e in self.events[L.ev0:]:
            e.g = gb(e.g)
            e.vals = tuple(go(v) for v in e.vals)
            if e.res is not None:
                e.res = go(e.res)

    def close_rec(self, L, base, root, path, m, cofm):
        mu, init, nx = m['mu'], m['init'], m['next']
        if mu.op == 'el':
            # induction variable
            return base.a[1] if L.ind[3] > 0 else core.sub(base.a[0], Int(1))
        if nx is mu:
            return init
        ids = L.id

        def free(t):
            return not mentions_mu(t, ids)
        if nx.op in ('b',) or init.op == 'b':
            f = as_bool(nx)
            mv = core._var_of.get(mu)
            if mv is not None:
                f1, f0 = b_cof(f, mv, 1), b_cof(f, mv, 0)
                if f1 == 1 and free(B(f0)):
                    return B(b_or(as_bool(init), exists(base, f0)))
                if f0 == 0 and free(B(f1)):
                    return B(b_and(as_bool(init), b_not(exists(base, b_not(f1)))))
        if init.op in ('int', 'lin') or intlike(init):
            d = lin_of_ite(nx, mu)
            if d is not None and free(d):
                if L.base is not None:
                    return add(init, sum_(base, d))
        if L.base is not None:
            pc = push_cond(nx, mu)
            if pc is not None and free(B(pc[0])) and free(pc[1]):
                comp = mk('comp', prodbase((base, pc[2])) if pc[2] is not None else base, pc[0], pc[1])
                if init.op == 'arr' and not init.a[0]:
                    return comp
                return mk('cat', init, comp)
            r = self._close_writes(L, base, init, mu, nx, m, free)
            if r is not None:
                return r
        if L.base is not None and all(x is m or not _ment(nx, x['mu']) for x in L.mods.values()):
            # a single recurrence: canonical left fold over the base
            acc = mk('acc', base, sum(1 for l in self.loops if l.base is base))
            for d in (core.TYPE, core.KIND):
                if mu in d:
                    d.setdefault(acc, d[mu])
            memo = {mu: acc}

            def sub_mu(x):
                r = memo.get(x)
                if r is None:
                    r = memo[x] = rebuild(x, sub_mu)
                return r
            body = sub_mu(nx)
            order = L.its[0][2] if L.its else 'fwd'
            r = mk('fold', base, order, init, body)
            for d in (core.TYPE, core.KIND):
                if mu in d:
                    d.setdefault(r, d[mu])
            return r
        r = mk('after', L.id, root, path)
        AFTER[r] = (L, m)
        if init in core.TYPE:
            core.TYPE.setdefault(r, core.TYPE[init])
        elif init.op in ('int', 'lin'):
            core.TYPE.setdefault(r, 'i64')
        elif init.op == 'b':
            core.TYPE.setdefault(r, 'bool')
        MUINIT[r] = init
        return r

    def _close_writes(self, L, base, init, mu, nx, m, free):
        w = writes_of(nx, mu)
        if not w:
            return None
        if not all(free(x[2]) and free(B(x[3])) and (x[4] is None or free(x[4])) for x in w):
            return None
        r = init
        kinds = set(x[0] for x in w)
        if kinds == {'vecrem'} and len(w) == 1:
            _, b2, idx, cond, _ = w[0]
            if b2 is None and base.op == 'range' and idx.op == 'el' and idx.a[0] is base \
                    and base.a[0] is Int(0) and base.a[1] is ln(init):
                if L.its and L.its[0][2] == 'rev':
                    return mk('comp', base, b_not(cond), at(init, idx))
                return mk('fwdrem', init, base, B(cond), idx)
            return None
        if kinds == {'set'} and len(w) > 1 and len(set(x[2] for x in w)) > 1:
            return None
        for kind, b2, idx, cond, val in w:
            b = base if b2 is None else prodbase((base, b2))
            if kind == 'set':
                if b.op == 'keys' and idx.op == 'el' and idx.a[0] is b and b.a[0] is init:
                    r = mapcomp(init, b, 1, ite(cond, val, at(init, idx)))
                else:
                    r = scatter(r, b, cond, idx, val)
            elif kind == 'mapdel':
                if b.op == 'keys' and idx.op == 'el' and idx.a[0] is b and b.a[0] is init and r is init:
                    r = mapcomp(init, b, b_not(cond), at(init, idx))
                else:
                    r = mk('mapdels', r, mk('comp', b, cond, idx))
            elif kind == 'mapset':
                r = mk('mapputs', r, mk('comp', b, cond, mk('tup', (idx, val))))
            else:
                return None
        return r

    # virtual loops (closures applied to every element of an iterator)
    def each(self, call, it, fn):
        """run fn(state, elem) -> T for one symbolic element; returns (base, cond, value)"""
        box = {}

        def iteration(s):
            self.iter_call = call
            elem, cond = self.enter_iter(s, it)
            pre = dict(s.s) if cond != 1 else None
            s2 = St(b_and(s.g, cond), s.s)
            box['c'] = cond
            box['L'] = self.loops[-1]
            box['r'] = fn(s2, elem)
            s2.g = 1 if s2.g != 0 else 0
            if pre is not None:      # an element that is filtered out leaves the state as it was
                for k, v in s2.s.items():
                    old = pre.get(k)
                    if old is not None and old is not v:
                        s2.s[k] = ite(cond, v, old)
            # the element's own condition only gates the effects
            return [('end', St(b_not(self.loops[-1].more), dict(s2.s)))], [s2]
        key = ('each', call.bb, call.path, call.k)
        call.k += 1
        outs = self.run_loop(call.frame, key, call.st, lambda s: iteration(s))
        fin = [s for t, s in outs if t == 'end']
        if fin:
            call.st.s = fin[0].s
        return box['L'].base, box['c'], box['r']

    def it_mut(self, c, it):
        """does the iterator hand out references through which elements can change?"""
        return '&mut ' in c.dty or 'IterMut' in c.dty or 'ValuesMut' in c.dty or 'iter_mut' in c.dty

    def enter_iter(self, s, it):
        """consume one symbolic element of `it` in the innermost loop"""
        L = self.loops[-1]
        base, order = self.lib.it_base(self, s, it)
        if L.base is None:
            # token depth counts enclosing loops over the same base
            L.its.append((it, base, order))
            elem, cond = self.lib.it_elem(self, s, it, base)
            L.base = base
        else:
            L.its.append((it, base, order))
            self.unknown('second iterator in loop')
            elem, cond = self.lib.it_elem(self, s, it, base)
        return elem, cond

    # ------------------------------------------------------------ calls
    def call_term(self, fr, x, st, t):
        _, f, args, dest, target, unw, span = t
        vals = [self.operand(st, fr, a) for a in args]
        tys = [a.get('t', '') for a in args]
        dty = dest['t']
        if 'fn' in f:
            fnd = f['fn']
        else:
            fv = self.operand(st, fr, f)
            fnd = None
        c = Call()
        c.eng, c.st, c.args, c.tys, c.dty, c.span, c.frame, c.bb, c.k = \
            self, st, vals, tys, dty, span, fr, x, 0
        c.fnd = fnd
        self._site = x
        if fnd is None:
            c.path = 'indirect'
            r = self.call_value(c, st, fv, vals, dty)
        else:
            c.path = norm(fnd['path'])
            r = self.dispatch_call(c, fnd)
        if r is None or target is None:
            if target is None and not self.mute and r is not None:
                pass
            return []
        if r.op in LEAF and r not in core.TYPE:
            core.TYPE[r] = dty
        self.wplace(st, fr, dest, r, span)
        return [(target, st)]

    def dispatch_call(self, c, fnd):
        res = fnd.get('res')
        path = norm(fnd['path'])
        rpath = norm(res['path']) if res else None
        # anchors first
        for p in (path, rpath):
            if p in self.anchors:
                c.path = p
                return self.anchors[p](c)
        if res and res.get('local'):
            a = self.anchor_by_u(res['u'])
            if a:
                return a(c)
        # library models by trait method path
        h = self.lib.MODELS.get(path)
        tgt = None
        if path == 'std::iter::Iterator::next' and c.args and c.args[0].op == 'ref' \
                and self.deref(c.st, c.args[0]).op == 'it':
            return h(c)
        if path == 'std::iter::IntoIterator::into_iter' and c.args and c.args[0].op == 'it':
            return c.args[0]
        if fnd['local'] and fnd['u'] in self.bodies:
            tgt = self.bodies[fnd['u']]
        if res and res['local'] and res['u'] in self.bodies:
            tgt = self.bodies[res['u']]
        if tgt is not None and path.startswith('std::ops::Fn') and h and tgt['kind'] not in ('fn', 'method'):
            return h(c)
        if tgt is not None and not (h and path in self.lib.PREFER_MODEL):
            if tgt['u'] in self.lib_by_u():
                return self.lib_by_u()[tgt['u']](c)
            return self.run_body(c.st, tgt, c.args, (c.bb, c.k, 'call'))
        if h:
            r = h(c)
            if r is not NotImplemented:
                return r
        return self.external(c)

    def anchor_by_u(self, u):
        b = self.bodies.get(u)
        if b is None:
            return None
        return self.anchors.get('u:' + u) or self.anchors.get(fnname(b['name']))

    def lib_by_u(self):
        return {}

    def external(self, c):
        """unmodelled external function: opaque result, &mut arguments havocked"""
        name = c.path
        muts = [i for i, t in enumerate(c.tys) if t.startswith('&') and 'mut ' in t.split(' ', 2)[0] + ' ' +
                (t.split(' ', 2)[1] + ' ' if t.count(' ') else '')]
        muts = [i for i, t in enumerate(c.tys) if re.match(r"^&('\w+ )?mut ", t)]
        vals = [c.deep(i) for i in range(len(c.args))]
        if muts:
            n = self.next_ev(name)
            res = self.opaque('ev', name, [Int(n)] + vals, c.dty)
        else:
            res = self.opaque('app', name, vals, c.dty)
        c.event('ext', name, vals=vals, res=res)
        for x in c.args:
            v = x
            while v.op == 'ref':
                v = self.deref(c.st, v)
            if v.op in ('clo', 'it', 'fnc') and not name.startswith(OPAQUEOK):
                self.unknown('%s of %s' % (name, v.op))
        for i in muts:
            old = c.val(i)
            hv = mk('hv', name, n, old)
            if old in core.TYPE:
                core.TYPE.setdefault(hv, core.TYPE[old])
            self.write_ref(c.st, c.args[i], (), hv)
        if c.dty == '!':
            return None
        return res

    def next_ev(self, name):
        # occurrence number: stable for one static position (frame, block)
        k = (name, tuple(getattr(self, 'stack_keys', [])), len(self.loops))
        key = (name, self.cur_site())
        n = self.evc.get(key)
        if n is None:
            n = self.evc[key] = len(self.evc) + 1
        return n

    def cur_site(self):
        c = getattr(self, '_site', None)
        return (tuple(self.stack_keys), c)

    def opaque(self, op, name, vals, ty):
        r = mk(op, name, *vals)
        core.TYPE.setdefault(r, ty)
        s = ty
        if s.startswith('std::option::Option<'):
            core.KIND.setdefault(r, 'Option')
        elif s.startswith('std::result::Result<'):
            core.KIND.setdefault(r, 'Result')
        if ty == '()':
            return UNIT
        return r

    def call_value(self, c, st, fv, args, dty=''):
        """call a closure / fn item / fn pointer value with the given argument terms"""
        fv = self.deref(st, fv)
        while fv.op == 'ref':
            fv = self.deref(st, fv)
        if fv.op == 'clo':
            b = self.bodies.get(fv.a[0])
            if b is None:
                return self.opaque('app', 'closure', [fv] + list(args), dty)
            env_ty = b['locals'][1][0]
            site = (c.bb, c.k, 'clo')
            c.k += 1
            if env_ty.startswith('&'):
                root = ('E', self.framekeys.setdefault((tuple(self.stack_keys), site), len(self.framekeys) + 1))
                st.s[root] = fv
                env = mk('ref', root, ())
            else:
                env = fv
            return self.run_body(st, b, [env] + list(args), site)
        if fv.op == 'fnc':
            fnd = FND[fv]
            d = Call()
            d.eng, d.st, d.args, d.tys, d.dty, d.span, d.frame, d.bb, d.k = \
                self, st, list(args), [''] * len(args), dty, c.span, c.frame, c.bb, c.k + 100
            c.k += 1
            d.fnd = fnd
            d.path = norm(fnd['path'])
            ctor = self.ctor(fnd)
            if ctor is not None:
                return adt(ctor[0], ctor[1], tuple(str(i) for i in range(len(args))), args)
            return self.dispatch_call(d, fnd)
        if fv.op == 'ite':
            # gated function value
            s1 = St(b_and(st.g, fv.a[0]), dict(st.s))
            s2 = St(b_and(st.g, b_not(fv.a[0])), dict(st.s))
            r1 = self.call_value(c, s1, fv.a[1], args, dty)
            r2 = self.call_value(c, s2, fv.a[2], args, dty)
            m = self.merge([s1, s2])
            st.s = m.s
            if r1 is None:
                return r2
            if r2 is None:
                return r1
            return ite(fv.a[0], r1, r2)
        d = Call()
        d.eng, d.st, d.args, d.tys, d.dty, d.span, d.frame, d.bb, d.k, d.fnd = \
            self, st, list(args), [''] * len(args), dty, c.span, c.frame, c.bb, 0, None
        d.path = 'indirect'
        n = self.next_ev('indirect')
        res = self.opaque('ev', 'indirect', [Int(n), fv], dty)
        d.event('indirect', 'indirect', vals=[fv] + [d.deep(i) for i in range(len(args))], res=res)
        for a, ty in zip(c.args[-len(args):] if args else [], c.tys[-len(args):] if args else []):
            pass
        for i, a in enumerate(args):
            if a.op == 'ref' and (i < len(c.tys) and 'mut' in (c.tys[i] or 'mut')):
                self.write_ref(st, a, (), mk('hv', 'indirect', n, self.deref(st, a)))
        return res

    def ctor(self, fnd):
        p = norm(fnd['path'])
        tab = {'std::option::Option::Some': ('Option', 'Some'), 'std::prelude::v1::Some': ('Option', 'Some'),
               'std::result::Result::Ok': ('Result', 'Ok'), 'std::result::Result::Err': ('Result', 'Err'),
               'std::prelude::v1::Ok': ('Result', 'Ok'), 'std::prelude::v1::Err': ('Result', 'Err')}
        if p in tab:
            return tab[p]
        if '::' in p:
            ty, v = p.rsplit('::', 1)
            if ty in core.ENUMS and v in core.ENUMS[ty]:
                return (ty, v)
        if p in self.types and not self.types[p]['enum']:
            return (p, p.rsplit('::', 1)[-1])
        return None

    # ------------------------------------------------------------ entry point
    def summarize(self, name, args=None, anchors=None, argnames=None, store=None):
        """analyse function `name` on symbolic (or given) arguments"""
        b = self.byname.get(name) or self.bodies.get(name)
        if b is None:
            raise KeyError(name)
        self.reset()
        self.anchors = dict(anchors or {})
        self.anchors.pop(fnname(b['name']), None)
        self.anchors.pop('u:' + b['u'], None)
        self.stack_keys = []
        st = St(1, dict(store or {}))
        vals = []
        for i in range(b['argc']):
            ty, nm = b['locals'][i + 1]
            nm = nm or 'a%d' % i
            if argnames:
                nm = argnames[i]
            if args is not None and args[i] is not None:
                v = args[i]
                if ty.startswith('&') and v.op != 'ref' and v.op != 'bytes':
                    root = ('P', nm)
                    st.s[root] = v
                    v = mk('ref', root, ())
                vals.append(v)
                continue
            vals.append(self.symarg(st, nm, ty))
        ret = self.run_body(st, b, vals, ('top', b['u']))
        r = Summary(b['name'], vals, ret, self.events, st, self.allloops, self)
        r.span = b['span']
        r.unk = dict(self.unk)
        return r

    def symarg(self, st, nm, ty):
        s = mk('sym', nm)
        inner = strip_ref(ty)
        core.TYPE[s] = inner
        if ty.startswith('&') and not inner.startswith('str') and not inner.startswith('['):
            root = ('P', nm)
            st.s[root] = s
            return mk('ref', root, ())
        if ty.startswith('&') and 'mut' in ty.split()[0] + (ty.split()[1] if ' ' in ty else ''):
            root = ('P', nm)
            st.s[root] = s
            return mk('ref', root, ())
        return s


FND = {}
OPAQUEOK = ('std::thread', 'std::sync', 'std::io', 'core::fmt', 'std::fmt', 'clap')
MUINIT = {}
AFTER = {}
LEAF = {'sym', 'fld', 'pay', 'at', 'app', 'ev', 'mu', 'after', 'hv', 'el', 'sub', 'nth', 'rd', 'get'}


def addp(pa, el):
    # indexing into a subslice is indexing into the whole
    if pa and pa[-1][0] == 's' and el[0] == 'i':
        return pa[:-1] + (('i', add(pa[-1][1], el[1])),)
    return pa + (el,)


def trunc(ty, bits, v):
    if v.op == 'int':
        n = v.a[0] & ((1 << bits) - 1)
        if ty.startswith('i') and n >= 1 << (bits - 1):
            n -= 1 << bits
        return Int(n)
    if v.op == 'ite':
        return ite(v.a[0], trunc(ty, bits, v.a[1]), trunc(ty, bits, v.a[2]))
    if v.op == 'trunc' and v.a[0] == ty:
        return v
    vt = core.TYPE.get(v)
    w = {'u8': 8, 'u16': 16, 'u32': 32}
    if vt in w and w[vt] <= bits and not (ty.startswith('i') and w[vt] == bits):
        return v
    return mk('trunc', ty, bits, v)


def arith(op, a, b, ty):
    if op == 'Add':
        return add(a, b)
    if op == 'Sub':
        return core.sub(a, b)
    if op == 'Mul':
        return mul(a, b)
    if a.op == 'int' and b.op == 'int':
        x, y = a.a[0], b.a[0]
        try:
            if op == 'Div':
                return Int(int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1))
            if op == 'Rem':
                return Int(abs(x) % abs(y) * (-1 if x < 0 else 1))
            if op == 'BitAnd':
                return Int(x & y)
            if op == 'BitOr':
                return Int(x | y)
            if op == 'BitXor':
                return Int(x ^ y)
            if op == 'Shl':
                return Int(x << y)
            if op == 'Shr':
                return Int(x >> y)
        except ZeroDivisionError:
            pass
    if op == 'Div' and b.op == 'int' and b.a[0] > 0:      # exact multiples
        cst, ts = as_lin(a)
        if cst % b.a[0] == 0 and all(v % b.a[0] == 0 for v in ts.values()):
            return lin(cst // b.a[0], {t: v // b.a[0] for t, v in ts.items()})
    if op == 'Shl' and b.op == 'int':
        return scale(a, 1 << b.a[0])
    nm = {'Div': 'div', 'Rem': 'rem', 'BitAnd': 'band', 'BitOr': 'bor', 'BitXor': 'bxor',
          'Shl': 'shl', 'Shr': 'shr'}.get(op, op)
    r = mk(nm, a, b)
    core.TYPE.setdefault(r, ty)
    return r


_mm = {}


def mentions_mu(t, lid):
    k = (t, lid)
    r = _mm.get(k)
    if r is not None:
        return r
    r = False
    if t.op == 'mu' and t.a[0] == lid:
        r = True
    else:
        for x in term_kids(t):
            if mentions_mu(x, lid):
                r = True
                break
    _mm[k] = r
    return r


term_kids = allkids


def _ment(t, tok, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = memo[t] = t is tok or any(_ment(x, tok, memo) for x in allkids(t))
    return r


def cof_term(t, f):
    """apply a BDD rewriting to the gates at the top of a term"""
    if t.op == 'ite':
        return ite(f(t.a[0]), cof_term(t.a[1], f), cof_term(t.a[2], f))
    if t.op == 'b':
        return B(f(t.a[0]))
    if t.op == 'lin':
        r = Int(t.a[0])
        for x, k in t.a[1]:
            r = add(r, scale(cof_term(x, f), k))
        return r
    return t


def lin_of_ite(nx, mu):
    """nx - mu as a term, distributing over gates; None if impossible"""
    if nx is mu:
        return Int(0)
    if nx.op == 'ite':
        a, b = lin_of_ite(nx.a[1], mu), lin_of_ite(nx.a[2], mu)
        if a is None or b is None:
            return None
        return ite(nx.a[0], a, b)
    c, ts = as_lin(nx)
    if ts.get(mu) == 1:
        return core.sub(nx, mu)
    # gates inside the linear form
    for x, k in ts.items():
        if x.op == 'ite' and k == 1:
            d = lin_of_ite(x, mu)
            if d is not None:
                return add(d, core.sub(nx, x))
    return None


def push_cond(nx, mu):
    """nx = ite(c, push(mu,x), mu) -> (c, x, inner base)"""
    if nx.op == 'push' and nx.a[0] is mu:
        return (1, nx.a[1], None)
    if nx.op == 'cat' and nx.a[0] is mu and nx.a[1].op == 'comp':
        return (nx.a[1].a[1], nx.a[1].a[2], nx.a[1].a[0])
    if nx.op == 'ite':
        c, a, b = nx.a
        if a is mu:
            r = push_cond(b, mu)
            return None if r is None else (b_and(b_not(c), r[0]), r[1], r[2])
        if b is mu:
            r = push_cond(a, mu)
            return None if r is None else (b_and(c, r[0]), r[1], r[2])
        ra, rb = push_cond(a, mu), push_cond(b, mu)
        if ra and rb and ra[2] is rb[2]:
            return (b_ite(c, ra[0], rb[0]), ite(c, ra[1], rb[1]), ra[2])
    return None


def writes_of(nx, mu):
    """nx as a list of gated element writes to mu: (kind, inner base, idx, cond, val); None if it is not"""
    if nx is mu:
        return []
    op = nx.op
    if op == 'ite':
        c, a, b = nx.a
        wa, wb = writes_of(a, mu), writes_of(b, mu)
        if wa is None or wb is None:
            return None
        if len(wa) == 1 and len(wb) == 1 and wa[0][0] == wb[0][0] == 'set' and wa[0][1] is wb[0][1] \
                and wa[0][2] is wb[0][2]:
            x, y = wa[0], wb[0]
            return [('set', x[1], x[2], b_ite(c, x[3], y[3]), ite(b_restrict(c, b_ite(c, x[3], y[3])), x[4], y[4])
                     if x[4] is not y[4] else x[4])]
        return [(k, b2, i, b_and(c, g), v) for k, b2, i, g, v in wa] + \
               [(k, b2, i, b_and(b_not(c), g), v) for k, b2, i, g, v in wb]
    if op == 'aset':
        w = writes_of(nx.a[0], mu)
        return None if w is None else w + [('set', None, nx.a[1], 1, nx.a[2])]
    if op == 'scatter':
        w = writes_of(nx.a[0], mu)
        return None if w is None else w + [('set', nx.a[1], nx.a[3], nx.a[2], nx.a[4])]
    if op == 'vecrem':
        w = writes_of(nx.a[0], mu)
        return None if w is None else w + [('vecrem', None, nx.a[1], 1, None)]
    if op == 'mapdel':
        w = writes_of(nx.a[0], mu)
        return None if w is None else w + [('mapdel', None, nx.a[1], 1, None)]
    if op == 'mapset':
        w = writes_of(nx.a[0], mu)
        return None if w is None else w + [('mapset', None, nx.a[1], 1, nx.a[2])]
    if op == 'rec':
        return None
    return None


def injective(idx, bases):
    """index expression takes distinct values on distinct iterations of the bases"""
    n = sum(len(comps(b)) for b in bases)
    c, ts = as_lin(idx)
    own = set(y for b in bases for y in comps(b))
    toks = [(t, k) for t, k in ts.items() if t.op == 'el' and t.a[0] in own]
    if len(toks) != n:
        return False
    ks = sorted(abs(k) for _, k in toks)
    return all(b >= 16 * a for a, b in zip(ks, ks[1:]))


def unmu(t, memo=None):
    """replace loop-carried tokens by the value before the loop"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('mu', 'after') and x in MUINIT:
            r = go(MUINIT[x])
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def unmu_b(f, memo=None):
    memo = {} if memo is None else memo
    return b_subst(f, lambda a: atom_b(unmu(a, memo)))


def atom_b(t):
    """BDD of a (possibly rewritten) atom term"""
    if t.op == 'le0':
        return le0(t.a[0])
    if t.op == 'eq0':
        return eq(t.a[0], Int(0))
    if t.op == 'eq':
        return eq(t.a[0], t.a[1])
    if t.op == 'is':
        vs = None
        return is_var(t.a[0], t.a[1], vs) if t.a[0].op in ('adt', 'ite', 'undef', 'rec', 'branch', 'residual') \
            else b_var(t)
    if t.op == 'exists':
        return exists(t.a[0], t.a[1])
    if t.op == 'has':
        return has(t.a[0], t.a[1])
    return as_bool(t)


def rebuild(x, go):
    """map `go` over the children of x and re-normalise"""
    op, a = x.op, x.a

    def gb(f):
        return b_subst(f, lambda t: atom_b(go(t)))
    if op in ('int', 'bytes', 'sym', 'cst', 'cname', 'fnc', 'flt', 'undef', 'mu', 'after', 'more'):
        return x
    if op == 'b':
        return B(gb(a[0]))
    if op == 'ite':
        return ite(gb(a[0]), go(a[1]), go(a[2]))
    if op == 'lin':
        r = Int(a[0])
        for t, k in a[1]:
            r = add(r, scale(go(t), k))
        return r
    if op == 'mul':
        return mul(go(a[0]), go(a[1]))
    if op == 'fld':
        return proj(go(a[0]), ('f', a[1]))
    if op == 'pay':
        return keep(x, proj(go(a[0]), ('vf', a[1], a[2])))
    if op == 'at':
        return keep(x, at(go(a[0]), go(a[1])))
    if op == 'rec':
        b = go(a[0])
        for k, v in a[1]:
            b = upd(b, (k,), go(v))
        return b
    if op == 'adt':
        return adt(a[0], a[1], a[2], [go(t) for t in a[3]])
    if op == 'len':
        return ln(go(a[0]))
    if op == 'sub':
        v, lo, n = go(a[0]), go(a[1]), go(a[2])
        return mk('sub', v, lo, n)
    if op == 'exists':
        return mk('exists', go(a[0]), gb(a[1]))
    if op in ('comp', 'firstval', 'mapcomp'):
        return mk(op, go(a[0]), gb(a[1]), go(a[2]))
    if op == 'mapof':
        return mk(op, go(a[0]), gb(a[1]), go(a[2]), go(a[3]))
    if op == 'scatter':
        return mk(op, go(a[0]), go(a[1]), gb(a[2]), go(a[3]), go(a[4]))
    if op == 'ref':
        return x

    def gx(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(gx(z) for z in y)
        return y
    return keep(x, mk(op, *[gx(y) for y in a]))


def keep(old, new):
    if new is not old:
        if old in core.TYPE:
            core.TYPE.setdefault(new, core.TYPE[old])
        if old in core.KIND:
            core.KIND.setdefault(new, core.KIND[old])
    return new
