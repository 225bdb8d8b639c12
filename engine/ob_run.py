"""The run of a command: arguments, prompt, opening of the maps, transaction, commit and report (compute_thread)."""
import random
import re
import anchors
import core
import dbsem
import fnob
import ob_cmd
import ob_db
import rand
import spec_codec as S
import trace
import views
from check import ob
from core import T, mk, UNIT, proj
from dbsem import DbWorld, flat, kind, txt
from fnob import PANIC, V, A
from ob_codec import parallel
from rand import O, Q, Ok, Err, Some, NoneV, Undecided, UNITV

ARGS = 'instance::InstArgs'
LIM = 31000


def driver(ctx):
    """the function that runs a command: takes the arguments and the status link by value"""
    c = [n for n, b in ctx.eng.byname.items() if b['argc'] >= 2 and [t for t, _ in b['locals'][1:3]] == [ARGS, 'instance::StatusServer']]
    if len(c) != 1:
        raise Undecided('the function that runs a command')
    return c[0]


def dbfields(types):
    """fields of the bundle that hold the main and the input database"""
    t = types.get('instance::InstBundle')
    if not t:
        raise Undecided('InstBundle')
    main = [n for n, ty in t['variants'][0][1] if ty.startswith('map_database::MapDatabase<')]
    inp = [n for n, ty in t['variants'][0][1] if 'Option<map_database::MapDatabase<' in ty]
    if len(main) != 1 or len(inp) != 1:
        raise Undecided('databases of InstBundle')
    return main[0], inp[0]


def command_event(ctx, name, fn):
    fl = ob_db.flag(ctx.eng.types)
    main, inp = dbfields(ctx.eng.types)

    def f(c):
        ref = c.args[0]
        if ref.op != 'ref':
            return NotImplemented
        root, path = ref.a
        b = c.eng.read(c.st, root, path)
        d = c.eng.deep(c.st, proj(b, ('f', main)))
        i = c.eng.deep(c.st, proj(b, ('f', inp)))
        before = c.eng.deep(c.st, proj(proj(b, ('f', main)), ('f', fl)))
        after = c.eng.opaque('ev', 'command.tx', [core.Int(c.eng.next_ev('command.tx')), before], 'bool')
        a = c.eng.deep(c.st, proj(b, ('f', 'args')))
        c.event('command', name, vals=[d, i, before, after, a])
        c.eng.write_ref(c.st, ref, (('f', main), ('f', fl)), after)
        return UNIT
    return f


def thread(ctx, name):
    """summary of the driver for one command"""
    def f():
        drv = driver(ctx)
        an = {}
        for op in anchors.STATUS:
            n = 'instance::StatusServer::' + op
            if n in ctx.eng.byname:
                an[n] = anchors.status(op)
        if 'utils::fmt_big_num' in ctx.eng.byname:
            an['utils::fmt_big_num'] = anchors.a_big
        for n in ob_cmd.table(ctx):
            fn = ob_cmd.command_fn(ctx, n)
            if fn is None:
                raise Undecided('function of ' + n)
            an[fn] = command_event(ctx, n, fn)
        b = ctx.eng.byname[drv]
        nm = b['locals'][1][1] or 'a0'
        s = mk('sym', nm)
        core.TYPE[s] = ARGS
        if 'command' not in [n for n, _ in ctx.eng.types[ARGS]['variants'][0][1]]:
            raise Undecided('InstArgs')
        a = core.upd(s, (('f', 'command'),), mk('bytes', tuple(name.encode())))
        args = [a] + [None] * (b['argc'] - 1)
        s = ctx.eng.summarize(drv, args=args, anchors=an)
        if s.unk:
            raise Undecided('unmodelled: %s' % ', '.join(sorted(s.unk))[:200])
        its = trace.select(s, sel, panics=True)
        ret = ctx.eng.deep(s.st, s.ret)
        loops, byid, first = trace.prepare(s, its, [ret])
        hot = rand.Pool(views.terms_of([(i.name, i.vals, i.g, i.e.loops, "") for i in its], s.loops) + [ret], known='thread.' + name)
        return s, nm, its, ret, loops, byid, first, hot
    return ctx.once('thread.' + name, f)


def sel(ev):
    if ev.kind == 'ext' and ev.name.startswith('sqlite::') and not ev.name.startswith('sqlite::OpenFlags'):
        return ev.name, tuple(ev.vals) + ((ev.res,) if isinstance(ev.res, T) else ())
    if ev.kind == 'status':
        return 'status.' + ev.name, tuple(ev.vals) + ((ev.res,) if isinstance(ev.res, T) and ev.res is not UNIT else ())
    if ev.kind == 'command':
        return 'command.' + ev.name, tuple(ev.vals)


class RunWorld(DbWorld):
    """files exist or not, the prompt is answered, the command leaves its transaction open or (vacuum) not"""
    files = 0           # one in so many paths is no file
    name = ''
    badcol = None
    yes = True
    failed = 0

    def column(self, stmt, col, row, t):
        v = super().column(stmt, col, row, t)
        if self.badcol and self.badcol[0] == (row, col) and self.main(stmt) == self.badcol[1]:
            return 7 if isinstance(v, int) else tuple(b'other')
        return v

    def main(self, stmt):
        return 'map_sym' in repr(stmt)

    def _ev(self, op, a, t, fr):
        if op == 'ev':
            n = str(a[0])
            if n == 'command.tx':
                b = self.ev(a[2], fr)
                if self.name == 'vacuum':
                    return False if self.h('vac') % 3 else b
                return True if b else self.h('lazy') % 2 == 0
            if n == 'status.get_confirmation':
                return self.yes
            if n == 'status.get_status':
                r = self.gen('instance::InstStatus', ('status', repr(a[1])))
                for k, ty in self.types['instance::InstStatus']['variants'][0][1]:
                    if 'fail' in k:
                        r.f[k] = self.failed
                return r
        return super()._ev(op, a, t, fr)

    def app(self, n, a, t, fr):
        base = n.split('::')[-1]
        if n in ('std::path::Path::is_file', 'std::path::Path::exists', 'std::path::Path::is_dir'):
            p = self.ev(a[0], fr)
            if base == 'is_dir':
                return self.isdir(p)
            return self.isfile(p) or base == 'exists' and self.isdir(p)
        if n in ('std::path::Path::join', 'std::path::PathBuf::join'):
            return Q(('join', self.ev(a[0], fr), self.ev(a[1], fr)))
        if n.startswith('anyhow::'):
            return Q(('error',) + tuple(self.ev(x, fr) for x in a if isinstance(x, T)))
        return super().app(n, a, t, fr)

    def isdir(self, p):
        return not self.isfile(p) and self.h('dir', repr(p)) % 2 == 0

    def isfile(self, p):
        return not self.files or self.h('file', repr(p)) % self.files != 0


# ------------------------------------------------------------------ arguments
GOOD = ['air', 'ignore', 'default:stone', 'a:b', 'mod_1:Item_9', 'x9:Y', 'a:', ':b']
BAD = ['stone', 'Default:stone', 'a:b:c', 'a b:c', 'default:stone-', '', 'mod-x:y', 'AIR', 'air ', 'd\u00e9:x', 'a:\u00e9', 'a.b:c', 'a:b c', 'a:b\n', 'air\n', '\na:b']


LONG = [tuple(b'a:' + b'b' * n) for n in (65533, 65534, 70000)]


def nm(r, bad):
    if r.random() < .004:
        return r.choice(LONG)
    s = tuple(r.choice(BAD if r.random() < bad else GOOD).encode())
    n = S.hotn(r, 3, 66000)
    if n is not None:
        s = (s * n)[:n] if r.random() < .2 else tuple((b'a:' + b'b' * n)[:n])
    return text(r, s)


def text(r, s):
    x = S.mix(r, s)
    try:
        bytes(x).decode()
    except ValueError:
        return s
    return x


def coord(r, bad):
    v = S.hotn(r, -LIM, LIM)
    if v is not None:
        return v
    return r.choice((-LIM - 1, LIM + 1, LIM + 20, -2 * LIM)) if r.random() < bad else \
        r.choice((-LIM, LIM, LIM - 1, 0, 16, -1, r.randint(-LIM, LIM), r.randint(-99, 99)))


def area(r, bad):
    lo, hi = zip(*[sorted((coord(r, bad), coord(r, bad))) for _ in 'xyz'])
    return A(lo, hi)


def offset(r, bad):
    if r.random() < .15:
        return V(0, 0, 0)
    m = 2 * LIM
    return V(*[S.ror(r, r.choice((0, m)), -m, m) if S.FOC and r.random() < .6 else
               S.ror(r, r.choice((m + 1, -m - 1, 3 * m, -3 * m, 2 ** 31 - 1, -2 ** 31, 1 - 2 ** 31)), -2 ** 31, 2 ** 31 - 1) if r.random() < bad else
               r.choice((0, 0, m, -m, LIM, -LIM, 16, r.randint(-m, m), r.randint(-99, 99))) for _ in 'xyz'])


def value(w, f, ty, r, bad, req):
    o = 'Option<' in ty
    if o and f not in req and r.random() < .5:
        return NoneV
    wrap = Some if o else (lambda x: x)
    if f == 'area':
        return wrap(area(r, bad))
    if f == 'offset':
        return wrap(offset(r, bad))
    if f in ('node', 'new_node', 'object', 'item', 'new_item'):
        return wrap(nm(r, bad))
    if f in ('nodes', 'items'):
        if bad and r.random() < .4:      # only one of them is malformed, often the last
            n = S.ror(r, r.choice((1, 2, 3, 20)), 1, 100)
            k = r.choice((n - 1, r.randrange(n)))
            return wrap(tuple(nm(r, 0) if i != k else nm(r, 1) if r.random() < .8 else () for i in range(n)))
        return wrap(tuple(nm(r, bad) for _ in range(S.ror(r, r.choice((0, 1, 2, 3)), 0, 100))))
    if f == 'key':
        if S.FOC or S.FOCB:
            return wrap(text(r, (107,) * S.rlen(r)))
        return wrap(tuple(r.choice((b'formspec', b'k', b'')) if r.random() < .97 else r.choice((b'k' * 65535, b'k' * 65536))))
    if f == 'value':
        return wrap(text(r, tuple(r.choice((b'', b'x', b'some value', b'y')))))
    if f == 'param2':
        return wrap(S.ror(r, r.randrange(256), 0, 255))
    if f == 'map_path':
        return Q('map_sym')
    if f == 'input_map_path':
        return wrap(Q('input_sym'))
    if ty == 'bool':
        return r.random() < .5
    return w.gen(ty, ('arg', f))


REQ = dict(ob_cmd.REQ, overlay=('input_map_path',))


def make_args(w, ctx, name, r):
    bad = r.choice((0, 0, 0, .05, .3))
    req = REQ.get(name, ())
    d = {}
    for f, ty in ctx.eng.types[ARGS]['variants'][0][1]:
        if f == 'command':
            d[f] = tuple(name.encode())
        elif f == 'input_map_path' and name != 'overlay':
            d[f] = NoneV
        else:
            d[f] = value(w, f, ty, r, bad, req)
    if 'item' in d and name == 'replaceininv' and r.random() < .2:
        d['new_item'] = d['item']
    if 'node' in d and name == 'replacenodes' and r.random() < .2:
        d['new_node'] = d['node']
    return O(ARGS, 'InstArgs', d)


def opt(v):
    return v.get('0') if v.var == 'Some' else None


def vec(v):
    return tuple(v.get(c) for c in 'xyz')


NAME = re.compile(rb'(air|ignore|[a-z0-9_]*:[A-Za-z0-9_]*)\Z')


def general(a):
    """why the general rules refuse the arguments, or None"""
    ar, of = opt(a.get('area')), opt(a.get('offset'))
    if a.get('invert') and ar is None:
        return '--invert without an area'
    if ar is not None and any(abs(c) > LIM for e in ('min', 'max') for c in vec(ar.get(e))):
        return 'an area corner beyond +-%d' % LIM
    if of is not None and any(abs(c) > 2 * LIM for c in vec(of)):
        return 'an offset beyond +-%d' % (2 * LIM)
    ns = [(f, opt(a.get(f))) for f in ('node', 'new_node', 'object', 'item', 'new_item')]
    ns += [('nodes', x) for x in a.get('nodes')] + [('items', x) for x in opt(a.get('items')) or ()]
    for f, x in ns:
        if x is not None and len(x) > 65535:
            return 'a name too long to be stored'
        if x is not None and not NAME.match(bytes(x)):
            return 'the malformed name %r (%s)' % (bytes(x).decode('utf8', 'replace'), f)


def special(name, a):
    """why the command's own rules refuse the arguments, or None"""
    h = lambda f: a.get(f).var == 'Some'
    if name in ('clone', 'overlay'):
        of = vec(opt(a.get('offset'))) if h('offset') else (0, 0, 0)
        ar = opt(a.get('area')) if h('area') else A((-LIM,) * 3, (LIM,) * 3)
        if name == 'overlay' and a.get('invert') and any(of):
            return 'an inverted selection with an offset'
        if any(l + o > LIM or u + o < -LIM for l, u, o in zip(vec(ar.get('min')), vec(ar.get('max')), of)):
            return 'a destination outside the map'
    if name == 'deleteobjects' and h('object') and h('items'):
        return 'both --obj and --items'
    if name == 'replaceininv':
        if not h('new_item') and not a.get('delete') and not a.get('delete_meta'):
            return 'neither a new item nor --delete nor --deletemeta'
        if h('new_item') and a.get('delete'):
            return 'a new item together with --delete'
        if a.get('item') == a.get('new_item') and not a.get('delete_meta'):
            return 'the same item twice'
    if name == 'replacenodes' and a.get('node') == a.get('new_node'):
        return 'the same node twice'
    if name == 'setmetavar':
        if not h('value') and not a.get('delete'):
            return 'neither a value nor --delete'
        if h('value') and a.get('delete'):
            return 'a value together with --delete'
        if h('value') and not opt(a.get('value')):
            return 'an empty value'
        if h('value') and h('key') and len(opt(a.get('key'))) > 65535:
            return 'a key too long to be stored'
    if name == 'setparam2' and not h('area') and not h('node'):
        return 'neither an area nor a node'


def warned(name, a):
    return name == 'deletemeta' and a.get('area').var == 'None' and a.get('node').var == 'None'


# ------------------------------------------------------------------ rules
def conn_of(d):
    """the connection of a MapDatabase value"""
    if not isinstance(d, O):
        raise Undecided('database value')
    for k, v in d.f.items():
        if isinstance(v, Q) and isinstance(v.k, tuple) and v.k[0] == 'conn':
            return v
    raise Undecided('connection of the database')


def says(v, word):
    def flat_(x):
        if isinstance(x, tuple):
            if x and all(isinstance(c, int) for c in x):
                return bytes(c & 255 for c in x).decode('latin1')
            return ' '.join(flat_(y) for y in x)
        return str(x)
    return word in flat_(v).lower()


def mentions(v, n):
    if v == n and not isinstance(v, bool):
        return True
    if isinstance(v, tuple):
        return any(mentions(x, n) for x in v)
    if isinstance(v, O):
        return any(mentions(x, n) for x in v.f.values())
    if isinstance(v, Q):
        return mentions(v.k, n) if isinstance(v.k, tuple) else False
    return False


class Run(object):
    pass


def interpret(ctx, name, i, without=None):
    s, pn, its, ret, loops, byid, first, hot = thread(ctx, name)
    r = random.Random(repr((ctx.seed, name, 'run', i)))
    S.focus(r, hot)
    w = RunWorld((ctx.seed, name, i), ctx.eng.types, loops)
    w.name = name
    w.clean = r.random() < .6
    w.rate = r.choice((3, 6, 25))
    w.files = r.choice((0, 0, 0, 2, 3))
    w.yes = r.random() < .6
    w.failed = S.ror(r, r.choice((0, 0, 1, 37, 1234)), 0, 1 << 62)
    if r.random() < .15:
        w.badcol = ((r.choice((1, 2)), r.choice((1, 2, 5))), r.random() < .5)
    a = make_args(w, ctx, name, r)
    if without:
        a.f[without] = NoneV
        if without == 'area':
            a.f['invert'] = False
    w.root = rand.Frame(None, frozenset(), {}, {})
    w.root.vals[mk('sym', pn)] = a
    tr = trace.trace(w, its, byid, first)
    x = Run()
    x.w, x.args, x.tr, x.name = w, a, tr, name
    x.panic = bool(tr) and tr[-1].name == 'PANIC'
    if x.panic:
        tr.pop()
    x.ret = PANIC if x.panic else w.ev(ret, w.root)
    x.cmd = [k for k, e in enumerate(tr) if e.name.startswith('command.')]
    x.refusal = general(a) or special(name, a)
    x.failure = next((e for e in tr if e.vals and ob_db.is_err(e.vals[-1])), None)
    return x


def starts(ctx, name, without):
    """the command is run although the argument is absent"""
    n = 0
    for i in range(60):
        x = interpret(ctx, name, i, without)
        if x.cmd or x.panic:
            return True
        n += not x.failure and not x.w.files and not badmap(x) and (not x.args.get('do_confirmation') or x.w.yes)
    if n < 5:
        raise Undecided('whether validation requires ' + without)
    return False


def src(e):
    return '%s (%s)' % (e.e.span, e.e.fn)


def okv(v):
    return isinstance(v, O) and v.var == 'Ok'


def errv(v):
    return isinstance(v, O) and v.var == 'Err'


def r_c02(x, ctx, st):
    ask = x.args.get('do_confirmation')
    answers = [(k, e) for k, e in enumerate(x.tr) if e.name == 'status.get_confirmation']
    if x.cmd:
        k = x.cmd[0]
        c = x.tr[k]
        if x.refusal:
            return '%s runs although its arguments have %s' % (x.name, x.refusal), src(c)
        if ask and not [e for j, e in answers if j < k and e.vals[-1] is True]:
            return '%s runs without a confirmation' % x.name, src(c)
        if any(e.vals[-1] is False for j, e in answers if j < k):
            return '%s runs although the prompt was answered with no' % x.name, src(c)
        if len(x.cmd) > 1:
            return '%s runs %d times' % (x.name, len(x.cmd)), src(c)
    if x.refusal and not errv(x.ret):
        return '%s: arguments with %s end in %s instead of an error' % (x.name, x.refusal, fnob.short(x.ret, 40)), ''
    first = answers[0][0] if answers else x.cmd[0] if x.cmd else None
    if first is not None:
        ws = [txt(e.vals[0]) if isinstance(e.vals[0], tuple) else repr(e.vals[0])
              for j, e in enumerate(x.tr) if e.name == 'status.log_warning' and j < first]
        if not warned(x.name, x.args):
            st.setdefault('generic', set()).update(ws)
        elif not x.refusal and not [t for t in ws if t not in st.get('generic', ())] and 'generic' in st:
            return '%s: its warning is not shown before the prompt' % x.name, src(x.tr[first])
    return None


def usable(x):
    """nothing stands in the way of the command"""
    return not x.refusal and not x.failure and not x.panic and not x.w.files and not badmap(x)


def badmap(x):
    return x.w.badcol and (x.w.badcol[1] or x.args.get('input_map_path').var == 'Some')


def r_accept(x, ctx, st):
    """a run that may go ahead does"""
    if usable(x) and (not x.args.get('do_confirmation') or x.w.yes) and not x.cmd:
        return '%s is not run although its arguments are valid (%s)' % (x.name, fnob.short(x.ret, 60)), ''
    if x.cmd:
        c = x.tr[x.cmd[0]]
        if c.name != 'command.' + x.name:
            return '%s runs the function of %s' % (x.name, c.name[8:]), src(c)
        a = c.vals[4]
        if a != x.args:
            d = [f for f in x.args.f if a.get(f) != x.args.get(f)] if isinstance(a, O) else ['?']
            return '%s does not get the arguments of the command line (%s)' % (x.name, ', '.join(d)), src(c)


def r_c01(x, ctx, st):
    if not x.cmd:
        return
    k = x.cmd[0]
    c = x.tr[k]
    conn = conn_of(c.vals[0])
    m = ob_db.Conn(False)
    commits = 0
    for j, e in enumerate(x.tr):
        if j == k:
            if m.tx != bool(c.vals[2]):
                return '%s starts with the transaction flag %s although the connection is %s a transaction' % (
                    x.name, c.vals[2], 'in' if m.tx else 'not in'), src(c)
            m.tx = bool(c.vals[3])
        if e.name in ob_db.EXEC and e.vals[0] == conn:
            q = txt(e.vals[1])
            if dbsem.BAD_PRAGMA.search(q):
                return 'the rollback journal is given up (%s)' % q, src(e)
            ks = flat(kind(q))
            if j > k and set(ks) & {'rollback', 'insert', 'delete', 'update', 'ddl'}:
                return 'after the command %s is run' % q, src(e)
            if j > k and 'begin' in ks:
                return 'a second transaction is opened after the command', src(e)
            m.run(q, not ob_db.is_err(e.vals[-1]))
            if j > k and 'commit' in ks:
                commits += 1
    if okv(x.ret) and m.tx:
        return '%s ends successfully without committing' % x.name, src(c)
    if commits > 1 and not x.failure:
        return '%s commits %d times' % (x.name, commits), src(c)


def r_c03(x, ctx, st):
    if not x.cmd:
        return
    c = x.tr[x.cmd[0]]
    for d, what, sym, need in ((c.vals[0], 'main map', 'map_sym', 'set_read_write'), (c.vals[1], 'input map', 'input_sym', 'set_read_only')):
        if d is c.vals[1]:
            has = x.args.get('input_map_path').var == 'Some'
            if not isinstance(d, O) or (d.var == 'Some') != has:
                return '%s: the input map is %s' % (x.name, fnob.short(d, 40)), src(c)
            if not has:
                continue
            d = d.get('0')
        k = conn_of(d).k
        path, fl = k[1], k[2] if len(k) > 2 else None
        flags = fl.k[1] if isinstance(fl, Q) and isinstance(fl.k, tuple) and fl.k[0] == 'flags' else None
        good = [Q(sym), Q(('join', Q(sym), tuple(b'map.sqlite')))]
        if path not in good:
            other = 'input_sym' if sym == 'map_sym' else 'map_sym'
            if other in repr(path):
                return '%s: the %s is opened from the other map\'s path' % (x.name, what), src(c)
            raise Undecided('path ' + repr(path))
        p = Q(sym)
        if (path == p) != x.w.isfile(p):
            return '%s: the %s is opened at the wrong path' % (x.name, what), src(c)
        if flags is None:
            return '%s: the %s is opened without open flags, so it may be created or written' % (x.name, what), src(c)
        if 'set_create' in flags or need not in flags or len([f for f in flags if 'read' in f]) > 1:
            return '%s: the %s is opened with %s' % (x.name, what, ', '.join(flags)), src(c)
        if sym == 'input_sym':
            for e in x.tr:
                if e.name in ob_db.EXEC and e.vals[0] == conn_of(d) and \
                        set(flat(kind(txt(e.vals[1])))) - {'begin', 'commit', 'rollback', 'select', 'pragma'}:
                    return '%s: %s is run on the input map' % (x.name, txt(e.vals[1])), src(e)


def r_c04(x, ctx, st):
    done = [(k, e) for k, e in enumerate(x.tr) if e.name == 'status.log_info' and says(e.vals[0], 'done')]
    if done:
        k, e = done[0]
        if not x.cmd or x.cmd[0] > k:
            return '%s: success is reported without the command having run' % x.name, src(e)
        conn, m = conn_of(x.tr[x.cmd[0]].vals[0]), ob_db.Conn(bool(x.tr[x.cmd[0]].vals[3]))
        for f in x.tr[x.cmd[0] + 1:k]:
            if f.name in ob_db.EXEC and f.vals[0] == conn:
                m.run(txt(f.vals[1]), not ob_db.is_err(f.vals[-1]))
        if m.tx:
            return '%s: success is reported before the changes are committed' % x.name, src(e)
        if len(done) > 1:
            return '%s: success is reported %d times' % (x.name, len(done)), src(e)
        if not okv(x.ret) and not x.panic:
            return '%s: success is reported although the run ends in an error' % x.name, src(e)
    elif okv(x.ret) and x.cmd:
        return '%s: the run ends successfully without reporting it' % x.name, src(x.tr[x.cmd[0]])
    if x.failure and not errv(x.ret) and not x.panic:
        return '%s: a failing %s ends in %s' % (x.name, x.failure.name.split('::')[-1], fnob.short(x.ret, 40)), src(x.failure)
    if x.panic or x.refusal or x.failure:
        return
    for sym in ('map_sym', 'input_sym') if x.args.get('input_map_path').var == 'Some' else ('map_sym',):
        if not x.w.isfile(Q(sym)) and not x.w.isfile(Q(('join', Q(sym), tuple(b'map.sqlite')))) and not errv(x.ret):
            return '%s: a map that does not exist ends in %s' % (x.name, fnob.short(x.ret, 40)), ''
    if badmap(x) and not errv(x.ret):
        return '%s: a database that is no map (column %d of row %d of its table description) is accepted' % (
            (x.name,) + x.w.badcol[0][::-1]), ''


def r_c08(x, ctx, st):
    if not x.cmd or not okv(x.ret) or not x.w.failed:
        return
    n = x.w.failed
    k = x.cmd[0]
    if not any(e.name.startswith('status.log') and mentions(e.vals[0], n) for e in x.tr[k:]):
        return '%s: the number of skipped blocks is not reported' % x.name, src(x.tr[k])


RULES = {'C01': [r_c01], 'C02': [r_c02, r_accept], 'C03': [r_c03], 'C04': [r_c04], 'C08': [r_c08], 'C15': [r_accept]}
TEXT = ('every interpreted trace of the function that runs a command (arguments, files, SQLite outcomes and the answer to '
        'the prompt are free): ')


def runs(ctx, prop):
    def f():
        names = sorted(ob_cmd.table(ctx))

        def work(k, step, t0):
            return {n: v for n, v in go(names[k::step]).items()}
        res = {}
        for o in views.parallel(work):
            res.update(o)
        return res

    def go(names):
        out = {}
        for name in names:
            hit, n, und, st, stat = {}, 0, [], {}, {}
            try:
                thread(ctx, name)
                for i in range((400 if thread(ctx, name)[-1].none else 1500) if ctx.tier == 'quick' else 6000):
                    try:
                        x = interpret(ctx, name, i)
                        n += 1
                        for p, rs in RULES.items():
                            for k in rs:
                                if (p, k.__name__) in hit:
                                    continue
                                m = k(x, ctx, st)
                                if m:
                                    hit[(p, k.__name__)] = m
                        for k, b in (('run', x.cmd), ('refused', x.refusal), ('failed', x.failure)):
                            stat[k] = stat.get(k, 0) + bool(b)
                    except Undecided as e:
                        und.append(str(e))
                        if len(und) > 5:
                            break
            except Undecided as e:
                und.append(str(e))
            out[name] = hit, n, und, stat
        return out
    return ctx.once('runs', f)


@ob('run.rules', 'C01 C02 C03 C04 C08 C15', TEXT + 'the command starts only with valid arguments and a confirmation, on databases '
    'opened from the right paths with the right flags, inside a transaction that is committed once afterwards; success is '
    'reported only after that, failures end in an error')
def o_run(ctx, prop, res):
    try:
        out = runs(ctx, prop)
    except Undecided as e:
        return res.unk('run', e)
    for name, (hit, n, und, stat) in sorted(out.items()):
        res.count(traces=n)
        h = [v for (p, k), v in hit.items() if p == prop]
        if h:
            res.bad('run.' + name, h[0][0], h[0][1])
        elif und:
            res.unk(name, und[0])
        elif not stat.get('run'):
            res.unk(name, 'no trace reaches the command')
        else:
            res.count(**{'traces_' + k: v for k, v in stat.items()})
            res.ok(name, 'random interpretation of the ordered trace')
