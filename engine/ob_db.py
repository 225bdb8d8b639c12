"""Transactions, statements and errors of the map database."""
import random
import re
import core
import dbsem
import fnob
import rand
import spec_codec as S
import trace
from check import ob
from core import T
from dbsem import SC, SS, DbWorld, flat, kind, shape, bad_shape, stmt_sql, txt
from fnob import Fn, PANIC
from ob_codec import parallel
from rand import O, Q, Ok, Err, Undecided, NoneV

MD = 'map_database::MapDatabase'
EXEC = ('sqlite::Connection::execute', 'sqlite::Connection::iterate')


def sel(ev):
    if ev.kind == 'ext' and ev.name.startswith('sqlite::'):
        return ev.name, tuple(ev.vals) + (ev.res,) if isinstance(ev.res, T) else tuple(ev.vals)


class Conn(object):
    """state of a connection along a trace"""

    def __init__(self, tx):
        self.tx = tx
        self.begun = self.committed = 0

    def run(self, sql, ok):
        for k in flat(kind(sql)):
            if not ok:
                continue
            if k == 'begin':
                self.tx = True
                self.begun += 1
            elif k in ('commit', 'rollback'):
                self.tx = False
                self.committed += k == 'commit'


def is_err(v):
    return isinstance(v, O) and v.var == 'Err'


API = ('new', 'is_in_transaction', 'begin_if_needed', 'commit_if_needed', 'iter_rows', 'get_block', 'set_block', 'delete_block',
       'vacuum')
ENDERS = ('commit_if_needed', 'vacuum')


def methods(ctx):
    """the functions of MapDatabase that the rest of the crate uses (its helpers are seen inlined)"""
    return [MD + '::' + n for n in API if MD + '::' + n in ctx.eng.byname]


def selfdb(w, types, tx, stmts):
    t = types.get(MD)
    if not t:
        raise Undecided('no MapDatabase')
    f = {}
    for name, ty in t['variants'][0][1]:
        if ty == 'bool':
            f[name] = tx
        elif 'Connection' in ty:
            f[name] = Q('conn')
        elif 'Statement' in ty:
            if name not in stmts:
                raise Undecided('statement ' + name)
            f[name] = stmts[name]
        else:
            f[name] = w.gen(ty, ('field', name))
    return O(MD, MD.split('::')[-1], f)


def flag(types):
    t = types.get(MD)
    fs = [n for n, ty in t['variants'][0][1] if ty == 'bool'] if t else []
    if len(fs) != 1:
        raise Undecided('the transaction flag of MapDatabase')
    return fs[0]


def prep(ctx, name):
    def f():
        fn = Fn(ctx, name)
        items = trace.select(fn.s, sel, panics=True)
        more = [fn.ret] + list(fn.post.values())
        loops, byid, first = trace.prepare(fn.s, items, more)
        return fn, items, loops, byid, first
    return ctx.once(('db', name), f)


def go(ctx, name, vals, seed, setup=None):
    """-> trace, result or PANIC, post state"""
    fn, items, loops, byid, first = prep(ctx, name)
    w = DbWorld(seed, ctx.eng.types, loops)
    if setup:
        setup(w)
    w.root = rand.Frame(None, frozenset(), {}, {})
    w.root.vals.update(zip(fn.syms, vals))
    tr = trace.trace(w, items, byid, first)
    if tr and tr[-1].name == 'PANIC':
        return tr[:-1], PANIC, {}
    return tr, w.ev(fn.ret, w.root), {n: w.ev(t, w.root) for n, t in fn.post.items()}


def new_statements(ctx):
    """the statements MapDatabase::new prepares: {field: value}, from a run in which nothing fails"""
    def f():
        fn = prep(ctx, MD + '::new')[0]
        tr, ret, _ = go(ctx, MD + '::new', [Q('conn')] * len(fn.names), ('new', 0), lambda w: setattr(w, 'clean', True))
        if not isinstance(ret, O) or ret.var != 'Ok':
            raise Undecided('MapDatabase::new')
        db = ret.get('0')
        t = ctx.eng.types.get(MD)
        return {n: db.get(n) for n, ty in t['variants'][0][1] if 'Statement' in ty}, db
    return ctx.once('new_statements', f)


def read_errors(ctx):
    """the errors of get_block: (no such block, failure of SQLite)"""
    def f():
        stm, db = new_statements(ctx)
        w = rand.World(1, ctx.eng.types)
        out = []
        for clean in (True, False):
            for i in range(60):
                def setup(x):
                    x.clean, x.rate = clean, 1
                tr, ret, _ = go(ctx, MD + '::get_block', [selfdb(w, ctx.eng.types, True, stm), 5], ('nf', i), setup)
                if isinstance(ret, O) and ret.var == 'Err':
                    out.append(ret.get('0'))
                    break
            else:
                raise Undecided('errors of get_block')
        return out
    return ctx.once('read_errors', f)


def src(e):
    return '%s (%s)' % (e.e.span, e.e.fn)


def walk(tr, tx):
    """replay a trace on the connection: yields (event, state before, sql or None, failed, bindings)"""
    c, bind = Conn(tx), {}
    for e in tr:
        res = e.vals[-1]
        failed = is_err(res)
        if e.name in EXEC:
            sql = txt(e.vals[1])
            yield e, c, sql, failed, None
            c.run(sql, not failed)
        elif e.name.endswith('Statement::bind'):
            bind.setdefault(e.vals[0], {})[e.vals[1]] = e.vals[2]
        elif e.name.endswith('Statement::next'):
            yield e, c, stmt_sql(e.vals[0]), failed, bind.get(e.vals[0], {})
            sql = stmt_sql(e.vals[0])
            if sql is not None and kind(sql) in ('begin', 'commit', 'rollback'):
                c.run(sql, not failed)
        elif e.name.endswith('Connection::prepare'):
            pass
    yield None, c, None, False, None


def transactions(tr, tx, ret, post, fl, name, tag):
    """rules on one trace of a MapDatabase function; -> None or (message, source)"""
    is_commit = name in ENDERS
    for e, c, sql, failed, bind in walk(tr, tx):
        if e is None:
            if ret is PANIC or post is None:
                return None
            if isinstance(post, O) and post.get(fl) in (True, False) and post.get(fl) != c.tx:
                return '%s returns with %s = %s although the connection is %s a transaction (%s)' % (
                    name, fl, str(post.get(fl)).lower(), 'in' if c.tx else 'not in', tag), None
            return None
        ks = flat(kind(sql)) if sql is not None else []
        for k in ks:
            if k in ('commit', 'rollback', 'release', 'savepoint') and not is_commit:
                return '%s ends the transaction (%s)' % (name, sql), src(e)
            if k in ('insert', 'delete', 'update') and not c.tx:
                return '%s changes blocks outside a transaction (%s; %s)' % (name, sql, tag), src(e)
            if k == 'select' and not c.tx:
                return '%s reads blocks before a transaction is open (%s; %s)' % (name, sql, tag), src(e)
            if k == 'vacuum' and c.tx and not failed:
                return '%s runs VACUUM inside the transaction (%s)' % (name, tag), src(e)
            if k == 'begin' and c.tx:
                return '%s opens a transaction inside one (%s)' % (name, tag), src(e)
            if k == 'commit' and not c.tx:
                return '%s commits although no transaction is open (%s)' % (name, tag), src(e)
        if sql is not None and dbsem.BAD_PRAGMA.search(sql):
            return '%s gives up the rollback journal (%s)' % (name, sql), src(e)


def surfaced(tr, ret, name, tag):
    """a failing SQLite call has to surface"""
    for e in tr:
        if is_err(e.vals[-1]) and ret is not PANIC and not (isinstance(ret, O) and ret.var == 'Err'):
            return '%s hides a failing %s and returns %s (%s)' % (name, e.name.split('::')[-1], fnob.short(ret, 60), tag), src(e)


def args_for(ctx, fn, r, tx):
    out = []
    stm, _ = new_statements(ctx)
    w = rand.World(r.randrange(1 << 30), ctx.eng.types)
    for n, sy in zip(fn.names, fn.syms):
        b = ctx.eng.byname[fn.name]
        ty = [t for t, nm in b['locals'][1:b['argc'] + 1]][len(out)]
        if 'MapDatabase<' in ty or ty.endswith('MapDatabase') or n == 'self':
            out.append(selfdb(w, ctx.eng.types, tx, stm))
        elif 'Connection' in ty:
            out.append(Q('conn'))
        elif 'i64' in ty:
            S.focus(r, fn.pool())
            out.append(S.ror(r, r.choice((r.randrange(-1 << 40, 1 << 40), r.randrange(-300, 300), r.randrange(-20, 20) * 4096)), -1 << 63, (1 << 63) - 1))
        else:
            out.append(Q(('arg', n)))
    return out


def tell(tx):
    return 'called %s a transaction' % ('inside' if tx else 'outside')


def each_method(ctx, res, rule, n=60):
    """apply rule(name, trace, tx, ret, post) to interpreted traces of every MapDatabase function"""
    try:
        fl = flag(ctx.eng.types)
        new_statements(ctx)
    except Undecided as e:
        return res.unk('MapDatabase', e)
    for name in methods(ctx):
        short = name.split('::')[-1]
        new = short == 'new'
        try:
            fn = prep(ctx, name)[0]
        except Undecided as e:
            res.unk(short, e)
            continue
        hit, done, und = None, 0, []
        if rule is tx_rule:
            hit = never_ends(ctx, name)
        for i in range(0 if hit else n if ctx.tier == 'quick' else n * 10):
            r = random.Random(repr((ctx.seed, name, i)))
            tx = False if new else r.random() < .5
            try:
                vals = args_for(ctx, fn, r, tx)

                def setup(w):
                    w.schema = r.random() < .8
                    w.clean = r.random() < .3
                    w.rate = r.choice((2, 4, 12))
                tr, ret, post = go(ctx, name, vals, (ctx.seed, name, i), setup)
                if new:
                    po = ret.get('0') if isinstance(ret, O) and ret.var == 'Ok' else None
                else:
                    po = post.get('self')
                    if po is None and ret is not PANIC:
                        po = vals[0]
                hit = rule(name, tr, tx, ret, po, fl, vals)
                done += 1
                if hit:
                    break
            except Undecided as e:
                und.append(str(e))
                if len(und) > 5:
                    break
        res.count(functions=1, assignments=done, traces=done)
        if hit:
            res.bad('%s' % short, hit[0], hit[1] or '%s (%s)' % (fn.s.span, name))
        elif und:
            res.unk(short, und[0])
        else:
            res.ok(short, 'random interpretation of the ordered trace')


def const_sql(ev):
    """the constant SQL text an event runs"""
    for v in ev.vals:
        if isinstance(v, T) and v.op == 'bytes':
            return bytes(v.a[0]).decode('latin1')


def never_ends(ctx, name):
    """a function other than commit_if_needed and vacuum has no call at all that ends the transaction"""
    if name.split('::')[-1] in ENDERS:
        return None
    for e in prep(ctx, name)[0].s.events:
        if e.kind == 'ext' and e.name in EXEC + (SC + 'prepare',) and e.g != 0:
            q = const_sql(e)
            if q and set(flat(kind(q))) & {'commit', 'rollback', 'savepoint', 'release'}:
                return '%s ends the transaction (%s)' % (name, q), '%s (%s)' % (e.span, e.fn)


def drops(ctx, res):
    """no destructor touches the database"""
    n = 0
    for name, b in sorted(ctx.eng.byname.items()):
        if not name.endswith('as Drop::drop'):
            continue
        n += 1
        try:
            s = ctx.eng.summarize(name)
        except Exception as e:
            res.unk(name, e)
            continue
        for e in s.events:
            if e.kind == 'ext' and e.name.startswith('sqlite::'):
                q = const_sql(e)
                if e.name in EXEC and (q is None or set(flat(kind(q))) & {'commit', 'release', 'insert', 'delete', 'update'}):
                    res.bad('drop', 'dropping %s runs %s, also when the process unwinds from an error' % (name.split(' as ')[0], q),
                            '%s (%s)' % (e.span, e.fn))
                    return
    res.ok('destructors', '%d Drop implementations' % n)


def tx_rule(name, tr, tx, ret, po, fl, vals):
    return transactions(tr, tx, ret, po, fl, name.split('::')[-1], tell(tx))


def callers(ctx, res):
    """no command ends the transaction, except vacuum"""
    import ob_cmd
    for name in sorted(ob_cmd.table(ctx)):
        if name == 'vacuum':
            continue
        try:
            fn, s = ob_cmd.summary(ctx, name)
        except Undecided as e:
            res.unk(name, e)
            continue
        if fn is None:
            res.unk(name, 'no function')
            continue
        for e in s.events:
            if e.g == 0:
                continue
            if e.kind == 'db' and e.name in ENDERS:
                res.bad('ends.' + name, '%s calls %s in the middle of its work' % (name, e.name), '%s (%s)' % (e.span, e.fn))
                break
            if e.kind == 'ext' and e.name in EXEC:
                q = const_sql(e)
                if q is None:
                    res.unk(name, 'SQL text')
                elif set(flat(kind(q))) - {'pragma', 'select'}:
                    res.bad('ends.' + name, '%s runs %s behind the back of MapDatabase' % (name, q), '%s (%s)' % (e.span, e.fn))
                    break
        else:
            res.ok('no commit in ' + name, '%d effect sites' % len(s.events))


@ob('db.transaction', 'C01 C21', 'every MapDatabase function, on every interpreted trace of SQLite outcomes: blocks are '
    'read and changed only inside a transaction, only commit_if_needed and vacuum end one, VACUUM runs outside, and the '
    'flag agrees with the connection on return')
def o_tx(ctx, prop, res):
    each_method(ctx, res, tx_rule)
    drops(ctx, res)
    callers(ctx, res)


def must(name, tr, tx, ret, po, fl, vals):
    """what commit_if_needed, vacuum and new have to do"""
    s = name.split('::')[-1]
    ex = [(flat(kind(txt(e.vals[1]))), is_err(e.vals[-1]), e) for e in tr if e.name in EXEC]
    okd = isinstance(ret, O) and ret.var == 'Ok'
    done = [k for ks, bad, e in ex if not bad for k in ks]
    if s == 'commit_if_needed' and okd and tx and 'commit' not in done:
        return 'commit_if_needed reports success without committing', None
    if s == 'vacuum' and okd and 'vacuum' not in done:
        return 'vacuum reports success without vacuuming', None
    if s == 'vacuum' and okd and tx and 'commit' not in done:
        return 'vacuum reports success without committing first', None
    x = surfaced(tr, ret, s, tell(tx))
    return x


@ob('db.errors', 'C04', 'every MapDatabase function, on every interpreted trace: a failing SQLite call makes it return an '
    'error (or panic), and success is returned only after the work was done')
def o_err(ctx, prop, res):
    each_method(ctx, res, must)
    rows(ctx, res, True)


def rows(ctx, res, errors):
    """the row iterator"""
    ns = [n for n in ctx.eng.byname if n.startswith('map_database::') and n.endswith('as Iterator::next')]
    for name in ns:
        try:
            fn = prep(ctx, name)[0]
            ty = ctx.eng.byname[name]['locals'][1][0]
            tn = [t for t in ctx.eng.types if t.startswith('map_database::') and re.search(r'\b%s\b' % t.split('::')[-1], ty)]
            if len(tn) != 1:
                raise Undecided('row iterator')
            t = ctx.eng.types[tn[0]]
            sql = iter_sql(ctx)
            sh = shape(sql)
            if not sh or sh[0] != 'rows':
                raise Undecided('row query ' + sql)
            st = Q(('stmt', Q('conn'), sql))
            hit, done = None, 0
            for i in range(40):
                fs = {n: st for n, ty2 in t['variants'][0][1] if 'Statement' in ty2}
                if len(fs) != len(t['variants'][0][1]):
                    raise Undecided('row iterator')

                def setup(w):
                    w.clean = i % 3 == 0
                    w.rate = (2, 5)[i % 2]
                tr, ret, _ = go(ctx, name, [O(tn[0], tn[0].split('::')[-1], fs)], (ctx.seed, 'rows', i), setup)
                done += 1
                nx = [e for e in tr if e.name.endswith('::next')]
                if errors:
                    hit = surfaced(tr, ret if not (isinstance(ret, O) and ret.var == 'Err') else ret, 'the row iterator', '')
                elif ret is not PANIC and nx and not any(is_err(e.vals[-1]) for e in tr):
                    state = nx[-1].vals[-1].get('0').var
                    want = rand.Some(rand.Tup((Q(('col', st, 1, 0)), Q(('col', st, 1, 1))))) if state == 'Row' else NoneV
                    if ret != want:
                        hit = 'the row iterator returns %s for %s' % (
                            fnob.short(ret, 80), 'a row (its key and data expected)' if state == 'Row' else 'the end of the rows'), None
                elif ret is not PANIC and not nx:
                    hit = 'the row iterator returns without fetching a row', None
                if hit:
                    res.bad('rows', hit[0], hit[1] or fnob.where(fn))
                    break
            else:
                res.ok('rows', 'random interpretation of the ordered trace')
            res.count(functions=1, assignments=done)
        except Undecided as e:
            res.unk('rows', e)
    if not ns:
        res.unk('rows', 'no row iterator')


def iter_sql(ctx):
    fn = prep(ctx, MD + '::iter_rows')[0]
    stm, db = new_statements(ctx)
    w = rand.World(1, ctx.eng.types)
    tr, ret, _ = go(ctx, MD + '::iter_rows', [selfdb(w, ctx.eng.types, True, stm)], ('it', 1), lambda w: setattr(w, 'clean', True))
    ps = [e for e in tr if e.name.endswith('::prepare')]
    if len(ps) != 1:
        raise Undecided('iter_rows')
    return txt(ps[0].vals[1])


def rowread(tr):
    """a row was found (an error then comes from reading its columns)"""
    return any(e.name.endswith('::next') and isinstance(e.vals[-1], O) and e.vals[-1].var == 'Ok'
               and isinstance(e.vals[-1].get('0'), O) and e.vals[-1].get('0').var == 'Row' for e in tr)


def running(s, tr):
    """typestate of the kept statements: parameters can only be bound while a statement is not running"""
    state, fresh = {}, set()       # statement -> running; statements bound as the function found them
    for e in tr:
        b = e.name.split('::')[-1]
        if not e.name.startswith(SS) or b not in ('bind', 'next', 'reset'):
            continue
        st = e.vals[0]
        if stmt_sql(st) is None or is_err(e.vals[-1]):
            return
        if b == 'bind':
            if state.get(st):
                return '%s binds a parameter of a running statement (%s)' % (s, stmt_sql(st)), src(e)
            if st not in state:
                fresh.add(st)
        state[st] = b == 'next'
        if state[st]:
            last = e
    for st in fresh:
        if state.get(st):
            return '%s leaves its statement running, so that the next call cannot bind its parameters (%s)' % (s, stmt_sql(st)), src(last)


def block_ops(name, tr, tx, ret, po, fl, vals):
    """get_block, set_block and delete_block act on the block of their key"""
    s = name.split('::')[-1]
    want = {'get_block': 'get', 'set_block': 'set', 'delete_block': 'del', 'iter_rows': 'rows'}.get(s)
    if s == 'iter_rows':
        for e in tr:
            if e.name.endswith('::prepare'):
                sql = txt(e.vals[1])
                sh = shape(sql)
                if sh is None or sh[0] != 'rows':
                    if bad_shape(sql):
                        return 'iter_rows does not run over all rows: ' + sql, src(e)
                    raise Undecided('SQL ' + sql)
        return
    n = 0
    for e, c, sql, failed, bind in walk(tr, tx):
        if e is None or not e.name.endswith('::next'):
            continue
        if sql is None:
            raise Undecided('statement')
        sh = shape(sql)
        if sh is None:
            if kind(sql) in ('pragma', 'begin', 'commit') or s == 'new':
                continue
            if bad_shape(sql):
                return '%s runs %s' % (s, sql), src(e)
            raise Undecided('SQL ' + sql)
        if want is None:
            if sh[0] in ('set', 'del'):
                return '%s changes blocks (%s)' % (s, sql), src(e)
            continue
        if sh[0] != want:
            if sh[0] == 'get':
                continue
            return '%s runs %s' % (s, sql), src(e)
        n += 1
        if bind.get(sh[1]['pos']) != vals[1]:
            return '%s binds %s as the block key instead of its argument' % (s, fnob.short(bind.get(sh[1]['pos']), 40)), src(e)
        if want == 'set' and bind.get(sh[1]['data']) != vals[2]:
            return '%s stores %s instead of the given data' % (s, fnob.short(bind.get(sh[1]['data']), 40)), src(e)
        if want == 'get' and not failed:
            stt = e.vals[-1].get('0').var
            if stt == 'Row' and isinstance(ret, O) and ret.var == 'Ok':
                g = ret.get('0')
                if not (isinstance(g, Q) and isinstance(g.k, tuple) and g.k[0] == 'col' and g.k[3] == 0):
                    return 'get_block returns %s instead of the row\'s data' % fnob.short(g, 40), src(e)
            if stt == 'Done' and not (isinstance(ret, O) and ret.var == 'Err'):
                return 'get_block returns %s for a block that is not saved' % fnob.short(ret, 40), src(e)
    x = running(s, tr) if isinstance(ret, O) and (ret.var == 'Ok' or want == 'get' and not rowread(tr)) else None
    if x:
        return x
    if want and isinstance(ret, O) and ret.var == 'Ok' and n != 1:
        return '%s reports success after running its statement %d times' % (s, n), None


@ob('db.blocks', 'C16 C22', 'get_block, set_block and delete_block run the statement for exactly the block of their key, with the given '
    'data; the row iterator delivers key and data of every row')
def o_blocks(ctx, prop, res):
    each_method(ctx, res, block_ops)
    rows(ctx, res, False)
