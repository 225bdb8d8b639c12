"""Meaning of the SQLite calls in an interpreted trace: outcomes are free (each call may fail), statements keep their
identity, and the transaction state of a connection follows from the statements executed on it."""
import re
import core
import rand
from core import T
from rand import O, Q, Ok, Err, Some, NoneV, UNITV, UNDEF, Undecided

SC, SS = 'sqlite::Connection::', 'sqlite::Statement::'
STRUCT = {'pos': (1, b'pos'), 'data': (1, b'data')}


def ident(v):
    return v


class DbWorld(rand.World):
    fail = None         # a number: which calls fail
    schema = True       # the map has the expected table
    rowlimit = 1
    rate = 12           # one call in so many fails
    clean = False       # no call fails

    def fails(self, *key):
        if self.clean:
            return False
        return self.h('fail', repr(key)) % self.rate == 0

    def out(self, name, vals, t, fr, key):
        """outcome of an SQLite call"""
        if self.fails(name, key):
            return Err(Q(('sqlerr', name, repr(key))))
        base = name.split('::')[-1]
        if base in ('execute', 'bind', 'reset', 'iterate', 'set_busy_timeout', 'set_busy_handler'):
            return Ok(UNITV)
        if base == 'prepare':
            return Ok(Q(('stmt', vals[0], txt(vals[1]))))
        if base in ('open_with_flags', 'open', 'open_thread_safe', 'open_thread_safe_with_flags'):
            return Ok(Q(('conn',) + tuple(vals)))
        if base == 'next':
            # table_info yields its rows; a lookup yields a row or none
            sql = stmt_sql(vals[0])
            row = self.schema or self.h('row', repr(key)) % 2 if sql and 'table_info' in sql else self.h('row', repr(key)) % 2
            return Ok(O('sqlite::State', 'Row' if row else 'Done', {}))
        if base == 'read':
            return Ok(self.column(vals[0], vals[1], depth(t), t))
        return None

    def column(self, stmt, col, row, t):
        sql = stmt_sql(stmt)
        if sql and 'table_info' in sql:
            if row > 2:
                return UNDEF
            good = {1: [b'pos', b'data'][row - 1], 2: [b'INT', b'BLOB'][row - 1], 5: [1, 0][row - 1], 0: row - 1,
                    3: 0, 4: UNDEF}.get(col, UNDEF)
            if not self.schema and self.h('badcol', row, col) % 3 == 0:
                return 7 if col in (0, 3, 5) else tuple(b'other')
            return tuple(good) if isinstance(good, bytes) else good
        return Q(('col', stmt, row, col))

    def _ev(self, op, a, t, fr):
        if op == 'hv' and str(a[0]).startswith('sqlite::'):
            return self.ev(a[2], fr)
        if op == 'ev' and str(a[0]).startswith('sqlite::'):
            n = a[1].a[0] if isinstance(a[1], T) else a[1]
            vals = [self.ev(x, fr) for x in a[2:]]
            r = self.out(str(a[0]), vals, t, fr, (n,) + tuple(map(repr, vals)))
            if r is not None:
                return r
        return super()._ev(op, a, t, fr)

    def app(self, n, a, t, fr):
        if n.startswith('sqlite::OpenFlags::'):
            base = n.split('::')[-1]
            old = self.ev(a[0], fr).k if a else ('flags', ())
            if base == 'new':
                return Q(('flags', ()))
            return Q(('flags', old[1] + (base,)))
        if n.startswith('sqlite::'):
            vals = [self.ev(x, fr) for x in a]
            r = self.out(n, vals, t, fr, (repr(t.a[1]),) + tuple(map(repr, vals)) if n.endswith('::read') else tuple(map(repr, vals)))
            if r is not None:
                return r
        return super().app(n, a, t, fr)


def depth(t):
    """how many rows were fetched before a read"""
    n, x = 0, t.a[1]
    while isinstance(x, T):
        if x.op == 'hv':
            n += str(x.a[0]).endswith('::next')
            x = x.a[2]
        else:
            break
    return n


def txt(v):
    if isinstance(v, tuple) and all(isinstance(c, int) for c in v):
        return bytes(c & 255 for c in v).decode('latin1')
    return repr(v)


def stmt_sql(v):
    if isinstance(v, Q) and isinstance(v.k, tuple) and v.k[0] == 'stmt':
        return v.k[2]
    return None


# ------------------------------------------------------------------ SQL
def toks(sql):
    return re.findall(r"[a-z_][a-z_0-9.]*|\?\d*|[:@$][a-z_]+|\d+|'[^']*'|[^\s\w]", sql.strip().rstrip(';').lower())


def kind(sql):
    """class of an SQL text: begin, commit, rollback, vacuum, pragma, select, insert, delete, update, ddl, other"""
    parts = [p for p in sql.split(';') if p.strip()]
    if len(parts) > 1:
        ks = [kind(p) for p in parts]
        return 'script:' + ','.join(ks)
    w = toks(sql)
    if not w:
        return 'other'
    k = {'begin': 'begin', 'commit': 'commit', 'end': 'commit', 'rollback': 'rollback', 'savepoint': 'savepoint',
         'release': 'release', 'vacuum': 'vacuum', 'pragma': 'pragma', 'select': 'select', 'insert': 'insert',
         'replace': 'insert', 'delete': 'delete', 'update': 'update', 'create': 'ddl', 'drop': 'ddl', 'alter': 'ddl',
         'reindex': 'ddl', 'attach': 'attach', 'detach': 'attach', 'analyze': 'ddl', 'explain': 'select'}.get(w[0], 'other')
    return k


def flat(k):
    return k[7:].split(',') if k.startswith('script:') else [k]


def params(ws):
    """words with the parameters numbered; -> (words, [index of each parameter])"""
    n, out, idx = 0, [], []
    for w in ws:
        if w[0] == '?':
            n = int(w[1:]) if len(w) > 1 else n + 1
            idx.append(n)
            out.append('?')
        else:
            out.append(w)
    return out, idx


def shape(sql):
    """-> (kind, {'pos': parameter, 'data': parameter}) for the block statements, None if not one of them"""
    w, idx = params(toks(sql))
    s = ' '.join(w)
    s = re.sub(r'\( (.*?) \)', lambda m: '(' + m.group(1) + ')', s)
    m = re.fullmatch(r'select data from blocks where \(?pos = \?\)?( limit 1)?', s)
    if m:
        return 'get', {'pos': idx[0]}, ()
    m = re.fullmatch(r'select pos , data from blocks(| order by pos( asc| desc)?)', s)
    if m:
        return 'rows', {}, (0, 1)
    m = re.fullmatch(r'(insert or replace|replace) into blocks \((pos , data|data , pos)\) values \(\? , \?\)', s)
    if m:
        names = m.group(2).split(' , ')
        return 'set', dict(zip(names, idx)), ()
    m = re.fullmatch(r'(insert or replace|replace) into blocks values \(\? , \?\)', s)
    if m:
        return 'set', dict(zip(('pos', 'data'), idx)), ()
    m = re.fullmatch(r'delete from blocks where \(?pos = \?\)?', s)
    if m:
        return 'del', {'pos': idx[0]}, ()
    return None


def bad_shape(sql):
    """a statement on the blocks that certainly does something else"""
    w, _ = params(toks(sql))
    s = ' '.join(w)
    if re.match(r'(insert|replace|delete|update)\b', s):
        return True
    if re.match(r'select\b.*\bfrom blocks\b', s) and re.search(r'\b(limit|where|group|distinct|offset)\b', s):
        return True
    return False


READONLY_PRAGMA = re.compile(r'pragma (\w+\.)?(table_info|index_list|schema_version|user_version|page_count|page_size|'
                             r'integrity_check|quick_check|table_list|database_list|compile_options|encoding)\b', re.I)
BAD_PRAGMA = re.compile(r'pragma\s+(\w+\.)?(journal_mode\s*[=(]\s*.?(off|memory)|writable_schema|ignore_check|journal_size_limit\s*=\s*0\s*off|'
                        r'locking_mode\s*=\s*off|synchronous\s*[=(]\s*.?(off|0))', re.I)
