"""Contracts of the functions that are analysed on their own (each has its own obligations)."""
import re
import core
from sigs import SIGS
from core import *


def T_(t, ty=None, kind=None):
    if ty:
        core.TYPE.setdefault(t, ty)
    if kind:
        core.KIND.setdefault(t, kind)
    return t


def dbname(c, t):
    """name of the database a reference denotes"""
    if t.op == 'ref':
        root, path = t.a
        for e in reversed(path):
            if e[0] == 'f' and e[1] in ('db', 'idb'):
                return mk('sym', 'DB:' + e[1])
        v = c.eng.read(c.st, root, path)
        if v.op == 'ref':
            return dbname(c, v)
        if v.op in ('fld', 'pay', 'sym'):
            return mk('sym', 'DB:' + show(v))
        return mk('sym', 'DB:' + '.'.join(str(x) for x in root))
    return mk('sym', 'DB:' + show(t, 4))


MB = 'map_block::map_block::MapBlock'


def a_deser(c):
    d = c.deep(0)
    r = T_(mk('app', 'deser', d), 'std::result::Result<%s, map_block::MapBlockError>' % MB, 'Result')
    core.TYPE.setdefault(payload(r), MB)
    c.event('call', 'deser', vals=[d], res=r)
    return r


def a_ser(c):
    b = c.deep(0)
    r = T_(mk('app', 'ser', b), 'std::vec::Vec<u8>')
    c.event('call', 'ser', vals=[b], res=r)
    return r


def a_gen(c):
    return B(b_var(T_(mk('app', 'gen', c.deep(0)), 'bool')))


def db(op):
    def f(c):
        d = dbname(c, c.args[0])
        vals = [d] + [c.deep(i) for i in range(1, len(c.args))]
        if op == 'get_block':
            r = T_(mk('app', 'getblk', *vals), 'std::result::Result<std::vec::Vec<u8>, map_database::DBError>', 'Result')
        elif op == 'iter_rows':
            r = mk('it', 'rows', d)
        else:
            r = T_(mk('app', 'dbres', Int(c.eng.next_ev(op)), *([mk('sym', op)] + vals)),
                   'std::result::Result<(), map_database::DBError>', 'Result')
        c.event('db', op, vals=vals, res=r)
        return r
    return f


def status(op):
    def f(c):
        vals = [c.deep(i) for i in range(1, len(c.args))]
        r = UNIT
        if c.dty != '()':
            r = c.eng.opaque('ev', 'status.' + op, [Int(c.eng.next_ev('status.' + op))], c.dty)
        c.event('status', op, vals=vals, res=r)
        return r
    return f


def a_query(c):
    d = dbname(c, c.args[0])
    vals = [d] + [c.deep(i) for i in range(2, 6)]
    r = T_(mk('app', 'qk', *vals), 'std::vec::Vec<i64>')
    c.event('call', 'query_keys', vals=vals, res=r)
    return r


def a_get_id(c):
    return T_(mk('app', 'get_id', c.deep(0), c.deep(1)), 'std::option::Option<u16>', 'Option')


def a_max_id(c):
    return T_(mk('app', 'max_id', c.deep(0)), 'std::option::Option<u16>', 'Option')


def writer(op, n):
    """contract `*args[n] = op(args)`"""
    def f(c):
        vals = [c.deep(i) for i in range(len(c.args))]
        old = c.val(n)
        r = mk('app', op, *vals)
        if old in core.TYPE:
            core.TYPE.setdefault(r, core.TYPE[old])
        place = None
        if c.args[n].op == 'ref':
            place = c.args[n].a
        c.event('call', op, place=place, vals=vals, res=r)
        c.eng.write_ref(c.st, c.args[n], (), r)
        return UNIT
    return f


def a_cache_new(c):
    return mk('app', 'cache')


def a_cache_get(c):
    k = c.deep(1)
    hit = b_var(T_(mk('app', 'cachehit', k), 'bool'))
    v = T_(mk('app', 'cached', k), inner_opt(c.dty))
    t = inner_opt(c.dty)
    x = v
    while t.startswith('std::option::Option<') or t.startswith('std::result::Result<'):
        core.KIND.setdefault(x, 'Option' if t.startswith('std::option') else 'Result')
        x = payload(x)
        t = split_args(inner_opt(t))[0]
        core.TYPE.setdefault(x, t)
    return ite(hit, some(v), NONE)


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        d += (ch in '<([') - (ch in '>)]')
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def inner_opt(t):
    i = t.find('<')
    s = t[i + 1:-1].strip() if i >= 0 else t
    while s.startswith('&'):
        s = s[1:].strip()
        if s.startswith("'"):
            s = s.split(' ', 1)[1]
        if s.startswith('mut '):
            s = s[4:]
    return s


def a_cache_ins(c):
    vals = [c.deep(1), c.deep(2)]
    c.event('call', 'cache_insert', vals=vals)
    CACHE[vals[0]] = vals[1]
    return UNIT


CACHE = {}


def a_inv(c):
    return mk('it', 'inv', c.deep(0))


def a_box(c):
    return mk('it', 'box', c.deep(0))


def a_boxnew(c):
    return mk('it', 'box', adt('spatial::area::Area', 'Area', ('min', 'max'), (c.deep(0), c.deep(1))))


def a_big(c):
    return T_(mk('app', 'fmt_big_num', c.deep(0)), 'std::string::String')


def a_lua(c):
    return T_(mk('app', 'lua', c.deep(0)), c.dty, 'Result')


STATUS = ('get_status', 'set_state', 'set_total', 'inc_done', 'inc_failed', 'set_show_progress',
          'begin_editing', 'end_editing', 'log', 'log_info', 'log_warning', 'log_error', 'get_confirmation')
DBOPS = ('get_block', 'set_block', 'delete_block', 'iter_rows', 'commit_if_needed', 'begin_if_needed', 'vacuum')


def bpos(k):
    '''block position of a database key: fields x, y, z'''
    r = T_(mk('app', 'bpos', k), VEC)
    for ax in 'xyz':
        core.TYPE.setdefault(mk('fld', r, ax), 'i32')
    return adt(VEC, 'Vec3', ('x', 'y', 'z'), [mk('fld', r, ax) for ax in 'xyz'])


VEC = 'spatial::vec3::Vec3'


def a_bpos(c):
    return bpos(c.deep(0))


ESSENTIAL = ['map_block::map_block::MapBlock::deserialize', 'map_block::map_block::MapBlock::serialize',
             'map_block::map_block::is_valid_generated', 'utils::query_keys', 'utils::CacheMap::with_capacity',
             'utils::CacheMap::get', 'utils::CacheMap::insert', 'spatial::InverseBlockIterator::new',
             'spatial::area::Area as IntoIterator::into_iter'] + \
    ['instance::StatusServer::' + x for x in ('inc_done', 'inc_failed', 'log_info')] + \
    ['map_database::MapDatabase::' + x for x in ('get_block', 'set_block', 'delete_block', 'iter_rows', 'vacuum')]


def plain(t):
    t = re.sub(r"'\w+ ?", '', t)
    while t.startswith('&'):
        t = t[1:]
        if t.startswith('mut '):
            t = t[4:]
    return {'str': 'B', '[u8]': 'B', 'std::vec::Vec<u8>': 'B', 'std::string::String': 'B'}.get(t, t)


def fits(eng, name, sig):
    """the function still has the signature its contract is written for"""
    b = eng.byname.get(name)
    if b is None or b['argc'] != len(sig) - 1:
        return False
    ls = [b['locals'][i] for i in list(range(1, b['argc'] + 1)) + [0]]
    for (t, n), (ty, nm) in zip(sig, ls):
        if len(t) > 1 and plain(t) != plain(ty) and 'impl' not in ty and len(ty) > 1:
            return False
        if t.startswith('&mut') and not re.match(r"^&('\w+ )?mut ", ty) and 'block_utils' in name:
            return False
    old, new = [n for _, n in sig[:-1]], [n for _, n in ls[:-1]]
    return not (sorted(map(str, old)) == sorted(map(str, new)) and old != new)


def usable(eng):
    """-> (the contracts that fit the code, essential ones that do not)"""
    a = command_anchors()
    out = {n: f for n, f in a.items() if n in SIGS and fits(eng, n, SIGS[n])}
    return out, [n for n in ESSENTIAL if n not in out]


def command_anchors():
    a = {
        'spatial::vec3::Vec3::from_block_key': a_bpos,
        'map_block::map_block::MapBlock::deserialize': a_deser,
        'map_block::map_block::MapBlock::serialize': a_ser,
        'map_block::map_block::is_valid_generated': a_gen,
        'utils::query_keys': a_query,
        'utils::fmt_big_num': a_big,
        'map_block::name_id_map::NameIdMap::get_id': a_get_id,
        'map_block::name_id_map::NameIdMap::get_max_id': a_max_id,
        'map_block::name_id_map::NameIdMap::remove_shift': writer('remove_shift', 0),
        'block_utils::merge_blocks': writer('merge_blocks', 1),
        'block_utils::merge_metadata': writer('merge_metadata', 1),
        'block_utils::clean_name_id_map': writer('clean', 0),
        'utils::CacheMap::with_capacity': a_cache_new,
        'utils::CacheMap::get': a_cache_get,
        'utils::CacheMap::insert': a_cache_ins,
        'spatial::InverseBlockIterator::new': a_inv,
        'spatial::area::Area as IntoIterator::into_iter': a_box,
        'spatial::area::AreaIterator::new': a_boxnew,
        'map_block::static_object::LuaEntityData::deserialize': a_lua,
    }
    for op in STATUS:
        a['instance::StatusServer::' + op] = status(op)
    for op in DBOPS:
        a['map_database::MapDatabase::' + op] = db(op)
    return a
