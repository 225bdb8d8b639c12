"""What each command must do, as effects over the selected blocks (the oracle of C08-C14, C16, C23)."""
import core
from core import *
from norm import Eff
from anchors import T_, bpos, MB
from lib import dive, cat

INST = mk('sym', 'inst')


def setup():
    core.TYPE[INST] = 'instance::InstBundle'


def fld(v, *names):
    for n in names:
        v = proj(v, ('f', n))
    return v


def A(n):
    t = fld(INST, 'args', n)
    core.TYPE.setdefault(t, ARGT.get(n, ''))
    return t


ARGT = {}


def has_(x):
    return is_var(x, 'Some', VARIANTS['Option'])


def val(x):
    return payload(x)


DB, IDB = mk('sym', 'DB:db'), mk('sym', 'DB:idb')
XYZ = 'xyz'


class V3(object):
    def __init__(self, x, y, z):
        self.c = (x, y, z)

    def __add__(self, o):
        return V3(*[add(a, b) for a, b in zip(self.c, lift(o))])

    def __sub__(self, o):
        return V3(*[sub(a, b) for a, b in zip(self.c, lift(o))])

    def __mul__(self, k):
        return V3(*[scale(a, k) for a in self.c])


def lift(o):
    return (Int(o),) * 3 if isinstance(o, int) else o.c


def v3(t):
    return V3(*[fld(t, a) for a in XYZ])


class Box(object):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def contains(self, p):
        return b_and(*[b_and(le(a, x), le(x, b)) for a, x, b in zip(self.lo.c, p.c, self.hi.c)])

    def contains_block(self, b):
        return b_and(self.contains(b * 16), self.contains(b * 16 + 15))

    def touches_block(self, b):
        return b_and(*[b_and(le(l, add(scale(x, 16), Int(15))), le(scale(x, 16), h))
                       for l, x, h in zip(self.lo.c, b.c, self.hi.c)])

    def partial(self, b):
        """the block is cut: some but not all of it is inside"""
        return b_and(self.touches_block(b), b_not(self.contains_block(b)))

    def rel(self, b):
        """part of block b inside, relative to the block"""
        lo, hi = self.lo - b * 16, self.hi - b * 16
        return Box(V3(*[fn2('max', x, Int(0)) for x in lo.c]), V3(*[fn2('min', x, Int(15)) for x in hi.c]))

    def abs(self, b):
        return Box(V3(*[fn2('max', x, scale(y, 16)) for x, y in zip(self.lo.c, b.c)]),
                   V3(*[fn2('min', x, add(scale(y, 16), Int(15))) for x, y in zip(self.hi.c, b.c)]))

    def __add__(self, o):
        return Box(self.lo + o, self.hi + o)

    def __sub__(self, o):
        return Box(self.lo - o, self.hi - o)

    def term(self):
        def vt(v):
            return adt('spatial::vec3::Vec3', 'Vec3', ('x', 'y', 'z'), v.c)
        return adt('spatial::area::Area', 'Area', ('min', 'max'), (vt(self.lo), vt(self.hi)))

    def base(self):
        return prodbase([mk('range', l, add(h, Int(1)))
                         for l, h in reversed(list(zip(self.lo.c, self.hi.c)))])

    def volume(self):
        r = None
        for l, h in zip(self.lo.c, self.hi.c):
            n = add(sub(h, l), Int(1))
            r = n if r is None else mul(r, n)
        return r


def box(t):
    return Box(v3(fld(t, 'min')), v3(fld(t, 'max')))


EMPTY = mk('arr', ())


def el(base, d=0):
    t = mk('el', base, d)
    core.TYPE.setdefault(t, 'i64' if base.op in ('range', 'inv') else '')
    return t


def box_elems(b):
    """index tokens (z, y, x) of a box base"""
    cs = comps(b)
    out, cnt = [], {}
    for c in cs:
        d = cnt.get(c, 0)
        cnt[c] = d + 1
        out.append(el(c, d))
    return out


def nodepos(idx):
    """position inside the block of a node index"""
    sh = [mk('shr', idx, Int(n)) for n in (4, 8)]
    r = [idx] + sh
    for x in sh:
        core.TYPE.setdefault(x, 'u16')
    r = [mk('band', x, Int(15)) for x in r]
    for x in r:
        core.TYPE.setdefault(x, 'u16')
    return V3(*r)


def optlist(o):
    return ite(has_(o), mk('arr', (val(o),)), mk('arr', ()))


def qk(db, search, area, invert, partial):
    return T_(mk('app', 'qk', db, search, area, invert, partial), 'std::vec::Vec<i64>')


def getblk(db, key):
    return T_(mk('app', 'getblk', db, key), 'std::result::Result<std::vec::Vec<u8>, map_database::DBError>', 'Result')


def deser(data):
    r = T_(mk('app', 'deser', data), 'std::result::Result<%s, map_block::MapBlockError>' % MB, 'Result')
    core.TYPE.setdefault(payload(r), MB)
    return r


def ser(b):
    return T_(mk('app', 'ser', b), 'std::vec::Vec<u8>')


def gen(d):
    return b_var(T_(mk('app', 'gen', d), 'bool'))


def get_id(b, name):
    return T_(mk('app', 'get_id', fld(b, 'nimap'), name), 'std::option::Option<u16>', 'Option')


def max_id(b):
    return T_(mk('app', 'max_id', fld(b, 'nimap')), 'std::option::Option<u16>', 'Option')


def setf(b, path, v):
    return upd(b, tuple(('f', p) for p in path.split('.')), v)


class Cmd(object):
    """effects of a command over the keys of one query"""

    def __init__(self, q):
        self.q = q
        self.base = mk('range', Int(0), ln(q))
        self.key = at(q, el(self.base))
        core.TYPE.setdefault(self.key, 'i64')
        self.pos = v3(bpos(self.key))
        self.data = payload(getblk(DB, self.key))
        self.d = deser(self.data)
        self.ok = is_ok(self.d)
        self.blk = payload(self.d)
        self.effs = [Eff('inc_done', (self.base,), 1, ())]

    def failed(self, g):
        self.effs.append(Eff('inc_failed', (self.base,), g, ()))

    def store(self, g, blk):
        self.effs.append(Eff('set_block', (self.base,), g, (DB, self.key, ser(blk))))

    def count(self, *xs):
        self.effs.append(Eff('count', (), 1, [sum_(self.base, x) for x in xs]))


def when(g, x):
    return ite(g, x, Int(0))


def in_sel(p):
    """the position is selected by --area / --invert"""
    a = A('area')
    return b_or(b_not(has_(a)), b_xor(box(val(a)).contains(p), as_bool(A('invert'))))


def node_filter(blk, idx, nid):
    """node at idx has the wanted ID (nid: Option term; absent = any)"""
    return eq(at(fld(blk, 'node_data', 'nodes'), idx), val(nid))


def is_cut(pos):
    """part of the block only is selected"""
    a = A('area')
    return b_and(has_(a), box(val(a)).partial(pos))


def delete_elements(field, posof, count=True):
    """deletetimers / deletemeta"""
    node = A('node')
    c = Cmd(qk(DB, optlist(node), A('area'), A('invert'), BT))
    nid = get_id(c.blk, val(node))
    runs = b_and(c.ok, b_or(b_not(has_(node)), has_(nid)))
    coll = fld(c.blk, field)
    if field == 'metadata':
        base = mk('keys', coll)
        idx = el(base)
        core.TYPE.setdefault(idx, 'u16')
    else:
        base = mk('range', Int(0), ln(coll))
        idx = posof(at(coll, el(base)))
    hit = b_and(in_sel(nodepos(idx) + c.pos * 16),
                b_or(b_not(has_(node)), node_filter(c.blk, idx, nid)))
    keep = b_not(hit)
    if field == 'metadata':
        new = mapcomp(coll, base, keep, at(coll, idx))
    else:
        new = mk('comp', base, keep, at(coll, el(base)))
    c.failed(b_not(c.ok))
    c.store(b_and(runs, exists(base, hit)), setf(c.blk, field, new))
    c.count(when(runs, sum_(base, when(hit, Int(1)))))
    return c


def delete_timers():
    return delete_elements('node_timers', lambda t: fld(t, 'pos'))


def delete_metadata():
    return delete_elements('metadata', None)


def delete_blocks():
    c = Cmd(qk(DB, mk('arr', ()), A('area'), A('invert'), BF))
    c.effs.append(Eff('delete_block', (c.base,), 1, (DB, c.key)))
    return c


def fill():
    area, node = val(A('area')), val(A('new_node'))
    inv = as_bool(A('invert'))
    c = Cmd(qk(DB, mk('arr', ()), some(area), A('invert'), BT))
    b = c.blk
    part = box(area).rel(c.pos)
    c.failed(b_not(c.ok))
    # part of the block
    gid = get_id(b, node)
    nid = ite(has_(gid), val(gid), add(val(max_id(b)), Int(1)))
    names = ite(has_(gid), fld(b, 'nimap', '0'), mk('mapset', fld(b, 'nimap', '0'), add(val(max_id(b)), Int(1)), node))
    nodes = fld(b, 'node_data', 'nodes')
    ib = mk('inv', part.term())
    bb = part.base()
    z, y, x = box_elems(bb)
    inside = scatter(nodes, bb, 1, add(x, add(scale(y, 16), scale(z, 256))), nid)
    outside = scatter(nodes, ib, 1, el(ib), nid)
    cutb = setf(setf(b, 'nimap.0', names), 'node_data.nodes', ite(inv, outside, inside))
    cutb = mk('app', 'clean', cutb)
    full = setf(setf(b, 'nimap.0', mk('mapset', mk('mapnew'), Int(0), node)), 'node_data.nodes',
                mk('repeat', Int(0), Int(4096)))
    cut = box(area).partial(c.pos)
    g = b_and(c.ok, gen(c.data))
    c.store(g, ite(cut, cutb, full))
    vol = part.volume()
    c.count(when(g, ite(cut, ite(inv, sub(Int(4096), vol), vol), Int(4096))))
    return c


def set_meta_var():
    nodes, key, value = A('nodes'), val(A('key')), A('value')
    c = Cmd(qk(DB, nodes, A('area'), A('invert'), BT))
    runs, sel = node_list(c)
    meta = fld(c.blk, 'metadata')
    kb = mk('keys', meta)
    idx = el(kb)
    core.TYPE.setdefault(idx, 'u16')
    m = at(meta, idx)
    hit = b_and(in_sel(nodepos(idx) + c.pos * 16), sel(idx), has(fld(m, 'vars'), key))
    newval = ite(has_(value), val(value), EMPTY)
    vs = fld(m, 'vars')
    old = at(vs, key)
    nm = setf(m, 'vars', ite(as_bool(A('delete')), mk('mapdel', vs, key),
                             mk('aset', vs, key, upd(old, (('f', '0'),), newval))))
    c.failed(b_not(c.ok))
    c.store(b_and(runs, exists(kb, hit)), setf(c.blk, 'metadata', mapcomp(meta, kb, 1, ite(hit, nm, m))))
    c.count(when(runs, sum_(kb, when(hit, Int(1)))))
    return c


def node_list(c):
    """--nodes: block applies if it has one of the named nodes (or none are named); node test by position"""
    nodes = A('nodes')
    nb = mk('range', Int(0), ln(nodes))
    gid = get_id(c.blk, at(nodes, el(nb)))
    named = b_not(is_empty(nodes))
    known = exists(nb, is_ok(gid))
    runs = b_and(c.ok, b_or(b_not(named), known))

    def sel(idx):
        n = at(fld(c.blk, 'node_data', 'nodes'), idx)
        return b_or(b_not(known), exists(nb, b_and(is_ok(gid), eq(val(gid), n))))
    return runs, sel


def delete_objects():
    items, obj = A('items'), A('object')
    name = ite(has_(items), some(mk('bytes', b'__builtin:item')), obj)
    names = ite(has_(items), val(items), EMPTY)
    c = Cmd(qk(DB, optlist(name), A('area'), A('invert'), BT))
    coll = fld(c.blk, 'static_objects')
    base = mk('range', Int(0), ln(coll))
    o = at(coll, el(base))
    pos = v3(fld(o, 'f_pos'))
    node = V3(*[dive(add(x, Int(5000)), Int(10000)) for x in pos.c])
    le_ = T_(mk('app', 'lua', o), 'std::result::Result<map_block::static_object::LuaEntityData, ()>', 'Result')
    data = payload(le_)
    nb = mk('range', Int(0), ln(names))
    item = item_name(fld(data, 'data'))
    named = b_and(is_ok(le_), eq(fld(data, 'name'), val(name)),
                  b_or(is_empty(names), exists(nb, eq(at(names, el(nb)), item))))
    hit = b_and(in_sel(node), b_or(b_not(has_(name)), named))
    c.failed(b_not(c.ok))
    c.store(b_and(c.ok, exists(base, hit)), setf(c.blk, 'static_objects', mk('comp', base, b_not(hit), o)))
    c.count(when(c.ok, sum_(base, when(hit, Int(1)))))
    return c


def find(pat, data):
    r = mk('app', 'find', mk('bytes', pat), data)
    return T_(r, 'std::option::Option<usize>', 'Option')


def split_it(v, chars, n=-1):
    x = mk('sym', 'split.elem')
    core.TYPE.setdefault(x, 'u8')
    return mk('it', 'split', v, B(b_or(*[eq(x, Int(c)) for c in chars])), Int(n))


def nth(it, n):
    r = mk('app', 'nth', it, Int(n))
    return T_(r, 'std::option::Option<&[u8]>', 'Option')


def item_name(data):
    """name of the dropped item, from the entity's serialised data"""
    new, old = b'itemstring="', b'["itemstring"] = "'
    fn, fo = find(new, data), find(old, data)
    start = ite(has_(fn), add(val(fn), Int(len(new))), add(val(fo), Int(len(old))))
    r = b_var(mk('app', 'starts_with', data, mk('bytes', b'return')))
    first = nth(split_it(slice_of(data, start, ln(data)), b' "'), 0)
    return ite(r, ite(b_or(has_(fn), has_(fo)), ite(has_(first), val(first), mk('bytes', b'')), mk('bytes', b'')), data)


def inv_replace(inv, item, new, del_meta):
    """inventory text with the stacks of one item replaced -> (text, number of stacks)"""
    lines = mk('items', split_it(inv, b'\n'))
    line = mk('item', el(lines))
    parts = split_it(line, b' ', 5)
    p = [nth(parts, i) for i in range(4)]
    blank = eq(ln(line), Int(0))
    hit = b_and(has_(p[0]), eq(mk('bytes', b'Item'), val(p[0])), has_(p[1]), eq(item, val(p[1])))
    cnt = ite(has_(p[2]), val(p[2]), mk('bytes', b'1'))
    wear = ite(has_(p[3]), val(p[3]), mk('bytes', b'0'))
    acc = mk('acc', lines, 0)
    head = cat(cat(acc, mk('bytes', b'Item ')), new)
    dw = eq(mk('bytes', b'0'), wear)
    plain = b_and(eq(mk('bytes', b'1'), cnt), dw)
    a = ite(plain, head, cat(mk('push', head, Int(32)), cnt))
    a = ite(dw, a, cat(mk('push', a, Int(32)), wear))
    rest = mk('items', mk('it', 'adv', parts, 2))
    acc2 = mk('acc', rest, 0)
    b = mk('fold', rest, 'fwd', head, cat(mk('push', acc2, Int(32)), mk('item', el(rest))))
    new_line = ite(hit, ite(eq(ln(new), Int(0)), cat(acc, mk('bytes', b'Empty')), ite(del_meta, a, b)), cat(acc, line))
    text = mk('fold', lines, 'fwd', EMPTY, ite(blank, acc, mk('push', new_line, Int(10))))
    mods = sum_(lines, when(b_and(b_not(blank), hit), Int(1)))
    return ite(eq(mods, Int(0)), inv, text), mods


def replace_in_inv():
    nodes, item = A('nodes'), val(A('item'))
    ni = A('new_item')
    new = ite(has_(ni), val(ni), ite(as_bool(A('delete')), EMPTY, item))
    c = Cmd(qk(DB, nodes, A('area'), A('invert'), BT))
    runs, sel = node_list(c)
    meta = fld(c.blk, 'metadata')
    kb = mk('keys', meta)
    idx = el(kb)
    core.TYPE.setdefault(idx, 'u16')
    m = at(meta, idx)
    hit = b_and(in_sel(nodepos(idx) + c.pos * 16), sel(idx))
    text, mods = inv_replace(fld(m, 'inv'), item, new, as_bool(A('delete_meta')))
    changed = b_and(hit, b_not(le(mods, Int(0))))
    c.failed(b_not(c.ok))
    c.store(b_and(runs, exists(kb, changed)),
            setf(c.blk, 'metadata', mapcomp(meta, kb, 1, ite(hit, setf(m, 'inv', text), m))))
    c.count(when(runs, sum_(kb, when(hit, mods))), when(runs, sum_(kb, when(changed, Int(1)))))
    return c


def set_param2():
    node, v, inv = A('node'), val(A('param2')), as_bool(A('invert'))
    area = val(A('area'))
    c = Cmd(qk(DB, optlist(node), A('area'), A('invert'), BT))
    nid = get_id(c.blk, val(node))
    runs = b_and(c.ok, b_or(b_not(has_(node)), has_(nid)))
    nodes, p2 = fld(c.blk, 'node_data', 'nodes'), fld(c.blk, 'node_data', 'param2')
    cut = is_cut(c.pos)
    part = box(area).rel(c.pos)

    def edit(base, idx):
        m = b_or(b_not(has_(node)), eq(at(nodes, idx), val(nid)))
        return scatter(p2, base, m, idx, v), sum_(base, when(m, Int(1)))
    bb, ib, ab = part.base(), mk('inv', part.term()), mk('range', Int(0), Int(4096))
    z, y, x = box_elems(bb)
    i = edit(bb, add(x, add(scale(y, 16), scale(z, 256))))
    o = edit(ib, el(ib))
    w = edit(ab, el(ab))
    c.failed(b_not(c.ok))
    c.store(runs, setf(c.blk, 'node_data.param2', ite(cut, ite(inv, o[0], i[0]), w[0])))
    c.count(when(runs, ite(cut, ite(inv, o[1], i[1]), w[1])))
    return c


def replace_nodes():
    """every selected node of the old name gets the new name; all others keep theirs"""
    old, new, inv = val(A('node')), val(A('new_node')), as_bool(A('invert'))
    area = val(A('area'))
    c = Cmd(qk(DB, mk('arr', (old,)), A('area'), A('invert'), BT))
    b = c.blk
    oid = get_id(b, old)
    runs = b_and(c.ok, has_(oid))
    nodes = fld(b, 'node_data', 'nodes')
    names = fld(b, 'nimap', '0')
    cut = is_cut(c.pos)
    part = box(area).rel(c.pos)
    gid = get_id(b, new)
    old_id, new_id = val(oid), ite(has_(gid), val(gid), add(val(max_id(b)), Int(1)))
    ab = mk('range', Int(0), Int(4096))

    def edit(base, idx):
        m = eq(at(nodes, idx), old_id)
        return scatter(nodes, base, m, idx, new_id), sum_(base, when(m, Int(1)))
    bb, ib = part.base(), mk('inv', part.term())
    z, y, x = box_elems(bb)
    i = edit(bb, add(x, add(scale(y, 16), scale(z, 256))))
    o = edit(ib, el(ib))
    en, cnt = ite(inv, o[0], i[0]), ite(inv, o[1], i[1])
    # the name is added if it is new and used; the old one removed if unused
    added = b_and(b_not(has_(gid)), b_not(le(cnt, Int(0))))
    pn = ite(added, mk('mapset', names, new_id, new), names)
    left = exists(ab, eq(at(en, el(ab)), old_id))

    def shifted(arr):
        e = at(arr, el(ab))
        return scatter(arr, ab, b_not(le(e, old_id)), el(ab), sub(e, Int(1)))
    pblk = setf(setf(b, 'nimap.0', pn), 'node_data.nodes', ite(left, en, shifted(en)))
    pmap = fld(pblk, 'nimap')
    pblk = setf(pblk, 'nimap', ite(left, pmap, mk('app', 'remove_shift', pmap, old_id)))
    # whole block
    e = at(nodes, el(ab))
    target = sub(val(gid), ite(le(val(gid), old_id), Int(0), Int(1)))
    whole = scatter(nodes, ab, 1, el(ab), ite(eq(e, old_id), target, sub(e, ite(le(e, old_id), Int(0), Int(1)))))
    w1 = setf(setf(b, 'nimap', mk('app', 'remove_shift', fld(b, 'nimap'), old_id)), 'node_data.nodes', whole)
    w2 = setf(b, 'nimap.0', mk('mapset', names, old_id, new))
    wcnt = sum_(ab, when(eq(e, old_id), Int(1)))
    c.failed(b_not(c.ok))
    c.store(runs, ite(cut, pblk, ite(has_(gid), w1, w2)))
    c.count(when(runs, ite(cut, cnt, wcnt)))
    return c


def vec_(v):
    return adt('spatial::vec3::Vec3', 'Vec3', ('x', 'y', 'z'), v.c)


def block_of(p):
    return V3(*[dive(x, Int(16)) for x in p.c])


def key_of(p):
    return add(p.c[0], add(scale(p.c[1], 4096), scale(p.c[2], 16777216)))


def valid_block(p):
    return b_and(*[b_and(le(Int(-1937), x), le(x, Int(1937))) for x in p.c])


def merged(dst, pos, part, offset, sdb):
    """block dst with everything in part (absolute) replaced by what the source map has offset away"""
    src = part - offset
    blocks = Box(block_of(src.lo), block_of(src.hi))
    base = blocks.base()
    z, y, x = box_elems(base)
    sp = V3(x, y, z)
    acc = mk('acc', base, 0)
    core.TYPE.setdefault(acc, MB)
    data = getblk(sdb, key_of(sp))
    d = deser(payload(data))
    use = b_and(valid_block(sp), is_ok(data), gen(payload(data)), is_ok(d))
    sb = payload(d)
    frag = src.abs(sp)
    srel = (frag - sp * 16).term()
    drel = (frag + offset).rel(pos).term()
    m = mk('app', 'merge_blocks', sb, acc, srel, drel)
    core.TYPE.setdefault(m, MB)
    m = setf(m, 'metadata', mk('app', 'merge_metadata', fld(sb, 'metadata'), fld(acc, 'metadata'), srel, drel))
    return mk('app', 'clean', mk('fold', base, 'fwd', dst, ite(use, m, acc)))


def clone():
    area, offset = box(val(A('area'))), v3(val(A('offset')))
    dst = area + offset
    c = Cmd(qk(DB, EMPTY, some(dst.term()), BF, BT))
    there = b_and(is_ok(getblk(DB, c.key)), gen(c.data))
    c.failed(b_and(there, b_not(c.ok)))
    c.store(b_and(there, c.ok), merged(c.blk, c.pos, dst.abs(c.pos), offset, DB))
    return c


def overlay():
    a, off = A('area'), A('offset')
    offset = v3(val(off))
    moved = b_and(has_(off), b_not(b_and(*[eq(x, Int(0)) for x in offset.c])))
    inv = as_bool(A('invert'))
    area = box(val(a))
    # in place
    c = Cmd(qk(IDB, EMPTY, a, A('invert'), BT))
    c.effs = [Eff('inc_done', (c.base,), b_not(moved), ())]
    src = payload(getblk(IDB, c.key))
    here = getblk(DB, c.key)
    whole = b_or(b_not(has_(a)), b_and(b_not(inv), area.contains_block(c.pos)), b_and(inv, b_not(area.touches_block(c.pos))))
    c.effs.append(Eff('set_block', (c.base,), b_and(b_not(moved), whole, gen(src)), (DB, c.key, src)))
    both = b_and(b_not(moved), b_not(whole), is_ok(here), gen(payload(here)), gen(src))
    sd, dd = deser(src), deser(payload(here))
    ok = b_and(is_ok(sd), is_ok(dd))
    c.failed(b_and(both, b_not(ok)))
    part = area.rel(c.pos).term()

    def merge(x, y):
        m = mk('app', 'merge_blocks', x, y, part, part)
        core.TYPE.setdefault(m, MB)
        m = setf(m, 'metadata', mk('app', 'merge_metadata', fld(x, 'metadata'), fld(y, 'metadata'), part, part))
        return mk('app', 'clean', m)
    c.store(b_and(both, ok), ite(inv, merge(payload(dd), payload(sd)), merge(payload(sd), payload(dd))))
    # shifted
    darea = area + offset
    e = Cmd(qk(DB, EMPTY, ite(has_(a), some(darea.term()), NONE), A('invert'), BT))
    there = b_and(moved, is_ok(getblk(DB, e.key)), gen(e.data))
    e.effs = [Eff('inc_done', (e.base,), moved, ())]
    e.failed(b_and(there, b_not(e.ok)))
    b16 = e.pos * 16
    d = darea.abs(e.pos)
    part = Box(V3(*[ite(has_(a), x, y) for x, y in zip(d.lo.c, b16.c)]),
               V3(*[ite(has_(a), x, y) for x, y in zip(d.hi.c, (b16 + 15).c)]))
    e.store(b_and(there, e.ok), merged(e.blk, e.pos, part, offset, IDB))
    c.effs += e.effs
    return c


def vacuum():
    """no block is touched"""
    c = Cmd(qk(DB, EMPTY, NONE, BF, BT))
    c.effs = [Eff('vacuum', (), 1, (DB,))]
    return c
