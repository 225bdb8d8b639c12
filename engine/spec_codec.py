"""The mapblock format (Minetest's doc/world_format.txt), written independently of the code.

A byte sequence is a tuple of integers in which a compressed section is one element Tup(('z'|'zs', payload, intact))."""
import random
from rand import O, M, Tup, MBT

END = b'EndInventory\n'


class Bad(Exception):
    pass


class Open(Exception):
    """the format says nothing about this input"""


def U(n, x):
    return tuple(x.to_bytes(n, 'big'))


def S(n, b):
    return U(n, len(b)) + tuple(b)


# ------------------------------------------------------------------ writer
def encode(b):
    v = b['version']
    nd = tuple(y for x in b['nodes'] for y in U(2, x)) + b['param1'] + b['param2']
    md = enc_meta(b['metadata'], v)
    obj = (0,) + U(2, len(b['objects']))
    for t, p, d in b['objects']:
        obj += (t,) + tuple(y for c in p for y in c.to_bytes(4, 'big', signed=True)) + S(2, d)
    nim = (0,) + U(2, len(b['nimap']))
    for i, n in b['nimap'].items():
        nim += U(2, i) + S(2, n)
    tim = (10,) + U(2, len(b['timers']))
    for p, t, e in b['timers']:
        tim += U(2, p) + U(4, t) + U(4, e)
    if v >= 29:
        body = (b['flags'],) + U(2, b['light']) + U(4, b['timestamp']) + nim + (2, 2) + nd + md + obj + tim
        return (v, Tup(('zs', body, True)))
    return (v, b['flags']) + (U(2, b['light']) if v >= 27 else ()) + (2, 2) + (Tup(('z', nd, True)),) + \
        (Tup(('z', md, True)),) + obj + U(4, b['timestamp']) + nim + tim


def enc_meta(md, v, ver=None):
    if not md and ver is None:
        return (0,)
    ver = ver or (2 if v >= 28 else 1)
    out = (ver,) + U(2, len(md))
    for pos, (vars_, inv) in md.items():
        out += U(2, pos) + U(4, len(vars_))
        for k, (val, priv) in vars_.items():
            out += S(2, k) + S(4, val) + ((int(priv),) if ver >= 2 else ())
        out += tuple(inv)
    return out


# ------------------------------------------------------------------ reader
LOG = {}


class Rd(object):
    def __init__(self, d):
        self.d, self.p = d, 0
        self.log = LOG.setdefault(d, set()) if LOG is not None and len(LOG) < 8 else set()

    def take(self, n):
        if self.p + n > len(self.d):
            raise Bad('short')
        self.log.add(self.p)
        r = self.d[self.p:self.p + n]
        self.p += n
        for x in r:
            if isinstance(x, Tup):
                raise Open('bytes of compressed data')
        return r

    def u(self, n):
        return int.from_bytes(bytes(self.take(n)), 'big')

    def s32(self):
        return int.from_bytes(bytes(self.take(4)), 'big', signed=True)

    def st(self, n):
        k = self.u(n)
        return self.take(k)

    def z(self, kind):
        if self.p >= len(self.d) or not isinstance(self.d[self.p], Tup) or self.d[self.p][0] != kind:
            raise Bad('not compressed data')
        m = self.d[self.p]
        self.p += 1
        if not m[2]:
            raise Bad('damaged compressed data')
        return m[1]


def decode(seq, strict=False):
    """-> block; raises Bad where no reader may accept it, Open where readers may differ"""
    r = Rd(seq)
    v = r.u(1)
    if not 25 <= v <= 29:
        raise Bad('version')
    if v >= 29:
        body = r.z('zs')
        if r.p != len(r.d):
            raise Bad('data after the frame')
        r = Rd(body)
    b = {'version': v, 'flags': r.u(1), 'light': r.u(2) if v >= 27 else 0xFFFF}
    if v >= 29:
        b['timestamp'] = r.u(4)
        b['nimap'] = dec_nimap(r)
    if r.u(1) != 2 or r.u(1) != 2:
        raise Bad('width')
    if v >= 29:
        nd = r.take(16384)
        md = dec_meta(r, v, strict)
    else:
        nd = r.z('z')
        if len(nd) != 16384:
            raise Bad('node data size')
        q = Rd(r.z('z'))
        md = dec_meta(q, v, strict)
        if q.p != len(q.d):
            raise Bad('left over') if strict else Open('left-over metadata')
    b['nodes'] = tuple(nd[2 * i] << 8 | nd[2 * i + 1] for i in range(4096))
    b['param1'], b['param2'] = nd[8192:12288], nd[12288:]
    b['metadata'] = md
    if r.u(1) != 0:
        raise Bad('object version')
    obj = []
    for _ in range(r.u(2)):
        t = r.u(1)
        p = (r.s32(), r.s32(), r.s32())
        obj.append((t, p, r.st(2)))
    b['objects'] = tuple(obj)
    if v < 29:
        b['timestamp'] = r.u(4)
        b['nimap'] = dec_nimap(r)
    if r.u(1) != 10:
        raise Bad('timer size')
    tim = []
    for _ in range(r.u(2)):
        p = r.u(2)
        if p >= 4096:
            raise Bad('timer position')
        tim.append((p, r.u(4), r.u(4)))
    b['timers'] = tuple(tim)
    if r.p != len(r.d):
        raise Bad('left over') if strict else Open('trailing data')
    for i in set(b['nodes']):
        if i not in b['nimap']:
            raise Bad('no name for node ID %d' % i)
    return b


def dec_nimap(r):
    if r.u(1) != 0:
        raise Bad('table version')
    m, odd = {}, False
    for _ in range(r.u(2)):
        i = r.u(2)
        n = r.st(2)
        odd |= i in m or i >= 4096
        m[i] = n
    if odd:
        raise Open('unusual name table')
    return m


def dec_meta(r, v, strict):
    ver = r.u(1)
    if ver > 2:
        raise Bad('metadata version')
    if ver == 0:
        return {}
    if strict and v < 28 and ver != 1:
        raise Bad('metadata version %d in a version %d block' % (ver, v))
    out, odd = {}, False
    for _ in range(r.u(2)):
        pos = r.u(2)
        if pos >= 4096:
            raise Bad('metadata position')
        vs = {}
        for _ in range(r.u(4)):
            k = r.st(2)
            val = r.st(4)
            p = ver >= 2 and r.u(1) != 0
            odd |= k in vs
            vs[k] = (val, p)
        rest = bytes(x if not isinstance(x, Tup) else 0 for x in r.d[r.p:])
        e = rest.find(END)
        if e < 0:
            raise Bad('inventory')
        inv = r.take(e + len(END))
        odd |= pos in out
        out[pos] = (vs, inv)
    if odd:
        raise Open('duplicate keys')
    return out


# ------------------------------------------------------------------ values
def value(b):
    """the MapBlock value of a decoded block"""
    md = {}
    for pos, (vs, inv) in b['metadata'].items():
        md[pos] = O('NodeMetadata', 'NodeMetadata', {
            'vars': M({k: Tup((v, p)) for k, (v, p) in vs.items()}), 'inv': inv})
    return O(MBT, 'MapBlock', {
        'version': b['version'], 'flags': b['flags'], 'lighting_complete': b['light'],
        'content_width': 2, 'params_width': 2,
        'node_data': O('NodeData', 'NodeData', {'nodes': b['nodes'], 'param1': b['param1'], 'param2': b['param2']}),
        'metadata': M(md),
        'static_objects': tuple(O('StaticObject', 'StaticObject', {
            'obj_type': t, 'f_pos': O('Vec3', 'Vec3', dict(zip('xyz', p))), 'data': d}) for t, p, d in b['objects']),
        'timestamp': b['timestamp'],
        'nimap': O('NameIdMap', 'NameIdMap', {'0': M(dict(b['nimap']))}),
        'node_timers': tuple(O('NodeTimer', 'NodeTimer', {'pos': p, 'timeout': t, 'elapsed': e})
                             for p, t, e in b['timers'])})


def nonempty(b):
    """what a saved block holds: no empty metadata, no privacy before version 28"""
    b = dict(b)
    old = b['version'] < 28
    b['metadata'] = {p: ({k: (x, pr and not old) for k, (x, pr) in m[0].items()}, m[1]) for p, m in b['metadata'].items() if m[0] or not bytes(m[1]).startswith(END)}
    return b


# ------------------------------------------------------------------ inputs
FOC, FOCB = [], []       # what the assignment concentrates on: constants that a change brought in (rand.Pool)


def focus(r, pool):
    FOC[:], FOCB[:] = [], []
    if not pool.none and r.random() < .75:
        if pool.hot:
            FOC[:] = [r.choice(pool.hot) for _ in range(r.choice((1, 1, 2)))]
        if pool.hotb:
            FOCB[:] = [r.choice(pool.hotb) for _ in range(r.choice((1, 1, 2)))]


def hotn(r, lo, hi, p=.25):
    """a value around what the assignment concentrates on, or None"""
    if FOC and r.random() < p:
        v = r.choice(FOC) * r.choice((1, 1, 1, -1)) + r.choice((0, 0, 1, -1))
        if lo <= v <= hi:
            return v


def rbytes(r, n):
    x = tuple(r.choice((0, 1, 10, 26, 255, 97, 98, 58, r.randrange(256))) for _ in range(n))
    x = mix(r, x)
    return x if len(x) <= 65535 or n > 65535 else x[:65535]


def mix(r, x):
    """text with a piece of what the assignment concentrates on"""
    if (FOC or FOCB) and r.random() < .4:
        bits = [b for b in FOCB if len(b) < 64] + [(abs(v),) * r.choice((1, 1, 2, 4)) for v in FOC if abs(v) < 256]
        if bits:
            k = r.choice((0, len(x), len(x), r.randrange(len(x) + 1)))
            x = x[:k] + r.choice(bits) + x[k:]
    return x


def rlen(r, big=()):
    v = hotn(r, 0, 300 if r.random() < .8 else 60000)
    if v is not None:
        return v
    return r.choice((0, 1, 2, 3, 5, 9, 17) + tuple(big))


def rint(r, bits, signed=False):
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    v = hotn(r, lo, hi)
    if v is not None:
        return v
    return r.choice((lo, hi, 0, 1, 1 << bits // 2, r.randint(lo, hi), r.randint(lo, hi)))


def ror(r, v, lo, hi):
    """v, or what the assignment concentrates on"""
    x = hotn(r, lo, hi)
    return v if x is None else x


def rinv(r):
    out = b''
    for _ in range(r.choice((0, 0, 1, 1, 2))):
        out += b'List main %d\nWidth 0\n' % r.randrange(1, 5)
        for _ in range(r.randrange(4)):
            out += r.choice((b'Empty\n', b'Item default:stone 5\n', b'Item a:b 1 0 "\\u0001EndInventory\\n"\n', b'Keep\n'))
            x = bytes(rbytes(r, 3)) if (FOC or FOCB) and r.random() < .5 else b''
            if x and b'EndInventory' not in x:
                out += r.choice((b'Item ' + x + b'\n', x))
        out += b'EndInventoryList\n'
    return tuple(out + END)


def rmeta(r, pos):
    n = r.choice((0, 0, 1, 1, 2, 3, 6))
    vs = {}
    for _ in range(n):
        k = rbytes(r, rlen(r, (300,) if r.random() < .05 else ()))
        vs[k] = (rbytes(r, rlen(r, (256, 300, 70000) if r.random() < .04 else ())), r.random() < .5)
    return vs, rinv(r)


def rblock(r, v=None, big=True):
    v = v or r.choice((25, 27, 28, 29))
    k = ror(r, r.choice((1, 2, 3, 5, 12) + ((257, 300) if big and r.random() < .1 else ())), 1, 600)
    ids = list(range(k))
    pat = [r.randrange(k) for _ in range(r.choice((1, 7, 64)))]
    nodes = [pat[i % len(pat)] for i in range(4096)]
    nodes[r.randrange(4096)] = r.randrange(k)
    npat = rbytes(r, 67), rbytes(r, 61)
    names, nimap = set(), {}
    order = ids[:]
    if r.random() < .3:
        r.shuffle(order)
    for i in order:
        n = rbytes(r, rlen(r, (255, 256, 65535) if big and r.random() < .03 else ()))
        while n in names:
            n += (97,)
        names.add(n)
        nimap[i] = n
    nmeta = ror(r, r.choice((0, 0, 1, 2, 4) + ((260, 300) if big and r.random() < .05 else ())), 0, 4096)
    md = {}
    for p in sorted(r.sample(range(4096), nmeta) if r.random() < .8 or nmeta > 2 else r.sample((0, 1, 4095, 255, 256), nmeta)):
        md[p] = rmeta(r, p) if nmeta < 100 else ({(97,): ((98,), True)}, tuple(END))
    if md and (FOC or FOCB) and r.random() < .6:
        for p in r.sample(sorted(md), min(len(md), 2)):
            md[ror(r, p, 0, 4095)] = md[p]
        md = dict(sorted(md.items()))
    if big and md and r.random() < .03:
        p = sorted(md)[0]
        md[p] = ({tuple(b'v%d' % i): ((i & 255,), i % 2 == 0) for i in range(300)}, rinv(r))
    nobj = ror(r, r.choice((0, 0, 1, 2, 3) + ((256, 300) if big and r.random() < .05 else ())), 0, 2000)
    objs = tuple((ror(r, r.choice((7, 7, 1, 255, r.randrange(256))), 0, 255), tuple(rint(r, 32, True) for _ in 'xyz'),
                  rbytes(r, rlen(r, (255, 256, 300, 65535) if big and nobj < 9 and r.random() < .1 else ()))) for _ in range(nobj))
    nt = ror(r, r.choice((0, 0, 1, 2, 3) + ((256, 300, 4096, 4100) if big and r.random() < .04 else ())), 0, 5000)
    tim = tuple((ror(r, r.choice((0, 4095, 255, 256, r.randrange(4096))), 0, 4095), rint(r, 32), rint(r, 32)) for _ in range(nt))
    return {'version': v, 'flags': ror(r, r.choice((0, 1, 3, 8, 11, r.randrange(256))), 0, 255),
            'light': rint(r, 16) if v >= 27 else 0xFFFF, 'timestamp': rint(r, 32), 'nimap': nimap,
            'nodes': tuple(nodes), 'param1': tuple(npat[0][i % 67] for i in range(4096)),
            'param2': tuple(npat[1][i % 61] for i in range(4096)), 'metadata': md, 'objects': objs, 'timers': tim}


def damage(r, b):
    """an encoded block with something wrong (or unusual) somewhere"""
    if r.random() < .25:
        b = dict(b)
        what = r.randrange(7)
        if what == 0:
            n = list(b['nodes'])
            n[r.choice((0, 4095, r.randrange(4096)))] = r.choice((len(b['nimap']), 4095, 65535, 4096))
            b['nodes'] = tuple(n)
        elif what == 1:
            b['timers'] += ((r.choice((4096, 65535, 4095, 5000)), 1, 2),)
        elif what == 2:
            b['metadata'] = dict(b['metadata'])
            b['metadata'][r.choice((4096, 65535, 4095, 9999))] = ({(97,): ((98,), False)}, tuple(END))
        elif what == 3:
            b['version'] = r.choice((24, 26, 30, 0, 255, 28, 29, 25))
        elif what == 4:
            b['nodes'] = b['nodes'][:r.choice((0, 4095, 2048))]
        elif what == 5:
            b['param2'] = b['param2'] + (0,) * r.choice((1, 4096))
        else:
            b['nimap'] = {k: n for k, n in b['nimap'].items() if k != max(b['nimap'])}
        try:
            return encode(b)
        except OverflowError:
            pass
    seq = encode(b)
    LOG.clear()
    try:
        decode(seq)
    except (Bad, Open):
        pass
    marks = {d: sorted(ps) for d, ps in LOG.items()}
    LOG.clear()
    # where: outer sequence or one compressed payload
    zs = [i for i, x in enumerate(seq) if isinstance(x, Tup)]
    for _ in range(r.choice((1, 1, 1, 2))):
        if zs and r.random() < (.9 if b['version'] >= 29 else .4):
            i = r.choice(zs)
            m = seq[i]
            if not isinstance(m, Tup):
                continue
            k = r.random()
            if k < .08:
                seq = seq[:i] + (Tup((m[0], m[1], False)),) + seq[i + 1:]
            elif k < .12:
                seq = seq[:i] + seq[i + 1:]
                zs = [j for j, x in enumerate(seq) if isinstance(x, Tup)]
            else:
                seq = seq[:i] + (Tup((m[0], hurt(r, m[1], marks.get(m[1])), m[2])),) + seq[i + 1:]
        else:
            seq = hurt(r, seq, marks.get(seq))
            zs = [j for j, x in enumerate(seq) if isinstance(x, Tup)]
    return seq


def hurt(r, d, marks=None):
    n = len(d)
    if not n:
        return (r.randrange(256),)
    p = r.randrange(n)
    marks = [m for m in marks or () if m < n]
    if marks and r.random() < .6:      # at the border of a field
        p = r.choice(marks if r.random() < .5 else marks[:24])
        if r.random() < .4:
            return d[:p]
    elif n > 16384:              # mostly outside the node arrays
        p = r.choice((r.randrange(min(n, 60)), n - 1 - r.randrange(n - 16384), p))
    elif r.random() < .3:
        p = r.randrange(min(n, 16))
    k = r.randrange(8)
    if k == 0:
        return d[:p]
    if k == 1:
        return d[:p] + d[p + 1:]
    if k == 2:
        return d[:p] + (r.randrange(256),) + d[p:]
    if k == 3:
        return d[:p] + (255,) * min(r.choice((1, 2, 4)), n - p) + d[p + r.choice((1, 2, 4)):]
    v = r.choice((0, 1, 2, 3, 9, 10, 11, 127, 128, 255, r.randrange(256)))
    return d[:p] + (v,) + d[p + 1:]
