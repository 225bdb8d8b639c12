"""Models of byte streams: cursors, byte-order helpers, zlib and zstd.

A stream state is an opaque term; every operation is an `app` of the old state (what it returns, the state after it).
The operations get their meaning in `evaluate` (used by rand.World).  Compressed data is never computed: the output of a
finished compressor is one marker element `Tup(('z'|'zs', payload, intact))` in the byte sequence, which decompresses to
the payload (C27, the compression libraries themselves, is out of scope)."""
import core
from core import *
import interp
import lib
from lib import model, setv, cat, pl, strip_ref

ZD, ZSD, ZE, ZSE = 'ZlibDecoder', 'ZstdDecoder', 'ZlibEncoder', 'ZstdEncoder'


def final(c, a):
    """reference to the stream itself behind a chain of references; -> (ref or None, value)"""
    v, n = a, 0
    r = None
    while v.op == 'ref' and n < 12:
        r = v
        v = c.eng.deref(c.st, v)
        n += 1
    if v.op == 'ite' and has_ref(v):
        c.eng.unknown('stream behind alternative references')
    return r, v


def has_ref(v):
    return v.op == 'ref' or v.op == 'ite' and (has_ref(v.a[1]) or has_ref(v.a[2]))


def fld(v, n):
    return core.proj(v, ('f', n))


def put(c, r, path, v, old=None):
    if r is None:
        return
    if old is not None and old in core.TYPE:
        core.TYPE.setdefault(v, core.TYPE[old])
    c.event('mut', 'stream', place=pl(r), vals=[v])
    if not c.eng.write_ref(c.st, r, path, v):
        c.eng.unknown('write through opaque reference in ' + c.path)


def app(n, *a, ty=None):
    t = mk('app', 'io.' + n, *a)
    if ty:
        core.TYPE.setdefault(t, ty)
    return t


IOERR = mk('app', 'io.err')


def do_read(c, a, n, mode):
    """read n bytes (mode exact/some/all); -> (succeeded, data)"""
    r, v = final(c, a)
    if v.op == 'adt' and v.a[0] in (ZD, ZSD):
        ir, iv = final(c, fld(v, 'inner'))
        t = app('zrd', B_(v.a[0]), iv, fld(v, 'st'), n, B_(mode))
        if ir is not None:
            put(c, ir, (), app('r3', t), iv)
        elif r is not None:
            put(c, r, (('f', 'inner'),), app('r3', t), iv)
        put(c, r, (('f', 'st'),), app('r2', t))
    else:
        t = app('rd', v, n, B_(mode))
        put(c, r, (), app('r2', t), v)
    return b_var(app('r0', t)), app('r1', t, ty='std::vec::Vec<u8>')


def B_(s):
    return mk('cname', s)


def res(okc, val, dty=''):
    return ite(okc, ok(val), err(IOERR))


@model('std::io::Cursor::new')
def m_cur(c):
    v = c.deep(0)
    return app('cur', v, Int(0))


@model('std::io::Cursor::position', 'std::io::Seek::stream_position')
def m_pos(c):
    r, v = final(c, c.args[0])
    x = app('pos', v, ty='u64')
    return ok(x) if c.path.endswith('stream_position') else x


@model('std::io::Cursor::set_position')
def m_setpos(c):
    r, v = final(c, c.args[0])
    put(c, r, (), app('seek', v, c.args[1]), v)
    return UNIT


@model('std::io::Seek::seek')
def m_seek(c):
    r, v = final(c, c.args[0])
    w = c.args[1]
    if w.op != 'adt':
        return NotImplemented
    var = w.a[1]
    x = w.a[3][0]
    if var == 'Current':
        x = add(app('pos', v, ty='u64'), x)
    elif var == 'End':
        x = add(ln(app('inner', v)), x)
    put(c, r, (), app('seek', v, x), v)
    return ok(x)


@model('std::io::Cursor::get_ref', 'std::io::Cursor::into_inner')
def m_inner(c):
    r, v = final(c, c.args[0])
    return app('inner', v, ty='std::vec::Vec<u8>')


# ------------------------------------------------------------------ reading
@model('std::io::Read::read_exact')
def m_rexact(c):
    buf = c.val(1)
    while buf.op == 'ref':
        buf = c.eng.deref(c.st, buf)
    okc, data = do_read(c, c.args[0], ln(buf), 'exact')
    r, _ = final(c, c.args[1])
    setbuf(c, r, ite(okc, data, buf))
    return res(okc, UNIT)


def setbuf(c, r, v):
    c.event('mut', 'fill', place=pl(r) if r is not None else None, vals=[v])
    if r is None or not c.eng.write_ref(c.st, r, (), v):
        c.eng.unknown('write through opaque reference in ' + c.path)


@model('std::io::Read::read')
def m_rsome(c):
    r, buf = final(c, c.args[1])
    okc, data = do_read(c, c.args[0], ln(buf), 'some')
    k = ln(data)
    setbuf(c, r, ite(okc, app('over', buf, data), buf))
    return res(okc, k)


@model('std::io::Read::read_to_end')
def m_rall(c):
    r, buf = final(c, c.args[1])
    okc, data = do_read(c, c.args[0], Int(1 << 62), 'all')
    setbuf(c, r, mk('cat', buf, data))
    return res(okc, ln(data))


@model('std::io::Read::by_ref', 'std::io::Write::by_ref')
def m_byref(c):
    return c.args[0]


WID = {'u8': 1, 'u16': 2, 'u24': 3, 'u32': 4, 'u64': 8, 'u128': 16}


def order(c):
    s = ' '.join(c.fnd.get('args') or [])
    if 'LittleEndian' in s:
        return 'le'
    if 'BigEndian' in s:
        return 'be'
    return None


def bo_read(ty, n):
    def f(c):
        o = order(c) if n > 1 else 'be'
        if o is None:
            return NotImplemented
        okc, data = do_read(c, c.args[0], Int(n), 'exact')
        return res(okc, app('int', data, B_(o + ty), ty=ty))
    return f


def bo_write(ty, n):
    def f(c):
        o = order(c) if n > 1 else 'be'
        if o is None:
            return NotImplemented
        return do_write(c, c.args[0], tobytes(c.args[1], o, n))
    return f


def tobytes(x, o, n):
    if x.op == 'int':
        return mk('bytes', (x.a[0] % (1 << 8 * n)).to_bytes(n, 'big' if o == 'be' else 'little'))
    return app('bytes', x, B_(o), Int(n), ty='[u8; %d]' % n)


for s in ('u', 'i'):
    for b, n in ((8, 1), (16, 2), (32, 4), (64, 8)):
        t_ = '%s%d' % (s, b)
        model('byteorder::ReadBytesExt::read_' + t_)(bo_read(t_, n))
        model('byteorder::WriteBytesExt::write_' + t_)(bo_write(t_, n))


def bytes_order(c):
    return 'le' if '_le_' in c.path else 'be' if '_be_' in c.path else 'le'


@model('core::num::to_be_bytes', 'core::num::to_le_bytes')
def m_tobe(c):
    n = int(c.dty.split(';')[1].strip(' ]'))
    return tobytes(c.args[0], bytes_order(c), n)


@model('core::num::from_be_bytes', 'core::num::from_le_bytes')
def m_frombe(c):
    return app('int', c.deep(0), B_(bytes_order(c) + c.dty), ty=c.dty)


def bo_into(n, rd):
    def f(c):
        o = order(c)
        if o is None:
            return NotImplemented
        x = c.deep(0)
        r, d = final(c, c.args[1])
        if rd:
            c.event('lencheck', 'read_into', vals=[ln(x), scale(ln(d), n)])
        else:
            c.event('lencheck', 'write_into', vals=[scale(ln(x), n), ln(d)])
        setbuf(c, r, app('ints' if rd else 'bytess', x, B_(o), Int(n)))
        return UNIT
    return f


def bo_buf(n, rd):
    def f(c):
        o = order(c)
        if o is None:
            return NotImplemented
        r, d = final(c, c.args[0])
        c.event('slice', 'byteorder', vals=[ln(d), Int(0), Int(n)])
        if rd:
            return app('int', lib.slice_of(d, Int(0), Int(n)), B_('%su%d' % (o, 8 * n)), ty='u%d' % (8 * n))
        setbuf(c, r, app('over', d, tobytes(c.args[1], o, n)))
        return UNIT
    return f


for b, n in ((16, 2), (32, 4), (64, 8)):
    model('byteorder::ByteOrder::read_u%d_into' % b)(bo_into(n, True))
    model('byteorder::ByteOrder::write_u%d_into' % b)(bo_into(n, False))
    model('byteorder::ByteOrder::read_u%d' % b)(bo_buf(n, True))
    model('byteorder::ByteOrder::write_u%d' % b)(bo_buf(n, False))


# ------------------------------------------------------------------ writing
def do_write(c, a, data, partial=False):
    r, v = final(c, a)
    if r is None:
        return NotImplemented
    if v.op == 'adt' and v.a[0] in (ZE, ZSE):
        if partial:
            k = app('partial', B_(str(c.span)), ln(data), ty='usize')
            put(c, r, (('f', 'buf'),), mk('cat', fld(v, 'buf'), lib.slice_of(data, Int(0), k)))
            return ok(k)
        put(c, r, (('f', 'buf'),), mk('cat', fld(v, 'buf'), data))
        return ok(UNIT)
    put(c, r, (), app('wr', v, data), v)
    return ok(ln(data)) if partial else ok(UNIT)


@model('std::io::Write::write_all')
def m_wall(c):
    return do_write(c, c.args[0], c.deep(1))


@model('std::io::Write::write')
def m_write(c):
    return do_write(c, c.args[0], c.deep(1), True)


@model('std::io::Write::flush')
def m_flush(c):
    return ok(UNIT)


# ------------------------------------------------------------------ compression
@model('flate2::read::ZlibDecoder::new', 'flate2::bufread::ZlibDecoder::new')
def m_zdec(c):
    return adt(ZD, ZD, ('inner', 'st'), [c.args[0], app('zst', B_('bufread' if 'bufread' in c.path else 'read'))])


@model('flate2::read::ZlibDecoder::total_in', 'flate2::bufread::ZlibDecoder::total_in',
       'flate2::read::ZlibDecoder::total_out', 'flate2::bufread::ZlibDecoder::total_out')
def m_ztin(c):
    r, v = final(c, c.args[0])
    return app('ztin' if c.path.endswith('in') else 'ztout', fld(v, 'st'), ty='u64')


@model('flate2::read::ZlibDecoder::into_inner', 'flate2::bufread::ZlibDecoder::into_inner', 'zstd::Decoder::finish',
       'zstd::stream::read::Decoder::finish')
def m_zinner(c):
    v = c.args[0]
    return fld(v, 'inner')


@model('flate2::read::ZlibDecoder::get_ref', 'flate2::bufread::ZlibDecoder::get_ref',
       'flate2::read::ZlibDecoder::get_mut', 'flate2::bufread::ZlibDecoder::get_mut')
def m_zget(c):
    r, v = final(c, c.args[0])
    return mk('ref', r.a[0], r.a[1] + (('f', 'inner'),)) if r is not None else fld(v, 'inner')


@model('flate2::write::ZlibEncoder::new')
def m_zenc(c):
    return adt(ZE, ZE, ('inner', 'buf'), [c.args[0], mk('arr', ())])


@model('flate2::Compression::default', 'flate2::Compression::new', 'flate2::Compression::best',
       'flate2::Compression::fast', 'flate2::Compression::none')
def m_compr(c):
    return mk('cname', 'compression')


def finish(c, v, kind):
    inner = fld(v, 'inner')
    m = app('marker', B_(kind), fld(v, 'buf'))
    if inner.op == 'ref':
        do_write(c, inner, m)
        return inner
    return app('wr', inner, m)


@model('flate2::write::ZlibEncoder::finish')
def m_zfin(c):
    v = c.args[0]
    if v.op != 'adt':
        return NotImplemented
    return ok(finish(c, v, 'z'))


@model('flate2::write::ZlibEncoder::get_ref', 'zstd::stream::Encoder::get_ref', 'zstd::Encoder::get_ref',
       'zstd::stream::write::Encoder::get_ref')
def m_encref(c):
    # what an unfinished compressor has handed over so far is not a complete stream
    r, v = final(c, c.args[0])
    if v.op != 'adt':
        return NotImplemented
    _, iv = final(c, fld(v, 'inner'))
    return app('wr', iv, app('marker', B_('broken'), fld(v, 'buf')))


@model('flate2::write::ZlibEncoder::get_mut', 'zstd::stream::Encoder::get_mut', 'zstd::Encoder::get_mut',
       'zstd::stream::write::Encoder::get_mut')
def m_encmut(c):
    r, v = final(c, c.args[0])
    if v.op != 'adt':
        return NotImplemented
    buf = fld(v, 'buf')
    if r is not None and buf.op == 'arr' and not buf.a[0]:
        return mk('ref', r.a[0], r.a[1] + (('f', 'inner'),))
    t = m_encref(c)
    root = ('T', c.eng.tmpkey(c, 'unfinished'))
    c.st.s[root] = t
    return mk('ref', root, ())


@model('flate2::write::ZlibEncoder::try_finish')
def m_ztfin(c):
    return NotImplemented


@model('zstd::stream::Decoder::new', 'zstd::Decoder::new', 'zstd::stream::read::Decoder::new',
       'zstd::stream::Decoder::with_buffer', 'zstd::stream::read::Decoder::with_buffer', 'zstd::Decoder::with_buffer')
def m_zsdec(c):
    return ok(adt(ZSD, ZSD, ('inner', 'st'), [c.args[0], app('zst', B_('read'))]))


@model('zstd::stream::Encoder::new', 'zstd::Encoder::new', 'zstd::stream::write::Encoder::new')
def m_zsenc(c):
    return ok(adt(ZSE, ZSE, ('inner', 'buf'), [c.args[0], mk('arr', ())]))


@model('zstd::stream::Encoder::finish', 'zstd::Encoder::finish', 'zstd::stream::write::Encoder::finish')
def m_zsfin(c):
    v = c.args[0]
    if v.op != 'adt':
        return NotImplemented
    return ok(finish(c, v, 'zs'))


@model('zstd::stream::decode_all', 'zstd::decode_all')
def m_zsall(c):
    r, v = final(c, c.args[0])
    t = app('zsall', v)
    put(c, r, (), app('r2', t), v)
    return res(b_var(app('r0', t)), app('r1', t, ty='std::vec::Vec<u8>'))


@model('zstd::stream::encode_all', 'zstd::encode_all')
def m_zsenca(c):
    r, v = final(c, c.args[0])
    t = app('rd', v, Int(1 << 62), B_('all'))
    put(c, r, (), app('r2', t), v)
    return ok(app('marker', B_('zs'), app('r1', t)))


def drop_stream(eng, st, fr, v):
    """dropping an unfinished zlib encoder finishes it"""
    if v.op == 'adt' and v.a[0] == ZE:
        c = interp.Call()
        c.eng, c.st, c.fn, c.path, c.frame, c.span, c.fnd = eng, st, None, 'drop', fr, '', None
        c.args, c.tys, c.bb, c.k, c.dty = [], [], 0, 0, ''
        finish(c, v, 'z')


# ------------------------------------------------------------------ meaning
def evaluate(w, n, a, t, fr):
    import rand
    from rand import O, Tup, UNDEF, num, Undecided, Q, Some
    ev = w.ev

    def cur(x):
        return isinstance(x, O) and x.var == 'Cursor'

    def mkcur(d, p):
        return O('Cursor', 'Cursor', {'inner': d, 'pos': p})

    def nm(x):
        return x.a[0]
    if n == 'cur':
        d = ev(a[0], fr)
        if cur(d) or not isinstance(d, tuple):
            raise Undecided('cursor over %s' % type(d).__name__)
        return mkcur(d, num(ev(a[1], fr)))
    if n in ('r0', 'r1', 'r2', 'r3'):
        x = ev(a[0], fr)
        return tuple.__getitem__(x, int(n[1])) if isinstance(x, Tup) else UNDEF
    if n == 'err':
        return Q('io error')
    if n == 'pos':
        x = ev(a[0], fr)
        if not cur(x):
            raise Undecided('position')
        return x.f['pos']
    if n == 'inner':
        x = ev(a[0], fr)
        if not cur(x):
            raise Undecided('inner')
        return x.f['inner']
    if n == 'seek':
        x = ev(a[0], fr)
        if not cur(x):
            raise Undecided('seek')
        return mkcur(x.f['inner'], num(ev(a[1], fr)))
    if n == 'rd':
        x, k, mode = ev(a[0], fr), num(ev(a[1], fr)), nm(a[2])
        if cur(x):
            d, p = x.f['inner'], x.f['pos']
        elif isinstance(x, tuple) and not isinstance(x, Tup):
            d, p = x, 0
        else:
            raise Undecided('read from %r' % (x,))
        p = min(p, len(d))
        got = d[p:p + k]
        okf = mode != 'exact' or len(got) == k
        np = p + len(got) if okf else len(d)
        return Tup((okf, got, mkcur(d, np) if cur(x) else d[np:], None))
    if n == 'zst':
        return Tup((nm(a[0]), None, 0, True, False))
    if n == 'zrd':
        kind, inner, st, k, mode = nm(a[0]), ev(a[1], fr), ev(a[2], fr), num(ev(a[3], fr)), nm(a[4])
        how, payload, off, intact, ended = tuple(st)
        if payload is None:
            if not cur(inner):
                raise Undecided('decompress from %r' % (inner,))
            d, p = inner.f['inner'], inner.f['pos']
            m = d[p] if p < len(d) else None
            if not isinstance(m, Tup) or m[0] != ('z' if kind == ZD else 'zs'):
                return Tup((False, (), st, inner))
            payload, intact = m[1], m[2]
            if how == 'read':
                inner = mkcur(d, len(d))       # the decoder's own buffer reads ahead
        got = payload[off:off + k]
        noff = off + len(got)
        more = len(got) < k or mode == 'all'
        okf = (not more or intact) and (mode != 'exact' or len(got) == k)
        # whether the trailer was consumed with the last data byte is up to the library
        edge = noff == len(payload) and intact and w.h('zend', len(payload), noff) % 2 == 0
        nend = ended or more and intact or edge
        if nend and not ended and how == 'bufread':
            inner = mkcur(inner.f['inner'], inner.f['pos'] + 1)
        return Tup((okf, got, Tup((how, payload, noff, intact, nend)), inner))
    if n == 'ztin':
        return 1 if ev(a[0], fr)[4] else 0
    if n == 'ztout':
        return ev(a[0], fr)[2]
    if n == 'zsall':
        x = ev(a[0], fr)
        if cur(x):
            d, p = x.f['inner'], x.f['pos']
        elif isinstance(x, tuple) and not isinstance(x, Tup):
            d, p = x, 0
        else:
            raise Undecided('decode_all')
        out, okf = (), True
        for m in d[p:]:
            if isinstance(m, Tup) and m[0] == 'zs':
                out += m[1]
                okf = okf and m[2]
            else:
                okf = False
        return Tup((okf, out, mkcur(d, len(d)) if cur(x) else (), None))
    if n == 'marker':
        x = ev(a[1], fr)
        if not isinstance(x, tuple):
            raise Undecided('compressed data')
        return (Tup((nm(a[0]), x, nm(a[0]) != 'broken')),)
    if n == 'wr':
        x, d = ev(a[0], fr), ev(a[1], fr)
        if not isinstance(d, tuple):
            raise Undecided('written data')
        if cur(x):
            b, p = x.f['inner'], x.f['pos']
            if p > len(b):
                b = b + (0,) * (p - len(b))
            return mkcur(b[:p] + d + b[p + len(d):], p + len(d))
        if isinstance(x, tuple) and not isinstance(x, Tup):
            return x + d
        raise Undecided('write to %r' % (x,))
    if n == 'over':
        x, d = ev(a[0], fr), ev(a[1], fr)
        return d + x[len(d):]
    if n == 'partial':
        k = num(ev(a[1], fr))
        return k if k < 2 else 1 + w.h('partial', nm(a[0]), k) % k
    if n == 'int':
        d, how = ev(a[0], fr), nm(a[1])
        if not isinstance(d, tuple):
            return UNDEF
        v = int.from_bytes(bytes(byte(x) for x in d), 'big' if how[:2] == 'be' else 'little', signed=how[2] == 'i')
        return v
    if n == 'bytes':
        v, o, k = num(ev(a[0], fr)), nm(a[1]), a[2].a[0]
        return tuple((v % (1 << 8 * k)).to_bytes(k, 'big' if o == 'be' else 'little'))
    if n == 'ints':
        d, o, k = ev(a[0], fr), nm(a[1]), a[2].a[0]
        d = bytes(byte(x) for x in d)
        return tuple(int.from_bytes(d[i:i + k], 'big' if o == 'be' else 'little') for i in range(0, len(d) - k + 1, k))
    if n == 'bytess':
        d, o, k = ev(a[0], fr), nm(a[1]), a[2].a[0]
        return tuple(b for x in d for b in (num(x) % (1 << 8 * k)).to_bytes(k, 'big' if o == 'be' else 'little'))
    raise Undecided('unmodelled io.' + n)


def byte(x):
    """a byte of a sequence; a byte of compressed data is some byte"""
    import rand
    if isinstance(x, rand.Tup):
        return 0x78 if x[0] == 'z' else 0x28
    return rand.num(x) & 255
