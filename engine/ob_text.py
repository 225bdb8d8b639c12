"""The text of numbers in reports."""
import re
import struct
import fnob
import ob_ui
import rand
from check import ob
from rand import Frame, Tup, Undecided

BIG = 'utils::fmt_big_num'
UNIT = {'': 1, 'k': 10 ** 3, 'M': 10 ** 6, 'B': 10 ** 9, 'T': 10 ** 12}


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def f32_of_int(n):
    """nearest single-precision number, ties to even"""
    if n < 1 << 24:
        return float(n)
    s = n.bit_length() - 24
    q, rest = n >> s, n & ((1 << s) - 1)
    half = 1 << (s - 1)
    if rest > half or rest == half and q & 1:
        q += 1
    return float(q << s)


class Float(float):
    """a single-precision number"""


class TextWorld(ob_ui.UiWorld):
    def _ev(self, op, a, t, fr):
        if op == 'flt':
            m = re.match(r'^(-?[\d.]+(?:E[+-]?\d+)?)(f32|f64)$', str(a[0]))
            if not m or m.group(2) != 'f32':
                raise Undecided('float %s' % a[0])
            return Float(f32(float(m.group(1))))
        return super()._ev(op, a, t, fr)

    def app(self, n, a, t, fr):
        ev = self.ev
        if n == 'cast_f32':
            x = ev(a[0], fr)
            if isinstance(x, float):
                return x
            if isinstance(x, int):
                return Float(f32_of_int(x))
            raise Undecided('cast')
        if n in ('fAdd', 'fSub', 'fMul', 'fDiv'):
            x, y = ev(a[0], fr), ev(a[1], fr)
            if not isinstance(x, Float) or not isinstance(y, Float) or n == 'fDiv' and not y:
                raise Undecided('float arithmetic')
            return Float(f32({'fAdd': x + y, 'fSub': x - y, 'fMul': x * y, 'fDiv': x / y if y else 0}[n]))
        b = n.split('::')[-1]
        if n.startswith(('std::f32::', 'core::f32::')) and b in ('round', 'floor', 'ceil', 'trunc'):
            x = ev(a[0], fr)
            if not isinstance(x, Float) or x < 0:
                raise Undecided('float')
            i = int(x)
            return Float(i + {'round': x - i >= .5, 'floor': 0, 'ceil': x > i, 'trunc': 0}[b])
        if n in ('disp', 'usz', 'fmtargs', 'format', 'to_string', 'cast_u64', 'cast_usize', 'cast_u32', 'into', 'from'):
            v = [ev(x, fr) if hasattr(x, 'op') else x for x in a]
            if n.startswith('cast_'):
                return int(v[0])
            if n in ('format', 'to_string'):
                return tuple(text(v[0]).encode('utf8'))
            return Tup((n,) + tuple(v))
        return super().app(n, a, t, fr)


def plain(v, prec=None):
    if isinstance(v, Tup) and len(v) == 2 and v[0] in ('disp', 'usz', 'format', 'to_string'):
        return plain(v[1], prec)
    if isinstance(v, float):
        if prec is None:
            if v != int(v):
                raise Undecided('a fraction of any length')
            return str(int(v))
        return '%.*f' % (prec, v)
    if isinstance(v, bool):
        raise Undecided('text')
    if isinstance(v, int):
        return str(v)
    if isinstance(v, tuple) and not isinstance(v, Tup):
        return bytes(v).decode('utf8')
    if isinstance(v, Tup) and v and v[0] == 'fmtargs':
        return text(v)
    raise Undecided('text of %r' % (v,))


def text(v):
    """the text of a formatted value, with the precision of its numbers"""
    if isinstance(v, Tup) and len(v) == 2 and v[0] in ('disp', 'format', 'to_string', 'fmtargs'):
        return text(v[1])
    if not (isinstance(v, Tup) and len(v) == 3 and v[0] == 'fmtargs'):
        return plain(v)
    b, args = bytes(v[1]), v[2]
    out, i, k = '', 0, 0
    while i < len(b) and b[i]:
        c = b[i]
        i += 1
        if c < 0x80:
            out += b[i:i + c].decode('utf8')
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            out += b[i + 2:i + 2 + n].decode('utf8')
            i += 2 + n
        else:
            prec = None
            if c & 1:
                if b[i:i + 4] not in (b'\x20\0\0\x70', b'\x20\0\0\x60'):
                    raise Undecided('format flags %r' % (b[i:i + 4],))
                if b[i + 3] & 0x10:         # a precision is given
                    prec = 0
                i += 4
            if c & 2 or c & 0x10:
                raise Undecided('width')
            if c & 4:
                prec = b[i] | b[i + 1] << 8
                i += 2
                if c & 0x20:
                    prec = args[prec]
                    prec = prec[1] if isinstance(prec, Tup) else prec
                if not isinstance(prec, int):
                    raise Undecided('precision')
            if c & 8:
                k = b[i] | b[i + 1] << 8
                i += 2
            out += plain(args[k], prec)
            k += 1
    return out


def numbers(r, foc):
    ns = list(range(0, 1010)) + [10 ** k + d for k in range(3, 16) for d in (-1, 0, 1)] + [2 ** k + d for k in range(10, 50) for d in (-1, 0, 1)]
    ns += [c + d for c in foc for d in (-1, 0, 1) if c + d >= 0]
    ns += [int(10 ** r.uniform(3, 15)) for _ in range(400)]
    return [n for n in ns if n < 1 << 50]


@ob('count.text', 'C08 C23', 'the text a report prints for a number: the exact decimal number below one thousand, and from there '
    'on a number with its unit that differs from the true one by less than 0.6 %',
    tech='evaluation of the value graph of the formatting function, with single-precision arithmetic')
def o_text(ctx, prop, res):
    import random
    try:
        fn = fnob.Fn(ctx, BIG)
        if len(fn.syms) != 1:
            raise Undecided('parameters of ' + BIG)
        where, done = fnob.where(fn), 0
        r = random.Random(ctx.seed)
        for n in numbers(r, [v for v in fn.pool().hot if isinstance(v, int)]):
            w = TextWorld((ctx.seed, 'text'), ctx.eng.types, fn.s.loops)
            w.root = Frame(None, frozenset(), {}, {})
            w.root.vals[fn.syms[0]] = n
            if any(not lp and w.g(g, w.root) for _, _, g, lp, _ in fn.stops):
                res.bad('text', 'formatting the number %d panics' % n, where)
                return
            v = w.ev(fn.ret, w.root)
            if not isinstance(v, tuple) or isinstance(v, Tup):
                raise Undecided('text of a number')
            s = bytes(v).decode('utf8')
            m = re.match(r'^(\d[\d,]*(?:\.\d+)?)([kMBT]?)$', s)
            if n < 1000:
                if s != str(n):
                    res.bad('text', 'the number %d is printed as "%s"' % (n, s), where)
                    return
            elif not m:
                raise Undecided('the text "%s" of %d' % (s, n))
            else:
                x = float(m.group(1).replace(',', '')) * UNIT[m.group(2)]
                if abs(x - n) > .006 * n:
                    res.bad('text', 'the number %d is printed as "%s"' % (n, s), where)
                    return
            done += 1
    except (Undecided, KeyError, TypeError, IndexError, ValueError, AttributeError, ZeroDivisionError) as e:
        res.unk('text', repr(e))
        return
    res.ok('text', '%d numbers' % done)
    res.count(functions=1)


KINDS = 'instance::LogType as Display::fmt'
WRITES = ('write_fmt', 'write_str', 'pad')


@ob('text.kinds', 'C04 C19', 'the kind of each message is printed as that kind: an error is never shown as a warning or as information',
    tech='evaluation of the value graph of the Display implementation for every variant')
def o_kinds(ctx, prop, res):
    try:
        fn = fnob.Fn(ctx, KINDS)
        var = [v[0] for v in ctx.eng.types['instance::LogType']['variants']]
        evs = [e for e in fn.s.events if e.kind == 'ext']
        if not evs or any(e.name.split('::')[-1] not in WRITES or e.loops for e in evs):
            raise Undecided('what is written')
        for v in var:
            w = TextWorld((ctx.seed, 'kind'), ctx.eng.types, fn.s.loops)
            w.root = Frame(None, frozenset(), {}, {})
            w.root.vals[fn.syms[0]] = rand.O('instance::LogType', v, {})
            out = ''
            for e in evs:
                if w.g(e.g, w.root):
                    out += text(w.ev(e.vals[-1], w.root))
            if any((v == u) is not (u.lower() in out.lower()) for u in ('Info', 'Warning', 'Error') if u in var):
                res.bad('kinds', 'a message of the kind %s is printed as "%s"' % (v, out), fnob.where(fn))
                return
    except (Undecided, KeyError, TypeError, IndexError, ValueError, AttributeError) as e:
        res.unk('kinds', repr(e))
        return
    res.ok('kinds', '%d kinds' % len(var))
    res.count(functions=1)
