"""Value-flow models of the library functions MapEditr calls."""
import re
import core
from core import *
import interp
from interp import norm, strip_ref, St, Call

MODELS = {}
PREFER_MODEL = set()


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ------------------------------------------------------------ helpers
def guarded(c, cond, fn):
    """run fn on the state restricted to cond; merge back; returns its value"""
    st = c.st
    eng = c.eng
    if cond == 0:
        return mk('undef')
    s1 = St(b_and(st.g, cond), dict(st.s))
    if s1.g == 0:
        return mk('undef')
    r = fn(s1)
    s2 = St(b_and(st.g, b_not(cond)), st.s)
    if r is None:
        st.g = s2.g
        return mk('undef')
    if cond == 1 or s2.g == 0:
        st.s = s1.s
        return r
    s1.g = b_and(st.g, cond)
    m = eng.merge([s1, s2])
    st.s = m.s
    return r


def optmap(x, f, none=None):
    return ite(is_ok(x), some(f), none if none is not None else NONE)


def kindof(c, x, ty=None):
    """make sure an opaque Option/Result term knows what it is"""
    if x.op not in ('adt', 'ite') and x not in core.KIND and ty:
        t = strip_ref(ty)
        if t.startswith('std::option::Option'):
            core.KIND[x] = 'Option'
        elif t.startswith('std::result::Result'):
            core.KIND[x] = 'Result'
        core.TYPE.setdefault(x, t)
    return x


def ov(c, i=0):
    """Option/Result argument, by value or through a reference"""
    a = c.args[i]
    x = c.eng.deref(c.st, a) if a.op == 'ref' and c.tys[i].startswith('&') else a
    return kindof(c, x, c.tys[i])


def clo(c, i, args, st=None, dty=''):
    return c.eng.call_value(c, st or c.st, c.args[i], args, dty)


def is_result(c, i=0):
    return strip_ref(c.tys[i]).startswith('std::result::Result')


def inner_ty(t):
    t = strip_ref(t)
    if '<' in t:
        return t[t.index('<') + 1:-1]
    return ''


# ------------------------------------------------------------ Option / Result
@model('std::option::Option::map', 'std::result::Result::map')
def m_map(c):
    x = ov(c)
    r = guarded(c, is_ok(x), lambda s: clo(c, 1, [payload(x)], s))
    if is_result(c):
        return ite(is_ok(x), ok(r), err(errpay(x)))
    return ite(is_ok(x), some(r), NONE)


@model('std::result::Result::map_err')
def m_map_err(c):
    x = ov(c)
    r = guarded(c, b_not(is_ok(x)), lambda s: clo(c, 1, [errpay(x)], s))
    return ite(is_ok(x), ok(payload(x)), err(r))


@model('std::option::Option::and_then', 'std::result::Result::and_then')
def m_and_then(c):
    x = ov(c)
    r = guarded(c, is_ok(x), lambda s: clo(c, 1, [payload(x)], s))
    r = kindof(c, r, c.dty) if r.op != 'undef' else r
    return ite(is_ok(x), r, err(errpay(x)) if is_result(c) else NONE)


@model('std::option::Option::filter')
def m_filter(c):
    x = ov(c)
    p = payload(x)

    def f(s):
        root = ('T', c.eng.tmpkey(c, 'flt'))
        s.s[root] = p
        return clo(c, 1, [mk('ref', root, ())], s)
    r = guarded(c, is_ok(x), f)
    return ite(b_and(is_ok(x), as_bool(r)), some(p), NONE)


@model('std::option::Option::is_some_and', 'std::result::Result::is_ok_and')
def m_is_some_and(c):
    x = ov(c)
    r = guarded(c, is_ok(x), lambda s: clo(c, 1, [payload(x)], s))
    return B(b_and(is_ok(x), as_bool(r)))


@model('std::option::Option::is_none_or')
def m_is_none_or(c):
    x = ov(c)
    r = guarded(c, is_ok(x), lambda s: clo(c, 1, [payload(x)], s))
    return B(b_or(b_not(is_ok(x)), as_bool(r)))


@model('std::option::Option::map_or', 'std::result::Result::map_or')
def m_map_or(c):
    x = ov(c)
    r = guarded(c, is_ok(x), lambda s: clo(c, 2, [payload(x)], s))
    return ite(is_ok(x), r, c.args[1])


@model('std::option::Option::map_or_else', 'std::result::Result::map_or_else')
def m_map_or_else(c):
    x = ov(c)
    r = guarded(c, is_ok(x), lambda s: clo(c, 2, [payload(x)], s))
    d = guarded(c, b_not(is_ok(x)), lambda s: clo(c, 1, [errpay(x)] if is_result(c) else [], s))
    return ite(is_ok(x), r, d)


@model('std::option::Option::unwrap_or', 'std::result::Result::unwrap_or')
def m_unwrap_or(c):
    x = ov(c)
    return ite(is_ok(x), payload(x), c.args[1])


@model('std::option::Option::unwrap_or_else', 'std::result::Result::unwrap_or_else')
def m_unwrap_or_else(c):
    x = ov(c)
    d = guarded(c, b_not(is_ok(x)), lambda s: clo(c, 1, [errpay(x)] if is_result(c) else [], s))
    return ite(is_ok(x), payload(x), d)


@model('std::option::Option::unwrap_or_default', 'std::result::Result::unwrap_or_default')
def m_unwrap_or_default(c):
    x = ov(c)
    return ite(is_ok(x), payload(x), default_of(c.dty))


def default_of(ty):
    if ty in core.INTT:
        return Int(0)
    if ty == 'bool':
        return BF
    if ty.startswith('std::vec::Vec') or ty.startswith('std::string::String') or ty.startswith('&'):
        return mk('arr', ())
    if 'BTreeMap<' in ty or 'HashMap<' in ty:
        return mk('mapnew')
    if ty.startswith('std::option::Option'):
        return NONE
    return mk('app', 'default', ty)


@model('std::option::Option::unwrap', 'std::option::Option::expect',
       'std::result::Result::unwrap', 'std::result::Result::expect')
def m_unwrap(c):
    x = ov(c)
    o = is_ok(x)
    e = c.event('unwrap', 'unwrap', vals=[c.eng.deep(c.st, x)], res=None)
    if o == 0:
        return None
    p = payload(x)
    t = interp_ty(c.dty)
    if p.op in interp.LEAF and t:
        core.TYPE.setdefault(p, t)
        kindof(c, p, t)
    return p


def interp_ty(t):
    return strip_ref(t) if t else t


@model('std::result::Result::unwrap_err')
def m_unwrap_err(c):
    return errpay(ov(c))


@model('std::option::Option::is_some', 'std::result::Result::is_ok')
def m_is_some(c):
    return B(is_ok(ov(c)))


@model('std::option::Option::is_none', 'std::result::Result::is_err')
def m_is_none(c):
    return B(b_not(is_ok(ov(c))))


@model('std::result::Result::ok')
def m_ok(c):
    x = ov(c)
    return ite(is_ok(x), some(payload(x)), NONE)


@model('std::result::Result::err')
def m_err(c):
    x = ov(c)
    return ite(is_ok(x), NONE, some(errpay(x)))


@model('std::option::Option::ok_or')
def m_ok_or(c):
    x = ov(c)
    return ite(is_ok(x), ok(payload(x)), err(c.args[1]))


@model('std::option::Option::ok_or_else')
def m_ok_or_else(c):
    x = ov(c)
    d = guarded(c, b_not(is_ok(x)), lambda s: clo(c, 1, [], s))
    return ite(is_ok(x), ok(payload(x)), err(d))


@model('std::option::Option::or')
def m_or(c):
    x = ov(c)
    return ite(is_ok(x), x, kindof(c, c.args[1], c.tys[1]))


@model('std::option::Option::or_else')
def m_or_else(c):
    x = ov(c)
    d = guarded(c, b_not(is_ok(x)), lambda s: clo(c, 1, [], s))
    return ite(is_ok(x), some(payload(x)), kindof(c, d, c.dty))


@model('std::option::Option::and')
def m_and(c):
    x = ov(c)
    return ite(is_ok(x), kindof(c, c.args[1], c.tys[1]), NONE)


@model('std::option::Option::flatten')
def m_flatten(c):
    x = ov(c)
    p = payload(x)
    kindof(c, p, c.dty)
    return ite(is_ok(x), p, NONE)


@model('std::option::Option::transpose', 'std::result::Result::transpose')
def m_transpose(c):
    x = ov(c)
    if is_result(c):      # Result<Option<T>> -> Option<Result<T>>
        p = payload(x)
        kindof(c, p, 'std::option::Option<')
        return ite(is_ok(x), ite(is_ok(p), some(ok(payload(p))), NONE), some(err(errpay(x))))
    p = payload(x)
    kindof(c, p, 'std::result::Result<')
    return ite(is_ok(x), ite(is_ok(p), ok(some(payload(p))), err(errpay(p))), ok(NONE))


def refs(c, x, a, mutable=False):
    """Option<T> place -> Option<&T>"""
    if a.op == 'ref':
        def one(t):
            return mk('ref', t.a[0], t.a[1] + (('vf', 'Some', '0'),))
        return ite(is_ok(x), some(one(a)), NONE)
    return ite(is_ok(x), some(payload(x)), NONE)


@model('std::option::Option::as_ref', 'std::option::Option::as_mut',
       'std::option::Option::as_deref', 'std::option::Option::as_deref_mut')
def m_as_ref(c):
    return refs(c, ov(c), c.args[0])


@model('std::result::Result::as_ref', 'std::result::Result::as_mut')
def m_ras_ref(c):
    x, a = ov(c), c.args[0]
    if a.op == 'ref':
        return ite(is_ok(x), ok(mk('ref', a.a[0], a.a[1] + (('vf', 'Ok', '0'),))),
                   err(mk('ref', a.a[0], a.a[1] + (('vf', 'Err', '0'),))))
    return x


@model('std::option::Option::cloned', 'std::option::Option::copied')
def m_cloned(c):
    x = ov(c)
    return ite(is_ok(x), some(c.eng.deref(c.st, payload(x))), NONE)


@model('std::option::Option::take')
def m_take(c):
    x = ov(c)
    c.event('mut', 'take', place=pl(c.args[0]), vals=[x])
    c.eng.write_ref(c.st, c.args[0], (), NONE)
    return x


@model('std::option::Option::replace', 'std::mem::replace', 'core::mem::replace')
def m_replace(c):
    x = c.val(0)
    new = c.args[1] if 'mem' in c.path else some(c.args[1])
    c.event('mut', 'replace', place=pl(c.args[0]), vals=[new])
    c.eng.write_ref(c.st, c.args[0], (), new)
    return x


@model('std::mem::take', 'core::mem::take')
def m_mtake(c):
    x = c.val(0)
    d = default_of(strip_ref(c.tys[0]))
    c.event('mut', 'take', place=pl(c.args[0]), vals=[d])
    c.eng.write_ref(c.st, c.args[0], (), d)
    return x


@model('std::mem::swap', 'core::mem::swap')
def m_swap(c):
    x, y = c.val(0), c.val(1)
    c.event('mut', 'swap', place=pl(c.args[0]), vals=[y])
    c.event('mut', 'swap', place=pl(c.args[1]), vals=[x])
    c.eng.write_ref(c.st, c.args[0], (), y)
    c.eng.write_ref(c.st, c.args[1], (), x)
    return UNIT


@model('std::option::Option::insert', 'std::option::Option::get_or_insert')
def m_oinsert(c):
    c.event('mut', 'set', place=pl(c.args[0]), vals=[some(c.args[1])])
    c.eng.write_ref(c.st, c.args[0], (), some(c.args[1]))
    return mk('ref', c.args[0].a[0], c.args[0].a[1] + (('vf', 'Some', '0'),)) if c.args[0].op == 'ref' else UNIT


def pl(t):
    return (t.a[0], t.a[1]) if t.op == 'ref' else None


# ------------------------------------------------------------ ? operator
@model('std::ops::Try::branch')
def m_branch(c):
    x = kindof(c, c.args[0], c.tys[0])
    return mk('branch', x)


@model('std::ops::FromResidual::from_residual')
def m_residual(c):
    r = c.args[0]
    if c.dty.startswith('std::option::Option'):
        return NONE

    def go(t):
        if t.op == 'residual':
            return errpay(t.a[0])
        if t.op == 'ite':
            return ite(t.a[0], go(t.a[1]), go(t.a[2]))
        return errpay(t)
    return err(converted(c, go(r)))


def second(ty):
    """error type of a Result type"""
    d = 0
    for i, x in enumerate(ty):
        d += x in '<([' and 1 or 0
        d -= x in ')]' or x == '>' and ty[i - 1] != '-'
        if x == ',' and d == 1:
            return ty[i + 1:-1].strip()
    return ''


def converted(c, e):
    """`?` converts the error by the From impl of the crate"""
    src, dst = second(strip_ref(c.tys[0])), second(c.dty)
    if src == dst or not dst:
        return e
    b = [b for b in c.eng.bodies.values() if b['name'] == '<%s as std::convert::From<%s>>::from' % (dst, src)]
    return c.eng.run_body(c.st, b[0], [e], ('from', c.eng.tmpkey(c, 'from'))) if b else e


@model('anyhow::Context::context', 'anyhow::Context::with_context')
def m_context(c):
    x = kindof(c, c.args[0], c.tys[0])
    return ite(is_ok(x), ok(payload(x)), err(mk('app', 'context', c.deep(1))))


# ------------------------------------------------------------ identity-like
@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'core::slice::to_vec',
       'std::slice::to_vec', 'std::slice::into_vec', 'core::slice::into_vec', 'std::string::ToString::to_string')
def m_clone(c):
    t = c.args[0]
    x = c.val(0)
    if x.op == 'ref' and not strip_ref2(c.tys[0]).startswith('&'):
        x = c.eng.deref(c.st, x)
    if 'to_string' in c.path and strip_ref(c.tys[0]) not in ('str', 'std::string::String'):
        return mk('app', 'to_string', c.deep(0))
    return x


def strip_ref2(t):
    t = t.strip()
    if t.startswith('&'):
        t = t[1:].lstrip()
        if t.startswith("'"):
            t = t.split(' ', 1)[1] if ' ' in t else t
        if t.startswith('mut '):
            t = t[4:]
    return t.strip()


@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref',
       'std::convert::AsMut::as_mut', 'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut',
       'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::string::String::as_str',
       'std::string::String::as_bytes', 'core::str::as_bytes', 'std::string::String::into_bytes',
       'std::convert::Into::into', 'std::boxed::Box::new', 'std::hint::must_use', 'std::sync::Arc::new',
       'std::sync::Mutex::new', 'std::cell::RefCell::new', 'std::vec::Vec::into_boxed_slice',
       'std::iter::Iterator::by_ref', 'std::string::String::from', 'std::iter::Iterator::copied',
       'std::iter::Iterator::cloned', 'std::iter::Iterator::fuse', 'std::iter::Iterator::peekable',
       'std::borrow::Cow::into_owned', 'std::num::NonZero::get',
       'std::option::Option::iter', 'core::str::as_str', 'std::path::Path::new',
       'core::slice::as_ref', 'std::vec::Vec::as_ref')
def m_ident(c):
    if c.path.endswith(('copied', 'cloned')):
        return mk('it', 'deref', as_iter(c, c.args[0], c.tys[0]))
    if c.path.endswith(('::deref', '::deref_mut')) and 'MutexGuard<' in c.tys[0] and c.args[0].op == 'ref':
        r, p = c.args[0].a
        v = c.eng.read(c.st, r, p)
        if v.op == 'ref':
            return v
    if c.path == 'std::convert::Into::into' and not is_simple_conv(c.tys[0], c.dty):
        return mk('app', 'into', c.dty, c.deep(0))
    return c.args[0]


def is_simple_conv(a, b):
    ints = core.INTT | {'bool', 'char'}
    return a == b or (a in ints and b in ints) or 'str' in a.lower() or 'Vec<' in a


@model('std::convert::From::from')
def m_from(c):
    if c.dty in core.INTT:
        if c.tys[0] == 'bool':
            return ite(as_bool(c.args[0]), Int(1), Int(0))
        return c.args[0]
    if c.dty.startswith(('std::string::String', 'std::vec::Vec', 'std::path::PathBuf')):
        return c.val(0)
    return mk('app', 'from', c.dty, c.deep(0))


@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def m_tryfrom(c):
    tgt = c.dty
    import re
    m = re.match(r'^std::result::Result<(\w+),', tgt)
    x = c.args[0]
    rng = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2 ** 32 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1),
           'i16': (-2 ** 15, 2 ** 15 - 1), 'usize': (0, 2 ** 64 - 1), 'u64': (0, 2 ** 64 - 1),
           'i64': (-2 ** 63, 2 ** 63 - 1)}
    if m and m.group(1) in rng:
        lo, hi = rng[m.group(1)]
        src = c.tys[0]
        cond = 1
        if src in ('usize', 'u64', 'u32', 'u16', 'u8'):
            cond = le(x, Int(hi))
        else:
            cond = b_and(le(Int(lo), x), le(x, Int(hi)))
        r = ite(cond, ok(x), err(mk('app', 'tryfromerr')))
        return r
    return NotImplemented


@model('std::default::Default::default')
def m_default(c):
    return default_of(c.dty)


# ------------------------------------------------------------ comparisons
@model('std::cmp::PartialEq::eq')
def m_eq(c):
    return B(eq(cmpv(c, 0), cmpv(c, 1)))


@model('std::cmp::PartialEq::ne')
def m_ne(c):
    return B(b_not(eq(cmpv(c, 0), cmpv(c, 1))))


def cmpv(c, i):
    x = c.deep(i)
    t = strip_ref(c.tys[i])
    kindof(c, x, t)
    if x.op in interp.LEAF:
        core.TYPE.setdefault(x, t)
    return x


def _cmp(f):
    def g(c):
        return B(f(cmpv(c, 0), cmpv(c, 1)))
    return g


def fl(c, op):
    return mk('fcmp', op, c.deep(0), c.deep(1))


@model('std::cmp::PartialOrd::lt')
def m_lt(c):
    if not isint(c):
        return B(b_var(fl(c, 'Lt')))
    return B(lt(cmpv(c, 0), cmpv(c, 1)))


@model('std::cmp::PartialOrd::le')
def m_le(c):
    if not isint(c):
        return B(b_var(fl(c, 'Le')))
    return B(le(cmpv(c, 0), cmpv(c, 1)))


@model('std::cmp::PartialOrd::gt')
def m_gt(c):
    if not isint(c):
        return B(b_var(fl(c, 'Gt')))
    return B(lt(cmpv(c, 1), cmpv(c, 0)))


@model('std::cmp::PartialOrd::ge')
def m_ge(c):
    if not isint(c):
        return B(b_var(fl(c, 'Ge')))
    return B(le(cmpv(c, 1), cmpv(c, 0)))


def isint(c):
    return strip_ref(c.tys[0]) in core.INTT


@model('std::cmp::min', 'std::cmp::Ord::min', 'core::num::min')
def m_min(c):
    return fn2('min', c.args[0], c.args[1])


@model('std::cmp::max', 'std::cmp::Ord::max')
def m_max(c):
    return fn2('max', c.args[0], c.args[1])


@model('std::cmp::Ord::clamp')
def m_clamp(c):
    return fn2('min', fn2('max', c.args[0], c.args[1]), c.args[2])


# ------------------------------------------------------------ integers
def dive(a, b):
    if a.op == 'int' and b.op == 'int' and b.a[0] > 0:
        return Int(a.a[0] // b.a[0])
    if b.op == 'int' and b.a[0] > 0:
        # pull exact multiples out
        k = b.a[0]
        cst, ts = as_lin(a)
        out = {t: v // k for t, v in ts.items() if v % k == 0}
        rest = {t: v for t, v in ts.items() if v % k != 0}
        q = cst // k
        if not rest:
            return lin(q, out)
        r = mk('dive', lin(cst - q * k, rest), b)
        return add(lin(q, out), r)
    return mk('dive', a, b)


def reme(a, b):
    if b.op == 'int' and b.a[0] > 0:
        return core.sub(a, scale(dive(a, b), b.a[0]))
    return mk('reme', a, b)


@model('core::num::div_euclid')
def m_dive(c):
    return ty(c, dive(c.args[0], c.args[1]))


@model('core::num::rem_euclid')
def m_reme(c):
    return ty(c, reme(c.args[0], c.args[1]))


def ty(c, t):
    if t.op not in ('int', 'lin', 'ite'):
        core.TYPE.setdefault(t, c.dty)
    return t


@model('core::num::abs', 'core::num::unsigned_abs')
def m_abs(c):
    x = c.args[0]
    return ite(le(Int(0), x), x, neg(x))


@model('core::num::pow')
def m_pow(c):
    x, n = c.args
    if n.op == 'int' and 0 <= n.a[0] <= 64:
        r = Int(1)
        for _ in range(n.a[0]):
            r = mul(r, x)
        return r
    return mk('app', 'pow', x, n)


@model('core::num::signum')
def m_signum(c):
    x = c.args[0]
    return ite(lt(Int(0), x), Int(1), ite(lt(x, Int(0)), Int(-1), Int(0)))


@model('core::num::wrapping_add')
def m_wadd(c):
    return wrapv(c, add(*c.args))


@model('core::num::wrapping_sub')
def m_wsub(c):
    return wrapv(c, core.sub(*c.args))


@model('core::num::wrapping_mul')
def m_wmul(c):
    return wrapv(c, mul(*c.args))


def wrapv(c, t):
    return t     # machine arithmetic is mathematical in this analysis (DESIGN: integers)


RNG = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2 ** 32 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1),
       'i16': (-2 ** 15, 2 ** 15 - 1), 'usize': (0, 2 ** 64 - 1), 'u64': (0, 2 ** 64 - 1),
       'i64': (-2 ** 63, 2 ** 63 - 1), 'i8': (-128, 127)}


def rngof(c):
    return RNG.get(strip_ref(c.tys[0]), (-2 ** 63, 2 ** 63 - 1))


def _checked(f):
    def g(c):
        r = f(*c.args)
        lo, hi = rngof(c)
        return ite(b_and(le(Int(lo), r), le(r, Int(hi))), some(r), NONE)
    return g


def _sat(f):
    def g(c):
        r = f(*c.args)
        lo, hi = rngof(c)
        return fn2('max', fn2('min', r, Int(hi)), Int(lo))
    return g


MODELS['core::num::checked_add'] = _checked(add)
MODELS['core::num::checked_sub'] = _checked(core.sub)
MODELS['core::num::checked_mul'] = _checked(mul)
MODELS['core::num::saturating_add'] = _sat(add)
MODELS['core::num::saturating_sub'] = _sat(core.sub)
MODELS['core::num::saturating_mul'] = _sat(mul)


# ------------------------------------------------------------ operators on references
def _opref(op):
    def g(c):
        t = strip_ref(c.tys[0])
        if t in core.INTT:
            return interp.arith(op, c.deep(0), c.deep(1), t)
        return NotImplemented
    return g


for _n in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
    MODELS['std::ops::%s::%s' % (_n, _n.lower())] = _opref(_n)
for _n, _m in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('BitAnd', 'bitand'), ('BitOr', 'bitor')):
    def _as(op):
        def g(c):
            t = strip_ref(c.tys[0])
            if t in core.INTT:
                v = interp.arith(op, c.val(0), c.deep(1), t)
                c.event('mut', 'set', place=pl(c.args[0]), vals=[v])
                c.eng.write_ref(c.st, c.args[0], (), v)
                return UNIT
            return NotImplemented
        return g
    MODELS['std::ops::%sAssign::%s_assign' % (_n, _m)] = _as(_n)
    MODELS['std::ops::%s::%s' % (_n, _m)] = _opref(_n)


# ------------------------------------------------------------ ranges
def rng(lo, hi):
    return mk('it', 'range', lo, hi)


@model('std::ops::RangeInclusive::new')
def m_rangeinc(c):
    return adt('RangeInclusive', 'RangeInclusive', ('start', 'end'), (c.args[0], c.args[1]))


@model('std::ops::RangeInclusive::contains', 'std::ops::Range::contains', 'std::ops::RangeFrom::contains',
       'std::ops::RangeTo::contains', 'std::ops::RangeToInclusive::contains', 'std::ops::RangeBounds::contains')
def m_rcontains(c):
    r, x = c.deep(0), c.deep(1)
    b = bounds(r, None)
    if b is None:
        return NotImplemented
    lo, hi = b
    return B(b_and(le(lo, x) if lo is not None else 1, lt(x, hi) if hi is not None else 1))


@model('std::ops::RangeInclusive::start', 'std::ops::RangeInclusive::end')
def m_rse(c):
    r = c.deep(0)
    return r.a[3][0 if c.path.endswith('start') else 1] if r.op == 'adt' else NotImplemented


def bounds(r, n):
    """(lo, hi) of a range value; hi exclusive"""
    if r.op == 'it' and r.a[0] == 'range':
        return r.a[1], r.a[2]
    if r.op == 'ite':
        x, y = bounds(r.a[1], n), bounds(r.a[2], n)
        if x and y and None not in x + y:
            return ite(r.a[0], x[0], y[0]), ite(r.a[0], x[1], y[1])
        return None
    if r.op != 'adt':
        return None
    k = r.a[0].split('::')[-1]
    v = r.a[3]
    if k == 'Range':
        return v[0], v[1]
    if k == 'RangeInclusive':
        return v[0], add(v[1], Int(1))
    if k == 'RangeFrom':
        return v[0], n
    if k == 'RangeTo':
        return Int(0), v[0]
    if k == 'RangeToInclusive':
        return Int(0), add(v[0], Int(1))
    if k == 'RangeFull':
        return Int(0), n
    return None


# ------------------------------------------------------------ vectors and slices
@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::string::String::new',
       'std::string::String::with_capacity', 'std::collections::VecDeque::new',
       'std::collections::VecDeque::with_capacity')
def m_vecnew(c):
    if 'with_capacity' in c.path:
        c.event('alloc', 'with_capacity', vals=[c.args[0]])
    return mk('arr', ())


@model('std::vec::from_elem')
def m_fromelem(c):
    c.event('alloc', 'from_elem', vals=[c.args[1]])
    return mk('repeat', c.args[0], c.args[1])


@model('core::slice::len', 'std::vec::Vec::len', 'std::string::String::len', 'core::str::len',
       'std::collections::VecDeque::len', 'std::iter::ExactSizeIterator::len')
def m_len(c):
    x = c.val(0)
    if x.op == 'ref':
        x = c.eng.deref(c.st, x)
    if x.op == 'it' or c.path.endswith('Iterator::len'):
        return NotImplemented
    return ln(x)


@model('std::collections::BTreeMap::len', 'std::collections::HashMap::len',
       'std::collections::BTreeSet::len', 'std::collections::HashSet::len')
def m_maplen(c):
    return maplen(c.val(0))


def maplen(m):
    if m.op == 'ite':
        return ite(m.a[0], maplen(m.a[1]), maplen(m.a[2]))
    if m.op == 'mapnew':
        return Int(0)
    if m.op == 'aset':
        return maplen(m.a[0])
    r = mk('len', m)
    return r


@model('core::slice::is_empty', 'std::vec::Vec::is_empty', 'std::string::String::is_empty', 'core::str::is_empty',
       'std::collections::VecDeque::is_empty')
def m_is_empty(c):
    x = c.val(0)
    return B(is_empty(x))


@model('std::collections::BTreeMap::is_empty', 'std::collections::HashMap::is_empty')
def m_map_is_empty(c):
    return B(eq(maplen(c.val(0)), Int(0)))


def setv(c, i, v, name, vals):
    c.event('mut', name, place=pl(c.args[i]), vals=vals)
    if not c.eng.write_ref(c.st, c.args[i], (), v):
        c.eng.unknown('write through opaque reference in ' + c.path)


@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back', 'std::string::String::push')
def m_push(c):
    v = c.val(0)
    setv(c, 0, push1(v, c.args[1]), 'push', [c.deep(1)])
    return UNIT


def push1(v, x):
    if v.op == 'arr':
        return mk('arr', v.a[0] + (x,))
    return mk('push', v, x)


@model('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def m_vremove(c):
    v, i = c.val(0), c.args[1]
    x = at(v, i)
    nm = 'vecrem' if c.path.endswith('::remove') else 'vecswaprem'
    c.event('index', 'remove', vals=[ln(v), i])
    setv(c, 0, mk(nm, v, i), 'remove', [i])
    return x


@model('std::collections::VecDeque::pop_front', 'std::collections::VecDeque::pop_back')
def m_pop(c):
    v = c.val(0)
    n = ln(v)
    e = eq(n, Int(0))
    front = c.path.endswith('front')
    i = Int(0) if front else core.sub(n, Int(1))
    x = at(v, i)
    if x.op in interp.LEAF:
        core.TYPE.setdefault(x, split_ty(c.dty))
    r = slice_of(v, Int(1), n) if front else slice_of(v, Int(0), core.sub(n, Int(1)))
    setv(c, 0, ite(e, v, r), 'pop', [i])
    return ite(e, NONE, some(x))


def split_ty(t):
    i = t.find('<')
    return t[i + 1:-1] if i >= 0 else t


@model('std::vec::Vec::clear', 'std::string::String::clear')
def m_vclear(c):
    setv(c, 0, mk('arr', ()), 'clear', [])
    return UNIT


@model('std::vec::Vec::shrink_to_fit', 'std::vec::Vec::reserve', 'std::vec::Vec::reserve_exact')
def m_nop(c):
    if 'reserve' in c.path:
        c.event('alloc', 'reserve', vals=[c.args[1]])
    return UNIT


@model('std::vec::Vec::truncate', 'std::string::String::truncate')
def m_truncate(c):
    v = c.val(0)
    setv(c, 0, slice_of(v, Int(0), fn2('min', c.args[1], ln(v))), 'truncate', [c.args[1]])
    return UNIT


@model('std::vec::Vec::resize')
def m_resize(c):
    v, n = c.val(0), c.args[1]
    c.event('alloc', 'resize', vals=[n])
    new = ite(le(n, ln(v)), slice_of(v, Int(0), n), cat(v, mk('repeat', c.deep(2), core.sub(n, ln(v)))))
    setv(c, 0, new, 'resize', [n])
    return UNIT


@model('std::vec::Vec::extend_from_slice', 'std::string::String::push_str')
def m_extend(c):
    v, x = c.val(0), c.deep(1)
    setv(c, 0, cat(v, x), 'extend', [x])
    return UNIT


def cat(v, x):
    if v.op == 'arr' and not v.a[0]:
        return x
    if x.op == 'arr':
        for e in x.a[0]:
            v = push1(v, e)
        return v
    return mk('cat', v, x)


@model('std::iter::Extend::extend')
def m_iextend(c):
    v = c.val(0)
    t = strip_ref(c.tys[0])
    if 'Map<' in t:
        return NotImplemented
    a = c.deep(1)
    if a.op == 'it':
        a = collect(c, as_iter(c, c.args[1], c.tys[1]))
    setv(c, 0, cat(v, a), 'extend', [a])
    return UNIT


@model('std::vec::Vec::append')
def m_append(c):
    v, x = c.val(0), c.val(1)
    setv(c, 0, cat(v, x), 'extend', [x])
    setv(c, 1, mk('arr', ()), 'clear', [])
    return UNIT


@model('core::slice::contains', 'std::collections::VecDeque::contains')
def m_contains(c):
    v, x = c.val(0), c.deep(1)
    return B(contains(c, v, x))


def contains(c, v, x):
    if v.op == 'ite':
        return b_ite(v.a[0], contains(c, v.a[1], x), contains(c, v.a[2], x))
    base, cond, el = seq_elem(c.eng, v)
    return exists(base, b_and(cond, eq(el, x)))


def seq_elem(eng, v):
    """(base, cond, element) for one generic element of a sequence value"""
    if v.op == 'comp':
        return v.a[0], v.a[1], v.a[2]
    base = mk('range', Int(0), ln(v))
    tok = eng.el_token(base)
    core.TYPE.setdefault(tok, 'usize')
    return base, 1, at(v, tok)


@model('core::slice::fill')
def m_fill(c):
    v = c.val(0)
    setv(c, 0, mk('repeat', c.args[1], ln(v)), 'fill', [c.args[1]])
    return UNIT


@model('core::slice::clone_from_slice', 'core::slice::copy_from_slice')
def m_cfs(c):
    v, x = c.val(0), c.deep(1)
    c.event('lencheck', 'copy', vals=[ln(v), ln(x)])
    a = c.args[0]
    c.event('mut', 'copy', place=pl(a), vals=[x])
    # element-wise copy in canonical form
    n = ln(v)
    base = mk('range', Int(0), n)
    if a.op == 'ref' and a.a[1] and a.a[1][-1][0] == 's':
        e = a.a[1][-1]
        base = mk('range', e[1], e[2])
        tok = c.eng.el_token(base)
        core.TYPE.setdefault(tok, 'usize')
        full = mk('ref', a.a[0], a.a[1][:-1])
        old = c.eng.deref(c.st, full)
        c.eng.write_ref(c.st, full, (), scatter(old, base, 1, tok, at(x, core.sub(tok, e[1]))))
        return UNIT
    c.eng.write_ref(c.st, a, (), x)
    return UNIT


@model('core::slice::copy_within')
def m_cw(c):
    return NotImplemented


@model('core::slice::swap')
def m_sswap(c):
    v, i, j = c.val(0), c.args[1], c.args[2]
    setv(c, 0, mk('aset', mk('aset', v, i, at(v, j)), j, at(v, i)), 'swap', [i, j])
    return UNIT


@model('core::slice::get', 'std::vec::Vec::get', 'core::slice::get_mut')
def m_sget(c):
    v, i = c.val(0), c.args[1]
    b = bounds(i, ln(v))
    a = c.args[0]
    if b is not None:
        cond = b_and(le(b[0], b[1]), le(b[1], ln(v)))
        r = mk('ref', a.a[0], a.a[1] + (('s', b[0], b[1]),)) if a.op == 'ref' else slice_of(v, b[0], b[1])
        return ite(cond, some(r), NONE)
    cond = lt(i, ln(v))
    return ite(cond, some(elref(a, v, i)), NONE)


def elref(a, v, i):
    if a.op == 'ref':
        return mk('ref', a.a[0], interp.addp(a.a[1], ('i', i)))
    if a.op == 'ite':
        return ite(a.a[0], elref(a.a[1], v, i), elref(a.a[2], v, i))
    return at(v, i)


@model('core::slice::first', 'core::slice::first_mut', 'std::vec::Vec::first')
def m_first(c):
    v = c.val(0)
    return ite(b_not(is_empty(v)), some(elref(c.args[0], v, Int(0))), NONE)


@model('core::slice::last', 'core::slice::last_mut')
def m_last(c):
    v = c.val(0)
    return ite(b_not(is_empty(v)), some(elref(c.args[0], v, core.sub(ln(v), Int(1)))), NONE)


@model('std::vec::Vec::pop')
def m_pop(c):
    v = c.val(0)
    n = core.sub(ln(v), Int(1))
    setv(c, 0, slice_of(v, Int(0), n), 'pop', [])
    return ite(b_not(is_empty(v)), some(at(v, n)), NONE)


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def m_index(c):
    a, i = c.args[0], c.args[1]
    t = strip_ref(c.tys[0])
    v = c.eng.deref(c.st, a)
    if 'BTreeMap<' in t[:40] or 'HashMap<' in t[:40]:
        k = c.deep(1)
        c.event('mapindex', 'index', vals=[v, k])
        return elref(a, v, k)
    b = bounds(i, ln(v))
    if b is not None:
        c.event('slice', 'slice', vals=[ln(v), b[0], b[1]])
        return sref(a, v, b[0], b[1])
    if i.op in ('adt',):
        return NotImplemented
    if c.tys[1] != 'usize':
        return NotImplemented
    c.event('index', 'index', vals=[ln(v), i])
    return elref(a, v, i)


def sref(a, v, lo, hi):
    if a.op == 'ref':
        pa = a.a[1]
        if pa and pa[-1][0] == 's':
            return mk('ref', a.a[0], pa[:-1] + (('s', add(pa[-1][1], lo), add(pa[-1][1], hi)),))
        if lo.op == 'int' and lo.a[0] == 0 and hi is ln(v):
            return a
        return mk('ref', a.a[0], pa + (('s', lo, hi),))
    if a.op == 'ite':
        return ite(a.a[0], sref(a.a[1], v, lo, hi), sref(a.a[2], v, lo, hi))
    return slice_of(v, lo, hi)


@model('std::slice::from_ref', 'core::slice::from_ref')
def m_from_ref(c):
    return mk('arr', (c.deep(0),))


@model('core::slice::starts_with', 'core::slice::ends_with', 'core::str::starts_with', 'core::str::ends_with')
def m_starts(c):
    return B(b_var(mk('app', c.path.split('::')[-1], c.deep(0), c.deep(1))))


@model('core::slice::sort_unstable_by_key', 'std::slice::sort_by_key', 'core::slice::sort_by_key',
       'std::slice::sort_by_cached_key', 'core::slice::sort_unstable_by_key')
def m_sortkey(c):
    v = c.val(0)
    tok = mk('sym', 'sort.elem')
    core.TYPE.setdefault(tok, 'i64')
    root = ('T', c.eng.tmpkey(c, 'sort'))
    c.st.s[root] = tok
    k = c.eng.call_value(c, c.st, c.args[1], [mk('ref', root, ())], '')
    k = c.eng.deep(c.st, k)
    setv(c, 0, mk('sorted', v, tok, k), 'sort', [k])
    return UNIT


@model('core::slice::sort', 'std::slice::sort', 'core::slice::sort_unstable')
def m_sort(c):
    v = c.val(0)
    tok = mk('sym', 'sort.elem')
    setv(c, 0, mk('sorted', v, tok, tok), 'sort', [tok])
    return UNIT


@model('core::slice::sort_unstable_by', 'std::slice::sort_by', 'core::slice::sort_by')
def m_sortby(c):
    v = c.val(0)
    x, y = mk('sym', 'sort.elem'), mk('sym', 'sort.elem2')
    core.TYPE.setdefault(x, 'i64')
    core.TYPE.setdefault(y, 'i64')
    r1, r2 = ('T', c.eng.tmpkey(c, 'sort1')), ('T', c.eng.tmpkey(c, 'sort2'))
    c.st.s[r1], c.st.s[r2] = x, y
    k = c.eng.call_value(c, c.st, c.args[1], [mk('ref', r1, ()), mk('ref', r2, ())], '')
    k = c.eng.deep(c.st, k)
    setv(c, 0, mk('sortedby', v, x, y, k), 'sort', [k])
    return UNIT


@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def m_cmp(c):
    if not isint(c):
        return NotImplemented
    a, b = c.deep(0), c.deep(1)
    r = ite(lt(a, b), adt('Ordering', 'Less', (), ()),
            ite(eq(a, b), adt('Ordering', 'Equal', (), ()), adt('Ordering', 'Greater', (), ())))
    return some(r) if 'partial' in c.path else r


@model('std::vec::Vec::dedup')
def m_dedup(c):
    setv(c, 0, mk('deduped', c.val(0)), 'dedup', [])
    return UNIT


@model('core::slice::reverse')
def m_reverse(c):
    setv(c, 0, mk('reversed', c.val(0)), 'reverse', [])
    return UNIT


@model('std::vec::Vec::retain', 'std::vec::Vec::retain_mut')
def m_retain(c):
    v = c.val(0)
    a = c.args[0]
    base = mk('range', Int(0), ln(v))
    it = mk('it', 'slice', a, v)

    def body(s, el):
        return c.eng.call_value(c, s, c.args[1], [el], 'bool')
    b, cond, r = c.eng.each(c, it, body)
    keep = as_bool(r)
    tok = mk('el', b, tokdepth(c.eng, b))
    new = mk('comp', b, b_and(cond, keep), at(c.val(0), tok))
    setv(c, 0, new, 'retain', [B(keep)])
    return UNIT


def tokdepth(eng, base):
    return sum(list(comps(l.base)).count(base) for l in eng.loops if l.base is not None)


@model('std::boxed::Box::new_uninit')
def m_uninit(c):
    root = ('T', c.eng.tmpkey(c, 'box'))
    c.st.s[root] = mk('sym', 'uninit')
    return mk('ref', root, ())


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(c):
    v = c.val(0)
    for _ in range(3):
        if v.op == 'rec':
            v = v.a[1][0][1]
    return v


@model('std::vec::Vec::set_len')
def m_set_len(c):
    v = c.val(0)
    r = mk('uninitvec', c.args[1])
    setv(c, 0, r, 'set_len', [c.args[1]])
    return UNIT


# ------------------------------------------------------------ maps
@model('std::collections::BTreeMap::new', 'std::collections::HashMap::new', 'std::collections::HashSet::new',
       'std::collections::BTreeSet::new')
def m_mapnew(c):
    return mk('mapnew')


@model('std::collections::HashMap::with_capacity')
def m_mapcap(c):
    c.event('alloc', 'with_capacity', vals=[c.args[0]])
    return mk('mapnew')


@model('std::collections::BTreeMap::insert', 'std::collections::HashMap::insert')
def m_minsert(c):
    m, k = c.val(0), c.deep(1)
    old = ite(has(m, k), some(at(m, k)), NONE)
    setv(c, 0, mk('mapset', m, k, c.args[2]), 'insert', [k, c.deep(2)])
    return old


@model('std::collections::BTreeMap::remove', 'std::collections::HashMap::remove')
def m_mremove(c):
    m, k = c.val(0), c.deep(1)
    old = ite(has(m, k), some(at(m, k)), NONE)
    setv(c, 0, mk('mapdel', m, k), 'remove', [k])
    return old


@model('std::collections::BTreeMap::clear', 'std::collections::HashMap::clear')
def m_mclear(c):
    setv(c, 0, mk('mapnew'), 'clear', [])
    return UNIT


@model('std::collections::BTreeMap::contains_key', 'std::collections::HashMap::contains_key')
def m_mhas(c):
    return B(has(c.val(0), c.deep(1)))


@model('std::collections::BTreeMap::get', 'std::collections::HashMap::get',
       'std::collections::BTreeMap::get_mut', 'std::collections::HashMap::get_mut')
def m_mget(c):
    m, k = c.val(0), c.deep(1)
    return ite(has(m, k), some(elref(c.args[0], m, k)), NONE)


ENTRY = {k: 'std::collections::%s_map::' % k for k in ('hash', 'btree')}
core.ENUMS[ENTRY['hash'] + 'Entry'] = core.VARIANTS[ENTRY['hash'] + 'Entry'] = ('Occupied', 'Vacant')
core.ENUMS[ENTRY['btree'] + 'Entry'] = core.VARIANTS[ENTRY['btree'] + 'Entry'] = ('Vacant', 'Occupied')


def entries(t):
    return [ENTRY[k] + '%sEntry::%s' % (v, f) for k in ENTRY for v, f in (x.split('.') for x in t.split())]


@model('std::collections::HashMap::entry', 'std::collections::BTreeMap::entry')
def m_entry(c):
    m, k = c.val(0), c.deep(1)
    ty = ENTRY['btree' if 'BTree' in c.path else 'hash'] + 'Entry'
    e = mk('mapentry', c.args[0], k)
    return ite(has(m, k), adt(ty, 'Occupied', ('0',), (e,)), adt(ty, 'Vacant', ('0',), (e,)))


def entry_of(c):
    """(map reference, map, key) behind an entry; None: not from an entry() the analysis saw"""
    found, todo = set(), [c.eng.deref(c.st, c.args[0])]
    while todo:
        x = todo.pop()
        if x.op == 'ite':
            todo += [x.a[1], x.a[2]]
        elif x.op == 'adt' and len(x.a[3]) == 1:
            todo.append(x.a[3][0])
        elif x.op == 'ref':
            todo.append(c.eng.deref(c.st, x))
        else:
            found.add(x)
    if len(found) != 1 or next(iter(found)).op != 'mapentry':
        return None
    ref, k = found.pop().a
    return ref, c.eng.deref(c.st, ref), k


def entry_put(c, ref, m):
    c.event('mut', 'insert', place=pl(ref), vals=[])
    if not c.eng.write_ref(c.st, ref, (), m):
        c.eng.unknown('write through opaque reference in ' + c.path)


def or_insert(c, val):
    e = entry_of(c)
    if e is None:
        return NotImplemented
    ref, m, k = e
    h = has(m, k)
    v = guarded(c, b_not(h), val)
    m = c.eng.deref(c.st, ref)
    entry_put(c, ref, ite(h, m, mk('mapset', m, k, v)))
    return elref(ref, m, k)


@model(*entries('.or_insert'))
def m_or_insert(c):
    return or_insert(c, lambda s: c.args[1])


@model(*entries('.or_insert_with'))
def m_or_insert_with(c):
    return or_insert(c, lambda s: clo(c, 1, [], s))


@model(*entries('.or_default'))
def m_or_default(c):
    return or_insert(c, lambda s: default_of(strip_ref(c.dty)))


@model(*entries('.and_modify'))
def m_and_modify(c):
    e = entry_of(c)
    if e is None:
        return NotImplemented
    ref, m, k = e
    guarded(c, has(m, k), lambda s: clo(c, 1, [elref(ref, m, k)], s))
    return c.args[0]


@model(*entries('Occupied.get Occupied.get_mut Occupied.into_mut'))
def m_occ_get(c):
    e = entry_of(c)
    return NotImplemented if e is None else elref(*e)


@model(*entries('Occupied.remove'))
def m_occ_remove(c):
    e = entry_of(c)
    if e is None:
        return NotImplemented
    entry_put(c, e[0], mk('mapdel', e[1], e[2]))
    return at(e[1], e[2])


@model(*entries('Occupied.insert Vacant.insert'))
def m_ent_insert(c):
    e = entry_of(c)
    if e is None:
        return NotImplemented
    m = mk('mapset', e[1], e[2], c.args[1])
    entry_put(c, e[0], m)
    return elref(e[0], m, e[2]) if 'Vacant' in c.path else at(e[1], e[2])


@model(*entries('.key Occupied.key Vacant.key'))
def m_ent_key(c):
    e = entry_of(c)
    return NotImplemented if e is None else e[2]


@model('std::collections::BTreeMap::retain', 'std::collections::HashMap::retain')
def m_mretain(c):
    m = c.val(0)
    it = mk('it', 'map', c.args[0], m, 'kv')

    def body(s, el):
        return c.eng.call_value(c, s, c.args[1], [proj(el, ('f', '0')), proj(el, ('f', '1'))], 'bool')
    b, cond, r = c.eng.each(c, it, body)
    tok = mk('el', b, tokdepth(c.eng, b))
    new = mk('mapcomp', m, as_bool(r), at(c.val(0), tok))
    setv(c, 0, mapcomp(m, b, as_bool(r), at(c.val(0), tok)), 'retain', [r])
    return UNIT


@model('std::collections::BTreeMap::split_off')
def m_msplit(c):
    m, k = c.val(0), c.deep(1)
    b = mk('keys', m)
    tok = mk('el', b, tokdepth(c.eng, b))
    core.TYPE.setdefault(tok, 'key')
    hi = mapcomp(m, b, le(k, tok), at(m, tok))
    setv(c, 0, mapcomp(m, b, lt(tok, k), at(m, tok)), 'split_off', [k])
    return hi


@model('std::iter::once')
def m_once(c):
    x = some(c.args[0])
    return mk('it', 'opt', x, x)


@model('std::iter::empty')
def m_empty_it(c):
    return mk('it', 'opt', NONE, NONE)


@model('std::collections::BTreeMap::last_key_value', 'std::collections::BTreeMap::first_key_value')
def m_lastkv(c):
    m = c.val(0)
    k = mk('app', 'maxkey' if 'last' in c.path else 'minkey', m)
    return ite(b_not(eq(maplen(m), Int(0))), some(mk('tup', (k, elref(c.args[0], m, k)))), NONE)


@model('std::collections::BTreeMap::values_mut', 'std::collections::BTreeMap::values',
       'std::collections::HashMap::values', 'std::collections::HashMap::values_mut',
       'std::collections::BTreeMap::keys', 'std::collections::HashMap::keys',
       'std::collections::BTreeMap::into_values', 'std::collections::BTreeMap::into_keys',
       'std::collections::BTreeMap::iter', 'std::collections::BTreeMap::iter_mut',
       'std::collections::HashMap::iter', 'std::collections::HashMap::iter_mut')
def m_mapiter(c):
    mode = 'k' if 'keys' in c.path else 'v' if 'values' in c.path else 'kv'
    return mk('it', 'map', c.args[0], c.val(0), mode)


# ------------------------------------------------------------ iterators
def as_iter(c, t, ty):
    if t.op == 'it':
        return t
    b = strip_ref(ty or '')
    if t.op == 'adt' and t.a[0].split('::')[-1] in ('Range', 'RangeInclusive'):
        lo, hi = bounds(t, None)
        return rng(lo, hi)
    if t.op == 'adt' and t.a[0].split('::')[-1] == 'RangeFrom':
        return rng(t.a[3][0], mk('sym', 'infinity'))
    v = c.eng.deref(c.st, t)
    if v.op == 'it':
        return v
    if v.op == 'ite' and v.a[1].op == 'it' and v.a[2].op == 'it':
        return mk('it', 'ite', v.a[0], v.a[1], v.a[2])
    if v.op == 'adt' and v.a[0].split('::')[-1] in ('Range', 'RangeInclusive'):
        lo, hi = bounds(v, None)
        return rng(lo, hi)
    if b.startswith(('std::collections::BTreeMap<', 'std::collections::HashMap<')):
        return mk('it', 'map', t, v, 'kv')
    if b.startswith(('std::vec::Vec<', '[', 'std::collections::VecDeque<', 'std::slice::Iter', 'std::boxed::Box<[')):
        return mk('it', 'slice', t, v)
    if b.startswith('std::option::Option<'):
        return mk('it', 'opt', t, v)
    return mk('it', 'opaque', v)


@model('std::iter::IntoIterator::into_iter')
def m_into_iter(c):
    return as_iter(c, c.args[0], c.tys[0])


@model('core::slice::iter', 'core::slice::iter_mut', 'std::vec::Vec::iter', 'std::collections::VecDeque::iter',
       'std::vec::Vec::drain')
def m_iter(c):
    v = c.val(0)
    if c.path.endswith('drain'):
        b = bounds(c.args[1], ln(v))
        setv(c, 0, mk('arr', ()), 'clear', [])
        return mk('it', 'slice', v, v)
    return mk('it', 'slice', c.args[0], v)


@model('std::option::Option::iter_mut', 'std::option::Option::into_iter')
def m_oiter(c):
    return mk('it', 'opt', c.args[0], c.val(0))


def _adapt(kind, n=1):
    def g(c):
        it = as_iter(c, c.args[0], c.tys[0])
        return mk('it', kind, it, *c.args[1:1 + n])
    return g


for _k in ('map', 'filter', 'filter_map', 'skip', 'take', 'inspect', 'step_by', 'flat_map'):
    MODELS['std::iter::Iterator::' + _k] = _adapt('mapf' if _k == 'map' else _k)


@model('std::iter::Iterator::take_while', 'std::iter::Iterator::skip_while', 'std::iter::Iterator::map_while')
def m_while_it(c):
    """the elements with what the predicate says about each, cut at the first that differs"""
    it = as_iter(c, c.args[0], c.tys[0])
    kind = c.path.split('::')[-1]
    if c.eng.it_mut(c, it):
        return NotImplemented
    n = len(c.eng.events)

    def body(s, el):
        root = ('T', c.eng.tmpkey(c, kind))
        s.s[root] = el
        arg = el if kind == 'map_while' else mk('ref', root, ())
        r = c.eng.call_value(c, s, c.args[1], [arg], '' if kind == 'map_while' else 'bool')
        if kind == 'map_while':
            return mk('tup', (B(is_ok(r)), c.eng.deep(s, payload(r))))
        return mk('tup', (B(as_bool(r)), c.eng.deep(s, el)))
    b, g, r = c.eng.each(c, it, body)
    if any(e.kind not in PURE for e in c.eng.events[n:]):
        c.eng.unknown('%s with effects' % kind)
    v = mk('comp', b, g, r)
    if it_base(c.eng, c.st, it)[1] == 'rev':
        v = mk('reversed', v)
    v = mk('app', kind, v)
    core.TYPE.setdefault(v, 'std::vec::Vec<?>')
    return mk('it', 'slice', v, v)


def m_flat_map(c):
    it = as_iter(c, c.args[0], c.tys[0])
    b, g, r = c.eng.each(c, it, lambda s, el: (lambda v: v if v.op == 'it' else c.eng.deep(s, v))(
        c.eng.call_value(c, s, c.args[1], [el], '')))
    if r.op == 'it':
        return mk('it', 'flat_map', it, c.args[1])
    v = mk('app', 'flat', mk('comp', b, g, r))
    core.TYPE.setdefault(v, 'std::vec::Vec<?>')
    return mk('it', 'slice', v, v)


MODELS['std::iter::Iterator::flat_map'] = m_flat_map
MODELS['std::iter::Iterator::enumerate'] = _adapt('enum', 0)
MODELS['std::iter::Iterator::rev'] = _adapt('rev', 0)
MODELS['std::iter::Iterator::flatten'] = _adapt('flatten', 0)


@model('std::iter::Iterator::zip', 'std::iter::zip')
def m_zip(c):
    return mk('it', 'zip', as_iter(c, c.args[0], c.tys[0]), as_iter(c, c.args[1], c.tys[1]))


@model('std::iter::Iterator::chain')
def m_chain(c):
    return mk('it', 'chain', as_iter(c, c.args[0], c.tys[0]), as_iter(c, c.args[1], c.tys[1]))


@model('core::str::chars', 'core::str::bytes')
def m_chars(c):
    v = c.deep(0)
    return mk('it', 'chars' if 'chars' in c.path else 'slice', v, v)


def pattern(c, i):
    """(suffix, value) of a string pattern argument, or None when it is a closure"""
    if i >= len(c.args):
        return ()
    v = c.args[i]
    if v.op == 'ref':
        v = c.eng.deref(c.st, v)
    if v.op == 'fnc':
        return (mk('bytes', tuple(('@' + v.a[0].split('::')[-1]).encode())),) if v.a[0].startswith('std::char::') else None
    if v.op == 'clo':
        return None
    return (c.deep(i),)


PURESTR = ('find', 'rfind', 'contains', 'split_once', 'rsplit_once', 'trim', 'trim_start', 'trim_end', 'trim_matches',
           'trim_start_matches', 'trim_end_matches', 'to_ascii_lowercase', 'to_ascii_uppercase', 'to_lowercase',
           'to_uppercase', 'eq_ignore_ascii_case', 'strip_prefix', 'strip_suffix', 'is_ascii')
SPLITS = ('split', 'rsplit', 'splitn', 'rsplitn', 'split_terminator', 'split_whitespace', 'lines', 'char_indices',
          'matches', 'split_inclusive', 'split_ascii_whitespace')


def _pure(base, it):
    def g(c):
        xs = [c.deep(0)]
        j = 1
        if base in ('splitn', 'rsplitn'):
            xs.append(c.args[1])
            j = 2
        if base == 'eq_ignore_ascii_case':
            xs.append(c.deep(1))
        else:
            p = pattern(c, j)
            if p is None:
                return NotImplemented
            xs += p
        set_ = '.set' if len(c.tys) > j and re.match(r'^&?\[', c.tys[j]) else ''
        r = mk('app', 'str.' + base + set_, *xs)
        if it:
            core.TYPE.setdefault(r, 'std::vec::Vec<(usize, char)>' if base == 'char_indices' else 'std::vec::Vec<&str>')
            return mk('it', 'slice', r, r)
        if c.dty == 'bool':
            return B(b_var(r))
        core.TYPE.setdefault(r, c.dty)
        if c.dty.startswith('std::option::Option'):
            core.KIND.setdefault(r, 'Option')
        return r
    return g


for _k in PURESTR:
    MODELS['core::str::' + _k] = _pure(_k, False)
    MODELS['std::str::' + _k] = MODELS['core::str::' + _k]
for _k in SPLITS:
    MODELS['core::str::' + _k] = _pure(_k, True)
for _k in ('is_alphanumeric', 'is_alphabetic', 'is_numeric', 'is_digit', 'is_whitespace', 'is_lowercase', 'is_uppercase',
           'is_control', 'is_ascii', 'is_ascii_lowercase', 'is_ascii_uppercase', 'is_ascii_digit', 'is_ascii_alphanumeric',
           'is_ascii_alphabetic', 'is_ascii_punctuation', 'is_ascii_graphic', 'is_ascii_whitespace', 'is_ascii_hexdigit',
           'is_ascii_control'):
    def _ch(c, _k=_k):
        return B(b_var(mk('app', 'chr.' + _k, *[c.deep(i) for i in range(len(c.args))])))
    MODELS['std::char::methods::' + _k] = MODELS['core::char::methods::' + _k] = _ch
    if 'ascii' in _k:
        MODELS['core::num::' + _k] = MODELS['std::num::' + _k] = _ch
for _k in ('to_ascii_lowercase', 'to_ascii_uppercase'):
    def _ca(c, _k=_k):
        return mk('app', 'chr.' + _k, c.deep(0))
    MODELS['std::char::methods::' + _k] = MODELS['core::char::methods::' + _k] = MODELS['core::num::' + _k] = _ca


@model('core::slice::chunks_exact', 'core::slice::chunks', 'core::slice::chunks_exact_mut',
       'core::slice::chunks_mut')
def m_chunks(c):
    return mk('it', 'opaque', mk('app', 'chunks', c.deep(0), c.args[1]))


@model('core::slice::split', 'core::slice::splitn', 'core::slice::split_mut')
def m_split(c):
    n = c.args[1] if 'splitn' in c.path else Int(-1)
    f = c.args[-1]
    x = mk('sym', 'split.elem')
    core.TYPE.setdefault(x, 'u8')
    root = ('T', c.eng.tmpkey(c, 'split'))
    c.st.s[root] = x
    p = c.eng.call_value(c, c.st, f, [mk('ref', root, ())], 'bool')
    return mk('it', 'split', c.deep(0), B(as_bool(p)), n)


def comps(base):
    if base.op == 'prod':
        return base.a[0]
    return (base,)


def tokens(eng, base):
    """symbolic element tokens of the components of a base"""
    outer = [b for l in eng.loops if l.base is not None for b in comps(l.base)]
    r = []
    cs = comps(base)
    for i, b in enumerate(cs):
        t = mk('el', b, outer.count(b) + cs[:i].count(b))
        core.TYPE.setdefault(t, 'i64' if b.op in ('range', 'inv') else '')
        r.append(t)
    return r


def it_base(eng, st, it):
    k = it.a[0]
    if k == 'range':
        return mk('range', it.a[1], it.a[2]), 'fwd'
    if k == 'slice':
        v = eng.deref(st, it.a[2])
        if v.op == 'comp' and it.a[1].op != 'ref':
            return v.a[0], 'fwd'
        if v.op == 'comp':
            return v.a[0], 'fwd'
        if v.op == 'sorted':
            return mk('range', Int(0), ln(v)), 'fwd'
        if v.op == 'reversed':
            b, o = it_base(eng, st, mk('it', 'slice', v.a[0], v.a[0]))
            return b, 'rev' if o == 'fwd' else 'fwd'
        lo = Int(0)
        hi = ln(v)
        if it.a[1].op == 'ref' and it.a[1].a[1] and it.a[1].a[1][-1][0] == 's':
            e = it.a[1].a[1][-1]
            return mk('range', e[1], e[2]), 'fwd'
        return mk('range', lo, hi), 'fwd'
    if k == 'map':
        return mk('keys', it.a[2]), 'fwd'
    if k == 'opt':
        return mk('optbase', it.a[2]), 'fwd'
    if k == 'box':
        a = it.a[1]
        mn, mx = proj(a, ('f', 'min')), proj(a, ('f', 'max'))
        cs = []
        for ax in 'zyx':
            cs.append(mk('range', proj(mn, ('f', ax)), add(proj(mx, ('f', ax)), Int(1))))
        return prodbase(cs), 'fwd'
    if k == 'inv':
        return mk('inv', it.a[1]), 'fwd'
    if k == 'rows':
        return mk('rows', it.a[1]), 'fwd'
    if k in ('mapf', 'filter', 'filter_map', 'enum', 'inspect', 'deref'):
        return it_base(eng, st, it.a[1])
    if k == 'rev':
        b, o = it_base(eng, st, it.a[1])
        return b, 'rev' if o == 'fwd' else 'fwd'
    if k in ('skip', 'take'):
        b, o = it_base(eng, st, it.a[1])
        if b.op == 'range' and o == 'fwd' and filterless(it.a[1]):
            lo, hi = b.a
            n = it.a[2]
            if k == 'skip':
                return mk('range', fn2('min', add(lo, n), hi) if n.op != 'int' else add(lo, n), hi), o
            return mk('range', lo, fn2('min', add(lo, n), hi)), o
    if k == 'chars':
        return mk('chars', it.a[1]), 'fwd'
    if k == 'zip':
        b1, o1 = it_base(eng, st, it.a[1])
        b2, o2 = it_base(eng, st, it.a[2])
        if b1.op == 'range' and b2.op == 'range' and o1 == o2 == 'fwd' and filterless(it.a[1]) \
                and filterless(it.a[2]):
            n1, n2 = core.sub(b1.a[1], b1.a[0]), core.sub(b2.a[1], b2.a[0])
            n = n1 if n1 is n2 else n2 if b1.a[1] is mk('sym', 'infinity') else n1 \
                if b2.a[1] is mk('sym', 'infinity') else n1 if same_len(n1, n2) else fn2('min', n1, n2)
            return mk('range', b1.a[0], add(b1.a[0], n)), 'fwd'
    if k in ('split', 'adv'):
        return mk('items', it), 'fwd'
    if k == 'flat_map' or k == 'flatten':
        if k == 'flatten' and it.a[1].a[0] == 'opt':
            x = it.a[1].a[2]
            return mk('items', ite(is_ok(x), payload(x), mk('arr', ()))), 'fwd'
    return mk('items', it), 'fwd'


def same_len(a, b):
    """lengths the decoder fixes to the same constant"""
    def fixed(t):
        return t.op == 'len' and t.a[0].op == 'fld' and t.a[0].a[1] in ('nodes', 'param1', 'param2') \
            or t.op == 'int' and t.a[0] == 4096
    return fixed(a) and fixed(b)


def filterless(it):
    k = it.a[0]
    if k in ('filter', 'filter_map'):
        return False
    if k in ('mapf', 'enum', 'rev', 'inspect', 'deref'):
        return filterless(it.a[1])
    return True


def it_elem(eng, st, it, base):
    return elem_at(eng, st, it, base, tokens(eng, base))


def elem_at(eng, st, it, base, toks):
    """(element, condition) of the iteration identified by the tokens"""
    k = it.a[0]
    tok = toks[0]
    if k == 'range':
        return tok, 1
    if k == 'slice':
        a, v = it.a[1], eng.deref(st, it.a[2])
        if v.op == 'comp':
            return v.a[2], v.a[1]
        if v.op == 'reversed':
            v = v.a[0]
            if v.op == 'comp':
                return v.a[2], v.a[1]
            return at(v, tok), 1
        core.TYPE.setdefault(tok, 'usize')
        if a.op == 'ref' and not (a.a[1] and a.a[1][-1][0] == 's'):
            return elref(a, v, tok), 1
        if a.op == 'ref':
            return mk('ref', a.a[0], a.a[1][:-1] + (('i', tok),)), 1
        return at(v, tok), 1
    if k == 'map':
        core.TYPE.setdefault(tok, 'key')
        vref = elref(it.a[1], it.a[2], tok)
        if it.a[3] == 'k':
            return tok, 1
        if it.a[3] == 'v':
            return vref, 1
        return mk('tup', (tok, vref)), 1
    if k == 'opt':
        x = it.a[2]
        if it.a[1].op == 'ref':
            return mk('ref', it.a[1].a[0], it.a[1].a[1] + (('vf', 'Some', '0'),)), is_ok(x)
        return payload(x), is_ok(x)
    if k == 'box':
        z, y, x = toks
        return adt('spatial::vec3::Vec3', 'Vec3', ('x', 'y', 'z'), (x, y, z)), 1
    if k == 'inv':
        return tok, 1
    if k == 'rows':
        kk, dd = mk('app', 'rowkey', tok), mk('app', 'rowdata', tok)
        core.TYPE.setdefault(kk, 'i64')
        core.TYPE.setdefault(dd, 'std::vec::Vec<u8>')
        return mk('tup', (kk, dd)), 1
    if k == 'deref':
        e, g = elem_at(eng, st, it.a[1], base, toks)
        return eng.deref(st, e), g
    if k == 'mapf':
        e, g = elem_at(eng, st, it.a[1], base, toks)
        c = eng.iter_call
        r = guarded_st(eng, st, g, lambda s: eng.call_value(c, s, it.a[2], [e], ''))
        return r, g
    if k == 'filter':
        e, g = elem_at(eng, st, it.a[1], base, toks)
        c = eng.iter_call
        root = ('T', eng.tmpkey(c, 'ifilter'))

        def f(s):
            s.s[root] = e
            return eng.call_value(c, s, it.a[2], [mk('ref', root, ())], 'bool')
        r = guarded_st(eng, st, g, f)
        return e, b_and(g, as_bool(r))
    if k == 'filter_map':
        e, g = elem_at(eng, st, it.a[1], base, toks)
        c = eng.iter_call
        r = guarded_st(eng, st, g, lambda s: eng.call_value(c, s, it.a[2], [e], ''))
        if r.op not in ('adt', 'ite') and r not in core.KIND:
            core.KIND[r] = 'Option'
        return payload(r), b_and(g, is_ok(r))
    if k == 'inspect':
        return elem_at(eng, st, it.a[1], base, toks)
    if k == 'enum':
        e, g = elem_at(eng, st, it.a[1], base, toks)
        if base.op == 'range' and g == 1:
            i = core.sub(tok, base.a[0])
        else:
            i = mk('app', 'idx', tok)
            core.TYPE.setdefault(i, 'usize')
        return mk('tup', (i, e)), g
    if k == 'rev' or k in ('skip', 'take'):
        return elem_at(eng, st, it.a[1], base, toks)
    if k == 'zip':
        e1, g1 = elem_at(eng, st, it.a[1], base, toks)
        b2, _ = it_base(eng, st, it.a[2])
        off = core.sub(b2.a[0], base.a[0]) if b2.op == 'range' and base.op == 'range' else None
        if off is None:
            return mk('tup', (e1, mk('app', 'zipelem', it, tok))), g1
        e2, g2 = elem_at(eng, st, it.a[2], base, [add(tok, off)])
        return mk('tup', (e1, e2)), b_and(g1, g2)
    if k == 'chars':
        core.TYPE.setdefault(tok, 'char')
        return tok, 1
    e = mk('item', tok)
    core.TYPE.setdefault(e, '')
    return e, 1


def guarded_st(eng, st, g, f):
    if g == 0:
        return mk('undef')
    s1 = St(b_and(st.g, g), dict(st.s))
    if s1.g == 0:
        return mk('undef')
    r = f(s1)
    if r is None:
        return mk('undef')
    if g == 1:
        st.s = s1.s
    else:
        m = eng.merge([St(b_and(st.g, g), s1.s), St(b_and(st.g, b_not(g)), st.s)])
        st.s = m.s
    return r


@model('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def m_next(c):
    a = c.args[0]
    it = c.eng.deref(c.st, a)
    if it.op == 'ref':
        a = it
        it = c.eng.deref(c.st, it)
    it = as_iter(c, it, c.tys[0]) if it.op != 'it' else it
    back = c.path.endswith('next_back')
    L = c.eng.loops[-1] if c.eng.loops else None
    if L is not None and a.op == 'ref':
        e0 = L.entry.get(a.a[0])
        if e0 is not None:
            for p in a.a[1]:
                e0 = proj(e0, p)
            if e0 is c.eng.deref(c.st, a):
                if L.base is not None:
                    c.eng.unknown('second iterator in loop')
                c.eng.iter_call = c
                if back:
                    it = mk('it', 'rev', it)
                elem, cond = c.eng.enter_iter(c.st, it)
                c.st.g = b_and(c.st.g, b_or(b_not(L.more), cond))
                L.elcond = cond
                return ite(L.more, some(elem), NONE)
    # one element at a time
    if it.a[0] == 'map' and back:
        m = it.a[2]
        k = mk('app', 'maxkey', m)
        return ite(b_not(eq(maplen(m), Int(0))),
                   some(k if it.a[3] == 'k' else mk('tup', (k, elref(it.a[1], m, k)))), NONE)
    core_it, n = (it.a[1], it.a[2]) if it.a[0] == 'adv' else (it, 0)
    o = mk('app', 'nthback' if back else 'nth', core_it, Int(n))
    core.KIND.setdefault(o, 'Option')
    core.TYPE.setdefault(o, c.dty)
    if core_it.a[0] in ('slice',) and not back:
        v = c.eng.deref(c.st, core_it.a[2])
        if v.op != 'comp':
            r = ite(lt(Int(n), ln(v)), some(elref(core_it.a[1], v, Int(n))), NONE)
            c.eng.write_ref(c.st, a, (), mk('it', 'adv', core_it, n + 1))
            return r
    if core_it.a[0] == 'range' and not back:
        x = add(core_it.a[1], Int(n))
        c.eng.write_ref(c.st, a, (), mk('it', 'adv', core_it, n + 1))
        return ite(lt(x, core_it.a[2]), some(x), NONE)
    c.eng.write_ref(c.st, a, (), mk('it', 'adv', core_it, n + 1))
    return o


@model('std::iter::Iterator::last', 'std::iter::Iterator::max', 'std::iter::Iterator::min')
def m_last_it(c):
    it = as_iter(c, c.args[0], c.tys[0])
    k = it.a[0]
    inner = it
    while inner.a[0] in ('mapf', 'deref', 'rev'):
        inner = inner.a[1]
    if inner.a[0] == 'map' and inner.a[3] == 'k' and it is inner or (it.a[0] == 'deref' and inner.a[0] == 'map'
                                                                    and inner.a[3] == 'k'):
        m = inner.a[2]
        key = mk('app', 'minkey' if c.path.endswith('min') else 'maxkey', m)
        return ite(b_not(eq(maplen(m), Int(0))), some(key), NONE)
    if it.a[0] == 'map' and c.path.endswith('last'):
        m = it.a[2]
        key = mk('app', 'maxkey', m)
        return ite(b_not(eq(maplen(m), Int(0))), some(mk('tup', (key, elref(it.a[1], m, key)))), NONE)
    if it.a[0] == 'mapf':
        box = {}

        def body(s, el):
            return UNIT if False else el
        b, g, v = c.eng.each(c, it, lambda s, el: el)
        v = c.eng.deep(c.st, v)
        if b.op == 'keys' and g == 1 and v.op == 'el' and v.a[0] is b:
            m = b.a[0]
            key = mk('app', 'minkey' if c.path.endswith('min') else 'maxkey', m)
            return ite(b_not(eq(maplen(m), Int(0))), some(key), NONE)
        return ite(exists(b, g), some(mk('app', c.path.split('::')[-1], mk('comp', b, g, v))), NONE)
    return NotImplemented


@model('std::iter::Iterator::any')
def m_any(c):
    it = as_iter(c, c.args[0], c.tys[0])
    if it.op == 'it' and c.args[0].op == 'ref':
        pass
    b, g, r = c.eng.each(c, it, lambda s, el: c.eng.call_value(c, s, c.args[1], [el], 'bool'))
    return B(exists(b, b_and(g, as_bool(r))))


@model('std::iter::Iterator::all')
def m_all(c):
    it = as_iter(c, c.args[0], c.tys[0])
    b, g, r = c.eng.each(c, it, lambda s, el: c.eng.call_value(c, s, c.args[1], [el], 'bool'))
    return B(b_not(exists(b, b_and(g, b_not(as_bool(r))))))


@model('std::iter::Iterator::find')
def m_find(c):
    it = as_iter(c, c.args[0], c.tys[0])
    box = {}

    def body(s, el):
        root = ('T', c.eng.tmpkey(c, 'find'))
        s.s[root] = el
        box['e'] = el
        return c.eng.call_value(c, s, c.args[1], [mk('ref', root, ())], 'bool')
    b, g, r = c.eng.each(c, it, body)
    cond = b_and(g, as_bool(r))
    return ite(exists(b, cond), some(firstval(b, cond, c.eng.deep(c.st, box['e']))), NONE)


@model('std::iter::Iterator::position')
def m_position(c):
    it = as_iter(c, c.args[0], c.tys[0])
    b, g, r = c.eng.each(c, it, lambda s, el: c.eng.call_value(c, s, c.args[1], [el], 'bool'))
    cond = b_and(g, as_bool(r))
    tok = mk('el', b, tokdepth(c.eng, b))
    val = core.sub(tok, b.a[0]) if b.op == 'range' and g == 1 else mk('app', 'idx', tok)
    return ite(exists(b, cond), some(firstval(b, cond, val)), NONE)


@model('std::iter::Iterator::find_map')
def m_find_map(c):
    it = as_iter(c, c.args[0], c.tys[0])
    b, g, r = c.eng.each(c, it, lambda s, el: c.eng.call_value(c, s, c.args[1], [el], ''))
    if r.op not in ('adt', 'ite', 'undef') and r not in core.KIND:
        core.KIND[r] = 'Option'
    cond = b_and(g, is_ok(r))
    return ite(exists(b, cond), some(firstval(b, cond, c.eng.deep(c.st, payload(r)))), NONE)


@model('std::iter::Iterator::count')
def m_count(c):
    it = as_iter(c, c.args[0], c.tys[0])
    b, g, r = c.eng.each(c, it, lambda s, el: UNIT)
    return sum_(b, ite(g, Int(1), Int(0)))


@model('std::iter::Iterator::sum')
def m_sum(c):
    it = as_iter(c, c.args[0], c.tys[0])
    b, g, r = c.eng.each(c, it, lambda s, el: c.eng.deref(s, el))
    return sum_(b, ite(g, r, Int(0)))


@model('std::iter::Iterator::for_each')
def m_for_each(c):
    it = as_iter(c, c.args[0], c.tys[0])
    c.eng.each(c, it, lambda s, el: c.eng.call_value(c, s, c.args[1], [el], '()'))
    return UNIT


def collect(c, it):
    b, g, r = c.eng.each(c, it, lambda s, el: c.eng.deep(s, el))
    if c.eng.lib.it_base(c.eng, c.st, it)[1] == 'rev':
        return mk('reversed', mk('comp', b, g, r))
    if g == 1 and b.op == 'range' and r.op == 'at' and r.a[1].op == 'el' and r.a[1].a[0] is b \
            and b.a[0] is Int(0) and b.a[1] is ln(r.a[0]):
        return r.a[0]
    return mk('comp', b, g, r)


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def m_collect(c):
    it = as_iter(c, c.args[0], c.tys[0])
    if c.dty.startswith(('std::vec::Vec<', 'std::string::String', 'std::boxed::Box<[')):
        return collect(c, it)
    if c.dty.startswith(('std::collections::BTreeMap<', 'std::collections::HashMap<')):
        b, g, r = c.eng.each(c, it, lambda s, el: c.eng.deep(s, el))
        k, v = proj(r, ('f', '0')), proj(r, ('f', '1'))
        if b.op == 'keys' and k.op == 'el' and k.a[0] is b:
            return mapcomp(b.a[0], b, g, v)
        return mk('mapof', b, g, k, v)
    m = re.match(r'^std::(result::Result|option::Option)<(std::vec::Vec<|std::boxed::Box<\[|std::string::String)', c.dty)
    if m:
        n = len(c.eng.events)
        b, g, r = c.eng.each(c, it, lambda s, el: c.eng.deep(s, el))
        if any(e.kind not in PURE for e in c.eng.events[n:]):
            c.eng.unknown('collect that stops at an error, with effects')
        kindof(c, r, c.dty)
        stop = b_and(g, b_not(is_ok(r)))
        kept = ok if 'Result' in m.group(1) else some
        return ite(exists(b, stop), err(firstval(b, stop, errpay(r))) if 'Result' in m.group(1) else NONE,
                   kept(mk('comp', b, g, payload(r))))
    return NotImplemented


PURE = ('unwrap', 'index', 'arith', 'ovf', 'panic', 'assert', 'ext', 'slice', 'lencheck')


@model('std::iter::Iterator::fold')
def m_fold(c):
    it = as_iter(c, c.args[0], c.tys[0])
    root = ('T', c.eng.tmpkey(c, 'fold'))
    c.st.s[root] = c.args[1]

    def body(s, el):
        acc = s.s[root]
        r = c.eng.call_value(c, s, c.args[2], [acc, el], '')
        c.eng.write(s, root, (), r)
        return UNIT
    c.eng.each(c, it, body)
    return c.st.s[root]


# ------------------------------------------------------------ misc
@model('std::thread::LocalKey::with')
def m_lkwith(c):
    k = c.deep(0)
    v = mk('app', 'tls', k)
    # the initialiser of the thread local
    init = find_tls_init(c.eng, c.st, k)
    if init is not None:
        v = init
    root = ('T', c.eng.tmpkey(c, 'tls'))
    c.st.s[root] = v
    return c.eng.call_value(c, c.st, c.args[1], [mk('ref', root, ())], c.dty)


def find_tls_init(eng, st, k):
    for x in walk(k):
        if x.op in ('clo', 'fnc', 'cname', 'cst'):
            for y in x.a:
                if not isinstance(y, str):
                    continue
                pre = y.split('::{')[0]
                for u, b in eng.bodies.items():
                    if u.endswith(pre + '::__rust_std_internal_init_fn'):
                        return eng.run_body(st, b, [], ('tls', u))
    return None


def walk(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in interp.term_kids(t):
        yield from walk(x, seen)


@model('std::thread::LocalKey::new')
def m_lknew(c):
    return mk('app', 'localkey', c.args[0])


@model('memmem::TwoWaySearcher::new')
def m_tws(c):
    return mk('app', 'searcher', c.deep(0))


@model('memmem::Searcher::search_in')
def m_search(c):
    s, d = c.deep(0), c.deep(1)
    if s.op == 'app' and s.a[0] == 'searcher':
        s = s.a[1]
    r = mk('app', 'find', s, d)
    core.KIND[r] = 'Option'
    core.TYPE[r] = 'std::option::Option<usize>'
    return r


@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug')
def m_disp(c):
    return mk('app', 'disp', c.deep(0))


@model('core::fmt::rt::Argument::from_usize')
def m_fusz(c):
    return mk('app', 'usz', c.deep(0))


@model('std::fmt::Arguments::new', 'std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const')
def m_fmtargs(c):
    vs = []
    for i in range(len(c.args)):
        vs.append(c.deep(i))
    return mk('app', 'fmtargs', *vs)


@model('std::fmt::format', 'std::fmt::format::format_inner')
def m_format(c):
    return mk('app', 'format', c.deep(0))


@model('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def m_fncall(c):
    args = c.args[1]
    if args.op == 'tup':
        al = list(args.a[0])
    else:
        al = [args]
    return c.eng.call_value(c, c.st, c.args[0], al, c.dty)


@model('core::panicking::panic', 'core::panicking::panic_fmt', 'std::rt::begin_panic',
       'core::panicking::unreachable_default_msg', 'std::rt::panic_fmt', 'core::panicking::unreachable_display',
       'core::option::expect_failed', 'core::panicking::assert_failed')
def m_panic(c):
    c.event('panic', 'panic')
    return None


@model('std::process::exit')
def m_exit(c):
    c.event('exit', 'exit')
    return None


# byte cursors and streams: see iolib.py

def on_drop(eng, st, fr, t):
    pl_ = t[1]
    ty = pl_.get('t', '')
    if 'Encoder' in ty:
        import iolib
        iolib.drop_stream(eng, st, fr, eng.rplace(st, fr, pl_))
    if any(x in ty for x in ('MutexGuard', 'Connection', 'MapDatabase')):
        if eng.mute:
            return
        c = Call()
        c.eng, c.st, c.fn, c.path, c.frame, c.span = eng, st, None, 'drop', fr, ''
        c.args, c.tys = [], []
        c.event('drop', ty, vals=[])


# ------------------------------------------------------------ clap, parsing
@model('clap::App::subcommands', 'clap::App::args')
def m_clap_list(c):
    if c.args[1].op == 'it' or c.args[1].op == 'ref' and c.eng.deref(c.st, c.args[1]).op == 'it':
        v = collect(c, as_iter(c, c.args[1], c.tys[1]))
    else:
        v = c.deep(1)
    r = mk('app', c.path, c.deep(0), v)
    core.TYPE.setdefault(r, c.dty)
    c.event('ext', c.path, vals=[c.deep(0), v], res=r)
    return r


@model('core::str::parse')
def m_parse(c):
    r = mk('app', 'str.parse', mk('cname', inner_ty(c.dty).split(',')[0]), c.deep(0))
    core.KIND.setdefault(r, 'Result')
    core.TYPE.setdefault(r, c.dty)
    return r


@model('std::sync::Mutex::lock')
def m_lock(c):
    c.event('ext', c.path, vals=[], res=UNIT)
    if c.args[0].op != 'ref':
        return NotImplemented
    return ok(c.args[0])
