"""The user interface and the link between it and the worker: messages, prompts, the status lock, the end of the program."""
import random
import re
import anchors
import core
import fnob
import interp
import ob_cmd
import rand
import trace
from check import ob
from core import T, mk, UNIT, Int, proj
from fnob import PANIC
from interp import norm, strip_ref
from ob_codec import parallel
from rand import O, Q, Tup, Ok, Err, Some, NoneV, Undecided, UNITV, Frame

SE, CE, ST = 'instance::ServerEvent', 'instance::ClientEvent', 'instance::InstStatus'
CHANNELS = ('recv', 'recv_timeout', 'try_recv')
ROOTS = [('CH', SE), ('CH', CE), ('CH', 'stdin'), ('CH', 'clock')]


# ------------------------------------------------------------------ effects with a position
def tick(c, root):
    cur = c.eng.read(c.st, root, ())
    c.eng.write(c.st, root, (), core.add(cur, Int(1)))
    return cur


def a_recv(kind):
    def f(c):
        m = re.match(r'std::result::Result<([\w:]+), ', c.dty)
        if not m or ('CH', m.group(1)) not in ROOTS:
            return NotImplemented
        ty = m.group(1)
        cur = tick(c, ('CH', ty))
        r = c.eng.opaque('app', 'chan.' + kind, [mk('cname', ty), cur], c.dty)
        c.event('chan', kind, vals=[cur], res=r)
        return r
    return f


def a_line(c):
    i = 1 if len(c.args) > 1 else 0
    cur = tick(c, ('CH', 'stdin'))
    buf = c.args[i]
    old = c.deep(i)
    new = mk('app', 'str.cat', old, mk('app', 'stdin.line', cur))
    core.TYPE.setdefault(new, 'std::string::String')
    c.eng.write_ref(c.st, buf, (), new)
    r = c.eng.opaque('app', 'stdin.res', [cur], c.dty)
    c.event('stdin', 'read_line', vals=[cur], res=r)
    return r


def a_now(c):
    return c.eng.opaque('app', 'clock', [tick(c, ('CH', 'clock'))], c.dty)


def ui_anchors():
    an = {'std::sync::mpsc::Receiver::' + k: a_recv(k) for k in CHANNELS}
    for p in ('std::io::Stdin::read_line', 'std::io::BufRead::read_line', 'std::io::stdio::Stdin::read_line'):
        an[p] = a_line
    for p in ('std::time::Instant::now', 'std::time::SystemTime::now'):
        an[p] = a_now
    return an


PRINTS = ('std::io::_print', 'std::io::_eprint')


def sel(ev):
    if ev.kind in ('chan', 'stdin'):
        return ev.kind + '.' + ev.name, (ev.res,)
    if ev.kind == 'ext':
        if ev.name in PRINTS:
            return 'print', tuple(ev.vals)
        if ev.name.startswith('std::sync::mpsc::') and ev.name.endswith('Sender::send'):
            return 'send', tuple(ev.vals[1:])
        if ev.name in ('std::thread::JoinHandle::join', 'std::thread::Builder::spawn', 'std::thread::spawn'):
            return ev.name.split('::')[-1], ()
        if ev.name == 'std::process::exit':
            return 'exit', ()


# ------------------------------------------------------------------ interpretation
def template(t, args):
    """text of format arguments (encoding of core::fmt::Arguments)"""
    out, i, k = '', 0, 0
    b = bytes(t)
    while i < len(b) and b[i]:
        c = b[i]
        i += 1
        if c < 0x80:
            out += b[i:i + c].decode('utf8', 'replace')
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            out += b[i + 2:i + 2 + n].decode('utf8', 'replace')
            i += 2 + n
        else:
            if c & 1:
                i += 4
            if c & 2:
                i += 2
            if c & 4:
                i += 2
            if c & 8:
                k = b[i] | b[i + 1] << 8
                i += 2
            out += text(args[k]) if k < len(args) else '?'
            k += 1
    return out


def text(v):
    if isinstance(v, Tup):
        if len(v) == 2 and v[0] in ('disp', 'usz', 'format', 'to_string', 'context'):
            return text(v[1])
        if v and v[0] == 'fmtargs':
            if len(v) == 2:
                return text(v[1])
            return template(v[1], v[2])
        return '<%r>' % (v,)
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, tuple):
        try:
            return rand.decode(v)
        except Exception:
            return '<%r>' % (v,)
    if isinstance(v, O):
        if v.ty == 'instance::LogType' or v.ty.endswith('LogType'):
            return v.var.lower()
        return '<%s>' % v.var
    return str(v) if isinstance(v, (int, float)) else '<%r>' % (v,)


TIME = {'from_millis': lambda x: x, 'from_secs': lambda x: x * 1000, 'from_secs_f32': lambda x: int(x * 1000),
        'from_secs_f64': lambda x: int(x * 1000), 'as_secs': lambda x: x // 1000, 'as_millis': lambda x: x,
        'as_secs_f32': lambda x: x / 1000, 'as_secs_f64': lambda x: x / 1000, 'from_micros': lambda x: x // 1000,
        'is_zero': lambda x: x == 0}


class UiWorld(rand.World):
    chan = {}
    stdin = ()
    parsed = None
    sendfail = False

    def __init__(self, *a):
        super().__init__(*a)
        self.past = {'stdin': 0, 'chan': 0}

    def app(self, n, a, t, fr):
        if n.startswith('chan.'):
            k = rand.num(self.ev(a[1], fr))
            s = self.chan[a[0].a[0]]
            self.past['chan'] = max(self.past['chan'], k - len(s))
            x = s[k] if k < len(s) else 'Disconnected'
            if n == 'chan.recv' and x == 'Timeout':
                x = 'Disconnected'
            if isinstance(x, str):
                if n == 'chan.recv':
                    return Err(O('std::sync::mpsc::RecvError', 'RecvError', {}))
                e = 'RecvTimeoutError' if n == 'chan.recv_timeout' else 'TryRecvError'
                return Err(O('std::sync::mpsc::' + e, x if n == 'chan.recv_timeout' or x == 'Disconnected' else 'Empty', {}))
            return Ok(x)
        if n == 'stdin.line':
            k = rand.num(self.ev(a[0], fr))
            self.past['stdin'] = max(self.past['stdin'], k - len(self.stdin))
            return self.stdin[k] if k < len(self.stdin) else ()
        if n == 'stdin.res':
            k = rand.num(self.ev(a[0], fr))
            return Ok(len(self.stdin[k]) if k < len(self.stdin) else 0)
        if n == 'clock':
            k = rand.num(self.ev(a[0], fr))
            return sum(self.h('dt', i) % 400 for i in range(k))
        if n == 'str.cat':
            return tuple(self.ev(a[0], fr)) + tuple(self.ev(a[1], fr))
        if n == 'parsed':
            return self.parsed
        b = n.split('::')[-1]
        if n.startswith('std::time::'):
            v = [self.ev(x, fr) for x in a]
            if b in TIME and isinstance(v[0], (int, float)):
                return TIME[b](v[0])
            if b in ('duration_since', 'saturating_duration_since') and all(isinstance(x, int) for x in v):
                return max(0, v[0] - v[1])
        if n in ('std::ops::Add::add', 'std::ops::Sub::sub', 'std::ops::Mul::mul'):
            x, y = [self.ev(x, fr) for x in a]
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return {'add': x + y, 'sub': x - y, 'mul': x * y}[b]
        if n in ('std::str::repeat', 'core::str::repeat', 'std::slice::repeat'):
            s, k = self.ev(a[0], fr), self.ev(a[1], fr)
            if isinstance(s, tuple) and isinstance(k, int):
                return s * min(k, 1000)
        if n in ('std::slice::join', 'std::slice::concat'):
            v = self.ev(a[0], fr)
            sep = self.ev(a[1], fr) if len(a) > 1 else ()
            if isinstance(v, tuple):
                out = ()
                for i, x in enumerate(v):
                    out += (tuple(sep) if i else ()) + tuple(x)
                return out
        if n in ('format', 'to_string') and len(a) == 1:
            v = self.ev(a[0], fr)
            if isinstance(v, tuple):
                return v if not isinstance(v, Tup) else tuple(text(v).encode('utf8'))
            return tuple(text(v).encode('utf8'))
        if n.startswith('cast_') or n.startswith('core::f32') or n.startswith('std::f32'):
            x = self.ev(a[0], fr)
            if isinstance(x, float):
                return float(x) if n in ('cast_f32', 'cast_f64') else int(x)
            return x
        if n == 'std::sync::mpsc::channel':
            return Tup((Q('tx'), Q('rx')))
        if n == 'std::sync::Mutex::lock':
            return Ok(self.ev(a[0], fr))
        if n.endswith('Sender::send'):
            return Ok(UNITV)
        if n in ('std::thread::Builder::spawn',):
            return Ok(Q('handle'))
        if n == 'std::thread::JoinHandle::join':
            return Ok(UNITV)
        if n.startswith(('std::thread::', 'std::io::', 'std::sync::', 'std::io::stdio::')):
            return Q(n)
        return super().app(n, a, t, fr)


# ------------------------------------------------------------------ the user interface
def ui_fn(ctx):
    """the function that drains the worker's messages: the one from which recv and the spawn are reached"""
    def f():
        if 'cmd_line::run_cmd_line' in ctx.eng.byname:
            return 'cmd_line::run_cmd_line'
        raise Undecided('user interface function')
    return ctx.once('ui.fn', f)


def parse_fn(ctx):
    c = [n for n, b in ctx.eng.byname.items() if b['argc'] == 0 and
         b['locals'][0][0].startswith('std::result::Result<instance::InstArgs,')]
    if len(c) != 1:
        raise Undecided('the function that parses the command line')
    return c[0]


def ui(ctx):
    def f():
        an = ui_anchors()

        def a_parse(c):
            return c.eng.opaque('app', 'parsed', [], c.dty)
        an[parse_fn(ctx)] = a_parse
        s = ctx.eng.summarize(ui_fn(ctx), anchors=an, store={r: Int(0) for r in ROOTS})
        if s.unk:
            raise Undecided('unmodelled: %s' % ', '.join(sorted(s.unk))[:200])
        its = trace.select(s, sel, panics=True)
        loops, byid, first = trace.prepare(s, its)
        return s, its, loops, byid, first
    return ctx.once('ui.summary', f)


ANSWERS = ['y\n', 'Y\n', 'y', ' y \n', 'Y\r\n', 'n\n', '', '\n', 'yes\n', 'no\n', 'N\n', 'yy\n', 'y y\n', 'x\n', 'ny\n', 'Yes\n']


def enc(s):
    return tuple(s.encode('utf8'))


def log(kind, msg):
    return O(SE, 'Log', {'0': O('instance::LogType', kind, {}), '1': enc(msg)})


def ui_world(ctx, i):
    s, its, loops, byid, first = ui(ctx)
    r = random.Random(repr((ctx.seed, 'ui', i)))
    w = UiWorld((ctx.seed, 'ui', i), ctx.eng.types, loops)
    w.parsed = Ok(Q('args')) if r.random() < .9 else Err(Q('argerror'))
    seq, lines = [], []
    for k in range(r.choice((0, 1, 2, 4, 8))):
        x = r.random()
        if x < .45:
            m = 'message %d.' % k
            if i % 3 == 1 and r.random() < .5:      # the same message again
                m = 'message 0.'
            if r.random() < .3:
                m += '\nmore %d' % k
            if i % 20 == 7:                         # a long line
                m += ' %d' % k * r.choice((30, 200, 3000))
            seq.append(log(r.choice(('Info', 'Warning', 'Error')), m))
        elif x < .65:
            seq.append(O(SE, 'ConfirmRequest', {}))
            lines.append(enc(r.choice(ANSWERS)))
        elif x < .8:
            seq.append('Timeout')
        else:
            seq.append(O(SE, 'NewState', {'0': O('instance::InstState', r.choice(('Ignore', 'Querying', 'Editing')), {})}))
    w.chan = {SE: seq, CE: []}
    w.stdin = lines
    w.root = Frame(None, frozenset(), {}, {})
    try:
        return w, trace.trace(w, its, byid, first), seq, lines
    except Undecided as e:
        if 'does not end' in str(e):
            if w.past['stdin'] > 1000:
                return w, None, 'the user interface reads on and on at the end of its input', s.span
            if w.past['chan'] > 1000:
                return w, None, 'the user interface reads on and on after the worker is gone', s.span
        raise


def yes(line):
    return rand.decode(line).strip().lower() == 'y'


def check_ui(w, tr, seq, lines, prop):
    """-> (message, source) or None"""
    src = lambda e: '%s (%s)' % (e.e.span, e.e.fn)
    if w.parsed.var == 'Err':
        if any(e.name == 'spawn' for e in tr):
            return 'the worker is started although the command line is invalid', src(tr[0])
        if prop in ('C02', 'C19') and not any(e.name == 'print' for e in tr):
            return 'an invalid command line ends the program without a message', ''
        return None
    if tr and tr[-1].name == 'PANIC':
        return 'the user interface panics', src(tr[-1])
    if any(e.name == 'exit' for e in tr):
        e = next(e for e in tr if e.name == 'exit')
        return 'the user interface exits the process', src(e)
    rc = [k for k, e in enumerate(tr) if e.name.startswith('chan.')]
    n = 0
    for j, k in enumerate(rc):
        end = rc[j + 1] if j + 1 < len(rc) else len(tr)
        part = tr[k + 1:end]
        v = tr[k].vals[-1]
        sends = [e for e in part if e.name == 'send']
        reads = [e for e in part if e.name == 'stdin.read_line']
        texts = [(text(e.vals[0]), e) for e in part if e.name == 'print']
        if isinstance(v, O) and v.var == 'Ok' and v.get('0').var == 'ConfirmRequest':
            want = yes(lines[n])
            n += 1
            if len(sends) != 1:
                return 'a request for confirmation is answered %d times' % len(sends), src(sends[-1] if sends else tr[k])
            a = sends[0].vals[0]
            if not isinstance(a, O) or a.var != 'ConfirmResponse':
                return 'a request for confirmation is answered with %r' % (a,), src(sends[0])
            if a.get('0') is not want:
                return 'the prompt answered with %r gives the confirmation %s' % (rand.decode(lines[n - 1]), a.get('0')), src(sends[0])
            if len(reads) != 1:
                return 'one prompt reads %d lines' % len(reads), src(tr[k])
        elif sends:
            return 'an answer is sent without a request for confirmation', src(sends[0])
        elif reads:
            return 'a line is read without a request for confirmation', src(reads[0])
        if isinstance(v, O) and v.var == 'Ok' and v.get('0').var == 'Log':
            m = rand.decode(v.get('0').get('1'))
            kind = v.get('0').get('0').var.lower()
            ls = m.split('\n')
            has = [e for t, e in texts if ls[0] in t]
            if len(has) != 1:
                return 'a log message is printed %d times' % len(has), src(has[-1] if has else tr[k])
            if not all(any(l in t for t, _ in texts) for l in ls):
                return 'a line of a log message is not printed', src(has[0])
            if not any(kind in t for t, _ in texts):
                return 'the kind of a log message is not printed', src(has[0])
        else:
            if any('message ' in t for t, _ in texts):
                return 'a log message is printed again', src(tr[k])
    got = len(rc)
    if got < len(seq) + 1:
        return 'the user interface stops reading messages before the worker is gone (after %d of %d)' % (got, len(seq)), src(tr[rc[-1]]) if rc else ''
    js = [k for k, e in enumerate(tr) if e.name == 'join']
    if js and rc and js[0] < rc[-1]:
        return 'the user interface waits for the worker before it has read all its messages', src(tr[js[0]])
    return None


@ob('ui.loop', 'C02 C19', 'the user interface on every interpreted sequence of worker messages and typed lines: every log '
    'message is printed once and in order, every confirmation request reads one line and is answered once, with yes only '
    'for y, and reading goes on until the worker is gone')
def o_ui(ctx, prop, res):
    try:
        s = ui(ctx)[0]
    except Undecided as e:
        res.unk('ui', e)
        return

    def one(i):
        w, tr, seq, lines = ui_world(ctx, i)
        if tr is None:
            return i, seq, lines
        r = check_ui(w, tr, seq, lines, prop)
        return True if r is None else (i,) + r
    done, hit, und = parallel(ctx, ctx.worlds, 200 if ctx.tier == 'thorough' else 40, one)
    if hit:
        i, msg, src = hit
        res.bad('ui', msg + ' [world %s]' % i, src)
    elif und or not done:
        res.unk('ui', und)
    else:
        res.ok('ui', '%d interpreted traces over %d effect sites' % (done, len(s.events)))
    res.count(traces=done)


# ------------------------------------------------------------------ the status link
SRV = 'instance::StatusServer'
COUNTS = ('show_progress', 'blocks_total', 'blocks_done', 'blocks_failed', 'state')


def link_spec(op, old, args):
    """(status after the call, messages sent, result or None) for an operation of the worker's side of the link"""
    new = dict(old)
    sent, ret = [], None
    state = lambda v: O('instance::InstState', v, {})
    if op == 'set_state':
        new['state'] = args[0]
    elif op == 'begin_editing':
        new['state'] = state('Editing')
    elif op == 'end_editing':
        new['state'] = state('Ignore')
    elif op == 'set_total':
        new['blocks_total'] = args[0]
    elif op == 'inc_done':
        new['blocks_done'] += 1
    elif op == 'inc_failed':
        new['blocks_failed'] += 1
    elif op == 'set_show_progress':
        new['show_progress'] = args[0]
    elif op.startswith('log_'):
        sent = [('Log', op[4:].capitalize(), args[0])]
    if op in ('set_state', 'begin_editing', 'end_editing'):
        sent = [('NewState', new['state'])]
    return new, sent


def sent_key(v):
    if not isinstance(v, O):
        raise Undecided('message')
    if v.var == 'Log':
        return 'Log', v.get('0').var, v.get('1')
    if v.var in ('NewState', 'ConfirmResponse'):
        return v.var, v.get('0')
    return (v.var,)


def link_ops(ctx):
    return [op for op in ('set_state', 'begin_editing', 'end_editing', 'set_total', 'inc_done', 'inc_failed',
                          'set_show_progress', 'get_status', 'get_confirmation', 'log_info', 'log_warning', 'log_error')
            if SRV + '::' + op in ctx.eng.byname]


def link(ctx, op):
    def f():
        s = ctx.eng.summarize(SRV + '::' + op, anchors=ui_anchors(), store={r: Int(0) for r in ROOTS})
        if s.unk:
            raise Undecided('unmodelled: %s' % ', '.join(sorted(s.unk))[:200])
        b = ctx.eng.byname[SRV + '::' + op]
        names = [nm or 'a%d' % i for i, (t, nm) in enumerate(b['locals'][1:b['argc'] + 1])]
        post = ctx.eng.deep(s.st, s.st.s[('P', names[0])])
        ret = ctx.eng.deep(s.st, s.ret)
        its = trace.select(s, sel, panics=True)
        loops, byid, first = trace.prepare(s, its, [post, ret])
        return s, names, [strip_ref(t) for t, _ in b['locals'][1:b['argc'] + 1]], post, ret, its, loops, byid, first
    return ctx.once('ui.link.' + op, f)


def link_run(ctx, op, i):
    s, names, tys, post, ret, its, loops, byid, first = link(ctx, op)
    r = random.Random(repr((ctx.seed, op, i)))
    w = UiWorld((ctx.seed, op, i), ctx.eng.types, loops)
    st = w.gen(ST, ('status',))
    stt = O(ST, 'InstStatus', {k: st.get(k) for k, _ in ctx.eng.types[ST]['variants'][0][1]})
    old = {k: stt.get(k) for k in stt.f}
    fs = {}
    for k, ty in ctx.eng.types[SRV]['variants'][0][1]:
        fs[k] = stt if ST in ty else Q(k)
    ans = [O(CE, 'ConfirmResponse', {'0': r.random() < .5})] if r.random() < .7 else []
    w.chan = {SE: [], CE: ans}
    w.root = Frame(None, frozenset(), {}, {})
    w.root.vals[mk('sym', names[0])] = O(SRV, 'StatusServer', fs)
    args = []
    for n, ty in list(zip(names, tys))[1:]:
        if ty == 'usize':
            v = r.randrange(100000)
        elif ty == 'bool':
            v = r.random() < .5
        elif ty.endswith('InstState'):
            v = O('instance::InstState', r.choice(('Ignore', 'Querying', 'Editing')), {})
        else:
            v = enc('text %d' % r.randrange(100))
        w.root.vals[mk('sym', n)] = v
        args.append(v)
    tr = trace.trace(w, its, byid, first)
    src = lambda e: '%s (%s)' % (e.e.span, e.e.fn)
    if tr and tr[-1].name == 'PANIC':
        return '%s panics' % op, src(tr[-1])
    sent = [sent_key(e.vals[0]) for e in tr if e.name == 'send']
    where = src(next((e for e in tr if e.name == 'send'), tr[0])) if tr else s.span
    if op == 'get_confirmation':
        if sent != [('ConfirmRequest',)]:
            return 'a confirmation is requested %d times' % len([x for x in sent if x[0] == 'ConfirmRequest']), where
        ks = [e.name for e in tr]
        if 'chan.recv' in ks and ks.index('chan.recv') < ks.index('send'):
            return 'the worker waits for an answer before it asks', where
        got = w.ev(ret, w.root)
        want = bool(ans) and ans[0].get('0')
        if got is not want and got != want:
            return 'the answer %s is taken as %s' % (ans[0].get('0') if ans else 'that never comes', got), where
        return None
    if any(e.name.startswith('chan.') for e in tr):
        return '%s waits for a message' % op, where
    if op == 'get_status':
        got = w.ev(ret, w.root)
        if any(got.get(k) != v for k, v in old.items()):
            return 'get_status does not return the current status', s.span
    new, want = link_spec(op, old, args)
    if sent != want:
        return '%s sends %s instead of %s' % (op, sent or 'nothing', want or 'nothing'), where
    for e in tr:
        pass
    p = w.ev(post, w.root)
    cur = next(p.get(k) for k, ty in ctx.eng.types[SRV]['variants'][0][1] if ST in ty)
    for k in new:
        if cur.get(k) != new[k]:
            return '%s leaves %s = %s instead of %s' % (op, k, cur.get(k), new[k]), s.span
    return None


@ob('ui.link', 'C02 C04 C08 C19', 'every operation of the worker\'s side of the status link: it sends exactly its message, '
    'changes exactly its part of the shared status, and the answer to a confirmation request is passed on unchanged (no '
    'when it never comes)')
def o_link(ctx, prop, res):
    for op in link_ops(ctx):
        if prop == 'C08' and op not in ('inc_done', 'inc_failed', 'get_status'):
            continue
        if prop == 'C02' and op not in ('get_confirmation', 'log_warning', 'log_error'):
            continue
        if prop == 'C04' and not op.startswith('log_'):
            continue
        try:
            s = link(ctx, op)[0]

            bad = None
            for i in range(60):
                bad = link_run(ctx, op, i)
                if bad:
                    break
        except (Undecided, KeyError, AttributeError, StopIteration) as e:
            res.unk(op, repr(e))
            continue
        if bad:
            res.bad('link.' + op, bad[0], bad[1])
        else:
            res.ok(op, '60 interpreted calls, %d effect sites' % len(s.events))


# ------------------------------------------------------------------ the worker thread
def worker(ctx):
    """summary of the closure handed to the thread, with the driver as an event"""
    def f():
        import ob_run
        drv = ob_run.driver(ctx)
        found = []
        for n, b in ctx.eng.byname.items():
            for bb in b['bbs']:
                tm = bb['tm']
                if tm[0] == 'call' and 'fn' in tm[1] and norm(tm[1]['fn']['path']).startswith('std::thread::') \
                        and norm(tm[1]['fn']['path']).endswith('spawn'):
                    found.append((n, tm))
        if len(found) != 1:
            raise Undecided('%d threads are started' % len(found))
        name = found[0][0]
        s = ctx.eng.summarize(name, anchors=ui_anchors(), store={r: Int(0) for r in ROOTS})
        sp = [e for e in s.events if e.kind == 'ext' and e.name.startswith('std::thread::') and e.name.endswith('spawn')]
        if len(sp) != 1 or sp[0].g != 1:
            raise Undecided('the start of the worker thread')
        clo = ctx.eng.deep(s.st, sp[0].vals[-1])
        if clo.op != 'clo':
            raise Undecided('what the worker thread runs')

        def a_drv(c):
            r = c.eng.opaque('app', 'work', [], c.dty)
            core.KIND.setdefault(r, 'Result')
            c.event('work', 'work', vals=[c.deep(0), c.deep(1)], res=r)
            return r
        b = next(b for b in ctx.eng.bodies.values() if b['u'] == clo.a[0] or interp.fnname(b['name']) == clo.a[0])
        an = ui_anchors()
        an[drv] = a_drv
        w = ctx.eng.summarize(b['u'], args=[clo], anchors=an, store={r: Int(0) for r in ROOTS})
        if w.unk:
            raise Undecided('unmodelled: %s' % ', '.join(sorted(w.unk))[:200])

        def sel2(ev):
            if ev.kind == 'work':
                return 'work', tuple(ev.vals) + (ev.res,)
            return sel(ev)
        its = trace.select(w, sel2, panics=True)
        loops, byid, first = trace.prepare(w, its)
        return s, w, its, loops, byid, first
    return ctx.once('ui.worker', f)


class WorkWorld(UiWorld):
    outcome = None

    def app(self, n, a, t, fr):
        if n == 'work':
            return self.outcome
        return super().app(n, a, t, fr)


@ob('ui.worker', 'C04 C19', 'the worker thread runs the command once with the arguments it was given, and sends an error '
    'message with the text of the error if the run ends with one, and nothing if it does not')
def o_worker(ctx, prop, res):
    try:
        s, w0, its, loops, byid, first = worker(ctx)
        for i, out in enumerate((Ok(UNITV), Err(enc('the error text')))):
            w = WorkWorld((ctx.seed, 'worker', i), ctx.eng.types, loops)
            w.outcome = out
            w.chan = {SE: [], CE: []}
            w.root = Frame(None, frozenset(), {}, {})
            tr = trace.trace(w, its, byid, first)
            src = lambda e: '%s (%s)' % (e.e.span, e.e.fn)
            work = [e for e in tr if e.name == 'work']
            sent = [(e, sent_key(e.vals[0])) for e in tr if e.name == 'send']
            if tr and tr[-1].name == 'PANIC':
                res.bad('worker.panic', 'the worker panics after the run has ended with %s' % out.var, src(tr[-1]))
                return
            if len(work) != 1:
                res.bad('worker.run', 'the worker runs the command %d times' % len(work), w0.span)
                return
            errs = [k for e, k in sent if k[0] == 'Log' and k[1] == 'Error']
            if out.var == 'Err':
                if len(errs) != 1:
                    res.bad('worker.error', 'a run that ends with an error sends %d error messages' % len(errs), w0.span)
                    return
                if 'the error text' not in text(errs[0][2]):
                    res.bad('worker.text', 'the error message is %s' % text(errs[0][2]), w0.span)
                    return
            if len(sent) != (out.var == 'Err'):
                res.bad('worker.extra', 'after a run that ends with %s the worker sends %s' % (out.var, [k for _, k in sent]), w0.span)
                return
    except (Undecided, StopIteration, KeyError) as e:
        res.unk('worker', repr(e))
        return
    res.ok('worker', '2 outcomes, %d effect sites' % len(w0.events))
