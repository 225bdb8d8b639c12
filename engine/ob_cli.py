"""The command line: what it offers for each command, and the arguments the program takes out of it."""
import random
import core
import ob_cmd
import ob_run
import ob_ui
import rand
from check import ob
from core import T
from fnob import PANIC, V, A, Fn
from ob_codec import parallel
from rand import O, Q, Tup, Ok, Err, Some, NoneV, Undecided, Frame

ARGS = 'instance::InstArgs'
FLAG, ONE, THREE, SOME, ANY = 'no value', 'one value', 'three values', 'one or more values', 'any number of values'

# the documented usage (Manual.md): field of the arguments, how it is given, required
P1, P2 = ('p1', '--p1', THREE), ('p2', '--p2', THREE)
INV = ('invert', '--invert', FLAG)
OFF = ('offset', '--offset', THREE)


def opt(f, long, arity):
    return (f, '--' + long, arity)


USAGE = {
    'clone': ([], [P1, P2, OFF], ['p1', 'p2', 'offset']),
    'deleteblocks': ([], [P1, P2, INV], ['p1', 'p2']),
    'deletemeta': ([], [opt('node', 'node', ONE), P1, P2, INV], []),
    'deleteobjects': ([], [opt('object', 'obj', ONE), opt('items', 'items', ANY), P1, P2, INV], []),
    'deletetimers': ([], [opt('node', 'node', ONE), P1, P2, INV], []),
    'fill': (['new_node'], [P1, P2, INV], ['p1', 'p2', 'new_node']),
    'overlay': (['input_map_path'], [P1, P2, INV, OFF], ['input_map_path']),
    'replaceininv': (['item', 'new_item'], [opt('delete', 'delete', FLAG), opt('delete_meta', 'deletemeta', FLAG),
                                            opt('nodes', 'nodes', SOME), P1, P2, INV], ['item']),
    'replacenodes': (['node', 'new_node'], [P1, P2, INV], ['node', 'new_node']),
    'setmetavar': (['key', 'value'], [opt('delete', 'delete', FLAG), opt('nodes', 'nodes', SOME), P1, P2, INV], ['key']),
    'setparam2': (['param2'], [opt('node', 'node', ONE), P1, P2, INV], ['param2']),
    'vacuum': ([], [], []),
}
QUIET = {'help', 'long_help', 'about', 'long_about', 'after_help', 'before_help', 'version', 'author', 'value_name',
         'display_order', 'hidden', 'bin_name', 'usage', 'next_line_help', 'template', 'hide_possible_values', 'alias', 'aliases',
         'visible_alias', 'visible_aliases', 'short_help', 'help_message', 'version_message', 'set_term_width', 'max_term_width',
         'name', 'help_heading'}
CLAPSET = {'SubcommandRequired', 'SubcommandRequiredElseHelp', 'StrictUtf8', 'AllowNegativeNumbers', 'AllowLeadingHyphen'}
QUIETSET = {'ColorAuto', 'ColorAlways', 'ColorNever', 'ColoredHelp', 'DeriveDisplayOrder', 'DisableVersion', 'UnifiedHelpMessage',
            'VersionlessSubcommands', 'GlobalVersion', 'NextLineHelp', 'DisableHelpSubcommand', 'ArgRequiredElseHelp',
            'HidePossibleValuesInHelp', 'InferSubcommands', 'PropagateGlobalValuesDown'}


# ------------------------------------------------------------------ what the source offers
def s_(v):
    if isinstance(v, Tup) or not isinstance(v, tuple):
        raise Undecided('text of the command line: %r' % (v,))
    return rand.decode(v)


def b_(v):
    if v is True or v is False:
        return v
    raise Undecided('a setting of the command line depends on %r' % (v,))


class Opt(object):
    def __init__(self, name):
        self.name, self.long, self.short = name, None, None
        self.required = self.glob = self.hyphen = self.takes = self.multiple = False
        self.num = self.min = self.max = None
        self.requires, self.conflicts = [], []

    @property
    def positional(self):
        return not self.long and not self.short

    @property
    def arity(self):
        if self.num == 3:
            return THREE
        if self.min is not None and self.max is None and self.num is None and self.min < 2:
            return SOME if self.min else ANY
        if self.num in (None, 1) and self.min is None and self.max in (None, 1):
            if self.multiple and (self.takes or self.positional):
                return SOME
            return ONE if self.takes or self.positional or self.num or self.max else FLAG
        if self.num is not None and self.min is None and self.max is None:
            return '%d values' % self.num
        raise Undecided('number of values of ' + self.name)


def chain(v):
    out = []
    while isinstance(v, Tup) and len(v) > 1 and isinstance(v[0], str) and isinstance(v[1], Tup) and isinstance(v[1][0], str):
        out.append((v[0].split('::')[-1], v[2:]))
        v = v[1]
    if not isinstance(v, Tup) or not isinstance(v[0], str):
        raise Undecided('the command line is built from %r' % (v,))
    return v[0], v[1:], out[::-1]


def option(v):
    head, args, ms = chain(v)
    if head != 'Arg::with_name':
        raise Undecided('argument built by ' + head)
    o = Opt(s_(args[0]))
    for m, a in ms:
        if m == 'long':
            o.long = '--' + s_(a[0]).lstrip('-')
        elif m == 'short':
            o.short = s_(a[0]).lstrip('-')[:1]
        elif m == 'required':
            o.required = b_(a[0])
        elif m == 'global':
            o.glob = b_(a[0])
        elif m == 'allow_hyphen_values':
            o.hyphen = b_(a[0])
        elif m == 'takes_value':
            o.takes = b_(a[0])
        elif m == 'multiple':
            o.multiple = b_(a[0])
        elif m == 'number_of_values':
            o.num, o.takes = rand.num(a[0]), True
        elif m == 'min_values':
            o.min, o.takes = rand.num(a[0]), True
        elif m == 'max_values':
            o.max, o.takes = rand.num(a[0]), True
        elif m == 'value_names':
            if isinstance(a[0], tuple) and len(a[0]) > 1 and o.num is None:
                o.num = len(a[0])
            o.takes = True
        elif m == 'requires':
            o.requires.append(s_(a[0]))
        elif m == 'requires_all':
            o.requires += [s_(x) for x in a[0]]
        elif m == 'conflicts_with':
            o.conflicts.append(s_(a[0]))
        elif m == 'conflicts_with_all':
            o.conflicts += [s_(x) for x in a[0]]
        elif m in QUIET:
            o.takes = o.takes or m == 'value_name'
        else:
            raise Undecided('clap::Arg::' + m)
    return o


class Cmd(object):
    pass


def command(v):
    head, args, ms = chain(v)
    if head not in ('App::new', 'SubCommand::with_name'):
        raise Undecided('command built by ' + head)
    c = Cmd()
    c.name, c.opts, c.subs, c.set, c.gset = s_(args[0]), [], [], set(), set()
    for m, a in ms:
        if m == 'arg':
            c.opts.append(option(a[0]))
        elif m == 'args':
            c.opts += [option(x) for x in a[0]]
        elif m == 'subcommand':
            c.subs.append(command(a[0]))
        elif m == 'subcommands':
            c.subs += [command(x) for x in a[0]]
        elif m in ('setting', 'global_setting', 'settings', 'global_settings'):
            for x in (a[0] if m.endswith('s') else [a[0]]):
                if not isinstance(x, O) or x.var not in CLAPSET | QUIETSET:
                    raise Undecided('setting %r' % (x,))
                (c.gset if 'global' in m else c.set).add(x.var)
        elif m not in QUIET:
            raise Undecided('clap::App::' + m)
    c.by = {o.name: o for o in c.opts}
    return c


class CliWorld(ob_ui.UiWorld):
    """a command line as clap hands it over; structure() evaluates the builder calls"""
    given = {}
    top = {}
    sub = None

    def app(self, n, a, t, fr):
        if n.startswith('clap::'):
            b = n.split('::')[-1]
            if n.startswith('clap::ArgMatches::'):
                v = [self.ev(x, fr) for x in a]
                d = {'top': self.top, 'sub': self.given}.get(v[0].k) if isinstance(v[0], Q) else None
                if d is None:
                    raise Undecided('matches of the command line: %r' % (v[0],))
                if b in ('subcommand_name', 'subcommand', 'subcommand_matches'):
                    if v[0].k != 'top':
                        raise Undecided('subcommand of a subcommand')
                    nm = tuple(self.sub.encode()) if self.sub else None
                    if b == 'subcommand_name':
                        return Some(nm) if nm is not None else NoneV
                    if b == 'subcommand':
                        return Tup((nm or (), Some(Q('sub')) if nm else NoneV))
                    return Some(Q('sub')) if nm is not None and tuple(v[1]) == nm else NoneV
                x = d.get(s_(v[1]))
                if b == 'is_present':
                    return x is not None
                if b == 'occurrences_of':
                    return 0 if x is None else 1
                if b in ('value_of', 'value_of_lossy', 'value_of_os'):
                    return Some(x[0]) if x else NoneV
                if b in ('values_of', 'values_of_lossy', 'values_of_os'):
                    # an option with no value is there without a list of values; min_values(0) gives an empty list
                    return NoneV if x is None or x is FLAG else Some(tuple(x))
                raise Undecided(n)
            if b in ('get_matches', 'get_matches_from'):
                return Q('top')
            return Tup((n[6:],) + tuple(self.ev(x, fr) for x in a))
        if n.startswith('anyhow::'):
            return Q(('error',) + tuple(x for x in a if isinstance(x, str)))
        return super().app(n, a, t, fr)


class Builder(CliWorld):
    def _ev(self, op, a, t, fr):
        if op == 'ref':
            return Q(('ref', repr(t)[:60]))
        return super()._ev(op, a, t, fr)


def structure(ctx):
    def f():
        fn = Fn(ctx, ob_ui.parse_fn(ctx))
        ev = [e for e in fn.s.events if e.kind == 'ext' and e.name in ('clap::App::get_matches', 'clap::App::get_matches_from')]
        if len(ev) != 1:
            raise Undecided('where the command line is parsed')
        w = Builder((ctx.seed, 'cli'), ctx.eng.types, fn.s.loops)
        w.root = Frame(None, frozenset(), {}, {})
        app = command(w.ev(ev[0].vals[0], w.root))
        return fn, app, ev[0].span + ' (' + ev[0].fn + ')'
    return ctx.once('cli.structure', f)


# ------------------------------------------------------------------ accepted?
def accepts(opts, given):
    """None or the reason the parser refuses the presence of these arguments"""
    by = {o.name: o for o in opts}
    for o in opts:
        if o.required and o.name not in given:
            return 'missing ' + o.name
    for n in given:
        for r in by[n].requires:
            if r not in given:
                return '%s requires %s' % (n, r)
        for r in by[n].conflicts:
            if r in given:
                return '%s conflicts with %s' % (n, r)
    return None


def match(sub, usage):
    """documented argument -> option of the source; raises Bad"""
    pos, named, req = usage
    out = {}
    ps = [o for o in sub.opts if o.positional]
    if len(ps) != len(pos):
        raise Bad('%s takes %d positional arguments, documented are %d' % (sub.name, len(ps), len(pos)))
    for f, o in zip(pos, ps):
        out[f] = o
        if o.arity is not ONE:
            raise Bad('the argument <%s> of %s takes %s' % (f, sub.name, o.arity))
    ls = {}
    for o in sub.opts:
        if o.long:
            if o.long in ls:
                raise Bad('%s offers %s twice' % (sub.name, o.long))
            ls[o.long] = o
    for f, long, arity in named:
        if long not in ls:
            raise Bad('%s does not offer %s' % (sub.name, long))
        o = ls[long]
        if o.arity is not arity and not (arity is SOME and o.arity is ANY):
            raise Bad('%s of %s takes %s, documented is %s' % (long, sub.name, o.arity, arity))
        out[f] = o
    if len(set(o.name for o in sub.opts)) != len(sub.opts):
        raise Bad('%s has two arguments of the same name' % sub.name)
    for o in sub.opts:
        if o.required and o not in out.values():
            raise Bad('%s requires %s, which is not documented' % (sub.name, o.long or o.name))
    for i, o in enumerate(ps):
        if not o.required and any(q.required for q in ps[i + 1:]):
            raise Bad('an optional positional argument of %s comes before a required one' % sub.name)
        if o.hyphen:
            raise Undecided('hyphens in positional arguments')
    return out


class Bad(Exception):
    pass


@ob('cli.offer', 'C15', 'the command line offers exactly the documented commands; each offers every documented option under '
    'its name, with its number of values, coordinates that may be negative, and requires what is documented as required '
    '(p1 and p2 together); without a command nothing runs; text that is no Unicode is refused',
    tech='abstract evaluation of the command-line builder calls')
def o_offer(ctx, prop, res):
    try:
        fn, app, src = structure(ctx)
    except Undecided as e:
        res.unk('command line', e)
        return
    names = sorted(c.name for c in app.subs)
    tab = sorted(ob_cmd.table(ctx))
    miss = [n for n in names if names.count(n) > 1] or [n for n in sorted(USAGE) if n not in names]
    if miss:
        res.bad('commands', 'the command line offers the commands %s; %s is not among them exactly once' % (', '.join(names), miss[0]), src)
    elif names != tab:
        res.bad('commands', 'the command line offers %s, the program has %s' % (names, tab), src)
    else:
        res.ok('commands', '%d commands' % len(names))
    if not app.set & {'SubcommandRequired', 'SubcommandRequiredElseHelp'}:
        w = CliWorld((ctx.seed, 'cli'), ctx.eng.types, fn.s.loops)
        w.top = {o.name: (tuple(b'map'),) for o in app.opts if o.required}
        r = value(fn, w)
        if r is PANIC:
            res.bad('no command', 'a command line without a command makes the program panic', src)
    us = [e for e in fn.s.events if e.kind == 'ext' and e.name in ('clap::ArgMatches::value_of', 'clap::ArgMatches::values_of')]
    strict = lambda c: 'StrictUtf8' in c.gset or 'StrictUtf8' in app.gset or 'StrictUtf8' in c.set
    if us and not (strict(app) and all(strict(c) for c in app.subs)):
        bad = next(e for e in us)
        res.bad('unicode', 'an argument that is no Unicode text makes the program panic where its text is taken',
                '%s (%s)' % (bad.span, bad.fn))
    else:
        res.ok('unicode', 'refused by the parser')
    tops = [o for o in app.opts]
    y = [o for o in tops if o.long == '--yes']
    m = [o for o in tops if o.positional]
    if len(y) != 1 or y[0].short != 'y' or y[0].arity is not FLAG or y[0].required:
        res.bad('yes', 'the command line does not offer -y/--yes', src)
    elif len(m) != 1 or not m[0].required:
        res.bad('map', 'the command line does not require exactly one <map>', src)
    else:
        res.ok('general arguments', '-y/--yes, <map>')
    for c in app.subs:
        if c.name not in USAGE:
            continue
        try:
            by = match(c, USAGE[c.name])
            for f in ('p1', 'p2', 'offset'):
                hy = c.set | c.gset | app.gset
                if f in by and not by[f].hyphen and not hy & {'AllowNegativeNumbers', 'AllowLeadingHyphen'}:
                    raise Bad('--%s of %s does not take negative coordinates' % (f, c.name))
            for o in c.opts:
                if o.hyphen and o.arity in (SOME, ANY):
                    raise Bad('%s of %s swallows the options behind it' % (o.long, c.name))
            req = USAGE[c.name][2]
            # every documented combination is accepted, what is required is required
            full = {o.name for f, o in by.items()}
            opts = [f for f in by if f not in req]
            for k in range(1 << min(len(opts), 10)):
                g = set(req) | {f for i, f in enumerate(opts) if k >> i & 1}
                if ('p1' in g) != ('p2' in g):
                    continue
                if len([f for f in USAGE[c.name][0] if f in g]) and any(
                        f in g and any(q not in g for q in USAGE[c.name][0][:i]) for i, f in enumerate(USAGE[c.name][0])):
                    continue
                if {'object', 'items'} <= g or {'delete', 'value'} <= g or {'delete', 'new_item'} <= g or \
                        {'delete', 'delete_meta'} <= g or 'invert' in g and 'p1' not in g:
                    continue
                why = accepts(c.opts, {by[f].name for f in g})
                if why:
                    raise Bad('%s refuses the documented arguments %s: %s' % (c.name, ', '.join(sorted(g)), why))
                res.count(command_lines=1)
            for f in req:
                drop = ('p1', 'p2') if f in ('p1', 'p2') else (f,)
                if not accepts(c.opts, full - {by[d].name for d in drop}) and not refused(ctx, fn, app, c, by, drop):
                    raise Bad('%s does not require %s' % (c.name, by[f].long or '<%s>' % f))
            res.ok(c.name, 'command-line builder')
        except Bad as e:
            res.bad(c.name, str(e), src)
        except Undecided as e:
            res.unk(c.name, e)


def refused(ctx, fn, app, c, by, drop):
    """the arguments are not required by the parser: refused when the values are taken out or by validation"""
    for i in range(20):
        w, want = world(ctx, fn, app, c, by, i, without=drop)
        r = value(fn, w)
        if r is PANIC:
            return False
        if isinstance(r, O) and r.var == 'Ok':
            return not ob_run.starts(ctx, c.name, 'area' if 'p1' in drop else drop[0])
    return True


# ------------------------------------------------------------------ the values taken out
def value(fn, w):
    w.root = Frame(None, frozenset(), {}, {})
    for key, vals, g, loops, src in fn.stops:
        if loops:
            continue
        if w.g(g, w.root):
            w.where = src
            return PANIC
    return w.ev(fn.ret, w.root)


INTS = ['0', '-1', '16', '-31000', '31000', '2147483647', '-2147483648', '+5', '007', '-0']
BADINTS = ['', 'x', '1.5', '2147483648', '-2147483649', '0x10', ' 1', '1 ', '1,', '-', '99999999999', '1e3']
P2S = ['0', '255', '1', '12', '+9', '009']
BADP2 = ['256', '-1', '', 'x', '1.0', '300', '0xff', ' 1']
TEXTS = ['default:stone', 'air', '', 'a b', '\u00e9', 'x', 'mymod:Node_1', 'ignore', 'backup/map.sqlite', '12', '%s', ' padded\t',
         'UPPER:Case', 'a,b;c', 'x' * 300, '"q"', "\n", '0']


def t_(s):
    return tuple(s.encode('utf8'))


def integer(s, lo, hi):
    import re
    if not re.match(r'^[+-]?[0-9]+$', s) or s[0] == '-' and lo == 0 and False:
        return None
    if lo == 0 and s[0] == '-':
        return None
    v = int(s)
    return v if lo <= v <= hi else None


def world(ctx, fn, app, c, by, i, without=None):
    r = random.Random(repr((ctx.seed, 'cli', c.name, i, without)))
    w = CliWorld((ctx.seed, 'cli', c.name, i), ctx.eng.types, fn.s.loops)
    bad = r.choice((0, 0, 0, 0, .12))
    while True:
        g = {f for f in by if r.random() < r.choice((.3, .6, .9))} | set(USAGE[c.name][2])
        if without:
            g -= set(without)
        elif accepts(c.opts, {by[f].name for f in g}):
            continue
        pos = USAGE[c.name][0]
        have = [f in g for f in pos]
        if have == sorted(have, reverse=True) or without:
            break
    w.given, txt = {}, {}
    for f in g:
        o = by[f]
        a = o.arity
        if a is FLAG:
            w.given[o.name] = FLAG
            continue
        n = {ONE: 1, THREE: 3, SOME: r.choice((1, 2, 3)), ANY: r.choice((0, 1, 2, 3))}[a]
        if f in ('p1', 'p2', 'offset'):
            v = [r.choice(BADINTS) if r.random() < bad else r.choice(INTS + [str(r.randint(-40000, 40000))]) for _ in range(n)]
        elif f == 'param2':
            v = [r.choice(BADP2) if r.random() < bad else r.choice(P2S + [str(r.randrange(256))]) for _ in range(n)]
        else:
            v = [r.choice(TEXTS) for _ in range(n)]
        txt[f] = v
        w.given[o.name] = tuple(t_(x) for x in v)
    mp = r.choice(TEXTS)
    yes = r.random() < .5
    tops = {}
    for o in app.opts:
        if o.positional:
            tops[o.name] = (t_(mp),)
        elif o.long == '--yes' and yes:
            # before or behind the command; clap hands a global option over on both sides
            where = 'both' if o.glob else 'top'
            tops[o.name] = FLAG
            if where == 'both':
                w.given[o.name] = FLAG
    w.top, w.sub = tops, c.name
    return w, oracle(ctx, c, g, txt, mp, yes)


def oracle(ctx, c, g, txt, mp, yes):
    """arguments the command gets, or a message why it gets none"""
    d = {}
    one = lambda f: Some(t_(txt[f][0])) if f in g else NoneV
    co = {}
    for f in ('p1', 'p2', 'offset'):
        if f in g:
            v = [integer(x, -2**31, 2**31 - 1) for x in txt[f]]
            if None in v:
                return 'the coordinates %s' % (txt[f],)
            co[f] = v
    if 'param2' in g:
        v = integer(txt['param2'][0], 0, 255)
        if v is None:
            return 'the param2 value %r' % txt['param2'][0]
        d['param2'] = Some(v)
    else:
        d['param2'] = NoneV
    if ('p1' in g) != ('p2' in g):
        return 'one corner of an area'
    d['area'] = Some(A(*zip(*[sorted(x) for x in zip(co['p1'], co['p2'])]))) if 'p1' in g else NoneV
    d['offset'] = Some(V(*co['offset'])) if 'offset' in g else NoneV
    for f in ('input_map_path', 'node', 'new_node', 'object', 'item', 'new_item', 'key', 'value'):
        d[f] = one(f)
    d['nodes'] = tuple(t_(x) for x in txt.get('nodes', ()))
    d['items'] = Some(tuple(t_(x) for x in txt['items'])) if 'items' in g else NoneV
    for f in ('invert', 'delete', 'delete_meta'):
        d[f] = f in g
    d['do_confirmation'] = not yes
    d['command'] = t_(c.name)
    d['map_path'] = t_(mp)
    return d


def check(fn, w, want):
    r = value(fn, w)
    line = '%s %s' % (w.sub, ' '.join('%s=%s' % (n, '' if v is FLAG else [rand.decode(x) for x in v]) for n, v in sorted(w.given.items())))
    if r is PANIC:
        return 'panic on the command line "%s"' % line, w.where
    if not isinstance(r, O):
        raise Undecided('result of the command line: %r' % (r,))
    if isinstance(want, str):
        return None if r.var == 'Err' else ('%s is accepted ("%s")' % (want, line), '')
    if r.var != 'Ok':
        return 'the valid command line "%s" is refused' % line, ''
    v = r.get('0')
    for f in want:
        x = v.get(f)
        if isinstance(x, O) and isinstance(want[f], O):
            same = x == want[f]
        else:
            same = x == want[f] and type(x) == type(want[f])
        if not same:
            sh = lambda y: rand.decode(y) if isinstance(y, tuple) and y and isinstance(y[0], int) else y
            return '%s of "%s" becomes %r instead of %r' % (f, line, sh(x), sh(want[f])), ''
    return None


@ob('cli.values', 'C15', 'on every interpreted command line the parser accepts, the arguments handed to the command are the given '
    'ones: coordinates and param2 as numbers in range or an error, corners sorted, lists in order, absent ones absent, and '
    'no panic')
def o_values(ctx, prop, res):
    try:
        fn, app, src = structure(ctx)
        fields = [n for n, _ in ctx.eng.types[ARGS]['variants'][0][1]]
    except Undecided as e:
        res.unk('command line', e)
        return
    for c in sorted(app.subs, key=lambda c: c.name):
        if c.name not in USAGE:
            continue
        try:
            by = match(c, USAGE[c.name])
        except Bad:
            continue     # reported by cli.offer
        except Undecided as e:
            res.unk(c.name, e)
            continue

        def one(i):
            w, want = world(ctx, fn, app, c, by, i)
            if isinstance(want, dict) and not all(f in fields for f in want):
                raise Undecided('fields of the arguments')
            r = check(fn, w, want)
            return True if r is None else (i,) + r
        n = ctx.worlds // 4
        done, hit, und = parallel(ctx, n, 60 if ctx.tier == 'thorough' else 20, one)
        if hit:
            i, msg, s = hit
            res.bad(c.name, msg, s or fn.span)
        elif und or not done:
            res.unk(c.name, und)
        else:
            res.ok(c.name, '%d interpreted command lines' % done)
        res.count(worlds=done)
