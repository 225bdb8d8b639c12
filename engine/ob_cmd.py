"""Obligations on the commands: what each does to the blocks, against spec_cmd."""
import json
import os
import time
import core
from core import *
import anchors
import norm
import rand
import spec_cmd
import views
from check import ob

# CLI name -> (specification, fields it may touch, views per property)
E_ = views
T = {
    'deletetimers': ('delete_timers', ('node_timers',)),
    'deletemeta': ('delete_metadata', ('metadata',)),
    'deleteblocks': ('delete_blocks', ()),
    'deleteobjects': ('delete_objects', ('static_objects',)),
    'fill': ('fill', ('names',)),
    'setmetavar': ('set_meta_var', ('metadata',)),
    'replaceininv': ('replace_in_inv', ('metadata',)),
    'setparam2': ('set_param2', ('node_data.param2',)),
    'replacenodes': ('replace_nodes', ('names',)),
    'clone': ('clone', ('names', 'node_data.param1', 'node_data.param2', 'metadata')),
    'overlay': ('overlay', ('names', 'node_data.param1', 'node_data.param2', 'metadata')),
    'vacuum': ('vacuum', ()),
}
REQ = {
    'fill': ('area', 'new_node'), 'deleteblocks': ('area',), 'clone': ('area', 'offset'),
    'replacenodes': ('node', 'new_node'), 'replaceininv': ('item',), 'setmetavar': ('key',), 'setparam2': ('param2',),
}


def table(ctx):
    """{command name: Command term} from the command table"""
    def f():
        s = ctx.eng.summarize('commands::get_commands')
        t, out = s.ret, {}
        while t.op == 'mapset':
            k = t.a[1]
            if k.op == 'bytes':
                out.setdefault(bytes(k.a[0]).decode(), t.a[2])
            t = t.a[0]
        return out
    return ctx.once('table', f)


def command_fn(ctx, name):
    c = table(ctx).get(name)
    if c is None:
        return None
    f = proj(c, ('f', 'func'))
    return f.a[0] if f.op == 'fnc' else None


def counts(v):
    while v.op == 'app' and v.a[0] in ('format',):
        v = v.a[1]
    if v.op == 'app' and v.a[0] == 'fmtargs':
        out = []
        for d in v.a[2].a[0]:
            x = d.a[1]
            if x.op == 'app' and x.a[0] == 'fmt_big_num':
                x = x.a[1]
            out.append(x)
        return out
    return []


DBW = ('set_block', 'delete_block', 'vacuum', 'commit_if_needed', 'begin_if_needed')


def sel(ev):
    if ev.kind == 'status' and ev.name in ('inc_done', 'inc_failed'):
        return ev.name, ()
    if ev.kind == 'db' and ev.name in DBW:
        return ev.name, ev.vals
    if ev.kind == 'status' and ev.name == 'log_info':
        c = counts(ev.vals[0])
        if c:
            return 'count', c
    if ev.kind == 'call' and ev.name == 'query_keys':
        return 'query', ev.vals


def src(ev):
    return '%s (%s)' % (ev.span, ev.fn)


def items_code(s):
    out = []
    for ev in s.events:
        r = sel(ev)
        if r:
            out.append((r[0], r[1], ev.g, ev.loops, src(ev)))
    return out


def items_spec(c):
    return [(x.name, x.vals, x.g, list(x.bases), 'spec') for x in c.effs]


def fixes(name):
    req = REQ.get(name, ()) + (('idb',) if name == 'overlay' else ())
    fix = {}

    def some_(name):
        def f(w, key, ty):
            i = ty.find('Option<')
            if i >= 0:
                return rand.Some(w.gen(ty[i + 7:-1], (key, 'S'), name))
        return f
    for r in req:
        fix[r] = some_(r)

    def offs(w, key, ty):
        if 'Option<' in ty:
            return rand.NoneV if name == 'overlay' and w.h('nooff') % 3 == 0 else rand.Some(w.vec(w.off))
    fix['offset'] = offs
    return fix


def pre(name):
    A = spec_cmd.A

    def f(w):
        def a(n):
            v = w.ev(A(n), w.root)
            return v
        h = lambda n: a(n).var == 'Some'
        if a('invert') and not h('area'):
            return False
        if name == 'deleteobjects':
            return not (h('object') and h('items'))
        if name == 'replaceininv':
            if not h('new_item') and not a('delete') and not a('delete_meta'):
                return False
            if h('new_item') and a('delete'):
                return False
            return not (a('item') == a('new_item') and not a('delete_meta'))
        if name == 'replacenodes':
            return a('node') != a('new_node')
        if name == 'setmetavar':
            return h('value') != bool(a('delete')) and a('value') != rand.Some(())
        if name == 'setparam2':
            return h('area') or h('node')
        if name == 'overlay':
            z = h('offset') and any(a('offset').get('0').get(c) for c in 'xyz')
            return not (a('invert') and z)
        return True
    return f


PROPS = {
    'deletetimers': 'C08 C09 C11 C16 C22 C23', 'deletemeta': 'C08 C09 C11 C16 C22 C23',
    'deleteblocks': 'C08 C16 C22', 'deleteobjects': 'C08 C09 C11 C16 C22 C23',
    'fill': 'C08 C10 C11 C13 C14 C16 C22 C23', 'setmetavar': 'C08 C09 C11 C16 C22 C23',
    'replaceininv': 'C08 C09 C11 C16 C22 C23 C25', 'setparam2': 'C08 C10 C11 C16 C22 C23',
    'replacenodes': 'C08 C10 C11 C14 C16 C22 C23', 'clone': 'C03 C08 C11 C12 C13 C14 C16 C22',
    'overlay': 'C03 C08 C11 C12 C13 C14 C16 C22', 'vacuum': 'C16 C21',
}


def view_for(name, prop):
    spec, touched = T[name]
    if prop in ('C09', 'C10', 'C25'):
        return views.v_fields(*touched)
    return {
        'C03': views.v_idb,
        'C08': views.v_progress,
        'C11': views.v_fields(*[x for x in views.FIELDS + ('names',) if x not in touched]) if name in ('overlay',)
        else views.v_others(*touched),
        'C12': views.v_fields(*touched) if touched else None,
        'C13': views.v_ungenerated if name == 'fill' else views.v_both(views.v_ungenerated, views.v_all),
        'C14': views.v_named,
        'C16': views.v_own,
        'C21': views.v_only_vacuum,
        'C22': views.v_query,
        'C23': views.v_count,
    }[prop]


def summary(ctx, name):
    """the command's summary under the contracts, None if the command table has no such command"""
    def f():
        fn = command_fn(ctx, name)
        if fn is None:
            return None, None
        spec_cmd.setup()
        core.KIND.update({})
        anchors.CACHE.clear()
        try:
            import ob_db
            rand.World.nf = ob_db.read_errors(ctx)[0]
        except rand.Undecided:
            pass
        an, missing = anchors.usable(ctx.eng)
        if missing:
            raise rand.Undecided('no contract fits ' + ', '.join(missing))
        return fn, ctx.eng.summarize(fn, anchors=an, argnames=['inst'])
    return ctx.once('sum.' + name, f)


VETTED = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vetted.json')


def vetted(name):
    """fingerprints of the value graphs of this command that tools/vet.py has explored at the thorough depth"""
    try:
        with open(VETTED) as f:
            return json.load(f).get(name, ())
    except (OSError, ValueError):
        return ()


def analyse(ctx, name, prop):
    """one comparison of a command with its specification, in the view of the property"""
    def f():
        fn, s = summary(ctx, name)
        if fn is None:
            return None
        c = spec_of(name)
        same = False
        if name not in ('clone', 'overlay'):
            try:
                with core.limited(400000):
                    same, _ = norm.same_effects(norm.effects(s, sel), c.effs)
            except core.TooBig:
                same = False
        props = [prop]
        found, n, neff, und = {}, 0, 0, None
        if not same or ctx.tier == 'thorough':
            code = items_code(s)
            d = views.digest(code, s.loops)
            if os.environ.get('CHECK_DIGESTS'):
                with open(os.environ['CHECK_DIGESTS'], 'a') as f:
                    f.write('%s %s\n' % (name, d))
            if ctx.tier == 'thorough':
                nw, secs = ctx.worlds, ctx.secs
            elif d in vetted(name):
                nw, secs = ctx.worlds, ctx.secs
            else:        # graphs that no run has explored in depth yet
                nw, secs = ctx.worlds * 5, max(ctx.secs * 1.5, min(ctx.secs * 6, ctx.deep / 3))
            t = time.time()
            try:
                found, n, neff = views.compare(code, items_spec(c), ctx.eng.types, s.loops,
                                               {p: view_for(name, p) for p in props if view_for(name, p)},
                                               pre(name), nw, fixes(name), ctx.seed, secs, known='cmd.' + name)
            except rand.Undecided as e:
                und = str(e)
            ctx.deep -= time.time() - t
        return dict(s=s, same=same, found=found, worlds=n, neff=neff, und=und, brk=norm.breaks(s), fn=fn)
    return ctx.once(('cmd.' + name, prop), f)


def add_queries(name, c):
    """the queries the specification makes, as effects"""
    out, seen = list(c.effs), set()
    for e in c.effs:
        for b in e.bases:
            for x in core.comps(b):
                if x.op == 'range' and x.a[1].op == 'len' and x.a[1].a[0].op == 'app' and x.a[1].a[0].a[0] == 'qk':
                    q = x.a[1].a[0]
                    if q in seen:
                        continue
                    seen.add(q)
                    g = e.g if e.name == 'inc_done' else 1
                    out.append(norm.Eff('query', (), g, q.a[1:]))
    return out


def spec_of(name):
    c = getattr(spec_cmd, T[name][0])()
    c.effs = add_queries(name, c)
    return c


def make(name):
    @ob('cmd.' + name, PROPS[name], 'effects of the command %s over the selected blocks equal the specification' % name)
    def f(ctx, prop, r):
        a = analyse(ctx, name, prop)
        if a is None:
            r.unk(name, 'no function found for the command in the command table')
            return
        s = a['s']
        r.count(functions=len(set(ev.fn for ev in s.events)), effect_sites=len(s.events), loops=len(s.loops),
                assignments=a['worlds'], interpreted_effects=a['neff'])
        if s.unk:
            r.unk(name, 'unmodelled: %s' % ', '.join(sorted(s.unk))[:200])
            return
        if prop in a['found']:
            i, where, msg = a['found'][prop]
            r.bad('cmd.%s.%s' % (name, prop), '%s: %s' % (name, msg), where)
            return
        if prop == 'C08' and a['brk']:
            l, g = a['brk'][0]
            r.bad('cmd.%s.break' % name, '%s: the loop over the blocks can end early' % name, '%s' % (a['fn']))
            return
        if a['und']:
            r.unk(name, a['und'])
            return
        r.ok(name, 'equal normal forms' if a['same'] else 'random interpretation of the value graphs')


for _n in PROPS:
    make(_n)


# ------------------------------------------------------------------ no command stops on a block it can read
def stops(s):
    """the constructs that end the command by a panic, as effects"""
    import trace
    out = []
    for e in s.events:
        if e.kind == 'index' and len(e.loops) > 2:      # what ob_util and ob_spatial say about the functions with these loops
            continue
        g = trace.stop_guard(e)
        if g:
            out.append(('stop', (), g, e.loops, src(e)))
    return out


def make_stop(name):
    props = [p for p in PROPS[name].split() if p in ('C08', 'C09', 'C10', 'C12', 'C14', 'C25')]

    @ob('cmd.%s.stop' % name, ' '.join(props), 'no assertion, unwrap, slice or index of %s can fail while it works on the selected '
        'blocks, whatever the stored blocks and the accepted arguments are' % name)
    def f(ctx, prop, r):
        fn, s = summary(ctx, name)
        if fn is None or s.unk:
            r.unk(name, 'no summary of the command')
            return

        def go():
            its = stops(s)
            r.count(panicking_constructs=len(its))
            if not its:
                return {}, 0, 0
            return views.compare(its, items_spec(spec_of(name)), ctx.eng.types, s.loops, {'stop': v_stop}, pre(name), ctx.worlds // 2,
                                 fixes(name), ctx.seed + 1, ctx.secs * .6, spec_effects=False, known='cmd.%s.stop' % name)
        found, n, neff = ctx.once('stop.' + name, go)
        r.count(assignments=n)
        if found:
            i, where, msg = found['stop']
            r.bad('cmd.%s.stop' % name, '%s: %s' % (name, msg), where)
            return
        r.ok(name, 'guards of the panicking constructs are false in every interpretation')


def v_stop(w, code, spec):
    for e in code:
        return e.src, 'the command panics: %d blocks in the map, area %s' % (len(w.blocks), w.box)


for _n in PROPS:
    if _n != 'vacuum':
        make_stop(_n)
