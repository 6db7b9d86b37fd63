"""Effects, shared state, auto traits and accessors (P40, P41, P42); loops and recursion for P02."""
import re
from .harness import *
from .ais_spec import *
from . import props_ais as A
from . import props_gnss as G

# library code that neither does I/O nor reads anything but its arguments
PURE_CRATES = {'core', 'alloc', 'bitvec', 'regex', 'hashbrown', 'funty', 'wyz', 'radium', 'log', 'chrono'}
PURE_STD = ('collections', 'f64', 'f32', 'num', 'ascii', 'error', 'string', 'hash', 'sync', 'borrow', 'fmt', 'vec', 'str', 'iter', 'cmp', 'ops')
# effects: (pattern of the stable path, what it is)
DENY = [
    (r'^std::(fs|net|process|os|env|path::.*::(exists|metadata|canonicalize|read_dir|read_link|is_file|is_dir|try_exists))\b', 'I/O or environment'),
    (r'^std::io::', 'I/O'),
    (r'^std::thread::local::', 'thread-local state'),
    (r'^std::thread::', 'threads'),
    (r'^std::panic(king)?::(set_hook|take_hook|catch_unwind)', 'global panic state'),
    (r'^std::backtrace::', 'the call stack'),
    (r'^std::time::.*Instant|^std::time::\{impl#\d+\}::(now|elapsed)', 'a clock other than the date'),
    (r'^std::hash::random::', 'random hash seeds'),
    (r'^std::random|^core::random', 'random numbers'),
    (r'^chrono::offset::local', 'the local time zone'),
    (r'^env_logger::', 'logger set-up from the environment'),
    (r'^log::(set_|__private_api::set)', 'global logger state'),
    (r'^core::fmt::rt::.*new_pointer', 'memory addresses'),
    (r'^(core|alloc)::.*::(addr|expose_provenance)$', 'memory addresses'),
    (r'^libc::', 'foreign functions'),
]
# accessors of std::time that only take values apart
CLOCK_OK = (r'^std::time::', r'^chrono::offset::utc::.*::(now|today)$')
INTERIOR = re.compile(r'^(std|core|alloc|once_cell)::(cell::(?!OnceCell|LazyCell)|sync::(Mutex|RwLock|Condvar|Barrier|Once$|atomic|mpsc|nonpoison|poison)|.*Atomic)')
ONCE = re.compile(r'(OnceLock|LazyLock|once_cell::sync::(Lazy|OnceCell))$')
SHARED = re.compile(r'^(std|alloc)::(rc::(Rc|Weak)|sync::(Arc|Weak))$')


class Graph:
    """Call graph over the exported bodies."""

    def __init__(self, w):
        self.w = w
        self.types = w.types
        self.bodies = {b['id']: b for b in w.j['bodies']}
        self.edges = {}
        self.calls = {}      # the same without the closures a body only holds or hands to another exported body
        self.ext = {}        # body id -> [(callee json, line)]
        self.statics = {}    # body id -> [static json]
        self.odd = {}        # body id -> [(what, line)]
        self.tyb = {}
        for i, b in self.bodies.items():
            self.scan(i, b)

    def type_bodies(self, t, seen=None):
        """Bodies of the closures and functions mentioned in a type."""
        if t in self.tyb:
            return self.tyb[t]
        seen = seen if seen is not None else set()
        if t is None or t in seen:
            return set()
        seen.add(t)
        x = self.types[t]
        out = set()
        if x['k'] == 'closure':
            out.add(x['body'])
            for u in x['ups']:
                out |= self.type_bodies(u, seen)
        elif x['k'] == 'fndef':
            if 'body' in x['f']:
                out.add(x['f']['body'])
        for k in ('e',):
            if k in x:
                out |= self.type_bodies(x[k], seen)
        for k in ('es', 'args'):
            for y in x.get(k, ()):
                if type(y) is int:
                    out |= self.type_bodies(y, seen)
        self.tyb[t] = out
        return out

    def consts(self, x, out, depth=0):
        """Constant operands inside a statement or terminator."""
        if isinstance(x, dict):
            if 'c' in x and isinstance(x['c'], str):
                out.append(x)
            for v in x.values():
                if isinstance(v, (dict, list)):
                    self.consts(v, out)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    self.consts(v, out)

    def scan(self, i, b):
        e, ext, st, odd, direct = set(), [], [], [], set()
        for bb in b['bbs']:
            cs = []
            line = None
            for s in bb['s']:
                self.consts(s, cs)
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] == 'cast' and 'ExposeProvenance' in rv[1]:
                        odd.append(('memory addresses', s[3]))
                    if rv[0] == 'agg' and rv[1] == 'closure':
                        e |= self.type_bodies(rv[2])
                    if rv[0] == 'cast' and ('Reify' in rv[1] or 'ClosureFn' in rv[1] or 'Unsize' in rv[1]):
                        here = []
                        self.consts(s, here)
                        for c in here:
                            direct |= self.type_bodies(c.get('t'))
                        if rv[2][0] in ('c', 'm'):
                            direct |= self.type_bodies(b['locals'][rv[2][1][0]])
            t = bb['t']
            self.consts(t, cs)
            if t[0] == 'call':
                c, line = t[1], t[-1]
                if 'body' in c:
                    e.add(c['body'])
                    direct.add(c['body'])
                else:
                    ext.append((c, line))
                for a in c.get('args', ()):
                    e |= self.type_bodies(a)
                    if 'body' not in c:
                        direct |= self.type_bodies(a)
            elif t[0] == 'unk':
                odd.append(('inline assembly or unknown control flow', b['line']))
            for c in cs:
                if c['c'] == 'static':
                    st.append((c, line or b['line']))
                    if c.get('init') is not None:
                        e.add(c['init'])
                        direct.add(c['init'])
                elif c.get('t') is not None:
                    e |= self.type_bodies(c['t'])
        for t in b['locals']:
            e |= self.type_bodies(t)
        self.calls[i], self.edges[i], self.ext[i], self.statics[i], self.odd[i] = direct, e, ext, st, odd

    def reach(self, roots):
        seen = set()
        todo = list(roots)
        while todo:
            x = todo.pop()
            if x in seen or x not in self.bodies:
                continue
            seen.add(x)
            todo.extend(self.edges[x])
        return seen

    def api(self):
        """Public functions, and the trait implementations of the crate's types."""
        return [b['id'] for b in self.w.j['bodies'] if b['local'] and (b.get('reach') and b.get('pub') or b.get('impl_trait'))]

    def at(self, i, line):
        b = self.bodies[i]
        return '%s (%s:%s)' % (b['path'], b['file'], line)

    def cycles(self, nodes):
        """Strongly connected components with a cycle (Tarjan)."""
        idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
        for root in nodes:
            if root in idx:
                continue
            work = [(root, None)]
            while work:
                v, it = work.pop()
                if it is None:
                    idx[v] = low[v] = n[0]
                    n[0] += 1
                    st.append(v)
                    on.add(v)
                    it = iter(sorted(x for x in self.calls[v] if x in nodes))
                again = False
                for x in it:
                    if x not in idx:
                        work.append((v, it))
                        work.append((x, None))
                        again = True
                        break
                    if x in on:
                        low[v] = min(low[v], idx[x])
                if again:
                    continue
                if low[v] == idx[v]:
                    c = []
                    while True:
                        x = st.pop()
                        on.discard(x)
                        c.append(x)
                        if x == v:
                            break
                    if len(c) > 1 or v in self.calls[v]:
                        out.append(c)
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
        return out


def graph(w):
    g = getattr(w, '_graph', None)
    if g is None:
        g = w._graph = Graph(w)
    return g


def cover(sc, g, nodes):
    for i in nodes:
        b = g.bodies[i]
        sc.I.covered.setdefault(b['path'], set()).update(range(len(b['bbs'])))


# ---------------------------------------------------------------- P40

def tyname(g, t):
    x = g.types[t]
    return x.get('path') or x['s']


def tree(g, t, seen=None, path=()):
    """(type, chain of types above it) of everything a value of type t owns or points to."""
    seen = seen if seen is not None else set()
    if t is None or t in seen:
        return
    seen.add(t)
    x = g.types[t]
    yield t, path
    sub = []
    if x['k'] == 'adt':
        sub = list(x.get('args', ()))
        if x.get('local') or x.get('crate') in ('core',):
            for v in x.get('vs', ()):
                sub += [f['t'] for f in v['f']]
    elif 'e' in x:
        sub = [x['e']]
    elif x['k'] == 'tuple':
        sub = x['es']
    elif x['k'] == 'closure':
        sub = x['ups']
    for y in sub:
        yield from tree(g, y, seen, path + (t,))


def effects(sc, mode):
    g = graph(sc.w)
    nodes = g.reach(g.api())
    cover(sc, g, nodes)
    if mode == 'calls':
        for i in sorted(nodes):
            b = g.bodies[i]
            for what, line in g.odd[i] if b['local'] else ():
                sc.record('no %s in %s' % (what, b['path']), 1, 0, 'at ' + g.at(i, line))
            for c, line in g.ext[i]:
                p = c.get('rsp') or c.get('sp') or ''
                if c.get('ctor') or c.get('intrinsic') or p == '<indirect>' or c.get('rkind') in ('virtual', 'shim', 'unresolved'):
                    continue
                krate = p.split('::')[0]
                bad = None
                for pat, what in DENY:
                    if re.search(pat, p):
                        bad = what
                        break
                if bad and bad.startswith('thread-local'):
                    ts = [t for t, _ in tree_of(g, c.get('args', ())) if INTERIOR.match(tyname(g, t))]
                    if not ts:
                        bad = None
                if bad is None and b['local'] and krate == sc.w.j['crate']:
                    bad = 'foreign functions'
                if bad:
                    if any(re.search(x, p) for x in CLOCK_OK) and 'Instant' not in p and 'Instant' not in (c.get('rpath') or ''):
                        bad = None
                    elif bad.startswith('a clock') and 'Instant' not in (c.get('rpath') or c.get('path') or ''):
                        bad = None
                if bad:
                    sc.record('%s uses no %s' % (b['path'], bad), 1, 0, 'calls %s at %s' % (c.get('rpath') or c.get('path'), g.at(i, line)))
                elif b['local']:
                    known = krate in PURE_CRATES or krate == 'std' and p.split('::')[1] in PURE_STD or any(re.search(x, p) for x in CLOCK_OK) or krate == 'std' and 'thread::local' in p
                    sc.record('%s: call of %s has no effect outside' % (b['path'], c.get('rpath') or c.get('path')), 0, 0 if known else 1,
                              g.at(i, line))
    elif mode == 'statics':
        statics(sc, g, nodes)
    elif mode == 'order':
        order(sc, g, nodes)


def tree_of(g, ts):
    for t in ts:
        yield from tree(g, t)


def statics(sc, g, nodes):
    n = 0
    for i in sorted(nodes):
        for c, line in g.statics[i]:
            n += 1
            lab = '%s reads no global mutable state' % g.bodies[i]['path']
            why = None
            if c['mut']:
                why = 'static mut'
            elif not c['freeze']:
                t = c.get('et')
                if not (t is not None and ONCE.search(tyname(g, t)) and not any(INTERIOR.match(tyname(g, x)) for x, _ in tree(g, t) if x != t)):
                    why = 'static with interior mutability'
            sc.record(lab, 1 if why else 0, 0, '%s %s used at %s' % (why, c['path'], g.at(i, line)))
    if n == 0:
        sc.record('no function reachable from the public API uses a static', 0, 0)


SENSITIVE = ('next', 'find', 'find_map', 'position', 'nth', 'last', 'rev', 'zip', 'enumerate', 'take', 'take_while', 'skip', 'step_by', 'fold',
             'min_by_key', 'max_by_key', 'min_by', 'max_by', 'peekable', 'scan', 'try_fold', 'reduce', 'chain')
PASS = ('map', 'filter', 'filter_map', 'cloned', 'copied', 'inspect', 'into_iter', 'iter', 'by_ref', 'flat_map', 'flatten', 'keys', 'values')
NEUTRAL = ('any', 'all', 'count', 'sum', 'product', 'min', 'max', 'len', 'size_hint')


def order(sc, g, nodes):
    """The order of hash maps (random per process) never selects an element."""
    sc.record('order of hash maps examined in %d functions' % len(nodes), 0, 0)
    for i in sorted(nodes):
        b = g.bodies[i]
        if not b['local']:
            continue
        calls = {}
        uses = {}
        for n, bb in enumerate(b['bbs']):
            for s in bb['s']:
                if s[0] == '=':
                    for l in locals_of(s[2]):
                        uses.setdefault(l, []).append(('s', s[1][0], None, n))
            t = bb['t']
            if t[0] == 'call':
                for k, a in enumerate(t[2]):
                    for l in locals_of(a):
                        uses.setdefault(l, []).append(('c', t[3][0], t, n))
                calls[n] = t
        for n, t in calls.items():
            p = t[1].get('rpath') or t[1].get('path') or ''
            name = t[1]['name']
            if not re.search(r'(collections|hashbrown)::.*Hash(Map|Set)', p) and not re.search(r'hash::(map|set)', t[1].get('rsp') or ''):
                continue
            if name not in ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_iter', 'into_keys', 'into_values', 'extract_if'):
                continue
            todo = [t[3][0]]
            seen = set()
            verdict = []
            while todo:
                l = todo.pop()
                if l in seen:
                    continue
                seen.add(l)
                for kind, dst, t2, m in uses.get(l, ()):
                    if kind == 's':
                        todo.append(dst)
                        continue
                    nm = t2[1]['name']
                    if nm in PASS:
                        todo.append(t2[3][0])
                    elif nm in NEUTRAL:
                        continue
                    elif nm == 'next':
                        verdict.append(('u' if in_cycle(b, m) else 'v', nm, t2[-1]))
                    elif nm in SENSITIVE:
                        verdict.append(('v' if nm in ('nth', 'last', 'take', 'position', 'skip') else 'u', nm, t2[-1]))
                    elif nm == 'collect':
                        d = g.types[b['locals'][t2[3][0]]]['s']
                        if 'Map' in d or 'Set' in d or 'Heap' in d:
                            continue
                        verdict.append(('u', nm, t2[-1]))
                    elif nm in ('drop', 'drop_in_place'):
                        continue
                    else:
                        verdict.append(('u', nm, t2[-1]))
            for v, nm, line in verdict:
                sc.record('%s: the order of a hash map selects nothing' % b['path'], 1 if v == 'v' else 0, 1 if v == 'u' else 0,
                          '%s of %s at %s' % (nm, name, g.at(i, line)))


def locals_of(x):
    """Locals read by an operand or rvalue."""
    if isinstance(x, list):
        if len(x) == 2 and type(x[0]) is int and isinstance(x[1], list):
            yield x[0]
            return
        for y in x:
            if isinstance(y, list):
                yield from locals_of(y)


def succs(b, n):
    t = b['bbs'][n]['t']
    if t[0] == 'goto':
        return [t[1]]
    if t[0] == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if t[0] == 'call':
        return [t[4]] if t[4] is not None else []
    if t[0] == 'drop':
        return [t[2]]
    if t[0] == 'assert':
        return [t[4]]
    return []


def in_cycle(b, n):
    todo = succs(b, n)
    seen = set()
    while todo:
        x = todo.pop()
        if x == n:
            return True
        if x in seen or x is None:
            continue
        seen.add(x)
        todo.extend(succs(b, x))
    return False


def depends(sc, v, care, nv, depth=0):
    """Inputs for which the value depends on the clock."""
    if care == 0 or v is None or depth > 12:
        return 0

    def edge(f):
        if f < 2 or not (set(bdd.support(f)) & nv):
            return 0
        return AND(bdd.exists(AND(care, f), nv), bdd.exists(AND(care, f ^ 1), nv))
    if isinstance(v, Cases):
        d = 0
        for g, x in v.cs:
            d = OR(d, edge(g))
            d = OR(d, depends(sc, x, AND(care, g), nv, depth + 1))
        return d
    if isinstance(v, Ref):
        return depends(sc, sc.I.load(sc.st, v), care, nv, depth + 1)
    d = 0
    if isinstance(v, IntV):
        if v.c is None:
            for b in set(v.bits):
                d = OR(d, edge(b))
        return d
    if isinstance(v, StrV):
        for c in v.ch:
            d = OR(d, depends(sc, c, care, nv, depth + 1))
    elif isinstance(v, AggV):
        for x in v.fs:
            d = OR(d, depends(sc, x, care, nv, depth + 1))
    elif isinstance(v, VecV):
        for x in v.es:
            d = OR(d, depends(sc, x, care, nv, depth + 1))
    elif isinstance(v, MapV):
        for g, k, x in v.log:
            d = OR(d, edge(g))
            d = OR(d, depends(sc, k, AND(care, g), nv, depth + 1))
            d = OR(d, depends(sc, x, AND(care, g), nv, depth + 1))
    elif isinstance(v, FmtV):
        for p in v.parts:
            if not isinstance(p, str):
                d = OR(d, depends(sc, p[1], care, nv, depth + 1))
    elif isinstance(v, FloatV):
        for a, c in v.ts:
            for x in a.args:
                if isinstance(x, (IntV, FloatV, StrV)):
                    d = OR(d, depends(sc, x, care, nv, depth + 1))
    return d


DATED = {'GgaData': ('timestamp',), 'GllData': ('timestamp',), 'RmcData': ('timestamp',), 'VesselStaticData': ('eta',)}


def clock(sc, make, name):
    """Only the date parts that need it depend on the clock; nothing retained does."""
    from . import props_state as S
    from . import models_ext
    p = sc.parser()
    S.many(sc, p)
    sentence = make(sc)      # may place the clock's bits beside its own
    models_ext.now(sc.I)
    sc.assume(sc.I.env['now_ok'])
    S.Hist(sc, p, free=False)
    r = sc.parse(p, sentence)
    nv = {i for i, x in enumerate(bdd.VARINFO) if x[0].startswith('now.')}

    def put(label, d):
        ws = bdd.weak_support(d) if d else ()
        sc.record(label, 0 if ws else d, d if ws else 0, '', 'fn:parse_sentence')
    put('%s: the retained state does not depend on the clock' % name, depends(sc, sc.I.load(sc.st, p), sc.st.pc, nv))
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    er, u, e, et = sc.into(r.v, r.ty, 'Err')
    if name != 'RMC':
        put('%s: whether the sentence is accepted does not depend on the clock' % name, depends(sc, Cases([(ok, UNIT), (ok ^ 1, UNIT)]), sc.st.pc, nv))
        if e is not None:
            put('%s: the error does not depend on the clock' % name, depends(sc, e, AND(sc.st.pc, er), nv))
    if v is None:
        return
    c = AND(sc.st.pc, ok)
    for g, x in alts(v):
        put('%s: the kind of result does not depend on the clock' % name, depends(sc, Cases([(g, UNIT), (g ^ 1, UNIT)]), c, nv))
        if not isinstance(x, AggV) or not x.fs:
            continue
        var = variant(sc.types, t, x)
        ft = var['f'][0]['t']
        if sc.types[ft]['k'] != 'adt' or isinstance(x.fs[0], (VecV, Cases)):
            put('%s: the content does not depend on the clock' % name, depends(sc, x.fs[0], AND(c, g), nv))
            continue
        fs = sc.fields(x.fs[0], ft)
        skip = DATED.get(sc.types[ft]['s'].split('::')[-1], ())
        for n, (y, ty) in fs.items():
            if n not in skip:
                put('%s: %s does not depend on the clock' % (name, n), depends(sc, y, AND(c, g), nv))


def p40():
    from . import props_state as S
    out = [('calls', effects, ('calls',)), ('statics', effects, ('statics',)), ('order of hash maps', effects, ('order',))]
    for k in ('GGA', 'RMC', 'GSA', 'VTG', 'GLL'):
        out.append(('clock: ' + k, clock, (S.gnss_sentence(k), k)))
    out.append(('clock: GSV', clock, (S.gsv_one, 'GSV')))
    for mt, n in ((1, 28), (4, 28), (5, 71), (6, 28), (9, 28), (10, 12), (18, 28), (21, 46), (27, 16), (8, 20)):
        out.append(('clock: AIS type %d' % mt, clock, (S.ais_sentence(mt, n), 'AIS type %d' % mt)))

    def part(b):
        def f(sc):
            return sc.text('!AIVDM,1,1,,A,', sc.payload(S.six(24) + [0, 0] + S.six(123456789, 30) + [0, b] + sc.bits(14, 'x') + [0] * 114), ',0')
        return f
    for b in (0, 1):
        out.append(('clock: AIS type 24 part %d' % b, clock, (part(b), 'AIS type 24')))

    def fragment(n):
        def f(sc):
            return S.frag(sc, '2', n, '7', 'B', sc.payload(S.six(1) + sc.bits(150, 'x') + [0] * 12))
        return f
    for n in '12':
        out.append(('clock: fragment ' + n, clock, (fragment(n), 'fragment')))
    out.append(('clock: GSV 2 of 2', clock, (lambda sc: sc.text('$GAGSV,2,2,05,09,10,100,', sc.digit('d'), '0'), 'GSV')))
    return out


# ---------------------------------------------------------------- P41

def autotraits(sc):
    g = graph(sc.w)
    seen = 0
    for p in sc.w.j['pubs']:
        if not p['reach']:
            continue
        seen += 1
        for k, name in (('send', 'Send'), ('sync', 'Sync')):
            sc.record('%s: %s' % (p['path'], name), 0 if p[k] == 'true' or p[k] is True else 1, 0, '%s:%d' % (p['file'], p['line']))
    for n in ('NmeaParser', 'ParsedSentence', 'ParseError'):
        if not any(p['reach'] and p['path'].split('::')[-1] == n for p in sc.w.j['pubs']):
            raise Missing('public type %s' % n)


def ownership(sc):
    """Nothing inside the parser or a result is shared with others and mutable."""
    g = graph(sc.w)
    for p in sc.w.j['pubs']:
        if not p['reach']:
            continue
        why = None
        for t, path in tree(g, p['ty']):
            x = g.types[t]
            nm = tyname(g, t)
            if x['k'] == 'ptr':
                why = 'raw pointer %s' % x['s']
            elif x['k'] == 'ref' and x.get('mut'):
                why = 'mutable reference %s' % x['s']
            elif re.match(r'^(std|alloc)::rc::', nm):
                why = nm
            elif INTERIOR.match(nm) and any(SHARED.match(tyname(g, y)) or g.types[y]['k'] == 'ref' for y in path):
                why = 'shared interior mutability %s' % x['s']
            if why:
                break
        sc.record('%s owns its data' % p['path'], 1 if why else 0, 0, '%s in %s:%d' % (why, p['file'], p['line']))


def shared(sc):
    g = graph(sc.w)
    nodes = g.reach(g.api())
    cover(sc, g, nodes)
    statics(sc, g, nodes)
    for i in sorted(nodes):
        b = g.bodies[i]
        for c, line in g.ext[i]:
            p = c.get('rsp') or c.get('sp') or ''
            if p.startswith('std::thread::local::'):
                ts = [t for t, _ in tree_of(g, c.get('args', ())) if INTERIOR.match(tyname(g, t))]
                sc.record('%s keeps no thread-local state' % b['path'], 1 if ts else 0, 0, 'at ' + g.at(i, line))


def p41():
    return [('auto traits', autotraits), ('ownership', ownership), ('statics', shared)]


# ---------------------------------------------------------------- P42

def fresh(sc, t, name):
    """An arbitrary value of a type, as far as it can be built."""
    x = sc.types[t]
    k = x['k']
    if k == 'bool':
        return boolv(bdd.new_var(name))
    if k == 'int':
        return IntV(x['w'], None, tuple(bdd.new_var('%s.%d' % (name, i)) for i in range(x['w'])), x['sg'])
    if k == 'char':
        return IntV(32, None, tuple(bdd.new_var('%s.%d' % (name, i)) for i in range(7)) + (0,) * 25)
    if k == 'float':
        iv = IntV(28, None, tuple(bdd.new_var('%s.%d' % (name, i)) for i in range(28)), True)
        return cast_float(sc, iv, x['w'])
    if k == 'adt' and x.get('vs'):
        n = len(x['vs'])
        if n == 1:
            return AggV(t, 0, tuple(fresh(sc, f['t'], name + '.' + f['n']) for f in x['vs'][0]['f']))
        w = (n - 1).bit_length()
        iv = IntV(w, None, tuple(bdd.new_var('%s#%d' % (name, i)) for i in range(w)))
        r = None
        for i, v in enumerate(x['vs']):
            y = AggV(t, i, tuple(fresh(sc, f['t'], name + '.' + f['n']) for f in v['f']))
            r = y if r is None else ite(ieq(iv, IntV(w, i)), y, r)
        return r
    if k == 'tuple':
        return AggV(t, 0, tuple(fresh(sc, y, '%s.%d' % (name, i)) for i, y in enumerate(x['es'])))
    if x['s'] in ('std::string::String', 'alloc::string::String'):
        return StrV((IntV(32, None, tuple(bdd.new_var('%s.%d' % (name, i)) for i in range(7)) + (0,) * 25),))
    return TopV(t, name)


def cast_float(sc, iv, w):
    """A float standing for an arbitrary value: 28 free bits."""
    return int_to_float(iv, w)


NO_POSITION = {'BinaryAddressedMessage'}
POSITION = ('VesselDynamicData', 'BaseStationReport', 'AidToNavigationReport', 'StandardSarAircraftPositionReport', 'GgaData', 'RmcData', 'GllData')


def accessor(sc, tyname_, name):
    found = None
    for b in sc.w.j['bodies']:
        if b['local'] and b['name'] == name and (b.get('impl_trait') or '').split('::')[-1] == 'LatLon' and (b.get('self_ty') or '').split('::')[-1] == tyname_:
            found = b
    if found is None:
        raise Missing('LatLon::%s for %s' % (name, tyname_))
    t = sc.types[found['locals'][1]]['e']
    v = fresh(sc, t, 'x')
    r0 = sc.I.alloc(sc.st, v)
    r = sc.call(found['id'], [r0])
    fs = sc.fields(v, t)
    lab = '%s::%s' % (tyname_, name)
    if name not in fs:
        g, u = sc.variant_guard(r.v, r.ty, 'None')
        sc.holds(lab + ': none', g, info='%s:%d' % (found['file'], found['line']), unk=u)
        return
    from .props_state import same
    d, u = same(sc, sc.st, r.v, sc.st, fs[name][0], sc.st.pc)
    sc.record(lab + ': the decoded value', d, u, '%s (%s:%d)' % (found['path'], found['file'], found['line']))


def p42(w):
    names = list(POSITION) + list(NO_POSITION)
    for b in w.j['bodies']:
        n = (b.get('self_ty') or '').split('::')[-1]
        if b['local'] and (b.get('impl_trait') or '').split('::')[-1] == 'LatLon' and n not in names:
            names.append(n)
    return [('%s of %s' % (m, n), accessor, (n, m)) for n in names for m in ('latitude', 'longitude')]
