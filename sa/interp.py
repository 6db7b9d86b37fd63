"""Bit-precise abstract interpretation of the exported MIR.

Every scalar is a vector of boolean functions of the input bits, every composite value a shape of such
vectors with guarded alternatives.  A function body is analysed in weak topological order; states reaching
the same block are joined, so every block is analysed once per loop iteration, not once per path.
"""
import heapq
import json
import re
import time
from . import bdd, floatcmp
from .bdd import AND, OR, XOR, NOT, ITE
from .vals import *

# one process interprets only values that its own run made


class Limit(Exception):
    """The analysis gave up (no verdict)."""


class State:
    __slots__ = ('pc', 'mem')

    def __init__(self, pc, mem):
        self.pc = pc
        self.mem = mem

    def with_pc(self, pc):
        return State(pc, dict(self.mem))


def merge_states(a, b):
    """Join of two states at one program point; None entries are unreachable."""
    pc = OR(a.pc, b.pc)
    g = bdd.restrict(a.pc, pc)
    ma, mb = a.mem, b.mem
    if len(ma) < len(mb):
        # iterate over the larger one
        g = g ^ 1
        ma, mb = mb, ma
    mem = dict(ma)
    for k, vb in mb.items():
        va = mem.get(k)
        if va is None:
            mem[k] = vb
        elif va is not vb:
            mem[k] = ite(g, va, vb)
    return State(pc, mem)


def merge_results(outs):
    """Join of [(state, value)]; the value of the join."""
    if not outs:
        return None
    st, v = outs[0]
    for s2, v2 in outs[1:]:
        pc = OR(st.pc, s2.pc)
        g = bdd.restrict(st.pc, pc)
        v = ite(g, v, v2)
        st = merge_states(st, s2)
    return st, v


def wto(n, succ, entry):
    """Block -> position in a weak topological order (loops contiguous), plus loop headers."""
    import itertools
    order = []
    heads = set()

    def build(nodes, roots):
        nodes = set(nodes)
        virt = -1
        succ2 = {v: [w for w in succ[v] if w in nodes] for v in nodes}
        succ2[virt] = [r for r in roots if r in nodes]
        index = {}
        low = {}
        stack = []
        on = set()
        comps = []
        cnt = itertools.count()
        work = [(virt, iter(succ2[virt]))]
        index[virt] = low[virt] = next(cnt)
        stack.append(virt)
        on.add(virt)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = next(cnt)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(succ2[w])))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = stack.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                comps.append((v, comp))
        for head, comp in reversed(comps):
            if head == virt:
                continue
            order.append(head)
            if len(comp) > 1:
                heads.add(head)
                sub = set(comp)
                sub.discard(head)
                build(sub, [s for s in succ[head] if s in sub])
            elif head in succ[head]:
                heads.add(head)

    build(set(range(n)), [entry])
    return {b: i for i, b in enumerate(order)}, heads


class Body:
    __slots__ = ('id', 'j', 'path', 'bbs', 'argc', 'locals', 'order', 'heads', 'local', 'file', 'line', 'name', 'spread', 'dead')


class World:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.j = j
        self.types = j['types']
        self.bodies = {}
        for b in j['bodies']:
            self.bodies[b['id']] = b
        self.decoded = {}
        self.const_mem = {}
        self.nconst = 0
        self.ordering_ty = None
        for t in self.types:
            if t.get('k') == 'adt' and t.get('path') in ('std::cmp::Ordering', 'core::cmp::Ordering'):
                self.ordering_ty = t['id']
        self.by_path = {}
        for b in j['bodies']:
            self.by_path.setdefault(b['path'], b['id'])

    # -- decoding --------------------------------------------------------
    def j_body(self, i):
        return self.bodies[i]

    def body(self, bid):
        b = self.decoded.get(bid)
        if b is None:
            b = self.decode(self.bodies[bid])
            self.decoded[bid] = b
        return b

    def decode(self, j):
        b = Body()
        b.id = j['id']
        b.j = j
        b.path = j['path']
        b.argc = j['argc']
        b.locals = j['locals']
        b.local = j['local']
        b.file = j['file']
        b.line = j['line']
        b.name = j['name']
        b.spread = j.get('spread')
        b.bbs = []
        succ = {}
        for i, bb in enumerate(j['bbs']):
            if bb['cleanup']:
                b.bbs.append(None)
                succ[i] = []
                continue
            ss = []
            for s in bb['s']:
                if s[0] == '=':
                    ss.append((0, self.place(s[1]), self.rvalue(s[2]), s[3]))
                elif s[0] == 'sd':
                    ss.append((1, self.place(s[1]), s[2], 0))
                elif s[0] == 'dead':
                    ss.append((2, s[1], 0, 0))
            t = bb['t']
            k = t[0]
            if k == 'switch':
                t = ('switch', self.operand(t[1]), [(v, x) for v, x in t[2]], t[3], t[4])
                succ[i] = [x for v, x in t[2]] + [t[3]]
            elif k == 'goto':
                succ[i] = [t[1]]
            elif k == 'drop':
                succ[i] = [t[2]]
                t = ('goto', t[2])
            elif k == 'call':
                c = t[1]
                t = ('call', c, [self.operand(a) for a in t[2]], self.place(t[3]), t[4], t[5])
                succ[i] = [t[4]] if t[4] is not None else []
            elif k == 'assert':
                t = ('assert', self.operand(t[1]), t[2], t[3], t[4], t[5])
                succ[i] = [t[4]]
            else:
                succ[i] = []
            b.bbs.append((ss, t))
        b.order, b.heads = wto(len(b.bbs), succ, 0)
        b.dead = self.liveness(b, succ)
        return b

    def liveness(self, b, succ):
        """Per block the locals that hold nothing needed any more (never for locals whose address is taken)."""
        taken = set()
        gen, kill = {}, {}

        def uses(pl, out):
            out.add(pl[0])
            for e in pl[1]:
                if e[0] == 'i':
                    out.add(e[1])

        def opuse(o, out):
            if o[0] == 'p':
                uses(o[1], out)

        def rvuse(rv, out):
            k = rv[0]
            if k == 'ref':
                uses(rv[1], out)
                if not rv[1][1] or rv[1][1][0][0] != '*':
                    taken.add(rv[1][0])
            elif k == 'discr':
                uses(rv[1], out)
            elif k == 'agg':
                for o in rv[4]:
                    opuse(o, out)
            elif k == 'unk':
                taken.update(range(len(b.locals)))
            else:
                for o in rv[1:]:
                    if isinstance(o, tuple) and o and o[0] in 'pk':
                        opuse(o, out)
        for i, bb in enumerate(b.bbs):
            g, k = set(), set()
            gen[i], kill[i] = g, k
            if bb is None:
                continue
            for s in bb[0]:
                u = set()
                if s[0] == 0:
                    rvuse(s[2], u)
                    if s[1][1]:
                        uses(s[1], u)
                elif s[0] == 1:
                    uses(s[1], u)
                g |= u - k
                if s[0] == 0 and not s[1][1]:
                    k.add(s[1][0])
                elif s[0] == 2:
                    k.add(s[1])
            t = bb[1]
            u = set()
            if t[0] == 'switch' or t[0] == 'assert':
                opuse(t[1], u)
            elif t[0] == 'call':
                for o in t[2]:
                    opuse(o, u)
                if 'op' in t[1]:
                    opuse(self.operand(t[1]['op']), u)
                if t[3][1]:
                    uses(t[3], u)
            elif t[0] == 'return':
                u.add(0)
            elif t[0] not in ('goto', 'unreachable', 'resume', 'abort'):
                u.update(range(len(b.locals)))
            g |= u - k
            if t[0] == 'call' and not t[3][1]:
                k.add(t[3][0])
        live = {i: set() for i in range(len(b.bbs))}
        work = True
        while work:
            work = False
            for i in range(len(b.bbs) - 1, -1, -1):
                out = set()
                for j in succ[i]:
                    out |= live[j]
                n = gen[i] | (out - kill[i])
                if n != live[i]:
                    live[i] = n
                    work = True
        al = set(range(len(b.locals))) - taken
        return [tuple(al - live[i]) for i in range(len(b.bbs))]

    def place(self, p):
        pr = []
        for e in p[1]:
            if e == '*':
                pr.append(('*',))
            elif e == '?':
                pr.append(('?',))
            else:
                pr.append(tuple(e))
        return (p[0], tuple(pr))

    def operand(self, o):
        if o[0] in 'cm':
            return ('p', self.place(o[1]))
        if o[0] == 'k':
            return ('k', self.const(o[1]))
        return ('k', F)    # runtime checks off

    def rvalue(self, r):
        k = r[0]
        if k == 'use':
            return ('use', self.operand(r[1]))
        if k == 'repeat':
            return ('repeat', self.operand(r[1]), r[2])
        if k == 'ref':
            return ('ref', self.place(r[1]), r[2])
        if k == 'cast':
            if r[1] == 'BoxDerefTransmute' and r[2][0] in 'cm' and r[2][1][1]:
                # the address a box holds: boxes are their contents here
                return ('ref', self.place([r[2][1][0], r[2][1][1][:-1]]), True)
            return ('cast', r[1], self.operand(r[2]), r[3])
        if k == 'bin':
            return ('bin', r[1], self.operand(r[2]), self.operand(r[3]))
        if k == 'un':
            return ('un', r[1], self.operand(r[2]))
        if k == 'discr':
            return ('discr', self.place(r[1]))
        if k == 'agg':
            return ('agg', r[1], r[2], r[3], [self.operand(x) for x in r[4]])
        return ('unk', str(r))

    def const(self, c):
        k = c['c']
        t = self.types[c['t']] if 't' in c and c['t'] is not None else None
        if k == 'int':
            kind = t['k']
            if kind == 'bool':
                return T if c['v'] else F
            if kind == 'char':
                return ch(c['v'])
            if kind == 'int':
                return IntV(t['w'], c['v'], None, t['sg'])
            if kind == 'float':
                if t['w'] == 64:
                    return FloatV(struct.unpack('d', struct.pack('Q', c['v']))[0], (), 64)
                return FloatV(struct.unpack('f', struct.pack('I', c['v']))[0], (), t['w'])
            if kind == 'adt' and t.get('vs') and len(t['vs']) == 1 and t['kind'] == 'struct':
                return TopV(c['t'], 'const')
            return TopV(c['t'], 'const')
        if k == 'str':
            return cstr(c['v'])
        if k == 'ref':
            inner = self.const(c['v'])
            if isinstance(inner, StrV):
                # &String constant or &&str: needs a location when the pointee is itself a reference or String
                pass
            self.nconst += 1
            root = -self.nconst
            self.const_mem[root] = inner
            return Ref(root)
        if k == 'adt':
            p = t.get('path', '')
            if p in ('std::string::String', 'alloc::string::String'):
                return StrV(())
            if p in ('std::vec::Vec', 'alloc::vec::Vec'):
                return VecV(())
            return AggV(c['t'], c['vi'], tuple(self.const(x) for x in c['v']))
        if k == 'seq':
            es = tuple(self.const(x) for x in c['v'])
            return AggV(c['t'], 0, es) if t['k'] == 'tuple' else VecV(es)
        if k == 'fn':
            return FnV(t['f'])
        if k == 'static':
            if c.get('v'):
                inner = self.const(c['v'])
                self.nconst += 1
                self.const_mem[-self.nconst] = inner
                return Ref(-self.nconst)
            if c.get('init') is not None:
                self.nconst += 1
                self.const_mem[-self.nconst] = AggV('static', 0, (IntV(64, c['init']),))
                return Ref(-self.nconst)
            return TopV(c.get('t'), 'static ' + c.get('path', ''))
        if t is not None:
            if t['k'] == 'tuple' and not t['es']:
                return UNIT
            if t['k'] == 'adt' and t['kind'] == 'struct' and t.get('vs') and not t['vs'][0]['f']:
                return AggV(c['t'], 0, ())
        return TopV(c.get('t'), 'const')


OPAQUE = {'static', 'Dt', 'Date', 'Time', 'regex', 'caps', 'match', 'occupied', 'vacant', 'once', 'err', 'fmtarg'}


def opaque(ty):
    """Values whose inside only the library summaries know."""
    return ty in OPAQUE or ty.startswith('it:')


class Event:
    __slots__ = ('kind', 'msg', 'func', 'file', 'line', 'pc', 'stack')

    def __init__(self, kind, msg, func, file, line, pc, stack):
        self.kind, self.msg, self.func, self.file, self.line, self.pc, self.stack = kind, msg, func, file, line, pc, stack

    def __repr__(self):
        return '%s %s in %s (%s:%s)' % (self.kind, self.msg, self.func, self.file, self.line)


class Interp:
    LOOP_LIMIT = 700

    def __init__(self, world, deadline=None):
        self.w = world
        self.types = world.types
        self.fid = 0
        self.heap = 0
        self.events = []
        self.stack = []
        self.steps = 0
        self.deadline = deadline
        self.atoms = {}
        self.unknown_calls = {}
        self.covered = {}           # function -> blocks analysed
        self.called = set()
        self.env = {}
        from . import models
        self.models = models

    # -- helpers ---------------------------------------------------------
    def fresh_bits(self, name, n, weak=False):
        return tuple(reversed([bdd.new_var('%s.%d' % (name, i), weak) for i in range(n - 1, -1, -1)]))

    def fresh_int(self, name, w, n=None, weak=False, sg=False):
        n = w if n is None else n
        return IntV(w, None, self.fresh_bits(name, n, weak) + (0,) * (w - n), sg)

    def atom(self, key, name, weak=False):
        """Uninterpreted boolean keyed by a canonical term."""
        v = self.atoms.get(key)
        if v is None:
            v = self.atoms[key] = bdd.new_var(name, weak)
        return v

    def alloc(self, st, v):
        self.heap += 1
        root = ('h', self.heap)
        st.mem[root] = v
        return Ref(root)

    def event(self, kind, msg, pc):
        fr = self.stack[-1] if self.stack else None
        # innermost frame of the analysed crate, for the report
        loc = None
        for f in reversed(self.stack):
            if f[0].local:
                loc = f
                break
        loc = loc or fr
        self.events.append(Event(kind, msg, loc[0].path if loc else '?', loc[0].file if loc else '?', loc[1] if loc else 0, pc,
                                 [f[0].path for f in self.stack]))

    # -- memory ----------------------------------------------------------
    def load_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            v = self.w.const_mem.get(root)
        return v

    def load(self, st, ref):
        if isinstance(ref, Cases):
            return self.mapcases(ref, lambda r: self.load(st, r), st.pc)
        if not isinstance(ref, Ref):
            return ref
        v = self.load_root(st, ref.root)
        for p in ref.path:
            v = self.proj(st, v, p)
        if v is None:
            v = TopV(None, 'uninitialised')
        return v

    def mapcases(self, v, f, care=1):
        """Apply f to each alternative and join the results."""
        if not isinstance(v, Cases):
            return f(v)
        r = None
        for g, x in v.cs:
            if AND(g, care) == 0:
                continue
            y = f(x)
            r = y if r is None else ite(g, y, r)
        if r is None:
            r = f(v.cs[0][1])
        return r

    def proj(self, st, v, p):
        k = p[0]
        if isinstance(v, Cases):
            if k == 'd':
                cs = [(g, x) for g, x in v.cs if not isinstance(x, AggV) or x.vi == p[1]]
                cs = [c for c in cs if AND(c[0], st.pc)] or cs
                if not cs:
                    return TopV(None, 'infeasible variant')
                if len(cs) == 1:
                    return cs[0][1]
                r = cs[0][1]
                for g, x in cs[1:]:
                    r = ite(g, x, r)
                return r
            return self.mapcases(v, lambda x: self.proj(st, x, p), st.pc)
        if k == 'f':
            if isinstance(v, AggV):
                if p[1] < len(v.fs):
                    return v.fs[p[1]]
                return TopV(p[2] if len(p) > 2 else None, 'infeasible field')
            return TopV(p[2] if len(p) > 2 else None, 'field of unknown')
        if k == 'd':
            return v
        if k == 'e':
            if isinstance(v, VecV):
                if p[1] < len(v.es):
                    return v.es[p[1]]
                return TopV(None, 'infeasible index')
            if isinstance(v, StrV):
                return TopV(None, 'bytes of str')
            return TopV(None, 'element of unknown')
        if k == 'l':
            if isinstance(v, MapV):
                return v.log[p[1]][2]
        return TopV(None, 'projection %r' % (p,))

    def store(self, st, ref, val):
        if isinstance(ref, Cases):
            cs = [(g, r) for g, r in ref.cs if AND(g, st.pc)]
            for g, r in cs:
                if isinstance(r, Ref):
                    old = self.load(st, r)
                    self.store(st, r, ite(g, val, old))
            return
        if not isinstance(ref, Ref):
            return
        root = ref.root
        if not ref.path:
            st.mem[root] = val
            return
        v = self.load_root(st, root)
        st.mem[root] = self.update(st, v, ref.path, val)

    def update(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        k = p[0]
        if isinstance(v, Cases):
            if k == 'd':
                cs = []
                for g, x in v.cs:
                    if isinstance(x, AggV) and x.vi == p[1]:
                        x = self.update(st, x, path[1:], val)
                    cs.append((g, x))
                return Cases(cs)
            r = None
            for g, x in v.cs:
                y = self.update(st, x, path, val)
                r = y if r is None else ite(g, y, r)
            return r
        if k == 'd':
            return self.update(st, v, path[1:], val)
        if k == 'f':
            i = p[1]
            if isinstance(v, AggV):
                fs = list(v.fs)
                while len(fs) <= i:
                    fs.append(None)
                fs[i] = self.update(st, fs[i], path[1:], val)
                return AggV(v.ty, v.vi, tuple(fs))
            if v is None:
                fs = [None] * (i + 1)
                fs[i] = self.update(st, None, path[1:], val)
                return AggV(None, 0, tuple(fs))
            return v if isinstance(v, TopV) else TopV(None, 'written in part')
        if k == 'e':
            if isinstance(v, VecV) and p[1] < len(v.es):
                es = list(v.es)
                es[p[1]] = self.update(st, es[p[1]], path[1:], val)
                return VecV(tuple(es))
            return v if isinstance(v, (TopV, VecV)) else TopV(None, 'written in part')
        if k == 'l' and isinstance(v, MapV):
            log = list(v.log)
            g, kk, x = log[p[1]]
            log[p[1]] = (g, kk, self.update(st, x, path[1:], val))
            return MapV(tuple(log), v.ex)
        return v

    # -- places ----------------------------------------------------------
    def locate(self, st, fr, place):
        """(Ref or Cases of Refs or None, value) of a place; value-only places (strings) have no Ref."""
        local, proj = place
        root = (fr << 16) | local
        v = st.mem.get(root)
        if not proj:
            return Ref(root), v
        ref = Ref(root)
        for p in proj:
            k = p[0]
            if k == '*':
                if isinstance(v, Cases):
                    v = simp(v, st.pc)
                if isinstance(v, Ref):
                    ref = v
                    v = self.load(st, v)
                elif isinstance(v, Cases) and all(isinstance(x, Ref) for g, x in v.cs):
                    ref = v
                    v = self.load(st, v)
                elif isinstance(v, AggV) and v.ty == 'box':
                    ref = self.refext(ref, ('f', 0))
                    v = v.fs[0]
                elif isinstance(v, TopV):
                    ty = None
                    if v.ty is not None and self.types[v.ty]['k'] in ('ref', 'ptr'):
                        ty = self.types[v.ty]['e']
                    v = TopV(ty, v.why)
                    ref = None
                else:
                    if isinstance(v, Cases):
                        v = self.mapcases(v, lambda x: self.load(st, x), st.pc)
                    ref = None        # a by-value snapshot such as a string slice
                continue
            if k == 'i':
                idx = st.mem.get((fr << 16) | p[1])
                if isinstance(idx, IntV):
                    idx = simp(idx, st.pc)
                if isinstance(idx, IntV) and idx.c is not None:
                    q = ('e', idx.c)
                    v = self.proj(st, v, q)
                    ref = self.refext(ref, q)
                else:
                    v2 = v
                    if isinstance(v, VecV) and isinstance(idx, IntV):
                        r = None
                        rc = []
                        for j, x in enumerate(v.es):
                            g = ieq(idx, IntV(idx.w, j))
                            if AND(g, st.pc):
                                r = x if r is None else ite(g, x, r)
                                rc.append((g, self.refext(ref, ('e', j))))
                        v = r if r is not None else TopV(None, 'index')
                        ref = Cases(rc) if rc and ref is not None and isinstance(ref, Ref) else None
                        if isinstance(ref, Cases) and len(ref.cs) == 1:
                            ref = ref.cs[0][1]
                    elif isinstance(v, Cases):
                        def at(x):
                            if not isinstance(x, VecV):
                                return TopV(None, 'index')
                            r = None
                            for j, y in enumerate(x.es):
                                g = ieq(idx, IntV(idx.w, j)) if isinstance(idx, IntV) else 1
                                r = y if r is None else ite(g, y, r)
                            return r if r is not None else TopV(None, 'index')
                        v = self.mapcases(v, at, st.pc)
                        ref = None
                    else:
                        v = TopV(None, 'index')
                        ref = None
                continue
            if k == 'ci':
                def at(x, p=p):
                    if isinstance(x, VecV):
                        i = len(x.es) - p[1] if p[2] else p[1]
                        if 0 <= i < len(x.es):
                            return x.es[i]
                    return TopV(None, 'index')
                if isinstance(v, VecV) and ref is not None:
                    i = len(v.es) - p[1] if p[2] else p[1]
                    ref = self.refext(ref, ('e', i))
                elif isinstance(v, Cases) and not p[2] and ref is not None:
                    ref = self.refext(ref, ('e', p[1]))
                else:
                    ref = None
                v = self.mapcases(v, at, st.pc)
                continue
            if k == 'ss':
                def sub(x, p=p):
                    if isinstance(x, VecV):
                        return VecV(x.es[p[1]:len(x.es) - p[2]] if p[3] else x.es[p[1]:p[2]])
                    return TopV(None, 'subslice')
                v = self.mapcases(v, sub, st.pc)
                ref = None
                continue
            if k == 'f':
                q = ('f', p[1])
                if isinstance(v, AggV) and p[1] < len(v.fs):
                    if type(v.ty) is str and opaque(v.ty):
                        v = TopV(p[2] if len(p) > 2 else None, 'inside of ' + v.ty)
                        ref = None
                        continue
                    v = v.fs[p[1]]
                else:
                    if isinstance(v, Cases) and any(isinstance(x, AggV) and type(x.ty) is str and opaque(x.ty) for g, x in v.cs):
                        v = TopV(p[2] if len(p) > 2 else None, 'inside of model value')
                        ref = None
                        continue
                    v = self.proj(st, v, p)
                ref = self.refext(ref, q)
                continue
            if k == 'd':
                v = self.proj(st, v, p)
                ref = self.refext(ref, p)
                continue
            v = TopV(None, 'projection')
            ref = None
        return ref, v

    def refext(self, ref, p):
        if ref is None:
            return None
        if isinstance(ref, Cases):
            return Cases([(g, Ref(r.root, r.path + (p,))) for g, r in ref.cs])
        return Ref(ref.root, ref.path + (p,))

    def place_ty(self, body, place):
        t = body.locals[place[0]]
        types = self.types
        for p in place[1]:
            k = p[0]
            if k == 'f':
                t = p[2]
            elif k == '*':
                if t is None:
                    return None
                tt = types[t]
                t = tt.get('e') if tt['k'] in ('ref', 'ptr') else (tt['args'][0] if tt.get('args') else None)
            elif k in ('i', 'ci'):
                t = types[t].get('e') if t is not None else None
            elif k == 'd' or k == 'ss':
                pass
            else:
                return None
        return t

    def read(self, st, fr, body, place):
        local, proj = place
        if not proj:
            root = (fr << 16) | local
            v = st.mem.get(root)
            ref = None
        else:
            ref, v = self.locate(st, fr, place)
            root = None
        t = type(v)
        if t is IntV or t is AggV:
            return v
        if t is Cases:
            return simp(v, st.pc)
        if v is None:
            ty = self.place_ty(body, place)
            v = self.zst(ty)
            if v is None:
                v = TopV(ty, 'uninitialised')
        if t is TopV:
            ty = self.place_ty(body, place)
            nv = self.materialise(v, ty)
            if nv is not v:
                if root is not None:
                    st.mem[root] = nv
                elif ref is not None:
                    self.store(st, ref, nv)
                v = nv
        return v

    def zst(self, ty):
        if ty is None:
            return None
        t = self.types[ty]
        if t['k'] == 'tuple' and not t['es']:
            return UNIT
        if t['k'] == 'fndef':
            return FnV(t['f'])
        if t['k'] == 'closure' and not t['ups']:
            return AggV(ty, 0, ())
        if t['k'] == 'adt' and t['kind'] == 'struct' and t.get('vs') and not t['vs'][0]['f']:
            return AggV(ty, 0, ())
        return None

    def materialise(self, v, ty, depth=0):
        """Give an unknown value of scalar or enum type a representation with fresh weak bits."""
        if ty is None:
            ty = v.ty
        if ty is None:
            return v
        t = self.types[ty]
        k = t['k']
        if k == 'bool':
            return boolv(bdd.new_var('unk:' + v.why, True))
        if k == 'char':
            return self.fresh_int('unk:' + v.why, 32, 21, True)
        if k == 'int':
            return self.fresh_int('unk:' + v.why, t['w'], None, True, t['sg'])
        if k == 'float':
            self.heap += 1
            return fop('unk', self.heap, w=t['w'])
        if k == 'tuple':
            return AggV(ty, 0, tuple(TopV(e, v.why) for e in t['es']))
        if k == 'adt' and t.get('vs') and t.get('kind') == 'enum':
            n = len(t['vs'])
            if n > 40:
                return TopV(ty, v.why)
            cs = []
            rest = 1
            for i in range(n):
                fs = tuple(TopV(f['t'], v.why) for f in t['vs'][i]['f'])
                g = bdd.new_var('unk:' + v.why, True) if i < n - 1 else 1
                cs.append((AND(rest, g), AggV(ty, i, fs)))
                rest = AND(rest, g ^ 1)
            return Cases(cs) if n > 1 else cs[0][1]
        if k == 'adt' and t.get('kind') == 'struct' and t.get('vs') and t.get('local'):
            return AggV(ty, 0, tuple(TopV(f['t'], v.why) for f in t['vs'][0]['f']))
        if k == 'adt' and t.get('path') in ('std::string::String', 'alloc::string::String'):
            return StrTop(v.why)
        if k == 'ref' and self.types[t['e']]['k'] == 'str':
            return StrTop(v.why)
        return TopV(ty, v.why) if v.ty != ty else v

    def operand(self, st, fr, body, o):
        if o[0] == 'k':
            return o[1]
        return self.read(st, fr, body, o[1])

    # -- execution -------------------------------------------------------
    def call_body(self, st, bid, args):
        """Analyse a body; (state, value) at its return or None when it does not return."""
        body = self.w.body(bid)
        if len(self.stack) > 90:
            self.event('recursion', 'call depth above 90 at %s' % body.path, st.pc)
            raise Limit('recursion')
        for f in self.stack:
            if f[0] is body and body.local:
                n = sum(1 for g in self.stack if g[0] is body)
                if n > 30:
                    self.event('recursion', 'recursive call of %s' % body.path, st.pc)
                    raise Limit('recursion')
        self.fid += 1
        fr = self.fid
        base = fr << 16
        for i, a in enumerate(args):
            st.mem[base | (i + 1)] = a
        rets = []
        pend = {0: [st]}
        heap = [(body.order[0], 0)]
        visits = {}
        frame = [body, body.line]
        self.stack.append(frame)
        cov = self.covered.setdefault(body.path, set())
        order = body.order
        types = self.types
        try:
            while heap:
                _, bb = heapq.heappop(heap)
                sts = pend.pop(bb)
                if len(sts) > 1:
                    dead = body.dead[bb]
                    for s in sts:
                        mm = s.mem
                        for l in dead:
                            mm.pop(base | l, None)
                s = sts[0]
                for s2 in sts[1:]:
                    s = merge_states(s, s2)
                if s.pc == 0:
                    continue
                if bb in body.heads:
                    n = visits[bb] = visits.get(bb, 0) + 1
                    if n > self.LOOP_LIMIT:
                        self.event('loop', 'loop runs more than %d times' % self.LOOP_LIMIT, s.pc)
                        raise Limit('loop')
                    if self.deadline and time.time() > self.deadline:
                        raise Limit('time')
                    if n > 150 and bdd.weak_support(s.pc):
                        raise Limit('loop over unknown values')
                cov.add(bb)
                stmts, t = body.bbs[bb]
                self.steps += len(stmts) + 1
                mem = s.mem
                for stt in stmts:
                    if stt[0] == 0:
                        _, pl, rv, line = stt
                        v = self.eval(s, fr, body, rv, pl, frame, line)
                        if not pl[1]:
                            mem[base | pl[0]] = v
                        else:
                            self.assign(s, fr, body, pl, v)
                    elif stt[0] == 2:
                        mem.pop(base | stt[1], None)
                    else:
                        self.set_discr(s, fr, body, stt[1], stt[2])
                k = t[0]
                out = None
                if k == 'goto':
                    out = [(t[1], s)]
                elif k == 'switch':
                    frame[1] = t[4]
                    out = self.do_switch(s, fr, body, t)
                elif k == 'call':
                    frame[1] = t[5]
                    vals = [self.operand(s, fr, body, o) for o in t[2]]
                    dty = self.place_ty(body, t[3])
                    r = self.call(s, t[1], vals, dty, fr, body)
                    frame[1] = t[5]
                    if r is not None and t[4] is not None:
                        s, v = r
                        if s.pc:
                            if not t[3][1]:
                                s.mem[base | t[3][0]] = v
                            else:
                                self.assign(s, fr, body, t[3], v)
                            out = [(t[4], s)]
                elif k == 'assert':
                    frame[1] = t[5]
                    c = self.operand(s, fr, body, t[1])
                    e = self.edge(s, c)
                    if not t[2]:
                        e ^= 1
                    bad = AND(s.pc, e ^ 1)
                    if bad:
                        self.event('panic', t[3], bad)
                    s.pc = AND(s.pc, e)
                    if s.pc:
                        out = [(t[4], s)]
                elif k == 'return':
                    v = s.mem.get(base)
                    if v is None:
                        v = self.zst(body.locals[0]) or UNIT
                    rets.append((s, v))
                elif k == 'unreachable':
                    pass
                elif k == 'unk':
                    raise Limit('terminator ' + str(t))
                if out:
                    for b2, s2 in out:
                        if b2 in pend:
                            pend[b2].append(s2)
                        else:
                            pend[b2] = [s2]
                            heapq.heappush(heap, (order[b2], b2))
            if not rets:
                return None
            lo, hi = base, base + 65536
            for s, v in rets:
                mem = s.mem
                for k in [k for k in mem if type(k) is int and lo <= k < hi]:
                    del mem[k]
            return merge_results(rets)
        finally:
            self.stack.pop()

    def edge(self, st, v):
        """BDD edge of a boolean value."""
        if isinstance(v, IntV):
            return v.bits[0]
        if isinstance(v, Cases):
            r = 0
            for g, x in v.cs:
                r = OR(r, AND(g, self.edge(st, x)))
            return r
        return bdd.new_var('unk:bool', True)

    def do_switch(self, s, fr, body, t):
        v = self.operand(s, fr, body, t[1])
        if isinstance(v, Cases):
            v = self.mapcases(v, lambda x: x if isinstance(x, IntV) else TopV(None), s.pc)
        if not isinstance(v, IntV):
            # unknown discriminant: every target is possible
            out = []
            rest = 1
            for val, bb in t[2]:
                g = bdd.new_var('unk:switch', True)
                out.append((bb, s.with_pc(AND(s.pc, AND(rest, g)))))
                rest = AND(rest, g ^ 1)
            out.append((t[3], s.with_pc(AND(s.pc, rest))))
            return out
        if v.c is not None:
            for val, bb in t[2]:
                if val & MASKS[v.w] == v.c:
                    return [(bb, s)]
            return [(t[3], s)]
        rest = s.pc
        out = []
        w = v.w
        bits = v.bits
        for val, bb in t[2]:
            g = rest
            for i in range(w):
                x = bits[i]
                g = AND(g, x if (val >> i) & 1 else x ^ 1)
                if g == 0:
                    break
            if g:
                out.append((bb, g))
                rest = AND(rest, g ^ 1)
                if rest == 0:
                    break
        if rest and body.bbs[t[3]] is not None:
            if body.bbs[t[3]][1][0] != 'unreachable':
                out.append((t[3], rest))
        if len(out) == 1:
            s.pc = out[0][1]
            return [(out[0][0], s)]
        return [(bb, s.with_pc(g)) for bb, g in out]

    def assign(self, st, fr, body, pl, v):
        ref, old = self.locate(st, fr, pl)
        if ref is None:
            return
        self.store(st, ref, v)

    def set_discr(self, st, fr, body, pl, vi):
        ref, old = self.locate(st, fr, pl)
        ty = self.place_ty(body, pl)
        fs = old.fs if isinstance(old, AggV) else ()
        self.store(st, ref, AggV(ty, vi, fs))

    def discr_of(self, st, v, ty):
        if isinstance(v, AggV):
            t = v.ty if isinstance(v.ty, int) else ty
            if v.ty == 'Ordering':
                return IntV(8, (v.vi - 1) & 255, None, True)
            if t is not None and self.types[t].get('vs'):
                vs = self.types[t]['vs']
                if v.vi < len(vs):
                    d = vs[v.vi]['d']
                    return IntV(64, d & MASKS[64], None, True)
            return IntV(64, v.vi, None, True)
        return None

    def eval(self, st, fr, body, rv, pl, frame, line):
        k = rv[0]
        if k == 'use':
            o = rv[1]
            return o[1] if o[0] == 'k' else self.read(st, fr, body, o[1])
        if k == 'bin':
            a = self.operand(st, fr, body, rv[2])
            b = self.operand(st, fr, body, rv[3])
            frame[1] = line
            return self.binop(st, rv[1], a, b)
        if k == 'ref':
            place = rv[1]
            if not place[1]:
                return (MRef if rv[2] else Ref)((fr << 16) | place[0])
            if place[1] == (('*',),):
                v = st.mem.get((fr << 16) | place[0])
                if v is not None and not isinstance(v, AggV):
                    return v
            ref, v = self.locate(st, fr, place)
            if ref is None:
                ty = self.place_ty(body, place)
                if ty is not None and self.types[ty]['k'] in ('slice', 'array') or isinstance(v, VecV):
                    return self.alloc(st, v)
                if ty is not None and self.types[ty]['k'] != 'str' and not isinstance(v, (StrTop, TopV)) and place[1][-1] != ('*',):
                    return self.alloc(st, v)
                return v
            ty = self.place_ty(body, place)
            if ty is not None and self.types[ty]['k'] == 'str':
                return v
            return ref
        if k == 'agg':
            vs = tuple([self.operand(st, fr, body, o) for o in rv[4]])
            kind = rv[1]
            if kind == 'array':
                return VecV(vs)
            if kind == 'adt':
                t = self.types[rv[2]]
                if t.get('kind') == 'union':
                    return TopV(rv[2], 'union')
                return AggV(rv[2], rv[3], vs)
            if kind == 'tuple':
                if not vs:
                    return UNIT
                return AggV(self.place_ty(body, pl), 0, vs)
            return AggV(rv[2], 0, vs)
        if k == 'discr':
            ty = self.place_ty(body, rv[1])
            v = self.read(st, fr, body, rv[1])
            dt = self.place_ty(body, pl)
            w = self.types[dt]['w'] if dt is not None and self.types[dt]['k'] == 'int' else 64
            sg = self.types[dt].get('sg', True) if dt is not None else True
            if isinstance(v, Cases):
                r = None
                for g, x in v.cs:
                    y = self.discr_of(st, x, ty)
                    if y is None:
                        y = self.fresh_int('unk:discr', w, None, True)
                    else:
                        y = IntV(w, y.sval() & MASKS[w], None, sg)
                    r = y if r is None else ite(g, y, r)
                return r
            y = self.discr_of(st, v, ty)
            if y is None:
                return self.fresh_int('unk:discr', w, None, True, sg)
            return IntV(w, y.sval() & MASKS[w], None, sg)
        if k == 'cast':
            v = self.operand(st, fr, body, rv[2])
            return self.cast(st, rv[1], v, rv[3])
        if k == 'un':
            v = self.operand(st, fr, body, rv[2])
            return self.unop(st, rv[1], v, pl, body)
        if k == 'repeat':
            v = self.operand(st, fr, body, rv[1])
            if rv[2] < 0 or rv[2] > 100000:
                return TopV(None, 'repeat')
            return VecV((v,) * rv[2])
        return TopV(self.place_ty(body, pl), 'rvalue ' + k)

    def unop(self, st, op, v, pl=None, body=None):
        if isinstance(v, Cases):
            return self.mapcases(v, lambda x: self.unop(st, op, x), st.pc)
        if op == 'Not':
            if isinstance(v, IntV):
                if v.c is not None:
                    return IntV(v.w, ~v.c & MASKS[v.w], None, v.sg)
                return IntV(v.w, None, tuple(x ^ 1 for x in v.b), v.sg)
        elif op == 'Neg':
            if isinstance(v, IntV):
                return ineg(v)
            if isinstance(v, FloatV):
                return fscale(v, -1.0)
        elif op == 'PtrMetadata':
            x = self.load(st, v) if isinstance(v, (Ref, Cases)) else v
            def ln(y):
                if isinstance(y, VecV):
                    return ci(len(y.es))
                if isinstance(y, StrV):
                    return ci(y.blen())
                return self.fresh_int('unk:len', 64, None, True)
            return self.mapcases(x, ln, st.pc)
        ty = self.place_ty(body, pl) if body is not None else None
        return TopV(ty, 'unop ' + op)

    def cast(self, st, kind, v, ty):
        if isinstance(v, Cases):
            if kind.startswith(('Ptr', 'Pointer', 'FnPtr')):
                return v
            return self.mapcases(v, lambda x: self.cast(st, kind, x, ty), st.pc)
        t = self.types[ty]
        if kind == 'IntToInt':
            if isinstance(v, AggV):
                d = self.discr_of(st, v, None)
                if d is not None:
                    v = d
            if isinstance(v, IntV):
                if t['k'] == 'char':
                    return extend(v, 32, False)
                if t['k'] == 'bool':
                    return extend(v, 1, False)
                if t['k'] == 'int':
                    return extend(v, t['w'], t['sg'])
        elif kind == 'IntToFloat':
            if isinstance(v, IntV):
                return int_to_float(simp(v, st.pc), t['w'])
        elif kind == 'FloatToFloat':
            if isinstance(v, FloatV):
                if t['w'] == v.w:
                    return v
                if t['w'] == 64:
                    return FloatV(v.k, v.ts, 64)
                if not v.ts:
                    return FloatV(f32(v.k), (), 32)
                return fop('f32', v, w=32)
        elif kind == 'FloatToInt':
            if isinstance(v, FloatV):
                return self.float_to_int(st, v, t)
        elif kind == 'Transmute':
            if isinstance(v, IntV) and t['k'] == 'int':
                return extend(v, t['w'], t['sg'])
            if isinstance(v, IntV) and t['k'] == 'char':
                return extend(v, 32, False)
            return v
        elif kind.startswith(('Ptr', 'Pointer', 'FnPtr')):
            return v
        return TopV(ty, 'cast ' + kind)

    def float_to_int(self, st, v, t):
        w, sg = t['w'], t['sg']
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, MASKS[w])
        if not v.ts:
            if v.k != v.k:
                return IntV(w, 0, None, sg)
            x = hi if v.k >= hi else lo if v.k <= lo else int(v.k)
            return IntV(w, x & MASKS[w], None, sg)
        if len(v.ts) == 1 and v.ts[0][0].kind == 'int' and v.ts[0][1] == 1.0 and v.k == 0:
            iv = v.ts[0][0].args[0]
            a, b = irange(iv, st.pc)
            if lo <= a and b <= hi:
                return extend(iv, w, sg)
        # small support: tabulate
        atoms = [at for at, c in v.ts]
        if all(at.kind == 'int' for at in atoms):
            sup = set()
            for at in atoms:
                for x in at.args[0].bits:
                    sup |= bdd.support(x)
            if len(sup) <= 12:
                sup = sorted(sup)
                r = IntV(w, 0, None, sg)
                for m in range(1 << len(sup)):
                    a = {x: (m >> i) & 1 for i, x in enumerate(sup)}
                    g = 1
                    for x in reversed(sup):
                        g = AND(g, bdd.mk(x, 0, 1) if a[x] else bdd.mk(x, 1, 0))
                    if AND(g, st.pc) == 0:
                        continue
                    f = ev_float(v, a)
                    xx = hi if f >= hi else lo if f <= lo else int(f)
                    r = ite(g, IntV(w, xx & MASKS[w], None, sg), r)
                return r
        return self.fresh_int('unk:f2i', w, None, True, sg)

    def binop(self, st, op, a, b):
        if isinstance(a, Cases) or isinstance(b, Cases):
            a = simp(a, st.pc)
            b = simp(b, st.pc)
            if isinstance(a, Cases):
                return self.mapcases(a, lambda x: self.binop(st, op, x, b), st.pc)
            if isinstance(b, Cases):
                return self.mapcases(b, lambda x: self.binop(st, op, a, x), st.pc)
        if isinstance(a, IntV) and isinstance(b, IntV):
            return self.int_binop(st, op, a, b)
        if isinstance(a, FloatV) and isinstance(b, FloatV):
            return self.float_binop(st, op, a, b)
        if op in ('Eq', 'Ne') and isinstance(a, AggV) and isinstance(b, AggV):
            e = self.models.eq_values(self, st, a, b)
            return boolv(e if op == 'Eq' else e ^ 1)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return boolv(bdd.new_var('unk:cmp', True))
        if op.endswith('WithOverflow'):
            v = a if isinstance(a, IntV) else b
            if isinstance(v, IntV):
                return AggV(None, 0, (self.fresh_int('unk:arith', v.w, None, True, v.sg), boolv(bdd.new_var('unk:ovf', True))))
            return AggV(None, 0, (TopV(None, 'arith'), boolv(bdd.new_var('unk:ovf', True))))
        return TopV(a.ty if isinstance(a, TopV) else None, 'binop ' + op)

    def int_binop(self, st, op, a, b):
        if op == 'Eq':
            return boolv(ieq(a, b))
        if op == 'Ne':
            return boolv(ieq(a, b) ^ 1)
        if op == 'Lt':
            return boolv(ilt(a, b))
        if op == 'Ge':
            return boolv(ilt(a, b) ^ 1)
        if op == 'Gt':
            return boolv(ilt(b, a))
        if op == 'Le':
            return boolv(ilt(b, a) ^ 1)
        w = a.w
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            wide = op.endswith('WithOverflow')
            o = op[:3]
            if a.c is not None and b.c is not None:
                x, y = a.sval(), b.sval()
                r = x + y if o == 'Add' else x - y if o == 'Sub' else x * y
                v = IntV(w, r & MASKS[w], None, a.sg)
                if not wide:
                    return v
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if a.sg else (0, MASKS[w])
                return AggV(None, 0, (v, F if lo <= r <= hi else T))
            if not wide:
                if o == 'Add':
                    return iadd(a, b)
                if o == 'Sub':
                    return isub(a, b)
                if a.c is None and b.c is None and eff_bits(a) * eff_bits(b) > 200:
                    return self.fresh_int('unk:mul', w, None, True, a.sg)
                return extend(imul_wide(a, b), w, a.sg)
            if o == 'Mul':
                if a.c is None and b.c is None and eff_bits(a) * eff_bits(b) > 200:
                    return AggV(None, 0, (self.fresh_int('unk:mul', w, None, True, a.sg), boolv(bdd.new_var('unk:ovf', True))))
                r = imul_wide(a, b)
            else:
                x, y = extend(a, w + 1), extend(b, w + 1)
                r = iadd(x, y) if o == 'Add' else isub(x, y)
            v = extend(r, w, a.sg)
            # overflow: the wide result is not the extension of the narrow one
            back = extend(IntV(w, v.c, v.b, a.sg), r.w)
            return AggV(None, 0, (v, boolv(ieq(r, back) ^ 1)))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if a.c is not None and b.c is not None:
                r = a.c & b.c if op == 'BitAnd' else a.c | b.c if op == 'BitOr' else a.c ^ b.c
                return IntV(w, r, None, a.sg)
            f = AND if op == 'BitAnd' else OR if op == 'BitOr' else XOR
            return IntV(w, None, tuple([f(x, y) for x, y in zip(a.bits, b.bits)]), a.sg)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            left = op[:3] == 'Shl'
            if b.c is None:
                b = simp(b, st.pc)
            if b.c is not None:
                n = b.sval() % w if b.sval() >= 0 else b.sval() % w
                return shl_const(a, n) if left else shr_const(a, n)
            r = None
            nb = max(1, (w - 1).bit_length())
            for n in range(w):
                g = 1
                for i in range(nb):
                    g = AND(g, b.bits[i] if (n >> i) & 1 else b.bits[i] ^ 1)
                if AND(g, st.pc) == 0:
                    continue
                x = shl_const(a, n) if left else shr_const(a, n)
                r = x if r is None else ite(g, x, r)
            return r
        if op in ('Div', 'Rem'):
            if a.c is not None and b.c is not None and b.c != 0:
                x, y = a.sval(), b.sval()
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                r = x - q * y
                return IntV(w, (q if op == 'Div' else r) & MASKS[w], None, a.sg)
            if b.c is not None and b.c == 0:
                return IntV(w, 0, None, a.sg)
            if b.c is not None:
                lo, hi = irange(a, st.pc)
                y = b.sval()
                if y > 0 and lo >= 0:
                    if lo // y == hi // y:
                        q = IntV(w, lo // y, None, a.sg)
                        if op == 'Div':
                            return q
                        return isub(a, IntV(w, (lo // y * y) & MASKS[w], None, a.sg))
                    if hi < y:
                        return IntV(w, 0, None, a.sg) if op == 'Div' else a
                    if hi.bit_length() < eff_bits(a):
                        nb = hi.bit_length()
                        a = IntV(w, None, a.bits[:nb] + (0,) * (w - nb), a.sg)
                    if y & (y - 1) and y.bit_length() + eff_bits(a) > 26 and min(y.bit_length(), eff_bits(a) - y.bit_length()) > 12:
                        r = hi // y if op == 'Div' else y - 1
                        return self.fresh_int('unk:div', w, r.bit_length(), True, a.sg)
                    q, r = udivmod(a, b)
                    return q if op == 'Div' else r
                # signed: divide magnitudes
                if a.sg:
                    neg = a.bits[-1]
                    mag = ite(neg, ineg(a), a)
                    q, r = udivmod(mag, IntV(w, abs(y), None, True))
                    if op == 'Div':
                        s = neg ^ 1 if y < 0 else neg
                        return ite(s, ineg(q), q)
                    return ite(neg, ineg(r), r)
            return self.fresh_int('unk:div', w, None, True, a.sg)
        if op == 'Cmp':
            lt, eq = ilt(a, b), ieq(a, b)
            return self.models.ordering(self, lt, eq)
        return TopV(None, 'binop ' + op)

    def float_binop(self, st, op, a, b):
        w = a.w
        if not a.ts and not b.ts:
            x, y = a.k, b.k
            if op == 'Add':
                r = x + y
            elif op == 'Sub':
                r = x - y
            elif op == 'Mul':
                r = x * y
            elif op == 'Div':
                try:
                    r = x / y
                except ZeroDivisionError:
                    r = math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
            elif op == 'Rem':
                r = math.fmod(x, y) if y else math.nan
            else:
                r = {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
                return cb(r)
            return FloatV(f32(r) if w == 32 else r, (), w)
        if w == 32 and op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            # single precision rounding is visible: keep the operation as a term
            r = {'Add': lambda: flin(a, b, 1.0, 1.0), 'Sub': lambda: flin(a, b, 1.0, -1.0),
                 'Mul': lambda: fop('mul', a, b), 'Div': lambda: fop('div', a, b), 'Rem': lambda: fop('rem', a, b)}[op]()
            r = FloatV(r.k, r.ts, 64)
            return fop('f32', r, w=32)
        if op == 'Add':
            return flin(a, b, 1.0, 1.0)
        if op == 'Sub':
            return flin(a, b, 1.0, -1.0)
        if op == 'Mul':
            if not b.ts:
                return fscale(a, b.k)
            if not a.ts:
                return fscale(b, a.k)
            if a.key() == b.key():
                return fop('powi', a, 2)
            return fop('mul', a, b)
        if op == 'Div':
            if not b.ts and b.k != 0.0:
                return fscale(a, 1.0 / b.k)
            return fop('div', a, b)
        if op == 'Rem':
            return fop('rem', a, b)
        return boolv(self.float_cmp(st, op, a, b))

    def float_cmp(self, st, op, a, b):
        if op == 'Gt':
            return self.float_cmp(st, 'Lt', b, a)
        if op == 'Ge':
            return self.float_cmp(st, 'Le', b, a)
        if op == 'Ne':
            return self.float_cmp(st, 'Eq', a, b) ^ 1
        d = flin(a, b, 1.0, -1.0)
        if a.key() == b.key():
            return 1 if op in ('Eq', 'Le') else 0
        if all(t.kind == 'int' for t, c in d.ts) and len(d.ts) == 1:
            at, c = d.ts[0]
            iv = at.args[0]
            # c*iv + k <op> 0
            x = -d.k / c
            W = 80
            xi = extend(iv, W, iv.sg)
            xi = IntV(W, xi.c, xi.b, True)
            near = round(x)
            if abs(x - near) < 1e-6 * max(1.0, abs(x)) * 1e-3:
                lt, eq = ilt(xi, IntV(W, near & MASKS[W], None, True)), ieq(xi, IntV(W, near & MASKS[W], None, True))
            else:
                fl = math.floor(x)
                eq = 0
                lt = ilt(xi, IntV(W, (fl + 1) & MASKS[W], None, True))
            if op == 'Eq':
                return eq
            if c > 0:
                return lt if op == 'Lt' else OR(lt, eq)
            gt = OR(lt, eq) ^ 1
            return gt if op == 'Lt' else OR(gt, eq)
        # tabulate when the arguments depend on few bits
        t = self.tabulate(st, d)
        if t is not None:
            r = 0
            for g, x in t:
                if (x < 0 if op == 'Lt' else x <= 0 if op == 'Le' else x == 0):
                    r = OR(r, g)
            return r
        res, unk = (0, st.pc) if a.w == 32 else floatcmp.compare(op, d, st.pc)
        if unk == 0:
            return res
        if op == 'Eq':
            ks = sorted([repr(a.key()), repr(b.key())])
            x = self.atom(('feq',) + tuple(ks), 'float-eq', True)
        elif op == 'Le':
            x = self.atom(('flt', repr(b.key()), repr(a.key())), 'float-lt', True) ^ 1
        else:
            x = self.atom(('flt', repr(a.key()), repr(b.key())), 'float-lt', True)
        return OR(res, AND(unk, x))

    def tabulate(self, st, f, limit=12):
        sup = float_support(f)
        if sup is None or len(sup) > limit:
            return None
        sup = sorted(sup)
        out = []
        for m in range(1 << len(sup)):
            a = {x: (m >> i) & 1 for i, x in enumerate(sup)}
            g = 1
            for x in reversed(sup):
                g = AND(g, bdd.mk(x, 0, 1) if a[x] else bdd.mk(x, 1, 0))
            if AND(g, st.pc) == 0:
                continue
            v = ev_float(f, a)
            if v is None:
                return None
            out.append((g, v))
        return out

    # -- calls -----------------------------------------------------------
    def call(self, st, c, args, dty, fr=None, body=None):
        """Call of a resolved callee; (state, value) or None."""
        self.steps += 1
        if 'op' in c:
            f = self.operand(st, fr, body, c['op_d']) if 'op_d' in c else None
            if f is None:
                c['op_d'] = self.w.operand(c['op'])
                f = self.operand(st, fr, body, c['op_d'])
            return self.call_value(st, f, args, dty)
        if c.get('ctor') and c.get('body') is not None:
            t = self.types[dty] if dty is not None else None
            return self.call_body(st, c['body'], args)
        r = self.models.dispatch(self, st, c, args, dty)
        if r is not NotImplemented:
            return r
        bid = c.get('body')
        if bid is not None and bid in self.w.bodies and (self.w.bodies[bid]['local'] or not any(self.handle(st, a) for a in args)):
            return self.call_body(st, bid, self.adapt(c, bid, args))
        return self.unknown(st, c, args, dty)

    def handle(self, st, v, depth=0):
        """A library object of the models that gives write access to something: library code cannot be followed with it."""
        if isinstance(v, Cases):
            return any(self.handle(st, x, depth) for g, x in v.cs)
        if depth == 0 and isinstance(v, Ref):
            return self.handle(st, self.load(st, v), 1)
        if isinstance(v, AggV) and isinstance(v.ty, str):
            return self.writes(v, 0)
        return False

    def writes(self, v, depth):
        if isinstance(v, MRef):
            return True
        if isinstance(v, Cases):
            return any(self.writes(x, depth) for g, x in v.cs)
        if isinstance(v, AggV):
            return depth < 6 and any(self.writes(x, depth + 1) for x in v.fs)
        if isinstance(v, VecV):
            return any(self.writes(x, depth + 1) for x in v.es[:2])
        return False

    def adapt(self, c, bid, args):
        """Closure calls pass their arguments as a tuple."""
        if c.get('trait', '').startswith(('std::ops::Fn', 'core::ops::Fn', 'std::ops::function', 'core::ops::function')):
            b = self.w.body(bid)
            if b.spread is None and len(args) == 2 and isinstance(args[1], AggV):
                if b.argc != 2 or '{closure' in b.path:
                    return [args[0]] + list(args[1].fs)
        return args

    def call_value(self, st, f, args, dty=None):
        """Call of a function value (closure, fn item, fn pointer) with individual arguments."""
        if isinstance(f, Cases):
            outs = []
            for g, x in f.cs:
                pc = AND(st.pc, g)
                if pc:
                    r = self.call_value(st.with_pc(pc), x, args, dty)
                    if r is not None:
                        outs.append(r)
            return merge_results(outs)
        if isinstance(f, Ref):
            v = self.load(st, f)
            if isinstance(v, AggV) and isinstance(v.ty, int) and self.types[v.ty]['k'] == 'closure':
                return self.call_closure(st, v, f, args)
            return self.call_value(st, v, args, dty)
        if isinstance(f, FnV):
            return self.call(st, f.f, args, dty)
        if isinstance(f, AggV) and isinstance(f.ty, int) and self.types[f.ty]['k'] == 'closure':
            return self.call_closure(st, f, None, args)
        return st, TopV(dty, 'indirect call')

    def call_closure(self, st, v, ref, args):
        bid = self.types[v.ty]['body']
        b = self.w.body(bid)
        selfty = self.types[b.locals[1]]
        if selfty['k'] == 'ref':
            if ref is None:
                ref = self.alloc(st, v)
            a0 = ref
        else:
            a0 = v
        return self.call_body(st, bid, [a0] + list(args))

    def spoil(self, st, v, why, top, seen):
        """Whatever can be written through a value handed to unknown code is unknown afterwards."""
        if isinstance(v, Cases):
            for g, x in v.cs:
                self.spoil(st, x, why, top, seen)
        elif isinstance(v, Ref):
            if v.key() in seen:
                return
            seen.add(v.key())
            x = self.load(st, v)
            self.spoil(st, x, why, False, seen)
            if (top or isinstance(v, MRef)) and not (isinstance(v.root, int) and v.root < 0):
                self.store(st, v, TopV(None, why))
        elif isinstance(v, AggV):
            for x in v.fs:
                self.spoil(st, x, why, False, seen)
        elif isinstance(v, VecV) and len(v.es) < 100:
            for x in v.es:
                self.spoil(st, x, why, False, seen)

    def unknown(self, st, c, args, dty):
        p = c.get('rpath') or c.get('path')
        self.unknown_calls[p] = self.unknown_calls.get(p, 0) + 1
        # mutable references may have been written through
        if c.get('name') not in ('eq', 'ne', 'cmp', 'partial_cmp', 'hash', 'fmt', 'clone'):
            seen = set()
            for a in args:
                self.spoil(st, a, 'written by ' + (p or '?'), True, seen)
        v = TopV(dty, 'result of ' + (p or '?'))
        return st, self.materialise(v, dty)


def float_support(f):
    """Set of BDD variables a float term depends on, or None when it is not a function of them."""
    s = set()
    if isinstance(f, IntV):
        for x in f.bits:
            s |= bdd.support(x)
        return s
    if isinstance(f, (int, float, str)):
        return s
    if isinstance(f, StrV):
        for c in f.ch:
            r = float_support(c)
            s |= r
        return s
    if isinstance(f, FloatV):
        for at, c in f.ts:
            if at.kind == 'op' and at.args[0] == 'unk':
                return None
            if at.kind == 'ite':
                s |= bdd.support(at.args[0])
            for x in at.args:
                if isinstance(x, Val):
                    r = float_support(x)
                    if r is None:
                        return None
                    s |= r
        return s
    return None
