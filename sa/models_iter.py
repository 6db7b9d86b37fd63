"""Iterators: sources, adaptors, consumers."""
from .models import *
from .models import m, Unknown, split, split_int, sfield, deref, merge_results, State, Limit, TRAITMODELS
from . import models as M
from .models_str import ilist, split_next, checked_arith
from .models_coll import vec_of
from .models_fmt import char_len
from .models_map import entries
from .models_str import char_range

SKIP = object()
ITER_LIMIT = 1200


def deep(v):
    """Shape of an iterator value; equal shapes merge field by field."""
    if isinstance(v, AggV):
        return ('a', v.ty, v.vi) + tuple(deep(x) for x in v.fs)
    if isinstance(v, VecV):
        return ('v', len(v.es))
    if isinstance(v, StrV):
        return ('s', len(v.ch), v.bl)
    if isinstance(v, IntV):
        return 'i'
    if isinstance(v, Cases):
        return ('c',) + tuple(deep(x) for g, x in v.cs)
    return v.key()


def is_iter(I, v):
    if isinstance(v, AggV):
        if isinstance(v.ty, str):
            return v.ty.startswith('it:')
        if isinstance(v.ty, int):
            t = I.types[v.ty]
            return M.is_path(t, 'Range', 'RangeInclusive', 'RangeFrom') or local_next(I, v.ty) is not None
    return False


def local_next(I, ty, name='next', trait='Iterator'):
    k = (ty, name, trait)
    cache = I.w.__dict__.setdefault('_local_next', {})
    if k not in cache:
        r = None
        for b in I.w.bodies.values():
            if b.get('local') and b.get('name') == name and b.get('self_ty') == ty and trait in (b.get('impl_trait') or ''):
                r = b['id']
        cache[k] = r
    return cache[k]


def hold(I, st, f):
    """Closures with state live in memory so that calls can update them."""
    if isinstance(f, AggV) and isinstance(f.ty, int) and I.types[f.ty]['k'] == 'closure':
        return I.alloc(st, f)
    return f


def callf(I, st, f, args):
    """[(state, value)]"""
    r = I.call_value(st, f, args)
    return [] if r is None else [r]


def bool_split(I, st, v):
    e = I.edge(st, v)
    out = []
    p = AND(st.pc, e)
    q = AND(st.pc, e ^ 1)
    if p and q:
        return [(st.with_pc(p), True), (st.with_pc(q), False)]
    return [(st, bool(p))] if p or q else []


def opt_split(I, st, v):
    """Option value -> [(state, payload or None)]; payload wrapped in a 1-tuple"""
    out = []
    for s, x in split(I, st, v):
        if not isinstance(x, AggV):
            raise Unknown()
        out.append((s, (x.fs[0],) if x.vi == 1 else None))
    return out


def try_split(I, st, v, ty=None):
    """Try values: [(state, continue?, payload, value)] for Option, Result, ControlFlow."""
    out = []
    for s, x in split(I, st, v):
        if not isinstance(x, AggV) or not isinstance(x.ty, int):
            raise Unknown()
        p = I.types[x.ty].get('path', '')
        if p.endswith('Option'):
            out.append((s, x.vi == 1, x.fs[0] if x.fs else UNIT, x))
        elif p.endswith(('Result', 'ControlFlow')):
            out.append((s, x.vi == 0, x.fs[0] if x.fs else UNIT, x))
        else:
            raise Unknown()
    return out


def istep(I, st, it):
    """One step: [(state, iterator, item | None | SKIP)]."""
    if isinstance(it, Cases):
        out = []
        for s, x in split(I, st, it):
            out.extend(istep(I, s, x))
        return out
    if isinstance(it, Ref):
        v = I.load(st, it)
        if is_iter(I, v) or isinstance(v, (Ref, Cases)):
            if isinstance(v, (Ref, Cases)) and not isinstance(v, Ref):
                out = []
                for s, x in split(I, st, v):
                    for s2, x2, item in istep(I, s, x):
                        I.store(s2, it, x2)
                        out.append((s2, it, item))
                return out
            out = []
            for s, x, item in istep(I, st, v):
                I.store(s, it, x)
                out.append((s, it, item))
            return out
        raise Unknown()
    if not isinstance(it, AggV):
        raise Unknown()
    if isinstance(it.ty, int):
        return istep_adt(I, st, it)
    h = STEPS.get(it.ty.split(':')[1] if it.ty.startswith('it:') else None)
    if it.ty.startswith('it:split'):
        if isinstance(it.fs[0], FmtV) or isinstance(it.fs[2], Cases):
            raise Unknown()
        if isinstance(it.fs[2], IntV) and it.fs[2].c is None or it.fs[3].c is None:
            out = []
            for s, n in split_int(I, st, it.fs[2]):
                for s2, d in split_int(I, s, it.fs[3]):
                    out.extend(split_next(I, s2, AggV(it.ty, 0, (it.fs[0], it.fs[1], ci(n), cb(d)))))
            return out
        return split_next(I, st, it)
    if h is None:
        raise Unknown()
    return h(I, st, it)


def istep_adt(I, st, it):
    t = I.types[it.ty]
    if M.is_path(t, 'Range'):
        a, b = it.fs[0], it.fs[1]
        if not isinstance(a, IntV) or not isinstance(b, IntV):
            if isinstance(a, Cases) or isinstance(b, Cases):
                out = []
                for s, x in split(I, st, a):
                    for s2, y in split(I, s, b):
                        out.extend(istep_adt(I, s2, AggV(it.ty, 0, (x, y))))
                return out
            raise Unknown()
        lt = ilt(a, b)
        out = []
        p = AND(st.pc, lt)
        q = AND(st.pc, lt ^ 1)
        if p:
            out.append((st.with_pc(p) if q else st, AggV(it.ty, 0, (iadd(a, IntV(a.w, 1, None, a.sg)), b)), a))
        if q:
            out.append((st.with_pc(q) if p else st, it, None))
        return out
    if M.is_path(t, 'RangeInclusive'):
        a, b = it.fs[0], it.fs[1]
        ex = it.fs[2] if len(it.fs) > 2 and it.fs[2] is not None else F
        if not isinstance(a, IntV) or not isinstance(b, IntV):
            raise Unknown()
        e = I.edge(st, ex)
        lt = AND(ilt(a, b), e ^ 1)
        eq = AND(ieq(a, b), e ^ 1)
        out = []
        for g, nx, item in ((lt, AggV(it.ty, 0, (iadd(a, IntV(a.w, 1, None, a.sg)), b, F)), a), (eq, AggV(it.ty, 0, (a, b, T)), a),
                            (OR(lt, eq) ^ 1, it, None)):
            p = AND(st.pc, g)
            if p:
                out.append((st.with_pc(p), nx, item))
        return out
    if M.is_path(t, 'RangeFrom'):
        a = it.fs[0]
        return [(st, AggV(it.ty, 0, (iadd(a, IntV(a.w, 1, None, a.sg)),)), a)]
    b = local_next(I, it.ty)
    if b is not None:
        r = I.alloc(st, it)
        res = I.call_body(st, b, [r])
        if res is None:
            return []
        s, v = res
        out = []
        for s2, x in opt_split(I, s, v):
            out.append((s2, I.load(s2, r), x[0] if x else None))
        return out
    raise Unknown()


STEPS = {}


def step(name):
    def deco(f):
        STEPS[name] = f
        return f
    return deco


def mk(name, *fs):
    return AggV('it:' + name, 0, tuple(fs))


@step('list')
def _s_list(I, st, it):
    out = []
    for s, v in split(I, st, it.fs[0]):
        if not isinstance(v, VecV):
            raise Unknown()
        if v.es:
            out.append((s, mk('list', VecV(v.es[1:])), v.es[0]))
        else:
            out.append((s, it, None))
    return out


@step('glist')
def _s_glist(I, st, it):
    out = []
    for s, v in split(I, st, it.fs[0]):
        if not isinstance(v, VecV):
            raise Unknown()
        if not v.es:
            out.append((s, it, None))
            continue
        nx = mk('glist', VecV(v.es[1:]))
        for s2, b in bool_split(I, s, v.es[0].fs[0]):
            out.append((s2, nx, v.es[0].fs[1] if b else SKIP))
    return out


@step('map')
def _s_map(I, st, it):
    out = []
    for s, n, x in istep(I, st, it.fs[0]):
        if x is None or x is SKIP:
            out.append((s, mk('map', n, it.fs[1]), x))
        else:
            for s2, y in callf(I, s, it.fs[1], [x]):
                out.append((s2, mk('map', n, it.fs[1]), y))
    return out


@step('filter')
def _s_filter(I, st, it):
    out = []
    for s, n, x in istep(I, st, it.fs[0]):
        nx = mk('filter', n, it.fs[1])
        if x is None or x is SKIP:
            out.append((s, nx, x))
        else:
            for s2, y in callf(I, s, it.fs[1], [I.alloc(s, x)]):
                for s3, b in bool_split(I, s2, y):
                    out.append((s3, nx, x if b else SKIP))
    return out


@step('filter_map')
def _s_filter_map(I, st, it):
    out = []
    for s, n, x in istep(I, st, it.fs[0]):
        nx = mk('filter_map', n, it.fs[1])
        if x is None or x is SKIP:
            out.append((s, nx, x))
        else:
            for s2, y in callf(I, s, it.fs[1], [x]):
                for s3, z in opt_split(I, s2, y):
                    out.append((s3, nx, z[0] if z else SKIP))
    return out


@step('map_while')
def _s_map_while(I, st, it):
    out = []
    for s, n, x in istep(I, st, it.fs[0]):
        nx = mk('map_while', n, it.fs[1])
        if x is None or x is SKIP:
            out.append((s, nx, x))
        else:
            for s2, y in callf(I, s, it.fs[1], [x]):
                for s3, z in opt_split(I, s2, y):
                    out.append((s3, nx, z[0] if z else None))
    return out


@step('take_while')
def _s_take_while(I, st, it):
    if it.fs[2].c == 1:
        return [(st, it, None)]
    out = []
    for s, n, x in istep(I, st, it.fs[0]):
        if x is None or x is SKIP:
            out.append((s, mk('take_while', n, it.fs[1], F), x))
        else:
            for s2, y in callf(I, s, it.fs[1], [I.alloc(s, x)]):
                for s3, b in bool_split(I, s2, y):
                    out.append((s3, mk('take_while', n, it.fs[1], F if b else T), x if b else None))
    return out


@step('skip_while')
def _s_skip_while(I, st, it):
    out = []
    for s, n, x in istep(I, st, it.fs[0]):
        if x is None or x is SKIP or it.fs[2].c == 1:
            out.append((s, mk('skip_while', n, it.fs[1], it.fs[2]), x))
        else:
            for s2, y in callf(I, s, it.fs[1], [I.alloc(s, x)]):
                for s3, b in bool_split(I, s2, y):
                    out.append((s3, mk('skip_while', n, it.fs[1], F if b else T), SKIP if b else x))
    return out


@step('take')
def _s_take(I, st, it):
    out = []
    for s1, k in split_int(I, st, it.fs[1]):
        if k <= 0:
            out.append((s1, mk('take', it.fs[0], ci(0)), None))
            continue
        for s, n, x in istep(I, s1, it.fs[0]):
            out.append((s, mk('take', n, ci(k if x is None or x is SKIP else k - 1)), x))
    return out


@step('skip')
def _s_skip(I, st, it):
    out = []
    for s1, k in split_int(I, st, it.fs[1]):
        for s, n, x in istep(I, s1, it.fs[0]):
            if k > 0 and x is not None and x is not SKIP:
                out.append((s, mk('skip', n, ci(k - 1)), SKIP))
            else:
                out.append((s, mk('skip', n, ci(k)), x))
    return out


@step('step_by')
def _s_step_by(I, st, it):
    # fields: inner, step, number to skip before the next item
    out = []
    k, w = it.fs[1].c, it.fs[2]
    for s1, n0 in split_int(I, st, w):
        for s, n, x in istep(I, s1, it.fs[0]):
            if x is None or x is SKIP:
                out.append((s, mk('step_by', n, it.fs[1], ci(n0)), x))
            elif n0 > 0:
                out.append((s, mk('step_by', n, it.fs[1], ci(n0 - 1)), SKIP))
            else:
                out.append((s, mk('step_by', n, it.fs[1], ci(k - 1)), x))
    return out


@step('enumerate')
def _s_enum(I, st, it):
    out = []
    for s, n, x in istep(I, st, it.fs[0]):
        if x is None or x is SKIP:
            out.append((s, mk('enumerate', n, it.fs[1]), x))
        else:
            out.append((s, mk('enumerate', n, iadd(it.fs[1], ci(1))), AggV(None, 0, (it.fs[1], x))))
    return out


@step('zip')
def _s_zip(I, st, it):
    # third field: pending item of the first iterator
    out = []
    if it.fs[2].vi == 1:
        firsts = [(st, it.fs[0], it.fs[2].fs[0])]
    else:
        firsts = istep(I, st, it.fs[0])
    for s, n, x in firsts:
        if x is None or x is SKIP:
            out.append((s, mk('zip', n, it.fs[1], AggV('pend', 0, ())), x))
            continue
        for s2, n2, y in istep(I, s, it.fs[1]):
            if y is SKIP:
                out.append((s2, mk('zip', n, n2, AggV('pend', 1, (x,))), SKIP))
            elif y is None:
                out.append((s2, mk('zip', n, n2, AggV('pend', 0, ())), None))
            else:
                out.append((s2, mk('zip', n, n2, AggV('pend', 0, ())), AggV(None, 0, (x, y))))
    return out


@step('chain')
def _s_chain(I, st, it):
    out = []
    if it.fs[2].c == 0:
        for s, n, x in istep(I, st, it.fs[0]):
            if x is None:
                for s2, n2, y in istep(I, s, it.fs[1]):
                    out.append((s2, mk('chain', UNIT, n2, T), y))
            else:
                out.append((s, mk('chain', n, it.fs[1], F), x))
        return out
    for s, n, x in istep(I, st, it.fs[1]):
        out.append((s, mk('chain', UNIT, n, T), x))
    return out


@step('deref')
def _s_deref(I, st, it):
    out = []
    for s, n, x in istep(I, st, it.fs[0]):
        out.append((s, mk('deref', n), x if x is None or x is SKIP else I.load(s, x)))
    return out


@step('inspect')
def _s_inspect(I, st, it):
    out = []
    for s, n, x in istep(I, st, it.fs[0]):
        if x is None or x is SKIP:
            out.append((s, mk('inspect', n, it.fs[1]), x))
        else:
            for s2, y in callf(I, s, it.fs[1], [I.alloc(s, x)]):
                out.append((s2, mk('inspect', n, it.fs[1]), x))
    return out


@step('scan')
def _s_scan(I, st, it):
    out = []
    for s, n, x in istep(I, st, it.fs[0]):
        nx = mk('scan', n, it.fs[1], it.fs[2])
        if x is None or x is SKIP:
            out.append((s, nx, x))
        else:
            for s2, y in callf(I, s, it.fs[2], [it.fs[1], x]):
                for s3, z in opt_split(I, s2, y):
                    out.append((s3, nx, z[0] if z else None))
    return out


@step('flat')
def _s_flat(I, st, it):
    # fields: outer, current inner or unit
    cur = it.fs[1]
    out = []
    if isinstance(cur, Cases):
        for s, x in split(I, st, cur):
            out.extend(_s_flat(I, s, mk('flat', it.fs[0], x)))
        return out
    if cur is not UNIT:
        for s, n, x in istep(I, st, cur):
            if x is None:
                out.append((s, mk('flat', it.fs[0], UNIT), SKIP))
            else:
                out.append((s, mk('flat', it.fs[0], n), x))
        return out
    for s, n, x in istep(I, st, it.fs[0]):
        if x is None or x is SKIP:
            out.append((s, mk('flat', n, UNIT), x))
        else:
            for s2, y in into_iter(I, s, x):
                out.append((s2, mk('flat', n, y), SKIP))
    return out


@step('cycle')
def _s_cycle(I, st, it):
    out = []
    for s, n, x in istep(I, st, it.fs[0]):
        if x is None:
            for s2, n2, y in istep(I, s, it.fs[1]):
                out.append((s2, mk('cycle', n2, it.fs[1]), y))
        else:
            out.append((s, mk('cycle', n, it.fs[1]), x))
    return out


@step('fromfn')
def _s_fromfn(I, st, it):
    out = []
    for s, y in callf(I, st, it.fs[0], []):
        for s2, z in opt_split(I, s, y):
            out.append((s2, it, z[0] if z else None))
    return out


@step('succ')
def _s_succ(I, st, it):
    out = []
    for s, z in opt_split(I, st, it.fs[0]):
        if z is None:
            out.append((s, it, None))
        else:
            for s2, y in callf(I, s, it.fs[1], [I.alloc(s, z[0])]):
                out.append((s2, mk('succ', y, it.fs[1]), z[0]))
    return out


@step('repeat')
def _s_repeat(I, st, it):
    return [(st, it, it.fs[0])]


@step('peek')
def _s_peek(I, st, it):
    # fields: inner, pending (pend#0 none, pend#1 peeked Some(x), pend#2 peeked None)
    out = []
    p = it.fs[1]
    for s, q in split(I, st, p):
        if q.vi == 1:
            out.append((s, mk('peek', it.fs[0], AggV('pend', 0, ())), q.fs[0]))
        elif q.vi == 2:
            out.append((s, mk('peek', it.fs[0], AggV('pend', 0, ())), None))
        else:
            for s2, n, x in istep(I, s, it.fs[0]):
                out.append((s2, mk('peek', n, q), x))
    return out


@step('fuse')
def _s_fuse(I, st, it):
    return [(s, mk('fuse', n), x) for s, n, x in istep(I, st, it.fs[0])]


def group(outs):
    """Join [(state, tuple of values)] whose first value has the same deep shape."""
    g = {}
    order = []
    for s, vs in outs:
        k = deep(vs[0])
        if k not in g:
            g[k] = []
            order.append(k)
        g[k].append((s, AggV('tup', 0, vs)))
    res = []
    for k in order:
        r = merge_results(g[k])
        if r[0].pc:
            res.append((r[0], r[1].fs))
    return res


def inext(I, st, it):
    """Like Iterator::next: [(state, iterator, item|None)]"""
    out = []
    active = [(st, (it,))]
    n = 0
    while active:
        nx = []
        for s, (i,) in active:
            for s2, i2, x in istep(I, s, i):
                if x is SKIP:
                    nx.append((s2, (i2,)))
                else:
                    out.append((s2, i2, x))
        active = group(nx) if len(nx) > 1 else nx
        n += 1
        if n > max(ITER_LIMIT, 2 * I.LOOP_LIMIT):
            limit(I, active[0][0])
    return out


def limit(I, st):
    I.event('loop', 'iterator runs more than %d times' % max(ITER_LIMIT, 2 * I.LOOP_LIMIT), st.pc)
    raise Limit('loop')


def drain(I, st, it, acc, f):
    """Fold: f(state, acc, item) -> [(state, acc, go_on)].  Returns [(state, iterator, acc, exhausted)]."""
    done = []
    active = [(st, (it, acc))]
    n = 0
    while active:
        nx = []
        for s, (i, a) in active:
            for s2, i2, x in istep(I, s, i):
                if x is None:
                    done.append((s2, i2, a, True))
                elif x is SKIP:
                    nx.append((s2, (i2, a)))
                else:
                    for s3, a2, go in f(s2, a, x):
                        if go:
                            nx.append((s3, (i2, a2)))
                        else:
                            done.append((s3, i2, a2, False))
        active = group(nx) if len(nx) > 1 else nx
        n += 1
        if n > max(ITER_LIMIT, 2 * I.LOOP_LIMIT):
            limit(I, active[0][0])
    return done


def over(I, st, a0, acc, f):
    """drain over the iterator argument, by value or behind &mut."""
    if isinstance(a0, Ref):
        v = I.load(st, a0)
        res = []
        for s, i, ac, ex in drain(I, st, v, acc, f):
            I.store(s, a0, i)
            res.append((s, ac, ex))
        return res
    return [(s, ac, ex) for s, i, ac, ex in drain(I, st, a0, acc, f)]


def into_iter(I, st, v):
    """[(state, iterator)] of anything iterable"""
    out = []
    for s, x in split(I, st, v):
        if is_iter(I, x):
            out.append((s, x))
            continue
        if isinstance(x, Ref):
            y = I.load(s, x)
            for s2, z in split(I, s, y):
                if is_iter(I, z):
                    out.append((s2, x))
                elif isinstance(z, Ref):
                    out.extend(into_iter(I, s2, z))
                elif isinstance(z, VecV):
                    out.append((s2, ilist([Ref(x.root, x.path + (('e', i),)) for i in range(len(z.es))])))
                elif isinstance(z, MapV):
                    out.append((s2, map_iter(I, s2, z, True, x)))
                elif isinstance(z, AggV) and isinstance(z.ty, int) and M.is_path(I.types[z.ty], 'Option'):
                    out.append((s2, ilist([Ref(x.root, x.path + (('d', 1), ('f', 0)))] if z.vi == 1 else [])))
                else:
                    raise Unknown()
            continue
        if isinstance(x, VecV):
            out.append((s, ilist(x.es)))
        elif isinstance(x, MapV):
            out.append((s, map_iter(I, s, x, False)))
        elif isinstance(x, AggV) and isinstance(x.ty, int) and M.is_path(I.types[x.ty], 'Option'):
            out.append((s, ilist([x.fs[0]] if x.vi == 1 else [])))
        elif isinstance(x, AggV) and isinstance(x.ty, int) and M.is_path(I.types[x.ty], 'Result'):
            out.append((s, ilist([x.fs[0]] if x.vi == 0 else [])))
        elif isinstance(x, AggV) and isinstance(x.ty, int) and local_next(I, x.ty, 'into_iter', 'IntoIterator') is not None:
            r = I.call_body(s, local_next(I, x.ty, 'into_iter', 'IntoIterator'), [x])
            if r is not None:
                out.extend(into_iter(I, *r))
        else:
            raise Unknown()
    return out


def map_iter(I, st, v, byref, ref=None):
    its = []
    for g, k, x in entries(I, st, v):
        if x is UNIT:
            y = I.alloc(st, k) if byref else k
        else:
            y = AggV(None, 0, (I.alloc(st, k), I.alloc(st, x)) if byref else (k, x))
        its.append(AggV(None, 0, (boolv(g), y)))
    return AggV('it:glist', 0, (VecV(tuple(its)),))


# ---------------------------------------------------------------- sources

@m('IntoIterator::into_iter')
def _into_iter(I, st, a, c):
    return [(s, x) for s, x in into_iter(I, st, a[0])]


@m('[]::iter', '[]::iter_mut', 'slice::iter', 'Vec::iter', 'BitSlice::iter', 'VecDeque::iter', 'BitSlice::by_refs', 'BitSlice::iter_mut')
def _iter(I, st, a, c):
    R = MRef if c.c['name'] == 'iter_mut' else Ref
    return [(s, ilist([R(r.root, r.path + (('e', i),)) for i in range(len(v.es))])) for s, r, v in vec_of(I, st, a[0])]


@m('BitSlice::by_vals', 'Iter::by_vals', 'Iter::by_refs', 'Iter::by_ref')
def _byvals(I, st, a, c):
    v = a[0]
    if is_iter(I, v):
        return mk('deref', v) if c.c['name'] == 'by_vals' else v
    return [(s, ilist(v.es)) for s, r, v in vec_of(I, st, v)]


@m('Vec::drain', 'VecDeque::drain', spec='mv')
def _drain(I, st, a, c):
    from .models_coll import slice_range
    out = []
    for s, r, v in sfield(I, st, a[0]):
        if not isinstance(v, VecV):
            raise Unknown()
        for s2, b in slice_range(I, s, v, a[1]):
            if b is None:
                M.panic(I, s2, 'drain out of range')
                continue
            I.store(s2, r, VecV(v.es[:b[0]] + v.es[b[1]:]))
            out.append((s2, ilist(v.es[b[0]:b[1]])))
    return out


@m('[]::chunks', '[]::chunks_exact', '[]::windows', 'BitSlice::chunks', 'BitSlice::chunks_exact', 'BitSlice::windows', '[]::rchunks', spec='rv')
def _chunks(I, st, a, c):
    out = []
    n_ = c.c['name']
    for s, r, v in vec_of(I, st, a[0]):
        for s2, n in split_int(I, s, a[1]):
            if n == 0:
                M.panic(I, s2, 'chunk size zero')
                continue
            es = v.es
            if n_ == 'windows':
                ls = [es[i:i + n] for i in range(len(es) - n + 1)]
            elif n_ == 'rchunks':
                ls = [es[max(0, i - n):i] for i in range(len(es), 0, -n)]
            else:
                ls = [es[i:i + n] for i in range(0, len(es), n)]
                if n_ == 'chunks_exact' and ls and len(ls[-1]) < n:
                    ls.pop()
            out.append((s2, ilist([I.alloc(s2, VecV(x)) for x in ls])))
    return out


@m('[]::split', '[]::splitn', 'BitSlice::split')
def _vsplit(I, st, a, c):
    if c.c['name'] != 'split':
        raise Unknown()
    out = []
    for s, r, v in vec_of(I, st, a[0]):
        # positions must be known for each element
        acts = [(s, [], [])]
        f = hold(I, s, a[1])
        for i, e in enumerate(v.es):
            nx = []
            for s1, parts, cur in acts:
                for s2, y in callf(I, s1, f, [Ref(r.root, r.path + (('e', i),))]):
                    for s3, b in bool_split(I, s2, y):
                        nx.append((s3, parts + [cur], []) if b else (s3, parts, cur + [e]))
            acts = nx
            if len(acts) > 200:
                raise Unknown()
        for s1, parts, cur in acts:
            out.append((s1, ilist([I.alloc(s1, VecV(tuple(p))) for p in parts + [cur]])))
    return out


@m('Option::iter', 'Option::into_iter', 'Result::iter')
def _oiter(I, st, a, c):
    return into_iter(I, st, a[0])


@m('once::once', 'iter::once', 'sources::once')
def _once(I, st, a, c):
    return ilist([a[0]])


@m('empty::empty', 'iter::empty')
def _empty(I, st, a, c):
    return ilist([])


@m('repeat::repeat', 'iter::repeat')
def _repeat(I, st, a, c):
    return mk('repeat', a[0])


@m('repeat_n::repeat_n', 'iter::repeat_n', spec='rv')
def _repeat_n(I, st, a, c):
    return mk('take', mk('repeat', a[0]), a[1])


@m('from_fn::from_fn', 'iter::from_fn')
def _from_fn(I, st, a, c):
    return mk('fromfn', hold(I, st, a[0]))


@m('successors::successors', 'iter::successors')
def _succ(I, st, a, c):
    return mk('succ', a[0], hold(I, st, a[1]))


@m('iter::zip', 'zip::zip')
def _izip(I, st, a, c):
    return [(s2, mk('zip', x, y, AggV('pend', 0, ()))) for s, x in into_iter(I, st, a[0]) for s2, y in into_iter(I, s, a[1])]


# ---------------------------------------------------------------- adaptors

def want_iter(I, st, v):
    if isinstance(v, Cases):
        for g, x in v.cs:
            if AND(g, st.pc) and not is_iter(I, x) and not isinstance(x, Ref):
                raise Unknown()
        return v
    if isinstance(v, Ref) or is_iter(I, v):
        return v
    raise Unknown()


def _ad(name, *extra):
    def f(I, st, a, c):
        fs = [want_iter(I, st, a[0])] + [hold(I, st, x) for x in a[1:]] + list(extra)
        return mk(name, *fs)
    return f


for _n, _a in (('map', _ad('map')), ('filter', _ad('filter')), ('filter_map', _ad('filter_map')), ('map_while', _ad('map_while')),
               ('take_while', _ad('take_while', F)), ('skip_while', _ad('skip_while', F)), ('enumerate', _ad('enumerate', ci(0))),
               ('cloned', _ad('deref')), ('copied', _ad('deref')), ('inspect', _ad('inspect')), ('fuse', _ad('fuse')),
               ('peekable', _ad('peek', AggV('pend', 0, ())))):
    MODELS['Iterator::' + _n] = (_a, '')


@m('Iterator::take', 'Iterator::skip', spec='rv')
def _take(I, st, a, c):
    it = want_iter(I, st, a[0])
    n = c.c['name']
    if isinstance(it, AggV) and it.ty == 'it:list' and isinstance(it.fs[0], VecV) and a[1].c is not None:
        k = a[1].c
        return ilist(it.fs[0].es[:k] if n == 'take' else it.fs[0].es[k:])
    return mk(n, it, a[1])


@m('Iterator::step_by', spec='rv')
def _step_by(I, st, a, c):
    out = []
    for s, n in split_int(I, st, a[1]):
        if n == 0:
            M.panic(I, s, 'step_by(0)')
        else:
            out.append((s, mk('step_by', want_iter(I, s, a[0]), ci(n), ci(0))))
    return out


@m('Iterator::zip')
def _zip(I, st, a, c):
    return [(s, mk('zip', want_iter(I, s, a[0]), y, AggV('pend', 0, ()))) for s, y in into_iter(I, st, a[1])]


@m('Iterator::chain')
def _chain(I, st, a, c):
    return [(s, mk('chain', want_iter(I, s, a[0]), y, F)) for s, y in into_iter(I, st, a[1])]


@m('Iterator::by_ref')
def _by_ref(I, st, a, c):
    return a[0]


@m('Iterator::scan')
def _scan(I, st, a, c):
    return mk('scan', want_iter(I, st, a[0]), I.alloc(st, a[1]), hold(I, st, a[2]))


@m('Iterator::flat_map')
def _flat_map(I, st, a, c):
    return mk('flat', mk('map', want_iter(I, st, a[0]), hold(I, st, a[1])), UNIT)


@m('Iterator::flatten')
def _flatten(I, st, a, c):
    return mk('flat', want_iter(I, st, a[0]), UNIT)


@m('Iterator::cycle')
def _cycle(I, st, a, c):
    it = want_iter(I, st, a[0])
    return mk('cycle', it, it)


def reverse(I, st, it):
    """[(state, iterator from the back)]"""
    if isinstance(it, Cases):
        return [r for s, x in split(I, st, it) for r in reverse(I, s, x)]
    if isinstance(it, AggV) and isinstance(it.ty, int) and is_iter(I, it):
        t = I.types[it.ty]
        if M.is_path(t, 'Range', 'RangeInclusive'):
            out = []
            for s, x in split_int(I, st, it.fs[0]):
                for s2, y in split_int(I, s, it.fs[1]):
                    w, sg = it.fs[0].w, it.fs[0].sg
                    hi = y + 1 if M.is_path(t, 'RangeInclusive') else y
                    if len(it.fs) > 2 and it.fs[2] is not None and it.fs[2].c == 1:
                        hi = x
                    out.append((s2, ilist([IntV(w, i & MASKS[w], None, sg) for i in range(hi - 1, x - 1, -1)])))
            return out
        raise Unknown()
    if not isinstance(it, AggV) or not isinstance(it.ty, str):
        raise Unknown()
    k = it.ty
    if k in ('it:list', 'it:glist'):
        return [(s, AggV(k, 0, (VecV(v.es[::-1]),))) for s, v in split(I, st, it.fs[0])]
    if k in ('it:map', 'it:filter', 'it:filter_map', 'it:deref', 'it:inspect', 'it:fuse'):
        return [(s, AggV(k, 0, (n,) + it.fs[1:])) for s, n in reverse(I, st, it.fs[0])]
    if k == 'it:chain' and it.fs[2].c == 0:
        return [(s2, mk('chain', y, x, F)) for s, x in reverse(I, st, it.fs[0]) for s2, y in reverse(I, s, it.fs[1])]
    if k.startswith('it:split') and isinstance(it.fs[2], IntV) and it.fs[2].c is not None and it.fs[2].c > (1 << 39) and ':i' not in k:
        kind = k[len('it:split'):]
        if ':t' in kind:
            raise Unknown()
        return [(st, AggV('it:split' + (kind[1:] if kind.startswith('r') else 'r' + kind), 0, it.fs))]
    # materialise
    out = []
    if k in ('it:enumerate', 'it:zip', 'it:take', 'it:skip', 'it:step_by', 'it:flat'):
        for s, i, acc, ex in drain(I, st, it, VecV(()), lambda s, a, x: [(s, VecV(a.es + (x,)), True)] if isinstance(a, VecV) else unk()):
            for s2, v in split(I, s, acc):
                out.append((s2, ilist(v.es[::-1])))
        return out
    raise Unknown()


def unk():
    raise Unknown()


@m('Iterator::rev')
def _rev(I, st, a, c):
    return reverse(I, st, a[0])


@m('DoubleEndedIterator::next_back', spec='m')
def _next_back(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        for s1, b in reverse(I, s, v):
            for s2, n, x in inext(I, s1, b):
                for s3, f in reverse(I, s2, n):
                    I.store(s3, r, f)
                    out.append((s3, c.none() if x is None else c.some(x)))
    return out


# ---------------------------------------------------------------- consumers

@m('Iterator::next')
def _next(I, st, a, c):
    out = []
    for s0, r0 in split(I, st, a[0]):
        if not isinstance(r0, Ref):
            raise Unknown()
        v0 = I.load(s0, r0)
        for s, i, x in inext(I, s0, v0):
            I.store(s, r0, i)
            out.append((s, c.none() if x is None else c.some(x)))
    return out


@m('Peekable::peek', 'Peekable::next_if', 'Peekable::next_if_eq', 'Peekable::peek_mut', spec='mr')
def _peek(I, st, a, c):
    out = []
    n = c.c['name']
    for s, r, v in sfield(I, st, a[0]):
        if not (isinstance(v, AggV) and v.ty == 'it:peek'):
            raise Unknown()
        for s1, q in split(I, s, v.fs[1]):
            if q.vi == 0:
                steps = [(s2, i, None if x is None else (x,)) for s2, i, x in inext(I, s1, v.fs[0])]
            else:
                steps = [(s1, v.fs[0], (q.fs[0],) if q.vi == 1 else None)]
            for s2, i, x in steps:
                pend = AggV('pend', 1, x) if x else AggV('pend', 2, ())
                if n in ('peek', 'peek_mut'):
                    I.store(s2, r, mk('peek', i, pend))
                    out.append((s2, c.some(Ref(r.root, r.path + (('f', 1), ('f', 0)))) if x else c.none()))
                elif x is None:
                    I.store(s2, r, mk('peek', i, pend))
                    out.append((s2, c.none()))
                else:
                    if n == 'next_if':
                        rs = callf(I, s2, a[1], [I.alloc(s2, x[0])])
                    else:
                        rs = [(s2, boolv(M.eq_values(I, s2, x[0], a[1])))]
                    for s3, y in rs:
                        for s4, b in bool_split(I, s3, y):
                            I.store(s4, r, mk('peek', i, AggV('pend', 0, ()) if b else pend))
                            out.append((s4, c.some(x[0]) if b else c.none()))
    return out


def by_value(a0):
    return a0


@m('Iterator::nth', spec='rv')
def _nth(I, st, a, c):
    out = []
    for s0, k in split_int(I, st, a[1]):
        for s, acc, ex in over(I, s0, a[0], AggV('acc', 0, (ci(k), UNIT)),
                               lambda s, ac, x: [(s, AggV('acc', 0, (isub(ac.fs[0], ci(1)), UNIT)), True)] if ac.fs[0].c != 0 else [(s, AggV('acc', 1, (x,)), False)]):
            out.append((s, c.none() if ex else c.some(acc.fs[0])))
    return out


@m('Iterator::fold')
def _fold(I, st, a, c):
    f = hold(I, st, a[2])
    return [(s, acc) for s, acc, ex in over(I, st, a[0], a[1], lambda s, ac, x: [(s2, y, True) for s2, y in callf(I, s, f, [ac, x])])]


@m('Iterator::try_fold', 'Iterator::try_for_each')
def _try_fold(I, st, a, c):
    each = c.c['name'] == 'try_for_each'
    f = hold(I, st, a[-1])

    def g(s, ac, x):
        out = []
        for s2, y in callf(I, s, f, [x] if each else [ac.fs[0], x]):
            for s3, go, p, full in try_split(I, s2, y):
                out.append((s3, AggV('acc', 0, (p,)) if go else AggV('acc', 1, (full,)), go))
        return out
    out = []
    t = I.types[c.dty]
    vi = 1 if t.get('path', '').endswith('Option') else 0
    for s, ac, ex in over(I, st, a[0], AggV('acc', 0, (UNIT if each else a[1],)), g):
        out.append((s, AggV(c.dty, vi, ac.fs) if ex else ac.fs[0]))
    return out


@m('Iterator::reduce')
def _reduce(I, st, a, c):
    f = hold(I, st, a[1])

    def g(s, ac, x):
        if isinstance(ac, Cases):
            out = []
            for s2, y in split(I, s, ac):
                out.extend(g(s2, y, x))
            return out
        if ac.vi == 0:
            return [(s, AggV('acc', 1, (x,)), True)]
        return [(s2, AggV('acc', 1, (y,)), True) for s2, y in callf(I, s, f, [ac.fs[0], x])]
    return finish_opt(I, over(I, st, a[0], AggV('acc', 0, ()), g), c)


def finish_opt(I, outs, c):
    res = []
    for s, ac, ex in outs:
        for s2, y in split(I, s, ac):
            res.append((s2, c.some(y.fs[0]) if y.vi == 1 else c.none()))
    return res


@m('Iterator::for_each')
def _for_each(I, st, a, c):
    f = hold(I, st, a[1])
    return [(s, UNIT) for s, acc, ex in over(I, st, a[0], UNIT, lambda s, ac, x: [(s2, UNIT, True) for s2, y in callf(I, s, f, [x])])]


@m('Iterator::count')
def _count(I, st, a, c):
    return [(s, acc) for s, acc, ex in over(I, st, a[0], ci(0), lambda s, ac, x: [(s, iadd(ac, ci(1)), True)])]


@m('ExactSizeIterator::len')
def _elen(I, st, a, c):
    v = deref(I, st, a[0])
    return [(s, acc) for s, i, acc, ex in drain(I, st, v, ci(0), lambda s, ac, x: [(s, iadd(ac, ci(1)), True)])]


@m('Iterator::sum', 'Iterator::product')
def _sum(I, st, a, c):
    t = I.types[c.dty]
    mul = c.c['name'] == 'product'
    if t['k'] == 'int':
        z = IntV(t['w'], 1 if mul else 0, None, t['sg'])
    elif t['k'] == 'float':
        z = fconst(1.0 if mul else 0.0, t['w'])
    else:
        raise Unknown()

    def f(s, ac, x):
        v = checked_arith(I, s, 'Mul' if mul else 'Add', ac, x)
        return [(s, v, True)] if s.pc else []
    return [(s, acc) for s, acc, ex in over(I, st, a[0], z, f)]


def _anyall(name):
    def f(I, st, a, c):
        g = hold(I, st, a[1])

        def h(s, ac, x):
            out = []
            for s2, y in callf(I, s, g, [x]):
                for s3, b in bool_split(I, s2, y):
                    out.append((s3, UNIT, b == (name == 'all')))
            return out
        return [(s, cb(ex == (name == 'all'))) for s, acc, ex in over(I, st, a[0], UNIT, h)]
    return f


MODELS['Iterator::any'] = (_anyall('any'), '')
MODELS['Iterator::all'] = (_anyall('all'), '')


@m('Iterator::find', 'Iterator::position', 'Iterator::find_map', 'Iterator::rposition', 'DoubleEndedIterator::rfind')
def _find(I, st, a, c):
    n = c.c['name']
    g = hold(I, st, a[1])
    if n in ('rposition', 'rfind'):
        outs = []
        src = I.load(st, a[0])
        if n == 'rposition':
            cnt = [(s, acc) for s, i, acc, ex in drain(I, st, src, ci(0), lambda s, ac, x: [(s, iadd(ac, ci(1)), True)])]
        else:
            cnt = [(st, ci(0))]
        work = [(s2, b, k) for s, k in cnt for s2, b in reverse(I, s, src)]
    else:
        work = [(st, a[0], ci(0))]

    out = []
    for s0, it, k0 in work:
        def h(s, ac, x):
            r = []
            arg = I.alloc(s, x) if n in ('find', 'rfind') else x
            for s2, y in callf(I, s, g, [arg]):
                if n == 'find_map':
                    for s3, z in opt_split(I, s2, y):
                        r.append((s3, AggV('acc', 0, (z[0],)) if z else ac, z is None))
                    continue
                for s3, b in bool_split(I, s2, y):
                    if n in ('find', 'rfind'):
                        r.append((s3, AggV('acc', 0, (x,)) if b else ac, not b))
                    elif n == 'position':
                        r.append((s3, ac if b else AggV('acc', 0, (iadd(ac.fs[0], ci(1)),)), not b))
                    else:
                        r.append((s3, AggV('acc', 0, (isub(ac.fs[0], ci(1)),)), not b))
            return r
        for s, ac, ex in over(I, s0, it, AggV('acc', 0, (k0,)), h):
            out.append((s, c.none() if ex else c.some(ac.fs[0])))
    return out


@m('Iterator::last')
def _last(I, st, a, c):
    return finish_opt(I, over(I, st, a[0], AggV('acc', 0, ()), lambda s, ac, x: [(s, AggV('acc', 1, (x,)), True)]), c)


def _extreme(name):
    def f(I, st, a, c):
        keyf = hold(I, st, a[1]) if name.endswith('_by_key') or name.endswith('_by') else None

        def h(s, ac, x):
            out = []
            for s1, y in split(I, s, ac):
                if name.endswith('_by_key'):
                    for s2, k in callf(I, s1, keyf, [I.alloc(s1, x)]):
                        if y.vi == 0:
                            out.append((s2, AggV('acc', 1, (x, k)), True))
                            continue
                        out.append((s2, pick(I, s2, y, x, k), True))
                elif name.endswith('_by'):
                    if y.vi == 0:
                        out.append((s1, AggV('acc', 1, (x, UNIT)), True))
                        continue
                    for s2, o in callf(I, s1, keyf, [I.alloc(s1, y.fs[0]), I.alloc(s1, x)]):
                        gt = 0
                        for g, z in (o.cs if isinstance(o, Cases) else ((1, o),)):
                            if not isinstance(z, AggV):
                                raise Unknown()
                            if z.vi == 2:
                                gt = OR(gt, g)
                        keep = gt if name.startswith('max') else gt ^ 1
                        out.append((s2, AggV('acc', 1, (ite(keep, y.fs[0], x), UNIT)), True))
                else:
                    if y.vi == 0:
                        out.append((s1, AggV('acc', 1, (x, x)), True))
                    else:
                        out.append((s1, pick(I, s1, y, x, x), True))
            return out

        def pick(I, s, y, x, k):
            lt, eq = M.lt_values(I, s, k, y.fs[1])
            take = lt if name.startswith('min') else lt ^ 1
            return AggV('acc', 1, (ite(take, x, y.fs[0]), ite(take, k, y.fs[1])))
        return finish_opt(I, over(I, st, a[0], AggV('acc', 0, ()), h), c)
    return f


for _n in ('min', 'max', 'min_by_key', 'max_by_key', 'min_by', 'max_by'):
    MODELS['Iterator::' + _n] = (_extreme(_n), '')


@m('Iterator::eq', 'Iterator::ne', 'Iterator::cmp', 'Iterator::lt')
def _ieq(I, st, a, c):
    if c.c['name'] not in ('eq', 'ne'):
        raise Unknown()
    t = I.types[c.dty]

    def col(s, it):
        r = []
        for s1, i in into_iter(I, s, it):
            for s2, i2, acc, ex in drain(I, s1, i, VecV(()), lambda s, ac, x: [(s, vpush(ac, x), True)]):
                r.append((s2, acc))
        return r
    out = []
    for s, x in col(st, a[0]):
        for s2, y in col(s, a[1]):
            e = M.eq_values(I, s2, x, y)
            out.append((s2, boolv(e if c.c['name'] == 'eq' else e ^ 1)))
    return out


@m('Iterator::size_hint')
def _sh(I, st, a, c):
    raise Unknown()


# collecting

def vpush(v, x):
    if isinstance(v, Cases):
        r = None
        for g, y in v.cs:
            z = vpush(y, x)
            r = z if r is None else ite(g, z, r)
        return r
    if not isinstance(v, VecV):
        raise Unknown()
    return VecV(v.es + (x,))


def spush(I, st, v, x):
    """[(state, string)] v with x appended"""
    out = []
    for s, y in split(I, st, deref(I, st, x)):
        if isinstance(y, IntV):
            bl = char_len(I, s, y)
            if bl is None:
                for lo, hi, n in ((0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xffff, 3), (0x10000, 0x10ffff, 4)):
                    p = AND(s.pc, char_range(y, lo, hi))
                    if p:
                        out.append((s.with_pc(p), scat(v, StrV((y,), None if n == 1 else (n,)))))
                continue
            out.append((s, scat(v, StrV((y,), None if bl == 1 else (bl,)))))
        elif isinstance(y, StrV):
            out.append((s, scat(v, y)))
        else:
            raise Unknown()
    return out


def scat(v, x):
    if isinstance(v, Cases):
        r = None
        for g, y in v.cs:
            z = scat(y, x)
            r = z if r is None else ite(g, z, r)
        return r
    return strcat([v, x])


def collect(I, st, it, ty):
    """[(state, collection)]"""
    t = I.types[ty]
    if M.is_path(t, 'Vec', 'VecDeque', 'BitVec') or (M.is_path(t, 'Box') and I.types[t['args'][0]]['k'] == 'slice'):
        if isinstance(it, AggV) and it.ty == 'it:list' and isinstance(it.fs[0], VecV):
            return [(st, it.fs[0])]
        return [(s, acc) for s, acc, ex in over(I, st, it, VecV(()), lambda s, ac, x: [(s, vpush(ac, x), True)])]
    if M.is_path(t, 'String') or (M.is_path(t, 'Box') and I.types[t['args'][0]]['k'] == 'str'):
        return [(s, acc) for s, acc, ex in over(I, st, it, StrV(()), lambda s, ac, x: [(s2, y, True) for s2, y in spush(I, s, ac, x)])]
    if M.is_path(t, 'Option', 'Result'):
        inner = t['args'][0]
        opt = M.is_path(t, 'Option')
        items = []

        def f(s, ac, x):
            out = []
            for s2, y in split(I, s, x):
                if not isinstance(y, AggV):
                    raise Unknown()
                good = y.vi == (1 if opt else 0)
                out.append((s2, vpush(ac, y.fs[0]) if good else AggV('bad', 0, () if opt else (y.fs[0],)), good))
            return out
        out = []
        for s, ac, ex in over(I, st, it, VecV(()), f):
            if ex:
                for s2, v in split(I, s, ac):
                    for s3, w in collect(I, s2, ilist(v.es), inner):
                        out.append((s3, AggV(ty, 1 if opt else 0, (w,))))
            else:
                out.append((s, AggV(ty, 0, ()) if opt else AggV(ty, 1, ac.fs)))
        return out
    if M.is_path(t, 'HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        isset = M.is_path(t, 'HashSet', 'BTreeSet')

        def h(s, ac, x):
            if isset:
                return [(s, MapV(ac.log + ((1, x, UNIT),)), True)]
            if not isinstance(x, AggV):
                raise Unknown()
            return [(s, MapV(ac.log + ((1, x.fs[0], x.fs[1]),)), True)]
        return [(s, acc) for s, acc, ex in over(I, st, it, MapV(), h)]
    if t['k'] == 'tuple' and not t['es']:
        return [(s, UNIT) for s, acc, ex in over(I, st, it, UNIT, lambda s, ac, x: [(s, UNIT, True)])]
    b = local_next(I, ty, 'from_iter', 'FromIterator')
    if b is not None:
        r = I.call_body(st, b, [it])
        return [] if r is None else [r]
    raise Unknown()


@m('Iterator::collect', 'FromIterator::from_iter')
def _collect(I, st, a, c):
    out = []
    for s, it in into_iter(I, st, a[0]):
        out.extend(collect(I, s, it, c.dty))
    return out


@m('Extend::extend', spec='mr')
def _extend(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        for s1, it in into_iter(I, s, a[1]):
            if isinstance(v, VecV):
                rs = drain(I, s1, it, v, lambda s, ac, x: [(s, vpush(ac, I.load(s, x) if isinstance(x, Ref) and c.c.get('args') and I.types[c.targs[-1]]['k'] == 'ref' else x), True)])
            elif isinstance(v, StrV):
                rs = drain(I, s1, it, v, lambda s, ac, x: [(s2, y, True) for s2, y in spush(I, s, ac, x)])
            elif isinstance(v, MapV):
                rs = drain(I, s1, it, v, lambda s, ac, x: [(s, MapV(ac.log + ((1, x.fs[0], x.fs[1]) if isinstance(x, AggV) else (1, x, UNIT),)), True)])
            else:
                raise Unknown()
            for s2, i, acc, ex in rs:
                I.store(s2, r, acc)
                out.append((s2, UNIT))
    return out


@m('Iterator::partition')
def _partition(I, st, a, c):
    f = hold(I, st, a[1])

    def h(s, ac, x):
        out = []
        for s2, y in callf(I, s, f, [I.alloc(s, x)]):
            for s3, b in bool_split(I, s2, y):
                out.append((s3, AggV('acc', 0, (vpush(ac.fs[0], x), ac.fs[1]) if b else (ac.fs[0], vpush(ac.fs[1], x))), True))
        return out
    return [(s, AggV(c.dty, 0, acc.fs)) for s, acc, ex in over(I, st, a[0], AggV('acc', 0, (VecV(()), VecV(()))), h)]


@m('Iterator::unzip')
def _unzip(I, st, a, c):
    def h(s, ac, x):
        if not isinstance(x, AggV):
            raise Unknown()
        return [(s, AggV('acc', 0, (vpush(ac.fs[0], x.fs[0]), vpush(ac.fs[1], x.fs[1]))), True)]
    out = []
    t = I.types[c.dty]
    for s, acc, ex in over(I, st, a[0], AggV('acc', 0, (VecV(()), VecV(()))), h):
        for s1, v1 in split(I, s, acc.fs[0]):
            for s2, v2 in split(I, s1, acc.fs[1]):
                for s3, w1 in collect(I, s2, ilist(v1.es), t['es'][0]):
                    for s4, w2 in collect(I, s3, ilist(v2.es), t['es'][1]):
                        out.append((s4, AggV(c.dty, 0, (w1, w2))))
    return out


@m('array::map', '[]::map')
def _amap(I, st, a, c):
    f = hold(I, st, a[1])
    return [(s, acc) for s, acc, ex in over(I, st, ilist(M.want_vec(a[0]).es), VecV(()),
                                            lambda s, ac, x: [(s2, vpush(ac, y), True) for s2, y in callf(I, s, f, [x])])]


@m('[]::sort', '[]::sort_unstable', 'Vec::dedup', '[]::sort_by_key', '[]::binary_search', '[]::sort_by', '[]::binary_search_by_key', '[]::binary_search_by')
def _sort(I, st, a, c):
    n = c.c['name']
    if n.startswith('binary_search'):
        return bsearch(I, st, a, c)
    if n in ('sort', 'sort_unstable'):
        out = []
        for s, r, v in sfield(I, st, a[0]):
            es = list(M.want_vec(v).es)
            if all(isinstance(e, IntV) and e.c is not None for e in es):
                I.store(s, r, VecV(tuple(sorted(es, key=lambda e: e.sval()))))
                out.append((s, UNIT))
            else:
                raise Unknown()
        return out
    raise Unknown()


def bsearch(I, st, a, c):
    """Result of a binary search; the slice is checked to be sorted by constants."""
    n = c.c['name']
    out = []
    for s, r, v in vec_of(I, st, a[0]):
        keys = []
        if n == 'binary_search':
            target = a[1]
            cmps = [M.lt_values(I, s, e, target) for e in v.es]
        elif n == 'binary_search_by_key':
            f = hold(I, s, a[2])
            cmps = []
            for i in range(len(v.es)):
                rs = callf(I, s, f, [Ref(r.root, r.path + (('e', i),))])
                if len(rs) != 1:
                    raise Unknown()
                s = rs[0][0]
                cmps.append(M.lt_values(I, s, rs[0][1], a[1]))
        else:
            f = hold(I, s, a[1])
            cmps = []
            for i in range(len(v.es)):
                rs = callf(I, s, f, [Ref(r.root, r.path + (('e', i),))])
                if len(rs) != 1:
                    raise Unknown()
                s = rs[0][0]
                lt = eq = 0
                o = rs[0][1]
                for g, z in (o.cs if isinstance(o, Cases) else ((1, o),)):
                    if not isinstance(z, AggV):
                        raise Unknown()
                    if z.vi == 0:
                        lt = OR(lt, g)
                    elif z.vi == 1:
                        eq = OR(eq, g)
                cmps.append((lt, eq))
        # the algorithm of the standard library
        size = len(v.es)

        def go(base, size, pc):
            # branchless loop of core::slice::binary_search_by
            acts = {base: pc}
            while size > 1:
                half = size // 2
                nx = {}
                for b, p in acts.items():
                    lt, eq = cmps[b + half]
                    gt = OR(lt, eq) ^ 1
                    q = AND(p, gt)
                    if q:
                        nx[b] = OR(nx.get(b, 0), q)
                    q = AND(p, gt ^ 1)
                    if q:
                        nx[b + half] = OR(nx.get(b + half, 0), q)
                acts = nx
                size -= half
            return acts
        if size == 0:
            out.append((s, c.err(ci(0))))
            continue
        for b, p in go(0, size, s.pc).items():
            lt, eq = cmps[b]
            q = AND(p, eq)
            if q:
                out.append((s.with_pc(q), c.ok(ci(b))))
            q = AND(p, eq ^ 1)
            if q:
                out.append((s.with_pc(q), AggV(c.dty, 1, (iadd(ci(b), extend(boolv(lt), 64)),))))
    return out


@m('Vec::retain', 'VecDeque::retain', spec='mr')
def _vretain(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        for s2, acc, ex in over(I, s, mk('filter', ilist(want_vec(v).es), a[1]), VecV(()), lambda s, ac, x: [(s, vpush(ac, x), True)]):
            I.store(s2, r, acc)
            out.append((s2, UNIT))
    return out


@m('Drop::drop', spec='')
def _nodrop(I, st, a, c):
    """Storage only: the contents are dropped by the compiled code's own drop glue."""
    if c.c.get('rcrate') not in ('alloc', 'core', 'std'):
        raise Unknown()
    return [(st, UNIT)]
