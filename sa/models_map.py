"""Maps and sets as guarded write logs."""
from .models import *
from .models import m, Unknown, split, split_int, sfield, deref
from . import models as M
from .models_str import ilist


def present(I, st, v, key):
    """(edge present, value if present) for a MapV."""
    p = 0
    val = None
    for g, k, x in v.log:
        e = AND(g, M.eq_values(I, st, k, key))
        if e == 0:
            continue
        if x is None:
            p = AND(p, e ^ 1)
        else:
            val = x if val is None else ite(e, x, val)
            p = OR(p, e)
    return p, val


def lookup(I, st, v, key):
    """[(state, 0/1, value)]"""
    p, val = present(I, st, v, deref(I, st, key))
    out = []
    q = AND(st.pc, p)
    if q:
        out.append((st.with_pc(q), 1, val))
    q = AND(st.pc, p ^ 1)
    if q:
        out.append((st.with_pc(q), 0, None))
    return out


def _map(v):
    if isinstance(v, MapV):
        return v
    raise Unknown()


MAPS = ('HashMap', 'BTreeMap')
SETS = ('HashSet', 'BTreeSet')


def mm(*names, spec='', types=MAPS):
    def deco(f):
        for t in types:
            for n in names:
                MODELS[t + '::' + n] = (f, spec)
        return f
    return deco


@mm('new', 'with_capacity', 'with_hasher', types=MAPS + SETS)
def _new(I, st, a, c):
    if a and isinstance(a[0], IntV) and not M.capacity(I, st, a[0]):
        return None
    return st, MapV()


@mm('insert', spec='mrr')
def _insert(I, st, a, c):
    out = []
    k = deref(I, st, a[1])
    for s, r, v in sfield(I, st, a[0]):
        p, val = present(I, s, _map(v), k)
        p = p if AND(p, s.pc) else 0
        I.store(s, r, MapV(v.log + ((1, k, a[2]),), v.ex))
        res = c.none() if p == 0 else ite(p, c.some(val), c.none())
        out.append((s, res))
    return out


@mm('insert', spec='mr', types=SETS)
def _sinsert(I, st, a, c):
    out = []
    k = deref(I, st, a[1])
    for s, r, v in sfield(I, st, a[0]):
        p, val = present(I, s, _map(v), k)
        I.store(s, r, MapV(v.log + ((1, k, UNIT),), v.ex))
        out.append((s, boolv(p ^ 1)))
    return out


@mm('remove', 'remove_entry', 'take', spec='mr', types=MAPS + SETS)
def _remove(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        k = deref(I, s, a[1])
        p, val = present(I, s, _map(v), k)
        if AND(p, s.pc) == 0:
            out.append((s, c.none() if c.dty is not None and I.types[c.dty]['k'] == 'adt' else F))
            continue
        I.store(s, r, MapV(v.log + ((p, k, None),), v.ex))
        if I.types[c.dty]['k'] == 'bool':
            out.append((s, boolv(p)))
        elif c.c['name'] == 'remove_entry':
            out.append((s, ite(p, c.some(AggV(c.inner(), 0, (k, val))), c.none())))
        else:
            out.append((s, ite(p, c.some(val), c.none())))
    return out


@mm('contains_key', 'contains', spec='dr', types=MAPS + SETS)
def _contains(I, st, a, c):
    p, val = present(I, st, _map(a[0]), deref(I, st, a[1]))
    return boolv(p)


@mm('get', 'get_key_value', spec='dr', types=MAPS + SETS)
def _get(I, st, a, c):
    k = deref(I, st, a[1])
    p, val = present(I, st, _map(a[0]), k)
    if AND(p, st.pc) == 0:
        return c.none()
    r = I.alloc(st, val)
    if c.c['name'] == 'get_key_value':
        r = AggV(c.inner(), 0, (I.alloc(st, k), r))
    return ite(p, c.some(r), c.none())


@mm('get_mut', spec='mr')
def _get_mut(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        k = deref(I, s, a[1])
        p, val = present(I, s, _map(v), k)
        q = AND(s.pc, p)
        if q:
            s2 = s.with_pc(q)
            I.store(s2, r, MapV(v.log + ((1, k, val),), v.ex))
            out.append((s2, c.some(MRef(r.root, r.path + (('l', len(v.log)),)))))
        q = AND(s.pc, p ^ 1)
        if q:
            out.append((s.with_pc(q), c.none()))
    return out


@mm('entry', spec='mr')
def _entry(I, st, a, c):
    vs = [v['n'] for v in I.types[c.dty]['vs']]
    out = []
    for s, r, v in sfield(I, st, a[0]):
        r = MRef(r.root, r.path)
        k = deref(I, s, a[1])
        p, val = present(I, s, _map(v), k)
        q = AND(s.pc, p)
        if q:
            out.append((s.with_pc(q), AggV('entry', vs.index('Occupied'), (AggV('occupied', 0, (r, k)),))))
        q = AND(s.pc, p ^ 1)
        if q:
            out.append((s.with_pc(q), AggV('entry', vs.index('Vacant'), (AggV('vacant', 0, (r, k)),))))
    return out


def place(I, st, v):
    """[(state, occupied, map reference, key, map, value)] of an entry, its parts or a reference to them"""
    out = []
    for s, x in split(I, st, v):
        if isinstance(x, Ref):
            out += place(I, s, I.load(s, x))
        elif isinstance(x, AggV) and x.ty == 'entry':
            out += place(I, s, x.fs[0])
        elif isinstance(x, AggV) and x.ty in ('occupied', 'vacant'):
            for s2, r in split(I, s, x.fs[0]):
                for s3, k in split(I, s2, x.fs[1]) if isinstance(x.fs[1], Cases) else [(s2, x.fs[1])]:
                    for s4, mv in split(I, s3, I.load(s3, r)):
                        val = present(I, s4, _map(mv), k)[1] if x.ty == 'occupied' else None
                        if x.ty == 'occupied' and val is None:
                            raise Unknown()
                        out.append((s4, x.ty == 'occupied', r, k, mv, val))
        else:
            raise Unknown()
    return out


def put(I, s, r, mv, k, val):
    """Store an entry; the reference to its value."""
    I.store(s, r, MapV(mv.log + ((1, k, val),), mv.ex))
    return MRef(r.root, r.path + (('l', len(mv.log)),))


def _or_insert(I, st, a, c):
    out = []
    for s, occ, r, k, mv, val in place(I, st, a[0]):
        n = c.c['name']
        if not occ:
            if n == 'or_insert':
                val = a[1]
            elif n == 'or_default':
                val = M.default_of(I, I.types[c.dty]['e'])
                if val is None:
                    raise Unknown()
            else:
                x = I.call_value(s, a[1], [I.alloc(s, k)] if n == 'or_insert_with_key' else [])
                if x is None:
                    continue
                s, val = x
                mv = _map(I.load(s, r))
        out.append((s, put(I, s, r, mv, k, val)))
    return out


for _n in ('or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key'):
    MODELS['Entry::' + _n] = (_or_insert, 'rr')


@m('Entry::key', 'OccupiedEntry::key', 'VacantEntry::key', 'VacantEntry::into_key')
def _ekey(I, st, a, c):
    return [(s, k if c.c['name'] == 'into_key' else I.alloc(s, k)) for s, occ, r, k, mv, val in place(I, st, a[0])]


@m('Entry::and_modify')
def _and_modify(I, st, a, c):
    out = []
    for s, x in split(I, st, a[0]):
        for s2, occ, r, k, mv, val in place(I, s, x):
            if occ:
                y = I.call_value(s2, a[1], [put(I, s2, r, mv, k, val)])
                if y is None:
                    continue
                s2 = y[0]
            out.append((s2, x))
    return out


@m('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut', 'OccupiedEntry::insert', 'OccupiedEntry::remove', 'OccupiedEntry::remove_entry',
   'VacantEntry::insert', 'VacantEntry::insert_entry', 'Entry::insert_entry')
def _occupied(I, st, a, c):
    out = []
    n = c.c['name']
    for s, occ, r, k, mv, val in place(I, st, a[0]):
        if n == 'get':
            y = I.alloc(s, val)
        elif n in ('get_mut', 'into_mut'):
            y = put(I, s, r, mv, k, val)
        elif n in ('insert', 'insert_entry'):
            y = put(I, s, r, mv, k, a[1])
            if n == 'insert_entry':
                y = AggV('occupied', 0, (r, k))
            elif occ:
                y = val
        else:
            I.store(s, r, MapV(mv.log + ((1, k, None),), mv.ex))
            y = val if n == 'remove' else AggV(c.dty, 0, (k, val))
        out.append((s, y))
    return out


def entries(I, st, v):
    """Live entries [(guard, key, value)]"""
    out = []
    log = v.log
    for i, (g, k, x) in enumerate(log):
        if x is None:
            continue
        live = g
        for g2, k2, x2 in log[i + 1:]:
            e = AND(g2, M.eq_values(I, st, k, k2))
            live = AND(live, e ^ 1)
            if live == 0:
                break
        if AND(live, st.pc):
            out.append((live, k, x))
    return out


@mm('len', spec='d', types=MAPS + SETS)
def _len(I, st, a, c):
    r = ci(0)
    for g, k, x in entries(I, st, _map(a[0])):
        r = iadd(r, extend(boolv(g), 64)) if g != 1 else iadd(r, ci(1))
    if a[0].ex is not None:
        r = iadd(r, a[0].ex)
    return r


@mm('is_empty', spec='d', types=MAPS + SETS)
def _emp(I, st, a, c):
    e = 1
    for g, k, x in entries(I, st, _map(a[0])):
        e = AND(e, g ^ 1)
    if a[0].ex is not None:
        e = AND(e, ieq(a[0].ex, ci(0)))
    return boolv(e)


@mm('clear', spec='m', types=MAPS + SETS)
def _clear(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        I.store(s, r, MapV())
        out.append((s, UNIT))
    return out


@mm('iter', 'values', 'keys', 'into_keys', 'into_values', 'drain', spec='r', types=MAPS + SETS)
def _iter(I, st, a, c):
    out = []
    n = c.c['name']
    own = n.startswith('into') or n == 'drain'
    vs = sfield(I, st, a[0]) if isinstance(a[0], (Ref, Cases)) else [(st, None, a[0])]
    for s, r, v in vs:
        its = []
        if _map(v).ex is not None and v.ex.c != 0:
            raise Unknown()
        isset = 'Set' in (c.c.get('rpath') or '')
        for g, k, x in entries(I, s, _map(v)):
            if n in ('keys', 'into_keys') or isset:
                y = k if own else I.alloc(s, k)
            elif n in ('values', 'into_values'):
                y = x if own else I.alloc(s, x)
            else:
                y = AggV(None, 0, (k, x) if own else (I.alloc(s, k), I.alloc(s, x)))
            its.append(AggV(None, 0, (boolv(g), y)))
        if n == 'drain' and r is not None:
            I.store(s, r, MapV())
        out.append((s, AggV('it:glist', 0, (VecV(tuple(its)),))))
    return out


@mm('retain', spec='mr', types=MAPS)
def _retain(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        log = _map(v).log
        for g, k, x in entries(I, s, v):
            vr = I.alloc(s, x)
            res = I.call_value(s, a[1], [I.alloc(s, k), vr])
            if res is None:
                raise Unknown()
            s, keep = res
            gone = AND(g, I.edge(s, keep) ^ 1)
            nv = I.load(s, vr)
            if nv is not x:
                log = log + ((g, k, nv),)
            if gone:
                log = log + ((gone, k, None),)
        ex = v.ex
        if ex is not None:
            ex = IntV(64, None, I.fresh_bits('kept', 16, True) + (0,) * 48)
        I.store(s, r, MapV(log, ex))
        out.append((s, UNIT))
    return out
