"""Summaries of standard library and third party functions, by resolved name."""
import os
import re
from . import bdd
from .bdd import AND, OR, XOR, ITE
from .vals import *


DEBUG = bool(os.environ.get('SA_DEBUG'))


class Unknown(Exception):
    """The summary does not apply; the result is unknown."""


MODELS = {}
TRAITMODELS = {}
_keycache = {}


def m(*names, spec=''):
    def deco(f):
        for n in names:
            MODELS[n] = (f, spec)
        return f
    return deco


def strip_generics(p):
    out = []
    depth = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            if depth == 0 and p.startswith('<impl ', i):
                # <impl X> or <impl Trait for X>: keep the type
                j = i
                d = 0
                while j < len(p):
                    if p[j] == '<':
                        d += 1
                    elif p[j] == '>' and p[j - 1] != '-':
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                inner = p[i + 6:j]
                if ' for ' in inner:
                    inner = inner.split(' for ', 1)[1]
                out.append(strip_generics(inner).split('::')[-1])
                i = j + 1
                continue
            depth += 1
        elif c == '>' and p[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return re.sub(r'(::)+', '::', ''.join(out)).strip(':')


def callee_key(c):
    k = c.get('_key')
    if k is None:
        tr = c.get('trait')
        if tr:
            k = strip_generics(tr).split('::')[-1] + '::' + c['name']
        else:
            p = strip_generics(c.get('rpath') or c.get('path'))
            k = '::'.join(p.split('::')[-2:])
            k = re.sub(r'^\[.*\]::', '[]::', k)
        c['_key'] = k
    return k


LOCAL_FIRST_EXCEPT = set()


def dispatch(I, st, c, args, dty):
    bid = c.get('body')
    if bid is not None and bid in I.w.bodies and I.w.bodies[bid]['local']:
        return NotImplemented
    k = callee_key(c)
    ent = MODELS.get(k)
    if ent is None:
        if c.get('crate') in ('core', 'std', 'alloc') or c.get('rcrate') in ('core', 'std', 'alloc'):
            n = c['name']
            if c.get('rpath', '').startswith(('core::num::', 'std::num::')) or '::num::<impl' in (c.get('rpath') or ''):
                ent = MODELS.get('num::' + n)
            if ent is None and (k.startswith(('f64::', 'f32::'))):
                ent = MODELS.get('float::' + n)
            if ent is None and k.split('::')[0] in INTNAMES:
                ent = MODELS.get('num::' + n)
        if ent is None:
            return NotImplemented
    return run_model(I, st, ent, c, args, dty)


INTNAMES = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}


def run_model(I, st, ent, c, args, dty):
    f, spec = ent
    outs = []
    nev = len(I.events)
    try:
        for s, vals in prepare(I, st, args, spec):
            r = f(I, s, vals, C(c, dty, I))
            if r is None:
                continue
            if isinstance(r, tuple):
                outs.append(r)
            elif isinstance(r, list):
                outs.extend(r)
            else:
                outs.append((s, r))
    except Unknown:
        I.events[nev:] = [e for e in I.events[nev:] if e.kind in ('alloc', 'loop', 'recursion')]
        if c.get('body') is not None and not outs:
            return NotImplemented
        return I.unknown(st, c, args, dty)
    except (AttributeError, TypeError, IndexError, KeyError) as ex:
        if DEBUG:
            raise
        I.events[nev:] = [e for e in I.events[nev:] if e.kind in ('alloc', 'loop', 'recursion')]
        return I.unknown(st, c, args, dty)
    return merge_results(outs)


from .interp import merge_results, State, Limit  # noqa: E402


class C:
    """The call: callee and destination type."""
    __slots__ = ('c', 'dty', 'I')

    def __init__(self, c, dty, I):
        self.c, self.dty, self.I = c, dty, I

    @property
    def targs(self):
        return self.c.get('args', [])

    def targ(self, i):
        a = self.targs
        return self.I.types[a[i]] if -len(a) <= i < len(a) else None

    def some(self, v):
        return AggV(self.dty, 1, (v,))

    def none(self):
        return AggV(self.dty, 0, ())

    def ok(self, v):
        return AggV(self.dty, 0, (v,))

    def err(self, v=None):
        return AggV(self.dty, 1, (v if v is not None else AggV('err', 0, ()),))

    def inner(self, i=0):
        t = self.I.types[self.dty]
        return t['args'][i] if t.get('args') else None


def deref(I, st, v):
    n = 0
    while isinstance(v, Ref):
        v = I.load(st, v)
        n += 1
        if n > 12:
            raise Unknown()
    if isinstance(v, Cases) and any(isinstance(x, Ref) for g, x in v.cs):
        v = I.mapcases(v, lambda x: deref(I, st, x), st.pc)
    return v


def prepare(I, st, args, spec):
    """Split the state so that the arguments marked v or d have one shape each."""
    work = [(st, [])]
    for i, a in enumerate(args):
        sp = spec[i] if i < len(spec) else 'r'
        if sp in 'rm':
            for w in work:
                w[1].append(a)
            continue
        nw = []
        for s, vals in work:
            x = deref(I, s, a) if sp == 'd' else a
            for s2, y in split(I, s, x):
                nw.append((s2, vals + [y]))
        work = nw
        if len(work) > 4000:
            raise Unknown()
    return work


def split(I, st, v):
    """[(state, value)] with the alternatives separated and formatted strings forced."""
    v = simp(v, st.pc)
    if isinstance(v, FmtV):
        return force(I, st, v)
    if not isinstance(v, Cases):
        if isinstance(v, AggV) and v.ty == 'strcases':
            pass
        return [(st, v)]
    out = []
    for g, x in v.cs:
        pc = AND(st.pc, g)
        if pc == 0:
            continue
        s = st.with_pc(pc)
        if isinstance(x, Ref):
            out.append((s, x))
        else:
            out.extend(split(I, s, x))
    if not out:
        return []
    return out


def split_int(I, st, v, limit=300):
    """[(state, python int)] enumerating the values of an integer."""
    if isinstance(v, Cases):
        out = []
        for s, x in split(I, st, v):
            out.extend(split_int(I, s, x, limit))
        return out
    if not isinstance(v, IntV):
        raise Unknown()
    if v.c is not None:
        return [(st, v.sval())]
    out = []
    pc = st.pc
    n = 0
    while pc:
        a = bdd.pick(pc)
        x = ev_int(v, a)
        g = ieq(v, IntV(v.w, x & MASKS[v.w]))
        p = AND(pc, g)
        if p == 0:
            raise Unknown()
        out.append((st.with_pc(p), x))
        pc = AND(pc, g ^ 1)
        n += 1
        if n > limit:
            raise Unknown()
    return out


def want_str(v):
    if isinstance(v, StrV):
        return v
    raise Unknown()


def want_vec(v):
    if isinstance(v, VecV):
        return v
    raise Unknown()


def sfield(I, st, ref):
    """value behind a mutable reference, separated: [(state, ref, value)]"""
    out = []
    for s, r in split(I, st, ref):
        # follow && to the place
        n = 0
        while isinstance(r, Ref):
            v = I.load(s, r)
            if isinstance(v, Ref):
                r = v
                n += 1
                if n > 10:
                    raise Unknown()
                continue
            break
        if not isinstance(r, Ref):
            raise Unknown()
        for s2, v2 in split(I, s, v):
            out.append((s2, r, v2))
    return out


# ---------------------------------------------------------------- ordering and equality

spans = gaps = None     # set by models_time


def ordering(I, lt, eq):
    a = AggV(I.w.ordering_ty if I.w.ordering_ty is not None else 'Ordering', 0, ())
    b = AggV(a.ty, 1, ())
    c = AggV(a.ty, 2, ())
    return ite(lt, a, ite(eq, b, c))


def eq_values(I, st, a, b):
    """Edge of structural equality."""
    a = deref(I, st, a)
    b = deref(I, st, b)
    if a is b and not isinstance(a, (TopV, StrTop)):
        return 1
    if isinstance(a, Cases):
        r = 0
        for g, x in a.cs:
            if AND(g, st.pc):
                r = OR(r, AND(g, eq_values(I, st, x, b)))
        return r
    if isinstance(b, Cases):
        return eq_values(I, st, b, a)
    if isinstance(a, IntV) and isinstance(b, IntV):
        if a.w != b.w:
            w = max(a.w, b.w)
            a, b = extend(a, w), extend(b, w)
        return ieq(a, b)
    if isinstance(a, StrV) and isinstance(b, StrV):
        if len(a.ch) != len(b.ch):
            return 0
        r = 1
        for x, y in zip(a.ch, b.ch):
            if x is y:
                continue
            r = AND(r, ieq(x, y))
            if r == 0:
                return 0
        return r
    if isinstance(a, FmtV) and isinstance(b, FmtV) and shape(a) == shape(b) and injective(a, b):
        r = 1
        for x, y in zip(a.parts, b.parts):
            if not isinstance(x, str):
                r = AND(r, eq_values(I, st, x[1], y[1]))
                if r == 0:
                    return 0
        return r
    if isinstance(a, FmtV) or isinstance(b, FmtV):
        if isinstance(a, FmtV) and isinstance(b, FmtV):
            q = fmt_quick_ne(a, b)
            if q:
                return 0
        r = 0
        if not isinstance(a, FmtV):
            a, b = b, a
        for s, x in force(I, st.with_pc(st.pc), a):
            for s2, y in (force(I, s, b) if isinstance(b, FmtV) else [(s, b)]):
                r = OR(r, AND(s2.pc, eq_values(I, s2, x, y)))
        return bdd.restrict(r, st.pc) if r > 1 else r
    if isinstance(a, AggV) and isinstance(b, AggV):
        if a.ty == 'Gap' or b.ty == 'Gap':
            return gaps(I, st, a, b)[1]
        n = spans(a, b) if a.ty == 'Span' or b.ty == 'Span' else None
        if n is not None:
            return 1 if n[0] == n[1] else 0
        if a.vi != b.vi or len(a.fs) != len(b.fs):
            return 0
        r = 1
        for x, y in zip(a.fs, b.fs):
            r = AND(r, eq_values(I, st, x, y))
            if r == 0:
                return 0
        return r
    if isinstance(a, VecV) and isinstance(b, VecV):
        if len(a.es) != len(b.es):
            return 0
        r = 1
        for x, y in zip(a.es, b.es):
            r = AND(r, eq_values(I, st, x, y))
            if r == 0:
                return 0
        return r
    if isinstance(a, FloatV) and isinstance(b, FloatV):
        return I.float_cmp(st, 'Eq', a, b)
    if type(a) is not type(b) and not isinstance(a, (TopV, StrTop)) and not isinstance(b, (TopV, StrTop)):
        return 0
    return bdd.new_var('unk:eq', True)


def injective(a, b):
    """Do equal formatted strings imply equal arguments (same shape assumed)?"""
    prev_digits = False
    for i, (x, y) in enumerate(zip(a.parts, b.parts)):
        if isinstance(x, str):
            prev_digits = bool(x) and (x[-1].isalnum())
            nonlit = False
            continue
        spec, v = x
        w = y[1]
        if spec != 'd' and spec != '?':
            return False
        if isinstance(v, IntV) and isinstance(w, IntV) and spec == 'd' and v.w > 1 and v.w != 32:
            nxt = a.parts[i + 1] if i + 1 < len(a.parts) else None
            if nxt is not None and not (isinstance(nxt, str) and nxt and not nxt[0].isdigit()):
                return False
            continue
        if isinstance(v, IntV) and isinstance(w, IntV) and spec == 'd' and v.w == 32:
            nxt = a.parts[i + 1] if i + 1 < len(a.parts) else None
            if nxt is not None and not (isinstance(nxt, str) and nxt and not nxt[0].isdigit()):
                return False
            continue
        if isinstance(v, StrV) and isinstance(w, StrV) and len(v.ch) == len(w.ch):
            continue
        return False
    return True


def fmt_quick_ne(a, b):
    """Formatted strings that differ in a literal prefix of constants."""
    def prefix(f):
        o = ''
        for p in f.parts:
            if isinstance(p, str):
                o += p
            elif isinstance(p[1], StrV) and p[1].const() is not None and p[0] == 'd':
                o += p[1].const()
            else:
                return o, False
        return o, True
    (x, cx), (y, cy) = prefix(a), prefix(b)
    n = min(len(x), len(y))
    return x[:n] != y[:n]


def lt_values(I, st, a, b):
    """(lt, eq) edges of the derived ordering."""
    a = deref(I, st, a)
    b = deref(I, st, b)
    if isinstance(a, Cases) or isinstance(b, Cases):
        lt = eq = 0
        for s1, x in split(I, st.with_pc(st.pc), a):
            for s2, y in split(I, s1, b):
                l, e = lt_values(I, s2, x, y)
                lt = OR(lt, AND(s2.pc, l))
                eq = OR(eq, AND(s2.pc, e))
        return lt, eq
    if isinstance(a, IntV) and isinstance(b, IntV):
        return ilt(a, b), ieq(a, b)
    if isinstance(a, FloatV) and isinstance(b, FloatV):
        return I.float_cmp(st, 'Lt', a, b), I.float_cmp(st, 'Eq', a, b)
    if isinstance(a, AggV) and isinstance(a.ty, str) and a.ty in ('Dt', 'Date', 'Time') and isinstance(b, AggV):
        return dt_cmp(I, st, a, b)
    if isinstance(a, AggV) and isinstance(b, AggV):
        if a.ty == 'Gap' or b.ty == 'Gap':
            return gaps(I, st, a, b)
        n = spans(a, b) if a.ty == 'Span' or b.ty == 'Span' else None
        if n is not None:
            return (1 if n[0] < n[1] else 0), (1 if n[0] == n[1] else 0)
        if a.vi != b.vi:
            return (1 if a.vi < b.vi else 0), 0
        return lex(I, st, a.fs, b.fs)
    if isinstance(a, VecV) and isinstance(b, VecV):
        n = min(len(a.es), len(b.es))
        lt, eq = lex(I, st, a.es[:n], b.es[:n])
        if len(a.es) < len(b.es):
            return OR(lt, eq), 0
        if len(a.es) > len(b.es):
            return lt, 0
        return lt, eq
    if isinstance(a, StrV) and isinstance(b, StrV):
        n = min(len(a.ch), len(b.ch))
        lt, eq = lex(I, st, a.ch[:n], b.ch[:n])
        if len(a.ch) < len(b.ch):
            return OR(lt, eq), 0
        if len(a.ch) > len(b.ch):
            return lt, 0
        return lt, eq
    return bdd.new_var('unk:lt', True), bdd.new_var('unk:eq', True)


def lex(I, st, xs, ys):
    lt, eq = 0, 1
    for x, y in zip(xs, ys):
        l, e = lt_values(I, st, x, y)
        lt = OR(lt, AND(eq, l))
        eq = AND(eq, e)
        if eq == 0:
            break
    return lt, eq


def dt_cmp(I, st, a, b):
    """Components compare lexicographically: year, month, day, hour, minute, second, nanosecond."""
    return lex(I, st, a.fs, b.fs)


@m('PartialEq::eq')
def _eq(I, st, a, c):
    return boolv(eq_values(I, st, a[0], a[1]))


@m('PartialEq::ne')
def _ne(I, st, a, c):
    return boolv(eq_values(I, st, a[0], a[1]) ^ 1)


def log_level(c):
    return 'log::Level' in (c.c.get('rpath') or '') or any('log::Level' in I_s for I_s in [c.I.types[t]['s'] for t in c.targs])


def mkcmp(which):
    def f(I, st, a, c):
        if log_level(c):
            return T
        lt, eq = lt_values(I, st, a[0], a[1])
        e = {'lt': lt, 'le': OR(lt, eq), 'gt': OR(lt, eq) ^ 1, 'ge': lt ^ 1}[which]
        return boolv(e)
    return f


for _n in ('lt', 'le', 'gt', 'ge'):
    MODELS['PartialOrd::' + _n] = (mkcmp(_n), '')


@m('Ord::cmp')
def _cmp(I, st, a, c):
    return ordering(I, *lt_values(I, st, a[0], a[1]))


@m('PartialOrd::partial_cmp')
def _pcmp(I, st, a, c):
    return c.some(ordering(I, *lt_values(I, st, a[0], a[1])))


def minmax(which):
    def f(I, st, a, c):
        x, y = a[0], a[1]
        lt, eq = lt_values(I, st, y, x)
        return ite(lt, y, x) if which == 'min' else ite(lt, x, y)
    return f


MODELS['Ord::min'] = MODELS['cmp::min'] = (minmax('min'), '')
MODELS['Ord::max'] = MODELS['cmp::max'] = (minmax('max'), '')


@m('Ord::clamp')
def _clamp(I, st, a, c):
    x, lo, hi = a
    l1, _ = lt_values(I, st, x, lo)
    l2, _ = lt_values(I, st, hi, x)
    return ite(l1, lo, ite(l2, hi, x))


@m('Clone::clone', 'ToOwned::to_owned', 'Option::cloned', 'Option::copied', '[]::to_vec', 'slice::to_vec', 'Clone::clone_from')
def _clone(I, st, a, c):
    v = a[0]
    n = c.c['name']
    if n in ('cloned', 'copied'):
        def f(x):
            if isinstance(x, AggV) and x.vi == 1:
                return AggV(c.dty, 1, (I.load(st, x.fs[0]),))
            if isinstance(x, AggV):
                return AggV(c.dty, 0, ())
            return TopV(c.dty, 'cloned')
        return I.mapcases(v, f, st.pc)
    t = I.types[c.targs[0]] if c.targs else None
    x = I.load(st, v) if isinstance(v, (Ref, Cases)) else v
    if n == 'clone' and t is not None and t['k'] not in ('ref', 'ptr'):
        while isinstance(x, Ref):
            x = I.load(st, x)
    if isinstance(x, TopV):
        return TopV(c.dty, x.why)
    return x


@m('mem::replace')
def _replace(I, st, a, c):
    old = I.load(st, a[0])
    I.store(st, a[0], a[1])
    return old


@m('mem::swap')
def _swap(I, st, a, c):
    x, y = I.load(st, a[0]), I.load(st, a[1])
    I.store(st, a[0], y)
    I.store(st, a[1], x)
    return UNIT


@m('mem::drop', 'mem::forget', 'intrinsics::cold_path', 'hint::black_box', 'fmt::Arguments::none')
def _drop(I, st, a, c):
    return UNIT


@m('mem::take')
def _take(I, st, a, c):
    old = I.load(st, a[0])
    d = default_of(I, c.targs[0])
    if d is None:
        raise Unknown()
    I.store(st, a[0], d)
    return old


def is_path(t, *names):
    return t.get('k') == 'adt' and t.get('path', '').split('::')[-1] in names


def default_of(I, ty):
    t = I.types[ty]
    k = t['k']
    if k == 'int':
        return IntV(t['w'], 0, None, t['sg'])
    if k == 'bool':
        return F
    if k == 'char':
        return ch(0)
    if k == 'float':
        return fconst(0.0, t['w'])
    if k == 'ref' and I.types[t['e']]['k'] == 'str':
        return cstr('')
    if k == 'tuple':
        fs = [default_of(I, e) for e in t['es']]
        return None if None in fs else AggV(ty, 0, tuple(fs))
    if is_path(t, 'String'):
        return cstr('')
    if is_path(t, 'Vec', 'VecDeque', 'BitVec'):
        return VecV(())
    if is_path(t, 'HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return MapV()
    if is_path(t, 'Option'):
        return AggV(ty, 0, ())
    if k == 'array' and t['n'] >= 0:
        d = default_of(I, t['e'])
        return None if d is None else VecV((d,) * t['n'])
    return None


@m('Default::default')
def _default(I, st, a, c):
    d = default_of(I, c.dty)
    if d is None:
        raise Unknown()
    return d


# ---------------------------------------------------------------- panics

def panic(I, st, msg):
    I.event('panic', msg, st.pc)
    return None


HUGE = 1 << 40


def capacity(I, st, n):
    """Storage of n elements is asked for: False when that cannot succeed."""
    if not isinstance(n, IntV):
        return True
    if n.c is not None and n.c < 100000:
        return True
    big = AND(st.pc, ilt(n, IntV(n.w, 100000)) ^ 1)
    if big:
        I.event('alloc', 'storage of more than 100000 elements is asked for', big)
    if n.w > 40:
        huge = AND(st.pc, ilt(n, IntV(n.w, HUGE)) ^ 1)
        if huge:
            I.event('panic', 'capacity overflow or out of memory', huge)
            st.pc = AND(st.pc, huge ^ 1)
    return st.pc != 0


@m('panicking::panic', 'panicking::panic_fmt', 'panicking::panic_display', 'panicking::panic_explicit', 'rt::begin_panic', 'rt::panic_fmt',
   'panicking::panic_str_2015', 'panicking::panic_str', 'panicking::unreachable_display', 'panicking::assert_failed',
   'panicking::assert_failed_inner', 'panicking::panic_const', 'std_panicking::begin_panic', 'panicking::panic_bounds_check',
   'panicking::panic_nounwind', 'panicking::panic_nounwind_fmt', 'process::exit', 'process::abort', 'rt::begin_panic_fmt')
def _panic(I, st, a, c):
    msg = c.c['name']
    if a:
        v = a[0]
        if isinstance(v, StrV) and v.const() is not None:
            msg += ': ' + v.const()
        elif isinstance(v, FmtV):
            msg += ': ' + ''.join(p if isinstance(p, str) else '{}' for p in v.parts)
    return panic(I, st, msg)


@m('option::unwrap_failed', 'option::expect_failed', 'unwrap_failed::unwrap_failed_inner', 'result::unwrap_failed',
   'unwrap_failed_inner::unwrap_failed_inner')
def _unwrap_failed(I, st, a, c):
    return panic(I, st, 'unwrap on a missing value')


from . import models_fmt, models_str, models_coll, models_map, models_iter, models_ext, models_time  # noqa: E402,F401
