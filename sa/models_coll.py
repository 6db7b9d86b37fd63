"""Numbers, vectors, bit vectors, maps."""
from .models import *
from .models import m, Unknown, want_vec, split, split_int, sfield, deref
from . import models as M
from . import floatcmp
from .bdd import AND, OR
from .models_str import range_of, ilist, ARITH


# ---- numbers ---------------------------------------------------------------

def wide(I, st, op, x, y):
    r = I.binop(st, op + 'WithOverflow', x, y)
    return r.fs[0], I.edge(st, r.fs[1])


def _checked(op):
    def f(I, st, a, c):
        x, y = a
        if not (isinstance(x, IntV) and isinstance(y, IntV)):
            raise Unknown()
        if op in ('Div', 'Rem'):
            z = ieq(y, IntV(y.w, 0))
            v = I.binop(st, op, x, y)
            return ite(z, c.none(), c.some(v))
        if op in ('Shl', 'Shr'):
            ok = ilt(y, IntV(y.w, x.w))
            return ite(ok, c.some(I.binop(st, op, x, y)), c.none())
        v, o = wide(I, st, op, x, y)
        if AND(o, st.pc) == 0:
            return c.some(v)
        return ite(o, c.none(), c.some(v))
    return f


def _wrapping(op):
    def f(I, st, a, c):
        return I.binop(st, op, a[0], a[1])
    return f


def _overflowing(op):
    def f(I, st, a, c):
        v, o = wide(I, st, op, a[0], a[1])
        return AggV(c.dty, 0, (v, boolv(o)))
    return f


def _saturating(op):
    def f(I, st, a, c):
        x, y = a
        v, o = wide(I, st, op, x, y)
        w = x.w
        if x.sg:
            hi, lo = IntV(w, MASKS[w - 1], None, True), IntV(w, 1 << (w - 1), None, True)
            neg = x.bits[-1] if op != 'Mul' else XOR(x.bits[-1], y.bits[-1])
            s = ite(neg, lo, hi)
        else:
            s = IntV(w, MASKS[w]) if op != 'Sub' else IntV(w, 0)
        return ite(o, s, v)
    return f


for _o in ('add', 'sub', 'mul', 'div', 'rem', 'shl', 'shr'):
    _O = ARITH[_o]
    MODELS['num::checked_' + _o] = (_checked(_O), 'vv')
    MODELS['num::wrapping_' + _o] = (_wrapping(_O), 'vv')
    MODELS['num::unchecked_' + _o] = (_wrapping(_O), 'vv')
    if _o in ('add', 'sub', 'mul'):
        MODELS['num::overflowing_' + _o] = (_overflowing(_O), 'vv')
        MODELS['num::saturating_' + _o] = (_saturating(_O), 'vv')
MODELS['num::div_euclid'] = (_wrapping('Div'), 'vv')


@m('num::rem_euclid', spec='vv')
def _reme(I, st, a, c):
    if a[0].sg and a[0].bits[-1] != 0:
        r = I.binop(st, 'Rem', a[0], a[1])
        return ite(r.bits[-1], iadd(r, a[1]), r)
    return I.binop(st, 'Rem', a[0], a[1])


@m('num::div_euclid', spec='vv')
def _dive(I, st, a, c):
    if a[0].sg and a[0].bits[-1] != 0:
        raise Unknown()
    return I.binop(st, 'Div', a[0], a[1])


@m('num::pow', 'num::wrapping_pow', 'num::saturating_pow', spec='vv')
def _pow(I, st, a, c):
    out = []
    for s, n in split_int(I, st, a[1], 40):
        r = IntV(a[0].w, 1, None, a[0].sg)
        bad = 0
        for _ in range(n):
            v, o = wide(I, s, 'Mul', r, a[0])
            bad = OR(bad, o)
            r = v
        if c.c['name'] == 'pow' and AND(bad, s.pc):
            I.event('panic', 'Overflow(Pow)', AND(bad, s.pc))
            s.pc = AND(s.pc, bad ^ 1)
        if s.pc:
            out.append((s, r))
    return out


@m('num::abs', 'num::unsigned_abs', 'num::wrapping_abs', spec='v')
def _abs(I, st, a, c):
    x = a[0]
    r = ite(x.bits[-1], ineg(x), x)
    if c.c['name'] == 'unsigned_abs':
        r = IntV(r.w, r.c, r.b, False)
    elif c.c['name'] == 'abs':
        bad = AND(st.pc, ieq(x, IntV(x.w, 1 << (x.w - 1))))
        if bad:
            I.event('panic', 'Overflow(Abs)', bad)
            st.pc = AND(st.pc, bad ^ 1)
    return (st, r) if st.pc else None


@m('num::abs_diff', spec='vv')
def _abd(I, st, a, c):
    r = ite(ilt(a[0], a[1]), isub(a[1], a[0]), isub(a[0], a[1]))
    return IntV(r.w, r.c, r.b, False)


@m('num::signum', spec='v')
def _sgn(I, st, a, c):
    x = a[0]
    return ite(x.bits[-1], IntV(x.w, MASKS[x.w], None, True), ite(ieq(x, IntV(x.w, 0)), IntV(x.w, 0, None, True), IntV(x.w, 1, None, True)))


@m('num::is_negative', spec='v')
def _isn(I, st, a, c):
    return boolv(a[0].bits[-1])


@m('num::is_positive', spec='v')
def _isp(I, st, a, c):
    return boolv(ilt(IntV(a[0].w, 0, None, True), a[0]))


@m('num::count_ones', spec='v')
def _ones(I, st, a, c):
    r = IntV(32, 0)
    for b in a[0].bits:
        if b:
            r = iadd(r, extend(boolv(b), 32))
    return r


@m('num::leading_zeros', spec='v')
def _lz(I, st, a, c):
    x = a[0]
    r = IntV(32, x.w)
    for i in range(x.w):
        if x.bits[i]:
            r = ite(x.bits[i], IntV(32, x.w - 1 - i), r)
    return r


@m('num::trailing_zeros', spec='v')
def _tz(I, st, a, c):
    x = a[0]
    r = IntV(32, x.w)
    for i in range(x.w - 1, -1, -1):
        if x.bits[i]:
            r = ite(x.bits[i], IntV(32, i), r)
    return r


@m('num::swap_bytes', 'num::to_be', spec='v')
def _swapb(I, st, a, c):
    x = a[0]
    b = x.bits
    o = ()
    for i in range(x.w // 8 - 1, -1, -1):
        o += b[8 * i:8 * i + 8]
    return IntV(x.w, None, o, x.sg)


@m('num::reverse_bits', spec='v')
def _revb(I, st, a, c):
    return IntV(a[0].w, None, tuple(reversed(a[0].bits)), a[0].sg)


@m('num::rotate_left', 'num::rotate_right', spec='vv')
def _rot(I, st, a, c):
    if a[1].c is None:
        raise Unknown()
    n = a[1].c % a[0].w
    if c.c['name'] == 'rotate_right':
        n = -n % a[0].w
    b = a[0].bits
    return IntV(a[0].w, None, b[-n:] + b[:-n] if n else b, a[0].sg)


@m('num::from_be_bytes', 'num::from_le_bytes', spec='d')
def _fbe(I, st, a, c):
    es = want_vec(a[0]).es
    if c.c['name'] == 'from_be_bytes':
        es = es[::-1]
    b = ()
    for e in es:
        b += tuple(e.bits)
    t = I.types[c.dty]
    return IntV(t['w'], None, b, t['sg'])


@m('bool::then', spec='vr')
def _then(I, st, a, c):
    e = a[0].bits[0]
    outs = []
    p = AND(st.pc, e)
    if p:
        r = I.call_value(st.with_pc(p), a[1], [])
        if r is not None:
            outs.append((r[0], c.some(r[1])))
    p = AND(st.pc, e ^ 1)
    if p:
        outs.append((st.with_pc(p), c.none()))
    return outs


@m('bool::then_some', spec='vr')
def _thens(I, st, a, c):
    return ite(a[0].bits[0], c.some(a[1]), c.none())


# floats
@m('float::powi', spec='vv')
def _powi(I, st, a, c):
    x, n = a
    if n.c is None:
        raise Unknown()
    k = n.sval()
    if not x.ts:
        return FloatV(x.k ** k, (), x.w)
    if k == 0:
        return fconst(1.0, x.w)
    if k == 1:
        return x
    # (c*t)^k = c^k * t^k for a single term
    if x.k == 0.0 and len(x.ts) == 1:
        t, co = x.ts[0]
        return fatom(Atom('op', 'powi', fatom(t, 1.0, x.w), k), co ** k, x.w)
    return fop('powi', x, k, w=x.w)


@m('float::powf', spec='vv')
def _powf(I, st, a, c):
    if not a[1].ts and a[1].k == int(a[1].k):
        return _powi(I, st, [a[0], IntV(32, int(a[1].k) & MASKS[32], None, True)], c)
    return fop('powf', a[0], a[1], w=a[0].w)


def _fun(name):
    def f(I, st, a, c):
        if all(isinstance(x, FloatV) and not x.ts for x in a):
            try:
                return FloatV(FOPS[name](*[x.k for x in a]), (), a[0].w)
            except (ValueError, OverflowError, KeyError):
                raise Unknown()
        return fop(name, *a, w=a[0].w)
    return f


for _n in ('sqrt', 'floor', 'ceil', 'round', 'trunc', 'fract', 'copysign', 'mul_add'):
    MODELS['float::' + _n] = (_fun(_n), 'vvv')


@m('float::abs', spec='v')
def _fabs(I, st, a, c):
    x = a[0]
    if not x.ts:
        return FloatV(abs(x.k), (), x.w)
    neg = I.float_cmp(st, 'Lt', x, fconst(0.0))
    return ite(neg, fscale(x, -1.0), x)


@m('float::signum', spec='v')
def _fsig(I, st, a, c):
    x = a[0]
    if not x.ts:
        return FloatV(math.copysign(1.0, x.k), (), x.w)
    neg = I.float_cmp(st, 'Lt', x, fconst(0.0))
    return ite(neg, fconst(-1.0, x.w), fconst(1.0, x.w))


def unplain(x, care):
    """Inputs on which the term is not known to be a finite number."""
    cs = floatcmp.cases(x, care)
    for g, k, d, e in cs or ():
        care = AND(care, g ^ 1)
    return care


@m('float::is_nan', 'float::is_infinite', spec='v')
def _isnan(I, st, a, c):
    x = a[0]
    if not x.ts:
        return cb(x.k != x.k if c.c['name'] == 'is_nan' else abs(x.k) == math.inf)
    if all(t.kind == 'int' for t, k in x.ts):
        return F
    return boolv(AND(unplain(x, st.pc), I.atom((c.c['name'], repr(x.key())), c.c['name'], True)))


@m('float::is_finite', spec='v')
def _isfin(I, st, a, c):
    x = a[0]
    if not x.ts:
        return cb(x.k == x.k and abs(x.k) != math.inf)
    if all(t.kind == 'int' for t, k in x.ts):
        return T
    u = unplain(x, st.pc)
    return boolv(OR(u ^ 1, AND(u, I.atom(('is_finite', repr(x.key())), 'is_finite', True))))


@m('float::is_sign_negative', spec='v')
def _isneg(I, st, a, c):
    x = a[0]
    if not x.ts:
        return cb(math.copysign(1.0, x.k) < 0)
    z = I.float_cmp(st, 'Eq', x, fconst(0.0))
    return boolv(OR(I.float_cmp(st, 'Lt', x, fconst(0.0)), AND(z, I.atom(('negz', repr(x.key())), 'negative-zero', True)) if z else 0))


@m('float::min', 'float::max', spec='vv')
def _fmin(I, st, a, c):
    lt = I.float_cmp(st, 'Lt', a[0], a[1])
    return ite(lt, a[0], a[1]) if c.c['name'] == 'min' else ite(lt, a[1], a[0])


@m('float::to_radians', 'float::to_degrees', spec='v')
def _trad(I, st, a, c):
    return fscale(a[0], math.pi / 180 if c.c['name'] == 'to_radians' else 180 / math.pi)


@m('float::clamp', spec='vvv')
def _fclamp(I, st, a, c):
    x = a[0]
    return ite(I.float_cmp(st, 'Lt', x, a[1]), a[1], ite(I.float_cmp(st, 'Gt', x, a[2]), a[2], x))


# ---- vectors ----------------------------------------------------------------

@m('Vec::new', 'Vec::with_capacity', 'BitVec::new', 'BitVec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity')
def _vnew(I, st, a, c):
    if a and not M.capacity(I, st, a[0]):
        return None
    return st, VecV(())


@m('Vec::push', 'BitVec::push', 'VecDeque::push_back', spec='mr')
def _vpush(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        I.store(s, r, VecV(v.es + (a[1],)) if isinstance(v, VecV) else TopV(None, 'push to unknown'))
        out.append((s, UNIT))
    return out


@m('VecDeque::push_front', spec='mr')
def _vpushf(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        I.store(s, r, VecV((a[1],) + want_vec(v).es))
        out.append((s, UNIT))
    return out


@m('Vec::pop', 'BitVec::pop', 'VecDeque::pop_back', 'VecDeque::pop_front', spec='m')
def _vpop(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        es = want_vec(v).es
        if not es:
            out.append((s, c.none()))
        elif c.c['name'] == 'pop_front':
            I.store(s, r, VecV(es[1:]))
            out.append((s, c.some(es[0])))
        else:
            I.store(s, r, VecV(es[:-1]))
            out.append((s, c.some(es[-1])))
    return out


@m('Vec::len', '[]::len', 'slice::len', 'BitVec::len', 'BitSlice::len', 'VecDeque::len', spec='d')
def _vlen(I, st, a, c):
    return ci(len(want_vec(a[0]).es))


@m('Vec::is_empty', '[]::is_empty', 'BitVec::is_empty', 'BitSlice::is_empty', 'VecDeque::is_empty', spec='d')
def _vemp(I, st, a, c):
    return cb(not want_vec(a[0]).es)


@m('Vec::extend_from_slice', 'Vec::append', 'BitVec::extend_from_slice', 'BitVec::append', 'BitVec::extend_from_bitslice', spec='md')
def _vext(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        I.store(s, r, VecV(want_vec(v).es + want_vec(a[1]).es))
        out.append((s, UNIT))
    return out


@m('Vec::truncate', 'BitVec::truncate', 'Vec::resize', 'BitVec::resize', spec='mv')
def _vtrunc(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        if c.c['name'] == 'resize' and not M.capacity(I, s, a[1]):
            continue
        for s2, n in split_int(I, s, a[1]):
            es = want_vec(v).es[:n]
            if c.c['name'] == 'resize':
                if n > 20000:
                    raise Unknown()
                es = es + (a[2],) * (n - len(es))
            I.store(s2, r, VecV(es))
            out.append((s2, UNIT))
    return out


def elem_ref(I, st, r, i):
    """Reference to element i of the vector behind r (which may be a reference to a reference)."""
    n = 0
    while isinstance(r, Ref):
        v = I.load(st, r)
        if isinstance(v, Ref):
            r = v
            n += 1
            continue
        break
    if isinstance(r, Ref):
        return Ref(r.root, r.path + (('e', i),))
    return I.alloc(st, want_vec(r).es[i])


def vec_of(I, st, r):
    """[(state, innermost ref, VecV)]"""
    out = []
    for s, x in split(I, st, r):
        n = 0
        while isinstance(x, Ref):
            v = I.load(s, x)
            if isinstance(v, Ref):
                x = v
                n += 1
                if n > 10:
                    raise Unknown()
                continue
            if isinstance(v, AggV) and v.ty == 'it:list':
                v = v.fs[0]
            for s2, v2 in split(I, s, v):
                if isinstance(v2, Ref):
                    out.extend(vec_of(I, s2, v2))
                else:
                    out.append((s2, x, want_vec(v2)))
            x = None
            break
        if x is not None:
            r2 = I.alloc(s, x)
            out.append((s, r2, want_vec(x)))
    return out


def index_outcomes(I, st, v, idx):
    """[(state, i or None)] for a vector and an index value"""
    idx = simp(idx, st.pc)
    if idx.c is not None:
        return [(st, idx.c if idx.c < len(v.es) else None)]
    out = []
    for i in range(len(v.es)):
        p = AND(st.pc, ieq(idx, IntV(idx.w, i)))
        if p:
            out.append((st.with_pc(p), i))
    p = AND(st.pc, ilt(idx, IntV(idx.w, len(v.es))) ^ 1)
    if p:
        out.append((st.with_pc(p), None))
    return out


def slice_range(I, st, v, rng):
    """[(state, (i,j) or None)]"""
    a, b, incl = range_of(I, rng)
    out = []
    for s1, x in (split_int(I, st, a) if a is not None else [(st, 0)]):
        for s2, y in (split_int(I, s1, b) if b is not None else [(s1, len(v.es))]):
            if incl and b is not None:
                y += 1
            out.append((s2, (x, y) if x <= y <= len(v.es) else None))
    return out


def _vget(panics, mut=False):
    def f(I, st, a, c):
        out = []
        for s, r, v in vec_of(I, st, a[0]):
            for s1, ix in split(I, s, a[1]):
                if isinstance(ix, IntV):
                    for s2, i in index_outcomes(I, s1, v, ix):
                        if i is None:
                            if panics:
                                M.panic(I, s2, 'index out of bounds')
                            else:
                                out.append((s2, c.none()))
                        else:
                            x = Ref(r.root, r.path + (('e', i),))
                            out.append((s2, x if panics else c.some(x)))
                else:
                    for s2, b in slice_range(I, s1, v, ix):
                        if b is None:
                            if panics:
                                M.panic(I, s2, 'slice out of range')
                            else:
                                out.append((s2, c.none()))
                        else:
                            x = I.alloc(s2, VecV(v.es[b[0]:b[1]]))
                            out.append((s2, x if panics else c.some(x)))
        return out
    return f


for _n in ('[]::get', 'slice::get', 'BitSlice::get', 'BitVec::get', 'VecDeque::get', '[]::get_mut', 'BitSlice::get_mut', 'BitVec::get_mut'):
    MODELS[_n] = (_vget(False), '')


@m('Index::index', 'IndexMut::index_mut')
def _index(I, st, a, c):
    from .models_str import str_index
    out = []
    for s, x in split(I, st, a[0]):
        v = deref(I, s, x)
        if isinstance(v, Cases) and isinstance(v.cs[0][1], StrV) or isinstance(v, (StrV, FmtV)):
            for s1, sv in split(I, s, v):
                for s2, ix in split(I, s1, a[1]):
                    if not isinstance(sv, StrV):
                        raise Unknown()
                    out.extend(str_index(I, s2, sv, ix))
        elif isinstance(v, MapV):
            from .models_map import lookup
            for s2, p, val in lookup(I, s, v, a[1]):
                if p == 0:
                    M.panic(I, s2, 'no entry found for key')
                else:
                    out.append((s2, I.alloc(s2, val)))
        elif isinstance(v, (VecV, Cases)):
            out.extend(_vget(True)(I, s, [x, a[1]], c))
        else:
            raise Unknown()
    return out


def _ends(which):
    def f(I, st, a, c):
        out = []
        for s, r, v in vec_of(I, st, a[0]):
            if not v.es:
                out.append((s, c.none()))
            else:
                out.append((s, c.some(Ref(r.root, r.path + (('e', 0 if which == 'first' else len(v.es) - 1),)))))
        return out
    return f


for _t in ('[]', 'BitSlice'):
    MODELS[_t + '::first'] = (_ends('first'), '')
    MODELS[_t + '::last'] = (_ends('last'), '')


@m('[]::split_first', '[]::split_last')
def _spf(I, st, a, c):
    out = []
    for s, r, v in vec_of(I, st, a[0]):
        if not v.es:
            out.append((s, c.none()))
        else:
            first = c.c['name'] == 'split_first'
            e = Ref(r.root, r.path + (('e', 0 if first else len(v.es) - 1),))
            out.append((s, c.some(AggV(c.inner(), 0, (e, I.alloc(s, VecV(v.es[1:] if first else v.es[:-1])))))))
    return out


@m('[]::split_at', 'BitSlice::split_at', spec='rv')
def _vsa(I, st, a, c):
    out = []
    for s, r, v in vec_of(I, st, a[0]):
        for s2, n in split_int(I, s, a[1]):
            if n > len(v.es):
                M.panic(I, s2, 'split_at out of range')
            else:
                out.append((s2, AggV(c.dty, 0, (I.alloc(s2, VecV(v.es[:n])), I.alloc(s2, VecV(v.es[n:]))))))
    return out


@m('[]::contains', spec='d')
def _vcont(I, st, a, c):
    e = 0
    for x in want_vec(a[0]).es:
        e = OR(e, M.eq_values(I, st, x, a[1]))
    return boolv(e)


@m('[]::join', '[]::concat', spec='d')
def _vjoin(I, st, a, c):
    es = [deref(I, st, x) for x in want_vec(a[0]).es]
    sep = deref(I, st, a[1]) if len(a) > 1 else StrV(())
    outs = [(st, [])]
    for e in es:
        nx = []
        for s, acc in outs:
            for s2, x in split(I, s, e):
                nx.append((s2, acc + [x]))
        outs = nx
        if len(outs) > 300:
            raise Unknown()
    res = []
    for s, acc in outs:
        if not all(isinstance(x, StrV) for x in acc) or not isinstance(sep, StrV):
            raise Unknown()
        parts = []
        for i, x in enumerate(acc):
            if i:
                parts.append(sep)
            parts.append(x)
        res.append((s, strcat(parts)))
    return res


@m('[]::swap', spec='mvv')
def _vswap(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        i, j = a[1].c, a[2].c
        if i is None or j is None:
            raise Unknown()
        es = list(want_vec(v).es)
        if max(i, j) >= len(es):
            M.panic(I, s, 'swap out of range')
            continue
        es[i], es[j] = es[j], es[i]
        I.store(s, r, VecV(tuple(es)))
        out.append((s, UNIT))
    return out


@m('[]::reverse', 'BitSlice::reverse', spec='m')
def _vrev(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        I.store(s, r, VecV(want_vec(v).es[::-1]))
        out.append((s, UNIT))
    return out


@m('Vec::remove', 'Vec::swap_remove', 'Vec::insert', spec='mvr')
def _vremove(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        for s2, i in split_int(I, s, a[1]):
            es = list(want_vec(v).es)
            n = c.c['name']
            if i > len(es) or (i == len(es) and n != 'insert'):
                M.panic(I, s2, n + ' out of range')
                continue
            if n == 'insert':
                es.insert(i, a[2])
                x = UNIT
            elif n == 'remove':
                x = es.pop(i)
            else:
                x = es[i]
                es[i] = es[-1]
                es.pop()
            I.store(s2, r, VecV(tuple(es)))
            out.append((s2, x))
    return out


@m('[]::fill', spec='mr')
def _vfill(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        I.store(s, r, VecV((a[1],) * len(want_vec(v).es)))
        out.append((s, UNIT))
    return out


@m('vec::from_elem', spec='rv')
def _from_elem(I, st, a, c):
    out = []
    if not M.capacity(I, st, a[1]):
        return None
    for s, n in split_int(I, st, a[1]):
        if n > 20000:
            raise Unknown()
        out.append((s, VecV((a[0],) * n)))
    return out


@m('BitSlice::set', 'BitVec::set', spec='mvv')
def _bvset(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        for s2, i in index_outcomes(I, s, want_vec(v), a[1]):
            if i is None:
                M.panic(I, s2, 'index out of bounds')
                continue
            es = list(v.es)
            es[i] = a[2]
            I.store(s2, r, VecV(tuple(es)))
            out.append((s2, UNIT))
    return out


@m('slice::into_vec', '[]::into_vec', 'slice::box_assume_init_into_vec_unsafe', 'boxed::box_assume_init_into_vec_unsafe', 'box_new', 'Box::new', 'boxed::box_new', spec='')
def _intovec(I, st, a, c):
    return a[0]


@m('[]::is_ascii', '[]::eq_ignore_ascii_case', spec='d')
def _unk(I, st, a, c):
    raise Unknown()


@m('[]::starts_with', spec='dd')
def _vsw(I, st, a, c):
    x, y = want_vec(a[0]), want_vec(a[1])
    if len(y.es) > len(x.es):
        return F
    return boolv(M.eq_values(I, st, VecV(x.es[:len(y.es)]), y))


@m('BitSlice::any', 'BitSlice::all', 'BitSlice::not_any', 'BitSlice::count_ones', spec='d')
def _bany(I, st, a, c):
    bits = [I.edge(st, x) for x in want_vec(a[0]).es]
    n = c.c['name']
    e = 0
    if n == 'count_ones':
        r = ci(0)
        for b in bits:
            r = iadd(r, extend(boolv(b), 64))
        return r
    if n == 'all':
        e = 1
        for b in bits:
            e = AND(e, b)
        return boolv(e)
    for b in bits:
        e = OR(e, b)
    return boolv(e if n == 'any' else e ^ 1)


@m('BitField::load_be', 'BitField::load', 'BitField::load_le')
def _bload(I, st, a, c):
    raise Unknown()
