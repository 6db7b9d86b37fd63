"""Strings and characters."""
from .models import *
from .models import m, Unknown, want_str, split, split_int, sfield, deref
from . import models as M


def boundaries(s):
    """byte offset -> character index"""
    if s.bl is None:
        return None
    d = {0: 0}
    o = 0
    for i, b in enumerate(s.bl):
        o += b
        d[o] = i + 1
    return d


def char_index(s, off):
    if s.bl is None:
        return off if 0 <= off <= len(s.ch) else None
    return boundaries(s).get(off)


def byte_off(s, i):
    return i if s.bl is None else sum(s.bl[:i])


def substr(s, i, j):
    return StrV(s.ch[i:j], None if s.bl is None else s.bl[i:j])


def range_of(I, v):
    """(start, end, inclusive) of a range value; None for open ends."""
    if not isinstance(v, AggV):
        raise Unknown()
    t = I.types[v.ty] if isinstance(v.ty, int) else None
    p = t.get('path', '').split('::')[-1] if t else str(v.ty)
    if p == 'Range':
        return v.fs[0], v.fs[1], False
    if p == 'RangeFrom':
        return v.fs[0], None, False
    if p == 'RangeTo':
        return None, v.fs[0], False
    if p == 'RangeToInclusive':
        return None, v.fs[0], True
    if p == 'RangeInclusive':
        return v.fs[0], v.fs[1], True
    if p == 'RangeFull':
        return None, None, False
    raise Unknown()


def slice_outcomes(I, st, s, rng):
    """[(state, (i, j) or None)] character index bounds of a range over a string, None when out of range."""
    a, b, incl = range_of(I, rng)
    out = []
    for s1, x in (split_int(I, st, a) if a is not None else [(st, 0)]):
        for s2, y in (split_int(I, s1, b) if b is not None else [(s1, s.blen())]):
            if incl and b is not None:
                y += 1
            i, j = char_index(s, x), char_index(s, y)
            if i is None or j is None or x > y:
                out.append((s2, None))
            else:
                out.append((s2, (i, j)))
    return out


def str_index(I, st, s, rng):
    out = []
    for s2, r in slice_outcomes(I, st, s, rng):
        if r is None:
            M.panic(I, s2, 'string slice out of range')
        else:
            out.append((s2, substr(s, *r)))
    return out


@m('str::get', spec='dv')
def _get(I, st, a, c):
    s = want_str(a[0])
    return [(s2, c.none() if r is None else c.some(substr(s, *r))) for s2, r in slice_outcomes(I, st, s, a[1])]


@m('str::get_unchecked', spec='dv')
def _getu(I, st, a, c):
    return [(s2, substr(a[0], *r)) for s2, r in slice_outcomes(I, st, want_str(a[0]), a[1]) if r]


@m('str::len', 'String::len', spec='d')
def _len(I, st, a, c):
    return ci(want_str(a[0]).blen())


@m('str::is_empty', 'String::is_empty', spec='d')
def _is_empty(I, st, a, c):
    return cb(len(want_str(a[0]).ch) == 0)


@m('str::is_char_boundary', 'String::is_char_boundary', spec='dv')
def _icb(I, st, a, c):
    return [(s, cb(char_index(a[0], x) is not None)) for s, x in split_int(I, st, a[1])]


@m('str::is_ascii', spec='d')
def _is_ascii(I, st, a, c):
    e = 1
    for x in want_str(a[0]).ch:
        e = AND(e, char_range(x, 0, 127))
    return boolv(e)


def char_range(x, lo, hi):
    return AND(ilt(x, IntV(x.w, lo)) ^ 1, ilt(IntV(x.w, hi), x) ^ 1)


def char_is(x, o):
    return ieq(x, IntV(x.w, o))


# ---- patterns --------------------------------------------------------

def pat_at(I, st, pat, s, i):
    """(edge, length) of pattern `pat` matching string s at character i."""
    p = pat
    n = 0
    while isinstance(p, Ref):
        q = I.load(st, p)
        if isinstance(q, AggV) and isinstance(q.ty, int) and I.types[q.ty]['k'] == 'closure':
            break
        p = q
        n += 1
        if n > 8:
            raise Unknown()
    if isinstance(p, IntV):
        return (ieq(s.ch[i], p) if i < len(s.ch) else 0), 1
    if isinstance(p, StrV):
        n = len(p.ch)
        if i + n > len(s.ch):
            return 0, n
        e = 1
        for j in range(n):
            e = AND(e, ieq(s.ch[i + j], p.ch[j]))
            if e == 0:
                break
        return e, n
    if isinstance(p, VecV):
        e = 0
        if i < len(s.ch):
            for x in p.es:
                e = OR(e, ieq(s.ch[i], x))
        return e, 1
    if isinstance(p, (FnV, AggV, Ref)):
        if i >= len(s.ch):
            return 0, 1
        r = I.call_value(st, p, [s.ch[i]])
        if r is None:
            raise Unknown()
        s2, v = r
        # predicates have no effect on the state but their frames
        st.mem = s2.mem
        return I.edge(s2, v), 1
    raise Unknown()


def patlen0(I, st, pat):
    p = deref(I, st, pat) if not isinstance(pat, FnV) else pat
    return isinstance(p, StrV) and len(p.ch) == 0


def find_positions(I, st, s, pat, rev=False):
    """[(edge, index, length)] of the first (last) match, disjoint; plus edge of none."""
    if patlen0(I, st, pat):
        raise Unknown()
    rest = 1
    out = []
    idx = range(len(s.ch) - 1, -1, -1) if rev else range(len(s.ch))
    for i in idx:
        e, n = pat_at(I, st, pat, s, i)
        g = AND(rest, e)
        if g and AND(g, st.pc):
            out.append((g, i, n))
        rest = AND(rest, e ^ 1)
        if AND(rest, st.pc) == 0:
            rest = 0
            break
    return out, rest


def _find(rev):
    def f(I, st, a, c):
        s = want_str(a[0])
        pos, rest = find_positions(I, st, s, a[1], rev)
        r = c.none() if rest else None
        for g, i, n in pos:
            v = c.some(ci(byte_off(s, i)))
            r = v if r is None else ite(g, v, r)
        return r
    return f


MODELS['str::find'] = (_find(False), 'dv')
MODELS['str::rfind'] = (_find(True), 'dv')


@m('str::contains', spec='dv')
def _contains(I, st, a, c):
    s = want_str(a[0])
    if patlen0(I, st, a[1]):
        return T
    pos, rest = find_positions(I, st, s, a[1])
    return boolv(rest ^ 1)


@m('str::starts_with', spec='dv')
def _sw(I, st, a, c):
    if patlen0(I, st, a[1]):
        return T
    return boolv(pat_at(I, st, a[1], want_str(a[0]), 0)[0])


def at_end(I, st, pat, s):
    p = deref(I, st, pat) if not isinstance(pat, FnV) else pat
    n = len(p.ch) if isinstance(p, StrV) else 1
    if n > len(s.ch):
        return 0, n
    return pat_at(I, st, pat, s, len(s.ch) - n)


@m('str::ends_with', spec='dv')
def _ew(I, st, a, c):
    return boolv(at_end(I, st, a[1], want_str(a[0]))[0])


@m('str::strip_prefix', spec='dv')
def _sp(I, st, a, c):
    s = want_str(a[0])
    e, n = pat_at(I, st, a[1], s, 0)
    if e == 0:
        return c.none()
    return ite(e, c.some(substr(s, n, len(s.ch))), c.none())


@m('str::strip_suffix', spec='dv')
def _ss(I, st, a, c):
    s = want_str(a[0])
    e, n = at_end(I, st, a[1], s)
    if e == 0:
        return c.none()
    return ite(e, c.some(substr(s, 0, len(s.ch) - n)), c.none())


def _split_once(rev):
    def f(I, st, a, c):
        s = want_str(a[0])
        pos, rest = find_positions(I, st, s, a[1], rev)
        r = c.none() if rest else None
        for g, i, n in pos:
            v = c.some(AggV(c.inner(), 0, (substr(s, 0, i), substr(s, i + n, len(s.ch)))))
            r = v if r is None else ite(g, v, r)
        return r
    return f


MODELS['str::split_once'] = (_split_once(False), 'dv')
MODELS['str::rsplit_once'] = (_split_once(True), 'dv')


@m('str::split_at', spec='dv')
def _split_at(I, st, a, c):
    s = want_str(a[0])
    out = []
    for s2, x in split_int(I, st, a[1]):
        i = char_index(s, x)
        if i is None:
            M.panic(I, s2, 'split_at out of range')
        else:
            out.append((s2, AggV(c.dty, 0, (substr(s, 0, i), substr(s, i, len(s.ch))))))
    return out


@m('str::split_at_checked', spec='dv')
def _split_atc(I, st, a, c):
    s = want_str(a[0])
    out = []
    for s2, x in split_int(I, st, a[1]):
        i = char_index(s, x)
        out.append((s2, c.none() if i is None else c.some(AggV(c.inner(), 0, (substr(s, 0, i), substr(s, i, len(s.ch)))))))
    return out


WS = [9, 10, 11, 12, 13, 32, 0x85, 0xa0]


def is_ws(x):
    if x.c is not None:
        return 1 if chr(x.c).isspace() and x.c not in (0x1c, 0x1d, 0x1e, 0x1f) else 0
    e = OR(char_range(x, 9, 13), char_is(x, 32))
    if eff_bits(x) > 7:
        for o in (0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000):
            e = OR(e, char_is(x, o))
        e = OR(e, char_range(x, 0x2000, 0x200a))
    return e


def trim(I, st, s, pred, left, right):
    """Value of the trimmed string: alternatives by bounds."""
    n = len(s.ch)
    es = [pred(i) for i in range(n)]
    lefts = []
    rest = 1
    if left:
        for i in range(n):
            g = AND(rest, es[i] ^ 1)
            if AND(g, st.pc):
                lefts.append((g, i))
            rest = AND(rest, es[i])
            if AND(rest, st.pc) == 0:
                rest = 0
                break
        if rest:
            lefts.append((rest, n))
    else:
        lefts = [(1, 0)]
    r = None
    for gl, i in lefts:
        if right:
            rest = gl
            for j in range(n, i, -1):
                g = AND(rest, es[j - 1] ^ 1)
                if AND(g, st.pc):
                    v = substr(s, i, j)
                    r = v if r is None else ite(g, v, r)
                rest = AND(rest, es[j - 1])
                if AND(rest, st.pc) == 0:
                    rest = 0
                    break
            if rest:
                v = substr(s, i, i)
                r = v if r is None else ite(rest, v, r)
        else:
            v = substr(s, i, n)
            r = v if r is None else ite(gl, v, r)
    return r if r is not None else s


for _n, _l, _r in (('trim', 1, 1), ('trim_start', 1, 0), ('trim_end', 0, 1), ('trim_left', 1, 0), ('trim_right', 0, 1)):
    MODELS['str::' + _n] = (lambda I, st, a, c, l=_l, r=_r: trim(I, st, want_str(a[0]), lambda i: is_ws(a[0].ch[i]), l, r), 'd')
for _n, _l, _r in (('trim_matches', 1, 1), ('trim_start_matches', 1, 0), ('trim_end_matches', 0, 1), ('trim_left_matches', 1, 0), ('trim_right_matches', 0, 1)):
    MODELS['str::' + _n] = (lambda I, st, a, c, l=_l, r=_r: trim_pat(I, st, want_str(a[0]), a[1], l, r), 'dv')


def trim_pat(I, st, s, pat, left, right):
    p = deref(I, st, pat) if not isinstance(pat, FnV) else pat
    m_ = len(p.ch) if isinstance(p, StrV) else 1
    if m_ == 0:
        return s
    if m_ == 1:
        return trim(I, st, s, lambda i: pat_at(I, st, pat, s, i)[0], left, right)
    # a text of several characters, taken off as often as it stands there (one side only)
    if left and right:
        raise Unknown()
    n = len(s.ch)
    r = None
    rest = 1
    k = 0
    while rest:
        at = k if left else n - k - m_
        e = pat_at(I, st, pat, s, at)[0] if 0 <= at and at + m_ <= n else 0
        g = AND(rest, e ^ 1)
        if AND(g, st.pc):
            v = substr(s, k, n) if left else substr(s, 0, n - k)
            r = v if r is None else ite(g, v, r)
        rest = AND(rest, e)
        if AND(rest, st.pc) == 0:
            rest = 0
        k += m_
    return r if r is not None else s


# ---- iterators over strings ---------------------------------------------

def bytes_of(I, st, s):
    """UTF-8 bytes as 8-bit values."""
    out = []
    for i, x in enumerate(s.ch):
        n = 1 if s.bl is None else s.bl[i]
        if n == 1:
            out.append(extend(x, 8))
        elif x.c is not None:
            out.extend(IntV(8, b) for b in chr(x.c).encode('utf8', 'surrogatepass'))
        else:
            b = x.bits
            if n == 2:
                out.append(IntV(8, None, b[6:11] + (0, 1, 1)))
            elif n == 3:
                out.append(IntV(8, None, b[12:16] + (0, 1, 1, 1)))
                out.append(IntV(8, None, b[6:12] + (0, 1)))
            else:
                out.append(IntV(8, None, b[18:21] + (0, 1, 1, 1, 1)))
                out.append(IntV(8, None, b[12:18] + (0, 1)))
                out.append(IntV(8, None, b[6:12] + (0, 1)))
            out.append(IntV(8, None, b[0:6] + (0, 1)))
    return out


def ilist(es, back=True):
    return AggV('it:list', 0, (VecV(tuple(es)),))


@m('str::chars', spec='d')
def _chars(I, st, a, c):
    return ilist(want_str(a[0]).ch)


@m('str::bytes', spec='d')
def _bytes(I, st, a, c):
    return ilist(bytes_of(I, st, want_str(a[0])))


@m('str::char_indices', spec='d')
def _cidx(I, st, a, c):
    s = want_str(a[0])
    return ilist([AggV(None, 0, (ci(byte_off(s, i)), x)) for i, x in enumerate(s.ch)])


@m('str::as_bytes', 'String::as_bytes', 'String::into_bytes', 'str::into_boxed_bytes', spec='d')
def _asb(I, st, a, c):
    v = VecV(tuple(bytes_of(I, st, want_str(a[0]))))
    return v if c.c['name'] == 'into_bytes' else I.alloc(st, v)


def mk_split(s, pat, limit, kind, rev=False):
    # fields: rest string (or () when finished), pattern, remaining limit, kind flags
    return AggV('it:split' + ('r' if rev else '') + kind, 0, (s, pat, ci(limit), F))


@m('str::split', spec='dv')
def _split(I, st, a, c):
    return mk_split(want_str(a[0]), a[1], 1 << 40, '')


@m('str::rsplit', spec='dv')
def _rsplit(I, st, a, c):
    return mk_split(want_str(a[0]), a[1], 1 << 40, '', True)


@m('str::split_terminator', spec='dv')
def _split_t(I, st, a, c):
    return mk_split(want_str(a[0]), a[1], 1 << 40, ':t')


@m('str::split_inclusive', spec='dv')
def _split_i(I, st, a, c):
    return mk_split(want_str(a[0]), a[1], 1 << 40, ':i')


@m('str::splitn', spec='dvv')
def _splitn(I, st, a, c):
    return [(s, mk_split(want_str(a[0]), a[2], n, '')) for s, n in split_int(I, st, a[1])]


@m('str::rsplitn', spec='dvv')
def _rsplitn(I, st, a, c):
    return [(s, mk_split(want_str(a[0]), a[2], n, '', True)) for s, n in split_int(I, st, a[1])]


def split_next(I, st, it):
    """[(state, iterator, item or None)]"""
    if it.fs[3].c:
        return [(st, it, None)]
    kind = it.ty[len('it:split'):]
    rev = kind.startswith('r')
    out = []
    for s1, rest in split(I, st, it.fs[0]):
        if not isinstance(rest, StrV):
            raise Unknown()
        lim = it.fs[2].c
        done = AggV(it.ty, 0, (StrV(()), it.fs[1], it.fs[2], T))
        if lim == 0:
            out.append((s1, done, None))
            continue
        if lim == 1:
            out.append((s1, done, rest))
            continue
        if ':t' in kind or ':i' in kind:
            if len(rest.ch) == 0:
                out.append((s1, done, None))
                continue
        pos, none = find_positions(I, s1, rest, it.fs[1], rev)
        if AND(none, s1.pc):
            out.append((s1.with_pc(AND(s1.pc, none)), done, rest))
        for g, i, n in pos:
            s2 = s1.with_pc(AND(s1.pc, g))
            if rev:
                item, nxt = substr(rest, i + n, len(rest.ch)), substr(rest, 0, i)
            elif ':i' in kind:
                item, nxt = substr(rest, 0, i + n), substr(rest, i + n, len(rest.ch))
            else:
                item, nxt = substr(rest, 0, i), substr(rest, i + n, len(rest.ch))
            out.append((s2, AggV(it.ty, 0, (nxt, it.fs[1], ci(lim - 1 if lim < (1 << 39) else lim), F)), item))
    return out


@m('str::split_whitespace', 'str::split_ascii_whitespace', 'str::lines', spec='d')
def _sws(I, st, a, c):
    s = want_str(a[0])
    t = s.const()
    if t is None:
        es = [is_ws(x) if 'white' in c.c['name'] else char_is(x, 10) for x in s.ch]
        if all(AND(e, st.pc) == 0 for e in es):
            return ilist([s] if s.ch else [])
        raise Unknown()
    return ilist([cstr(x) for x in (t.split() if 'white' in c.c['name'] else t.split('\n'))])


# ---- conversion ------------------------------------------------------------

def map_chars(I, st, s, f):
    return StrV(tuple(f(x) for x in s.ch), s.bl)


def upper(x):
    return ite(char_range(x, 97, 122), isub(x, IntV(x.w, 32, None, x.sg)), x)


def lower(x):
    return ite(char_range(x, 65, 90), iadd(x, IntV(x.w, 32, None, x.sg)), x)


@m('str::to_uppercase', 'str::to_ascii_uppercase', spec='d')
def _up(I, st, a, c):
    s = want_str(a[0])
    if s.bl is not None and 'ascii' not in c.c['name']:
        raise Unknown()
    return map_chars(I, st, s, upper)


@m('str::to_lowercase', 'str::to_ascii_lowercase', spec='d')
def _lo(I, st, a, c):
    s = want_str(a[0])
    if s.bl is not None and 'ascii' not in c.c['name']:
        raise Unknown()
    return map_chars(I, st, s, lower)


@m('str::eq_ignore_ascii_case', spec='dd')
def _eic(I, st, a, c):
    return boolv(M.eq_values(I, st, map_chars(I, st, want_str(a[0]), lower), map_chars(I, st, want_str(a[1]), lower)))


@m('str::repeat', spec='dv')
def _rep(I, st, a, c):
    if not M.capacity(I, st, a[1]):
        return []
    return [(s, strcat([want_str(a[0])] * n)) for s, n in split_int(I, st, a[1])]


def _replace(limit):
    def f(I, st, a, c):
        s = want_str(a[0])
        to = deref(I, st, a[2])
        if not isinstance(to, StrV):
            raise Unknown()
        outs = [(st, s, [])]
        res = []
        n = 0
        while outs:
            n += 1
            if n > 200:
                raise Unknown()
            nx = []
            for s1, rest, acc in outs:
                pos, none = find_positions(I, s1, rest, a[1])
                if AND(none, s1.pc):
                    res.append((s1.with_pc(AND(s1.pc, none)), strcat(acc + [rest])))
                for g, i, k in pos:
                    nx.append((s1.with_pc(AND(s1.pc, g)), substr(rest, i + k, len(rest.ch)), acc + [substr(rest, 0, i), to]))
            if len(nx) > 300:
                raise Unknown()
            outs = nx
        return res
    return f


MODELS['str::replace'] = (_replace(None), 'dvv')


@m('String::new')
def _snew(I, st, a, c):
    return cstr('')


@m('String::with_capacity', 'String::from_utf8_unchecked')
def _swc(I, st, a, c):
    if c.c['name'] == 'from_utf8_unchecked':
        raise Unknown()
    if not M.capacity(I, st, a[0]):
        return None
    return st, cstr('')


@m('String::as_str', 'String::as_mut_str', 'String::into_boxed_str', 'str::into_string', 'str::as_str', 'Chars::as_str')
def _as_str(I, st, a, c):
    v = deref(I, st, a[0])
    if isinstance(v, AggV) and v.ty == 'it:list':
        es = v.fs[0].es
        return StrV(tuple(es), None)
    return v


@m('String::push', spec='mv')
def _push(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        x = a[1]
        if not isinstance(v, StrV) or not isinstance(x, IntV):
            I.store(s, r, StrTop('push'))
            out.append((s, UNIT))
            continue
        bl = M.char_len(I, s, x)
        if bl is None:
            # split by encoded length
            for lo, hi, n in ((0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xffff, 3), (0x10000, 0x10ffff, 4)):
                p = AND(s.pc, char_range(x, lo, hi))
                if p:
                    s2 = s.with_pc(p)
                    I.store(s2, r, strcat([v, StrV((x,), None if n == 1 else (n,))]))
                    out.append((s2, UNIT))
            continue
        I.store(s, r, strcat([v, StrV((x,), None if bl == 1 else (bl,))]))
        out.append((s, UNIT))
    return out


@m('String::push_str', 'String::extend_from_within', spec='md')
def _push_str(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        x = a[1]
        I.store(s, r, strcat([v, x]) if isinstance(v, StrV) and isinstance(x, StrV) else StrTop('push_str'))
        out.append((s, UNIT))
    return out


@m('Add::add', spec='vv')
def _add(I, st, a, c):
    x, y = a
    if isinstance(x, StrV):
        y = deref(I, st, y)
        if isinstance(y, StrV):
            return strcat([x, y])
        return [(s, strcat([x, z])) for s, z in split(I, st, y) if isinstance(z, StrV)]
    return arith(I, st, a, c)


@m('AddAssign::add_assign', spec='mv')
def _adda(I, st, a, c):
    v = deref(I, st, a[0])
    if isinstance(v, (StrV, FmtV)) or (isinstance(v, Cases) and isinstance(v.cs[0][1], (StrV, FmtV))):
        out = []
        for s, r, v in sfield(I, st, a[0]):
            for s2, y in split(I, s, deref(I, s, a[1])):
                if not (isinstance(v, StrV) and isinstance(y, StrV)):
                    raise Unknown()
                I.store(s2, r, strcat([v, y]))
                out.append((s2, UNIT))
        return out
    return arith_assign(I, st, a, c)


ARITH = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}


def checked_arith(I, st, op, x, y):
    """Arithmetic through references or trait methods, with the overflow panic."""
    x, y = deref(I, st, x), deref(I, st, y)
    if op in ('Add', 'Sub', 'Mul') and isinstance(x, IntV) and isinstance(y, IntV):
        r = I.binop(st, op + 'WithOverflow', x, y)
        bad = AND(st.pc, I.edge(st, r.fs[1]))
        if bad:
            I.event('panic', 'Overflow(%s)' % op, bad)
        st.pc = AND(st.pc, bad ^ 1)
        return r.fs[0]
    if op in ('Div', 'Rem') and isinstance(x, IntV) and isinstance(y, IntV):
        bad = AND(st.pc, ieq(y, IntV(y.w, 0)))
        if bad:
            I.event('panic', 'DivisionByZero', bad)
        st.pc = AND(st.pc, bad ^ 1)
    return I.binop(st, op, x, y)


def arith(I, st, a, c):
    op = ARITH.get(c.c['name'])
    x = deref(I, st, a[0])
    if not isinstance(x, (IntV, FloatV)):
        raise Unknown()
    v = checked_arith(I, st, op, x, a[1])
    return (st, v) if st.pc else None


def arith_assign(I, st, a, c):
    op = ARITH.get(c.c['name'].replace('_assign', ''))
    x = deref(I, st, a[0])
    if not isinstance(x, (IntV, FloatV)):
        raise Unknown()
    v = checked_arith(I, st, op, x, a[1])
    I.store(st, a[0], v)
    return (st, UNIT) if st.pc else None


for _n in ('sub', 'mul', 'div', 'rem', 'bitand', 'bitor', 'bitxor', 'shl', 'shr'):
    tr = {'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}.get(_n, _n.capitalize())
    MODELS[tr + '::' + _n] = (arith, 'vv')
    MODELS[tr + 'Assign::' + _n + '_assign'] = (arith_assign, 'mv')


@m('Neg::neg', 'Not::not', spec='d')
def _neg(I, st, a, c):
    if not isinstance(a[0], (IntV, FloatV)):
        raise Unknown()
    return I.unop(st, 'Neg' if c.c['name'] == 'neg' else 'Not', a[0])


@m('String::pop', spec='m')
def _pop(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        want_str(v)
        if not v.ch:
            out.append((s, c.none()))
        else:
            I.store(s, r, substr(v, 0, len(v.ch) - 1))
            out.append((s, c.some(v.ch[-1])))
    return out


@m('String::clear', 'Vec::clear', 'BitVec::clear', spec='m')
def _clear(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        I.store(s, r, StrV(()) if isinstance(v, (StrV, StrTop)) else VecV(()))
        out.append((s, UNIT))
    return out


@m('String::truncate', spec='mv')
def _trunc(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        want_str(v)
        for s2, n in split_int(I, s, a[1]):
            if n < v.blen():
                i = char_index(v, n)
                if i is None:
                    M.panic(I, s2, 'truncate inside a character')
                    continue
                I.store(s2, r, substr(v, 0, i))
            out.append((s2, UNIT))
    return out


@m('String::insert_str', 'String::insert', spec='mvv')
def _ins(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        want_str(v)
        for s2, n in split_int(I, s, a[1]):
            i = char_index(v, n)
            x = a[2]
            if isinstance(x, IntV):
                bl = M.char_len(I, s2, x)
                if bl is None:
                    raise Unknown()
                x = StrV((x,), None if bl == 1 else (bl,))
            if i is None or not isinstance(x, StrV):
                raise Unknown()
            I.store(s2, r, strcat([substr(v, 0, i), x, substr(v, i, len(v.ch))]))
            out.append((s2, UNIT))
    return out


@m('String::remove', spec='mv')
def _srem(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        want_str(v)
        for s2, n in split_int(I, s, a[1]):
            i = char_index(v, n)
            if i is None or i >= len(v.ch):
                M.panic(I, s2, 'String::remove out of range')
                continue
            I.store(s2, r, strcat([substr(v, 0, i), substr(v, i + 1, len(v.ch))]))
            out.append((s2, v.ch[i]))
    return out


@m('String::split_off', spec='mv')
def _soff(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        want_str(v)
        for s2, n in split_int(I, s, a[1]):
            i = char_index(v, n)
            if i is None:
                M.panic(I, s2, 'split_off out of range')
                continue
            I.store(s2, r, substr(v, 0, i))
            out.append((s2, substr(v, i, len(v.ch))))
    return out


@m('String::drain', spec='mv')
def _sdrain(I, st, a, c):
    out = []
    for s, r, v in sfield(I, st, a[0]):
        want_str(v)
        for s2, b in slice_outcomes(I, s, v, a[1]):
            if b is None:
                M.panic(I, s2, 'drain out of range')
                continue
            i, j = b
            I.store(s2, r, strcat([substr(v, 0, i), substr(v, j, len(v.ch))]))
            out.append((s2, ilist(v.ch[i:j])))
    return out


@m('String::reserve', 'String::shrink_to_fit', 'Vec::reserve', 'Vec::shrink_to_fit', 'HashMap::reserve', 'BitVec::reserve', 'HashMap::shrink_to_fit')
def _reserve(I, st, a, c):
    if len(a) > 1 and not M.capacity(I, st, a[1]):
        return None
    return st, UNIT


def bytes_to_str(I, st, es):
    """[(state, StrV or None)] interpreting bytes as UTF-8; only single byte characters are followed."""
    chs = []
    ok = 1
    for e in es:
        ok = AND(ok, e.bits[7] ^ 1)
        chs.append(extend(IntV(8, e.c, e.b, False), 32, False))
    out = []
    p = AND(st.pc, ok)
    if p:
        out.append((st.with_pc(p), StrV(tuple(chs))))
    p = AND(st.pc, ok ^ 1)
    if p:
        s = st.with_pc(p)
        if all(e.c is not None for e in es):
            try:
                out.append((s, cstr(bytes(e.c for e in es).decode('utf8'))))
            except UnicodeDecodeError:
                out.append((s, None))
        else:
            out.append((s, StrTop('utf8')))
    return out


@m('str::from_utf8', 'String::from_utf8', 'converts::from_utf8', spec='d')
def _fu8(I, st, a, c):
    M.want_vec(a[0])
    return [(s, c.err() if x is None else c.ok(x)) for s, x in bytes_to_str(I, st, a[0].es)]


@m('String::from_utf8_lossy', 'String::from_utf8_lossy_owned', spec='d')
def _fu8l(I, st, a, c):
    M.want_vec(a[0])
    return [(s, StrTop('lossy') if x is None else x) for s, x in bytes_to_str(I, st, a[0].es)]


@m('Cow::into_owned', spec='d')
def _cow(I, st, a, c):
    return a[0]


# ---- characters and bytes ---------------------------------------------------

def ch_pred(*ranges):
    def f(I, st, a, c):
        x = a[0]
        if not isinstance(x, IntV):
            raise Unknown()
        e = 0
        for lo, hi in ranges:
            e = OR(e, char_range(x, lo, hi))
        return boolv(e)
    return f


for _n, _r in {
        'is_ascii_digit': [(48, 57)], 'is_ascii_uppercase': [(65, 90)], 'is_ascii_lowercase': [(97, 122)],
        'is_ascii_alphabetic': [(65, 90), (97, 122)], 'is_ascii_alphanumeric': [(48, 57), (65, 90), (97, 122)],
        'is_ascii_hexdigit': [(48, 57), (65, 70), (97, 102)], 'is_ascii': [(0, 127)], 'is_ascii_graphic': [(33, 126)],
        'is_ascii_punctuation': [(33, 47), (58, 64), (91, 96), (123, 126)], 'is_ascii_control': [(0, 31), (127, 127)],
        'is_ascii_whitespace': [(9, 10), (12, 13), (32, 32)]}.items():
    for _t in ('char', 'u8', 'num', 'methods'):
        MODELS['%s::%s' % (_t, _n)] = (ch_pred(*_r), 'd')


def ascii_only(f):
    def g(I, st, a, c):
        x = a[0]
        if not isinstance(x, IntV):
            raise Unknown()
        e = f(x)
        if eff_bits(x) > 7:
            big = AND(st.pc, ilt(IntV(x.w, 127), x))
            if big:
                if x.c is not None:
                    ch_ = chr(x.c)
                    n = c.c['name']
                    return cb({'is_numeric': ch_.isnumeric(), 'is_alphabetic': ch_.isalpha(), 'is_alphanumeric': ch_.isalnum(),
                               'is_uppercase': ch_.isupper(), 'is_lowercase': ch_.islower(), 'is_control': x.c < 160}[n])
                e = ite(ilt(IntV(x.w, 127), x), boolv(bdd.new_var('unk:char class', True)), boolv(e)).bits[0]
        return boolv(e)
    return g


MODELS['char::is_numeric'] = (ascii_only(lambda x: char_range(x, 48, 57)), 'd')
MODELS['char::is_alphabetic'] = (ascii_only(lambda x: OR(char_range(x, 65, 90), char_range(x, 97, 122))), 'd')
MODELS['char::is_alphanumeric'] = (ascii_only(lambda x: OR(char_range(x, 48, 57), OR(char_range(x, 65, 90), char_range(x, 97, 122)))), 'd')
MODELS['char::is_uppercase'] = (ascii_only(lambda x: char_range(x, 65, 90)), 'd')
MODELS['char::is_lowercase'] = (ascii_only(lambda x: char_range(x, 97, 122)), 'd')
MODELS['char::is_control'] = (ascii_only(lambda x: OR(char_range(x, 0, 31), char_range(x, 127, 127))), 'd')
MODELS['char::is_whitespace'] = (lambda I, st, a, c: boolv(is_ws(a[0])), 'd')


@m('char::len_utf8', spec='v')
def _lu8(I, st, a, c):
    x = a[0]
    r = ci(4)
    for lim, n in ((0x10000, 3), (0x800, 2), (0x80, 1)):
        r = ite(ilt(x, IntV(32, lim)), ci(n), r)
    return r


def digit_val(x, radix):
    """(edge valid, value)"""
    d = char_range(x, 48, min(57, 47 + radix))
    v = isub(x, IntV(x.w, 48))
    if radix > 10:
        up = char_range(x, 65, 54 + radix)
        lo = char_range(x, 97, 86 + radix)
        v = ite(up, isub(x, IntV(x.w, 55)), ite(lo, isub(x, IntV(x.w, 87)), v))
        d = OR(d, OR(up, lo))
    return d, v


@m('char::is_digit', spec='vv')
def _isd(I, st, a, c):
    if a[1].c is None:
        raise Unknown()
    return boolv(digit_val(a[0], a[1].c)[0])


@m('char::to_digit', spec='vv')
def _tod(I, st, a, c):
    if a[1].c is None:
        raise Unknown()
    e, v = digit_val(a[0], a[1].c)
    return ite(e, c.some(extend(v, 32)), c.none())


@m('char::from_digit', 'convert::from_digit', spec='vv')
def _fd(I, st, a, c):
    x, r = a
    if r.c is None:
        raise Unknown()
    v = ite(ilt(x, IntV(32, 10)), iadd(x, IntV(32, 48)), iadd(x, IntV(32, 87)))
    return ite(ilt(x, r), c.some(v), c.none())


@m('char::from_u32', 'convert::from_u32', spec='v')
def _fu32(I, st, a, c):
    x = a[0]
    if not isinstance(x, IntV):
        raise Unknown()
    ok = AND(ilt(x, IntV(32, 0x110000)), char_range(x, 0xd800, 0xdfff) ^ 1)
    if AND(st.pc, ok ^ 1) == 0:
        return c.some(extend(x, 32, False))
    return ite(ok, c.some(extend(x, 32, False)), c.none())


@m('char::from_u32_unchecked', spec='v')
def _fu32u(I, st, a, c):
    return extend(a[0], 32, False)


for _t in ('char', 'u8', 'num'):
    MODELS[_t + '::to_ascii_uppercase'] = (lambda I, st, a, c: upper(a[0]), 'd')
    MODELS[_t + '::to_ascii_lowercase'] = (lambda I, st, a, c: lower(a[0]), 'd')
    MODELS[_t + '::eq_ignore_ascii_case'] = (lambda I, st, a, c: boolv(ieq(lower(a[0]), lower(a[1]))), 'dd')


# ---- parsing ----------------------------------------------------------------

def parse_int(I, st, s, w, sg, radix=10):
    """(edge ok, IntV) of <int>::from_str(s) for a string of known length."""
    n = len(s.ch)
    if n == 0:
        return 0, IntV(w, 0, None, sg)
    t = s.const()
    if t is not None and radix == 10:
        import re
        if not re.fullmatch('[+-]?[0-9]+' if sg else '[+]?[0-9]+', t, re.A):
            return 0, IntV(w, 0, None, sg)
        x = int(t)
        if not (-(1 << w - 1) <= x < (1 << w - 1) if sg else x < (1 << w)):
            return 0, IntV(w, 0, None, sg)
        return 1, IntV(w, x & MASKS[w], None, sg)
    plus = char_is(s.ch[0], 43)
    minus = char_is(s.ch[0], 45) if sg else 0

    def digits(chs):
        ok = 1
        v = None
        W = w + 2
        # digits before the last ones that matter are zeros, or the number is too large
        most = {10: 41, 16: 33}.get(radix, 130) if w > 64 else {10: 21, 16: 17}.get(radix, 66)
        if len(chs) > most:
            for x in chs[:-most]:
                ok = AND(ok, char_is(x, 48))
            chs = chs[-most:]
        # enough bits for len(chs) digits, saturating
        need = int(len(chs) * (3.33 if radix == 10 else 4 if radix == 16 else 1)) + 2
        W = max(W, need)
        v = IntV(W, 0)
        started = False
        for x in chs:
            e, d = digit_val(x, radix)
            ok = AND(ok, e)
            if AND(st.pc, ok) == 0:
                return 0, v
            d = extend(IntV(d.w, d.c, d.b, False), W) if d.c is not None else IntV(W, None, tuple(AND(e, b) for b in d.bits[:6]) + (0,) * (W - 6))
            if started:
                if radix == 16:
                    v = shl_const(v, 4)
                elif radix == 2:
                    v = shl_const(v, 1)
                else:
                    v = iadd(shl_const(v, 3), shl_const(v, 1))
            v = iadd(v, d)
            started = True
        return ok, v

    res_ok, res = 0, IntV(w, 0, None, sg)
    ok0, v0 = digits(s.ch)
    if ok0:
        lim = (1 << (w - 1)) if sg else (1 << w)
        fit = ilt(v0, IntV(v0.w, lim)) if lim < (1 << v0.w) else 1
        res_ok = AND(ok0, fit)
        res = extend(v0, w, sg)
    for sign, neg in ((plus, False), (minus, True)):
        if AND(sign, st.pc) == 0 or n == 1:
            continue
        ok1, v1 = digits(s.ch[1:])
        if not ok1:
            continue
        if neg:
            fit = ilt(IntV(v1.w, (1 << (w - 1))), v1) ^ 1
            r1 = ineg(extend(v1, w, sg))
        else:
            lim = (1 << (w - 1)) if sg else (1 << w)
            fit = ilt(v1, IntV(v1.w, lim)) if lim < (1 << v1.w) else 1
            r1 = extend(v1, w, sg)
        g = AND(sign, AND(ok1, fit))
        res = ite(sign, r1, res)
        res_ok = OR(res_ok, g)
    return res_ok, res


def float_ok(st, s):
    """Edge: the string is accepted by f64::from_str (decimal grammar, inf, nan)."""
    n = len(s.ch)
    if n == 0:
        return 0
    dig = [char_range(x, 48, 57) for x in s.ch]
    dot = [char_is(x, 46) for x in s.ch]
    exp = [OR(char_is(x, 101), char_is(x, 69)) for x in s.ch]
    sign = [OR(char_is(x, 43), char_is(x, 45)) for x in s.ch]
    # states: 0 start, 1 after sign, 2 int digits, 3 dot after digits, 4 dot without digits, 5 frac digits, 6 e, 7 e sign, 8 exp digits
    cur = {0: 1}
    for i in range(n):
        nx = {}

        def add(k, e):
            if e:
                nx[k] = OR(nx.get(k, 0), e)
        for k, e in cur.items():
            if k == 0:
                add(1, AND(e, sign[i]))
            if k in (0, 1):
                add(2, AND(e, dig[i]))
                add(4, AND(e, dot[i]))
            if k == 2:
                add(2, AND(e, dig[i]))
                add(3, AND(e, dot[i]))
                add(6, AND(e, exp[i]))
            if k == 3 or k == 5:
                add(5, AND(e, dig[i]))
                add(6, AND(e, exp[i]))
            if k == 4:
                add(5, AND(e, dig[i]))
            if k == 6:
                add(7, AND(e, sign[i]))
                add(8, AND(e, dig[i]))
            if k in (7, 8):
                add(8, AND(e, dig[i]))
        cur = nx
    ok = 0
    for k in (2, 3, 5, 8):
        ok = OR(ok, cur.get(k, 0))
    for word in ('inf', 'nan', 'infinity'):
        for off in (0, 1):
            if n == len(word) + off:
                e = sign[0] if off else 1
                for x, c in zip(s.ch[off:], word):
                    e = AND(e, OR(char_is(x, ord(c)), char_is(x, ord(c) - 32)))
                ok = OR(ok, e)
    return ok


def rust_float(t):
    t2 = t
    try:
        return float(t2)
    except ValueError:
        return None


def float_term(s, w=64):
    t = s.const()
    if t is not None:
        x = rust_float(t)
        if x is not None:
            return FloatV(f32(x) if w == 32 else x, (), w)
    return fatom(Atom('pf', s, w), 1.0, w)


def parse_to(I, st, s, ty, c):
    """Result value of parsing s as type ty; [(state, value)]"""
    t = I.types[ty]
    if t['k'] == 'int':
        ok, v = parse_int(I, st, s, t['w'], t['sg'])
        if ok == 0:
            return c.err()
        return ite(ok, c.ok(v), c.err()) if AND(st.pc, ok ^ 1) else c.ok(v)
    if t['k'] == 'float':
        ok = float_ok(st, s)
        if ok == 0:
            return c.err()
        v = float_term(s, t['w'])
        return ite(ok, c.ok(v), c.err()) if AND(st.pc, ok ^ 1) else c.ok(v)
    if t['k'] == 'char':
        return c.ok(s.ch[0]) if len(s.ch) == 1 else c.err()
    if t['k'] == 'bool':
        tr, fa = M.eq_values(I, st, s, cstr('true')), M.eq_values(I, st, s, cstr('false'))
        return ite(OR(tr, fa), c.ok(boolv(tr)), c.err())
    if M.is_path(t, 'String'):
        return c.ok(s)
    raise Unknown()


@m('str::parse', spec='d')
def _parse(I, st, a, c):
    s = want_str(a[0])
    ty = c.targs[-1]
    t = I.types[ty]
    if t['k'] == 'adt' and t.get('local'):
        for b in I.w.j['bodies']:
            if b['local'] and b['name'] == 'from_str' and b.get('self_ty') == t['s']:
                return I.call_body(st, b['id'], [s])
    return parse_to(I, st, s, ty, c)


@m('FromStr::from_str', spec='d')
def _fromstr(I, st, a, c):
    return parse_to(I, st, want_str(a[0]), c.targs[0], c)


@m('num::from_str_radix', 'u8::from_str_radix', 'u32::from_str_radix', 'u64::from_str_radix', spec='dv')
def _fsr(I, st, a, c):
    s = want_str(a[0])
    if a[1].c not in (2, 10, 16):
        raise Unknown()
    t = I.types[c.inner()]
    ok, v = parse_int(I, st, s, t['w'], t['sg'], a[1].c)
    if ok == 0:
        return c.err()
    return ite(ok, c.ok(v), c.err())


# ---- From / AsRef / Deref ------------------------------------------------------

@m('Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'DerefMut::deref_mut', 'AsMut::as_mut', 'BorrowMut::borrow_mut', 'Vec::as_slice', 'Vec::as_mut_slice',
   '[]::as_slice', 'BitVec::as_bitslice', 'BitVec::as_mut_bitslice', 'Box::as_ref', 'BitVec::as_slice')
def _deref(I, st, a, c):
    r = a[0]
    v = I.load(st, r) if isinstance(r, (Ref, Cases)) else r
    n = 0
    while isinstance(v, Ref) and n < 8:
        r = v
        v = I.load(st, r)
        n += 1
    t = I.types[c.dty] if c.dty is not None else None
    if t is not None and t['k'] == 'ref' and I.types[t['e']]['k'] == 'str':
        return v
    if isinstance(v, (StrV, StrTop, FmtV)):
        if t is not None and t['k'] == 'ref' and I.types[t['e']]['k'] == 'slice':
            if isinstance(v, StrV):
                return I.alloc(st, VecV(tuple(bytes_of(I, st, v))))
            raise Unknown()
        return v if isinstance(r, (Ref, Cases)) and t is not None and t['k'] == 'ref' and I.types[t['e']]['k'] == 'str' else r
    return r


@m('From::from', 'Into::into', spec='v')
def _from(I, st, a, c):
    v = a[0]
    t = I.types[c.dty]
    if c.c['name'] == 'into':
        raise Unknown()
    if M.is_path(t, 'String'):
        if isinstance(v, IntV):
            bl = M.char_len(I, st, v)
            if bl is None:
                raise Unknown()
            return StrV((v,), None if bl == 1 else (bl,))
        v = deref(I, st, v)
        if isinstance(v, (StrV, FmtV, StrTop)):
            return v
        raise Unknown()
    if M.is_path(t, 'Vec'):
        v = deref(I, st, v)
        if isinstance(v, VecV):
            return v
        if isinstance(v, StrV):
            return VecV(tuple(bytes_of(I, st, v)))
        raise Unknown()
    if t['k'] in ('int', 'char') and isinstance(v, IntV):
        return extend(v, 32, False) if t['k'] == 'char' else extend(v, t['w'], t['sg'])
    if t['k'] == 'float':
        if isinstance(v, IntV):
            return int_to_float(v, t['w'])
        if isinstance(v, FloatV):
            return FloatV(v.k, v.ts, t['w'])
    if M.is_path(t, 'Option'):
        return c.some(v)
    if M.is_path(t, 'Box', 'Cow', 'Arc', 'Rc') and isinstance(deref(I, st, v), (StrV, FmtV)):
        return deref(I, st, v)
    src = c.targ(1)
    if src is not None and c.targs and c.targs[0] == c.targs[-1]:
        return v
    raise Unknown()


@m('TryFrom::try_from', 'TryInto::try_into', spec='v')
def _tryfrom(I, st, a, c):
    v = a[0]
    t = I.types[c.dty]
    ty = I.types[t['args'][0]] if t.get('args') else None
    if ty is None or not isinstance(v, IntV):
        raise Unknown()
    if ty['k'] == 'int':
        r = extend(v, ty['w'], ty['sg'])
        # value preserved?
        W = max(v.w, ty['w']) + 1
        ok = ieq(extend(v, W), extend(r, W))
        return ite(ok, c.ok(r), c.err()) if AND(st.pc, ok ^ 1) else c.ok(r)
    if ty['k'] == 'char':
        ok = AND(ilt(v, IntV(32, 0x110000)), char_range(v, 0xd800, 0xdfff) ^ 1)
        return ite(ok, c.ok(extend(v, 32, False)), c.err())
    raise Unknown()


@m('Option::as_deref', 'Option::as_ref', 'Option::as_mut', 'Option::as_deref_mut')
def _asref(I, st, a, c):
    if c.c['name'] in ('as_ref', 'as_mut'):
        r = a[0]
        v = I.load(st, r) if isinstance(r, (Ref, Cases)) else r

        def f(g, x):
            if isinstance(x, AggV) and x.vi == 1:
                if isinstance(r, Ref):
                    return c.some(Ref(r.root, r.path + (('d', 1), ('f', 0))))
                return c.some(I.alloc(st, x.fs[0]))
            if isinstance(x, AggV):
                return c.none()
            raise Unknown()
        if isinstance(v, Cases):
            res = None
            for g, x in v.cs:
                y = f(g, x)
                res = y if res is None else ite(g, y, res)
            return res
        return f(1, v)
    v = deref(I, st, a[0])

    def g(x):
        if isinstance(x, AggV) and x.vi == 1:
            y = x.fs[0]
            while isinstance(y, Ref):
                y = I.load(st, y)
            return c.some(y if isinstance(y, (StrV, StrTop, FmtV, Cases)) else I.alloc(st, y))
        if isinstance(x, AggV):
            return c.none()
        raise Unknown()
    return I.mapcases(v, g, st.pc)
