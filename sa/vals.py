"""Abstract values: vectors of boolean functions, guarded alternatives, and terms."""
from . import bdd
from .bdd import AND, OR, XOR, ITE, NOT, mk

MASKS = [(1 << i) - 1 for i in range(257)]


class Val:
    __slots__ = ()


class IntV(Val):
    """An integer (bool, char) of fixed width; bits are BDD edges, least significant first."""
    __slots__ = ('w', 'c', 'b', 'sg')

    def __init__(self, w, c=None, b=None, sg=False):
        self.w = w
        self.sg = sg
        if c is None:
            # normalise constants
            for x in b:
                if x > 1:
                    break
            else:
                c = 0
                for i, x in enumerate(b):
                    c |= x << i
        self.c = c
        self.b = b

    @property
    def bits(self):
        if self.b is None:
            c = self.c
            self.b = tuple((c >> i) & 1 for i in range(self.w))
        return self.b

    def sval(self):
        """signed python value of a constant"""
        c = self.c
        if self.sg and c >> (self.w - 1) & 1:
            c -= 1 << self.w
        return c

    def key(self):
        return ('i', self.w, self.c if self.c is not None else self.b)

    def __repr__(self):
        if self.c is not None:
            return '%d' % self.sval() if self.w != 1 else ('true' if self.c else 'false')
        return 'int%d<%s>' % (self.w, ','.join('.' if x > 1 else str(x) for x in reversed(self.b)).replace(',', ''))


def ci(c, w=64, sg=False):
    return IntV(w, c & MASKS[w], None, sg)


def cb(x):
    return T if x else F


T = IntV(1, 1)
F = IntV(1, 0)


def boolv(e):
    return IntV(1, None, (e,)) if e > 1 else (T if e else F)


class FloatV(Val):
    """const + sum coef*atom.  Atoms: ('int', IntV key.., IntV) / ('pf', chars) / ('op', name, args)"""
    __slots__ = ('k', 'ts', 'w')

    def __init__(self, k, ts=(), w=64):
        self.k = k
        self.ts = ts
        self.w = w

    def key(self):
        return ('f', self.w, round_key(self.k), tuple((a.key(), round_key(c)) for a, c in self.ts))

    def __repr__(self):
        return 'f(%r%s)' % (self.k, ''.join(' + %r*%r' % (c, a) for a, c in self.ts))


def round_key(x):
    try:
        if x != x:
            return 'nan'
        return float('%.12g' % x)
    except (OverflowError, ValueError):
        return x


class Atom:
    __slots__ = ('kind', 'args', '_k')

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.kind,) + tuple(x.key() if hasattr(x, 'key') else x for x in self.args)
        return self._k

    def __repr__(self):
        return '%s(%s)' % (self.kind, ','.join(map(repr, self.args)))


class StrV(Val):
    """A string of known length: characters are (code IntV32) with known UTF-8 length."""
    __slots__ = ('ch', 'bl', '_k')

    def __init__(self, ch, bl=None):
        self.ch = ch            # tuple of IntV (32 bit)
        self.bl = bl            # None if all single byte, else tuple of byte lengths
        self._k = None

    def key(self):
        if self._k is None:
            self._k = ('s', tuple(c.c if c.c is not None else c.b[:21] for c in self.ch))
        return self._k

    def blen(self):
        return len(self.ch) if self.bl is None else sum(self.bl)

    def const(self):
        o = []
        for c in self.ch:
            if c.c is None:
                return None
            o.append(chr(c.c))
        return ''.join(o)

    def __repr__(self):
        return 'str"%s"' % ''.join(chr(c.c) if c.c is not None else '\u00b7' for c in self.ch)


CHARS = {}


def ch(c):
    v = CHARS.get(c)
    if v is None:
        v = CHARS[c] = IntV(32, c)
    return v


def cstr(s):
    bl = None
    if any(ord(c) > 127 for c in s):
        bl = tuple(len(c.encode('utf8', 'surrogatepass')) for c in s)
    return StrV(tuple(ch(ord(c)) for c in s), bl)


def strcat(parts):
    chs = []
    bls = []
    multi = False
    for p in parts:
        chs.extend(p.ch)
        if p.bl is None:
            bls.extend([1] * len(p.ch))
        else:
            multi = True
            bls.extend(p.bl)
    return StrV(tuple(chs), tuple(bls) if multi else None)


class AggV(Val):
    __slots__ = ('ty', 'vi', 'fs')

    def __init__(self, ty, vi, fs):
        self.ty = ty
        self.vi = vi
        self.fs = fs

    def key(self):
        return ('a', self.vi, tuple(f.key() for f in self.fs), self.ty if isinstance(self.ty, str) else None)

    def __repr__(self):
        return '%s#%d%r' % (self.ty, self.vi, self.fs)


class VecV(Val):
    """Vec, slice, array, bit vector of known length."""
    __slots__ = ('es',)

    def __init__(self, es):
        self.es = es

    def key(self):
        return ('v', tuple(f.key() for f in self.es))

    def __repr__(self):
        return 'vec%r' % (list(self.es),)


class MapV(Val):
    """A map as a write log: entries (guard, key, value or None when removed).

    `ex` counts further entries under keys that differ from every key asked for (entries of an arbitrary history)."""
    __slots__ = ('log', 'ex')

    def __init__(self, log=(), ex=None):
        self.log = log
        self.ex = ex

    def key(self):
        return ('m', tuple((g, k.key(), v.key() if v is not None else None) for g, k, v in self.log),
                self.ex.key() if self.ex is not None else None)

    def __repr__(self):
        return 'map%r' % (list(self.log),)


class Ref(Val):
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def key(self):
        return ('r', self.root, self.path)

    def __repr__(self):
        return '&%r%r' % (self.root, self.path)


class MRef(Ref):
    """A reference that may be written through (where it is known)."""
    __slots__ = ()


class FnV(Val):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def key(self):
        return ('fn', self.f.get('sp'), tuple(self.f.get('args', ())))

    def __repr__(self):
        return 'fn %s' % self.f.get('path')


class FmtV(Val):
    """A lazily formatted string: parts are python str or (spec, value)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def key(self):
        return ('fmt', tuple(p if isinstance(p, str) else (p[0], p[1].key()) for p in self.parts))

    def __repr__(self):
        return 'fmt%r' % (self.parts,)


class TopV(Val):
    """Unknown value of a type."""
    __slots__ = ('ty', 'why')

    def __init__(self, ty, why=''):
        self.ty = ty
        self.why = why

    def key(self):
        return ('top', id(self))

    def __repr__(self):
        return 'TOP(%s %s)' % (self.ty, self.why)


class Cases(Val):
    """Guarded alternatives with disjoint guards; different shapes."""
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = cs

    def key(self):
        return ('c', tuple((g, v.key()) for g, v in self.cs))

    def __repr__(self):
        return 'cases[%s]' % ', '.join('%r' % (v,) for g, v in self.cs)


UNIT = AggV('()', 0, ())


class StrTop(Val):
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def key(self):
        return ('strtop', id(self))

    def __repr__(self):
        return 'STRTOP'


def shape(v):
    if isinstance(v, IntV):
        return ('i', v.w)
    if isinstance(v, AggV):
        return ('a', v.vi, len(v.fs), v.ty if isinstance(v.ty, str) else None)
    if isinstance(v, StrV):
        return ('s', len(v.ch), v.bl)
    if isinstance(v, VecV):
        return ('v', len(v.es))
    if isinstance(v, MapV):
        return 'm'
    if isinstance(v, FmtV):
        return ('fmt', tuple(p if isinstance(p, str) else p[0] for p in v.parts))
    return v.key()


MAXCASES = 160


def ite(g, a, b):
    """The value that is `a` where g holds, else `b`."""
    if a is b or g == 1:
        return a
    if g == 0:
        return b
    if a is None:
        return b
    if b is None:
        return a
    ta, tb = type(a), type(b)
    if ta is tb:
        if ta is IntV:
            if a.w == b.w:
                if a.c is not None and a.c == b.c:
                    return a
                if a.w == 1:
                    return boolv(ITE(g, a.bits[0], b.bits[0]))
                ab, bb = a.bits, b.bits
                if ab == bb:
                    return a
                return IntV(a.w, None, tuple([x if x == y else ITE(g, x, y) for x, y in zip(ab, bb)]), a.sg)
        elif ta is AggV:
            if a.vi == b.vi and len(a.fs) == len(b.fs) and (not isinstance(a.ty, str) or a.ty == b.ty):
                fs = tuple([x if x is y else ite(g, x, y) for x, y in zip(a.fs, b.fs)])
                for x, y in zip(fs, a.fs):
                    if x is not y:
                        return AggV(a.ty, a.vi, fs)
                return a
        elif ta is StrV:
            if len(a.ch) == len(b.ch) and a.bl == b.bl:
                return StrV(tuple([x if x is y else ite(g, x, y) for x, y in zip(a.ch, b.ch)]), a.bl)
        elif ta is VecV:
            if len(a.es) == len(b.es):
                return VecV(tuple([x if x is y else ite(g, x, y) for x, y in zip(a.es, b.es)]))
        elif ta is MapV:
            return map_ite(g, a, b)
        elif ta is FmtV:
            if shape(a) == shape(b):
                return FmtV(tuple([x if isinstance(x, str) or x is y else (x[0], ite(g, x[1], y[1])) for x, y in zip(a.parts, b.parts)]))
            if a.key() == b.key():
                return a
        elif ta is not Cases and a.key() == b.key():
            return a
    # general: guarded alternatives
    acc = {}
    order = []
    for gg, v in ((g, a), (g ^ 1, b)):
        for g2, x in (v.cs if type(v) is Cases else ((1, v),)):
            gx = AND(gg, g2)
            if gx == 0:
                continue
            k = shape(x)
            if k in acc:
                g0, v0 = acc[k]
                acc[k] = (OR(g0, gx), ite(gx, x, v0))
            else:
                acc[k] = (gx, x)
                order.append(k)
    if len(order) == 1:
        return acc[order[0]][1]
    if len(order) > MAXCASES:
        return TopV(None, 'too many alternatives')
    return Cases([acc[k] for k in order])


def map_ite(g, a, b):
    la, lb = a.log, b.log
    n = 0
    m = min(len(la), len(lb))
    while n < m and la[n] is lb[n]:
        n += 1
    ex = a.ex
    if ex is not b.ex:
        z = IntV(64, 0)
        ex = ite(g, ex if ex is not None else z, b.ex if b.ex is not None else z)
    if n == len(la) and n == len(lb):
        return a if ex is a.ex else MapV(la, ex)
    if len(la) == len(lb) and a.key() == b.key():
        return a
    log = list(la[:n])
    for e in la[n:]:
        gg = AND(g, e[0])
        if gg:
            log.append((gg, e[1], e[2]))
    for e in lb[n:]:
        gg = AND(g ^ 1, e[0])
        if gg:
            log.append((gg, e[1], e[2]))
    return MapV(tuple(log), ex)


def simp(v, care):
    """Drop alternatives that are impossible under `care`, and simplify functions."""
    if isinstance(v, Cases):
        cs = [(g, x) for g, x in v.cs if AND(g, care)]
        if len(cs) == 1:
            return cs[0][1]
        if len(cs) == len(v.cs):
            return v
        if not cs:
            return v.cs[0][1]
        return Cases(cs)
    if isinstance(v, IntV) and v.c is None:
        nb = []
        ch_ = False
        for x in v.b:
            if x > 1:
                if AND(x, care) == 0:
                    x = 0
                    ch_ = True
                elif AND(x ^ 1, care) == 0:
                    x = 1
                    ch_ = True
            nb.append(x)
        if ch_:
            return IntV(v.w, None, tuple(nb), v.sg)
    return v


# ---------------------------------------------------------------- integer arithmetic

def add_bits(a, b, cin=0):
    out = []
    c = cin
    for x, y in zip(a, b):
        if c <= 1 and x <= 1 and y <= 1:
            s = x + y + c
            out.append(s & 1)
            c = s >> 1
            continue
        xy = XOR(x, y)
        out.append(XOR(xy, c))
        c = OR(AND(x, y), AND(c, xy))
    return out, c


def iadd(a, b):
    if a.c is not None and b.c is not None:
        return IntV(a.w, (a.c + b.c) & MASKS[a.w], None, a.sg)
    o, c = add_bits(a.bits, b.bits)
    return IntV(a.w, None, tuple(o), a.sg)


def isub(a, b):
    if a.c is not None and b.c is not None:
        return IntV(a.w, (a.c - b.c) & MASKS[a.w], None, a.sg)
    o, c = add_bits(a.bits, [x ^ 1 for x in b.bits], 1)
    return IntV(a.w, None, tuple(o), a.sg)


def ineg(a):
    return isub(IntV(a.w, 0, None, a.sg), a)


def extend(a, w, sg=None):
    """Change width; the source's own signedness decides the extension."""
    if sg is None:
        sg = a.sg
    if a.c is not None:
        return IntV(w, a.sval() & MASKS[w], None, sg)
    if w <= a.w:
        return IntV(w, None, a.b[:w], sg)
    top = a.b[-1] if a.sg else 0
    return IntV(w, None, a.b + (top,) * (w - a.w), sg)


def imul_wide(a, b):
    """Product in a.w+b.w bits (signed aware), as IntV."""
    W = a.w + b.w
    if a.c is not None and b.c is not None:
        return IntV(W, (a.sval() * b.sval()) & MASKS[W], None, a.sg)
    if a.c is None and b.c is None:
        # put the one with fewer effective bits second
        pass
    if b.c is None and a.c is not None:
        a, b = b, a
    x = extend(a, W)
    acc = [0] * W
    if b.c is not None:
        m = b.sval()
        neg = m < 0
        m = abs(m)
        i = 0
        while m:
            if m & 1:
                acc, _ = add_bits(acc, ((0,) * i + x.bits)[:W])
            m >>= 1
            i += 1
        r = IntV(W, None, tuple(acc), a.sg)
        return ineg(r) if neg else r
    y = extend(b, W)
    n = eff_bits(y)
    if y.sg and y.bits[-1] != 0:
        n = W
    for i in range(n):
        yb = y.bits[i]
        if yb == 0:
            continue
        row = ((0,) * i + x.bits)[:W]
        acc, _ = add_bits(acc, [AND(yb, t) for t in row])
    return IntV(W, None, tuple(acc), a.sg)


def eff_bits(v):
    if v.c is not None:
        return v.c.bit_length()
    n = v.w
    b = v.b
    while n and b[n - 1] == 0:
        n -= 1
    return n


def ult_bits(a, b):
    r = 0
    for x, y in zip(a, b):       # from least significant
        if x == y:
            continue
        if x <= 1 and y <= 1:
            r = y
            continue
        d = XOR(x, y)
        r = ITE(d, y, r)
    return r


def ilt(a, b):
    """a < b as an edge"""
    if a.c is not None and b.c is not None:
        return 1 if a.sval() < b.sval() else 0
    x, y = a.bits, b.bits
    if a.sg:
        x = x[:-1] + (x[-1] ^ 1,)
        y = y[:-1] + (y[-1] ^ 1,)
    return ult_bits(x, y)


def ieq(a, b):
    if a.c is not None and b.c is not None:
        return 1 if a.c == b.c else 0
    r = 1
    for x, y in zip(a.bits, b.bits):
        r = AND(r, XOR(x, y) ^ 1)
        if r == 0:
            return 0
    return r


def udivmod(a, b):
    """unsigned a / b, a % b; b a non-zero constant or vector.  Long division."""
    if a.c is not None and b.c is not None:
        return (IntV(a.w, a.c // b.c, None, a.sg), IntV(a.w, a.c % b.c, None, a.sg))
    w = a.w
    if b.c is not None and b.c & (b.c - 1) == 0:
        s = b.c.bit_length() - 1
        q = a.bits[s:] + (0,) * s
        r = a.bits[:s] + (0,) * (w - s)
        return IntV(w, None, q, a.sg), IntV(w, None, r, a.sg)
    n = eff_bits(a)
    q = [0] * w
    rem = IntV(w + 1, 0)
    bb = extend(IntV(b.w, b.c, b.b, False), w + 1)
    for i in range(n - 1, -1, -1):
        rem = IntV(w + 1, None, (a.bits[i],) + rem.bits[:-1])
        ge = ilt(rem, bb) ^ 1
        q[i] = ge
        if ge:
            rem = ite(ge, isub(rem, bb), rem)
    return IntV(w, None, tuple(q), a.sg), IntV(w, None, rem.bits[:w], a.sg)


def irange(v, care=1):
    """(min, max) of the signed-aware value of v under care (care satisfiable)."""
    if v.c is not None:
        x = v.sval()
        return x, x
    bits = v.bits
    out = []
    for mode in (0, 1):
        pc = care
        val = 0
        for i in range(v.w - 1, -1, -1):
            want = mode
            if v.sg and i == v.w - 1:
                want = 1 - mode
            x = bits[i]
            t = AND(pc, x if want else x ^ 1)
            if t:
                pc = t
                bit = want
            else:
                bit = 1 - want
            if bit:
                val |= 1 << i
        if v.sg and val >> (v.w - 1):
            val -= 1 << v.w
        out.append(val)
    return out[0], out[1]


def shl_const(a, n):
    if a.c is not None:
        return IntV(a.w, (a.c << n) & MASKS[a.w], None, a.sg)
    return IntV(a.w, None, ((0,) * n + a.b)[:a.w], a.sg)


def shr_const(a, n):
    if a.c is not None:
        return IntV(a.w, (a.sval() >> n) & MASKS[a.w], None, a.sg)
    top = a.b[-1] if a.sg else 0
    return IntV(a.w, None, a.b[n:] + (top,) * min(n, a.w), a.sg)


# ---------------------------------------------------------------- floats

def fconst(x, w=64):
    return FloatV(float(x), (), w)


def fatom(atom, coef=1.0, w=64):
    return FloatV(0.0, ((atom, coef),), w)


def flin(a, b, sa, sb):
    """sa*a + sb*b"""
    d = {}
    order = []
    for t, s in ((a, sa), (b, sb)):
        for at, c in t.ts:
            k = at.key()
            if k not in d:
                d[k] = [at, 0.0]
                order.append(k)
            d[k][1] += c * s
    ts = tuple(sorted(((d[k][0], d[k][1]) for k in order if d[k][1] != 0.0), key=lambda t: repr(t[0].key())))
    return FloatV(a.k * sa + b.k * sb, ts, a.w)


def fscale(a, s):
    if s == 0.0:
        return FloatV(0.0, (), a.w)
    return FloatV(a.k * s, tuple((t, c * s) for t, c in a.ts), a.w)


def fop(name, *args, w=64):
    return fatom(Atom('op', name, *args), 1.0, w)


def int_to_float(v, w=64):
    if v.c is not None:
        return fconst(float(v.sval()), w)
    return fatom(Atom('int', v), 1.0, w)


# ---------------------------------------------------------------- concrete evaluation under an assignment (for witnesses)

def ev_int(v, a):
    if v.c is not None:
        return v.sval()
    r = 0
    for i, x in enumerate(v.b):
        r |= bdd.ev(x, a) << i
    if v.sg and r >> (v.w - 1) & 1:
        r -= 1 << v.w
    return r


import math
import struct


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def ev_float(f, a):
    r = f.k
    for at, c in f.ts:
        v = ev_atom(at, a)
        if v is None:
            return None
        r += c * v
    return r


def ev_atom(at, a):
    k = at.kind
    if k == 'int':
        return float(ev_int(at.args[0], a))
    if k == 'pf':
        s = ev_str(at.args[0], a)
        try:
            if '_' in s:
                return None
            x = float(s)
            return f32(x) if len(at.args) > 1 and at.args[1] == 32 else x
        except ValueError:
            return None
    if k == 'ite':
        g, x, y = at.args
        return ev_float(x if bdd.ev(g, a) else y, a)
    if k == 'op':
        n = at.args[0]
        xs = [ev_float(x, a) if isinstance(x, FloatV) else (ev_int(x, a) if isinstance(x, IntV) else x) for x in at.args[1:]]
        if any(x is None for x in xs):
            return None
        try:
            return FOPS[n](*xs)
        except (ZeroDivisionError, OverflowError, ValueError, KeyError):
            return None
    return None


def _rround(x):
    return math.copysign(math.floor(abs(x) + 0.5), x)


FOPS = {
    'mul': lambda x, y: x * y, 'div': lambda x, y: x / y, 'rem': math.fmod, 'powi': lambda x, n: x ** n,
    'powf': lambda x, y: x ** y,
    'abs': abs, 'sqrt': math.sqrt, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': _rround,
    'signum': lambda x: math.copysign(1.0, x), 'copysign': math.copysign, 'f32': f32, 'min': min, 'max': max,
    'fract': lambda x: x - math.trunc(x), 'mul_add': lambda a, b, c: a * b + c,
}


def ev_str(s, a):
    if isinstance(s, StrV):
        return ''.join(chr(ev_int(c, a)) for c in s.ch)
    if isinstance(s, Cases):
        for g, v in s.cs:
            if bdd.ev(g, a):
                return ev_str(v, a)
    return '?'


def concretise(v, a, types=None, depth=0):
    """A readable rendering of a value under an assignment."""
    if isinstance(v, IntV):
        x = ev_int(v, a)
        return ('true' if x else 'false') if v.w == 1 else x
    if isinstance(v, FloatV):
        return ev_float(v, a)
    if isinstance(v, StrV):
        return repr(ev_str(v, a))
    if isinstance(v, Cases):
        for g, x in v.cs:
            if bdd.ev(g, a):
                return concretise(x, a, types, depth)
        return '?'
    if isinstance(v, AggV):
        name = None
        names = None
        if types is not None and isinstance(v.ty, int):
            t = types[v.ty]
            if t.get('vs'):
                vv = t['vs'][v.vi] if v.vi < len(t['vs']) else None
                if vv:
                    name = vv['n']
                    names = [f['n'] for f in vv['f']]
        fs = [concretise(f, a, types, depth + 1) for f in v.fs]
        if name is None:
            return (str(v.ty) + '#%d' % v.vi if v.vi else '') + '(%s)' % ', '.join(map(str, fs))
        if not fs:
            return name
        if names and not names[0].isdigit():
            return '%s{%s}' % (name, ', '.join('%s: %s' % t for t in zip(names, fs)))
        return '%s(%s)' % (name, ', '.join(map(str, fs)))
    if isinstance(v, VecV):
        return '[%s]' % ', '.join(str(concretise(f, a, types, depth + 1)) for f in v.es)
    if isinstance(v, FmtV):
        return '"' + ''.join(p if isinstance(p, str) else '{%s}' % concretise(p[1], a, types) for p in v.parts) + '"'
    return '?'
