"""Reduced ordered binary decision diagrams with complement edges.

An edge is an int: (node << 1) | complement.  Edge 0 is FALSE, edge 1 is TRUE.
The abstract values of the analysis are vectors of these functions of the input bits.
"""
import sys
sys.setrecursionlimit(200000)

FALSE, TRUE = 0, 1
INF = 1 << 60


class Blowup(Exception):
    pass


class Mgr:
    pass


V = [INF]        # variable of node
LO = [0]
HI = [0]
UNIQ = {}
_and = {}
_xor = {}
_ite = {}
VARINFO = []     # per variable: (name, weak)
NODE_LIMIT = 6_000_000


def reset():
    del V[1:], LO[1:], HI[1:]
    UNIQ.clear()
    _and.clear()
    _xor.clear()
    _ite.clear()
    _supp.clear()
    VARINFO.clear()
    COUNT.clear()


FIXED = None     # {(name, occurrence): bit} of input variables to be given a value (a cell of the input space)
COUNT = {}


TWINS = None     # [mode, variables]: 'make': every input variable gets a twin next to it; 'use': the twins are handed out


class twins:
    def __init__(self, mode, store):
        self.t = (mode, store)

    def __enter__(self):
        global TWINS
        self.old = TWINS
        TWINS = self.t

    def __exit__(self, *a):
        global TWINS
        TWINS = self.old


def new_var(name, weak=False):
    if not weak:
        if TWINS is not None and not name.startswith('now.'):
            mode, store = TWINS
            if mode == 'use' and store and store[0][0] == name:
                return store.pop(0)[1]
            if mode == 'make':
                with twins(None, None):
                    v = new_var(name)
                    store.append((name, new_var(name + "'")))
                return v
        k = COUNT[name] = COUNT.get(name, 0) + 1
        if FIXED is not None:
            b = FIXED((name, k))
            if b is not None:
                return b
        VARINFO.append((name, weak, k))
    else:
        VARINFO.append((name, weak))
    return mk(len(VARINFO) - 1, 0, 1)


def mk(v, lo, hi):
    if lo == hi:
        return lo
    c = lo & 1
    if c:
        lo ^= 1
        hi ^= 1
    k = (v, lo, hi)
    n = UNIQ.get(k)
    if n is None:
        n = len(V)
        if n > NODE_LIMIT:
            raise Blowup()
        V.append(v)
        LO.append(lo)
        HI.append(hi)
        UNIQ[k] = n
    return (n << 1) | c


def AND(a, b):
    if a <= 1:
        return b if a else 0
    if b <= 1:
        return a if b else 0
    if a == b:
        return a
    if a ^ b == 1:
        return 0
    if a > b:
        a, b = b, a
    k = (a, b)
    r = _and.get(k)
    if r is not None:
        return r
    na, nb = a >> 1, b >> 1
    va, vb = V[na], V[nb]
    if va <= vb:
        v = va
        c = a & 1
        a0, a1 = LO[na] ^ c, HI[na] ^ c
    else:
        v = vb
        a0 = a1 = a
    if vb <= va:
        c = b & 1
        b0, b1 = LO[nb] ^ c, HI[nb] ^ c
    else:
        b0 = b1 = b
    lo = AND(a0, b0)
    hi = AND(a1, b1)
    r = lo if lo == hi else mk(v, lo, hi)
    _and[k] = r
    return r


def OR(a, b):
    return AND(a ^ 1, b ^ 1) ^ 1


def NOT(a):
    return a ^ 1


def XOR(a, b):
    if a <= 1:
        return b ^ a
    if b <= 1:
        return a ^ b
    if a == b:
        return 0
    if a ^ b == 1:
        return 1
    c = (a ^ b) & 1
    a &= -2
    b &= -2
    if a > b:
        a, b = b, a
    k = (a, b)
    r = _xor.get(k)
    if r is not None:
        return r ^ c
    na, nb = a >> 1, b >> 1
    va, vb = V[na], V[nb]
    if va <= vb:
        v = va
        a0, a1 = LO[na], HI[na]
    else:
        v = vb
        a0 = a1 = a
    if vb <= va:
        b0, b1 = LO[nb], HI[nb]
    else:
        b0 = b1 = b
    r = mk(v, XOR(a0, b0), XOR(a1, b1))
    _xor[k] = r
    return r ^ c


def ITE(f, g, h):
    if f <= 1:
        return g if f else h
    if g == h:
        return g
    if g <= 1:
        return OR(f, h) if g else AND(f ^ 1, h)
    if h <= 1:
        return OR(f ^ 1, g) if h else AND(f, g)
    if g ^ h == 1:
        return XOR(f, h)
    if f == g:
        return OR(f, h)
    if f == h:
        return AND(f, g)
    if f & 1:
        f ^= 1
        g, h = h, g
    k = (f, g, h)
    r = _ite.get(k)
    if r is not None:
        return r
    nf, ng, nh = f >> 1, g >> 1, h >> 1
    v = min(V[nf], V[ng], V[nh])
    if V[nf] == v:
        f0, f1 = LO[nf], HI[nf]
    else:
        f0 = f1 = f
    if V[ng] == v:
        c = g & 1
        g0, g1 = LO[ng] ^ c, HI[ng] ^ c
    else:
        g0 = g1 = g
    if V[nh] == v:
        c = h & 1
        h0, h1 = LO[nh] ^ c, HI[nh] ^ c
    else:
        h0 = h1 = h
    r = mk(v, ITE(f0, g0, h0), ITE(f1, g1, h1))
    _ite[k] = r
    return r


def implies(a, b):
    return AND(a, b ^ 1) == 0


def restrict(f, care, memo=None):
    """A function equal to f on `care`, hopefully smaller (sibling substitution)."""
    if care == 1 or f <= 1:
        return f
    if care == 0:
        return 0
    if f == care:
        return 1
    if f ^ care == 1:
        return 0
    if memo is None:
        memo = {}
    k = (f, care)
    r = memo.get(k)
    if r is not None:
        return r
    nf, nc = f >> 1, care >> 1
    vf, vc = V[nf], V[nc]
    cc = care & 1
    if vc < vf:
        c0, c1 = LO[nc] ^ cc, HI[nc] ^ cc
        r = restrict(f, OR(c0, c1), memo)
    else:
        cf = f & 1
        f0, f1 = LO[nf] ^ cf, HI[nf] ^ cf
        if vc == vf:
            c0, c1 = LO[nc] ^ cc, HI[nc] ^ cc
        else:
            c0 = c1 = care
        if c0 == 0:
            r = restrict(f1, c1, memo)
        elif c1 == 0:
            r = restrict(f0, c0, memo)
        else:
            r = mk(vf, restrict(f0, c0, memo), restrict(f1, c1, memo))
    memo[k] = r
    return r


_supp = {}


def support(e):
    n = e >> 1
    if n == 0:
        return frozenset()
    seen = set()
    out = set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen or x == 0:
            continue
        seen.add(x)
        out.add(V[x])
        st.append(LO[x] >> 1)
        st.append(HI[x] >> 1)
    return frozenset(out)


def weak_support(e):
    return [v for v in support(e) if VARINFO[v][1]]


def size(e):
    seen = set()
    st = [e >> 1]
    while st:
        x = st.pop()
        if x in seen or x == 0:
            continue
        seen.add(x)
        st.append(LO[x] >> 1)
        st.append(HI[x] >> 1)
    return len(seen)


def pick(e, rnd=None):
    """A satisfying assignment {var: 0/1} of e (partial), or None."""
    if e == 0:
        return None
    a = {}
    while e != 1:
        n, c = e >> 1, e & 1
        lo, hi = LO[n] ^ c, HI[n] ^ c
        if lo == 0:
            b = 1
        elif hi == 0:
            b = 0
        else:
            b = rnd.getrandbits(1) if rnd else 0
        a[V[n]] = b
        e = hi if b else lo
    return a


def ev(e, a):
    while e > 1:
        n = e >> 1
        c = e & 1
        e = (HI[n] if a.get(V[n], 0) else LO[n]) ^ c
    return e


def exists(e, vs, memo=None):
    if memo is None:
        memo = {}
    if e <= 1:
        return e
    r = memo.get(e)
    if r is not None:
        return r
    n, c = e >> 1, e & 1
    lo, hi = exists(LO[n] ^ c, vs, memo), exists(HI[n] ^ c, vs, memo)
    r = OR(lo, hi) if V[n] in vs else mk(V[n], lo, hi)
    memo[e] = r
    return r


def cofactor(e, var, val, memo=None):
    if memo is None:
        memo = {}
    if e <= 1:
        return e
    n, c = e >> 1, e & 1
    if V[n] > var:
        return e
    if V[n] == var:
        return (HI[n] if val else LO[n]) ^ c
    r = memo.get(e)
    if r is None:
        r = mk(V[n], cofactor(LO[n] ^ c, var, val, memo), cofactor(HI[n] ^ c, var, val, memo))
        memo[e] = r
    return r
