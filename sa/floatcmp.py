"""Comparisons of float terms which are linear in decimal digits and integer bits."""
from fractions import Fraction
from . import bdd
from .bdd import AND, OR
from .vals import *


def is_char(x, lo, hi):
    if x.c is not None:
        return 1 if lo <= x.c <= hi else 0
    return AND(ilt(x, IntV(32, lo)) ^ 1, ilt(x, IntV(32, hi + 1)))


def shapes(s, care):
    """[(guard, negative, [(weight, bits)])] of the plain decimal numbers s can be."""
    n = len(s.ch)
    dg = [is_char(x, 48, 57) for x in s.ch]
    out = []
    for sign in (None, 45, 43):
        off = 0 if sign is None else 1
        if off > n:
            continue
        g0 = care if sign is None else AND(care, is_char(s.ch[0], sign, sign))
        if g0 == 0:
            continue
        for dot in [None] + list(range(off, n)):
            g = g0
            if dot is not None:
                g = AND(g, is_char(s.ch[dot], 46, 46))
            nd = 0
            for i in range(off, n):
                if i == dot:
                    continue
                nd += 1
                g = AND(g, dg[i])
                if g == 0:
                    break
            if g == 0 or nd == 0:
                continue
            e = n if dot is None else dot
            ws = []
            for i in range(off, n):
                if i == dot:
                    continue
                p = e - 1 - i if i < e else e - i
                x = s.ch[i]
                ws.append((Fraction(10) ** p, [x.c >> j & 1 for j in range(4)] if x.c is not None else list(x.bits[:4])))
            out.append((g, sign == 45, ws, nd))
            if len(out) > 40:
                return None
    return out


def cases(f, care):
    """[(guard, const, {edge: weight}, exact)] covering part of `care`; None when the term is no linear one."""
    single = len(f.ts) == 1 and abs(f.ts[0][1]) == 1.0
    try:
        k = Fraction(repr(f.k)) if single else Fraction(f.k)
    except (ValueError, OverflowError):
        return None
    integral = f.k == int(f.k) and all(t.kind == 'int' and c == int(c) for t, c in f.ts)
    acc = [(care, k, {}, integral or single)]

    def put(d, e, c):
        if e == 0 or c == 0:
            return 0
        if e == 1:
            return c
        d[e] = d.get(e, 0) + c
        return 0
    for at, c in f.ts:
        c = Fraction(c)
        if at.kind == 'int':
            v = at.args[0]
            nx = []
            for g, k, d, ex in acc:
                d = dict(d)
                for i, b in enumerate(v.bits):
                    w = 1 << i
                    if v.sg and i == v.w - 1:
                        w = -w
                    k += put(d, b, c * w)
                nx.append((g, k, d, ex and v.w <= 53))
            acc = nx
        elif at.kind == 'pf' and isinstance(at.args[0], StrV) and not (len(at.args) > 1 and at.args[1] == 32):
            nx = []
            for g, k, d, ex in acc:
                sh = shapes(at.args[0], g)
                if sh is None:
                    return None
                for g2, neg, ws, nd in sh:
                    d2, k2 = dict(d), k
                    for w, bits in ws:
                        for j, b in enumerate(bits):
                            k2 += put(d2, b, (-c if neg else c) * w * (1 << j))
                    nx.append((g2, k2, d2, ex and nd <= 15))
                if len(nx) > 200:
                    return None
            acc = nx
        else:
            return None
    return acc


class Big(Exception):
    pass


def below(k, d, t, limit=20000):
    """Inputs on which k + sum of d is less than t."""
    ws = []
    for e, c in d.items():
        if c < 0:
            k += c
            ws.append((-c, e ^ 1))
        elif c > 0:
            ws.append((c, e))
    ws.sort(key=lambda x: (-x[0], x[1]))
    rest = [Fraction(0)] * (len(ws) + 1)
    for i in range(len(ws) - 1, -1, -1):
        rest[i] = rest[i + 1] + ws[i][0]
    memo = {}

    def rec(i, r):
        # sum of the remaining < r
        if r <= 0:
            return 0
        if rest[i] < r:
            return 1
        key = (i, r)
        x = memo.get(key)
        if x is None:
            if len(memo) > limit:
                raise Big()
            w, e = ws[i]
            hi, lo = rec(i + 1, r - w), rec(i + 1, r)
            x = memo[key] = lo if hi == lo else OR(AND(e, hi), AND(e ^ 1, lo))
        return x
    return rec(0, t - k)


def compare(op, f, care):
    """(result, undecided) of f < 0, f <= 0 or f == 0 on `care`."""
    cs = cases(f, care)
    if cs is None:
        return 0, care
    res = 0
    left = care
    unk = 0
    try:
        for g, k, d, exact in cs:
            left = AND(left, g ^ 1)
            if exact:
                lt = below(k, d, Fraction(0))
                if op == 'Lt':
                    r = lt
                else:
                    gt = below(-k, {e: -c for e, c in d.items()}, Fraction(0))
                    r = gt ^ 1 if op == 'Le' else AND(gt ^ 1, lt ^ 1)
                res = OR(res, AND(g, r))
            else:
                eps = Fraction(1, 10 ** 11) * max([1, abs(k)] + [abs(c) for c in d.values()])
                lt = below(k, d, -eps)
                near = AND(below(k, d, eps), lt ^ 1)
                if op != 'Eq':
                    res = OR(res, AND(g, lt))
                unk = OR(unk, AND(g, near))
    except Big:
        return 0, care
    return res, OR(unk, left)
