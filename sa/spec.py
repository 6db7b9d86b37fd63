"""Expected values, and exact comparison of an abstract result with its expectation.

diff() returns (bad, unk): the inputs where the value certainly differs from the expectation, and the inputs
for which the analysis has no answer.  Both are boolean functions of the input bits.
"""
import random
from . import bdd
from .bdd import AND, OR, ITE, NOT
from .vals import *


class Any:
    pass


ANY = Any()


class Num:
    """An integer (any width), a bool or a char."""
    def __init__(self, v):
        self.v = v if isinstance(v, IntV) else ci(v, 72, True)


class Flt:
    """Alternatives [(guard, FloatV)] with disjoint guards covering the cases of interest."""
    def __init__(self, v):
        self.cs = v if isinstance(v, list) else [(1, v)]


class Sum:
    """Alternatives [(guard, variant name, field specs (list by position or dict by name))]."""
    def __init__(self, cs):
        self.cs = [(c[0], c[1], c[2] if len(c) > 2 else []) for c in cs if c[0]]


class Txt:
    """Alternatives [(guard, StrV)]."""
    def __init__(self, cs):
        self.cs = [(1, cs)] if isinstance(cs, StrV) else [(1, cstr(cs))] if isinstance(cs, str) else [c for c in cs if c[0]]


class Lst:
    """Alternatives [(guard, [element specs])]."""
    def __init__(self, cs):
        self.cs = [c for c in cs if c[0]]


class When:
    """UTC date and time (six IntV)."""
    def __init__(self, *p):
        self.p = p


class Rec:
    """A struct: {field: spec}."""
    def __init__(self, fs):
        self.fs = fs


def B(e):
    return Num(boolv(e))


def opt(g, spec):
    return Sum([(g, 'Some', [spec]), (g ^ 1, 'None', [])])


NONE = Sum([(1, 'None', [])])


def some(spec):
    return Sum([(1, 'Some', [spec])])


def enum(cs):
    return Sum([(g, n, []) for g, n in cs])


def alts(v):
    return v.cs if isinstance(v, Cases) else [(1, v)]


def num_eq(a, b):
    """Equality of the mathematical values of two IntV of any width."""
    w = max(a.w + (0 if a.sg else 1), b.w + (0 if b.sg else 1))
    return ieq(IntV(w, None, extend(a, w).bits), IntV(w, None, extend(b, w).bits))


def variant(types, ty, x):
    t = types[ty] if ty is not None else None
    if t is not None and t.get('vs') and x.vi < len(t['vs']):
        return t['vs'][x.vi]
    return None


class Diff:
    def __init__(self, I, seed=1):
        self.I = I
        self.types = I.types
        self.rnd = random.Random(seed)
        self.detail = []
        self.exact_floats = 0
        self.sampled_floats = 0

    # ------------------------------------------------------------------
    def diff(self, v, ty, spec, care):
        if care == 0 or isinstance(spec, Any):
            return 0, 0
        if isinstance(v, TopV) or v is None or isinstance(v, StrTop):
            return 0, care
        if ty is not None:
            t = self.types[ty]
            if t['k'] == 'ref' and isinstance(v, (Ref, Cases)) and not isinstance(v, StrV):
                v = self.deref(v)
                ty = t['e']
            elif t['k'] == 'ref':
                ty = t['e']
        if isinstance(spec, Num):
            return self.num(v, spec, care)
        if isinstance(spec, Flt):
            return self.flt(v, spec, care)
        if isinstance(spec, Sum):
            return self.sum(v, ty, spec, care)
        if isinstance(spec, Txt):
            return self.txt(v, spec, care)
        if isinstance(spec, Lst):
            return self.lst(v, ty, spec, care)
        if isinstance(spec, When):
            return self.when(v, spec, care)
        if isinstance(spec, Rec):
            return self.rec(v, ty, spec, care)
        raise TypeError(spec)

    def deref(self, v):
        if isinstance(v, Ref):
            return self.I.load(self.state, v)
        if isinstance(v, Cases):
            return self.I.mapcases(v, lambda x: self.deref(x))
        return v

    def num(self, v, spec, care):
        bad = unk = 0
        for g, x in alts(v):
            c = AND(care, g)
            if c == 0:
                continue
            if isinstance(x, IntV):
                bad = OR(bad, AND(c, num_eq(x, spec.v) ^ 1))
            else:
                unk = OR(unk, c)
        return bad, unk

    def sum(self, v, ty, spec, care):
        bad = unk = 0
        for g, x in alts(v):
            c = AND(care, g)
            if c == 0:
                continue
            var = variant(self.types, ty, x) if isinstance(x, AggV) else None
            if var is None:
                unk = OR(unk, c)
                continue
            allowed = 0
            for gs, name, fs in spec.cs:
                if name != var['n']:
                    continue
                cc = AND(c, gs)
                allowed = OR(allowed, gs)
                if cc == 0:
                    continue
                names = [f['n'] for f in var['f']]
                items = fs.items() if isinstance(fs, dict) else enumerate(fs)
                for k, sp in items:
                    i = names.index(k) if isinstance(k, str) else k
                    b, u = self.diff(x.fs[i], var['f'][i]['t'], sp, cc)
                    bad, unk = OR(bad, b), OR(unk, u)
            bad = OR(bad, AND(c, allowed ^ 1))
        return bad, unk

    def rec(self, v, ty, spec, care):
        bad = unk = 0
        for g, x in alts(v):
            c = AND(care, g)
            if c == 0:
                continue
            var = variant(self.types, ty, x) if isinstance(x, AggV) else None
            if var is None:
                unk = OR(unk, c)
                continue
            names = [f['n'] for f in var['f']]
            for k, sp in spec.fs.items():
                i = names.index(k)
                b, u = self.diff(x.fs[i], var['f'][i]['t'], sp, c)
                bad, unk = OR(bad, b), OR(unk, u)
        return bad, unk

    def txt(self, v, spec, care):
        bad = unk = 0
        for g, x in alts(v):
            c = AND(care, g)
            if c == 0:
                continue
            if isinstance(x, FmtV):
                from .models_fmt import force
                from .interp import State
                outs = force(self.I, State(c, {}), x)
                for s2, y in outs:
                    b, u = self.txt1(y, spec, AND(c, s2.pc))
                    bad, unk = OR(bad, b), OR(unk, u)
                continue
            b, u = self.txt1(x, spec, c)
            bad, unk = OR(bad, b), OR(unk, u)
        return bad, unk

    def txt1(self, x, spec, c):
        if isinstance(x, Ref):
            x = self.deref(x)
        if isinstance(x, VecV):
            return 0, c
        if not isinstance(x, StrV):
            return 0, c
        bad = unk = 0
        good = 0
        for gs, s in spec.cs:
            if len(s.ch) != len(x.ch):
                continue
            e = AND(c, gs)
            if e == 0:
                continue
            for p, q in zip(x.ch, s.ch):
                if p is q:
                    continue
                e = AND(e, ieq(IntV(32, None, p.bits[:32]), IntV(32, None, q.bits[:32])))
                if e == 0:
                    break
            good = OR(good, e)
        return AND(c, good ^ 1), 0

    def lst(self, v, ty, spec, care):
        bad = unk = 0
        ety = None
        if ty is not None:
            t = self.types[ty]
            ety = t.get('e') if t['k'] in ('slice', 'array') else (t['args'][0] if t.get('args') else None)
        for g, x in alts(v):
            c = AND(care, g)
            if c == 0:
                continue
            if not isinstance(x, VecV):
                unk = OR(unk, c)
                continue
            allowed = 0
            for gs, es in spec.cs:
                if len(es) != len(x.es):
                    continue
                cc = AND(c, gs)
                allowed = OR(allowed, gs)
                if cc == 0:
                    continue
                for y, sp in zip(x.es, es):
                    b, u = self.diff(y, ety, sp, cc)
                    bad, unk = OR(bad, b), OR(unk, u)
            bad = OR(bad, AND(c, allowed ^ 1))
        return bad, unk

    def when(self, v, spec, care):
        bad = unk = 0
        for g, x in alts(v):
            c = AND(care, g)
            if c == 0:
                continue
            if isinstance(x, AggV) and x.ty != 'Dt' and len(x.fs) >= 1 and isinstance(x.fs[0], AggV) and x.fs[0].ty == 'Dt':
                x = x.fs[0]
            if not (isinstance(x, AggV) and x.ty == 'Dt'):
                unk = OR(unk, c)
                continue
            for y, z in zip(x.fs, spec.p):
                if z is None:
                    continue
                b, u = self.num(y, Num(z), c)
                bad, unk = OR(bad, b), OR(unk, u)
        return bad, unk

    # ------------------------------------------------------------------
    def flt(self, v, spec, care):
        bad = unk = 0
        for g, x in alts(v):
            c = AND(care, g)
            if c == 0:
                continue
            rest = c
            for gs, y in spec.cs:
                cc = AND(c, gs)
                if cc == 0:
                    continue
                rest = AND(rest, gs ^ 1)
                if not isinstance(x, FloatV):
                    unk = OR(unk, cc)
                    continue
                b, u = self.flt1(x, y, cc)
                bad, unk = OR(bad, b), OR(unk, u)
        return bad, unk

    def flt1(self, x, y, c):
        if x.w == y.w and x.key() == y.key():
            self.exact_floats += 1
            return 0, 0
        if x.w == y.w:
            a, b = bool_form(x, c), bool_form(y, c)
            if a is not None and b is not None:
                if same_form(a, b):
                    self.exact_floats += 1
                    return 0, 0
        sup = set(float_support(x)) | set(float_support(y))
        if len(sup) <= 12 and all(not at_has_unknown(t) for t in (x, y)):
            sup = sorted(sup)
            bad = unk = 0
            for m in range(1 << len(sup)):
                a = {s: (m >> i) & 1 for i, s in enumerate(sup)}
                cube = 1
                for s in reversed(sup):
                    cube = AND(cube, bdd.mk(s, 0, 1) if a[s] else bdd.mk(s, 1, 0))
                cc = AND(cube, c)
                if cc == 0:
                    continue
                p, q = ev_float(x, a), ev_float(y, a)
                if p is None or q is None:
                    unk = OR(unk, cc)
                elif not close(p, q):
                    bad = OR(bad, cc)
            self.exact_floats += 1
            return bad, unk
        if at_has_unknown(x):
            return 0, c
        # witnesses: constant folding of the two terms at chosen inputs
        n = 0
        for a in self.witnesses(c, sorted(sup)):
            p, q = ev_float(x, a), ev_float(y, a)
            if p is None or q is None:
                continue
            n += 1
            if not close(p, q):
                cube = 1
                for s in sorted(sup, reverse=True):
                    cube = AND(cube, bdd.mk(s, 0, 1) if a.get(s, 0) else bdd.mk(s, 1, 0))
                b = AND(cube, c)
                if b:
                    return b, 0
        self.sampled_floats += 1
        return 0, c

    def witnesses(self, c, sup, n=64):
        out = []
        for s in sup[:80]:
            for lit in (bdd.mk(s, 0, 1), bdd.mk(s, 1, 0)):
                d = AND(c, lit)
                if d:
                    out.append(bdd.pick(d, self.rnd))
                    out.append(bdd.pick(d, None))
        for _ in range(n):
            out.append(bdd.pick(c, self.rnd))
        for a in out:
            for s in sup:
                if s not in a:
                    pass
            yield a


def close(p, q):
    if p != p or q != q:
        return p != p and q != q
    if p == q:
        return True
    return abs(p - q) <= 1e-9 * max(1.0, abs(p), abs(q))


def at_has_unknown(f):
    st = list(a for a, c in f.ts)
    while st:
        a = st.pop()
        if a.kind == 'op' and a.args and a.args[0] == 'unk':
            return True
        for x in a.args:
            if isinstance(x, FloatV):
                st.extend(t for t, c in x.ts)
    return False


def float_support(f):
    out = set()
    st = list(a for a, c in f.ts)
    while st:
        a = st.pop()
        for x in a.args:
            if isinstance(x, FloatV):
                st.extend(t for t, c in x.ts)
            elif isinstance(x, IntV):
                if x.c is None:
                    for b in x.b:
                        out |= bdd.support(b)
            elif isinstance(x, StrV):
                for c in x.ch:
                    if c.c is None:
                        for b in c.b:
                            out |= bdd.support(b)
            elif type(x) is int and a.kind == 'ite':
                out |= bdd.support(x)
    return out


def bool_form(f, care):
    """(const, {edge: coef}) when the term is linear over boolean functions."""
    k = f.k
    d = {}

    def put(e, c):
        nonlocal k
        if c == 0:
            return
        if e > 1:
            # what the bit is on the inputs of interest
            p, q = AND(e, care), AND(e ^ 1, care)
            if p == 0:
                e = 0
            elif q == 0:
                e = 1
            elif q < p:
                k += c
                c = -c
                e = q
            else:
                e = p
        if e == 0:
            return
        if e == 1:
            k += c
            return
        d[e] = d.get(e, 0) + c
    for at, c in f.ts:
        if at.kind == 'int':
            # exactly, so that sign-extended fields cancel
            v = at.args[0]
            k0, d0, k, d = k, d, 0, {}
            for i, b in enumerate(v.bits):
                put(b, -(1 << i) if v.sg and i == v.w - 1 else 1 << i)
            k1, d1, k, d = k, d, k0, d0
            k += c * k1
            for e, n in d1.items():
                if n:
                    d[e] = d.get(e, 0.0) + c * n
        elif at.kind == 'pf':
            s = at.args[0]
            if not isinstance(s, StrV) or (len(at.args) > 1 and at.args[1] == 32):
                return None
            dot = None
            for i, x in enumerate(s.ch):
                if x.c == 46:
                    if dot is not None:
                        return None
                    dot = i
            n = len(s.ch) if dot is None else dot
            for i, x in enumerate(s.ch):
                if i == dot:
                    continue
                p = n - 1 - i if i < n else n - i
                dg = digit_bits(x, care)
                if dg is None:
                    return None
                for j, b in enumerate(dg):
                    put(b, c * (1 << j) * 10.0 ** p)
        else:
            return None
    return k, d


def digit_bits(x, care):
    if x.c is not None:
        if 48 <= x.c <= 57:
            return [(x.c - 48 >> j) & 1 for j in range(4)]
        return None
    isd = AND(ilt(x, ch(48)) ^ 1, ilt(x, ch(58)))
    if AND(care, isd ^ 1):
        return None
    return list(x.bits[:4])


def same_form(a, b):
    if not close(a[0], b[0]):
        return False
    for e in set(a[1]) | set(b[1]):
        p, q = a[1].get(e, 0.0), b[1].get(e, 0.0)
        if p != q and abs(p - q) > 1e-11 * max(abs(p), abs(q)):
            return False
    return True
