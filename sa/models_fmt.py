"""Formatting: fmt::Arguments templates, display of numbers and strings."""
from .models import *
from .models import m, Unknown
from . import models as M

SIGN_PLUS, ALT, ZERO = 1 << 21, 1 << 23, 1 << 24
DLX, DUX = 1 << 25, 1 << 26


def str_of(I, st, v, ty):
    """Display/Debug argument normalised to StrV/IntV/FloatV/other."""
    t = I.types[ty] if ty is not None else None
    while t is not None and t['k'] in ('ref', 'ptr'):
        t = I.types[t['e']]
    v = M.deref(I, st, v)
    if t is not None and t['k'] == 'char' and isinstance(v, IntV):
        bl = char_len(I, st, v)
        if bl is None:
            return StrTop('char of unknown width')
        return StrV((v,), None if bl == 1 else (bl,))
    if t is not None and t['k'] == 'bool' and isinstance(v, IntV):
        return ite(v.bits[0], cstr('true'), cstr('false'))
    return v


def char_len(I, st, v):
    """UTF-8 length of a character when it is the same for all its values, else None."""
    if v.c is not None:
        return 1 if v.c < 0x80 else 2 if v.c < 0x800 else 3 if v.c < 0x10000 else 4
    if all(x == 0 for x in v.b[7:]):
        return 1
    lo, hi = irange(v, st.pc)
    a = 1 if lo < 0x80 else 2 if lo < 0x800 else 3 if lo < 0x10000 else 4
    b = 1 if hi < 0x80 else 2 if hi < 0x800 else 3 if hi < 0x10000 else 4
    return a if a == b else None


@m('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_binary',
   'Argument::new_lower_exp', 'Argument::new_octal')
def _arg(I, st, a, c):
    n = c.c['name']
    ty = c.targs[0] if c.targs else None
    v = str_of(I, st, a[0], ty)
    return AggV('fmtarg', 0, (AggV('spec:' + n, 0, ()), v))


@m('Argument::from_usize')
def _argu(I, st, a, c):
    return AggV('fmtarg', 0, (AggV('spec:usize', 0, ()), M.deref(I, st, a[0])))


@m('Arguments::from_str', 'Arguments::from_str_nonconst')
def _afs(I, st, a, c):
    v = a[0]
    if isinstance(v, StrV) and v.const() is not None:
        return FmtV((v.const(),))
    return FmtV((('d', v),))


@m('Arguments::new_const')
def _anc(I, st, a, c):
    v = M.deref(I, st, a[0])
    if isinstance(v, VecV):
        return FmtV(tuple(x.const() for x in v.es if isinstance(x, StrV)))
    raise Unknown()


@m('Arguments::new')
def _an(I, st, a, c):
    t = M.deref(I, st, a[0])
    args = M.deref(I, st, a[1])
    if not isinstance(t, VecV):
        raise Unknown()
    if not isinstance(args, VecV):
        raise Unknown()
    b = bytes(x.c for x in t.es)
    parts = []
    i = 0
    ai = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            parts.append(b[i:i + n].decode('utf8', 'replace'))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            parts.append(b[i:i + ln].decode('utf8', 'replace'))
            i += ln
        else:
            flags = 0x20 | 0
            width = prec = None
            zero = dlx = dux = alt = plus = False
            fl = None
            if n & 1:
                fl = int.from_bytes(b[i:i + 4], 'little')
                i += 4
                zero, dlx, dux, alt, plus = bool(fl & ZERO), bool(fl & DLX), bool(fl & DUX), bool(fl & ALT), bool(fl & SIGN_PLUS)
            if n & 2:
                width = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if n & 4:
                prec = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if n & 8:
                ai = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            wsym = None
            if n & 16 and width is not None:
                x = args.es[width].fs[1]
                width = x.c if isinstance(x, IntV) and x.c is not None else -1
            if n & 32 and prec is not None:
                x = args.es[prec].fs[1]
                prec = x.c if isinstance(x, IntV) and x.c is not None else -1
            x = args.es[ai]
            ai += 1
            kind = x.fs[0].ty[len('spec:new_'):]
            v = x.fs[1]
            dbg = kind == 'debug'
            mode = {'display': 'd', 'debug': 'd', 'lower_hex': 'x', 'upper_hex': 'X', 'binary': 'b', 'octal': 'o'}.get(kind, '?')
            if dbg and dlx:
                mode = 'x'
            if dbg and dux:
                mode = 'X'
            isstr = isinstance(v, (StrV, StrTop, FmtV)) or (isinstance(v, Cases) and not isinstance(v.cs[0][1], IntV))
            if isstr and dbg:
                mode = 'q'
            elif dbg and mode == 'd' and isinstance(v, (AggV, Cases)):
                mode = 'D'
            align = (fl >> 29) & 3 if fl is not None else 3
            fill = chr(fl & 0x1fffff) if fl is not None and (fl & 0x1fffff) else ' '
            if fl is None or (width is None and prec is None and not plus and not alt):
                spec = mode
            else:
                spec = (mode, width, prec, zero, plus, alt, align, fill)
            parts.append((spec, v))
    # join adjacent literals and inline nested arguments
    out = []
    for p in parts:
        if not isinstance(p, str) and p[0] in ('d',) and isinstance(p[1], FmtV):
            out.extend(p[1].parts)
        else:
            out.append(p)
    res = []
    for p in out:
        if isinstance(p, str) and res and isinstance(res[-1], str):
            res[-1] += p
        else:
            res.append(p)
    return FmtV(tuple(res))


def force(I, st, f):
    """[(state, StrV or StrTop)] of a formatted string."""
    outs = [(st, [])]
    for p in f.parts:
        if isinstance(p, str):
            s0 = cstr(p)
            for o in outs:
                o[1].append(s0)
            continue
        nxt = []
        for s, acc in outs:
            for s2, x in force1(I, s, p[0], p[1]):
                nxt.append((s2, acc + [x]))
        outs = nxt
        if len(outs) > 300:
            return [(st, StrTop('format'))]
    res = []
    for s, acc in outs:
        if all(isinstance(x, StrV) for x in acc):
            res.append((s, strcat(acc)))
        else:
            res.append((s, StrTop('format')))
    return res


def force1(I, st, spec, v):
    out = []
    for s, x in M.split(I, st, v):
        if isinstance(x, AggV) and isinstance(x.ty, int) and spec in ('d', 'D'):
            r = local_display(I, s, x, 'Display' if spec == 'd' else 'Debug')
            if r is not None:
                out.extend(r)
                continue
        mode = spec if isinstance(spec, str) else spec[0]
        if isinstance(spec, str):
            width = prec = None
            zero = plus = alt = False
            align, fill = 3, ' '
        else:
            _, width, prec, zero, plus, alt, align, fill = spec
        if isinstance(x, StrV) and mode in 'd':
            if prec is not None:
                x = StrV(x.ch[:prec], x.bl[:prec] if x.bl else None)
            if width is not None and width > len(x.ch):
                pad = cstr(fill * (width - len(x.ch)))
                x = strcat([pad, x]) if align == 1 else strcat([x, pad])
            out.append((s, x))
        elif isinstance(x, IntV) and mode in 'dxXb' and prec is None and not alt:
            x = simp(x, s.pc)
            if x.c is None and mode == 'd':
                for s2, digs in int_digits(I, s, x):
                    out.append((s2, padint(digs, width, zero, plus, align, fill) if isinstance(digs, StrV) else digs))
            elif x.c is None:
                for s2, digs in radix_digits(I, s, x, mode):
                    out.append((s2, padint(digs, width, zero, plus, align, fill)))
            else:
                val = x.sval() if mode == 'd' else x.c
                sg = ''
                if val < 0:
                    sg = '-'
                    val = -val
                elif plus:
                    sg = '+'
                t = {'d': '%d', 'x': '%x', 'X': '%X'}[mode] % val if mode != 'b' else bin(val)[2:]
                w = width or 0
                if zero:
                    t = sg + t.rjust(w - len(sg), '0')
                else:
                    t = sg + t
                    t = t.ljust(w, fill) if align == 0 else t.rjust(w, fill)
                out.append((s, cstr(t)))
        else:
            out.append((s, StrTop('format')))
    return out


def fmt_impl(w, trait, ty):
    """Body of the implementation of Display or Debug for a local type."""
    c = getattr(w, 'fmt_impls', None)
    if c is None:
        c = w.fmt_impls = {}
        for b in w.j['bodies']:
            if b['local'] and b['name'] == 'fmt' and b['argc'] == 2:
                t = w.types[b['locals'][1]]
                if t['k'] == 'ref':
                    c[((b.get('impl_trait') or '').split('::')[-1], t['e'])] = b['id']
    return c.get((trait, ty))


def new_sink(I, st):
    return I.alloc(st, AggV('fmtsink', 0, (StrV(()),)))


def sink_text(I, st, ref):
    """[(state, text)] written to a sink."""
    out = []
    for s, r, v in M.sfield(I, st, ref):
        for s2, t in M.split(I, s, v.fs[0]):
            out.append((s2, t))
    return out


def local_display(I, st, x, trait='Display'):
    b = fmt_impl(I.w, trait, x.ty)
    if b is None:
        return None
    v, f = I.alloc(st, x), new_sink(I, st)
    r = I.call_body(st, b, [v, f])
    if r is None:
        return None
    return sink_text(I, r[0], f)


def padint(x, width, zero, plus, align, fill):
    if width is not None and len(x.ch) < width:
        pad = cstr(('0' if zero else fill) * (width - len(x.ch)))
        return strcat([pad, x]) if (zero or align != 0) else strcat([x, pad])
    return x


HEXU, HEXL = '0123456789ABCDEF', '0123456789abcdef'


def radix_digits(I, st, x, mode):
    """Hexadecimal digits of a symbolic integer, one alternative per length."""
    out = []
    n = max(1, (eff_bits(x) + 3) // 4)
    if mode == 'b':
        raise Unknown()
    tab = HEXU if mode == 'X' else HEXL
    bits = x.bits + (0,) * 4
    digs = []
    for i in range(n):
        nb = bits[4 * i:4 * i + 4]
        digs.append(table_char(nb, tab))
    pc = st.pc
    for ln in range(n, 0, -1):
        # top digit non-zero (or single digit)
        if ln == 1:
            g = 1
        else:
            nb = bits[4 * (ln - 1):4 * ln]
            g = OR(OR(nb[0], nb[1]), OR(nb[2], nb[3]))
        p = AND(pc, g)
        if p:
            out.append((st.with_pc(p), StrV(tuple(reversed(digs[:ln])))))
        pc = AND(pc, g ^ 1)
    return out


def table_char(bits, tab):
    """Character selected from a table by index bits (least significant first)."""
    r = [0] * 32
    n = len(tab)
    for i, c in enumerate(tab):
        g = 1
        for j, b in enumerate(bits):
            g = AND(g, b if (i >> j) & 1 else b ^ 1)
        if g == 0:
            continue
        o = ord(c)
        for k in range(21):
            if (o >> k) & 1:
                r[k] = OR(r[k], g)
    return IntV(32, None, tuple(r))


def int_digits(I, st, x):
    """Decimal digits of a symbolic integer."""
    out = []
    if x.sg and x.bits[-1] != 0:
        neg = x.bits[-1]
        p = AND(st.pc, neg)
        if p:
            s = st.with_pc(p)
            mag = ineg(x)
            mag = IntV(mag.w, mag.c, mag.b, False)
            for s2, d in int_digits(I, s, simp(mag, s.pc)):
                out.append((s2, strcat([cstr('-'), d]) if isinstance(d, StrV) else d))
        p = AND(st.pc, neg ^ 1)
        if not p:
            return out
        st = st.with_pc(p)
        x = simp(x, p)
    lo, hi = irange(x, st.pc)
    x = IntV(x.w, x.c, x.b, False)
    if hi.bit_length() > 20:
        # leading digits may still be constant
        return out + [(st, StrTop('digits of a wide number'))]
    nd = len(str(hi))
    digs = []
    v = simp(x, st.pc)
    if v.c is None:
        # strip bits above the range
        v = IntV(v.w, None, v.b[:hi.bit_length()] + (0,) * (v.w - hi.bit_length()), False)
    for i in range(nd):
        if v.c is not None:
            q, r = IntV(v.w, v.c // 10), IntV(v.w, v.c % 10)
        else:
            q, r = udivmod(v, IntV(v.w, 10))
        code = iadd(extend(r, 32), IntV(32, 48))
        digs.append(code)
        v = simp(q, st.pc)
    pc = st.pc
    ten = 1
    for ln in range(1, nd + 1):
        ten *= 10
        g = ilt(x, IntV(x.w, ten & MASKS[x.w])) if ten <= MASKS[x.w] else 1
        p = AND(pc, g)
        if p:
            s = st.with_pc(p)
            out.append((s, StrV(tuple(simp(d, p) for d in reversed(digs[:ln])))))
        pc = AND(pc, g ^ 1)
    return out


@m('fmt::format', 'string::format')
def _format(I, st, a, c):
    v = a[0]
    if isinstance(v, FmtV):
        # force now when that is a single shape of strings
        if all(isinstance(p, str) or (p[0] == 'd' and (isinstance(p[1], StrV) or (isinstance(p[1], IntV) and p[1].c is not None))) for p in v.parts):
            return force(I, st, v)
        return v
    raise Unknown()


@m('ToString::to_string', spec='r')
def _to_string(I, st, a, c):
    ty = c.targs[0] if c.targs else None
    v = str_of(I, st, a[0], ty)
    if isinstance(v, (StrV, FmtV, StrTop)):
        return v
    if isinstance(v, Cases) and all(isinstance(x, (StrV, FmtV, StrTop)) for g, x in v.cs):
        return v
    return FmtV((('d', v),))


@m('Write::write_fmt', 'Write::write_str', 'Write::write_char', spec='mv')
def _write_fmt(I, st, a, c):
    out = []
    for s, r, v in M.sfield(I, st, a[0]):
        x = a[1]
        if isinstance(v, StrV) and isinstance(x, IntV):
            bl = char_len(I, s, x)
            if bl is None:
                raise Unknown()
            x = StrV((x,), None if bl == 1 else (bl,))
        if not isinstance(v, StrV):
            raise Unknown()
        I.store(s, r, strcat([v, x]) if isinstance(x, StrV) else StrTop('write'))
        out.append((s, AggV(c.dty, 0, (UNIT,))))
    return out


@m('Formatter::debug_tuple_field1_finish', 'Formatter::debug_struct_fields_finish')
def _fw(I, st, a, c):
    poison(I, st, a[0])
    return AggV(c.dty, 0, (UNIT,))


def poison(I, st, ref):
    for s, r, v in M.sfield(I, st, ref):
        if isinstance(v, AggV) and v.ty == 'fmtsink':
            I.store(st, r, AggV('fmtsink', 0, (StrTop('formatter'),)))


@m('Formatter::write_fmt', 'Formatter::write_str', 'Formatter::write_char', 'Formatter::pad', 'Formatter::debug_c_like_enum_write_str',
   'str::Display::fmt', 'Display::fmt')
def _fwr(I, st, a, c):
    if c.c['name'] == 'fmt':
        ref, x = a[1], str_of(I, st, a[0], None)
        if not isinstance(x, StrV):
            raise Unknown()
    else:
        ref, x = a[0], a[1]
    out = []
    for s, r, v in M.sfield(I, st, ref):
        if not (isinstance(v, AggV) and v.ty == 'fmtsink'):
            raise Unknown()
        for s2, y in M.split(I, s, x):
            if isinstance(y, FmtV):
                ys = force(I, s2, y)
            elif isinstance(y, IntV):
                bl = char_len(I, s2, y)
                ys = [(s2, StrTop('char of unknown width') if bl is None else StrV((y,), None if bl == 1 else (bl,)))]
            else:
                ys = [(s2, y)]
            for s3, z in ys:
                for s4, old in M.split(I, s3, v.fs[0]):
                    t = strcat([old, z]) if isinstance(old, StrV) and isinstance(z, StrV) else StrTop('formatter')
                    I.store(s4, r, AggV('fmtsink', 0, (t,)))
                    out.append((s4, AggV(c.dty, 0, (UNIT,))))
    return out


@m('__private_api::log', '__private_api::loc', '__private_api::log_impl', 'log::logger', '__private_api::enabled')
def _log(I, st, a, c):
    return UNIT


@m('log::max_level', 'log::STATIC_MAX_LEVEL')
def _maxl(I, st, a, c):
    return AggV('LevelFilter', 5, ())


M.force = force
M.char_len = char_len
