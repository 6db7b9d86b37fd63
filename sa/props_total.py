"""No panic and bounded work (P01, P02)."""
from .harness import *
from .ais_spec import *
from . import props_ais as A
from . import props_gnss as G
from . import props_state as S
from . import props_struct as X
from .interp import Limit

TYPICAL = {
    'GGA': ['123519', '4807.038', 'N', '01131.000', 'E', '1', '08', '0.9', '545.4', 'M', '46.9', 'M', '1.5', '0100'],
    'RMC': ['225446', 'A', '4916.45', 'N', '12311.12', 'W', '000.5', '054.7', '191194', '020.3', 'E', 'A'],
    'GSA': ['A', '3', '19', '28', '14', '18', '27', '22', '31', '39', '', '', '', '', '1.7', '1.0', '1.3'],
    'GSV': ['1', '1', '02', '07', '11', '222', '33', '12', '5', '001', '40'],
    'VTG': ['360.0', 'T', '348.7', 'M', '000.0', 'N', '000.0', 'K', 'A'],
    'GLL': ['4916.45', 'N', '12311.12', 'W', '225444', 'A', 'A'],
    'VDM': ['1', '1', '3', 'A', '13aEOK?P00PD2wVMdLDRhgvL289?', '0'],
    'VDM2': ['2', '1', '3', 'A', '13aEOK?P00PD2wVMdLDRhgvL289?', '0'],
}
WIDE = '\u00e9\u20ac\U0001f6a2'
ODD = ['inf', 'nan', '-0', '+5', '1e400', '-1e400', '1e-400', '.', '-', '+', '.5', '5.', '0x10', ' 5', '5 ', '-1', '1e5', 'NaN', 'infinity', '00000000000000000000000000001']


def sentence(kind, fields):
    lead = '!AIVDM' if kind.startswith('VDM') else '$GP' + kind
    out = [lead]
    for f in fields:
        out += [',', f]
    return out


def keep_total(sc, fn, args):
    """Only the obligations about results being returned."""
    sc.total = True
    try:
        fn(sc, *args)
    finally:
        sc.oblig[:] = [o for o in sc.oblig if o['label'].endswith(': a result is returned')]
        for k, n in sorted(sc.I.unknown_calls.items(), key=str):
            sc.record('library call %s cannot panic' % (k,), 0, 1)


def parse_new(sc, *parts):
    s = sc.text(*parts)
    sc.parse(sc.parser(), s)


def any_text(sc, n, lead=''):
    """Any text of n 7-bit characters."""
    cs = [sc.char7('c%d' % i, exclude='') for i in range(n)]
    parse_new(sc, lead, cs)


def many_fields(sc, kind, n):
    """More fields than any sentence has."""
    c = sc.char7('c')
    d = sc.digit('d')
    for x in ((), (c,), (d,)):
        sc.reset()
        parse_new(sc, sentence(kind, TYPICAL[kind] + [list(x)] * n), '*00')


def long_fields(sc, kind, n):
    """Each field in turn far longer than usual."""
    c = sc.char7('c')
    for i in range(len(TYPICAL[kind])):
        for x in ([ch(48)] * n, [ch(48)] * (n - 1) + [c], [c] + [ch(49)] * (n - 1)):
            sc.reset()
            f = list(TYPICAL[kind])
            f[i] = x
            parse_new(sc, sentence(kind, f))


def long_text(sc, n):
    c = sc.char7('c')
    for lead in ('', '$', '!', '!AIVDM,1,1,,A,', '$GPGGA,', '!AIVDM,2,1,', '*', '$GPGLL,*'):
        for x in ([c] * n, [ch(48)] * n + [c], [ch(0x20ac)] * n, [c] + [ch(0xe9)] * n):
            sc.reset()
            parse_new(sc, lead, x)


def wide_text(sc, n, lead=''):
    """Any text of n characters one of which takes several bytes."""
    cs = [sc.char7('c%d' % i, exclude='') for i in range(n)]
    for p in range(n):
        for c in WIDE:
            sc.reset()
            parse_new(sc, lead, cs[:p], ch(ord(c)), cs[p + 1:])


def field(sc, kind, i, n):
    """Any n characters in one field."""
    cs = [sc.char7('c%d' % j, exclude=',') for j in range(n)]
    f = list(TYPICAL[kind])
    f[i] = cs
    parse_new(sc, sentence(kind, f))


def field_wide(sc, kind, i):
    cs = [sc.char7('c%d' % j, exclude=',') for j in range(3)]
    f = list(TYPICAL[kind])
    for n in (1, 2, 3):
        for p in range(n):
            for c in WIDE:
                sc.reset()
                f[i] = [cs[:p], ch(ord(c)), cs[p + 1:n]]
                parse_new(sc, sentence(kind, f))
    # the shape of the typical value with one wide character
    t = TYPICAL[kind][i]
    for p in range(len(t) + 1):
        for c in WIDE:
            for v in (t[:p] + c + t[p + 1:], t[:p] + c + t[p:], c + t[p:], t[:p] + c):
                sc.reset()
                f[i] = v
                parse_new(sc, sentence(kind, f))


def field_digits(sc, kind, i, ns):
    """Numbers of any length, numbers at the ends of their types, odd numbers."""
    ds = [sc.digit('d%d' % j) for j in range(max(ns))]
    f = list(TYPICAL[kind])
    for n in ns:
        sc.reset()
        f[i] = ds[:n]
        parse_new(sc, sentence(kind, f))
        if n < 4:
            sc.reset()
            f[i] = ['-', ds[:n], '.', ds[:n]]
            parse_new(sc, sentence(kind, f))


def field_odd(sc, kind, i):
    f = list(TYPICAL[kind])
    for v in ODD + [str((1 << k) + d) for k in (7, 8, 15, 16, 31, 32, 63, 64, 128) for d in (-1, 0, 1)] + ['9' * 400, '0' * 400 + '1', '1' * 400 + '.5']:
        sc.reset()
        f[i] = v
        parse_new(sc, sentence(kind, f))


def cut(sc, kind):
    """The sentence ends anywhere, with and without comma; extra fields follow."""
    f = TYPICAL[kind]
    s = sc.text(sentence(kind, f))
    cs = [sc.char7('c%d' % j, exclude='') for j in range(2)]
    for n in range(len(s.ch) + 1):
        for k in range(3):
            sc.reset()
            parse_new(sc, list(s.ch[:n]), cs[:k])
    for m in range(1, 30):
        sc.reset()
        parse_new(sc, s, ',' * m)
        sc.reset()
        parse_new(sc, sentence(kind, f[:1]), ',' * m)


def every_field(sc, kind, n, k=1, r=0):
    """n free characters in every k-th field at once."""
    f = [[sc.char7('c%d.%d' % (i, j), exclude=',') for j in range(n)] if i % k == r else t for i, t in enumerate(TYPICAL[kind])]
    parse_new(sc, sentence(kind, f))


def shaped(sc, kind, i, pat):
    """d: a digit, c: any character."""
    f = list(TYPICAL[kind])
    f[i] = [sc.digit('d%d' % j) if c == 'd' else sc.char7('c%d' % j, exclude=',') if c == 'c' else c for j, c in enumerate(pat)]
    if kind == 'RMC' and i == 8:
        f[0] = [sc.digit('e%d' % j) for j in range(6)]
    if kind == 'RMC' and i == 0:
        f[8] = [sc.digit('e%d' % j) for j in range(6)]
    parse_new(sc, sentence(kind, f))


def payload_of(sc, mt, n):
    """A message of any content, n payload characters, alone and as two fragments."""
    bits = A.ais_bits(sc, mt, n, inter=A.ETA if mt == 5 else None, zero=((43, 163), (272, 276)) if mt == 21 else ())
    cs = sc.payload(bits)
    kk = ['VD', sc.pick_char('kk', 'MO')]
    parse_new(sc, '!AI', kk, ',1,1,,A,', cs, ',0')


def payload_chars(sc, n, where):
    """Any characters in the payload."""
    cs = [sc.char7('c%d' % j, exclude=',') for j in range(3)]
    p = list(cstr('13aEOK?P00PD2wVMdLDRhgvL289?').ch)
    if where == 'only':
        parse_new(sc, '!AIVDM,1,1,,A,', cs[:n], ',0')
        return
    i = {'first': 0, 'middle': 12, 'last': len(p) - n}[where]
    p[i:i + n] = cs[:n]
    parse_new(sc, '!AIVDM,1,1,,A,', p, ',0')
    for c in WIDE:
        sc.reset()
        q = list(p)
        q[i] = ch(ord(c))
        parse_new(sc, '!AIVDM,1,1,,A,', q, ',0')


def any_type(sc, n):
    """Any type at all; the rest of the payload is constant."""
    bits = sc.bits(6, 't') + [0] * ((n - 1) * 6)
    parse_new(sc, '!AIVDM,1,1,,A,', sc.payload(bits), ',0')


def fragments(sc, na, nb, order):
    """Two fragments of free content and type."""
    a = sc.payload(sc.bits(6, 't') + [0, 0] + sc.bits(16, 'm') + [0] * (na * 6))[:na]
    b = [sc.char7('c%d' % j, exclude=',') for j in range(min(nb, 2))] + list(cstr('0' * max(0, nb - 2)).ch)
    d, c = sc.digit('i'), sc.char7('ch')
    p = sc.parser()
    S.many(sc, p)
    l = [S.frag(sc, '2', '1', d, c, a), S.frag(sc, '2', '2', d, c, b)]
    for j in order:
        sc.parse(p, l[j])


def after_history(sc, make):
    p = sc.parser()
    S.many(sc, p)
    h = S.Hist(sc, p)
    for s in make(sc, h):
        sc.parse(p, s)


def gsv_parts(sc, n, k):
    """Parts of one GSV message with k free characters in each field."""
    p = sc.parser()
    S.many(sc, p)
    for j in range(n):
        f = [[sc.char7('c%d.%d.%d' % (j, i, x), exclude=',') for x in range(k)] if (i + j) % 3 == 0 else '05' for i in range(9)]
        sc.parse(p, sc.text('$GPGSV,%d,%d' % (n, j + 1), [[',', x] for x in f]))


def gsv_cut(sc, n):
    """Parts that end anywhere."""
    full = ',07,11,222,33,12,5,001,40'
    c = sc.char7('c', exclude='')
    for cutoff in range(len(full) + 1):
        sc.reset()
        p = sc.parser()
        for j in range(n):
            sc.parse(p, sc.text('$GPGSV,%d,%d,08' % (n, j + 1), full[:cutoff] if j == n - 1 else full, [c] if j == n - 1 else ''))


def t24_any(sc, na, nb, pa):
    """Parts of type 24 of any length and part number."""
    p = sc.parser()
    S.many(sc, p)
    for n, nm, q in ((na, 'x', pa), (nb, 'y', 1 - pa if pa < 2 else 0)):
        bits = six24() + [0, 0] + S.six(123456789, 30) + S.six(q, 2) + sc.bits(max(0, n * 6 - 40), nm)
        sc.parse(p, sc.text('!AIVDM,1,1,,A,', sc.payload(bits[:n * 6]), ',0'))


def six24():
    return S.six(24)


SPECIAL = {('GGA', 0): ['cccccc', 'ddddddc', 'dddddd.cc', 'dddddddd', 'cddddd', 'ddcddd'], ('GLL', 4): ['cccccc', 'dddddd.cc', 'cdcddc'],
           ('RMC', 0): ['cccccc', 'dddddd.cc', 'ddddddd'], ('RMC', 8): ['cccccc', 'ddddddc', 'dddddddd', 'cdcdcd'],
           ('GGA', 1): ['cccc.cc', 'ddddc', 'dddddddd', 'dd.dd', 'dddd.dcd'], ('GGA', 3): ['ccccc.cc', 'dddddc', 'dddd.dd', 'ddddd.cdd'],
           ('RMC', 2): ['cccc.c', 'dddd.c'], ('RMC', 4): ['ccccc.c', 'ddddd.c'], ('GLL', 0): ['cccc.c', 'dddd.c'], ('GLL', 2): ['ccccc.c', 'ddddd.c']}


def own(tier):
    """Scenarios made for this property."""
    out = []
    q = tier == 'quick'
    for n in range(0, 7 if q else 9):
        out.append(('any %d characters' % n, any_text, (n,)))
    for lead, m in (('$', 6), ('!', 6), ('$GPGGA,', 4), ('$GPRMC,', 4), ('$GPGSV,', 5), ('!AIVDM,', 5), ('!AIVDM,1,1,', 5), ('!AIVDM,2,', 5), ('$GPGSV,1,1,', 4), ('*', 4), ('$GPGLL,*', 4)):
        for n in range(1, m + 1):
            out.append(('%s and any %d characters' % (lead, n), any_text, (n, lead)))
    for n in range(1, 7):
        out.append(('%d characters, one of several bytes' % n, wide_text, (n,)))
    for lead in ('$', '!', '$GPGGA,', '!AIVDM,1,1,,', '$GPGSV,1,1,', '$GPGLL,,,,,,V*'):
        for n in (1, 2, 3, 4):
            out.append(('%s and %d characters, one of several bytes' % (lead, n), wide_text, (n, lead)))
    for kind in TYPICAL:
        out.append(('%s cut anywhere' % kind, cut, (kind,)))
        out.append(('%s, every field of 1 character' % kind, every_field, (kind, 1)))
        for n, k in ((2, 4),) if q else ((2, 4), (2, 3), (3, 6)):
            for r in range(k):
                out.append(('%s, one field of %d from field %d of %d characters' % (kind, k, r + 1, n), every_field, (kind, n, k, r)))
        for i in range(len(TYPICAL[kind])):
            for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
                out.append(('%s field %d of %d characters' % (kind, i + 1, n), field, (kind, i, n)))
            out.append(('%s field %d with a character of several bytes' % (kind, i + 1), field_wide, (kind, i)))
            out.append(('%s field %d of odd numbers' % (kind, i + 1), field_odd, (kind, i)))
            out.append(('%s field %d of many digits' % (kind, i + 1), field_digits, (kind, i, (1, 2, 3, 5, 6, 8) if q else (1, 2, 3, 4, 5, 6, 7, 8))))
    for (kind, i), pats in SPECIAL.items():
        for p in pats:
            out.append(('%s field %d like %s' % (kind, i + 1, p), shaped, (kind, i, p)))
    for mt in range(64):
        known = mt in CHARS
        ls = (1, 2, 7, 28) if not known else (1, 6, 7, CHARS[mt] // 2, CHARS[mt] - 1, CHARS[mt], CHARS[mt] + 1)
        if known and not q:
            ls = range(1, CHARS[mt] + 4)
        for n in ls:
            out.append(('AIS type %d of %d characters' % (mt, n), payload_of, (mt, n)))
    for n in (1, 2, 3):
        for w in ('only', 'first', 'middle', 'last'):
            out.append(('%d payload characters of any kind (%s)' % (n, w), payload_chars, (n, w)))
    for n in (1, 2, 3, 5, 8, 28, 72, 200):
        out.append(('any AIS type of %d characters' % n, any_type, (n,)))
    for na, nb in ((0, 0), (1, 0), (0, 1), (1, 1), (4, 2), (10, 30), (56, 15), (28, 60)):
        for o in ((0, 1), (1, 0), (0, 0, 1), (1, 0, 1)):
            out.append(('fragments of %d and %d characters %s' % (na, nb, o), fragments, (na, nb, o)))
    for na, nb in ((7, 28), (28, 7), (28, 28), (20, 20), (28, 40), (1, 28), (6, 6)):
        for pa in (0, 1, 2, 3):
            out.append(('type 24 of %d and %d characters from part %d' % (na, nb, pa), t24_any, (na, nb, pa)))
    for n in (1, 2, 3):
        for k in (0, 1, 2):
            out.append(('GSV of %d parts, fields of %d characters' % (n, k), gsv_parts, (n, k)))
        out.append(('GSV of %d parts cut anywhere' % n, gsv_cut, (n,)))
    for kind in TYPICAL:
        for n in (300,) if q else (300, 1100):
            out.append(('%s and %d further fields' % (kind, n), many_fields, (kind, n)))
        for n in (260, 1030) if q else (260, 1030, 5000):
            out.append(('%s, a field of %d characters' % (kind, n), long_fields, (kind, n)))
    for n in (130, 260, 520):
        out.append(('%d characters' % n, long_text, (n,)))
    for name, f in (('the counterparts', lambda sc, h: [h.frag_rest, h.gsv_rest, h.t24_rest]), ('the same again', lambda sc, h: [h.frag, h.gsv, h.t24, h.frag_rest, h.gsv_rest, h.t24_rest]),
                    ('all the others', lambda sc, h: [sc.text(s) for s in S.OTHERS] + [h.gsv_rest, h.t24_rest, h.frag_rest])):
        out.append(('after a history: ' + name, after_history, (f,)))
    return [(n, keep_total, (f, a)) for n, f, a in out]


BORROW_QUICK = ('P29', 'P36', 'P37', 'P43')
BORROW = ('P03', 'P05', 'P09', 'P22', 'P25', 'P26', 'P27', 'P28', 'P29', 'P35', 'P36', 'P37', 'P38', 'P39', 'P43')


def p01(tier, borrow):
    out = own(tier)
    for p in BORROW_QUICK if tier == 'quick' else BORROW:
        for s in borrow(p):
            out.append(('%s: %s' % (p, s[0]), keep_total, (s[1], s[2] if len(s) > 2 else ())))
    return out


# ---------------------------------------------------------------- what can panic

PANICS = ('panicking::', 'unwrap_failed', 'expect_failed', 'slice_error_fail', 'slice_index')


def panic_sites(w):
    """{(path, block): (what, line)} of the crate's functions reachable from the parser."""
    g = X.graph(w)
    roots = [b['id'] for b in w.j['bodies'] if b['local'] and b.get('pub') and (b['path'].endswith('::parse_sentence') or b['path'].endswith('NmeaParser::new'))]
    out = {}
    for i in g.reach(roots):
        b = g.bodies[i]
        if not b['local']:
            continue
        for n, bb in enumerate(b['bbs']):
            t = bb['t']
            if bb.get('cleanup'):
                continue
            if t[0] == 'assert':
                out[(b['path'], n)] = (t[3], '%s:%s' % (b['file'], t[5]))
            elif t[0] == 'call':
                c = t[1]
                p = c.get('rpath') or c.get('path') or ''
                if any(x in p for x in PANICS) or c.get('track_caller') or c['name'] in ('index', 'index_mut'):
                    out[(b['path'], n)] = (p, '%s:%s' % (b['file'], t[-1]))
    return out


def finish(w, results):
    """Evidence: the sites that could panic, and those no scenario came to."""
    seen = {}
    for r in results:
        for p, bs in r.get('blocks', {}).items():
            seen.setdefault(p, set()).update(bs)
    n = panic_sites(w)
    miss = ['%s: %s at %s' % (k[0], v[0], v[1]) for k, v in sorted(n.items()) if k[1] not in seen.get(k[0], ())]
    return {'panic_sites': len(n), 'panic_sites_analysed': len(n) - len(miss), 'panic_sites_not_reached': miss[:80]}


# ---------------------------------------------------------------- P02

def bounded(sc, fn, args):
    """Nothing loops, recurses or asks for storage beyond a fixed bound."""
    try:
        fn(sc, *args)
    except Limit:
        if not work(sc):
            raise
    else:
        work(sc)


def work(sc):
    del sc.oblig[:]
    bad = 0
    for e in sc.I.events:
        if e.kind in ('loop', 'recursion', 'alloc'):
            st = sc.record('%s' % e.msg, e.pc, 0, 'at %s (%s:%s)' % (e.func, e.file, e.line))
            bad += st == 'violated'
    if bad == 0 and not sc.oblig:
        sc.record('%d steps: no loop, recursion or storage beyond the fixed bound' % sc.I.steps, 0, 0)
    return bad


def big_number(sc, kind, i):
    """Numbers at the ends of their types in one field."""
    f = list(TYPICAL[kind])
    for v in BIG:
        sc.reset()
        f[i] = v
        parse_new(sc, sentence(kind, f))


def big_pair(sc, kind, v):
    for w in ('1', '2', '255', v):
        sc.reset()
        f = list(TYPICAL[kind])
        f[0], f[1] = v, w
        parse_new(sc, sentence(kind, f))


def digits_field(sc, kind, i):
    f = list(TYPICAL[kind])
    ds = [sc.digit('d%d' % j) for j in range(9)]
    for n in (2, 3, 6, 9):
        sc.reset()
        f[i] = ds[:n]
        parse_new(sc, sentence(kind, f))


def recursion(sc):
    g = X.graph(sc.w)
    roots = [b['id'] for b in sc.w.j['bodies'] if b['local'] and b.get('pub') and (b['path'].endswith('::parse_sentence') or b['path'].endswith('NmeaParser::new'))]
    nodes = g.reach(roots)
    X.cover(sc, g, nodes)
    cyc = g.cycles(nodes)
    inc = set()
    for c in cyc:
        loc = [g.bodies[x] for x in c if g.bodies[x]['local']]
        if not loc:
            continue
        inc |= set(c)
        sc.record('no recursion', 1, 0, 'call cycle: ' + ' -> '.join(sorted('%s (%s:%d)' % (b['path'], b['file'], b['line']) for b in loc)))
    for i in sorted(nodes - inc):
        if g.bodies[i]['local']:
            sc.record('%s does not call itself' % g.bodies[i]['path'], 0, 0)


BIG = ['255', '256', '65535', '65536', '4294967295', '4294967296', '18446744073709551615', '340282366920938463463374607431768211455', '-1', '-128', '-2147483648',
       '1000000', '99999999', '1e9', '1e300', '-1e300', '9' * 60]


def p02(tier):
    out = [('recursion', recursion)]
    for kind in TYPICAL:
        for i in range(len(TYPICAL[kind])):
            out.append(('%s field %d is large' % (kind, i + 1), bounded, (big_number, (kind, i))))
            out.append(('%s field %d of many digits' % (kind, i + 1), bounded, (digits_field, (kind, i))))
    for kind in ('GSV', 'VDM'):
        for v in BIG:
            out.append(('%s of %s parts' % (kind, v[:40]), bounded, (big_pair, (kind, v))))
    for mt in sorted(CHARS):
        out.append(('AIS type %d' % mt, bounded, (payload_of, (mt, CHARS[mt]))))
    for na, nb, pa in ((28, 28, 0), (28, 28, 1)):
        out.append(('type 24 from part %d' % pa, bounded, (t24_any, (na, nb, pa))))
    for name, f in (('the counterparts', lambda sc, h: [h.frag_rest, h.gsv_rest, h.t24_rest]),
                    ('all the others', lambda sc, h: [sc.text(s) for s in S.OTHERS] + [h.gsv_rest, h.t24_rest, h.frag_rest])):
        out.append(('after a history: ' + name, bounded, (after_history, (f,))))
    for kind in ('GGA', 'RMC', 'GLL'):
        out.append(('%s with free fields' % kind, bounded, (every_field, (kind, 1))))
    return out
