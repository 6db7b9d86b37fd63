"""Scenarios for the AIS field properties (P07-P24, P43)."""
from .harness import *
from .ais_spec import *
from . import models_ext

POSITION = {1: (61, 89), 2: (61, 89), 3: (61, 89), 4: (79, 107), 9: (61, 89), 18: (57, 85), 21: (164, 192)}


def ctype_bits(mt):
    return [(mt >> (5 - i)) & 1 for i in range(6)]


def ais_bits(sc, mt, nch, zero=(), inter=None, const=None, mixed=()):
    """nch*6 payload bits of a message of type mt: free except the type, the `zero` ranges and `const` bits.

    mixed: pairs of fields (start, length, start, length) whose variables are to stand next to each other."""
    bits = []
    i = 0
    pre = {}
    for a, n, b, m in mixed:
        for k in reversed(range(max(n, m))):
            for s, l in ((a, n), (b, m)):
                if k < l:
                    pre[s + l - 1 - k] = bdd.new_var('b%d' % (s + l - 1 - k))
    now = {}
    inter = inter if inter and 'now' not in sc.I.env else {}     # (one clock)
    while i < nch * 6:
        if i in inter and i + inter[i][1] <= nch * 6:
            nm, n = inter[i]
            l = []
            for k in range(n):
                bits.append(bdd.new_var('b%d' % (i + k)))
                l.append(bdd.new_var('now.%s.%d' % (nm, k)))
            now['now.' + nm] = tuple(reversed(l))
            i += n
            continue
        if i < 6:
            bits.append((mt >> (5 - i)) & 1)
        elif i in pre:
            bits.append(pre[i])
        elif any(a <= i < b for a, b in zero):
            bits.append(0)
        elif const is not None and i in const:
            bits.append(const[i])
        else:
            bits.append(bdd.new_var('b%d' % i))
        i += 1
    if now:
        models_ext.make_now(sc.I, lambda name, w: now.get(name) or sc.I.fresh_bits(name, w))
    return bits


ETA = {274: ('month', 4), 278: ('day', 5), 283: ('hour', 5), 288: ('minute', 6), 294: ('second', 6)}


def decode(sc, mt, bits, talker='AI', kind='VDM', parser=None, label=None):
    """Parse one complete message; the data of the expected kind as (care, fields)."""
    p = sc.parser() if parser is None else parser
    r = sc.parse(p, sc.vdm(bits, talker, kind), label)
    return data(sc, r, KIND[mt], label or 'type %d' % mt)


def data(sc, r, kind, label):
    """(care, {field: (value, type)}) of an Ok(kind(data)) result; obligation: it is one."""
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    k, u2, d, dt = sc.into(v, t, kind)
    u = OR(u, AND(ok, u2))
    g = AND(ok, k)
    sc.holds('%s: decodes to %s' % (label, kind), g, unk=u)
    return g, (sc.fields(d, dt) if d is not None else {})


def check_fields(sc, g, fs, spec, label, only=None, known=None, types=None):
    for name, s in spec.items():
        if only is not None and name not in only:
            continue
        if g == 0 or sc.envelope and name in ('own_vessel', 'station', 'source'):
            continue
        lab = '%s: %s' % (label, name)
        if name not in fs:
            sc.record(lab + ' (field absent)', 0, 1)
            continue
        v, t = fs[name]
        sc.expect(lab, v, t, s, g, known=(known or {}).get(name), site=name)


MIXED = {1: (61, 28, 89, 27), 2: (61, 28, 89, 27), 3: (61, 28, 89, 27), 4: (79, 28, 107, 27), 5: (8, 30, 40, 30), 6: (8, 30, 40, 30), 9: (61, 28, 89, 27),
         10: (8, 30, 40, 30), 18: (57, 28, 85, 27), 21: (164, 28, 192, 27), 27: (44, 18, 62, 17)}


def t_fields(sc, mt, nch, zero=(), only=None, talker='AI', kind='VDM', skip=(), const=None, pinned=False, mixed=False):
    bits = ais_bits(sc, mt, nch, zero, ETA if mt == 5 else None, const, (MIXED[mt],) if mixed else ())
    g, fs = decode(sc, mt, bits, talker, kind)
    p = Pl(bits)
    sp = spec(mt, p, 1 if kind == 'VDO' else 0, STATION.get(talker, 'Other'))
    for s in skip:
        sp.pop(s, None)
    check_fields(sc, g, fs, sp, 'type %d' % mt, only, {k: (v[0] if not pinned else None, v[1]) for k, v in known_t27(p).items()} if mt == 27 else None)
    return g, fs, p


def t24_pair(sc, order, only=None, nch=28, free=True):
    """Part A and part B of one MMSI, in the given order; bits of both interleaved for the MMSI."""
    a, b = [], []
    for i in range(nch * 6):
        if i < 6:
            a.append((24 >> (5 - i)) & 1)
            b.append((24 >> (5 - i)) & 1)
        elif 8 <= i < 38:
            x = bdd.new_var('m%d' % i)
            a.append(x)
            b.append(x)
        elif i == 38:
            a.append(0)
            b.append(0)
        elif i == 39:
            a.append(0)
            b.append(1)
        else:
            a.append(bdd.new_var('a%d' % i))
            b.append(bdd.new_var('b%d' % i))
    p = sc.parser()
    first, second = (a, b) if order == 'AB' else (b, a)
    r = sc.parse(p, sc.vdm(first))
    incomplete(sc, r, 'first part')
    g, fs = decode(sc, 24, second, parser=p, label='second part')
    check_fields(sc, g, fs, spec24(Pl(a), Pl(b)), 'type 24 ' + order, only)
    return g, fs


def incomplete(sc, r, label, care=None):
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    k, u2 = sc.variant_guard(v, t, 'Incomplete')
    sc.holds('%s: incomplete' % label, AND(ok, k), care, unk=OR(u, AND(ok, u2)))
    return AND(ok, k)


def rejected(sc, r, label, variant=None, care=None):
    er, u, v, t = sc.into(r.v, r.ty, 'Err')
    if variant is None:
        sc.holds('%s: rejected' % label, er, care, unk=u)
        return er
    k, u2 = sc.variant_guard(v, t, variant)
    sc.holds('%s: rejected as %s' % (label, variant), AND(er, k), care, unk=OR(u, AND(er, u2)))
    return AND(er, k)


def t24_parts_rejected(sc, part):
    bits = ais_bits(sc, 24, 28, const={38: part >> 1, 39: part & 1})
    r = sc.parse(sc.parser(), sc.vdm(bits))
    rejected(sc, r, 'type 24 part %d' % part)


def t21_names(sc, mode, nch=60):
    """Name and extension together: characters chosen among a few."""
    bits = []
    for i in range(nch * 6):
        if i < 6:
            bits.append((21 >> (5 - i)) & 1)
        elif mode == 'ext':
            k = (i - 43) // 6
            if 43 <= i < 163:
                c = 1 + k
                bits.append((c >> (5 - (i - 43) % 6)) & 1)
            elif 272 <= i < 356:
                bits.append(bdd.new_var('b%d' % i))
            else:
                bits.append(0)
        elif mode == 'name':
            if 272 <= i < 356:
                bits.append(((((i - 272) // 6) % 26 + 1) >> (5 - (i - 272) % 6)) & 1)
            else:
                bits.append(bdd.new_var('b%d' % i) if 43 <= i < 163 else 0)
        else:
            # every character is '@' or 'A' (mode ends) or ' ' or 'A' (mode spaces)
            if 43 <= i < 163 or 272 <= i < 356:
                j = (i - 43) % 6 if i < 163 else (i - 272) % 6
                k = (i - 43) // 6 if i < 163 else 20 + (i - 272) // 6
                if mode == 'ends':
                    bits.append(bdd.new_var('c%d' % k) if j == 5 else 0)
                else:
                    if j == 0 and 15 <= k < 26:
                        x = bdd.new_var('c%d' % k)
                    # near the ends of the two fields; 'A' in front, '@' behind
                    if 15 <= k < 26:
                        bits.append(x ^ 1 if j == 0 else x if j == 5 else 0)
                    else:
                        bits.append(1 if j == 5 and k < 15 else 0)
            else:
                bits.append(0)
    g, fs = decode(sc, 21, bits)
    check_fields(sc, g, fs, spec(21, Pl(bits)), 'type 21', ['name'])


T21 = [('type 21 without extension', t_fields, (21, 46, ((272, 276),))),
       ('type 21 with extension, other fields', t_fields, (21, 60, ((43, 163), (272, 360)), None, 'AI', 'VDM', ())),
       ('type 21 name extension', t21_names, ('ext',)),
       ('type 21 name with full extension', t21_names, ('name',)),
       ('type 21 end of name and extension', t21_names, ('ends',)),
       ('type 21 spaces in name and extension', t21_names, ('spaces',))]


def one(mt, only=None, nch=None):
    return ('type %d, all payload bits free' % mt, t_fields, (mt, nch or CHARS[mt], (), only))


def near(mt, nch=None, zero=()):
    """... with the variables of position or identities next to each other (relations between them stay small)."""
    return ('type %d, all payload bits free, fields interleaved' % mt, t_fields, (mt, nch or CHARS[mt], zero, None, 'AI', 'VDM', (), None, False, True))


# ---------------------------------------------------------------- P07, P08

def message_type(sc, mt):
    bits = ais_bits(sc, mt, 28 if mt != 24 else 28, inter=None)
    r = sc.parse(sc.parser(), sc.vdm(bits))
    if mt == 24:
        # part A or B alone: waits for the other one
        incomplete(sc, r, 'type 24 part A or B', bits[38] ^ 1)
        rejected(sc, r, 'type 24 other part', None, bits[38])
    elif mt in KIND:
        data(sc, r, KIND[mt], 'type %d' % mt)
    else:
        rejected(sc, r, 'type %d' % mt, 'UnsupportedSentenceType')


def message_length(sc, mts, nch):
    """The type decides the kind of result whatever the length of the payload."""
    if len(mts) == 1:
        mt, = mts
        keep = 38 if mt == 24 else 80
        bits = ais_bits(sc, mt, nch, zero=((keep, nch * 6),) if keep < nch * 6 else ())
    else:
        tb = sc.bits(6, 'type')
        ok = 0
        for mt in mts:
            g = 1
            for i, b in enumerate(tb):
                g = AND(g, b ^ 1 ^ (mt >> (5 - i)) & 1)
            ok = OR(ok, g)
        sc.assume(ok)
        bits = list(tb) + ais_bits(sc, 0, nch)[6:]
        mt = None
    r = sc.parse(sc.parser(), sc.vdm(bits))
    label = '%s of %d characters' % ('type %d' % mt if mt is not None else 'other types', nch)
    if mt == 24:
        incomplete(sc, r, label)
    elif mt in KIND:
        data(sc, r, KIND[mt], label)
    else:
        rejected(sc, r, label, 'UnsupportedSentenceType')


def identity(sc, mt, kind, free=False):
    nch = min(CHARS[mt], 28) if not free else CHARS[mt] + (1 if mt == 21 else 0)
    t = [sc.char7('t0'), sc.char7('t1')]
    if free:
        bits = ais_bits(sc, mt, nch, zero=((43, 163), (272, 276)) if mt == 21 else (), inter=ETA if mt == 5 else None, mixed=(MIXED[mt],))
    else:
        bits = ais_bits(sc, mt, nch, zero=((40, nch * 6),))
    g, fs = decode(sc, mt, bits, talker=t, kind=kind)
    p = Pl(bits)
    st = enum(talker_cases(t, STATION))
    sp = spec(mt, p, 1 if kind == 'VDO' else 0, st)
    check_fields(sc, g, fs, sp, 'type %d %s' % (mt, kind), ('own_vessel', 'mmsi', 'source_mmsi', 'station', 'ais_type'))


def talker_cases(t, table, other='Other'):
    cs = []
    rest = 1
    for k, n in table.items():
        e = AND(ieq(t[0], ch(ord(k[0]))), ieq(t[1], ch(ord(k[1]))))
        cs.append((e, n))
        rest = AND(rest, e ^ 1)
    cs.append((rest, other))
    return cs


def identity24(sc, kind):
    t24_ident = []
    a, b = [], []
    for i in range(28 * 6):
        if 8 <= i < 38:
            x = bdd.new_var('m%d' % i)
            a.append(x)
            b.append(x)
        else:
            x = (24 >> (5 - i)) & 1 if i < 6 else 0
            a.append(x)
            b.append(x)
    b[39] = 1
    b[65] = 1
    p = sc.parser()
    r = sc.parse(p, sc.vdm(a, 'AI', kind))
    incomplete(sc, r, 'part A')
    g, fs = decode(sc, 24, b, kind=kind, parser=p, label='part B')
    check_fields(sc, g, fs, spec24(Pl(a), Pl(b), 1 if kind == 'VDO' else 0), 'type 24 ' + kind, ('own_vessel', 'mmsi', 'ais_type'))


def identity24_mixed(sc, order):
    """The parts of a vessel come from VDM or VDO sentences; the one completing the report is the one that counts."""
    a, b = [], []
    for i in range(28 * 6):
        x = bdd.new_var('m%d' % i) if 8 <= i < 38 else (24 >> (5 - i)) & 1 if i < 6 else 0
        a.append(x)
        b.append(x)
    b[39] = 1
    b[65] = 1
    ks = [sc.pick_char('k%d' % i, 'MO') for i in range(2)]
    p = sc.parser()
    parts = (a, b) if order else (b, a)
    incomplete(sc, sc.parse(p, sc.vdm(parts[0], 'AI', ['VD', ks[0]])), 'the first part')
    own = ieq(ks[1], ch(ord('O')))
    g, fs = decode(sc, 24, parts[1], kind=['VD', ks[1]], parser=p, label='the other part')
    check_fields(sc, g, fs, spec24(Pl(a), Pl(b), own), 'type 24 of VDM and VDO', ('own_vessel', 'mmsi', 'ais_type'))


def identity_fragments(sc, mt, order, free=False):
    """Own flag, station, class and identity of a message in two fragments."""
    k = sc.pick_char('k', 'MO')
    t = [sc.char7('t0'), sc.char7('t1')]
    nch = min(CHARS[mt], 28) if not free else CHARS[mt] + (1 if mt == 21 else 0)
    if free:
        bits = ais_bits(sc, mt, nch, zero=((43, 163), (272, 276)) if mt == 21 else (), inter=ETA if mt == 5 else None, mixed=(MIXED[mt],))
    else:
        bits = ais_bits(sc, mt, nch, zero=((40, nch * 6),))
    cs = sc.payload(bits)
    parts = [sc.text('!', t, 'VD', k, ',2,1,3,A,', cs[:9], ',0'), sc.text('!', t, 'VD', k, ',2,2,3,A,', cs[9:], ',0')]
    p = sc.parser()
    incomplete(sc, sc.parse(p, parts[order]), 'one fragment')
    r = sc.parse(p, parts[1 - order])
    g, fs = data(sc, r, KIND[mt], 'type %d in fragments' % mt)
    sp = spec(mt, Pl(bits), ieq(k, ch(ord('O'))), enum(talker_cases(t, STATION)))
    check_fields(sc, g, fs, sp, 'type %d in fragments' % mt, ('own_vessel', 'mmsi', 'source_mmsi', 'station', 'ais_type'))


# ---------------------------------------------------------------- P19, P20

def positions(sc, mt, free=False):
    nch = CHARS[mt] + (0 if mt != 21 else 1)
    lon, lat = POSITION[mt]
    if free:
        bits = ais_bits(sc, mt, nch, zero=((43, 163), (272, 276)) if mt == 21 else (), mixed=(MIXED[mt],))
    else:
        const = {i: 0 for i in range(6, nch * 6) if not (lon <= i < lat + 27)}
        bits = ais_bits(sc, mt, nch, const=const)
    g, fs = decode(sc, mt, bits)
    p = Pl(bits)
    x, y = p.s(lon, 28), p.s(lat, 27)

    def within(v, m):
        lo = IntV(v.w, (-m) & MASKS[v.w], None, True)
        hi = IntV(v.w, m, None, True)
        return AND(ilt(v, lo) ^ 1, ilt(hi, v) ^ 1)
    sc.expect('type %d: longitude within 180 degrees' % mt, *fs['longitude'],
              some(scaled(x, 1 / 600000.0)), AND(g, within(x, 180 * 600000)), site='longitude')
    sc.expect('type %d: latitude within 90 degrees' % mt, *fs['latitude'],
              some(scaled(y, 1 / 600000.0)), AND(g, within(y, 90 * 600000)), site='latitude')
    for name, v, m in (('longitude', x, 180 * 600000), ('latitude', y, 90 * 600000)):
        for k in (m, -m, 0, 1, -1, m - 1, 1 - m):
            e = ieq(v, IntV(v.w, k & MASKS[v.w]))
            sc.expect('type %d: %s of %d/10000 minute' % (mt, name, k), *fs[name], some(Flt(fconst(k / 600000.0))), AND(g, e), site=name)


PRESENCE = {
    1: ('sog_knots', 'cog', 'heading_true', 'longitude', 'latitude', 'rot'),
    4: ('longitude', 'latitude'),
    9: ('altitude', 'sog_knots', 'cog', 'longitude', 'latitude'),
    18: ('sog_knots', 'cog', 'heading_true', 'longitude', 'latitude'),
    21: ('longitude', 'latitude'),
}
PRESENCE[2] = PRESENCE[3] = PRESENCE[1]


def strip(s):
    """Presence only."""
    return Sum([(g, n, [ANY] if n == 'Some' else []) for g, n, fs in s.cs])


def presence(sc, mt, mixed=False):
    nch = CHARS[mt] + (1 if mt == 21 else 0)
    bits = ais_bits(sc, mt, nch, zero=((43, 163), (272, 276)) if mt == 21 else (), mixed=(MIXED[mt],) if mixed else ())
    g, fs = decode(sc, mt, bits)
    p = Pl(bits)
    sp = spec(mt, p)
    for name in PRESENCE[mt]:
        care = g
        if name == 'rot':
            # -128 absent, -126..126 present
            care = AND(g, OR(p.is_(42, 8, 127), p.is_(42, 8, -127)) ^ 1)
        sc.expect('type %d: %s' % (mt, name), *fs[name], strip(sp[name]), care, site=name)


# ---------------------------------------------------------------- P21

def texts(sc, mt, field, off, n, free=False):
    nch = {5: 71, 21: 46}[mt]
    if free:
        bits = ais_bits(sc, mt, nch, zero=((272, 276),) if mt == 21 else (), inter=ETA if mt == 5 else None)
    else:
        bits = ais_bits(sc, mt, nch, const={i: 0 for i in range(6, nch * 6) if not off <= i < off + 6 * n})
    g, fs = decode(sc, mt, bits)
    p = Pl(bits)
    check_fields(sc, g, fs, spec(mt, p), 'type %d' % mt, (field,))


def texts24(sc, field):
    a = [(24 >> (5 - i)) & 1 if i < 6 else 0 for i in range(168)]
    b = list(a)
    b[39] = 1
    off, n, x = {'name': (40, 20, a), 'call_sign': (90, 7, b), 'equipment_vendor_id': (48, 3, b)}[field]
    for i in range(off, off + 6 * n):
        x[i] = bdd.new_var('b%d' % i)
    p = sc.parser()
    sc.parse(p, sc.vdm(a))
    g, fs = decode(sc, 24, b, parser=p, label='part B')
    check_fields(sc, g, fs, spec24(Pl(a), Pl(b)), 'type 24', (field,))


# ---------------------------------------------------------------- P22

def truncated(sc, mt, nch):
    free = nch
    if mt == 5:
        t_fields(sc, mt, nch, skip=())
    elif mt == 21 and nch > 45:
        t_fields(sc, mt, nch, ((43, 163), (272, nch * 6)) if nch > 46 else ((272, 276),))
    else:
        # the recorded wrong layout of type 27 is not a matter of truncation
        t_fields(sc, mt, nch, pinned=True)


def truncated24(sc, na, nb):
    def mk(part, n):
        return [(24 >> (5 - i)) & 1 if i < 6 else 0 if i == 38 else part if i == 39 else None for i in range(n * 6)]
    a, b = mk(0, na), mk(1, nb)
    for i in range(max(na, nb) * 6):
        x = None
        if 8 <= i < 38:
            x = bdd.new_var('m%d' % i)
        for n, l in (('a', a), ('b', b)):
            if i < len(l) and l[i] is None:
                l[i] = x if x is not None else bdd.new_var('%s%d' % (n, i))
    p = sc.parser()
    r = sc.parse(p, sc.vdm(a))
    incomplete(sc, r, 'part A of %d characters' % na)
    g, fs = decode(sc, 24, b, parser=p, label='part B of %d characters' % nb)
    check_fields(sc, g, fs, spec24(Pl(a), Pl(b)), 'type 24')


# ---------------------------------------------------------------- P23

TABLES = [(1, 'nav_status'), (27, 'nav_status'), (5, 'ship_type'), (5, 'cargo_type'), (5, 'position_fix_type'),
          (4, 'position_fix_type'), (21, 'position_fix_type'), (21, 'aid_type')]


def tables(sc, mt, free=False):
    names = [n for m, n in TABLES if m == mt]
    rng = {1: [(38, 42)], 27: [(40, 44)], 5: [(232, 240), (270, 274)], 4: [(134, 138)], 21: [(38, 43), (249, 253)]}[mt]
    nch = CHARS[mt]
    if free:
        bits = ais_bits(sc, mt, nch, zero=((43, 163), (272, 276)) if mt == 21 else (), inter=ETA if mt == 5 else None)
    else:
        bits = ais_bits(sc, mt, nch, const={i: 0 for i in range(6, nch * 6) if not any(a <= i < b for a, b in rng)})
    g, fs = decode(sc, mt, bits)
    check_fields(sc, g, fs, spec(mt, Pl(bits)), 'type %d' % mt, names)


def tables24(sc):
    a = [(24 >> (5 - i)) & 1 if i < 6 else 0 for i in range(168)]
    b = list(a)
    b[39] = 1
    for i in range(40, 48):
        b[i] = bdd.new_var('b%d' % i)
    p = sc.parser()
    sc.parse(p, sc.vdm(a))
    g, fs = decode(sc, 24, b, parser=p, label='part B')
    check_fields(sc, g, fs, spec24(Pl(a), Pl(b)), 'type 24', ('ship_type', 'cargo_type'))


# ---------------------------------------------------------------- P24

def country(sc, lo, hi, free=False):
    """MMSIs lo*10^6 .. hi*10^6-1."""
    bits = ais_bits(sc, 5, 71, inter=ETA if free else None, const={i: 0 for i in range(6, 71 * 6) if not 8 <= i < 38} if not free else None)
    p = Pl(bits)
    m = p.u(8, 30)
    sc.assume(ilt(m, IntV(30, lo * 1000000)) ^ 1)
    if hi * 1000000 < 1 << 30:
        sc.assume(ilt(m, IntV(30, hi * 1000000)))
    if sc.st.pc == 0:
        return
    pr = sc.parser()
    r = sc.parse(pr, sc.vdm(bits))
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    k, u2, d, dt = sc.into(v, t, 'VesselStaticData')
    g = AND(ok, k)
    sc.holds('type 5 decodes', g, unk=OR(u, u2))
    if g == 0:
        return
    sc.assume(g)
    cid = sc.anchor('VesselStaticData::country')
    ref = sc.I.alloc(sc.st, d)
    res = sc.call(cid, [ref])
    for d3 in range(lo, hi):
        e = ilt(m, IntV(30, d3 * 1000000)) ^ 1
        if (d3 + 1) * 1000000 < 1 << 30:
            e = AND(e, ilt(m, IntV(30, (d3 + 1) * 1000000)))
        if e == 0:
            continue
        c = MID.get(d3)
        sc.expect('MMSI %03dxxxxxx: country' % d3, res.v, res.ty, some(Txt(c)) if c else NONE, e, site='fn:country')


FORMS = {'MIDxxxxxx': lambda d, k: d * 10 ** 6 + k % 10 ** 6, '0MIDxxxxx': lambda d, k: d * 10 ** 5 + k % 10 ** 5, '00MIDxxxx': lambda d, k: d * 10 ** 4 + k % 10 ** 4,
         '111MIDxxx': lambda d, k: 111 * 10 ** 6 + d * 1000 + k % 1000, '8MIDxxxxx': lambda d, k: 8 * 10 ** 8 + d * 10 ** 5 + k % 10 ** 5,
         '98MIDxxxx': lambda d, k: 98 * 10 ** 7 + d * 10 ** 4 + k % 10 ** 4, '99MIDxxxx': lambda d, k: 99 * 10 ** 7 + d * 10 ** 4 + k % 10 ** 4,
         '970MIDxxx': lambda d, k: 970 * 10 ** 6 + d * 1000 + k % 1000, '972MIDxxx': lambda d, k: 972 * 10 ** 6 + d * 1000 + k % 1000, '974MIDxxx': lambda d, k: 974 * 10 ** 6 + d * 1000 + k % 1000,
         'MID': lambda d, k: d, 'xxxMIDxxx': lambda d, k: k // 1000 * 10 ** 6 + d * 1000 + k % 1000, 'xxxxxxMID': lambda d, k: k * 1000 + d, '1MIDxxxxxx': lambda d, k: 10 ** 9 + d * 10 ** 5}


def country_form(sc, form, tail):
    """Identities of which other digits than the leading three hold a country's number."""
    vals = sorted({FORMS[form](d, tail) for d in range(200, 800)})
    sel = sc.bits(10, 's')
    at = [vals[i] if i < len(vals) else vals[-1] for i in range(1024)]

    def mux(lo, n, k, f):
        xs = {f(at[i]) for i in range(lo, lo + n)}
        if len(xs) == 1:
            return xs.pop()
        h = n // 2
        return bdd.ITE(sel[k], mux(lo + h, h, k + 1, f), mux(lo, h, k + 1, f))
    m = [mux(0, 1024, 0, lambda v: (v >> (29 - j)) & 1) for j in range(30)]
    bits = [(5 >> (5 - i)) & 1 if i < 6 else m[i - 8] if 8 <= i < 38 else 0 for i in range(71 * 6)]
    r = sc.parse(sc.parser(), sc.vdm(bits))
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    k, u2, d, dt = sc.into(v, t, 'VesselStaticData')
    g = AND(ok, k)
    sc.holds('type 5 decodes', g, unk=OR(u, u2))
    if g == 0:
        return
    sc.assume(g)
    res = sc.call(sc.anchor('VesselStaticData::country'), [sc.I.alloc(sc.st, d)])
    for c in sorted({MID.get(v // 10 ** 6) or '' for v in vals}):
        e = mux(0, 1024, 0, lambda v: int((MID.get(v // 10 ** 6) or '') == c))
        sc.expect('%s: country %s' % (form, c or 'absent'), res.v, res.ty, some(Txt(c)) if c else NONE, e, site='fn:country')


# ---------------------------------------------------------------- P43

def eta_expect(sc, p, secbits):
    """(spec, care): the next occurrence of the transmitted date and time."""
    now = models_ext.now(sc.I)
    y, nmo, nd, nh, nmi, ns, nano = now.fs
    w = 32

    def x(v):
        return extend(IntV(v.w, v.c, v.b), w, False) if v.w < w else IntV(w, v.c, v.b)
    mo, d, h, mi = x(p.u(274, 4)), x(p.u(278, 5)), x(p.u(283, 5)), x(p.u(288, 6))
    s = x(p.u(294, 6)) if secbits else IntV(w, 0)
    c = lambda k: IntV(w, k)
    na = AND(AND(ieq(mo, c(0)), ieq(d, c(0))), AND(ieq(h, c(24)), ieq(mi, c(60))))
    care = OR(na, AND(ieq(mo, c(0)) ^ 1, ieq(d, c(0)) ^ 1))
    h24, m60 = ieq(h, c(24)), ieq(mi, c(60))
    hh = ite(h24, c(23), h)
    mm = ite(OR(h24, m60), c(59), mi)
    ss = ite(OR(h24, m60), c(59), ite(ieq(s, c(60)), c(59), s))
    y1 = iadd(x(y), c(1))
    ok0 = AND(date_ok(IntV(14, None, x(y).bits[:14]), IntV(4, None, mo.bits[:4]), IntV(5, None, d.bits[:5])), time_ok(hh, mm, ss))
    ok1 = AND(date_ok(IntV(14, None, y1.bits[:14]), IntV(4, None, mo.bits[:4]), IntV(5, None, d.bits[:5])), time_ok(hh, mm, ss))
    # not passed: (mo,d,hh,mm,ss,0) >= (now...)
    ge = ieq(x(nano), c(0))
    for a, b in ((ss, ns), (mm, nmi), (hh, nh), (d, nd), (mo, nmo)):
        b = x(b)
        ge = OR(ilt(b, a), AND(ieq(a, b), ge))
    this = AND(ok0, ge)
    pres = AND(na ^ 1, OR(this, ok1))
    return opt(pres, When(ite(this, x(y), y1), mo, d, hh, mm, ss if secbits else None)), care


def eta(sc, free=False):
    bits = ais_bits(sc, 5, 71, inter=ETA, const={i: 0 for i in range(6, 71 * 6) if not 274 <= i < 302} if not free else None)
    g, fs = decode(sc, 5, bits)
    p = Pl(bits)
    if 'eta' not in fs:
        raise Missing('field eta')
    good, care = eta_expect(sc, p, False)
    wrong, _ = eta_expect(sc, p, True)
    now_ok = sc.I.env.get('now_ok', 1)
    c = AND(AND(g, care), now_ok)
    zero = p.is_(294, 6, 0)
    sc.expect('ETA, draught below 0.4 m', *fs['eta'], good, AND(c, zero), site='eta')
    sc.expect('ETA', *fs['eta'], good, c, known=('t5.eta.seconds', wrong), site='eta')


# ---------------------------------------------------------------- P09

def armor_first(sc, mt):
    """The remaining characters of a message whose first gives the type: any 7-bit character."""
    n = min(CHARS[mt], 28)
    cs = [armor_char(ctype_bits(mt))]
    good = 1
    bits = ctype_bits(mt)
    for i in range(1, n):
        c = sc.char7('c%d' % i)
        cs.append(c)
        e, six = armor_value(c)
        good = AND(good, e)
        bits += six
    p = sc.parser()
    r = sc.parse(p, sc.text('!AIVDM,1,1,,A,', cs, ',0'))
    sc.note_armor = good
    er, u, v, t = sc.into(r.v, r.ty, 'Err')
    sc.holds('type %d: a payload with another character is rejected' % mt, er, good ^ 1, unk=u)
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    sc.holds('type %d: a payload of valid characters is accepted' % mt, ok, good, unk=u)
    k, u2, d, dt = sc.into(v, t, KIND[mt])
    if d is None:
        return
    fs = sc.fields(d, dt)
    sp = spec(mt, Pl(bits))
    sp.pop('rot', None)
    if mt == 27:
        sp = {k2: v2 for k2, v2 in sp.items() if k2 not in known_t27(Pl(bits))}
    check_fields(sc, AND(AND(ok, k), good), fs, sp, 'type %d' % mt)


def armor_window(sc, mt, n, lo, hi):
    """A payload of n characters, those of one window being any 7-bit characters."""
    cs = [armor_char(ctype_bits(mt))]
    good = 1
    bits = ctype_bits(mt)
    for i in range(1, n):
        if lo <= i < hi:
            c = sc.char7('c%d' % i)
            cs.append(c)
            e, six = armor_value(c)
            good = AND(good, e)
            bits += six
        else:
            cs.append(ch(48))
            bits += [0] * 6
    r = sc.parse(sc.parser(), sc.text('!AIVDM,1,1,,A,', cs, ',0'))
    er, u, v, t = sc.into(r.v, r.ty, 'Err')
    sc.holds('type %d of %d characters: a payload with another character is rejected' % (mt, n), er, good ^ 1, unk=u)
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    sc.holds('type %d of %d characters: a payload of valid characters is accepted' % (mt, n), ok, good, unk=u)
    k, u2, d, dt = sc.into(v, t, KIND[mt])
    if d is None:
        return
    sp = spec(mt, Pl(bits))
    if mt == 27:
        sp = {k2: v2 for k2, v2 in sp.items() if k2 not in known_t27(Pl(bits))}
    sp.pop('rot', None)
    check_fields(sc, AND(AND(ok, k), good), sc.fields(d, dt), sp, 'type %d' % mt)


def armor_value(c):
    """(valid, six bits most significant first) of a 7-bit payload character."""
    def between(a, b):
        return AND(ilt(c, ch(a)) ^ 1, ilt(ch(b), c) ^ 1)
    lo, hi = between(48, 87), between(96, 119)
    v = ite(hi, isub(c, ch(56)), isub(c, ch(48)))
    return OR(lo, hi), list(reversed(v.bits[:6]))


def armor_type(sc, rest):
    """The first character is any 7-bit character."""
    c = sc.char7('c')
    good, six = armor_value(c)
    r = sc.parse(sc.parser(), sc.text('!AIVDM,1,1,,A,', c, rest, ',0'))
    er, u, v, t = sc.into(r.v, r.ty, 'Err')
    sc.holds('a first character outside the alphabet is rejected', er, good ^ 1, unk=u)
    iv = IntV(6, None, tuple(reversed(six)))
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    for kind in sorted(set(KIND.values())):
        e = 0
        for mt, k in KIND.items():
            if k == kind and mt != 24:
                e = OR(e, ieq(iv, IntV(6, mt)))
        g, u2 = sc.variant_guard(v, t, kind)
        sc.holds('first character of %s' % kind, AND(ok, g), AND(good, e), unk=OR(u, u2))


def armor_wide(sc, mt, char, pos):
    """A character of several bytes at one position."""
    n = min(CHARS[mt], 28)
    cs = [armor_char(ctype_bits(mt))]
    for i in range(1, n):
        if i == pos:
            cs.append(ch(ord(char)))
        else:
            cs.append(armor_char(sc.bits(6, 'b%d.' % i)))
    if pos == 0:
        cs[0] = ch(ord(char))
    r = sc.parse(sc.parser(), sc.text('!AIVDM,1,1,,A,', cs, ',0'))
    rejected(sc, r, 'type %d: U+%04X at position %d' % (mt, ord(char), pos))


def armor_fragments(sc, first):
    """Characters of both fragments."""
    cs = []
    good = 1
    bits = ctype_bits(5)
    for i in range(71):
        if i == 0:
            cs.append(armor_char(bits))
        elif i in (1, 2, 18, 19, 20, 39, 40, 69, 70):
            c = sc.char7('c%d' % i)
            e, six = armor_value(c)
            good = AND(good, e)
            cs.append(c)
            bits += six
        else:
            cs.append(ch(48))
            bits += [0] * 6
    p = sc.parser()
    a = sc.text('!AIVDM,2,1,1,A,', cs[:40], ',0')
    b = sc.text('!AIVDM,2,2,1,A,', cs[40:], ',2')
    for s in ((a, b) if first else (b, a)):
        r = sc.parse(p, s)
    er, u, v, t = sc.into(r.v, r.ty, 'Err')
    sc.holds('a message with another character is rejected', er, good ^ 1, unk=u)
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    sc.holds('a message of valid characters is accepted', ok, good, unk=u)
    k, u2, d, dt = sc.into(v, t, KIND[5])
    if d is not None:
        check_fields(sc, AND(AND(ok, k), good), sc.fields(d, dt), spec(5, Pl(bits)), 'type 5')
