"""Scenarios for the GNSS sentence properties (P30-P39, P45, P29 fields)."""
from .harness import *
from .ais_spec import date_ok, time_ok, umod, NAVSYS, days_in
from .props_ais import data, rejected, incomplete, talker_cases, check_fields
from . import models_ext

QUALITY = ['Invalid', 'GpsFix', 'DGpsFix', 'PpsFix', 'RealTimeKinematic', 'RealTimeKinematicFloat', 'DeadReckoning',
           'ManualInputMode', 'SimulationMode']
FAA = {'A': 'Autonomous', 'D': 'Differential', 'E': 'Estimated', 'N': 'NotValid', 'S': 'Simulator'}
FIX = {'1': 'NotAvailable', '2': 'Fix2D', '3': 'Fix3D'}
VARIANT = {'GGA': 'Gga', 'RMC': 'Rmc', 'GSA': 'Gsa', 'GSV': 'Gsv', 'VTG': 'Vtg', 'GLL': 'Gll'}
W = 24


def number(chars):
    """Value of decimal digits."""
    v = IntV(W, 0)
    for c in chars:
        d = IntV(W, None, c.bits[:4] + (0,) * (W - 4)) if c.c is None else IntV(W, c.c & 15)
        v = iadd(iadd(shl_const(v, 3), shl_const(v, 1)), d)
    return v


class F:
    """Field: text parts, expectation, error condition, and what it says when it must not be compared."""

    def __init__(self, parts, spec=None, err=0):
        self.parts = parts if isinstance(parts, list) else [parts]
        self.spec = spec
        self.err = err


class Mk:
    """Field makers over the inputs of one scenario."""

    def __init__(self, sc, free=True):
        self.sc = sc
        self.n = 0
        self.free = free
        self.rnd = random.Random(7)

    def nm(self):
        self.n += 1
        return 'f%d' % self.n

    def dig(self, s):
        """Characters of a pattern: d is a digit."""
        return [(self.sc.digit(self.nm()) if self.free else ch(48 + self.rnd.randrange(1, 6))) if c == 'd' else ch(ord(c)) for c in s]

    def empty(self, kind):
        if kind in ('q',):
            return F('', enum([(1, 'Invalid')]))
        if kind == 'status':
            return F('', NONE)
        return F('', NONE)

    def f(self, pat='dd.d', strict=True):
        cs = self.dig(pat)
        s = StrV(tuple(cs))
        t = s.const()
        return F(cs, some(Flt(fconst(float(t)) if t is not None else FloatV(0.0, ((Atom('pf', s, 64), 1.0),)))))

    def u(self, bits, pat='dd'):
        cs = self.dig(pat)
        v = number(cs)
        fit = ilt(v, IntV(W, 1 << bits))
        r = F(cs, some(Num(v)), fit ^ 1)
        r.value = v
        r.fit = fit
        return r

    def q(self, pat='d'):
        r = self.u(8, pat)
        cs = []
        rest = 1
        for i, n in enumerate(QUALITY):
            e = ieq(r.value, IntV(W, i))
            cs.append((e, n))
            rest = AND(rest, e ^ 1)
        cs.append((rest, 'Invalid'))
        r.spec = enum(cs)
        return r

    def bad(self, kind, form):
        """Texts that are no numbers."""
        sc = self.sc
        if form == 0:
            c = sc.char7(self.nm())
            sc.assume(AND(ilt(c, ch(48)) ^ 1, ilt(ch(57), c) ^ 1) ^ 1)
            cs = [c]
        elif form == 1:
            cs = self.dig('d') + [sc.pick_char(self.nm(), 'xA /:-')]
        elif form == 2:
            cs = [sc.pick_char(self.nm(), 'xA /')] + self.dig('d')
        elif form == 3:
            cs = self.dig('d.d') + [ch(46)] + self.dig('d')
        else:
            cs = [ch(ord(' '))] + self.dig('d')
        return F(cs, NONE, 1)

    def time(self, pat='dddddd'):
        cs = self.dig(pat)
        n = models_ext.now(self.sc.I)
        if len(pat) < 6:
            return F(cs, NONE)
        h, m, s = number(cs[0:2]), number(cs[2:4]), number(cs[4:6])
        ok = time_ok(h, m, s)
        r = F(cs, opt(ok, When(n.fs[0], n.fs[1], n.fs[2], h, m, s)))
        r.hms = (h, m, s, ok)
        return r

    def date(self, pat='dddddd'):
        cs = self.dig(pat)
        r = F(cs)
        if len(pat) < 6:
            r.dmy = None
            return r
        n = models_ext.now(self.sc.I)
        d, m, y = number(cs[0:2]), number(cs[2:4]), number(cs[4:6])
        ny = IntV(W, None, n.fs[0].bits[:12] + (0,) * (W - 12))
        yy = iadd(isub(ny, umod(ny, 100)), y)
        r.dmy = (d, m, yy)
        return r

    def broken(self, pat, pos, alphabet='AZax/: '):
        """A digit pattern with another character at pos."""
        cs = self.dig(pat)
        cs[pos] = self.sc.pick_char(self.nm(), alphabet)
        return cs

    def coord(self, deg, dec=3, hemi=None, neg=None, pos=None):
        """(field, hemisphere field) of degrees with `deg` digits."""
        cs = self.dig('d' * deg + 'dd.' + 'd' * dec)
        neg_c, pos_c = ('S', 'N') if deg == 2 else ('W', 'E')
        d, m = StrV(tuple(cs[:deg])), StrV(tuple(cs[deg:]))

        def val(sign):
            return dsum(d, m, sign)
        if hemi is None:
            b = self.sc.bits(1, self.nm())[0] if self.free else 0
            h = ite(b, ch(ord(neg_c)), ch(ord(pos_c)))
            sp = some(Flt([(b ^ 1, val(1.0)), (b, val(-1.0))]))
        else:
            h = ch(ord(hemi))
            sp = some(Flt(val(-1.0 if hemi == neg_c else 1.0)))
        return F(cs, sp), F([h])

    def char(self, table, other=None, exclude=',*', err=False):
        """A single free character looked up in a table; others are absent or an error."""
        c = self.sc.char7(self.nm(), exclude)
        cs = []
        rest = 1
        for k, sp in table.items():
            e = ieq(c, ch(ord(k)))
            cs.append((e, 'Some', [sp]))
            rest = AND(rest, e ^ 1)
        cs.append((rest, 'None', []))
        return F([c], Sum(cs), rest if err else 0)


def dsum(d, m, sign):
    def t(s, k):
        c = s.const()
        if c is not None:
            return FloatV(float(c) * k)
        return FloatV(0.0, ((Atom('pf', s, 64), k),))
    x, y = t(d, sign), t(m, sign / 60.0)
    return fadd(x, y)


def fadd(x, y):
    d = {}
    for a, c in x.ts + y.ts:
        k = a.key()
        if k in d:
            d[k] = (a, d[k][1] + c)
        else:
            d[k] = (a, c)
    ts = tuple(sorted(((a, c) for a, c in d.values() if c != 0.0), key=lambda p: repr(p[0].key())))
    return FloatV(x.k + y.k, ts, x.w)


FAA_SP = {k: enum([(1, n)]) for k, n in FAA.items()}

# field number -> (name, kind)
LAYOUT = {
    'GGA': {1: ('timestamp', 'time'), 2: ('latitude', 'lat'), 3: (None, 'ns'), 4: ('longitude', 'lon'), 5: (None, 'ew'),
            6: ('quality', 'q'), 7: ('satellite_count', 'u8'), 8: ('hdop', 'f'), 9: ('altitude', 'f'), 10: (None, 'M'),
            11: ('geoid_separation', 'f'), 12: (None, 'M'), 13: ('age_of_dgps', 'f'), 14: ('ref_station_id', 'u16')},
    'RMC': {1: (None, 'rtime'), 2: ('status_active', 'AVerr'), 3: ('latitude', 'lat'), 4: (None, 'ns'), 5: ('longitude', 'lon'),
            6: (None, 'ew'), 7: ('sog_knots', 'f'), 8: ('bearing', 'f'), 9: ('timestamp', 'date'), 10: ('variation', 'var'), 11: (None, 'side')},
    'GSA': dict([(1, ('mode1_automatic', 'MA')), (2, ('mode2_3d', 'fix'))] + [(i, ('prn_numbers', 'prn')) for i in range(3, 15)] +
                [(15, ('pdop', 'f')), (16, ('hdop', 'f')), (17, ('vdop', 'f'))]),
    'VTG': {1: ('cog_true', 'fo'), 2: (None, 'T'), 3: ('cog_magnetic', 'fo'), 4: (None, 'M'), 5: ('sog_knots', 'fo'), 6: (None, 'N'),
            7: ('sog_kph', 'fo'), 8: (None, 'K'), 9: ('faa_mode', 'faa')},
    'GLL': {1: ('latitude', 'lat'), 2: (None, 'ns'), 3: ('longitude', 'lon'), 4: (None, 'ew'), 5: ('timestamp', 'time'),
            6: ('data_valid', 'AV'), 7: ('faa_mode', 'faa')},
}


def build(sc, kind, shape, mk=None, cut=None):
    """Fields of a sentence.  shape(i, kind) -> None (full) or a dict of changes for field i.
    Returns (texts, {name: spec}, error condition)."""
    mk = mk or Mk(sc)
    lay = LAYOUT[kind]
    out = {}
    specs = {}
    err = 0
    prn = []
    hemi = {}
    rt = dt = None
    for i in sorted(lay):
        if cut is not None and i > cut:
            break
        name, k = lay[i]
        sh = shape(i, k) or {}
        f = None
        if 'raw' in sh:
            f = F(sh['raw'], sh.get('spec', NONE), sh.get('err', 0))
        elif sh.get('empty'):
            f = mk.empty(k)
            if k == 'prn':
                f.skip = True
            if k == 'side':
                f.none = True
        elif 'bad' in sh and k in ('f', 'fo', 'u8', 'u16', 'q', 'prn', 'var'):
            f = mk.bad(k, sh['bad'])
            if k == 'fo':
                f.err = 0
        elif k == 'time':
            f = mk.time(sh.get('pat', 'dddddd'))
        elif k == 'rtime':
            f = rt = mk.time(sh.get('pat', 'dddddd'))
            f.spec = None
        elif k == 'date':
            f = dt = mk.date(sh.get('pat', 'dddddd'))
        elif k in ('lat', 'lon'):
            f, hemi[i + 1] = mk.coord(2 if k == 'lat' else 3, sh.get('dec', 3), sh.get('hemi'))
            if (shape(i + 1, 'ns') or {}).get('empty') or cut == i:
                # without its side the sign is not specified
                f.spec = Sum([(1, 'Some', [ANY])])
        elif k in ('ns', 'ew'):
            f = hemi.get(i) or F('N' if k == 'ns' else 'E')
        elif k in ('f', 'fo'):
            f = mk.f(sh.get('pat', 'dd.d'))
        elif k == 'var':
            f = mk.f(sh.get('pat', 'ddd.d'))
            f.isvar = True
        elif k == 'side':
            b = sc.bits(1, mk.nm())[0] if mk.free else 0
            f = F([ite(b, ch(87), ch(69))])
            f.west = b
        elif k == 'u8' or k == 'prn':
            f = mk.u(8, sh.get('pat', 'dd'))
        elif k == 'u16':
            f = mk.u(16, sh.get('pat', 'dddd'))
        elif k == 'q':
            f = mk.q(sh.get('pat', 'd'))
        elif k == 'AVerr':
            f = mk.char({'A': B(1), 'V': B(0)}, err=True)
        elif k == 'AV':
            f = mk.char({'A': B(1), 'V': B(0)})
        elif k == 'MA':
            f = mk.char({'A': B(1), 'M': B(0)}, err=True)
        elif k == 'fix':
            f = mk.char({x: enum([(1, n)]) for x, n in FIX.items()}, err=True)
        elif k == 'faa':
            f = mk.char(FAA_SP)
        else:
            f = F(k)
        out[i] = f
        if k == 'prn':
            if not getattr(f, 'skip', False):
                prn.append(f)
        elif k == 'var':
            pass
        elif k == 'date':
            pass
        elif name is not None and f.spec is not None:
            specs[name] = f.spec
        err = OR(err, f.err)
    last = max(out) if out else 0
    # missing fields are absent
    for i in lay:
        name, k = lay[i]
        if i not in out and name is not None and k not in ('prn', 'var', 'date'):
            specs[name] = mk.empty(k).spec
    if kind == 'GSA':
        specs['prn_numbers'] = Lst([(1, [f.spec.cs[0][2][0] if f.spec.cs[0][2] else ANY for f in prn])])
    if kind == 'RMC':
        v = out.get(10)
        s = out.get(11)
        if v is None or not getattr(v, 'isvar', False):
            specs['variation'] = NONE
        elif s is None or getattr(s, 'none', False):
            err = 1
            specs['variation'] = NONE
        elif getattr(s, 'west', None) is None:
            specs['variation'] = NONE
        else:
            a = v.spec.cs[0][2][0].cs[0][1]
            n = FloatV(-a.k, tuple((t, -c) for t, c in a.ts), a.w)
            specs['variation'] = some(Flt([(s.west ^ 1, a), (s.west, n)]))
        if rt is not None and dt is not None and dt.dmy is not None and hasattr(rt, 'hms'):
            h, m, sec, ok = rt.hms
            d, mo, y = dt.dmy
            g = AND(ok, date_ok(y, IntV(8, None, mo.bits[:8]), IntV(8, None, d.bits[:8])))
            specs['timestamp'] = opt(g, When(y, mo, d, h, m, sec))
        else:
            specs['timestamp'] = NONE
    parts = []
    for i in range(1, last + 1):
        parts.append(',')
        parts += out[i].parts if i in out else []
    return parts, specs, err


def run(sc, kind, shape=None, only=None, cut=None, talker='GP', mk=None, tail=''):
    parts, specs, err = build(sc, kind, shape or (lambda i, k: None), mk, cut)
    p = sc.parser()
    if cut == 0:
        parts = [',']
    if sc.envelope and talker == 'GP':
        r = sc.parse(p, sc.signed(sc.text('$', sc.char7('t0'), sc.char7('t1'), kind, parts, tail)))
    else:
        r = sc.parse(p, sc.text('$', talker, kind, parts, tail))
    check(sc, r, kind, specs, err, only)


def check(sc, r, kind, specs, err, only=None):
    er, u, v, t = sc.into(r.v, r.ty, 'Err')
    cause = getattr(sc, 'cause', None)
    if cause is not None:
        if err:
            g, u2 = sc.variant_guard(v, t, cause)
            sc.holds('%s: malformed fields are reported as %s' % (kind, cause), OR(er ^ 1, g), err, unk=OR(u, AND(er, u2)))
        return
    if err:
        sc.holds('%s: malformed fields reject the sentence' % kind, er, err, unk=u)
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    k, u2, d, dt = sc.into(v, t, VARIANT[kind])
    if err != 1:
        sc.holds('%s: decodes' % kind, AND(ok, k), err ^ 1, unk=OR(u, AND(ok, u2)))
    g = AND(AND(ok, k), err ^ 1)
    if d is None or g == 0:
        return
    check_fields(sc, g, sc.fields(d, dt), specs, kind, only)


def with_cause(sc, cause, fn, args):
    sc.cause = cause
    fn(sc, *args)


def scen_cause(tier):
    """Sentences with malformed fields."""
    out = []
    for k in LAYOUT:
        out += [x for x in scen_fields(k, tier) if ' no number ' in x[0] or ' long ' in x[0] or ' side ' in x[0] or x[0].endswith('all fields')]
    out += [x for x in scen_coord(tier) if ' malformed ' in x[0]]
    return [(n, with_cause, ('InvalidSentence', f, a)) for n, f, a in out]


def shape_one(i, change, base=None):
    def f(j, k):
        if j == i:
            return change
        return base(j, k) if base else None
    return f


def one_field(sc, kind, i, change, only=None):
    run(sc, kind, shape_one(i, change), only)


UNIT = ('M', 'T', 'N', 'K')


def others(sc, kind, n, tail):
    """The fields that say nothing (units) hold any n characters, and so do further fields."""
    def text(nm):
        return [sc.char7('%s.%d' % (nm, j)) for j in range(n)]
    ts = []
    for j in range(tail):
        ts += [','] + text('x%d' % j)
    run(sc, kind, lambda i, k: {'raw': text('u%d' % i)} if k in UNIT and LAYOUT[kind][i][0] is None else None, tail=sc.text(*ts) if ts else '')


def empty_two(sc, kind, i):
    run(sc, kind, lambda j, k: {'empty': True} if j in i else None)


def all_but(sc, kind, i):
    """Every field empty but the i-th."""
    run(sc, kind, lambda j, k: None if j in i else {'empty': True})


def broken_time(sc, kind, i, pat, pos):
    mk = Mk(sc)
    run(sc, kind, shape_one(i, {'raw': mk.broken(pat, pos)}), ('timestamp',) , mk=mk)


def broken_coord(sc, kind, i, mode):
    mk = Mk(sc)
    deg = 2 if LAYOUT[kind][i][1] == 'lat' else 3
    full = 'd' * deg + 'dd.ddd'
    if mode == 'short':
        cs = mk.dig(full[1:])
        if deg == 2:
            pass
    elif mode == 'nodot':
        cs = mk.dig('d' * deg + 'dd')
    elif mode == 'nodec':
        cs = mk.dig('d' * deg + 'dd.')
    elif mode == 'tail':
        cs = mk.dig(full) + [sc.pick_char('t', 'xAz .-')]
    elif mode == 'head':
        cs = [sc.pick_char('t', 'xA -+.')] + mk.dig(full)
    elif mode == 'long' :
        cs = mk.dig('d' + full)
    else:
        cs = mk.broken(full, mode)
    run(sc, kind, shape_one(i, {'raw': cs, 'err': 1}), (), mk=mk)


FIELDS = {k: sorted(v) for k, v in LAYOUT.items()}


FLOATS = ('d', 'dd', 'ddd', 'd.dddd', '-dd.d', 'dddd.d', '.dd', '0d.d', '-d', '-d.ddd', '-ddd.d', '-dddd.dd', 'ddddd', 'dddddd.ddd', '-.d',
          '+d.d', 'd.', '-ddddd', '000d.d', 'ddd.dddd', '-0.d', 'd.d')
FLOATS_MORE = ('dddddddd', '-dddddddd.d', 'dd.dddddd', '-0d.dd', '00000ddd.d', 'ddd.', '-ddd.', '+ddd', '+.d', 'd.dddddddd', '-ddd.ddddd')
WHOLE_MORE = ('d', 'ddd', 'dddd', 'ddddd', 'dddddd', '0d', '00d', '000ddd', '0000ddddd', '+dd', '00000000ddd')


def scen_fields(kind, tier):
    """Scenarios deciding every field of a sentence kind."""
    lay = LAYOUT[kind]
    out = [('%s, all fields' % kind, run, (kind,))]
    out.append(('%s, all fields empty' % kind, all_but, (kind, ())))
    for n in (0, 1, 2, 3):
        out.append(('%s, units of any %d characters' % (kind, n), others, (kind, n, 0)))
    for j, n in ((1, 0), (1, 1), (1, 2), (2, 1), (3, 1), (7, 1)):
        out.append(('%s, %d further fields of any %d characters' % (kind, j, n), others, (kind, n, j)))
    for i in lay:
        k = lay[i][1]
        if len(k) == 1 and k.isupper():
            continue
        out.append(('%s, field %d empty' % (kind, i), one_field, (kind, i, {'empty': True})))
        keep = (i,)
        if k in ('lat', 'lon'):
            keep = (i, i + 1)
        if k in ('ns', 'ew', 'side'):
            keep = (i - 1, i)
        if k == 'var':
            keep = (10, 11)
        out.append(('%s, only field %d' % (kind, i), all_but, (kind, keep)))
        if k in ('f', 'fo', 'var'):
            for pat in FLOATS + (FLOATS_MORE if tier != 'quick' else ()):
                out.append(('%s, field %d as %s' % (kind, i, pat), one_field, (kind, i, {'pat': pat})))
            for b in range(4):
                out.append(('%s, field %d no number %d' % (kind, i, b), one_field, (kind, i, {'bad': b})))
        if k in ('u8', 'prn', 'u16', 'q'):
            for pat in ('d', 'ddd', 'dddd', 'ddddd', 'dddddd', '00d', '000ddd', '0000ddddd') if tier == 'quick' else WHOLE_MORE:
                if k == 'prn' and tier == 'quick' and i not in (3, 8, 14):
                    continue
                out.append(('%s, field %d as %s' % (kind, i, pat), one_field, (kind, i, {'pat': pat})))
            for b in ((0, 1, 2) if k != 'prn' or tier != 'quick' or i in (3, 7, 14) else (0,)):
                out.append(('%s, field %d no number %d' % (kind, i, b), one_field, (kind, i, {'bad': b})))
    groups = [(i, i + 1) if lay[i][1] in ('lat', 'lon', 'var') else (i,) for i in sorted(lay) if lay[i][1] not in ('ns', 'ew', 'side') and not (len(lay[i][1]) == 1 and lay[i][1].isupper())]
    groups = [g for g in groups if not (kind == 'GSA' and 3 < g[0] < 14)]
    for x, a in enumerate(groups):
        for b in groups[x + 1:]:
            out.append(('%s, fields %d and %d empty' % (kind, a[0], b[0]), empty_two, (kind, a + b)))
            out.append(('%s, only fields %d and %d' % (kind, a[0], b[0]), all_but, (kind, a + b)))
    if kind == 'RMC':
        out.append(('RMC, side of the variation', rmc_side, ()))
        out.append(('RMC, long status', one_field, ('RMC', 2, {'raw': 'AV', 'err': 1})))
    if kind == 'GSA':
        out += [('GSA, satellite fields %s' % p, gsa_gaps, (p,)) for p in GAPS]
        for fr in ((0, 1), (0, 11), (5, 6), (10, 11)):
            for o in ((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), (32, 3, 22, 14, 1, 31, 65, 9, 88, 2, 17, 4)):
                out.append(('GSA, satellites %d and %d among %d, %d, ...' % (fr[0] + 1, fr[1] + 1, o[0], o[1]), gsa_fixed, (fr, o)))
        out.append(('GSA, long mode', one_field, ('GSA', 1, {'raw': 'AM', 'err': 1})))
        out.append(('GSA, long fix type', one_field, ('GSA', 2, {'raw': '12', 'err': 1})))
    return out


def rmc_side(sc):
    """Any other side rejects a variation."""
    c = sc.char7('side')
    bad = AND(ieq(c, ch(69)) ^ 1, ieq(c, ch(87)) ^ 1)
    sc.assume(bad)
    run(sc, 'RMC', shape_one(11, {'raw': [c], 'err': 1}))


GAPS = ('101010101010', '010101010101', '110000000011', '000000000001', '100000000000', '011111111110', '001100110011',
        '110000000000', '100000000001', '000001100000', '111000000000', '000000100010')


def gsa_gaps(sc, pattern):
    """Groups of empty satellite fields."""
    run(sc, 'GSA', lambda j, k: {'empty': True} if k == 'prn' and pattern[j - 3] == '0' else None, ('prn_numbers',))


def gsa_fixed(sc, free, order):
    """Two free satellite numbers among given ones."""
    def shape(j, k):
        if k == 'prn' and j - 3 not in free:
            n = order[j - 3]
            return {'raw': '%02d' % n, 'spec': some(Num(IntV(8, n)))}
    run(sc, 'GSA', shape, ('prn_numbers',))


def cut(sc, kind, n):
    run(sc, kind, cut=n)


def cut_empty(sc, kind, n, keep):
    """... with every field but these empty."""
    run(sc, kind, lambda j, k: None if j in keep else {'empty': True}, cut=n)


def cut_comma(sc, kind, n):
    """Cut after the comma of the next field."""
    run(sc, kind, cut=n, tail=',')


# ---------------------------------------------------------------- P35, P36, P37

def scen_coord(tier):
    out = []
    for kind in ('GGA', 'RMC', 'GLL'):
        for i in LAYOUT[kind]:
            k = LAYOUT[kind][i][1]
            if k not in ('lat', 'lon'):
                continue
            for dec in (1, 2, 3, 4, 5, 6, 8) + ((10, 12) if tier != 'quick' else ()):
                out.append(('%s, field %d with %d decimals' % (kind, i, dec), coord_both, (kind, dec)) if k == 'lat' else
                           ('%s, field %d with %d decimals' % (kind, i, dec), one_coord, (kind, i, {'dec': dec})))
            for mode in ('short', 'nodot', 'nodec', 'tail', 'head', 'long', 0, 1, 2, 3, 5, 7):
                out.append(('%s, field %d malformed %s' % (kind, i, mode), broken_coord, (kind, i, mode)))
            out.append(('%s, field %d empty' % (kind, i), one_coord, (kind, i, {'empty': True})))
    return out


def coord_both(sc, kind, dec):
    run(sc, kind, lambda j, k: {'dec': dec} if k in ('lat', 'lon') else None, ('latitude', 'longitude'))


def one_coord(sc, kind, i, change):
    run(sc, kind, shape_one(i, change), ('latitude', 'longitude'))


def scen_time(tier):
    out = []
    for kind in ('GGA', 'GLL'):
        i = [j for j in LAYOUT[kind] if LAYOUT[kind][j][1] == 'time'][0]
        for pat in ('dddddd', 'dddddd.d', 'dddddd.dd', 'dddddd.ddd', 'ddddd', 'dddd', 'ddd', 'dd', 'd', 'dddddd.', 'dddddd.dddd', 'dddddd.' + 'd' * 6, 'dddddd.' + 'd' * 9, 'dddddd.' + 'd' * 20, 'dddddd.' + 'd' * 60):
            out.append(('%s, time as %s' % (kind, pat), one_field, (kind, i, {'pat': pat})))
        out.append(('%s, no time' % kind, one_field, (kind, i, {'empty': True})))
        out.append(('%s, only the time' % kind, all_but, (kind, (i,))))
        for pos in range(6):
            out.append(('%s, letter at %d of the time' % (kind, pos), letter_time, (kind, i, 'dddddd.dd', pos)))
        for c in '\u00e9\u20ac\U0001f6a2':
            for pos in range(6):
                out.append(('%s, U+%04X at %d of the time' % (kind, ord(c), pos), wide_time, (kind, i, pos, c)))
    return out


LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz:. '


def letter_time(sc, kind, i, pat, pos):
    mk = Mk(sc)
    run(sc, kind, shape_one(i, {'raw': mk.broken(pat, pos, LETTERS)}), mk=mk)


def wide_time(sc, kind, i, pos, c):
    mk = Mk(sc)
    cs = mk.dig('dddddd')
    cs[pos] = ch(ord(c))
    run(sc, kind, shape_one(i, {'raw': cs}), mk=mk)


def scen_rmctime(tier):
    out = []
    for pat in ('dddddd', 'dddddd.d', 'dddddd.dd', 'ddddd', 'dddd', 'dd', 'd', 'dddddd.', 'dddddd.ddd', 'dddddd.dddd', 'dddddd.' + 'd' * 6, 'dddddd.' + 'd' * 9, 'dddddd.' + 'd' * 20, 'dddddd.' + 'd' * 60):
        out.append(('RMC, time as %s' % pat, one_field, ('RMC', 1, {'pat': pat})))
    for pat in ('dddddd', 'ddddd', 'dddd', 'ddd', 'dd', 'd'):
        out.append(('RMC, date as %s' % pat, one_field, ('RMC', 9, {'pat': pat})))
    out.append(('RMC, no time', one_field, ('RMC', 1, {'empty': True})))
    out.append(('RMC, no date', one_field, ('RMC', 9, {'empty': True})))
    out.append(('RMC, only date and time', all_but, ('RMC', (1, 9))))
    for pos in range(6):
        out.append(('RMC, letter at %d of the time' % pos, letter_rtime, (1, pos)))
        out.append(('RMC, letter at %d of the date' % pos, letter_rtime, (9, pos)))
        for c in '\u00e9\u20ac':
            out.append(('RMC, U+%04X at %d of the time' % (ord(c), pos), wide_rtime, (1, pos, c)))
            out.append(('RMC, U+%04X at %d of the date' % (ord(c), pos), wide_rtime, (9, pos, c)))
    return out


def letter_rtime(sc, i, pos):
    mk = Mk(sc)
    run(sc, 'RMC', shape_one(i, {'raw': mk.broken('dddddd', pos, LETTERS)}), mk=mk)


def wide_rtime(sc, i, pos, c):
    mk = Mk(sc)
    cs = mk.dig('dddddd')
    cs[pos] = ch(ord(c))
    run(sc, 'RMC', shape_one(i, {'raw': cs}), mk=mk)


# ---------------------------------------------------------------- P38

def scen_cut(tier):
    out = []
    for kind in LAYOUT:
        n = max(LAYOUT[kind])
        for k in range(0, n + 1):
            if kind == 'RMC' and k == 10:
                continue        # a variation without its side
            out.append(('%s, cut after field %d' % (kind, k), cut, (kind, k)))
            if k:
                out.append(('%s, cut after field %d, all empty' % (kind, k), cut_empty, (kind, k, ())))
                out.append(('%s, cut after field %d, only the first field' % (kind, k), cut_empty, (kind, k, (1,))))
                if LAYOUT[kind][k][1] not in ('lat', 'lon', 'var', 'ns', 'ew', 'side'):
                    out.append(('%s, cut after field %d, only the last field' % (kind, k), cut_empty, (kind, k, (k,))))
        out.append(('%s with further fields' % kind, extra, (kind,)))
    for nf in range(0, 17):
        out.append(('GSV, cut after %d satellite fields' % nf, gsv_cut, (nf,)))
    return out


def extra(sc, kind):
    """More fields than the sentence has."""
    mk = Mk(sc)
    run(sc, kind, mk=mk, tail=[',', sc.char7('x0'), ',', ',', sc.char7('x1'), mk.dig('d')])


def gsv_block(mk, pats=('dd', 'dd', 'ddd', 'dd'), empty=()):
    """Four fields of a satellite; (parts, [specs], present guard)."""
    parts = []
    sp = {}
    g = 1
    for j, (pat, name, w) in enumerate(zip(pats, ('prn_number', 'elevation', 'azimuth', 'snr'), (8, 8, 16, 8))):
        parts.append(',')
        if j in empty:
            if j == 0:
                g = 0
            else:
                sp[name] = NONE
            continue
        f = mk.u(w, pat)
        parts += f.parts
        if j == 0:
            g = f.fit
            sp[name] = Num(f.value)
        else:
            sp[name] = opt(f.fit, Num(f.value))
    return parts, sp, g


def gsv_list(blocks, source='Gps'):
    """Lst of the blocks that are present."""
    alts_ = [(1, [])]
    for sp, g in blocks:
        d = dict(sp)
        d['source'] = enum([(1, source)]) if isinstance(source, str) else source
        nx = []
        for e, l in alts_:
            if AND(e, g):
                nx.append((AND(e, g), l + [Rec(d)]))
            if AND(e, g ^ 1):
                nx.append((AND(e, g ^ 1), l))
        alts_ = nx
    return Lst(alts_)


def gsv_result(sc, r, spec, label):
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    k, u2, d, dt = sc.into(v, t, 'Gsv')
    sc.holds('%s: delivers satellites' % label, AND(ok, k), unk=OR(u, AND(ok, u2)))
    g = AND(ok, k)
    if d is not None and g:
        sc.expect('%s: satellites' % label, d, dt, spec, g, site='prn_number')


def gsv_cut(sc, nf):
    mk = Mk(sc)
    parts, blocks = [], []
    left = nf
    for b in range(4):
        if left <= 0:
            break
        n = min(4, left)
        p, sp, g = gsv_block(mk, empty=tuple(range(n, 4)))
        q = []
        # drop the missing fields with their commas
        cnt = 0
        for x in p:
            if isinstance(x, str) and x == ',':
                cnt += 1
                if cnt > n:
                    break
            q.append(x)
        parts += q
        blocks.append((sp, g))
        left -= n
    r = sc.parse(sc.parser(), sc.text('$GPGSV,1,1', ',', mk.dig('dd'), parts))
    gsv_result(sc, r, gsv_list(blocks), 'GSV with %d satellite fields' % nf)


# ---------------------------------------------------------------- P45

def scen_modes(tier):
    out = []
    for kind in ('VTG', 'GLL'):
        i = [j for j in LAYOUT[kind] if LAYOUT[kind][j][1] == 'faa'][0]
        out.append(('%s, any mode letter' % kind, all_but, (kind, (i,))))
        out.append(('%s, any mode letter, other fields filled' % kind, one_field, (kind, i, {})))
        out.append(('%s, two letters' % kind, two_letters, (kind, i)))
        out.append(('%s, no letter' % kind, one_field, (kind, i, {'empty': True})))
        for c in '\u00c4\u0391\uff21':
            out.append(('%s, letter U+%04X' % (kind, ord(c)), one_field, (kind, i, {'raw': c})))
    for pat in ('d', 'dd', 'ddd', '0d', '00d'):
        out.append(('GGA, quality as %s' % pat, one_field, ('GGA', 6, {'pat': pat}, ('quality',))))
    out.append(('GGA, no quality', one_field, ('GGA', 6, {'empty': True}, ('quality',))))
    out.append(('GGA, only the quality', all_but, ('GGA', (6,))))
    for kind, i, name in (('GSA', 1, 'mode1_automatic'), ('GSA', 2, 'mode2_3d'), ('RMC', 2, 'status_active'), ('GLL', 6, 'data_valid')):
        out.append(('%s, any %s' % (kind, name), all_but, (kind, (i,))))
        out.append(('%s, any %s, other fields filled' % (kind, name), one_field, (kind, i, {}, (name,))))
        out.append(('%s, no %s' % (kind, name), one_field, (kind, i, {'empty': True}, (name,))))
    return out


def two_letters(sc, kind, i):
    a, b = sc.char7('l0'), sc.char7('l1')
    run(sc, kind, shape_one(i, {'raw': [a, b]}))


# ---------------------------------------------------------------- P39

def scen_numbers(tier):
    out = []
    for kind in ('GGA', 'GSA'):
        for i in LAYOUT[kind]:
            k = LAYOUT[kind][i][1]
            if k in ('u8', 'u16', 'q', 'prn') and not (k == 'prn' and i not in (3, 14) and tier == 'quick'):
                for n in (1, 2, 3, 4, 5, 6, 7):
                    out.append(('%s, field %d of %d digits' % (kind, i, n), one_field, (kind, i, {'pat': 'd' * n})))
                for t in ('256', '65536', '4294967296', '4294967297', '18446744073709551616', '18446744073709551617',
                          '340282366920938463463374607431768211457', '-1', '-255', '1.0', '0x10'):
                    if k == 'u16' and t == '256':
                        continue
                    out.append(('%s, field %d is %s' % (kind, i, t), one_field, (kind, i, {'raw': t, 'err': 1})))
    for j in range(4):
        for n in (1, 3, 4, 5, 6):
            out.append(('GSV, number %d of %d digits' % (j, n), gsv_digits, (j, n)))
        for t in ('65536', '4294967297', '18446744073709551617', '-1', '1.0'):
            out.append(('GSV, number %d is %s' % (j, t), gsv_text, (j, t)))
    for n in (1, 2, 3, 4):
        out.append(('GSV, count of %d digits' % n, gsv_header, (1, n)))
        out.append(('GSV, number of %d digits' % n, gsv_header, (2, n)))
    for t in ('257', '65537', '4294967297', '18446744073709551617', '-255', '-1'):
        for f in (1, 2):
            out.append(('GSV, header field %d is %s' % (f, t), gsv_header_text, (f, t)))
            out.append(('AIS, header field %d is %s' % (f, t), ais_header_text, (f, t)))
    for f in (1, 2):
        for n in (3, 4, 5):
            out.append(('AIS, header field %d of %d digits' % (f, n), ais_header, (f, n)))
    return out


def gsv_digits(sc, j, n, at=0, blocks=2):
    """Number j of block `at` has n digits."""
    mk = Mk(sc)
    pats = ['dd', 'dd', 'ddd', 'dd']
    ps, l = [], []
    for b in range(blocks):
        p, sp, g = gsv_block(mk, [('d' * n if b == at and k == j else x) for k, x in enumerate(pats)])
        ps += p
        l.append((sp, g))
    r = sc.parse(sc.parser(), sc.text('$GPGSV,1,1,02', ps))
    gsv_result(sc, r, gsv_list(l), 'GSV')


def gsv_text(sc, j, t):
    mk = Mk(sc)
    p, sp, g = gsv_block(mk, empty=(j,))
    q = []
    c = 0
    for x in p:
        q.append(x)
        if isinstance(x, str) and x == ',':
            c += 1
            if c == j + 1:
                q.append(t)
    r = sc.parse(sc.parser(), sc.text('$GPGSV,1,1,02', q))
    gsv_result(sc, r, gsv_list([(sp, g)]), 'GSV')


def gsv_header(sc, f, n):
    """A count or number of n digits: values above 255 do not fit."""
    mk = Mk(sc)
    a = mk.u(8, 'd' * n)
    other = '1' if f == 2 else '1'
    txt = sc.text('$GPGSV,', a.parts if f == 1 else '1', ',', a.parts if f == 2 else '1', ',01,07,,,')
    r = sc.parse(sc.parser(), txt)
    one = ieq(a.value, IntV(W, 1))
    big = a.fit ^ 1
    er, u, v, t = sc.into(r.v, r.ty, 'Err')
    if big:
        sc.holds('GSV: a header number above 255 is rejected', er, big, unk=u)
    if f == 2:
        sc.holds('GSV: a message number of 0 or above the count is rejected', er, one ^ 1, unk=u)
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    g, u2 = sc.variant_guard(v, t, 'Gsv')
    sc.holds('GSV: only message 1 of 1 is complete', AND(ok, g), one, unk=OR(u, u2))
    sc.holds('GSV: other counts and numbers are not complete', AND(ok, g) ^ 1, one ^ 1, unk=OR(u, u2))


def gsv_header_text(sc, f, t):
    r = sc.parse(sc.parser(), sc.text('$GPGSV,%s,%s,01,07,,,' % ((t, '1') if f == 1 else ('1', t))))
    rejected(sc, r, 'GSV header field %d of %s' % (f, t))


def ais_header_text(sc, f, t):
    r = sc.parse(sc.parser(), sc.text('!AIVDM,%s,%s,,A,10000000000000000000000000000,0' % ((t, '1') if f == 1 else ('1', t))))
    rejected(sc, r, 'AIS header field %d of %s' % (f, t))


def ais_header(sc, f, n):
    mk = Mk(sc)
    a = mk.u(8, 'd' * n)
    r = sc.parse(sc.parser(), sc.text('!AIVDM,', a.parts if f == 1 else '1', ',', a.parts if f == 2 else '1', ',1,A,1000000000000000000000000000,0'))
    er, u, v, t = sc.into(r.v, r.ty, 'Err')
    sc.holds('AIS: a header number above 255 is rejected', er, a.fit ^ 1, unk=u)
    if f == 1:
        ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
        g, u2 = sc.variant_guard(v, t, 'VesselDynamicData')
        sc.holds('AIS: only a count of 1 is complete', AND(ok, g) ^ 1, ieq(a.value, IntV(W, 1)) ^ 1, unk=OR(u, u2))


# ---------------------------------------------------------------- P06

FURTHER = {'GGA': (14,), 'RMC': (11,), 'GSA': (17,), 'VTG': (9,), 'GLL': (7,)}


def talkers(sc, kind, form=''):
    t = [sc.char7('t0'), sc.char7('t1')]
    src = enum(talker_cases(t, NAVSYS))
    p = sc.parser()
    if kind == 'GSV':
        if form == 'further':
            s = sc.text('$', t, 'GSV,1,1,01,07,11,222,33,,,,,,,,,,,,,', sc.char7('x'), ',', sc.char7('y'))
        elif form == 'numbers':
            n = [sc.digit('n%d' % i) for i in range(9)]
            sc.assume(ilt(n[0], ch(50)))
            s = sc.text('$', t, 'GSV,1,1,', n[7:], ',', n[:2], ',', n[2:4], ',,', n[4:6])
        else:
            s = sc.text('$', t, 'GSV,1,1,01,07,11,222,33')
        r = sc.parse(p, s)
        ok, u, v, ty = sc.into(r.v, r.ty, 'Ok')
        k, u2, d, dt = sc.into(v, ty, 'Gsv')
        sc.holds('GSV of any talker', AND(ok, k), unk=OR(u, u2))
        if d is not None:
            sc.expect('GSV: source', d, dt, Lst([(1, [Rec({'source': src})])]), AND(ok, k), site='source')
        return
    body = {'GGA': ',123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,', 'RMC': ',225446,A,4916.45,N,12311.12,W,000.5,054.7,191194,020.3,E',
            'GSA': ',A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3', 'VTG': ',360.0,T,348.7,M,000.0,N,000.0,K', 'GLL': ',4916.45,N,12311.12,W,225444,A'}[kind]
    if form == 'further':
        n = max(f for f in FURTHER[kind]) - body.count(',')
        tail = [',' * max(0, n)] + [x for i in range(3) for x in (',', sc.char7('x%d' % i))]
        s = sc.text('$', t, kind, body, tail)
    elif form == 'empty':
        s = sc.text('$', t, kind, ',' * 17)
    elif form == 'numbers':
        out = []
        for i, c in enumerate(body):
            out.append(sc.digit('n%d' % i) if c.isdigit() and kind in ('GSA', 'VTG') and body[:i].count(',') > 2 and not (kind == 'GSA' and body[i - 1] == ',' and body[:i].count(',') < 15) else c)
        if kind == 'GSA':
            out = [sc.pick_char('m%d' % i, '01') if c.isdigit() and 3 <= body[:i].count(',') < 15 and body[i - 1] == ',' else o for i, (c, o) in enumerate(zip(body, out))]
        if kind in ('GGA', 'RMC', 'GLL'):
            out = [sc.pick_char('n%d' % i, '01') if c.isdigit() and not (i and body[i - 1] == ',') else c for i, c in enumerate(body)]
        s = sc.text('$', t, kind, out)
    else:
        s = sc.text('$', t, kind, body)
    r = sc.parse(p, s)
    check(sc, r, kind, {'source': src}, 0)
