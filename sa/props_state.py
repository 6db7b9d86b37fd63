"""Scenarios about the state kept between sentences, checksums, sentence types and totality
(P01, P02, P03, P04, P05, P25-P29, P44)."""
import random
from .harness import *
from .ais_spec import *
from . import props_ais as A
from . import props_gnss as G
from . import models_ext, models_map
from .models_fmt import force
from .interp import Limit

W = 24


# ---------------------------------------------------------------- comparing values and states

def same(sc, sa, a, sb, b, care, depth=0):
    """(differ, unknown): where value a of state sa and value b of state sb are not the same."""
    if care == 0 or a is b:
        return 0, 0
    if a is None or b is None:
        return (0, 0) if a is b else (0, care)
    if isinstance(a, Cases) or isinstance(b, Cases):
        d = u = 0
        for g, x in alts(a):
            c = AND(care, g)
            if c == 0:
                continue
            for h, y in alts(b):
                c2 = AND(c, h)
                if c2:
                    e, f = same(sc, sa, x, sb, y, c2, depth)
                    d, u = OR(d, e), OR(u, f)
        return d, u
    if isinstance(a, Ref) and isinstance(b, Ref):
        if depth > 12:
            return 0, care
        return same(sc, sa, sc.I.load(sa, a), sb, sc.I.load(sb, b), care, depth + 1)
    if isinstance(a, FmtV) or isinstance(b, FmtV):
        if a.key() == b.key():
            return 0, 0
        return same(sc, sa, plain(sc, a, care), sb, plain(sc, b, care), care, depth)
    if type(a) is not type(b):
        return 0, care
    if isinstance(a, IntV):
        return AND(care, num_eq(a, b) ^ 1), 0
    if isinstance(a, FloatV):
        if a.key() == b.key():
            return 0, 0
        sc.D.state = sa
        return sc.D.flt1(a, b, care)
    if isinstance(a, StrV):
        if len(a.ch) != len(b.ch):
            return care, 0
        d = 0
        for x, y in zip(a.ch, b.ch):
            if x is not y:
                d = OR(d, ieq(IntV(32, None, x.bits[:32]), IntV(32, None, y.bits[:32])) ^ 1)
        return AND(care, d), 0
    if isinstance(a, AggV):
        if a.vi != b.vi:
            return (care, 0) if type(a.ty) is int else (0, care)
        if len(a.fs) != len(b.fs):
            return 0, care
        d = u = 0
        for x, y in zip(a.fs, b.fs):
            e, f = same(sc, sa, x, sb, y, care, depth)
            d, u = OR(d, e), OR(u, f)
        return d, u
    if isinstance(a, VecV):
        if len(a.es) != len(b.es):
            return care, 0
        d = u = 0
        for x, y in zip(a.es, b.es):
            e, f = same(sc, sa, x, sb, y, care, depth)
            d, u = OR(d, e), OR(u, f)
        return d, u
    if isinstance(a, MapV):
        d = u = 0
        n = 0
        while n < len(a.log) and n < len(b.log) and a.log[n] is b.log[n]:
            n += 1
        seen = set()
        for m in (a, b):
            for g, k, x in m.log[n:]:
                kk = k.key()
                c = AND(care, g)
                if c == 0 or kk in seen and g == 1:
                    continue
                seen.add(kk)
                p, va = models_map.present(sc.I, sa.with_pc(c), a, k)
                q, vb = models_map.present(sc.I, sb.with_pc(c), b, k)
                d = OR(d, AND(c, XOR(p, q)))
                both = AND(c, AND(p, q))
                if both:
                    e, f = same(sc, sa, va, sb, vb, both, depth)
                    d, u = OR(d, e), OR(u, f)
        za = a.ex if a.ex is not None else IntV(64, 0)
        zb = b.ex if b.ex is not None else IntV(64, 0)
        if za is not zb and any(bdd.weak_support(x) for x in za.bits + zb.bits):
            u = OR(u, care)     # an unknown number of further entries may be gone
        elif za is not zb:
            d = OR(d, AND(care, ieq(za, zb) ^ 1))
        return d, u
    if a.key() == b.key():
        return 0, 0
    return 0, care


def plain(sc, v, care):
    if not isinstance(v, FmtV):
        return v
    r = None
    for s, x in force(sc.I, State(care, {}), v):
        r = x if r is None else ite(s.pc, x, r)
    return r


class Snap:
    """The analysis state at some point of a history."""

    def __init__(self, sc, parser):
        self.sc, self.parser = sc, parser
        self.st = sc.st.with_pc(sc.st.pc)
        self.sents = list(sc.sentences)

    def go(self):
        """Continue from here."""
        self.sc.st = self.st.with_pc(self.st.pc)
        self.sc.sentences[:] = self.sents

    def value(self):
        return self.sc.I.load(self.st, self.parser)


def equal_states(sc, label, before, after, care, probes=()):
    """The retained state is the same; if its representation differs, the probes tell what that means."""
    care = AND(care, AND(before.st.pc, after.st.pc))
    d, u = same(sc, before.st, before.value(), after.st, after.value(), care)
    d, u = solid(d, u)
    if d == 0 and u == 0:
        sc.record(label + ': the retained state is the same', 0, 0)
        return
    sc.hint(d)
    if not d:
        sc.hint(u)
    for name, s in probes:
        b, _ = probe(sc, before, after, s, care)
        b, _ = solid(b, 0)
        if b:
            sc.st = after.st.with_pc(after.st.pc)
            sc.sentences[:] = after.sents + [(1, s)]
            sc.record('%s: the retained state is the same (%s parses differently afterwards)' % (label, name), b, 0, '', 'fn:parse_sentence')
            return
    sc.record(label + ': the retained state is the same (representation differs)', 0, OR(d, u))


def solid(d, u):
    """Differences that the input alone forces."""
    if d:
        ws = bdd.weak_support(d)
        if ws:
            d2 = bdd.exists(d ^ 1, set(ws)) ^ 1
            u = OR(u, AND(d, d2 ^ 1))
            d = d2
    return d, u


def probe(sc, a, b, s, care):
    """Where the sentence gives different results in the two states."""
    seen = len(sc.oblig)
    a.go()
    r1 = sc.parse(a.parser, s)
    s1 = sc.st
    b.go()
    r2 = sc.parse(b.parser, s)
    s2 = sc.st
    del sc.oblig[seen:]
    c = AND(care, AND(r1.pc, r2.pc))
    d, u = same(sc, s1, r1.v, s2, r2.v, c)
    return OR(d, AND(care, XOR(r1.pc, r2.pc))), u


def same_result(sc, label, sa, ra, sb, rb, care, site='fn:parse_sentence'):
    d, u = same(sc, sa, ra.v, sb, rb.v, AND(care, AND(ra.pc, rb.pc)))
    sc.record(label, d, u, '', site)


def many(sc, parser):
    """Any number of further pending entries (of other messages) in the maps of the parser."""
    n = IntV(64, None, tuple(reversed(sc.bits(20, 'pending.'))) + (0,) * 44)
    hit = [0]

    def walk(v):
        if isinstance(v, MapV):
            hit[0] += 1
            return MapV(v.log, n)
        if isinstance(v, AggV):
            return AggV(v.ty, v.vi, tuple(walk(x) for x in v.fs))
        return v
    sc.I.store(sc.st, parser, walk(sc.I.load(sc.st, parser)))
    if hit[0] == 0:
        raise Limit('the parser keeps no map')
    sc.pending = n


# ---------------------------------------------------------------- sentences

def is_ok(sc, r, name=None):
    """(guard, unknown) of Ok(name)."""
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    if name is None:
        return ok, u
    g, u2 = sc.variant_guard(v, t, name)
    return AND(ok, g), OR(u, AND(ok, u2))


def is_err(sc, r, name=None):
    er, u, v, t = sc.into(r.v, r.ty, 'Err')
    if name is None:
        return er, u
    g, u2 = sc.variant_guard(v, t, name)
    return AND(er, g), OR(u, AND(er, u2))


def delivered(sc, r):
    """(guard, unknown): Ok of anything but Incomplete."""
    ok, u, v, t = sc.into(r.v, r.ty, 'Ok')
    g, u2 = sc.variant_guard(v, t, 'Incomplete')
    return AND(ok, g ^ 1), OR(u, AND(ok, u2))


def six(n, w=6):
    return [(n >> (w - 1 - i)) & 1 for i in range(w)]


def pl(sc, mt, n, name, free=True, const=None):
    """Payload characters of a message of type mt."""
    bits = six(mt)
    for i in range(6, n * 6):
        if const is not None and i in const:
            bits.append(const[i])
        elif free is True or free and any(a <= i < b for a, b in free):
            bits.append(bdd.new_var('%s%d' % (name, i)))
        else:
            bits.append(0)
    return bits


def frag(sc, cnt, num, mid, chan, payload, kind='VDM', talker='AI'):
    if sc.envelope and talker == 'AI':
        if sc.talker is None:
            sc.talker = [sc.char7('t0'), sc.char7('t1')]
        return sc.signed(sc.text('!', sc.talker, kind, ',', cnt, ',', num, ',', mid, ',', chan, ',', payload, ',', sc.char7('fb%d' % len(sc.sentences))))
    return sc.text('!', talker, kind, ',', cnt, ',', num, ',', mid, ',', chan, ',', payload, ',0')


def hexdig(b):
    """Upper-case hexadecimal digit of four bits, least significant first."""
    v = IntV(32, None, tuple(b) + (0,) * 28)
    return ite(ilt(v, IntV(32, 10)), iadd(v, IntV(32, 48)), iadd(v, IntV(32, 55)))


def utf8(s):
    """Bytes of a text whose wide characters are constant."""
    out = []
    for c in s.ch:
        if c.c is not None and c.c > 127:
            out += [IntV(8, x) for x in chr(c.c).encode('utf8')]
        else:
            out.append(IntV(8, None, c.bits[:8]) if c.c is None else IntV(8, c.c))
    return out


def xor_digits(s):
    """The two checksum digits of a text (its first character left out)."""
    acc = [0] * 8
    for b in utf8(s)[1:]:
        acc = [XOR(x, y) for x, y in zip(acc, b.bits)]
    return hexdig(acc[4:]), hexdig(acc[:4])


# ---------------------------------------------------------------- P03

def checksum(sc, content, k, wide=None):
    """Content (an int: that many free characters), an asterisk and k free characters."""
    if type(content) is int:
        cs = [sc.char7('c%d' % i, exclude='') for i in range(content)]
        if wide is not None:
            cs[wide[0]] = ch(ord(wide[1]))
        body = sc.text(cs)
    elif callable(content):
        body = content(sc)
    else:
        body = sc.text(content)
    if k is None:
        # no asterisk
        for c in body.ch:
            sc.assume(ieq(c, ch(42)) ^ 1)
        r = sc.parse(sc.parser(), body)
        e, u = is_err(sc, r, 'CorruptedSentence')
        sc.holds('no asterisk: not rejected for the checksum', e ^ 1, unk=u)
        return
    ds = [sc.char7('d%d' % i, exclude='*') for i in range(k)]
    hi, lo = xor_digits(body)
    good = 1 if k == 0 else 0
    if k == 2:
        good = AND(ieq(ds[0], hi), ieq(ds[1], lo))
    r = sc.parse(sc.parser(), sc.text(body, '*', ds))
    e, u = is_err(sc, r, 'CorruptedSentence')
    if good:
        sc.holds('%s: not rejected for the checksum' % ('right digits' if k else 'no digits'), e ^ 1, good, unk=u)
    if good != 1:
        sc.holds('wrong digits: rejected as corrupted', e, good ^ 1, unk=u)
    return r, good


def gll_body(sc):
    mk = G.Mk(sc)
    la, h = mk.coord(2, 2)
    lo, e = mk.coord(3, 2)
    return sc.text('$', sc.char7('t0', exclude=','), sc.char7('t1', exclude=','), 'GLL,', la.parts, ',', h.parts, ',', lo.parts, ',', e.parts, ',', mk.dig('dddddd'), ',A')


def vdm_body(sc):
    return sc.text('!AIVDM,1,1,,A,', sc.payload(pl(sc, 1, 28, 'b', [(8, 38), (50, 90)])), ',0')


def accepted(sc, body, kind):
    """With the right digits the sentence is decoded; with an asterisk earlier in it, too."""
    r, good = checksum(sc, body, 2)
    ok, u = is_ok(sc, r, kind)
    sc.holds('right digits: the sentence is decoded', ok, good, unk=u)


def p03(tier):
    out = []
    for n in range(0, 7 if tier == 'quick' else 9):
        for k in (None, 0, 1, 2, 3, 4):
            if n == 0 and k is None:
                continue
            out.append(('%d free characters, %s' % (n, 'no asterisk' if k is None else '%d digits' % k), checksum, (n, k)))
    for c in '\u00e9\u20ac\U0001f6a2':
        for n, pos in ((2, 1), (4, 2), (5, 4)):
            for k in (1, 2, 3):
                out.append(('U+%04X in the sentence, %d digits' % (ord(c), k), checksum, (n, k, (pos, c))))
        for k in (2,):
            out.append(('U+%04X in the digits' % ord(c), wide_digits, (c,)))
    for k in (None, 0, 1, 3):
        out.append(('GLL sentence, %s' % ('no asterisk' if k is None else '%d digits' % k), checksum, (gll_body, k)))
        out.append(('AIS sentence, %s' % ('no asterisk' if k is None else '%d digits' % k), checksum, (vdm_body, k)))
    out.append(('GLL sentence', accepted, (gll_body, 'Gll')))
    out.append(('AIS sentence', accepted, (vdm_body, 'VesselDynamicData')))
    out.append(('several asterisks', asterisks, ()))
    for lead in CHECKED:
        for k in (1, 2, 3) if '*' in lead else (None, 1, 2, 3):
            out.append(('%s, %s' % (lead, 'no asterisk' if k is None else '%d digits' % k), checksum, (padded(lead, 0), k)))
    for lead in ('$GPGLL,4916.45,N,12311.12,W,225444,A,', '!AIVDM,1,1,,A,1', '!AIVDO,2,1,7,B,5', '$GPGSV,2,1,05,', '$GPTXT,', 'any'):
        for n in (40, 64, 80, 82, 100, 127, 128, 180, 255, 256, 300, 600):
            for k in (1, 2, 3) if n in (82, 300) else (2,):
                out.append(('%s and %d more characters, %d digits' % (lead, n, k), checksum, (padded(lead, n), k)))
    for mt in sorted(CHARS):
        out.append(('AIS type %d, 2 digits' % mt, checksum, (padded('!AIVDM,1,1,,A,' + chr(armor(mt)) + '0' * (CHARS[mt] - 2), 0), 2)))
    return out


CHECKED = ['$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,', '$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191194,020.3,E', '$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3',
           '$GPGSV,1,1,02,07,11,222,33,12,5,001,40', '$GPGSV,3,1,02,07,11,222,33', '$GPVTG,360.0,T,348.7,M,000.0,N,000.0,K', '$GPGLL,,,,,,V', '!AIVDM,1,1,,A,13aEOK?P00PD2wVMdLDRhgvL289?,0',
           '!AIVDO,1,1,,A,13aEOK?P00PD2wVMdLDRhgvL289?,0', '!AIVDM,2,1,3,A,53aEOK?P00PD2wVMdLDRhgvL289?,0', '!AIVDM,2,2,,A,5,0', '!AIVDM,x', '!AIVDM,1,1,,A,7', '!AIVDM,1,1,,A,~', '$GPHDT,1', '$GPXYZ,', '$', '!', '',
           '$GPGGA', '*', ',', '$PROPRIETARY,1', '$GPGGA,x,y,z,']


def armor(v):
    return v + 48 if v < 40 else v + 56


def padded(lead, n):
    """The text, n more characters and, first, in the middle and last, any character."""
    def f(sc):
        a, b, c = [sc.char7('p%d' % i, exclude='') for i in range(3)]
        return sc.text(lead, a, '0' * (n // 2), b, '0' * (n - n // 2), c)
    return f


def wide_digits(sc, c):
    body = sc.text('$GPGLL,,,,,,V')
    d = sc.char7('d', exclude='')
    for ds in ([ch(ord(c))], [d, ch(ord(c))], [ch(ord(c)), d]):
        sc.reset()
        sc.assume(ieq(d, ch(42)) ^ 1)
        r = sc.parse(sc.parser(), sc.text(body, '*', ds))
        e, u = is_err(sc, r, 'CorruptedSentence')
        sc.holds('wide digits: rejected as corrupted', e, unk=u)


def asterisks(sc):
    """The digits follow the last asterisk, whatever stands before it."""
    body = sc.text('$GPTXT,1*', sc.char7('x', exclude=''), sc.char7('y', exclude=''), ',*', sc.char7('z', exclude=''))
    hi, lo = xor_digits(body)
    r = sc.parse(sc.parser(), sc.text(body, '*', hi, lo))
    e, u = is_err(sc, r, 'CorruptedSentence')
    sc.holds('right digits after the last asterisk: not rejected for the checksum', e ^ 1, unk=u)


# ---------------------------------------------------------------- P05

GNSS_KINDS = {'GGA': 'Gga', 'RMC': 'Rmc', 'GSA': 'Gsa', 'GSV': 'Gsv', 'VTG': 'Vtg', 'GLL': 'Gll'}
RESTS = {'GNSS': ',,,,,,,,,,,,,,,,,,', 'GSV': ',1,1,00,,,,', 'AIS': ',1,1,,A,1000000000000000000000000000,0'}


def word(cs, text):
    e = 1
    for c, t in zip(cs, text):
        e = AND(e, ieq(c, ch(ord(t))))
    return e


def sentence_type(sc, n, rest, wide=None):
    cs = [sc.char7('c%d' % i) for i in range(n)]
    if wide is not None:
        cs[wide[0]] = ch(ord(wide[1]))
    r = sc.parse(sc.parser(), sc.text(cs, RESTS[rest]))
    known = 0
    if n == 6 and wide is None:
        for k, name in GNSS_KINDS.items():
            e = AND(ieq(cs[0], ch(36)), word(cs[3:], k))
            known = OR(known, e)
            if (k == 'GSV') == (rest == 'GSV') and rest != 'AIS':
                ok, u = is_ok(sc, r, name)
                sc.holds('%s of any talker yields its kind' % k, ok, e, unk=u)
            else:
                # another kind of result is never right
                ok, u = is_ok(sc, r)
                g, u2 = is_ok(sc, r, name)
                inc, u3 = is_ok(sc, r, 'Incomplete')
                sc.holds('%s never yields another kind' % k, OR(ok ^ 1, OR(g, inc if k == 'GSV' else 0)), e, unk=OR(u, OR(u2, u3)))
        e = AND(ieq(cs[0], ch(33)), OR(word(cs[3:], 'VDM'), word(cs[3:], 'VDO')))
        known = OR(known, e)
        if rest == 'AIS':
            ok, u = is_ok(sc, r, 'VesselDynamicData')
            sc.holds('VDM/VDO yields an AIS result', ok, e, unk=u)
        else:
            ok, u = is_ok(sc, r)
            g = 0
            for name in GNSS_KINDS.values():
                x, u2 = is_ok(sc, r, name)
                g = OR(g, x)
                u = OR(u, u2)
            sc.holds('VDM/VDO yields no GNSS result', g ^ 1, e, unk=u)
    e, u = is_err(sc, r, 'UnsupportedSentenceType')
    sc.holds('every other type is rejected as unsupported', e, known ^ 1, unk=u)


def no_comma(sc, n, star=False):
    cs = [sc.char7('c%d' % i) for i in range(n)]
    body = sc.text(cs)
    if star:
        hi, lo = xor_digits(body)
        body = sc.text(body, '*', hi, lo)
    r = sc.parse(sc.parser(), body)
    e, u = is_err(sc, r, 'InvalidSentence')
    sc.holds('a sentence without comma is rejected as invalid', e, unk=u)


def case_variants(sc, rest):
    """Any mixture of letter case in a known type."""
    for k in (GNSS_KINDS if rest != 'AIS' else ('VDM', 'VDO')):
        sc.reset()
        lead = '!' if rest == 'AIS' else '$'
        b = sc.bits(3, k)
        t = [ite(x, ch(ord(c.lower())), ch(ord(c))) for x, c in zip(b, k)]
        r = sc.parse(sc.parser(), sc.text(lead, 'GP', t, RESTS[rest]))
        e, u = is_err(sc, r, 'UnsupportedSentenceType')
        sc.holds('%s in lower-case letters is rejected as unsupported' % k, e, OR(b[0], OR(b[1], b[2])), unk=u)


def p05():
    out = []
    for rest in RESTS:
        for n in range(0, 9):
            out.append(('type of %d free characters, %s fields' % (n, rest), sentence_type, (n, rest)))
        for n in (4, 5, 6, 7):
            for pos in (n - 1, n - 2, n - 3):
                out.append(('type of %d characters with a wide one at %d, %s fields' % (n, pos, rest), sentence_type, (n, rest, (pos, '\u00e9'))))
        out.append(('letter case, %s fields' % rest, case_variants, (rest,)))
    for n in range(0, 10):
        out.append(('%d characters, no comma' % n, no_comma, (n,)))
        out.append(('%d characters, no comma, checksum' % n, no_comma, (n, True)))
    return out


# ---------------------------------------------------------------- other sentences, histories

OTHERS = [
    '$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,',
    '$GNRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191194,020.3,E',
    '!AIVDM,1,1,,A,1000000000000000000000000000,0',
    '!AIVDM,1,1,,B,9000000000000000000000000000,0',
    '$GLGSV,2,1,08,65,10,100,40',
    '$GPXXX,1,2,3',
    '!AIVDM,2,x,1,A,1000,0',
    '$GPGLL,4916.45,N,12311.12,W,225444,A*00',
    'nothing',
    '!AIVDM,3,1,1,A,1000,0',
    '!AIVDM,2,3,1,A,1000,0',
    '!AIVDM,1,1,,A,20,0',
    '!AIVDM,1,1,,A,~~~,0',
    '!AIVDM,1,1,,A,80,0',
    '$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3',
    '$GPVTG,360.0,T,348.7,M,000.0,N,000.0,K',
    '$GPGSV,1,1,01,07,11,222,33',
    '$GPGSV,2,3,01,07,11,222,33',
]


def others(sc, p, which=None):
    for i, s in enumerate(OTHERS):
        if which is None or i in which:
            sc.parse(p, sc.text(s))


class Hist:
    """A symbolic history: a fragment, a GSV sentence and a class B part wait for their other parts."""

    def __init__(self, sc, p, name='h', free=True, talker=None, pre={}):
        """pre: bits to use for the message id (i), channel (c) and MMSI (m)."""
        d = sc.digit
        self.num = sc.pick_char(name + 'n', '12') if free else ch(49)
        self.mid = d(name + 'i', pre.get('i')) if free else ch(55)
        self.chan = sc.char7(name + 'c', bs=pre.get('c')) if free else ch(66)
        self.kind = ['VD', sc.pick_char(name + 'k', 'MO')] if free else ['VDM']
        self.frag = frag(sc, '2', self.num, self.mid, self.chan, sc.payload(six(1) + sc.bits(18, name + 'f')), self.kind)
        self.frag_rest = frag(sc, '2', ite(ieq(self.num, ch(49)), ch(50), ch(49)), self.mid, self.chan,
                              sc.payload(six(1) + [0] * 156), self.kind)
        sc.parse(p, self.frag)
        if free and talker is None:
            r0, r1 = sc.rows(2, 7, name + 't0'), sc.rows(2, 7, name + 't1')
            self.tk = [sc.char7(name + 't0', exclude=',*', bs=r0[0]), sc.char7(name + 't1', exclude=',*', bs=r1[0])]
            self.other_tk = (r0[1], r1[1])
        else:
            self.tk = talker or 'GA'
        self.gn = sc.pick_char(name + 'g', '12') if free else ch(49)
        prn = [d(name + 'p'), d(name + 'q')] if free else '07'
        self.gsv = sc.text('$', self.tk, 'GSV,2,', self.gn, ',05,', prn, ',10,100,40')
        self.gsv_rest = sc.text('$', self.tk, 'GSV,2,', ite(ieq(self.gn, ch(49)), ch(50), ch(49)), ',05,09,10,100,40')
        sc.parse(p, self.gsv)
        part = sc.bits(1, name + 'ab')[0] if free else 0
        m = (pre.get('m') or sc.bits(30, name + 'm')) if free else six(123456789, 30)
        t = [sc.bits(6, name + 'x') if free else six(5)]
        self.mmsi = m
        self.part = part
        self.t24 = sc.text('!AIVDM,1,1,,A,', sc.payload(six(24) + [0, 0] + m + [0, part] + t[0] + [0] * 122), ',0')
        self.t24_rest = sc.text('!AIVDM,1,1,,A,', sc.payload(six(24) + [0, 0] + m + [0, part ^ 1] + t[0] + [0] * 122), ',0')
        sc.parse(p, self.t24)

    def probes(self):
        return [('the waiting fragment', self.frag_rest), ('the waiting GSV message', self.gsv_rest), ('the waiting class B part', self.t24_rest),
                ('a fragment', self.frag), ('a GSV sentence', self.gsv), ('a class B part', self.t24)]


# ---------------------------------------------------------------- P04

def untouched(sc, make, label, times=1):
    """make(sc, hist) -> (sentence, which results count as a rejection of interest); times: how often it comes in a row."""
    p = sc.parser()
    many(sc, p)
    h = Hist(sc, p)
    s, why = make(sc, h)
    before = Snap(sc, p)
    e, u = 1, 0
    for _ in range(times):
        r = sc.parse(p, s)
        e1, u1 = is_err(sc, r, why)
        e, u = AND(e, e1), OR(u, u1)
    after = Snap(sc, p)
    sc.holds('%s: the rejection occurs' % label, boolv(1).bits[0] if e else 0, unk=u)
    equal_states(sc, label, before, after, e, h.probes() + extra_probes(sc, h))


def extra_probes(sc, h):
    return [('fragment 2', frag(sc, '2', '2', h.mid, h.chan, sc.payload(six(1) + [0] * 156), h.kind)),
            ('fragment 1', frag(sc, '2', '1', h.mid, h.chan, sc.payload(six(1) + [0] * 156), h.kind)),
            ('GSV 1 of 2', sc.text('$', h.tk, 'GSV,2,1,05,09,10,100,40')),
            ('GSV 2 of 2', sc.text('$', h.tk, 'GSV,2,2,05,09,10,100,40'))]


def corrupt(which, n=2):
    def make(sc, h):
        s = {'frag': h.frag_rest, 'gsv': h.gsv_rest, 't24': h.t24_rest, 'frag again': h.frag, 'gsv again': h.gsv, 't24 again': h.t24}[which]
        ds = [sc.char7('d%d' % i, exclude='*') for i in range(n)]
        return sc.text(s, '*', ds), 'CorruptedSentence'
    return make


def unsupported(rest, lead):
    def make(sc, h):
        t = [sc.char7('u%d' % i) for i in range(3)]
        tk = [sc.char7('v0', bs=h.other_tk[0]), sc.char7('v1', bs=h.other_tk[1])]
        return sc.text(lead, tk, t, rest), 'UnsupportedSentenceType'
    return make


def untyped(n):
    def make(sc, h):
        cs = [sc.char7('u%d' % i) for i in range(n)]
        return sc.text(cs), 'InvalidSentence'
    return make


def bad_header(form):
    def make(sc, h):
        x = sc.char7('x0')
        sc.assume(AND(ilt(x, ch(48)) ^ 1, ilt(ch(57), x) ^ 1) ^ 1)
        pay = sc.payload(six(1) + [0] * 156)
        if form == 'count':
            return frag(sc, x, '2', h.mid, h.chan, pay, h.kind), None
        if form == 'number':
            return frag(sc, '2', x, h.mid, h.chan, pay, h.kind), None
        if form == 'number 2':
            return frag(sc, '2', [ch(50), x], h.mid, h.chan, pay, h.kind), None
        if form == 'no count':
            return frag(sc, '', '2', h.mid, h.chan, pay, h.kind), None
        if form == 'no number':
            return frag(sc, '2', '', h.mid, h.chan, pay, h.kind), None
        if form == 'big number':
            return frag(sc, '2', '258', h.mid, h.chan, pay, h.kind), None
        if form == 'gsv count':
            return sc.text('$', h.tk, 'GSV,', x, ',2,05,09,10,100,40'), None
        if form == 'gsv number':
            return sc.text('$', h.tk, 'GSV,2,', x, ',05,09,10,100,40'), None
        if form == 'gsv number range':
            return sc.text('$', h.tk, 'GSV,2,', sc.pick_char('y', '03456789'), ',05,09,10,100,40'), None
        if form == 'gsv empty':
            return sc.text('$', h.tk, 'GSV,,,05,09,10,100,40'), None
        if form == 't24 part':
            return sc.text('!AIVDM,1,1,,A,', sc.payload(six(24) + [0, 0] + h.mmsi + [1] + sc.bits(1, 'pb') + [0] * 128), ',0'), None
        raise KeyError(form)
    return make


def p04():
    out = []
    for w in ('frag', 'gsv', 't24', 'frag again', 'gsv again', 't24 again'):
        for n in (1, 2, 3):
            out.append(('corrupted: %s, %d digits' % (w, n), untouched, (corrupt(w, n), 'corrupted')))
    for lead in '$!':
        for rest in (',2,2,05,09,10,100,40', ',2,2,7,B,1000,0', ',1,1,,A,H000000000000000000000000000,0'):
            out.append(('unsupported type %s%s' % (lead, rest), untouched, (unsupported(rest, lead), 'unsupported type')))
            for n in (20, 83, 300):
                out.append(('unsupported type %s%s, %d more characters' % (lead, rest, n), untouched, (unsupported(rest + '1' * n, lead), 'unsupported type')))
    for n in (0, 1, 5, 8, 90):
        out.append(('%d characters, no comma' % n, untouched, (untyped(n), 'no type')))
    for f in ('count', 'number', 'number 2', 'no count', 'no number', 'big number', 'gsv count', 'gsv number', 'gsv number range', 'gsv empty', 't24 part'):
        out.append(('malformed header: %s' % f, untouched, (bad_header(f), 'malformed ' + f)))
    for k in (2, 3, 4, 5, 12):
        out.append(('corrupted, %d in a row' % k, untouched, (corrupt('gsv'), 'corrupted', k)))
        out.append(('corrupted fragment, %d in a row' % k, untouched, (corrupt('frag'), 'corrupted', k)))
        out.append(('unsupported type, %d in a row' % k, untouched, (unsupported(',2,2,7,B,1000,0', '$'), 'unsupported', k)))
        out.append(('no comma, %d in a row' % k, untouched, (untyped(5), 'no type', k)))
        for f in ('count', 'gsv number', 't24 part'):
            out.append(('malformed header: %s, %d in a row' % (f, k), untouched, (bad_header(f), 'malformed ' + f, k)))
    return out


# ---------------------------------------------------------------- P25

def pair(sc, mt, n, split, order, inter=(), mid='d', chan='c', kind='M', lots=False, before=(), between=None):
    """before: splits of messages with the same id and channel put together before; between: parts that arrive in between."""
    store = []

    def make():
        return A.ais_bits(sc, mt, n, inter=A.ETA if mt == 5 else None, zero=((272, 276),) if mt == 21 else ())
    if before:
        with bdd.twins('make', store):
            bits = make()
    else:
        bits = make()
    cs = sc.payload(bits)
    i = [sc.digit('i%d' % k) for k in range(len(mid))] if set(mid) == {'d'} else mid
    c = sc.char7('ch') if chan == 'c' else chan
    k = ['VD', sc.pick_char('k', 'MO')] if kind == 'x' else 'VD' + kind
    f1 = frag(sc, '2', '1', i, c, cs[:split], k)
    f2 = frag(sc, '2', '2', i, c, cs[split:], k)
    p = sc.parser()
    if lots:
        many(sc, p)
    if before:
        with bdd.twins('use', store):
            cs0 = sc.payload(make())
        for k0 in before:
            r = sc.parse(p, frag(sc, '2', '1', i, c, cs0[:k0], k))
            r = sc.parse(p, frag(sc, '2', '2', i, c, cs0[k0:], k))
    lab = 'type %d split at %d' % (mt, split)
    a, b = (f1, f2) if order == 12 else (f2, f1)
    ra = sc.parse(p, a)
    g, u = is_ok(sc, ra, 'Incomplete')
    sc.holds(lab + ': the first fragment yields incomplete', g, unk=u, info='fn:parse_sentence')
    others(sc, p, inter)
    for x in between(sc, None) if between else ():
        sc.parse(p, x)
    rb = sc.parse(p, b)
    sb = sc.st
    whole = sc.text('!', sc.talker or 'AI', k, ',1,1,,', c, ',', cs, ',0')
    sents = list(sc.sentences)
    sc.st = State(1, {})
    rw = sc.parse(sc.parser(), whole)
    sw = sc.st
    sc.sentences = sents
    g, u = is_ok(sc, rb, 'Incomplete')
    sc.record(lab + ': the second fragment completes the message', g, u, '', 'fn:parse_sentence')
    same_result(sc, lab + ': result of the concatenated payload', sb, rb, sw, rw, 1)


def p25(tier):
    out = []
    for o in (12, 21):
        for mt, n, splits in ((1, 28, (1, 14, 27)), (5, 71, (1, 39, 56, 62, 70)), (4, 28, (9,)), (18, 28, (20,)), (9, 28, (3,)),
                              (27, 16, (8,)), (6, 60, (50,)), (21, 46, (31,)), (10, 12, (6,)), (8, 28, (14,)), (0, 20, (10,))):
            for s in splits:
                out.append(('type %d, split %d, order %d' % (mt, s, o), pair, (mt, n, s, o)))
        out.append(('other sentences in between, order %d' % o, pair, (1, 28, 14, o, tuple(range(len(OTHERS))))))
        out.append(('other sentences in between, type 5, order %d' % o, pair, (5, 71, 56, o, tuple(range(len(OTHERS))), '8', 'B')))
        out.append(('any channel, both types, order %d' % o, pair, (1, 28, 14, o, (), 'd', 'c', 'x')))
        for m in ('0', 'dd', 'ddd', 'dddd', '18446744073709551615', '4294967296', '300'):
            out.append(('message id %s, order %d' % (m, o), pair, (1, 28, 14, o, (), m)))
        for c in ('', 'AB', '1'):
            out.append(('channel "%s", order %d' % (c, o), pair, (1, 28, 14, o, (), 'd', c)))
        out.append(('any number of pending messages, order %d' % o, pair, (1, 28, 14, o, (), 'd', 'c', 'x', True)))
        for mt, n, s, b in ((1, 28, 14, (14,)), (5, 71, 56, (56, 30)), (18, 28, 14, (20, 14)), (6, 28, 14, (14,)), (8, 28, 14, (14,))):
            out.append(('type %d after others with the same id, order %d' % (mt, o), pair, (mt, n, s, o, (), 'd', 'c', 'M', False, b)))
        for kind in ('frag', 'gsv', 't24', 'done'):
            out.append(('%d parts (%s) in between, order %d' % (LONG, kind, o), pair, (1, 28, 14, o, (), '7', 'B', 'M', False, (), many_of(kind, LONG))))
    return out


# ---------------------------------------------------------------- P26

class Fr:
    pass


def mixed(sc, names, head=None, mids=None, chans=None, nums='0123456789', pay=None):
    """Fragments with free count, number, message id, channel and kind."""
    fs = []
    for n in names:
        f = Fr()
        f.name = n
        fs.append(f)
    for f in fs:
        f.cnt = sc.digit('n' + f.name) if head is None else ch(50)
    for f in fs:
        f.num = sc.digit('x' + f.name)
    for f in fs:
        f.mid = sc.digit('i' + f.name)
    for f in fs:
        f.k = sc.pick_char('k' + f.name, 'MO')
    # channels: bits side by side
    bs = {f.name: [] for f in fs}
    for i in range(7):
        for f in fs:
            bs[f.name].append(bdd.new_var('c%s%d' % (f.name, i)))
    for f in fs:
        f.chan = IntV(32, None, tuple(reversed(bs[f.name])) + (0,) * 25)
        for x in ',*':
            sc.assume(ieq(f.chan, ch(ord(x))) ^ 1)
        f.text = frag(sc, f.cnt, f.num, f.mid, f.chan, '1' + f.name.lower() * 13 if pay is None else pay[names.index(f.name)], ['VD', f.k])
        f.two = ieq(f.cnt, ch(50))
        f.one = ieq(f.cnt, ch(49))
    return fs


def match(a, b):
    def n(x, k):
        return ieq(x.num, ch(48 + k))
    e = OR(AND(n(a, 1), n(b, 2)), AND(n(a, 2), n(b, 1)))
    for x, y in ((a.mid, b.mid), (a.k, b.k), (a.chan, b.chan)):
        e = AND(e, ieq(x, y))
    return AND(e, AND(a.two, b.two))


def mix(sc, n, head=None, lots=False, pay=None):
    fs = mixed(sc, 'ABC'[:n], head, pay=pay)
    p = sc.parser()
    if lots:
        many(sc, p)
    done = 0
    prev = []
    for f in fs:
        r = sc.parse(p, f.text)
        g, u = delivered(sc, r)
        e = 0
        for q in prev:
            e = OR(e, match(q, f))
        # a third fragment after two that completed each other finds nothing
        e = AND(e, done ^ 1)
        lab = 'fragment %s' % f.name
        sc.record('%s: never completes with a fragment that does not belong to it' % lab, AND(AND(sc.st.pc, g), OR(f.one, e) ^ 1), u, '', 'fn:parse_sentence')
        sc.holds('%s: completes with its counterpart' % lab, g, e, unk=u)
        done = OR(done, e)
        prev.append(f)


def never(sc, texts, label):
    """None of the sentences completes a message."""
    p = sc.parser()
    for i, t in enumerate(texts(sc)):
        r = sc.parse(p, t)
        g, u = delivered(sc, r)
        sc.record('%s: sentence %d completes nothing' % (label, i + 1), AND(sc.st.pc, g), u, '', 'fn:parse_sentence')


P14 = '1' + '3' * 13


def ids(a, b):
    """Different message ids of the given digit patterns (no leading zeros)."""
    def f(sc):
        rows = [sc.rows(2, 4, 'd%d.' % i) for i in range(max(len(a), len(b)))]

        def mk(p, n):
            return [sc.digit('', rows[i][n]) if c == 'd' else ch(ord(c)) for i, c in enumerate(p)]
        x, y = mk(a, 0), mk(b, 1)
        for z in (x, y):
            if len(z) > 1:
                sc.assume(ieq(z[0], ch(48)) ^ 1)
        if len(x) == len(y):
            e = 1
            for u, v in zip(x, y):
                e = AND(e, ieq(u, v))
            sc.assume(e ^ 1)
        c = sc.char7('c')
        return [frag(sc, '2', '1', x, c, P14), frag(sc, '2', '2', y, c, P14)]
    return f


def chans(n, m, ida='d', idb='d'):
    """Channels of different lengths, ids of different lengths: the texts may run together."""
    def f(sc):
        x = [sc.char7('x%d' % i) for i in range(n)]
        y = [sc.char7('y%d' % i) for i in range(m)]
        i = [sc.digit('i%d' % k) for k in range(len(ida))]
        j = [sc.digit('j%d' % k) for k in range(len(idb))]
        for z in (i, j):
            if len(z) > 1:
                sc.assume(ieq(z[0], ch(48)) ^ 1)
        return [frag(sc, '2', '1', i, x, P14), frag(sc, '2', '2', j, y, P14)]
    return f


def noid(a, b):
    def f(sc):
        c = sc.char7('c')
        d = sc.digit('i')
        m = {'': '', 'd': d, 'x': 'x', '-': '-1'}
        return [frag(sc, '2', '1', m[a], c, P14), frag(sc, '2', '2', m[b], c, P14)]
    return f


def multi(sc):
    """Messages of three to nine fragments are never completed."""
    n = sc.pick_char('n', '3456789')
    d, c = sc.digit('i'), sc.char7('c')
    return [frag(sc, n, str(k), d, c, P14) for k in (1, 2, 3)]


def counts(sc):
    n = [sc.digit('n0'), sc.digit('n1'), sc.digit('n2')]
    m = [sc.digit('m0'), sc.digit('m1'), sc.digit('m2')]
    # not 001 and not 002
    for x in (n,):
        z = AND(ieq(x[0], ch(48)), ieq(x[1], ch(48)))
        sc.assume(AND(z, OR(ieq(x[2], ch(49)), ieq(x[2], ch(50)))) ^ 1)
    return [frag(sc, n, '1', '4', 'A', P14), frag(sc, n, '2', '4', 'A', P14), frag(sc, n, m, '4', 'A', P14)]


def numbers(sc):
    m = [sc.digit('m0'), sc.digit('m1'), sc.digit('m2')]
    z = AND(ieq(m[0], ch(48)), ieq(m[1], ch(48)))
    sc.assume(AND(z, OR(ieq(m[2], ch(49)), ieq(m[2], ch(50)))) ^ 1)
    k = sc.pick_char('k', '12')
    return [frag(sc, '2', k, '4', 'A', P14), frag(sc, '2', m, '4', 'A', P14)]


def twice(sc):
    k = sc.pick_char('k', '12')
    d, c = sc.digit('i'), sc.char7('c')
    return [frag(sc, '2', k, d, c, P14), frag(sc, '2', k, d, c, P14), frag(sc, '2', k, d, c, '1' + '5' * 13)]


def repeats(pays):
    """The same fragment again, with those payloads."""
    def f(sc):
        k = sc.pick_char('k', '12')
        d, c = sc.digit('i'), sc.char7('c')
        return [frag(sc, '2', k, d, c, x) for x in pays]
    return f


def gsv_and_ais(sc):
    """A GSV sentence is no fragment, whatever its fields are."""
    return [sc.text('$GPGSV,2,1,05,09,10,100,40'), frag(sc, '2', '2', '05', '09', P14), frag(sc, '2', '1', '10', '1', P14), sc.text('$GLGSV,2,2,05,09,10,100,40')]


def p26(tier):
    out = [('two fragments', mix, (2,)), ('two fragments, many pending', mix, (2, None, True)), ('three fragments of two', mix, (3, '2'))]
    for a, b in (('d', 'd'), ('d', 'dd'), ('dd', 'd'), ('dd', 'dd'), ('ddd', 'ddd'), ('dd', 'ddd'), ('d', 'ddd'), ('dddd', 'dddd')):
        out.append(('message ids %s and %s' % (a, b), never, (ids(a, b), 'different message ids')))
    for a, b in (('1', '257'), ('1', '65537'), ('1', '4294967297'), ('18446744073709551615', '18446744073709551614'), ('4294967295', '4294967296'),
                 ('255', '511'), ('0', '256'), ('0', '65536'), ('0', '4294967296')):
        out.append(('message ids %s and %s' % (a, b), never, (ids(a, b), 'different message ids')))
        out.append(('message ids %s and %s' % (b, a), never, (ids(b, a), 'different message ids')))
    for n, m, i, j in ((0, 1, 'd', 'd'), (1, 0, 'd', 'd'), (1, 2, 'd', 'd'), (2, 1, 'd', 'd'), (1, 2, 'dd', 'd'), (2, 1, 'd', 'dd'), (0, 2, 'd', 'd'), (2, 3, 'd', 'd')):
        out.append(('channels of %d and %d characters, ids %s and %s' % (n, m, i, j), never, (chans(n, m, i, j), 'different channels')))
    for a, b in (('', ''), ('', 'd'), ('d', ''), ('x', 'x'), ('-', '-'), ('x', ''), ('d', 'x')):
        out.append(('message ids "%s" and "%s"' % (a, b), never, (noid(a, b), 'missing message id')))
    out += [('more than two fragments', never, (multi, 'more than two')), ('other counts', never, (counts, 'other counts')),
            ('other numbers', never, (numbers, 'other numbers')), ('repeated fragments', never, (twice, 'repeated')),
            ('GSV sentences', never, (gsv_and_ais, 'GSV'))]
    one, full, text = '1', P14 * 2, 'w' * 7
    for x, y, z in (('', P14, ''), (P14, '', ''), ('', '', ''), (P14, '', P14), ('', P14, P14), (one, P14, one), (P14, one, P14), (full, full, full), (full, P14, full),
                    ('', full, ''), (full, '', full), (text, P14, text), ('0', P14, '0'), (P14, text, text), ('00000', '00000', '00000')):
        out.append(('the same fragment, payloads "%s", "%s" and "%s"' % (x, y, z), never, (repeats((x, y, z)), 'repeated')))
    for x, y in (('', P14), (P14, ''), (one, one), (one, ''), ('', one), (full, full), (P14, P14), (one, full)):
        out.append(('two fragments of payloads "%s" and "%s"' % (x, y), mix, (2, None, False, (x, y))))
    return out


# ---------------------------------------------------------------- P27

def leaves_nothing(sc, what, order, free=True):
    p = sc.parser()
    many(sc, p)
    ri = sc.rows(2, 4, 'i') if what == 'ais' else [None] * 2
    rc = sc.rows(2, 7, 'c') if what == 'ais' else [None] * 2
    rm = sc.rows(2, 30, 'm') if what == 't24' else [None] * 2
    h = Hist(sc, p, free=free, pre={'i': ri[0], 'c': rc[0], 'm': rm[0]})
    if what == 'ais':
        i, c = sc.digit('i', ri[1]), sc.char7('c', bs=rc[1])
        k = ['VD', sc.pick_char('k', 'MO')]
        # another message than the waiting one
        e = AND(ieq(i, h.mid), ieq(c, h.chan))
        sc.assume(e ^ 1)
        cs = sc.payload(six(1) + [0, 0] + sc.bits(30, 'b') + [0] * 130)
        parts = [frag(sc, '2', '1', i, c, cs[:14], k), frag(sc, '2', '2', i, c, cs[14:], k)]
        again = [frag(sc, '2', '1', i, c, cs[14:], k), frag(sc, '2', '2', i, c, cs[:14], k)]
    elif what == 'ais5':
        cs = sc.payload(six(5) + [0, 0] + sc.bits(30, 'b') + [0] * 388)
        i = [sc.digit('i'), sc.digit('j')]
        sc.assume(ieq(i[0], ch(48)) ^ 1)
        parts = [frag(sc, '2', '1', i, 'A', cs[:56]), frag(sc, '2', '2', i, 'A', cs[56:])]
        again = list(reversed(parts))
    elif what.startswith('gsv'):
        n = int(what[3:])
        mk = G.Mk(sc)
        parts = []
        tk = ['G', sc.char7('t')]
        for j in range(n):
            pr, sp, g = G.gsv_block(mk)
            parts.append(sc.text('$', tk, 'GSV,%d,%d,%02d' % (n, j + 1, n), pr))
        # another talker than the waiting one
        hk = h.tk if free else [ch(ord(c)) for c in h.tk]
        sc.assume(AND(ieq(ch(ord('G')), hk[0]), ieq(tk[1], hk[1])) ^ 1)
        again = parts
    else:
        m = rm[1]
        sc.assume(eqbits(m, h.mmsi) ^ 1)
        parts = [sc.text('!AIVDM,1,1,,A,', sc.payload(six(24) + [0, 0] + m + [0, b] + sc.bits(6, 'nm%d' % b) + [0] * 122), ',0') for b in (0, 1)]
        again = parts
    before = Snap(sc, p)
    seq = [parts[j] for j in order]
    for s in seq[:-1]:
        r = sc.parse(p, s)
        g, u = is_ok(sc, r, 'Incomplete')
        sc.holds('%s: a part alone is incomplete' % what, g, unk=u)
    r = sc.parse(p, seq[-1])
    g, u = delivered(sc, r)
    sc.holds('%s: the last part completes the message' % what, g, unk=u)
    after = Snap(sc, p)
    full = g
    for j, s in enumerate(parts):
        if len(parts) == 1:
            break
        after.go()
        r = sc.parse(p, s)
        g, u = is_ok(sc, r, 'Incomplete')
        sc.holds('%s: part %d again is incomplete' % (what, j + 1), g, full, unk=u)
    for j, (name, s) in enumerate(h.probes()[:3]):
        after.go()
        r = sc.parse(p, s)
        g, u = delivered(sc, r)
        sc.holds('%s: %s still completes' % (what, name), g, full, unk=u)
    equal_states(sc, '%s: after delivery' % what, before, after, full, h.probes() + [('part %d' % (j + 1), s) for j, s in enumerate(again)])


def not_dropped(sc, i):
    """Unrelated sentences drop nothing."""
    p = sc.parser()
    many(sc, p)
    h = Hist(sc, p, free=False)
    if i is None:
        others(sc, p)
    elif type(i) is int:
        others(sc, p, (i,))
    else:
        for s in i(sc, h):
            sc.parse(p, s)
    after = Snap(sc, p)
    for name, s in h.probes()[:3]:
        after.go()
        r = sc.parse(p, s)
        g, u = delivered(sc, r)
        sc.holds('%s still completes' % name, g, unk=u)


def many_of(kind, n):
    """n further parts, each of a message of its own."""
    def f(sc, h):
        for j in range(n):
            if kind == 'frag':
                yield frag(sc, '2', str(1 + j % 2), str(100 + j), 'A', '1000')
            elif kind == 'gsv':
                yield sc.text('$GPGSV,%d,%d,05,09,10,100,40' % (3 + j // 2, 1 + j % 2))
            elif kind == 'done':
                i = str(100 + j // 2 % 5)
                yield frag(sc, '2', str(1 + j % 2), i, 'A', P14)
            else:
                yield sc.text('!AIVDM,1,1,,A,', sc.payload(six(24) + [0, 0] + six(200000000 + j, 30) + [0, j % 2] + [0] * 128), ',0')
    return f


LONG = 300


def over(sc, what, kind, n):
    """A message whose parts have n sentences between them."""
    mk = G.Mk(sc)
    p = sc.parser()
    if what == 't24':
        m = sc.bits(10, 'm')
        m = six(123456, 20) + m
        a, s1 = t24(sc, m, 0, 'a')
        b, s2 = t24(sc, m, 1, 'b')
    else:
        pa, sa, g = G.gsv_block(mk)
        pb, sb, g2 = G.gsv_block(mk)
        s1 = sc.text('$GPGSV,2,1,02', pa)
        s2 = sc.text('$GPGSV,2,2,02', pb)
    r = sc.parse(p, s1)
    g0, u = is_ok(sc, r, 'Incomplete')
    sc.holds('the first part is incomplete', g0, unk=u)
    for x in many_of(kind, n)(sc, None):
        sc.parse(p, x)
    r = sc.parse(p, s2)
    if what == 't24':
        g0, fs = A.data(sc, r, 'VesselStaticData', 'after %d sentences' % n)
        if g0:
            A.check_fields(sc, g0, fs, spec24(Pl(a), Pl(b)), 'after %d sentences' % n)
    else:
        G.gsv_result(sc, r, G.gsv_list([(sa, g), (sb, g2)]), 'after %d sentences' % n)


def once_more(sc, fn, *args):
    """The scenario twice with one parser: with other content the first time."""
    store = []
    sc.one_parser = True
    with bdd.twins('make', store):
        fn(sc, *args)
    with bdd.twins('use', store):
        fn(sc, *args)


def gsv_text(n, j, ps):
    return ['$GPGSV,%d,%d,%02d' % (n, j, n % 100), ps]


def pending_over(sc, n, done):
    """A GSV message of n sentences of which all but one are there; then others of the talker complete."""
    mk, fixed = G.Mk(sc), G.Mk(sc, False)
    parts, blocks = [], []
    for j in range(n):
        ps, sp, g = G.gsv_block(mk if j in (0, n // 2, n - 1) else fixed)
        parts.append(sc.text(gsv_text(n, j + 1, ps)))
        blocks.append((sp, g))
    p = sc.parser()
    for s in parts[:-1]:
        r = sc.parse(p, s)
    for k in done:
        for j in range(k):
            r = sc.parse(p, sc.text('$GPGSV,%d,%d,%02d,99,10,100,40' % (k, j + 1, k)))
        g, u = is_ok(sc, r, 'Gsv')
        sc.holds('the message of %d sentences completes' % k, g, unk=u)
    r = sc.parse(p, parts[-1])
    G.gsv_result(sc, r, G.gsv_list(blocks), 'GSV of %d sentences after others of %s completed' % (n, done))


def between(sc, n, where, digits):
    """n sentences in order, and between them any sentences of the talker with other counts."""
    mk, fixed = G.Mk(sc), G.Mk(sc, False)
    parts, blocks = [], []
    for j in range(n):
        ps, sp, g = G.gsv_block(mk if j in where or j in (0, n - 1) else fixed)
        parts.append(sc.text(gsv_text(n, j + 1, ps)))
        blocks.append((sp, g))
    p = sc.parser()
    for j in range(n):
        r = sc.parse(p, parts[j])
        if j < n - 1:
            g, u = is_ok(sc, r, 'Incomplete')
            sc.holds('sentence %d of %d: incomplete' % (j + 1, n), g, unk=u)
        if j in where:
            c, m = G.Mk(sc).u(8, 'd' * digits[0]), G.Mk(sc).u(8, 'd' * digits[1])
            sc.assume(ieq(c.value, IntV(W, n)) ^ 1)
            sc.parse(p, sc.text('$GPGSV,', c.parts, ',', m.parts, ',05', fixed_block(sc)))
    G.gsv_result(sc, r, G.gsv_list(blocks), 'GSV of %d sentences with other counts in between' % n)


def fixed_block(sc):
    return [',99,10,100,40']


def completed(sc, h):
    yield frag(sc, '2', '1', '1', 'A', P14)
    yield frag(sc, '2', '2', '1', 'A', P14)
    yield sc.text('$GPGSV,2,2,05,09,10,100,40')
    yield sc.text('$GPGSV,2,1,05,09,10,100,40')
    for b in (1, 0):
        yield sc.text('!AIVDM,1,1,,A,', sc.payload(six(24) + [0, 0] + six(200000000, 30) + [0, b] + [0] * 128), ',0')
    # a completed message that is not decoded
    yield frag(sc, '2', '1', '1', 'A', '8000')
    yield frag(sc, '2', '2', '1', 'A', '8000')
    yield frag(sc, '2', '1', '1', 'A', '~~~~')
    yield frag(sc, '2', '2', '1', 'A', '~~~~')


def p27(tier):
    out = []
    for o in ((0, 1), (1, 0)):
        for w in ('ais', 'ais5', 't24', 'gsv2'):
            out.append(('%s in order %s' % (w, o), leaves_nothing, (w, o)))
    for o in ((0, 1, 2), (2, 1, 0), (1, 0, 2)):
        out.append(('gsv3 in order %s' % (o,), leaves_nothing, ('gsv3', o)))
    out.append(('gsv1', leaves_nothing, ('gsv1', (0,))))
    for i in range(len(OTHERS)):
        out.append(('kept over %s' % OTHERS[i][:20], not_dropped, (i,)))
    out.append(('kept over all of them', not_dropped, (None,)))
    out.append(('kept over other completed messages', not_dropped, (completed,)))
    for n, done in ((2, (1, 3, 4)), (3, (1, 2, 4)), (10, (1, 2, 3, 9)), (11, (1, 2, 12)), (12, (1, 2, 10)), (13, (1, 3, 9)), (20, (2, 1, 10)), (21, (1, 2, 11)),
                    (22, (2, 1, 3)), (100, (1, 10))):
        out.append(('GSV of %d sentences kept over %s' % (n, done), pending_over, (n, done)))
    n = LONG if tier == 'quick' else 1100
    for k in ('frag', 'gsv', 't24', 'done'):
        out.append(('kept over %d parts (%s)' % (n, k), not_dropped, (many_of(k, n),)))
    return out


# ---------------------------------------------------------------- P28

def t24(sc, m, part, name, thin=False):
    """A class B part; thin: only some characters of its texts are free."""
    fixed = () if not thin else range(46, 154) if part == 0 else list(range(54, 84)) + list(range(96, 132))
    bits = six(24) + [0, 0] + m + [0, part] + [0 if i in fixed else bdd.new_var('%s%d' % (name, i)) for i in range(40, 168)]
    if sc.envelope:
        return bits, sc.signed(sc.text('!', sc.char7('t' + name), sc.char7('u' + name), 'VD', sc.pick_char('k' + name, 'MO'), ',1,1,', sc.digit('i' + name),
                                       ',', sc.char7('c' + name), ',', sc.payload(bits), ',', sc.char7('f' + name)))
    return bits, sc.text('!AIVDM,1,1,,A,', sc.payload(bits), ',0')


def mmsis(sc, n):
    out = [[] for _ in range(n)]
    for i in range(30):
        for l in range(n):
            out[l].append(bdd.new_var('m%d.%d' % (l, i)))
    return out


def eqbits(a, b):
    e = 1
    for x, y in zip(reversed(a), reversed(b)):
        e = AND(e, XOR(x, y) ^ 1)
    return e


def pairing(sc, plan, inter=(), lots=False):
    """plan: letters AaBb...: A and B of vessel 0, C and D (parts A and B) of vessel 1, lower case: again with other content."""
    ms = mmsis(sc, 2)
    p = sc.parser()
    if lots:
        many(sc, p)
    wait = {}
    sc.assume(eqbits(ms[0], ms[1]) ^ 1)
    for j, x in enumerate(plan):
        v, part = {'A': (0, 0), 'B': (0, 1), 'C': (1, 0), 'D': (1, 1)}[x.upper()]
        bits, s = t24(sc, ms[v], part, '%s%d.' % (x, j), len(plan) > 3)
        r = sc.parse(p, s)
        lab = '%s: part %d' % (plan, j + 1)
        w = wait.get(v)
        if w is None or w[0] == part:
            g, u = is_ok(sc, r, 'Incomplete')
            sc.holds(lab + ' is incomplete', g, unk=u)
            wait[v] = (part, bits)
        else:
            g, fs = A.data(sc, r, 'VesselStaticData', lab)
            a, b = (bits, w[1]) if part == 0 else (w[1], bits)
            if g:
                A.check_fields(sc, g, fs, spec24(Pl(a), Pl(b)), lab)
            wait[v] = None
        others(sc, p, inter)


def any_pair(sc, first, second):
    """Parts of any two vessels: complete exactly when the MMSIs agree and the parts differ."""
    ms = mmsis(sc, 2)
    p = sc.parser()
    b1, s1 = t24(sc, ms[0], first, 'x')
    b2, s2 = t24(sc, ms[1], second, 'y')
    r = sc.parse(p, s1)
    g, u = is_ok(sc, r, 'Incomplete')
    sc.holds('the first part is incomplete', g, unk=u)
    r = sc.parse(p, s2)
    g, u = is_ok(sc, r, 'VesselStaticData')
    e = eqbits(ms[0], ms[1]) if first != second else 0
    sc.record('parts of different vessels or of the same kind never combine', AND(sc.st.pc, AND(g, e ^ 1)), u, '', 'fn:handle')
    sc.holds('parts A and B of one vessel combine', g, e, unk=u)
    i, u = is_ok(sc, r, 'Incomplete')
    sc.holds('otherwise the second part is incomplete', i, e ^ 1, unk=u)


def p28(tier):
    out = [('any two vessels, parts %d and %d' % (a, b), any_pair, (a, b)) for a in (0, 1) for b in (0, 1)]
    for plan in ('AB', 'BA', 'AaB', 'BbA', 'AaaB', 'ACBD', 'ACDB', 'ADBC', 'BCAD', 'ABAB', 'ABBA', 'BAAB', 'AaBb', 'ACcBD'):
        if plan == 'AaBb':
            out.append((plan, pairing, ('AaBbA',)))
        else:
            out.append((plan, pairing, (plan,)))
    for plan in ('AB', 'BA', 'AaB', 'ACBD'):
        out.append((plan + ' with other sentences', pairing, (plan, tuple(range(len(OTHERS))))))
        out.append((plan + ' with many pending', pairing, (plan, (), True)))
    for plan in ('AB', 'BA', 'AaB', 'BbA', 'ACBD'):
        out.append((plan + ' twice', once_more, (pairing, plan)))
    for k in ('frag', 'gsv', 't24', 'done'):
        out.append(('AB with %d sentences (%s) in between' % (LONG, k), over, ('t24', k, LONG)))
    return out


# ---------------------------------------------------------------- P29

def gsv_seq(sc, n, order, k=4, inter=(), lots=False, free=None, foreign=True, empties=None, tail='', total=None):
    """n sentences in some order; `order` may repeat sentences; `empties`: {(sentence, block): empty fields}."""
    mk = G.Mk(sc)
    fixed = G.Mk(sc, False)
    parts, blocks = [], []
    for j in range(n):
        ps = []
        for b in range(k):
            m = mk if free is None or (j, b) in free else fixed
            empty = ()
            if empties is not None:
                empty = empties.get((j, b), ())
            elif j == n - 1 and b == k - 1 and k > 1:
                empty = (0, 1, 2, 3)
            elif b == 1 and free is None:
                empty = (3,)
            pr, sp, g = G.gsv_block(m, empty=empty)
            ps += pr
            blocks.append((sp, g))
        if sc.envelope and sc.talker is None:
            sc.talker = [sc.char7('t0'), sc.char7('t1')]
        parts.append(sc.text('$', sc.talker or 'GP', 'GSV,%d,%d,' % (n, j + 1), ('%02d' % (4 * n - 1)) if total is None else total, ps, tail))
    if sc.envelope:
        parts = [sc.signed(x) for x in parts]
    p = sc.parser()
    if lots:
        many(sc, p)
    got = set()
    for j in order:
        r = sc.parse(p, parts[j])
        got.add(j)
        if len(got) < n:
            g, u = is_ok(sc, r, 'Incomplete')
            sc.holds('%d of %d sentences: incomplete' % (len(got), n), g, unk=u)
            others(sc, p, inter)
    G.gsv_result(sc, r, G.gsv_list(blocks, *([enum(A.talker_cases(sc.talker, G.NAVSYS))] if sc.talker else [])), 'GSV of %d sentences' % n)


def gsv_foreign(sc, what):
    """Sentences of other talkers or other counts complete nothing."""
    x, y = sc.char7('x'), sc.char7('y')
    sc.assume(ieq(x, y) ^ 1)
    d, e = sc.digit('d'), sc.digit('e')
    if what == 'talker':
        l = [sc.text('$G', x, 'GSV,2,1,05,09,10,100,40'), sc.text('$G', y, 'GSV,2,2,05,09,10,100,40')]
    elif what == 'talker first':
        l = [sc.text('$', x, 'PGSV,2,1,05,09,10,100,40'), sc.text('$', y, 'PGSV,2,2,05,09,10,100,40')]
    else:
        sc.assume(AND(ilt(d, ch(50)) ^ 1, ilt(e, ch(50)) ^ 1))
        sc.assume(ieq(d, e) ^ 1)
        a, b = sc.pick_char('a', '12'), sc.pick_char('b', '12')
        l = [sc.text('$GPGSV,', d, ',', a, ',05,09,10,100,40'), sc.text('$GPGSV,', e, ',', b, ',05,09,10,100,40')]
    p = sc.parser()
    for i, s in enumerate(l):
        r = sc.parse(p, s)
        g, u = is_ok(sc, r, 'Incomplete')
        sc.holds('GSV of other %s: sentence %d is incomplete' % (what, i + 1), g, unk=u)


def gsv_numbers(sc, n):
    """Any count and number of n digits: what is rejected, complete, incomplete."""
    mk = G.Mk(sc)
    a, b = mk.u(8, 'd' * n), mk.u(8, 'd' * n)
    r = sc.parse(sc.parser(), sc.text('$GPGSV,', a.parts, ',', b.parts, ',05,09,10,100,40'))
    fit = AND(a.fit, b.fit)
    zero = ieq(b.value, IntV(W, 0))
    over = ilt(a.value, b.value)
    er, u = is_err(sc, r)
    sc.holds('message numbers of 0 or above the count are rejected', er, AND(fit, OR(zero, over)), unk=u)
    one = AND(ieq(a.value, IntV(W, 1)), ieq(b.value, IntV(W, 1)))
    g, u = is_ok(sc, r, 'Gsv')
    sc.holds('message 1 of 1 is complete', g, one, unk=u)
    i, u = is_ok(sc, r, 'Incomplete')
    sc.holds('other messages are incomplete', i, AND(fit, OR(one, OR(zero, over)) ^ 1), unk=u)


def p29(tier):
    import itertools
    out = []
    for n in (1, 2, 3):
        for o in itertools.permutations(range(n)):
            out.append(('%d sentences in order %s' % (n, o), gsv_seq, (n, o, 4 if n < 3 else 2)))
    for o in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)):
        out.append(('4 sentences in order %s' % (o,), gsv_seq, (4, o, 1)))
    out.append(('3 full sentences', gsv_seq, (3, (1, 2, 0), 4, (), False, {(j, b) for j in range(3) for b in (0, 3)})))
    out.append(('9 sentences backwards', gsv_seq, (9, tuple(range(8, -1, -1)), 4, (), False, {(0, 0), (8, 2)})))
    out.append(('9 sentences', gsv_seq, (9, tuple(range(9)), 2, (), False, {(0, 0), (8, 0)})))
    out.append(('12 sentences', gsv_seq, (12, (11, 0, 10, 1, 9, 2, 8, 3, 7, 4, 6, 5), 1, (), False, {(0, 0), (8, 0)})))
    for n, o in ((2, (0, 0, 1)), (2, (1, 1, 1, 0)), (3, (0, 1, 0, 1, 2)), (3, (2, 2, 0, 0, 1))):
        out.append(('%d sentences, repeated %s' % (n, o), gsv_seq, (n, o, 1)))
    w = tuple(i for i in range(len(OTHERS)))
    out.append(('2 sentences with others in between', gsv_seq, (2, (0, 1), 2, w)))
    out.append(('3 sentences with others in between', gsv_seq, (3, (2, 0, 1), 1, w)))
    out.append(('2 sentences, many pending', gsv_seq, (2, (1, 0), 2, (), True)))
    out.append(('3 sentences, many pending', gsv_seq, (3, (1, 0, 2), 1, (), True)))
    for m in range(16):
        for e in ((0,), (0, 1, 2, 3)):
            out.append(('blocks %s without PRN, fields %s empty' % ([b for b in range(4) if m >> b & 1], e), gsv_seq, (1, (0,), 4, (), False, None, True, {(0, b): e for b in range(4) if m >> b & 1})))
    for e in ((1,), (2,), (3,), (1, 2), (1, 3), (2, 3), (1, 2, 3)):
        for b in range(4):
            out.append(('block %d, fields %s empty' % (b + 1, e), gsv_seq, (1, (0,), 4, (), False, None, True, {(0, b): e})))
    for j in range(3):
        for bs in ((0,), (3,), (0, 1), (1, 2), (0, 1, 2, 3)):
            for o in ((0, 1, 2), (2, 1, 0)):
                out.append(('3 sentences in order %s, blocks %s of sentence %d empty' % (o, bs, j + 1), gsv_seq,
                            (3, o, 4, (), False, {(j, b) for b in range(4)}, True, {(j, b): (0, 1, 2, 3) for b in bs})))
    for k in range(4):
        for n, o in ((1, (0,)), (2, (0, 1)), (2, (1, 0))):
            out.append(('%d blocks in each of %d sentences in order %s' % (k, n, o), gsv_seq, (n, o, k, (), False, None, True, {})))
    for b in range(4):
        for j in range(4):
            for n in (1, 2, 3) if b in (0, 3) else (3,):
                out.append(('block %d, number %d of %d digits' % (b + 1, j, n), G.gsv_digits, (j, n, b, 4)))
    for t in ('', '0', '1', '00', '99', '100', '255'):
        out.append(('announced satellites "%s"' % t, gsv_seq, (2, (0, 1), 2, (), False, None, True, {}, '', t)))
    out.append(('a signal id after the fourth block', gsv_seq, (2, (0, 1), 4, (), False, {(0, 3), (1, 3)}, True, {}, ',1')))
    for n, o in ((1, (0,)), (2, (0, 1)), (2, (1, 0)), (3, (0, 1, 2)), (3, (2, 0, 1))):
        out.append(('%d sentences in order %s twice' % (n, o), once_more, (gsv_seq, n, o, 2)))
    for k in ('frag', 'gsv', 't24', 'done'):
        out.append(('2 sentences with %d sentences (%s) in between' % (LONG, k), over, ('gsv', k, LONG)))
    for n, where in ((2, (0,)), (3, (0,)), (3, (1,)), (4, (2,)), (5, (0,)), (5, (3,)), (6, (4,)), (9, (0,)), (9, (7,)), (10, (8,)), (11, (9,)), (11, (0,)), (12, (0,)), (12, (10,)), (21, (0,)), (22, (20,))):
        for d in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)):
            out.append(('%d sentences, others of counts of %d digits in between (%d, at %s)' % (n, d[0], d[1], where), between, (n, where, d)))
    for f in ('talker', 'talker first', 'count'):
        out.append(('GSV of other %s' % f, gsv_foreign, (f,)))
    for n in (1, 2, 3):
        out.append(('counts and numbers of %d digits' % n, gsv_numbers, (n,)))
    return out


# ---------------------------------------------------------------- P44

def single(sc, make, name):
    """The same sentence in a fresh parser and after a history; the history is left alone."""
    s = make(sc)
    fresh = sc.parser()
    r1 = sc.parse(fresh, s)
    s1 = sc.st
    sc.reset()
    p = sc.parser()
    many(sc, p)
    h = Hist(sc, p)
    before = Snap(sc, p)
    r2 = sc.parse(p, s)
    after = Snap(sc, p)
    same_result(sc, '%s: the same result in every state' % name, s1, r1, after.st, r2, 1)
    equal_states(sc, '%s: afterwards' % name, before, after, after.st.pc, h.probes())


def twice_over(sc, make, name, how):
    """The same sentence again, or after another one of its kind (of the same vessel or not)."""
    store = []
    if how == 'again':
        s = make(sc)
    else:
        with bdd.twins('make', store):
            s = make(sc)
    pc = sc.st.pc
    fresh = sc.parser()
    r1 = sc.parse(fresh, s)
    s1 = sc.st
    sc.reset()
    sc.st = State(pc, {})
    p = sc.parser()
    if how == 'again':
        s0 = s
    else:
        with bdd.twins('use', store):
            s0 = make(sc)
    sc.parse(p, s0)
    before = Snap(sc, p)
    r2 = sc.parse(p, s)
    after = Snap(sc, p)
    same_result(sc, '%s: the same result after %s' % (name, 'itself' if how == 'again' else 'another one'), s1, r1, after.st, r2, 1)
    if how == 'again':
        for j in range(2):
            r2 = sc.parse(p, s)
        same_result(sc, '%s: the same result the fourth time' % name, s1, r1, sc.st, r2, 1)


def of_vessel(sc, mt, n, fill):
    """A message of a vessel of which messages of all types were parsed before, their other bits random, all 0 or all 1."""
    bits = A.ais_bits(sc, mt, n, inter=A.ETA if mt == 5 else None, zero=((43, 163), (272, 360)) if mt == 21 else ())
    s = sc.text('!AIVDM,1,1,,A,', sc.payload(bits), ',0')
    fresh = sc.parser()
    r1 = sc.parse(fresh, s)
    s1 = sc.st
    sc.reset()
    p = sc.parser()
    for t in vessel(sc, bits[8:38], fill):
        sc.parse(p, t)
    r2 = sc.parse(p, s)
    same_result(sc, 'type %d: the same result after other messages of the vessel' % mt, s1, r1, sc.st, r2, 1)


def after_of_vessel(sc, at, an, mt, n):
    """A message of a vessel after one message of type `at` of the same vessel, both with any field values."""
    z = lambda t: ((43, 163), (272, 360)) if t == 21 else ()
    bits = A.ais_bits(sc, mt, n, inter=A.ETA if mt == 5 else None, zero=z(mt))
    first = A.ais_bits(sc, at, an, inter=A.ETA if at == 5 else None, zero=z(at),
                       const=dict(zip(range(274, 300), six(5, 4) + six(12, 5) + six(7, 5) + six(30, 6) + six(0))) if at == mt == 5 else None)
    first[8:38] = bits[8:38]
    s = sc.text('!AIVDM,1,1,,A,', sc.payload(bits), ',0')
    fresh = sc.parser()
    r1 = sc.parse(fresh, s)
    s1 = sc.st
    sc.reset()
    p = sc.parser()
    sc.parse(p, sc.text('!AIVDM,1,1,,A,', sc.payload(first), ',0'))
    r2 = sc.parse(p, s)
    same_result(sc, 'type %d: the same result after a type %d message of the vessel' % (mt, at), s1, r1, sc.st, r2, 1)


def waiting_vessel(sc, mt, n, part):
    """A message of a vessel of which a part of the static data waits: the part stays."""
    bits = A.ais_bits(sc, mt, n, inter=A.ETA if mt == 5 else None, zero=((43, 163), (272, 360)) if mt == 21 else ())
    rest = [sc.bits(8, 'w%d' % k) + [0] * 114 for k in (0, 1)]
    t = [sc.text('!AIVDM,1,1,,A,', sc.payload(six(24) + [0, 0] + bits[8:38] + [0, k] + [0] * 6 + rest[k]), ',0') for k in (0, 1)]
    s = sc.text('!AIVDM,1,1,,A,', sc.payload(bits), ',0')
    p = sc.parser()
    sc.parse(p, t[part])
    before = Snap(sc, p)
    sc.parse(p, s)
    after = Snap(sc, p)
    equal_states(sc, 'type %d of a vessel whose part waits: afterwards' % mt, before, after, after.st.pc, [('the other part', t[1 - part])])


def vessel(sc, m, fill=None):
    """Messages of every type of one vessel, whose other fields have unremarkable values (or only 0 or 1 bits)."""
    rnd = random.Random(5)
    if fill is not None:
        rnd.getrandbits = lambda n: fill
    for mt, n in ((1, 28), (3, 28), (4, 28), (5, 71), (6, 28), (8, 20), (9, 28), (10, 12), (11, 28), (14, 28), (18, 28), (19, 52), (21, 46), (27, 16)):
        b = six(mt) + [0, 0] + m + [rnd.getrandbits(1) for _ in range(n * 6 - 38)]
        if mt == 5:
            b[274:294] = six(5, 4) + six(12, 5) + six(7, 5) + six(30, 6)
            yield sc.text('!AIVDM,2,1,4,B,', sc.payload(b[:336]), ',0')
            yield sc.text('!AIVDM,2,2,4,B,', sc.payload(b[336:]), ',0')
        yield sc.text('!AIVDM,1,1,,A,', sc.payload(b), ',0')
    for part in (0, 1):
        yield sc.text('!AIVDM,1,1,,A,', sc.payload(six(24) + [0, 0] + m + [0, part] + [rnd.getrandbits(1) for _ in range(128)]), ',0')


def gnss_sentence(kind):
    def f(sc):
        parts, specs, err = G.build(sc, kind, lambda i, k: None)
        return sc.text('$', sc.char7('t0'), sc.char7('t1'), kind, parts)
    return f


def ais_sentence(mt, n):
    def f(sc):
        return sc.text('!AI', ['VD', sc.pick_char('kk', 'MO')], ',1,', sc.digit('fn'), ',', sc.digit('fi'), ',', sc.char7('fc'), ',',
                       sc.payload(A.ais_bits(sc, mt, n, inter=A.ETA if mt == 5 else None, zero=((43, 163), (272, 360)) if mt == 21 else ())), ',0')
    return f


def gsv_one(sc):
    mk = G.Mk(sc)
    a, sp, g = G.gsv_block(mk)
    b, sp, g = G.gsv_block(mk)
    return sc.text('$G', sc.char7('t1'), 'GSV,1,1,02', a, b)


def any_text(n):
    def f(sc):
        return sc.text('$GP', [sc.char7('c%d' % i) for i in range(n)], ',1,1,1')
    return f


AIS44 = ((1, 28), (2, 28), (3, 28), (4, 28), (5, 71), (6, 28), (9, 28), (10, 12), (18, 28), (21, 46), (27, 16), (8, 20), (19, 52), (0, 10), (11, 28), (25, 28), (63, 28))


def p44(tier):
    makes = [(k, gnss_sentence(k), k) for k in ('GGA', 'RMC', 'GSA', 'VTG', 'GLL')] + [('GSV 1 of 1', gsv_one, 'GSV')]
    makes += [('AIS type %d' % mt, ais_sentence(mt, n), 'type %d' % mt) for mt, n in AIS44]
    out = [(k, single, (f, name)) for k, f, name in makes]
    for k, f, name in makes:
        out.append(('%s four times' % k, twice_over, (f, name, 'again')))
        out.append(('%s after another one' % k, twice_over, (f, name, 'other')))
    for fill, nm in ((None, ''), (0, ' (zeros)'), (1, ' (ones)')):
        out += [('AIS type %d after others of the vessel%s' % (mt, nm), of_vessel, (mt, n, fill)) for mt, n in AIS44]
    for part in (0, 1):
        out += [('AIS type %d of a vessel whose part %s waits' % (mt, 'AB'[part]), waiting_vessel, (mt, n, part)) for mt, n in AIS44]
    for at, an in AIS44[:11]:
        out += [('AIS type %d after type %d of the vessel' % (mt, at), after_of_vessel, (at, an, mt, n)) for mt, n in AIS44[:11]]
    return out
