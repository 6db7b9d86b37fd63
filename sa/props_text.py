"""Texts of enumeration values (P46), causes of rejections (P47), the envelope of AIS messages (P48)."""
from .harness import *
from . import props_ais as A
from . import props_gnss as G
from . import props_state as S
from .ais_spec import CHARS
from . import models_fmt as MF

# words each value's text has to contain (lower case); texts may only be shared by values of the same group
KEYS = {
    'FaaMode': {'Autonomous': '=A', 'Differential': '=D', 'Estimated': '=E', 'NotValid': '=N', 'Simulator': '=S'},
    'NavigationSystem': {'Combination': 'combin', 'Gps': 'gps', 'Glonass': 'glonass', 'Galileo': 'galileo', 'Beidou': 'beidou', 'Navic': 'navic',
                         'Qzss': 'qzss', 'Other': 'other'},
    'GsaFixMode': {'NotAvailable': 'available', 'Fix2D': '2d', 'Fix3D': '3d'},
    'GgaQualityIndicator': {'Invalid': 'invalid', 'GpsFix': 'gps !dgps', 'DGpsFix': 'dgps', 'PpsFix': 'pps', 'RealTimeKinematic': 'kinematic !float',
                            'RealTimeKinematicFloat': 'kinematic float', 'DeadReckoning': 'dead', 'ManualInputMode': 'manual',
                            'SimulationMode': 'simulat'},
    'PositionFixType': {'Undefined': 'undefined', 'GPS': 'gps !glonass', 'GLONASS': 'glonass !gps', 'GPSGLONASS': 'gps glonass', 'LoranC': 'loran',
                        'Chayka': 'chayka', 'IntegratedNavigationSystem': 'integrated', 'Surveyed': 'surveyed', 'Galileo': 'galileo'},
    'CargoType': {'Undefined': 'undefined', 'HazardousCategoryA': 'hazard _a', 'HazardousCategoryB': 'hazard _b', 'HazardousCategoryC': 'hazard _c',
                  'HazardousCategoryD': 'hazard _d', 'Reserved5': 'reserved', 'Reserved6': 'reserved', 'Reserved7': 'reserved',
                  'Reserved8': 'reserved', 'Reserved9': 'reserved'},
    'ShipType': {'NotAvailable': 'available', 'Reserved1': 'reserved', 'WingInGround': 'wing', 'Fishing': 'fishing', 'Towing': 'towing !long',
                 'TowingLong': 'towing long', 'DredgingOrUnderwaterOps': 'dredging', 'DivingOps': 'diving', 'MilitaryOps': 'military',
                 'Sailing': 'sailing', 'PleasureCraft': 'pleasure', 'Reserved38': 'reserved', 'Reserved39': 'reserved', 'HighSpeedCraft': 'speed',
                 'Pilot': 'pilot', 'SearchAndRescue': 'search rescue', 'Tug': 'tug', 'PortTender': 'tender', 'AntiPollutionEquipment': 'pollution',
                 'LawEnforcement': 'law', 'SpareLocal56': 'local', 'SpareLocal57': 'local', 'MedicalTransport': 'medical',
                 'Noncombatant': 'combatant', 'Passenger': 'passenger', 'Cargo': 'cargo', 'Tanker': 'tanker', 'Other': 'other'},
    'PositioningSystemMeta': {'Operative': 'operative !inoperative', 'ManualInputMode': 'manual', 'DeadReckoningMode': 'dead',
                              'Inoperative': 'inoperative'},
    'AisClass': {'Unknown': 'unknown', 'ClassA': 'class _a', 'ClassB': 'class _b'},
    'Station': {'BaseStation': 'base !dependent !limited', 'DependentAisBaseStation': 'dependent base', 'MobileStation': 'mobile',
                'AidToNavigationStation': 'navigation', 'AisReceivingStation': 'receiving', 'LimitedBaseStation': 'limited base',
                'AisTransmittingStation': 'transmitting', 'RepeaterStation': 'repeater', 'Other': 'other'},
    'NavAidType': {'NotSpecified': 'not specified', 'ReferencePoint': 'reference', 'Racon': 'racon', 'FixedStructure': 'fixed structure',
                   'Reserved4': 'reserved', 'LightWithoutSectors': 'light without', 'LightWithSectors': 'light sector !without',
                   'LeadingLightFront': 'leading front', 'LeadingLightRear': 'leading rear', 'BeaconCardinalNorth': 'beacon cardinal north',
                   'BeaconCardinalEast': 'beacon cardinal east', 'BeaconCardinalSouth': 'beacon cardinal south',
                   'BeaconCardinalWest': 'beacon cardinal west', 'BeaconLateralPort': 'beacon lateral _port !preferred',
                   'BeaconLateralStarboard': 'beacon lateral starboard !preferred',
                   'BeaconLateralPreferredChannelPort': 'beacon lateral preferred _port',
                   'BeaconLateralPreferredChannelStarboard': 'beacon lateral preferred starboard', 'BeaconIsolatedDanger': 'beacon isolated',
                   'BeaconSafeWater': 'safe', 'BeaconSpecialMark': 'special', 'CardinalMarkNorth': 'cardinal north !beacon',
                   'CardinalMarkEast': 'cardinal east !beacon', 'CardinalMarkSouth': 'cardinal south !beacon', 'CardinalMarkWest': 'cardinal west !beacon',
                   'PortHandMark': '_port hand', 'StarboardHandMark': 'starboard hand', 'PreferredChannelPort': 'preferred _port !beacon',
                   'PreferredChannelStarboard': 'preferred starboard !beacon', 'IsolatedDanger': 'isolated !beacon', 'SafeWater': 'safe',
                   'SpecialMark': 'special', 'LightVessel': 'vessel'},
}
SHARED = ('reserved', 'local', 'safe', 'special')


def suits(text, want):
    if want.startswith('='):
        return text == want[1:]
    t = text.lower()
    words = re.split(r'[^a-z0-9]+', t)
    for k in want.split():
        if k[0] == '!':
            if k[1:] in (words if k == '!port' else t):
                return False
        elif k[0] == '_':
            if k[1:] not in words:
                return False
        elif k not in t:
            return False
    return True


def adt(w, name):
    for i, t in enumerate(w.types):
        if t.get('k') == 'adt' and t.get('local') and t['path'].split('::')[-1] == name:
            return t
    return None


def displayed(sc, name):
    t = adt(sc.w, name)
    b = None if t is None else MF.fmt_impl(sc.w, 'Display', t['id'])
    if b is None:
        raise Missing('Display for %s' % name)
    body = sc.w.bodies[b]
    at = '%s:%d' % (body['file'], body['line'])
    seen = {}
    for i, v in enumerate(t['vs']):
        want = KEYS[name].get(v['n'])
        if want is None or v['f']:
            continue
        x = sc.I.alloc(sc.st, AggV(t['id'], i, ()))
        f = MF.new_sink(sc.I, sc.st)
        r = sc.call(b, [x, f])
        lab = '%s::%s' % (name, v['n'])
        ok, u = sc.variant_guard(r.v, r.ty, 'Ok')
        sc.holds(lab + ': is displayed', ok, info=at, unk=u)
        bad = unk = 0
        got = []
        for s, x in MF.sink_text(sc.I, sc.st, f):
            c = x.const() if isinstance(x, StrV) else None
            if c is None:
                unk = OR(unk, s.pc)
                continue
            got.append(c)
            if not suits(c, want):
                bad = OR(bad, s.pc)
        sc.record(lab + ': its text names it', bad, unk, '%s shows %s' % (at, ' or '.join(map(repr, got))))
        dup = ''
        for c in got:
            for o in seen.get(c, ()):
                if KEYS[name][o] != want or want not in SHARED:
                    dup = o
            seen.setdefault(c, []).append(v['n'])
        sc.record(lab + ': its text is its own', 1 if dup else 0, unk, '%s shows the text of %s' % (at, dup))


def p46(tier):
    return [('texts of ' + n, displayed, (n,)) for n in sorted(KEYS)]


# ---------------------------------------------------------------- P47

class Env:
    """A fragment's place for the header makers of P04."""

    def __init__(self, sc):
        self.mid = sc.digit('mid')
        self.chan = sc.pick_char('chan', 'AB')
        self.kind = 'VDM'
        self.tk = [sc.char7('tk0'), sc.char7('tk1')]
        self.mmsi = sc.bits(30, 'mmsi')


def invalid(sc, r, label, care=None):
    """If it is rejected, then as invalid."""
    er, u, v, t = sc.into(r.v, r.ty, 'Err')
    g, u2 = sc.variant_guard(v, t, 'InvalidSentence')
    sc.holds(label, OR(er ^ 1, g), care, unk=OR(u, AND(er, u2)))


def header_cause(sc, form):
    s, _ = S.bad_header(form)(sc, Env(sc))
    r = sc.parse(sc.parser(), s)
    invalid(sc, r, 'malformed header (%s) is reported as invalid' % form)


def payload_cause(sc, mt, pos):
    cs = [A.armor_char(A.ctype_bits(mt))] + [ch(48)] * 27
    c = sc.char7('c')
    cs[pos] = c
    good, six = A.armor_value(c)
    r = sc.parse(sc.parser(), sc.text('!AIVDM,1,1,,A,', cs, ',0'))
    invalid(sc, r, 'a payload character outside the alphabet is reported as invalid', good ^ 1)


def error_text(sc):
    t = adt(sc.w, 'ParseError')
    found = None
    for b in sc.w.j['bodies']:
        if b['local'] and b.get('self_ty') and b['self_ty'].split('::')[-1] == 'ParseError':
            tr = (b.get('impl_trait') or '').split('::')[-1]
            if tr == 'ToString' and b['name'] == 'to_string' or tr == 'Display' and b['name'] == 'fmt':
                found = b
    if found is None:
        raise Missing('text of ParseError')
    at = '%s:%d' % (found['file'], found['line'])
    for i, v in enumerate(t['vs']):
        for n in (0, 1, 5):
            sc.reset()
            cs = [sc.char7('c%d' % j, exclude='') for j in range(n)]
            text = StrV(tuple(cs))
            ref = sc.I.alloc(sc.st, AggV(t['id'], i, (text,)))
            if found['name'] == 'fmt':
                f = MF.new_sink(sc.I, sc.st)
                sc.call(found['id'], [ref, f])
                outs = MF.sink_text(sc.I, sc.st, f)
            else:
                r = sc.call(found['id'], [ref])
                outs = [(s, x) for s, x in sc.I.M.split(sc.I, sc.st, r.v)] if hasattr(sc.I, 'M') else split_text(sc, r.v)
            bad = unk = 0
            for s, x in outs:
                if isinstance(x, FmtV):
                    xs = MF.force(sc.I, s, x)
                else:
                    xs = [(s, x)]
                for s2, y in xs:
                    if not isinstance(y, StrV):
                        unk = OR(unk, s2.pc)
                    elif len(y.ch) != n:
                        bad = OR(bad, s2.pc)
                    else:
                        for a, b in zip(y.ch, cs):
                            bad = OR(bad, AND(s2.pc, ieq(a, b) ^ 1))
            sc.record('%s with %d characters: its text is its message' % (v['n'], n), bad, unk, at)


def split_text(sc, v):
    from . import models as M
    return M.split(sc.I, sc.st, v)


def from_text(sc):
    """Texts turned into errors are invalid sentences with that message."""
    for b in sc.w.j['bodies']:
        if b['local'] and (b.get('self_ty') or '').split('::')[-1] == 'ParseError' and b['name'] == 'from' and b['argc'] == 1:
            cs = [sc.char7('c%d' % j, exclude='') for j in range(3)]
            r = sc.call(b['id'], [StrV(tuple(cs))])
            g, u = sc.variant_guard(r.v, r.ty, 'InvalidSentence')
            sc.holds('a text becomes an invalid sentence', g, unk=u, info='%s:%d' % (b['file'], b['line']))


HEADERS = ('count', 'number', 'number 2', 'no count', 'no number', 'big number', 'gsv count', 'gsv number', 'gsv number range', 'gsv empty', 't24 part')


def p47(tier):
    out = [('text of an error', error_text, ()), ('error of a text', from_text, ())]
    out += [('header: ' + f, header_cause, (f,)) for f in HEADERS]
    for mt in (1, 4, 9, 18, 21, 24, 27, 7):
        for pos in (1, 6, 13, 27):
            out.append(('payload character %d of type %d' % (pos, mt), payload_cause, (mt, pos)))
    for n in (0, 1, 6, 20):
        out.append(('%d characters without comma' % n, S.no_comma, (n,)))
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 20, 24, 32, 40, 64, 80):
        out.append(('unknown type of %d characters' % n, S.sentence_type, (n, 'GNSS')))
    for mt in (0, 7, 8, 11, 17, 19, 20, 25, 28, 63):
        out.append(('AIS type %d' % mt, A.message_type, (mt,)))
    out += [('wrong digits of a GLL sentence', S.checksum, (S.gll_body, 2)), ('wrong digits of an AIS sentence', S.checksum, (S.vdm_body, 2))]
    return out + G.scen_cause(tier)


# ---------------------------------------------------------------- P48

def envelope(sc, mt, form):
    """Header fields and the checksum do not change what a message says."""
    from .props_state import same
    n = CHARS[mt]
    bits = A.ais_bits(sc, mt, n, inter=A.ETA if mt == 5 else None, zero=((272, 360),) if mt == 21 else ())
    pay = sc.payload(bits)
    p0 = sc.parser()
    base = sc.text('!AIVDM,1,1,,A,', pay, ',0')
    r0 = sc.parse(p0, base)
    st0 = sc.st
    p1 = sc.parser()
    chan = [ch(65)]
    mid = []
    num = [ch(49)]
    fill = [ch(48)]
    tail = []
    if form == 'channel':
        chan = [sc.char7('chan')]
    elif form == 'no channel':
        chan = []
    elif form == 'long channel':
        chan = [sc.char7('chan'), sc.char7('chan1')]
    elif form == 'message id':
        mid = [sc.char7('mid')]
    elif form == 'long message id':
        mid = [sc.digit('mid%d' % i) for i in range(4)]
    elif form == 'fragment number':
        num = [sc.digit('num')]
    elif form == 'fill bits':
        fill = [sc.char7('fill')]
    elif form == 'no fill bits':
        fill = None
    elif form == 'long fill bits':
        fill = [sc.char7('fill'), sc.char7('fill1')]
    elif form == 'very long message id':
        mid = [ch(49)] * 17 + [sc.digit('mid%d' % i) for i in range(2)]
    elif form == 'very long channel':
        chan = [sc.char7('chan')] * 40
    elif form == '300 more fields':
        tail = [',', sc.char7('x0')] * 300
    elif form == 'more fields':
        tail = [',', sc.char7('x0'), ',', sc.char7('x1'), ',', ',']
    elif form in ('all of them', 'all of them, checksum'):
        chan, mid, num, fill = [sc.char7('chan')], [sc.digit('mid')], [sc.digit('num')], [sc.char7('fill')]
        tail = [',', sc.char7('x0')]
    elif form == 'empty digits':
        tail = ['*']
    count = ['0', '1'] if form == 'long count' else '1'
    s = sc.text('!AIVDM,', count, ',', num, ',', mid, ',', chan, ',', pay, [] if fill is None else [',', fill], tail)
    if form.endswith('checksum'):
        s = sc.signed(s)
    r1 = sc.parse(p1, s)
    d, u = same(sc, st0, r0.v, sc.st, r1.v, sc.st.pc)
    sc.record('type %d, %s: the same result' % (mt, form), d, u, 'NmeaParser::parse_sentence')


FORMS = ('channel', 'no channel', 'long channel', 'message id', 'long message id', 'fragment number', 'fill bits', 'no fill bits', 'long fill bits',
         'more fields', '300 more fields', 'very long message id', 'very long channel', 'empty digits', 'checksum', 'long count', 'all of them', 'all of them, checksum')


def gnss_envelope(sc, kind, form):
    """The checksum of a GNSS sentence does not change what it says."""
    parts, specs, err = G.build(sc, kind, lambda i, k: None)
    s = sc.text('$', 'GP', kind, parts)
    if form == 'checksum':
        hi, lo = S.xor_digits(s)
        s = sc.text(s, '*', hi, lo)
    elif form == '300 more fields':
        s = sc.text(s, [',', sc.char7('x0')] * 300)
    else:
        s = sc.text(s, '*')
    G.check(sc, sc.parse(sc.parser(), s), kind, specs, err)


def p48(tier):
    out = [('type %d, %s' % (mt, f), envelope, (mt, f)) for mt in (1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27) for f in FORMS]
    return out + [('%s, %s' % (k, f), gnss_envelope, (k, f)) for k in G.LAYOUT for f in ('checksum', 'no digits', '300 more fields') if not (k == 'GSV' and '300' in f)]
