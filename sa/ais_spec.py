"""ITU-R M.1371 message layouts as expectations over the payload bits."""
from .harness import *
from .mid import MID

LON_NA = 181 * 600000
LAT_NA = 91 * 600000

NAV = ['UnderWayUsingEngine', 'AtAnchor', 'NotUnderCommand', 'RestrictedManoeuverability', 'ConstrainedByDraught', 'Moored',
       'Aground', 'EngagedInFishing', 'UnderWaySailing', 'Reserved9', 'Reserved10', 'Reserved11', 'Reserved12', 'Reserved13',
       'AisSartIsActive', 'NotDefined']
EPFD = ['Undefined', 'GPS', 'GLONASS', 'GPSGLONASS', 'LoranC', 'Chayka', 'IntegratedNavigationSystem', 'Surveyed', 'Galileo']
AID = ['NotSpecified', 'ReferencePoint', 'Racon', 'FixedStructure', 'Reserved4', 'LightWithoutSectors', 'LightWithSectors',
       'LeadingLightFront', 'LeadingLightRear', 'BeaconCardinalNorth', 'BeaconCardinalEast', 'BeaconCardinalSouth',
       'BeaconCardinalWest', 'BeaconLateralPort', 'BeaconLateralStarboard', 'BeaconLateralPreferredChannelPort',
       'BeaconLateralPreferredChannelStarboard', 'BeaconIsolatedDanger', 'BeaconSafeWater', 'BeaconSpecialMark',
       'CardinalMarkNorth', 'CardinalMarkEast', 'CardinalMarkSouth', 'CardinalMarkWest', 'PortHandMark', 'StarboardHandMark',
       'PreferredChannelPort', 'PreferredChannelStarboard', 'IsolatedDanger', 'SafeWater', 'SpecialMark', 'LightVessel']
SHIP3 = ['Fishing', 'Towing', 'TowingLong', 'DredgingOrUnderwaterOps', 'DivingOps', 'MilitaryOps', 'Sailing', 'PleasureCraft',
         'Reserved38', 'Reserved39']
SHIP5 = ['Pilot', 'SearchAndRescue', 'Tug', 'PortTender', 'AntiPollutionEquipment', 'LawEnforcement', 'SpareLocal56',
         'SpareLocal57', 'MedicalTransport', 'Noncombatant']
SHIPX = {1: 'Reserved1', 2: 'WingInGround', 4: 'HighSpeedCraft', 6: 'Passenger', 7: 'Cargo', 8: 'Tanker', 9: 'Other'}
CARGO = ['Undefined', 'HazardousCategoryA', 'HazardousCategoryB', 'HazardousCategoryC', 'HazardousCategoryD', 'Reserved5',
         'Reserved6', 'Reserved7', 'Reserved8', 'Reserved9']
STATION = {'AB': 'BaseStation', 'AD': 'DependentAisBaseStation', 'AI': 'MobileStation', 'AN': 'AidToNavigationStation',
           'AR': 'AisReceivingStation', 'AS': 'LimitedBaseStation', 'AT': 'AisTransmittingStation', 'AX': 'RepeaterStation'}
NAVSYS = {'GN': 'Combination', 'GP': 'Gps', 'GL': 'Glonass', 'GA': 'Galileo', 'BD': 'Beidou', 'GI': 'Navic', 'QZ': 'Qzss'}

KIND = {1: 'VesselDynamicData', 2: 'VesselDynamicData', 3: 'VesselDynamicData', 4: 'BaseStationReport', 5: 'VesselStaticData',
        6: 'BinaryAddressedMessage', 9: 'StandardSarAircraftPositionReport', 10: 'UtcDateInquiry', 18: 'VesselDynamicData',
        21: 'AidToNavigationReport', 24: 'VesselStaticData', 27: 'VesselDynamicData'}
BITS = {1: 168, 2: 168, 3: 168, 4: 168, 5: 424, 6: 88, 9: 168, 10: 72, 18: 168, 21: 272, 24: 168, 27: 96}
CHARS = {k: (v + 5) // 6 for k, v in BITS.items()}


def ship_name(n):
    t, d = divmod(n, 10)
    if t == 3:
        return SHIP3[d]
    if t == 5:
        return SHIP5[d]
    return SHIPX.get(t, 'NotAvailable')


def cargo_name(n):
    t, d = divmod(n, 10)
    return CARGO[d] if t in (1, 2, 4, 6, 7, 8, 9) else 'Undefined'


class Pl:
    """Payload bits; beyond the end they are zero."""

    def __init__(self, bits):
        self.b = bits

    def u(self, off, n):
        x = [self.b[i] if i < len(self.b) else 0 for i in range(off, off + n)]
        return IntV(n, None, tuple(reversed(x)))

    def s(self, off, n):
        v = self.u(off, n)
        return IntV(n, v.c, v.b, True)

    def flag(self, off):
        return self.u(off, 1).bits[0]

    def is_(self, off, n, c):
        v = self.u(off, n)
        return ieq(v, IntV(n, c & MASKS[n]))

    def table(self, off, n, name):
        """enum(name(raw)) over all raw values"""
        v = self.u(off, n)
        d = {}
        for c in range(1 << n):
            e = ieq(v, IntV(n, c))
            if e:
                k = name(c)
                d[k] = OR(d.get(k, 0), e)
        return enum([(e, k) for k, e in d.items()])

    def text(self, off, n):
        """[(guard, StrV)] of an n-character six-bit text."""
        cs = [self.u(off + 6 * i, 6) for i in range(n)]
        out = []
        for c in cs:
            b = c.bits
            # 0..31 -> 64..95, 32..63 unchanged
            out.append(IntV(32, None, b[:6] + (b[5] ^ 1,) + (0,) * 25))
        zero = [ieq(c, IntV(6, 0)) for c in cs]
        space = [ieq(c, IntV(6, 32)) for c in cs]
        tail = [0] * n + [1]
        for i in range(n - 1, -1, -1):
            tail[i] = OR(zero[i], AND(space[i], tail[i + 1]))
        res = []
        nz = 1
        for L in range(n + 1):
            g = AND(nz, tail[L])
            if L:
                g = AND(g, space[L - 1] ^ 1)
            if g:
                res.append((g, StrV(tuple(out[:L]))))
            if L < n:
                nz = AND(nz, zero[L] ^ 1)
        return res


def scaled(v, k, w=64):
    return Flt(FloatV(0.0, ((Atom('int', v), k),), w) if v.c is None else fconst(v.sval() * k))


def lonlat(p, lon, lat):
    return {'longitude': opt(p.is_(lon, 28, LON_NA) ^ 1, scaled(p.s(lon, 28), 1 / 600000.0)),
            'latitude': opt(p.is_(lat, 27, LAT_NA) ^ 1, scaled(p.s(lat, 27), 1 / 600000.0))}


def opttext(p, off, n):
    t = p.text(off, n)
    empty = 0
    for g, s in t:
        if not s.ch:
            empty = g
    return opt(empty ^ 1, Txt([c for c in t if c[1].ch]))


def rot(p):
    v = p.s(42, 8)
    cs = []
    pres = 0
    for r in range(-126, 127):
        e = p.is_(42, 8, r)
        if e == 0:
            continue
        x = (r / 4.733) ** 2
        cs.append((e, fconst(-x if r < 0 else x)))
        pres = OR(pres, e)
    return opt(pres, Flt(cs))


def rotdir(p):
    v = p.s(42, 8)
    na = p.is_(42, 8, -128)
    left = ilt(v, IntV(8, 256 - 1, None, True))
    right = ilt(IntV(8, 1, None, True), v)
    d = ite(left, IntV(8, 255, None, True), ite(right, IntV(8, 1, None, True), IntV(8, 0, None, True)))
    return opt(na ^ 1, Num(d))


def dims(p, a, b, c, d):
    return {'dimension_to_bow': some(Num(p.u(a, 9))), 'dimension_to_stern': some(Num(p.u(b, 9))),
            'dimension_to_port': some(Num(p.u(c, 6))), 'dimension_to_starboard': some(Num(p.u(d, 6)))}


def epfd(p, off):
    v = p.is_(off, 4, 0)
    return opt(v ^ 1, p.table(off, 4, lambda c: EPFD[c] if c < 9 else 'Undefined'))


def days_in(y, mo):
    """(IntV year, IntV month) -> IntV(6) days, by table over the month"""
    leap = AND(ieq(IntV(2, None, y.bits[:2]), IntV(2, 0)), OR(ieq(umod(y, 100), ci(0, y.w)) ^ 1, ieq(umod(y, 400), ci(0, y.w))))
    r = IntV(6, 31)
    for m in (4, 6, 9, 11):
        r = ite(ieq(mo, IntV(mo.w, m)), IntV(6, 30), r)
    f = ite(leap, IntV(6, 29), IntV(6, 28))
    return ite(ieq(mo, IntV(mo.w, 2)), f, r)


def umod(v, c):
    return udivmod(IntV(v.w, v.c, v.b), IntV(v.w, c))[1]


def date_ok(y, mo, d):
    w = 8
    mo, d = extend(mo, w, False), extend(d, w, False)
    dim = extend(days_in(y, mo), w, False)
    return AND(AND(ilt(IntV(w, 0), mo), ilt(mo, IntV(w, 13))), AND(ilt(IntV(w, 0), d), ilt(dim, d) ^ 1))


def time_ok(h, mi, s):
    def lt(v, c):
        return ilt(extend(v, 32, False), IntV(32, c))
    return AND(AND(lt(h, 24), lt(mi, 60)), lt(s, 60))


def spec(mt, p, own=0, station='MobileStation'):
    """{field: expectation} of message type mt."""
    st = enum([(1, station)]) if isinstance(station, str) else station
    d = {'own_vessel': B(own), 'mmsi': Num(p.u(8, 30))}
    if mt not in (5, 24):
        d['station'] = st
    if mt in (1, 2, 3):
        sec = p.u(137, 6)
        d.update({
            'ais_type': enum([(1, 'ClassA')]),
            'nav_status': p.table(38, 4, lambda c: NAV[c]),
            'rot': rot(p), 'rot_direction': rotdir(p),
            'sog_knots': opt(p.is_(50, 10, 1023) ^ 1, scaled(p.u(50, 10), 0.1)),
            'high_position_accuracy': B(p.flag(60)),
            'cog': opt(p.is_(116, 12, 3600) ^ 1, scaled(p.u(116, 12), 0.1)),
            'heading_true': opt(p.is_(128, 9, 511) ^ 1, scaled(p.u(128, 9), 1.0)),
            'timestamp_seconds': Num(sec),
            'positioning_system_meta': opt(p.is_(137, 6, 60) ^ 1, p.table(137, 6, lambda c: {
                61: 'ManualInputMode', 62: 'DeadReckoningMode', 63: 'Inoperative'}.get(c, 'Operative'))),
            'current_gnss_position': NONE,
            'special_manoeuvre': opt(OR(p.is_(143, 2, 1), p.is_(143, 2, 2)), B(p.is_(143, 2, 2))),
            'raim_flag': B(p.flag(148)),
            'radio_status': some(Num(p.u(149, 19))),
            'class_b_unit_flag': NONE, 'class_b_display': NONE, 'class_b_dsc': NONE, 'class_b_band_flag': NONE,
            'class_b_msg22_flag': NONE, 'class_b_mode_flag': NONE, 'class_b_css_flag': NONE,
        })
        d.update(lonlat(p, 61, 89))
    elif mt == 4:
        y, mo, dd = p.u(38, 14), p.u(52, 4), p.u(56, 5)
        h, mi, s = p.u(61, 5), p.u(66, 6), p.u(72, 6)
        d.update({
            'timestamp': opt(AND(date_ok(y, mo, dd), time_ok(h, mi, s)), When(y, mo, dd, h, mi, s)),
            'high_position_accuracy': B(p.flag(78)),
            'position_fix_type': epfd(p, 134),
            'raim_flag': B(p.flag(148)),
            'radio_status': Num(p.u(149, 19)),
        })
        d.update(lonlat(p, 79, 107))
    elif mt == 5:
        d.update({
            'ais_type': enum([(1, 'ClassA')]),
            'ais_version_indicator': Num(p.u(38, 2)),
            'imo_number': opt(p.is_(40, 30, 0) ^ 1, Num(p.u(40, 30))),
            'call_sign': opttext(p, 70, 7), 'name': opttext(p, 112, 20),
            'ship_type': p.table(232, 8, ship_name), 'cargo_type': p.table(232, 8, cargo_name),
            'equipment_vendor_id': NONE, 'equipment_model': NONE, 'equipment_serial_number': NONE,
            'position_fix_type': epfd(p, 270),
            'draught10': some(Num(p.u(294, 8))),
            'destination': opttext(p, 302, 20),
            'mothership_mmsi': NONE,
        })
        d.update(dims(p, 240, 249, 258, 264))
    elif mt == 6:
        d.update({'sequence_number': Num(p.u(38, 2)), 'destination_mmsi': Num(p.u(40, 30)), 'retransmit_flag': B(p.flag(70)),
                  'dac': Num(p.u(72, 10)), 'fid': Num(p.u(82, 6))})
    elif mt == 9:
        d.update({
            'altitude': opt(p.is_(38, 12, 4095) ^ 1, Num(p.u(38, 12))),
            'sog_knots': opt(p.is_(50, 10, 1023) ^ 1, Num(p.u(50, 10))),
            'high_position_accuracy': B(p.flag(60)),
            'cog': opt(p.is_(116, 12, 3600) ^ 1, scaled(p.u(116, 12), 0.1)),
            'timestamp_seconds': Num(p.u(128, 6)), 'regional': Num(p.u(134, 8)),
            'dte': B(p.flag(142) ^ 1), 'assigned': B(p.flag(146)), 'raim_flag': B(p.flag(147)),
            'radio_status': Num(p.u(148, 20)),
        })
        d.update(lonlat(p, 61, 89))
    elif mt == 10:
        del d['mmsi']
        d.update({'source_mmsi': Num(p.u(8, 30)), 'destination_mmsi': Num(p.u(40, 30))})
    elif mt == 18:
        d.update({
            'ais_type': enum([(1, 'ClassB')]),
            'nav_status': enum([(1, 'NotDefined')]), 'rot': NONE, 'rot_direction': NONE,
            'sog_knots': opt(p.is_(46, 10, 1023) ^ 1, scaled(p.u(46, 10), 0.1)),
            'high_position_accuracy': B(p.flag(56)),
            'cog': opt(p.is_(112, 12, 3600) ^ 1, scaled(p.u(112, 12), 0.1)),
            'heading_true': opt(p.is_(124, 9, 511) ^ 1, scaled(p.u(124, 9), 1.0)),
            'timestamp_seconds': Num(p.u(133, 6)),
            'positioning_system_meta': NONE, 'current_gnss_position': NONE, 'special_manoeuvre': NONE,
            'raim_flag': B(p.flag(147)), 'radio_status': some(Num(p.u(149, 19))),
            'class_b_unit_flag': Sum([(1, 'None'), (1, 'Some', [B(p.flag(141))])]),
            'class_b_display': some(B(p.flag(142))), 'class_b_dsc': some(B(p.flag(143))),
            'class_b_band_flag': some(B(p.flag(144))), 'class_b_msg22_flag': some(B(p.flag(145))),
            'class_b_mode_flag': some(B(p.flag(146))),
            'class_b_css_flag': Sum([(1, 'None'), (1, 'Some', [B(p.flag(148))])]),
        })
        d.update(lonlat(p, 57, 85))
    elif mt == 21:
        a, b = p.text(43, 20), p.text(272, 14)
        names = []
        for g, s in a:
            for g2, s2 in b:
                e = AND(g, g2)
                if e:
                    names.append((e, StrV(s.ch + s2.ch)))
        d.update({
            'aid_type': p.table(38, 5, lambda c: AID[c]),
            'name': Txt(names),
            'high_position_accuracy': B(p.flag(163)),
            'position_fix_type': some(p.table(249, 4, lambda c: EPFD[c] if c < 9 else 'Undefined')),
            'timestamp_seconds': Num(p.u(253, 6)), 'off_position_indicator': B(p.flag(259)), 'regional': Num(p.u(260, 8)),
            'raim_flag': B(p.flag(268)), 'virtual_aid_flag': B(p.flag(269)), 'assigned_mode_flag': B(p.flag(270)),
        })
        d.update(lonlat(p, 164, 192))
        d.update(dims(p, 219, 228, 237, 243))
    elif mt == 27:
        d.update({
            'ais_type': enum([(1, 'ClassA')]),
            'nav_status': p.table(40, 4, lambda c: NAV[c]), 'rot': NONE, 'rot_direction': NONE,
            'high_position_accuracy': B(p.flag(38)), 'raim_flag': B(p.flag(39)),
            'longitude': opt(p.is_(44, 18, 181 * 600) ^ 1, scaled(p.s(44, 18), 1 / 600.0)),
            'latitude': opt(p.is_(62, 17, 91 * 600) ^ 1, scaled(p.s(62, 17), 1 / 600.0)),
            'sog_knots': opt(p.is_(79, 6, 63) ^ 1, scaled(p.u(79, 6), 1.0)),
            'cog': opt(p.is_(85, 9, 511) ^ 1, scaled(p.u(85, 9), 1.0)),
            'heading_true': NONE, 'positioning_system_meta': NONE,
            'current_gnss_position': some(B(p.flag(94) ^ 1)), 'special_manoeuvre': NONE,
            'class_b_unit_flag': NONE, 'class_b_display': NONE, 'class_b_dsc': NONE, 'class_b_band_flag': NONE,
            'class_b_msg22_flag': NONE, 'class_b_mode_flag': NONE, 'class_b_css_flag': NONE, 'radio_status': NONE,
        })
    return d


def known_t27(p):
    """The recorded wrong decoding of type 27 (pinned by the repository's test)."""
    return {
        'latitude': ('t27.latitude', some(scaled(p.s(44, 18), 1 / 600.0))),
        'longitude': ('t27.longitude', some(scaled(p.s(62, 17), 1 / 600.0))),
        'sog_knots': ('t27.sog_knots', opt(p.is_(62, 6, 63) ^ 1, scaled(p.u(62, 6), 1.0))),
        'cog': ('t27.cog', opt(p.is_(62, 17, 91000) ^ 1, scaled(p.u(62, 17), 0.1))),
    }


def spec24(pa, pb, own=0):
    """Complete static data of a class B pair: bits of part A and part B."""
    d = {
        'own_vessel': B(own), 'ais_type': enum([(1, 'ClassB')]), 'mmsi': Num(pb.u(8, 30)), 'ais_version_indicator': Num(IntV(8, 0)),
        'imo_number': NONE, 'call_sign': opttext(pb, 90, 7), 'name': opttext(pa, 40, 20),
        'ship_type': pb.table(40, 8, ship_name), 'cargo_type': pb.table(40, 8, cargo_name),
        'equipment_vendor_id': some(Txt(pb.text(48, 3))), 'equipment_model': some(Num(pb.u(66, 4))),
        'equipment_serial_number': some(Num(pb.u(70, 20))),
        'position_fix_type': NONE, 'eta': NONE, 'draught10': NONE, 'destination': NONE,
        'mothership_mmsi': some(Num(pb.u(132, 30))),
    }
    d.update(dims(pb, 132, 141, 150, 156))
    return d
