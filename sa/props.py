"""Properties: scenarios, rules and assumptions."""
from .harness import Missing
from . import models_time
from . import props_ais as A
from . import props_gnss as G
from . import props_state as S
from . import props_struct as X
from . import props_text as W
from . import props_total as T
from .ais_spec import CHARS
from .rules import ASSUME, RULES  # noqa: F401



GNSS = {'P30': 'GGA', 'P31': 'RMC', 'P32': 'GSA', 'P33': 'VTG', 'P34': 'GLL'}


def p06():
    out = [('talkers of %s' % k, G.talkers, (k,)) for k in ('GGA', 'RMC', 'GSA', 'GSV', 'VTG', 'GLL')]
    for f, nm in (('further', 'with further fields'), ('empty', 'with empty fields'), ('numbers', 'with free numbers')):
        out += [('talkers of %s %s' % (k, nm), G.talkers, (k, f)) for k in ('GGA', 'RMC', 'GSA', 'GSV', 'VTG', 'GLL') if (k, f) != ('GSV', 'empty')]
    out += [('talkers of AIS type %d' % t, A.identity, (t, 'VDM')) for t in (1, 2, 3, 4, 6, 9, 10, 18, 21, 27)]
    out += [('talkers of own AIS type %d' % t, A.identity, (t, 'VDO')) for t in (1, 4, 21)]
    out += [('talkers of %s type %d, all payload bits free' % (k, t), A.identity, (t, k, True)) for k in ('VDM', 'VDO') for t in (1, 2, 3, 4, 6, 9, 10, 18, 21, 27)]
    return out


INTS = {1: ('mmsi', 'timestamp_seconds', 'radio_status'), 4: ('mmsi', 'radio_status'),
        5: ('mmsi', 'ais_version_indicator', 'imo_number', 'draught10', 'dimension_to_bow', 'dimension_to_stern', 'dimension_to_port', 'dimension_to_starboard'),
        6: ('mmsi', 'sequence_number', 'destination_mmsi', 'dac', 'fid'), 9: ('mmsi', 'altitude', 'sog_knots', 'timestamp_seconds', 'regional', 'radio_status'),
        10: ('source_mmsi', 'destination_mmsi'), 18: ('mmsi', 'timestamp_seconds', 'radio_status'),
        21: ('mmsi', 'timestamp_seconds', 'regional', 'dimension_to_bow', 'dimension_to_stern', 'dimension_to_port', 'dimension_to_starboard'), 27: ('mmsi',)}
INTS24 = ('mmsi', 'equipment_model', 'equipment_serial_number', 'mothership_mmsi', 'dimension_to_bow', 'dimension_to_stern', 'dimension_to_port', 'dimension_to_starboard')


def p39():
    out = []
    for t in INTS:
        if t == 21:
            out.append(('integers of type 21', A.t_fields, (21, 46, ((43, 163), (272, 276)), INTS[21])))
        else:
            out.append(('integers of type %d' % t, A.t_fields, (t, CHARS[t], (), INTS[t])))
    out.append(('integers of type 24', A.t24_pair, ('AB', INTS24)))
    return out


def p07(tier):
    out = [('type %d' % t, A.message_type, (t,)) for t in range(64)]
    for n in list(range(1, 100)) + [120, 168, 177, 180, 255, 256, 300] + ([1000] if tier != 'quick' else []):
        out.append(('other types of %d characters' % n, A.message_length, (tuple(t for t in range(64) if t != 24 and t not in A.KIND), n)))
        if n in (1, 2, 7, 12, 21, 33, 34, 35, 46, 53, 61, 71, 72, 90, 120, 180, 1000):
          out += [('type %d of %d characters' % (t, n), A.message_length, ((t,), n)) for t in range(64) if t == 24 or t in A.KIND]
    return out


def p08():
    out = []
    for k in ('VDM', 'VDO'):
        out += [('identity type %d %s' % (t, k), A.identity, (t, k)) for t in (1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27)]
        out += [('identity type %d %s, all payload bits free' % (t, k), A.identity, (t, k, True)) for t in (1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27)]
        out.append(('identity type 24 %s' % k, A.identity24, (k,)))
    out += [('identity type 24 of both kinds, %s first' % 'BA'[o], A.identity24_mixed, (o,)) for o in (1, 0)]
    out += [('identity type %d in fragments, order %d' % (t, o), A.identity_fragments, (t, o)) for t in (1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27) for o in (0, 1)]
    out += [('identity type %d in fragments, all payload bits free, order %d' % (t, o), A.identity_fragments, (t, o, True)) for t in (1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27) for o in (0, 1)]
    return out


def p09():
    out = [('characters of type %d' % t, A.armor_first, (t,)) for t in (1, 4, 9, 10, 18, 27)]
    out.append(('first character', A.armor_type, ('0' * 27,)))
    for t, n in ((1, 33), (5, 71), (5, 80), (21, 60), (6, 168), (9, 64), (27, 17), (4, 120)):
        at = sorted(set(list(range(1, n, 12)) + [n] + ([47, 48] if t == 5 else [])))      # (the ETA in parts)
        for a, b in zip(at, at[1:]):
            out.append(('characters %d to %d of type %d with %d' % (a, b - 1, t, n), A.armor_window, (t, n, a, b)))
    for c in '\u00e9\u0130\u20ac\uff10\U0001f6a2':
        for pos in (0, 1, 13, 27):
            out.append(('character U+%04X at %d' % (ord(c), pos), A.armor_wide, (1, c, pos)))
    out += [('characters of fragments in order', A.armor_fragments, (True,)), ('characters of fragments swapped', A.armor_fragments, (False,))]
    return out


def p17():
    return [('type 24 part A then B', A.t24_pair, ('AB',)), ('type 24 part B then A', A.t24_pair, ('BA',)),
            ('type 24 part 2', A.t24_parts_rejected, (2,)), ('type 24 part 3', A.t24_parts_rejected, (3,))]


def p21():
    return [('call sign', A.texts, (5, 'call_sign', 70, 7)), ('name of type 5', A.texts, (5, 'name', 112, 20)),
            ('destination', A.texts, (5, 'destination', 302, 20)), ('name of type 21', A.texts, (21, 'name', 43, 20)),
            ('name of type 24', A.texts24, ('name',)), ('call sign of type 24', A.texts24, ('call_sign',)),
            ('vendor id of type 24', A.texts24, ('equipment_vendor_id',))] + A.T21[2:] + \
           [('%s of type %d, all other bits free' % (f, t), A.texts, (t, f, a, n, True)) for t, f, a, n in
            ((5, 'call_sign', 70, 7), (5, 'name', 112, 20), (5, 'destination', 302, 20), (21, 'name', 43, 20))] + \
           [('%s of type 24, all other bits free, %s' % (f, o), A.t24_pair, (o, (f,))) for f in ('name', 'call_sign', 'equipment_vendor_id') for o in ('AB', 'BA')]


def p22(tier):
    out = []
    for t in (1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27):
        n = CHARS[t]
        ls = list(range(1, n + 4))
        if t == 21:
            ls += [50, 55, 60, 61]
        ls += [n + 5, n + 12, n + 33, n + 90] + ([n + 200, n + 800] if tier != 'quick' else [])
        for x in ls:
            out.append(('type %d, %d characters' % (t, x), A.truncated, (t, x)))
    for na, nb in [(n, 28) for n in range(7, 34) if n != 28] + [(28, n) for n in range(7, 34)] + [(n, n) for n in (7, 9, 15, 20, 27)] + [(28, 80), (80, 28), (80, 80)]:
        out.append(('type 24, parts of %d and %d characters' % (na, nb), A.truncated24, (na, nb)))
    return out


def p24():
    cuts = [0, 1, 10, 20, 80, 90, 100, 111, 112, 201] + list(range(226, 776, 25)) + [776, 800, 900, 970, 971, 980, 982, 984, 986, 988, 990, 992, 994, 996, 998, 1000, 1074]
    cells = list(zip(cuts, cuts[1:]))
    out = [('MMSI %03d to %03d' % (a, b - 1), A.country, (a, b)) for a, b in cells]
    out += [('MMSI %03d to %03d, all payload bits free' % (a, b - 1), A.country, (a, b, True)) for a, b in cells]
    return out + [('identities %s, %d' % (f, k), A.country_form, (f, k)) for f in A.FORMS for k in (0, 123456, 999999, 211230) if not (k == 999999 and f == 'xxxxxxMID')]


def late(sc, fn, *args):
    """The scenario with parsers that have parsed a sentence of every kind before."""
    sc.history = True
    fn(sc, *args)


def young(sc, fn, *args):
    """The scenario with counters of the parser as they are in a new one."""
    sc.young = True
    fn(sc, *args)


def paced(sc, step, fn, *args):
    """The scenario with that much time between two sentences."""
    models_time.set_clock(sc.I, 1773144000 * models_time.NS)      # 10 March 2026, noon
    sc.pace = (step,)
    fn(sc, *args)


def enveloped(sc, fn, *args):
    """The scenario with any talker and envelope."""
    sc.envelope = True
    fn(sc, *args)


ENVELOPED = {'P07': 40, 'P10': 3, 'P11': 1, 'P12': 1, 'P13': 2, 'P14': 1, 'P15': 1, 'P16': 2, 'P17': 4, 'P18': 1, 'P19': 7, 'P20': 7, 'P21': 4, 'P22': 6, 'P23': 4,
             'P30': 8, 'P31': 8, 'P32': 8, 'P33': 8, 'P34': 8, 'P35': 8, 'P36': 8, 'P37': 8, 'P38': 6, 'P39': 6, 'P45': 4, 'P43': 1, 'P09': 6, 'P25': 16, 'P28': 20, 'P29': 30}
PACES = (('41 days', 41 * models_time.DAY), ('0.7 s', 7 * 10 ** 8), ('clock set back 3 hours', -3 * 3600 * models_time.NS))
TIMED = {'P04': 8, 'P25': 10, 'P26': 6, 'P27': 99, 'P28': 12, 'P29': 12, 'P44': 12}


def scenarios(prop, world, tier):
    """The scenarios of a property; some of them once more, with parsers that have a history or with time passing."""
    out = base(prop, world, tier)
    more = []
    for nm, step in PACES:
        n = TIMED.get(prop, 0)
        can = [s for s in out if ' (done)' not in s[0] and ' (frag)' not in s[0] and 'type 5' not in s[0] and not (prop == 'P44' and s[0][:3] in ('GGA', 'GLL'))]     # (their results have a date)
        can = can if len(can) <= n else [can[i * len(can) // n] for i in range(n)]
        more += [(s[0] + ', ' + nm + ' between sentences', paced, (step, s[1]) + tuple(s[2] if len(s) > 2 else ())) for s in can]
    n = ENVELOPED.get(prop, 0)
    can = [s for s in out if ' sentences (' not in s[0] and ' parts (' not in s[0]]
    more += [(s[0] + ', any envelope', enveloped, (s[1],) + tuple(s[2] if len(s) > 2 else ()))
             for s in (can if len(can) <= n else [can[i * len(can) // n] for i in range(n)])]
    return histories(prop, out, tier) + more


def histories(prop, out, tier):
    if prop in ('P02', 'P40', 'P41', 'P42', 'P46'):
        return out
    n = {'P01': 60}.get(prop, 12) * (1 if tier == 'quick' else 5)
    out = [s if i * n // len(out) != (i - 1) * n // len(out) else (s[0], young, (s[1],) + tuple(s[2] if len(s) > 2 else ()))
           for i, s in enumerate(out)] if prop == 'P01' else out
    pick = out if len(out) <= n else [out[i * len(out) // n] for i in range(n)]
    return out + [(s[0] + ', later', late, (s[1],) + tuple(s[2] if len(s) > 2 else ())) for s in pick]


def base(prop, world, tier):
    if prop == 'P03':
        return S.p03(tier)
    if prop == 'P04':
        return S.p04()
    if prop == 'P25':
        return S.p25(tier)
    if prop == 'P26':
        return S.p26(tier)
    if prop == 'P27':
        return S.p27(tier)
    if prop == 'P28':
        return S.p28(tier)
    if prop == 'P29':
        return S.p29(tier)
    if prop == 'P44':
        return S.p44(tier)
    if prop == 'P05':
        return S.p05()
    if prop == 'P01':
        return T.p01(tier, lambda p: base(p, world, 'quick'))
    if prop == 'P02':
        return T.p02(tier)
    if prop == 'P40':
        return X.p40()
    if prop == 'P41':
        return X.p41()
    if prop == 'P42':
        return X.p42(world)
    if prop in ('P46', 'P47', 'P48'):
        return getattr(W, prop.lower())(tier)
    if prop == 'P06':
        return p06()
    if prop == 'P35':
        return G.scen_coord(tier)
    if prop == 'P36':
        return G.scen_time(tier)
    if prop == 'P37':
        return G.scen_rmctime(tier)
    if prop == 'P38':
        return G.scen_cut(tier)
    if prop == 'P39':
        return G.scen_numbers(tier) + p39()
    if prop == 'P45':
        return G.scen_modes(tier)
    if prop in GNSS:
        return G.scen_fields(GNSS[prop], tier)
    if prop == 'P07':
        return p07(tier)
    if prop == 'P08':
        return p08()
    if prop == 'P09':
        return p09()
    if prop == 'P43':
        return [('all ETA fields and times', A.eta), ('all ETA fields and times, all other bits free', A.eta, (True,))]
    if prop == 'P10':
        return [A.one(1), A.one(2), A.one(3), A.near(1), A.near(2), A.near(3)]
    if prop == 'P11':
        return [A.one(4), A.near(4)]
    if prop == 'P12':
        return [A.one(5), A.near(5)]
    if prop == 'P13':
        return [A.one(6, None, 28), A.one(10), A.near(6, 28), A.near(10)]
    if prop == 'P14':
        return [A.one(9), A.near(9)]
    if prop == 'P15':
        return [A.one(18), A.near(18)]
    if prop == 'P16':
        return A.T21 + [A.near(21, 46, ((272, 276),))]
    if prop == 'P17':
        return p17()
    if prop == 'P18':
        return [A.one(27), A.near(27)]
    if prop == 'P19':
        return [('positions of type %d%s' % (t, ', all other bits free' if x else ''), A.positions, (t,) + x) for t in (1, 2, 3, 4, 9, 18, 21) for x in ((), (True,))]
    if prop == 'P20':
        return [('presence in type %d%s' % (t, ', fields interleaved' if x else ''), A.presence, (t,) + x) for t in (1, 2, 3, 4, 9, 18, 21) for x in ((), (True,))]
    if prop == 'P21':
        return p21()
    if prop == 'P22':
        return p22(tier)
    if prop == 'P23':
        return [('tables of type %d' % t, A.tables, (t,)) for t in (1, 27, 5, 4, 21)] + [('tables of type 24', A.tables24)] + \
            [('tables of type %d, all other bits free' % t, A.tables, (t, True)) for t in (1, 27, 5, 4, 21)] + \
            [('tables of type 24, all other bits free, %s' % o, A.t24_pair, (o, ('ship_type', 'cargo_type'))) for o in ('AB', 'BA')]
    if prop == 'P24':
        return p24()
    return []


FINISH = {'P01': T.finish}
