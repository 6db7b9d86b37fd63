"""Models of passing time: instants, differences of date-times, durations.  A scenario either has one unknown moment at
which everything happens (every difference is zero then) or a concrete clock that advances between the sentences."""
import datetime
from .vals import *
from . import models as M
from .models import m, MODELS, Unknown, deref
from .models_ext import want, now, leap, u32, mkdate
from .interp import *

NS = 10 ** 9
DAY = 86400 * NS
EPOCH = datetime.datetime(1970, 1, 1)


def set_clock(I, ns):
    """The wall clock stands at ns (nanoseconds since 1970) from now on."""
    old = I.env.get('unix')
    I.env['unix'] = ns
    I.env['mono'] = I.env.get('mono', 10 ** 15) + (max(ns - old, 0) if old is not None else 0)
    I.env['now'] = dt_of(ns)
    I.env['now_ok'] = 1
    I.env.pop('local', None)


def dt_of(ns):
    t = EPOCH + datetime.timedelta(seconds=ns // NS)
    return AggV('Dt', 0, tuple([IntV(32, t.year, None, True)] + [IntV(32, x) for x in (t.month, t.day, t.hour, t.minute, t.second, ns % NS)]))


def span(ns):
    if not -1 << 63 <= ns < 1 << 63:
        raise Unknown()
    return AggV('Span', 0, (IntV(64, ns & MASKS[64], None, True),))


def inst(ty, ns):
    return AggV(ty, 0, (IntV(64, ns),))


def one(v):
    if isinstance(v, Cases):
        raise Unknown()
    return v


def span_ns(v):
    v = one(v)
    if isinstance(v, AggV) and v.ty == 'Span':
        return v.fs[0].sval()
    if isinstance(v, AggV) and type(v.ty) is int and len(v.fs) == 2 and isinstance(v.fs[0], IntV) and v.fs[0].c is not None:
        n = v.fs[1].fs[0] if isinstance(v.fs[1], AggV) and v.fs[1].fs else v.fs[1]
        if isinstance(n, IntV) and n.c is not None:
            return v.fs[0].sval() * NS + n.c
    raise Unknown()


def stamp(v):
    """Nanoseconds of a concrete moment."""
    v = one(v)
    if isinstance(v, AggV) and v.ty in ('Inst', 'Sys'):
        return v.fs[0].c
    if isinstance(v, AggV) and v.ty == 'Loc':
        v = v.fs[0]
    if isinstance(v, AggV) and v.ty == 'Dt' and all(f.c is not None for f in v.fs):
        y, mo, d, h, mi, s, ns = [f.c for f in v.fs]
        return int((datetime.datetime(y, mo, d, h, mi, min(s, 59)) - EPOCH).total_seconds() + s - min(s, 59)) * NS + ns
    return None


def moment(v):
    v = one(v)
    return isinstance(v, AggV) and v.ty in ('Inst', 'Sys', 'Dt', 'Loc', 'Date')


def diff(a, b):
    """a - b in nanoseconds"""
    if not (moment(a) and moment(b) and a.ty == b.ty):
        raise Unknown()
    if a.key() == b.key():
        return 0
    x, y = stamp(a), stamp(b)
    if x is None or y is None:
        raise Unknown()
    return x - y


def gap(a, b):
    """a - b, as a number when it is known."""
    try:
        return span(diff(a, b))
    except Unknown:
        if isinstance(a, AggV) and isinstance(b, AggV) and a.ty == b.ty and a.ty in ('Dt', 'Date'):
            return AggV('Gap', 0, (a, b))
        raise


def gap_seconds(I, st, v):
    """Whole seconds of a gap within one day."""
    a, b = v.fs
    if a.ty != 'Dt' or any(x.key() != y.key() for x, y in zip(a.fs[:3], b.fs[:3])):
        raise Unknown()
    if not all(x.fs[6].c == 0 for x in (a, b)) and a.fs[6].key() != b.fs[6].key():
        raise Unknown()

    def sod(x):
        h, mi, s = [extend(IntV(f.w, f.c, f.b, False), 64) for f in x.fs[3:6]]
        return iadd(iadd(I.binop(st, 'Mul', h, IntV(64, 3600)), I.binop(st, 'Mul', mi, IntV(64, 60))), s)
    d = isub(sod(a), sod(b))
    return IntV(64, d.c, d.b, True)


def gap_cmp(I, st, a, b):
    """(less, equal) of two durations one of which is a gap."""
    if a.ty != 'Gap':
        l, e = gap_cmp(I, st, b, a)
        return OR(l, e) ^ 1, e
    x = a.fs[0]
    y = shifted(a.fs[1], span_ns(b))
    return M.lt_values(I, st, x, y)


def shifted(v, ns):
    if not moment(v):
        raise Unknown()
    if ns == 0:
        return v
    if v.ty == 'Date':
        k, r = divmod(abs(ns), DAY)      # (chrono adds the whole days)
        return mkdate(*days_later(v.fs[:3], k if ns > 0 else -k))
    x = stamp(v)
    if v.ty == 'Dt' and x is None:
        return later(v, ns)
    if x is None or v.ty == 'Loc':
        raise Unknown()
    return dt_of(x + ns) if v.ty == 'Dt' else inst(v.ty, x + ns)


def days_in(y, mo):
    e30 = 0
    for k in (4, 6, 9, 11):
        e30 = OR(e30, ieq(mo, u32(k)))
    n = ite(e30, u32(30), u32(31))
    feb = ieq(mo, u32(2))
    return ite(feb, ite(leap(y), u32(29), u32(28)), n) if feb else n


def next_day(fs):
    y, mo, d = fs
    last = ilt(d, days_in(y, mo)) ^ 1
    dec = AND(last, ieq(mo, u32(12)))
    return (ite(dec, iadd(y, IntV(32, 1, None, True)), y), ite(dec, u32(1), ite(last, iadd(mo, u32(1)), mo)), ite(last, u32(1), iadd(d, u32(1))))


def previous_day(fs):
    y, mo, d = fs
    first = ieq(d, u32(1))
    jan = AND(first, ieq(mo, u32(1)))
    y1 = ite(jan, isub(y, IntV(32, 1, None, True)), y)
    m1 = ite(jan, u32(12), ite(first, isub(mo, u32(1)), mo))
    return y1, m1, ite(first, days_in(y1, m1), isub(d, u32(1)))


def tidy(fs):
    return tuple(IntV(f.w, None, tuple(f.bits), f.sg) if f.c is None else f for f in fs)


def days_later(fs, k):
    if abs(k) > 800:
        raise Unknown()
    for _ in range(abs(k)):
        fs = tidy(next_day(fs) if k > 0 else previous_day(fs))
    return fs


def add_mod(x, k, carry, mod):
    """(x + k + carry) modulo mod, and whether it went over."""
    v = iadd(x, u32(k))
    if carry:
        v = ite(carry, iadd(v, u32(1)), v)
    over = ilt(v, u32(mod)) ^ 1
    return ite(over, isub(v, u32(mod)), v), over


def later(v, ns):
    """A moment with unknown components, shifted by a known time."""
    date, (h, mi, s, nano) = v.fs[:3], v.fs[3:7]
    k, r = divmod(ns, DAY)
    c = 0
    nano, c = add_mod(nano, r % NS, c, NS) if r % NS else (nano, 0)
    r //= NS
    s, c = add_mod(s, r % 60, c, 60)
    mi, c = add_mod(mi, r // 60 % 60, c, 60)
    h, c = add_mod(h, r // 3600, c, 24)
    a = days_later(date, k)
    if c:
        b = days_later(a, 1)
        a = tuple(ite(c, y, x) for x, y in zip(a, b))
    return AggV('Dt', 0, tidy(tuple(a) + (h, mi, s, nano)))


_now0 = MODELS['Instant::now'][0]


@m('SystemTime::now', 'Instant::now')
def _clock(I, st, a, c):
    if 'Instant' in (c.c.get('rpath') or c.c.get('path') or ''):
        return inst('Inst', I.env.setdefault('mono', 10 ** 15))
    if 'unix' not in I.env:
        raise Unknown()
    return inst('Sys', I.env['unix'])


@m('Instant::elapsed', spec='d')
def _elapsed(I, st, a, c):
    return span(diff(inst('Inst', I.env['mono']), a[0]))


@m('SystemTime::elapsed', spec='d')
def _selapsed(I, st, a, c):
    n = diff(inst('Sys', I.env['unix']), a[0])
    return c.ok(span(n)) if n >= 0 else c.err(AggV('SystemTimeError', 0, (span(-n),)))


@m('Instant::duration_since', 'Instant::saturating_duration_since', spec='dd')
def _since(I, st, a, c):
    return span(max(diff(a[0], a[1]), 0))


@m('Instant::checked_duration_since', spec='dd')
def _csince(I, st, a, c):
    n = diff(a[0], a[1])
    return c.some(span(n)) if n >= 0 else c.none()


@m('SystemTime::duration_since', spec='dd')
def _ssince(I, st, a, c):
    n = diff(a[0], a[1])
    return c.ok(span(n)) if n >= 0 else c.err(AggV('SystemTimeError', 0, (span(-n),)))


@m('DateTime::signed_duration_since', 'NaiveDateTime::signed_duration_since', spec='dd')
def _sds(I, st, a, c):
    return gap(a[0], a[1])


@m('NaiveDate::signed_duration_since', 'Date::signed_duration_since', spec='dd')
def _dsds(I, st, a, c):
    return gap(a[0], a[1])


@m('NaiveDate::succ', 'NaiveDate::pred', 'Date::succ', 'Date::pred', 'NaiveDate::succ_opt', 'NaiveDate::pred_opt', 'Date::succ_opt', 'Date::pred_opt', spec='d')
def _succ(I, st, a, c):
    v = want(a[0], 'Date')
    r = mkdate(*days_later(v.fs[:3], 1 if c.c['name'].startswith('succ') else -1))
    return c.some(r) if c.c['name'].endswith('opt') else r


@m('Days::new', spec='v')
def _days(I, st, a, c):
    return span(number(a[0]) * DAY)


@m('NaiveDate::checked_add_days', 'NaiveDateTime::checked_add_days', 'DateTime::checked_add_days', 'Date::checked_add_days',
   'NaiveDate::checked_sub_days', 'NaiveDateTime::checked_sub_days', 'DateTime::checked_sub_days', spec='dd')
def _cdays(I, st, a, c):
    return c.some(shifted(a[0], span_ns(a[1]) * (1 if 'add' in c.c['name'] else -1)))


@m('Instant::checked_add', 'SystemTime::checked_add', 'DateTime::checked_add_signed', 'NaiveDateTime::checked_add_signed', 'NaiveDate::checked_add_signed', 'Date::checked_add_signed', spec='dd')
def _cadd(I, st, a, c):
    return c.some(shifted(a[0], span_ns(a[1])))


@m('Instant::checked_sub', 'SystemTime::checked_sub', 'DateTime::checked_sub_signed', 'NaiveDateTime::checked_sub_signed', 'NaiveDate::checked_sub_signed', 'Date::checked_sub_signed', spec='dd')
def _csub(I, st, a, c):
    return c.some(shifted(a[0], -span_ns(a[1])))


def timely(v):
    return isinstance(v, AggV) and isinstance(v.ty, str) and v.ty in ('Inst', 'Sys', 'Dt', 'Loc', 'Date', 'Span', 'Gap')


def spanlike(v):
    try:
        span_ns(v)
        return True
    except (Unknown, AttributeError, IndexError):
        return False


def _arith(sign, old):
    def f(I, st, a, c):
        x, y = a
        x1, y1 = (deref(I, st, v) if isinstance(v, Ref) else v for v in a)
        if not (timely(x1) or timely(y1)):
            if old is None:
                raise Unknown()
            return old(I, st, a, c)
        if moment(x1) and moment(y1) and sign < 0:
            return span(max(diff(x1, y1), 0)) if x1.ty == 'Inst' else gap(x1, y1)
        if moment(x1):
            return shifted(x1, sign * span_ns(y1))
        return span(span_ns(x1) + sign * span_ns(y1))
    return f


MODELS['Add::add'] = (_arith(1, MODELS['Add::add'][0]), MODELS['Add::add'][1])
MODELS['Sub::sub'] = (_arith(-1, MODELS['Sub::sub'][0] if 'Sub::sub' in MODELS else None), MODELS['Sub::sub'][1] if 'Sub::sub' in MODELS else 'vv')

UNITS = {'nanos': 1, 'micros': 1000, 'millis': 10 ** 6, 'secs': NS, 'mins': 60 * NS, 'hours': 3600 * NS, 'days': DAY, 'weeks': 7 * DAY,
         'nanoseconds': 1, 'microseconds': 1000, 'milliseconds': 10 ** 6, 'seconds': NS, 'minutes': 60 * NS}


def number(v):
    v = one(v)
    if not isinstance(v, IntV) or v.c is None:
        raise Unknown()
    return v.sval() if v.sg else v.c


def _from(u):
    def f(I, st, a, c):
        return span(number(a[0]) * UNITS[u])
    return f


def _as(u, w):
    def f(I, st, a, c):
        if isinstance(a[0], AggV) and a[0].ty == 'Gap' and UNITS[u] >= NS:
            return I.binop(st, 'Div', gap_seconds(I, st, a[0]), IntV(64, UNITS[u] // NS, None, True))
        n = span_ns(a[0])
        q = abs(n) // UNITS[u]
        return IntV(w, (q if n >= 0 else -q) & MASKS[w], None, w == 64 and signed(u))
    return f


def signed(u):
    return u not in ('secs', 'millis', 'micros', 'nanos')


for _u in ('nanos', 'micros', 'millis', 'secs', 'mins', 'hours', 'days', 'weeks'):
    MODELS['Duration::from_' + _u] = (_from(_u), 'v')
for _t in ('Duration', 'TimeDelta'):
    for _u in ('nanoseconds', 'microseconds', 'milliseconds', 'seconds', 'minutes', 'hours', 'days', 'weeks'):
        MODELS['%s::%s' % (_t, _u)] = (_from(_u), 'v')
        if _u not in ('nanoseconds', 'microseconds'):
            MODELS['%s::num_%s' % (_t, _u)] = (_as(_u, 64), 'd')
MODELS['Duration::as_secs'] = (_as('secs', 64), 'd')
for _u in ('nanos', 'micros', 'millis'):
    MODELS['Duration::as_' + _u] = (_as(_u, 128), 'd')


@m('TimeDelta::try_seconds', 'TimeDelta::try_minutes', 'TimeDelta::try_hours', 'TimeDelta::try_days', 'TimeDelta::try_weeks', 'TimeDelta::try_milliseconds', spec='v')
def _try(I, st, a, c):
    return c.some(span(number(a[0]) * UNITS[c.c['name'][4:]]))


@m('Duration::subsec_nanos', 'Duration::subsec_micros', 'Duration::subsec_millis', 'TimeDelta::subsec_nanos', spec='d')
def _subsec(I, st, a, c):
    return IntV(32, span_ns(a[0]) % NS // UNITS[c.c['name'][7:]])


@m('Duration::as_secs_f64', 'Duration::as_secs_f32', spec='d')
def _asf(I, st, a, c):
    return FloatV(span_ns(a[0]) / NS, (), 64 if c.c['name'].endswith('64') else 32)


@m('Duration::new', spec='vv')
def _dnew(I, st, a, c):
    return span(number(a[0]) * NS + number(a[1]))


@m('TimeDelta::zero', 'Duration::zero')
def _zero(I, st, a, c):
    return span(0)


@m('TimeDelta::is_zero', 'Duration::is_zero', spec='d')
def _isz(I, st, a, c):
    return M.boolv(1 if span_ns(a[0]) == 0 else 0)


@m('TimeDelta::abs', spec='d')
def _abs(I, st, a, c):
    return span(abs(span_ns(a[0])))


@m('TimeDelta::to_std', spec='d')
def _tostd(I, st, a, c):
    n = span_ns(a[0])
    return c.ok(span(n)) if n >= 0 else c.err(AggV('OutOfRange', 0, ()))


@m('Duration::checked_sub', 'Duration::checked_add', 'TimeDelta::checked_sub', 'TimeDelta::checked_add', spec='dd')
def _dchk(I, st, a, c):
    n = span_ns(a[0]) + (-1 if c.c['name'] == 'checked_sub' else 1) * span_ns(a[1])
    return c.none() if n < 0 and 'TimeDelta' not in (c.c.get('rpath') or '') else c.some(span(n))


@m('Duration::saturating_sub', 'Duration::saturating_add', spec='dd')
def _dsat(I, st, a, c):
    return span(max(0, span_ns(a[0]) + (-1 if c.c['name'] == 'saturating_sub' else 1) * span_ns(a[1])))


@m('DateTime::timestamp', 'DateTime::timestamp_millis', 'DateTime::timestamp_micros', 'NaiveDateTime::timestamp', 'NaiveDateTime::timestamp_millis', spec='d')
def _ts(I, st, a, c):
    x = stamp(a[0])
    if x is None:
        raise Unknown()
    u = {'timestamp': NS, 'timestamp_millis': 10 ** 6, 'timestamp_micros': 1000}[c.c['name']]
    return IntV(64, x // u & MASKS[64], None, True)


def both(a, b):
    """Two durations, at least one of them computed here, as numbers."""
    if (timely(a) or timely(b)) and spanlike(a) and spanlike(b):
        return span_ns(a), span_ns(b)
    return None


M.spans = both
M.gaps = gap_cmp
