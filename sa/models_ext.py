"""Third party summaries: regular expressions, calendar, clock."""
import re as _re
import warnings
from .models import *
from .models import m, Unknown, split, split_int, sfield, deref, Limit
from . import models as M
from .models_str import substr, byte_off, char_range, ch_pred
from .models_iter import mk as mkit, ilist, hold, callf

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
        import re._parser as sre_parse
    except ImportError:
        import sre_parse


# ---------------------------------------------------------------- regex

def parse_re(pat):
    # (?P<n>..) is shared with Python; \z and (?<n>..) are not
    p = pat.replace('\\z', '\\Z')
    p = _re.sub(r'\(\?<([A-Za-z_])', r'(?P<\1', p)
    try:
        t = sre_parse.parse(p)
    except Exception:
        raise Unknown()
    names = dict(t.state.groupdict)
    return t, t.state.groups, names


CATS = {'CATEGORY_DIGIT': [(48, 57)], 'CATEGORY_WORD': [(48, 57), (65, 90), (95, 95), (97, 122)],
        'CATEGORY_SPACE': [(9, 13), (32, 32)]}


def in_set(x, items):
    neg = False
    e = 0
    for op, av in items:
        n = str(op)
        if n == 'NEGATE':
            neg = True
        elif n == 'LITERAL':
            e = OR(e, ieq(x, IntV(32, av)))
        elif n == 'RANGE':
            e = OR(e, char_range(x, av[0], av[1]))
        elif n == 'CATEGORY':
            cn = str(av)
            base = cn.replace('_NOT_', '_')
            if base not in CATS:
                raise Unknown()
            s = 0
            for lo, hi in CATS[base]:
                s = OR(s, char_range(x, lo, hi))
            e = OR(e, s ^ 1 if '_NOT_' in cn else s)
        else:
            raise Unknown()
    return e ^ 1 if neg else e


class Matcher:
    def __init__(self, s, pc):
        self.s = s
        self.pc = pc
        self.n = len(s.ch)
        self.budget = 200000

    def seq(self, items, i, pos, groups, g, k):
        """Matches of items[i:] at pos under guard g, in priority order, passed to k."""
        self.budget -= 1
        if self.budget < 0:
            raise Unknown()
        if AND(g, self.pc) == 0:
            return []
        if i == len(items):
            return k(pos, groups, g)
        op, av = items[i]
        n = str(op)
        nxt = lambda p, gr, gg: self.seq(items, i + 1, p, gr, gg, k)
        if n in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
            if pos >= self.n:
                return []
            x = self.s.ch[pos]
            if n == 'LITERAL':
                e = ieq(x, IntV(32, av))
            elif n == 'NOT_LITERAL':
                e = ieq(x, IntV(32, av)) ^ 1
            elif n == 'ANY':
                e = ieq(x, IntV(32, 10)) ^ 1
            else:
                e = in_set(x, av)
            return self.seq(items, i + 1, pos + 1, groups, AND(g, e), k)
        if n == 'SUBPATTERN':
            gid, add, dele, sub = av
            if add or dele:
                raise Unknown()

            def done(p, gr, gg):
                if gid is not None:
                    gr = dict(gr)
                    gr[gid] = (pos, p)
                return nxt(p, gr, gg)
            return self.seq(list(sub), 0, pos, groups, g, done)
        if n == 'BRANCH':
            out = []
            for alt in av[1]:
                out += self.seq(list(alt), 0, pos, groups, g, nxt)
            return out
        if n in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av
            sub = list(sub)
            hi = self.n + 1 if str(hi) == 'MAXREPEAT' else hi

            def rep(c, p, gr, gg):
                def more():
                    if c >= hi:
                        return []

                    def after(p2, gr2, gg2):
                        if p2 == p:
                            return []
                        return rep(c + 1, p2, gr2, gg2)
                    return self.seq(sub, 0, p, gr, gg, after)
                if c < lo:
                    return more()
                if n == 'MAX_REPEAT':
                    return more() + nxt(p, gr, gg)
                return nxt(p, gr, gg) + more()
            return rep(0, pos, groups, g)
        if n == 'AT':
            a = str(av)
            if a in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                return nxt(pos, groups, g) if pos == 0 else []
            if a in ('AT_END', 'AT_END_STRING'):
                return nxt(pos, groups, g) if pos == self.n else []
        raise Unknown()


def run_re(st, pat, s):
    """[(guard, groups)] disjoint, plus the guard of no match; leftmost match with its priorities."""
    t, ngroups, names = parse_re(pat)
    mt = Matcher(s, st.pc)
    left = 1
    res = []
    items = list(t)
    anchored = bool(items) and str(items[0][0]) == 'AT' and str(items[0][1]) in ('AT_BEGINNING', 'AT_BEGINNING_STRING')
    for start in range(1 if anchored else mt.n + 1):
        for g, gr in mt.seq(items, 0, start, {}, 1, lambda p, gr, gg: [(gg, dict(gr, **{'0': (start, p)}))]):
            q = AND(left, g)
            if AND(q, st.pc):
                gr[0] = gr.pop('0')
                res.append((q, gr))
                left = AND(left, g ^ 1)
            if AND(left, st.pc) == 0:
                break
        if AND(left, st.pc) == 0:
            break
    return res, left, ngroups, names


def regex_of(I, st, v):
    v = deref(I, st, v)
    if not (isinstance(v, AggV) and v.ty == 'regex'):
        raise Unknown()
    return v.fs[0].const()


@m('Regex::new', spec='d')
def _rnew(I, st, a, c):
    if not isinstance(a[0], StrV) or a[0].const() is None:
        raise Unknown()
    parse_re(a[0].const())
    return c.ok(AggV('regex', 0, (a[0],)))


def mkmatch(s, sp):
    return AggV('match', 0, (substr(s, *sp), ci(byte_off(s, sp[0])), ci(byte_off(s, sp[1]))))


@m('Regex::captures', 'Regex::find', 'Regex::is_match', 'Regex::shortest_match', spec='rd')
def _captures(I, st, a, c):
    n = c.c['name']
    if n == 'shortest_match' or not isinstance(a[1], StrV):
        raise Unknown()
    s = a[1]
    res, none, ng, names = run_re(st, regex_of(I, st, a[0]), s)
    if n == 'is_match':
        return boolv(none ^ 1)
    out = []
    for g, gr in res:
        s2 = st.with_pc(AND(st.pc, g))
        if n == 'find':
            out.append((s2, c.some(mkmatch(s, gr[0]))))
        else:
            ms = tuple(AggV('pend', 1, (mkmatch(s, gr[i]),)) if i in gr else AggV('pend', 0, ()) for i in range(ng))
            nm = VecV(tuple(AggV(None, 0, (cstr(k), ci(v))) for k, v in names.items()))
            out.append((s2, c.some(AggV('caps', 0, (VecV(ms), nm)))))
    p = AND(st.pc, none)
    if p:
        out.append((st.with_pc(p), c.none()))
    return out


def caps_get(I, st, v, key):
    """[(state, match or None)]"""
    v = deref(I, st, v)
    out = []
    for s, cp in split(I, st, v):
        if not (isinstance(cp, AggV) and cp.ty == 'caps'):
            raise Unknown()
        key = deref(I, s, key)
        if isinstance(key, StrV):
            idx = None
            for e in cp.fs[1].es:
                if e.fs[0].const() == key.const():
                    idx = e.fs[1].c
            if idx is None:
                out.append((s, None))
                continue
            ks = [(s, idx)]
        else:
            ks = split_int(I, s, key)
        for s2, i in ks:
            if i >= len(cp.fs[0].es):
                out.append((s2, None))
                continue
            for s3, x in split(I, s2, cp.fs[0].es[i]):
                out.append((s3, x.fs[0] if x.vi == 1 else None))
    return out


@m('Captures::get', 'Captures::name')
def _cget(I, st, a, c):
    return [(s, c.none() if x is None else c.some(x)) for s, x in caps_get(I, st, a[0], a[1])]


@m('Captures::len', spec='d')
def _clen(I, st, a, c):
    return ci(len(a[0].fs[0].es))


@m('Captures::extract', spec='d')
def _cext(I, st, a, c):
    raise Unknown()


@m('Match::as_str', 'Match::start', 'Match::end', 'Match::len', 'Match::is_empty', spec='d')
def _mas(I, st, a, c):
    v = a[0]
    if not (isinstance(v, AggV) and v.ty == 'match'):
        raise Unknown()
    n = c.c['name']
    if n == 'as_str':
        return v.fs[0]
    if n == 'start':
        return v.fs[1]
    if n == 'end':
        return v.fs[2]
    l = isub(v.fs[2], v.fs[1])
    return l if n == 'len' else boolv(ieq(l, ci(0)))


_index0 = MODELS['Index::index'][0]


@m('Index::index')
def _index(I, st, a, c):
    v = deref(I, st, a[0])
    x = v.cs[0][1] if isinstance(v, Cases) else v
    if isinstance(x, AggV) and x.ty == 'caps':
        out = []
        for s, y in caps_get(I, st, a[0], a[1]):
            if y is None:
                M.panic(I, s, 'no group with that index')
            else:
                out.append((s, y.fs[0]))
        return out
    return _index0(I, st, a, c)


# once cells holding a compiled expression or a table

@m('OnceLock::new', 'OnceCell::new', 'LazyLock::new', 'Lazy::new', 'LazyCell::new')
def _once(I, st, a, c):
    return AggV('once', 0, tuple(a))


@m('OnceLock::get_or_init', 'OnceCell::get_or_init', spec='rr')
def _goi(I, st, a, c):
    r = I.call_value(st, a[1], [])
    if r is None:
        return None
    return r[0], I.alloc(r[0], r[1])


@m('LazyLock::force', 'LazyLock::deref', 'LazyCell::force', 'LazyCell::deref')
def _force(I, st, a, c):
    """The value a static's initialiser computes; it is computed anew for each use."""
    v = a[0]
    while isinstance(v, Ref):
        v = I.load(st, v)
    if isinstance(v, AggV) and v.ty == 'static':
        r = I.call_body(st, v.fs[0].c, [])
        if r is None:
            return None
        st, v = r
    if not (isinstance(v, AggV) and v.ty == 'once' and v.fs):
        raise Unknown()
    r = I.call_value(st, v.fs[0], [])
    if r is None:
        return None
    return r[0], I.alloc(r[0], r[1])


_plain_deref = MODELS['Deref::deref'][0]


@m('Deref::deref')
def _deref_lazy(I, st, a, c):
    if 'Lazy' in (c.c.get('rpath') or ''):
        return _force(I, st, a, c)
    return _plain_deref(I, st, a, c)


# ---------------------------------------------------------------- calendar

def i32(c):
    return IntV(32, c & MASKS[32], None, True)


def u32(c):
    return IntV(32, c)


def leap(y):
    """Edge: y (IntV 32 signed, small non-negative) is a leap year."""
    b = y.bits
    d4 = AND(b[0] ^ 1, b[1] ^ 1)
    if d4 == 0:
        return 0
    if y.c is not None:
        v = y.sval()
        return 1 if v % 4 == 0 and (v % 100 != 0 or v % 400 == 0) else 0
    lo, hi = irange(y)
    r = d4
    for c in range(lo // 100 * 100, hi + 1, 100):
        if c % 400:
            r = AND(r, ieq(y, i32(c)) ^ 1)
    return r


def small_year(I, st, y):
    """Years must be bounded for the calendar model."""
    lo, hi = irange(y, st.pc)
    return -4000 <= lo and hi <= 20000


def valid_date(I, st, y, mo, d):
    d1 = ilt(u32(0), d)
    r = 0
    for k, n in enumerate((31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)):
        em = ieq(mo, u32(k + 1))
        if AND(em, st.pc) == 0:
            continue
        ok = ilt(d, u32(n + 1))
        if k == 1:
            ok = OR(ok, AND(ieq(d, u32(29)), leap(y)))
        r = OR(r, AND(em, AND(d1, ok)))
    return r


def valid_time(h, mi, s):
    return AND(ilt(h, u32(24)), AND(ilt(mi, u32(60)), ilt(s, u32(60))))


def mkdate(y, mo, d):
    return AggV('Date', 0, (y, mo, d))


def mkdt(date, time):
    return AggV('Dt', 0, tuple(date.fs[:3]) + tuple(time.fs))


YEARS = (1970, 2261)


def now(I):
    """The clock: one unknown instant per run, all components unconstrained but valid."""
    n = I.env.get('now')
    if n is None:
        n = make_now(I)
    return n


def make_now(I, mk=None):
    """mk(name, width) may allocate the bits elsewhere in the variable order."""
    mk = mk or (lambda name, w: I.fresh_bits(name, w))
    def iv(name, w, sg=False):
        return IntV(32, None, tuple(mk(name, w)) + (0,) * (32 - w), sg)
    y, mo, d = iv('now.year', 12, True), iv('now.month', 4), iv('now.day', 5)
    h, mi, s = iv('now.hour', 5), iv('now.minute', 6), iv('now.second', 6)
    ns = iv('now.nano', 1)
    v = AggV('Dt', 0, (y, mo, d, h, mi, s, ns))
    st = type('S', (), {'pc': 1})
    ok = AND(AND(ilt(y, i32(YEARS[0])) ^ 1, ilt(y, i32(YEARS[1] + 1))), AND(valid_date(I, st, y, mo, d), valid_time(h, mi, s)))
    I.env['now'] = v
    I.env['now_ok'] = ok
    return v


@m('Utc::now')
def _now(I, st, a, c):
    v = now(I)
    st.pc = AND(st.pc, I.env['now_ok'])
    return (st, v) if st.pc else None


@m('Utc::today', 'SystemTime::now', 'Local::now', 'Instant::now')
def _today(I, st, a, c):
    if c.c['name'] == 'today' and 'Utc' in (c.c.get('rpath') or ''):
        v = now(I)
        st.pc = AND(st.pc, I.env['now_ok'])
        return st, mkdate(*v.fs[:3])
    if c.c['name'] == 'now' and 'Local' in (c.c.get('rpath') or c.c.get('path') or ''):
        v = local(I, now(I))
        st.pc = AND(st.pc, I.env['now_ok'])
        return (st, v) if st.pc else None
    raise Unknown()


def local(I, v):
    """The clock in a local time zone: any whole hours off UTC that keep the date (some of the zones there are)."""
    l = I.env.get('local')
    if l is None:
        h = IntV(32, None, tuple(I.fresh_bits('now.local', 5)) + (0,) * 27)
        far = iadd(h, u32(12))
        ok = AND(AND(ilt(h, u32(24)), ilt(far, v.fs[3]) ^ 1), ilt(iadd(v.fs[3], u32(12)), h) ^ 1)
        I.env['now_ok'] = AND(I.env['now_ok'], ok)
        l = I.env['local'] = AggV('Loc', 0, (v, AggV('Dt', 0, v.fs[:3] + (h,) + v.fs[4:])))
    return l


def want(v, *tys):
    if isinstance(v, AggV) and v.ty == 'Loc' and 'Dt' in tys:
        return v.fs[1]
    if isinstance(v, AggV) and v.ty in tys:
        return v
    raise Unknown()


def ints(*vs):
    for v in vs:
        if not isinstance(v, IntV):
            raise Unknown()


def local_result(I, c, ok, v):
    """LocalResult (or MappedLocalTime) value"""
    t = I.types[c.dty]
    vi = {x['n']: i for i, x in enumerate(t['vs'])}
    none = AggV(c.dty, vi['None'], ())
    if ok == 0:
        return none
    return ite(ok, AggV(c.dty, vi['Single'], (v,)), none)


def opt(c, ok, v):
    return c.none() if ok == 0 else ite(ok, c.some(v), c.none())


def panicking(I, st, ok, v, msg):
    bad = AND(st.pc, ok ^ 1)
    if bad:
        I.event('panic', msg, bad)
        st.pc = AND(st.pc, ok)
    return (st, v) if st.pc else None


def care(st, e):
    """Constant when decided under the path condition."""
    if AND(e, st.pc) == 0:
        return 0
    if AND(e ^ 1, st.pc) == 0:
        return 1
    return e


def ymd(I, st, a):
    y, mo, d = a
    ints(y, mo, d)
    if not small_year(I, st, y):
        raise Unknown()
    return care(st, valid_date(I, st, y, mo, d)), mkdate(y, mo, d)


@m('TimeZone::ymd', spec='rvvv')
def _ymd(I, st, a, c):
    ok, v = ymd(I, st, a[1:4])
    return panicking(I, st, ok, v, 'No such local time')


@m('TimeZone::ymd_opt', spec='rvvv')
def _ymdo(I, st, a, c):
    ok, v = ymd(I, st, a[1:4])
    return local_result(I, c, ok, v)


@m('TimeZone::with_ymd_and_hms', spec='rvvvvvv')
def _wymd(I, st, a, c):
    ok, v = ymd(I, st, a[1:4])
    ints(*a[4:7])
    ok = AND(ok, valid_time(*a[4:7]))
    return local_result(I, c, care(st, ok), mkdt(v, AggV('Time', 0, tuple(a[4:7]) + (u32(0),))))


@m('NaiveDate::from_ymd_opt', spec='vvv')
def _nfo(I, st, a, c):
    ok, v = ymd(I, st, a)
    return opt(c, ok, v)


@m('NaiveDate::from_ymd', spec='vvv')
def _nf(I, st, a, c):
    ok, v = ymd(I, st, a)
    return panicking(I, st, ok, v, 'invalid or out-of-range date')


def tm(st, a):
    ints(*a[:3])
    return care(st, valid_time(*a[:3])), AggV('Time', 0, tuple(a[:3]) + (u32(0),))


@m('NaiveTime::from_hms_opt', spec='vvv')
def _tho(I, st, a, c):
    ok, v = tm(st, a)
    return opt(c, ok, v)


@m('NaiveTime::from_hms', spec='vvv')
def _th(I, st, a, c):
    ok, v = tm(st, a)
    return panicking(I, st, ok, v, 'invalid time')


@m('Date::and_hms_opt', 'NaiveDate::and_hms_opt', spec='dvvv')
def _aho(I, st, a, c):
    d = want(a[0], 'Date')
    ok, v = tm(st, a[1:])
    return opt(c, ok, mkdt(d, v))


@m('Date::and_hms', 'NaiveDate::and_hms', spec='dvvv')
def _ah(I, st, a, c):
    d = want(a[0], 'Date')
    ok, v = tm(st, a[1:])
    return panicking(I, st, ok, mkdt(d, v), 'invalid time')


@m('Date::and_time', spec='dv')
def _dat(I, st, a, c):
    return c.some(mkdt(want(a[0], 'Date'), want(a[1], 'Time')))


@m('NaiveDate::and_time', 'NaiveDateTime::new', spec='dv')
def _nat(I, st, a, c):
    return mkdt(want(a[0], 'Date'), want(a[1], 'Time'))


@m('DateTime::from_utc', 'DateTime::from_naive_utc_and_offset', 'NaiveDateTime::and_utc', 'DateTime::naive_utc', 'DateTime::naive_local',
   'DateTime::with_timezone', 'DateTime::from_local', 'Date::from_utc', 'Date::naive_utc', 'Date::naive_local', 'Date::with_timezone', spec='d')
def _ident(I, st, a, c):
    if isinstance(a[0], AggV) and a[0].ty == 'Loc' and c.c['name'] in ('naive_utc', 'with_timezone'):
        return a[0].fs[0] if c.c['name'] == 'naive_utc' or 'Utc' in I.types[c.dty]['s'] else a[0]
    if c.c['name'] in ('with_timezone', 'from_local') and 'Local' in I.types[c.dty]['s']:
        raise Unknown()
    return want(a[0], 'Dt', 'Date')


@m('TimeZone::from_utc_datetime', 'TimeZone::from_utc_date', spec='rd')
def _fud(I, st, a, c):
    return want(a[1], 'Dt', 'Date')


@m('TimeZone::from_local_datetime', 'TimeZone::from_local_date', spec='rd')
def _fld(I, st, a, c):
    return local_result(I, c, 1, want(a[1], 'Dt', 'Date'))


@m('NaiveDateTime::and_local_timezone', spec='dr')
def _alt(I, st, a, c):
    return local_result(I, c, 1, want(a[0], 'Dt'))


@m('DateTime::date', 'DateTime::date_naive', 'NaiveDateTime::date', spec='d')
def _date(I, st, a, c):
    return mkdate(*want(a[0], 'Dt').fs[:3])


@m('DateTime::time', 'NaiveDateTime::time', spec='d')
def _time(I, st, a, c):
    return AggV('Time', 0, want(a[0], 'Dt').fs[3:7])


COMP = {'year': 0, 'month': 1, 'day': 2, 'hour': 3, 'minute': 4, 'second': 5, 'nanosecond': 6}


def comp(v, n):
    if v.ty == 'Time':
        return v.fs[COMP[n] - 3]
    return v.fs[COMP[n]]


def _get(n):
    def f(I, st, a, c):
        return comp(want(a[0], 'Dt', 'Date', 'Time'), n)
    return f


for _n in ('year', 'month', 'day'):
    MODELS['Datelike::' + _n] = (_get(_n), 'd')
for _n in ('hour', 'minute', 'second', 'nanosecond'):
    MODELS['Timelike::' + _n] = (_get(_n), 'd')


@m('Datelike::month0', 'Datelike::day0', spec='d')
def _m0(I, st, a, c):
    return isub(comp(want(a[0], 'Dt', 'Date'), c.c['name'][:-1]), u32(1))


@m('Datelike::with_year', 'Datelike::with_month', 'Datelike::with_day', 'Timelike::with_hour', 'Timelike::with_minute', 'Timelike::with_second',
   'Timelike::with_nanosecond', spec='dv')
def _with(I, st, a, c):
    v = want(a[0], 'Dt', 'Date')
    n = c.c['name'][5:]
    fs = list(v.fs)
    fs[COMP[n]] = a[1]
    ints(a[1])
    if n in ('year', 'month', 'day'):
        ok, _ = ymd(I, st, fs[:3])
    elif n == 'nanosecond':
        ok = ilt(a[1], u32(2000000000))
    else:
        ok = valid_time(*fs[3:6])
    return opt(c, care(st, ok), AggV(v.ty, 0, tuple(fs)))


@m('LocalResult::single', 'LocalResult::earliest', 'LocalResult::latest', 'MappedLocalTime::single', 'MappedLocalTime::earliest',
   'MappedLocalTime::latest', spec='v')
def _single(I, st, a, c):
    v = a[0]
    if not isinstance(v, AggV):
        raise Unknown()
    return c.some(v.fs[0]) if len(v.fs) == 1 else c.none()


@m('LocalResult::unwrap', 'MappedLocalTime::unwrap', spec='v')
def _lunwrap(I, st, a, c):
    v = a[0]
    if not isinstance(v, AggV):
        raise Unknown()
    if len(v.fs) == 1:
        return v.fs[0]
    return M.panic(I, st, 'No such local time')


def parse_fmt(I, st, a, c):
    raise Unknown()


# ---------------------------------------------------------------- numbers other than zero (kept as the number)

@m('NonZero::new', spec='v')
def _nonzero(I, st, a, c):
    if not isinstance(a[0], IntV):
        raise Unknown()
    z = ieq(a[0], IntV(a[0].w, 0))
    return ite(z, c.none(), c.some(a[0])) if z else c.some(a[0])


@m('NonZero::get', 'NonZero::new_unchecked', spec='v')
def _nz_get(I, st, a, c):
    if not isinstance(a[0], IntV):
        raise Unknown()
    return a[0]
