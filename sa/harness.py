"""Scenarios: symbolic sentences given to the parser, and obligations about its results."""
import random
import re
import sys
import time
import traceback
from . import bdd
from .bdd import AND, OR, NOT, XOR, ITE
from .vals import *
from .interp import World, Interp, State, Limit
from . import models, models_ext, models_time
from .models import *                      # noqa: F401,F403
from .spec import *
from .spec import Diff, alts, variant, num_eq


class Vacuous(Exception):
    """The cell contains no input of the scenario."""


class Missing(Exception):
    """A public anchor is not there."""


def implies_edge(a, b):
    return OR(a ^ 1, b)


def armor_char(bits):
    """Payload character of six bits, most significant first."""
    iv = IntV(32, None, tuple(reversed(bits)) + (0,) * 26)
    if iv.c is not None:
        return ch(iv.c + 48 if iv.c < 40 else iv.c + 56)
    lo = iadd(iv, IntV(32, 48))
    hi = iadd(iv, IntV(32, 56))
    return ite(ilt(iv, IntV(32, 40)), lo, hi)


# groups of sentences that leave nothing waiting
WARM = [
    ['$GPGLL,4916.45,N,12311.12,W,225444,A'],
    ['$GPXXX,1,2,3'],
    ['$GPGLL,4916.45,N,12311.12,W,225444,A*00'],
    ['!AIVDM,1,1,,A,1000000000000000000000000000,0'],
    ['!AIVDM,2,1,9,Z,10000000000000,0', '!AIVDM,2,2,9,Z,00000000000000,0'],
    ['$GPGSV,2,1,02,07,11,222,33', '$GPGSV,2,2,02,08,11,222,33'],
]


# a sentence of every kind (an odd number of each), nothing is left waiting
HISTORY = [
    '$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,2,0120',
    '$GNRMC,225446.5,A,4916.45,S,12311.12,W,010.5,054.7,191194,020.3,E',
    '$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3',
    '$GPVTG,360.0,T,348.7,M,012.0,N,022.2,K,A',
    '$GPGLL,4916.45,S,12311.12,E,225444,A,D',
    '$GPGSV,1,1,02,07,11,222,33,09,22,111,44',
    '$GPGSV,2,2,05,09,10,100,40', '$GPGSV,2,1,05,07,11,222,33,08,12,123,34,10,13,124,35,11,14,125,36',
    '!AIVDM,1,1,,A,13u@Dt002s000000000000000000,0',
    '!AIVDO,1,1,,B,15RTgt0PAso;90TKcjM8h6g208CQ,0',
    '!AIVDM,2,1,3,B,55P5TL01VIaAL@7WKO@mBplU@<PDhh000000001S;AJ::4A80?4i@E53,0', '!AIVDM,2,2,3,B,1@0000000000000,2',
    '!AIVDM,1,1,,A,402;bFQv@kkLc00Dl4LE52100@J6,0',
    '!AIVDM,1,1,,B,91b77=h3h00nHt0Q3r@@07000<0b,0',
    '!AIVDM,1,1,,A,B0000003wk?8mP=18D3Q3wP60000,0',
    '!AIVDM,1,1,,A,H42O55i18tMET00000000000000,2', '!AIVDM,1,1,,A,H42O55lti4hhhilD3nink000?050,0',
    '!AIVDM,1,1,,B,E>jCfrv2`0c2h0W:0a2ah@@@@@@004WD>;2<H50hppN000,4',
    '!AIVDM,1,1,,A,KCQ9r=hrFUnH7P00,0',
    '!AIVDM,1,1,,A,h000,0',
    '!AIVDM,1,1,,A,~~~~,0',
    '!AIVDM,2,3,1,A,1000,0',
    '$GPGSV,2,3,01,07,11,222,33',
    '$GPGLL,4916.45,N,12311.12,W,225444,A*00',
    '$GPXXX,1,2,3',
    'nothing',
]


def scalars(v, path=()):
    """{path: plain integer} of a value."""
    if isinstance(v, IntV) and v.w >= 8:
        return {path: v}
    out = {}
    if isinstance(v, AggV):
        for i, x in enumerate(v.fs):
            out.update(scalars(x, path + (i,)))
    return out


def put(v, new, path=()):
    if path in new:
        return new[path]
    if isinstance(v, AggV):
        return AggV(v.ty, v.vi, tuple(put(x, new, path + (i,)) for i, x in enumerate(v.fs)))
    return v


class Res:
    """Result of one parse_sentence call."""
    def __init__(self, v, ty, pc):
        self.v, self.ty, self.pc = v, ty, pc


class Sc:
    """One run of the abstract interpreter."""

    def __init__(self, world, name, seed=1, deadline=None):
        bdd.reset()
        self.w = world
        self.types = world.types
        self.name = name
        self.I = Interp(world, deadline)
        self.st = State(1, {})
        self.D = Diff(self.I, seed)
        self.rnd = random.Random(seed)
        self.sentences = []
        self.earlier = []
        self.young = False
        self.oblig = []          # dicts: label, status, detail
        self.result_ty = None
        self.seen_events = 0
        self.site_ty = None
        self.total = False      # record an obligation for every call that returns
        self.parse_id = self.anchor('::parse_sentence')
        self.new_id = self.anchor('NmeaParser::new')
        self.hints = []
        self.one_parser = False     # all parsers of the scenario are one
        self.kept = None
        self.envelope = False   # any talker, kind, channel, message id, fill digit and a right checksum around payloads and fields
        self.vd = self.talker = None
        self.pace = None        # nanoseconds that pass before each sentence (in turns), else one unknown moment
        self.history = False    # whether parsers have parsed a sentence of every kind before
        self.result_ty = world.bodies[self.parse_id]['locals'][0]

    def hint(self, e):
        """Remember a cell of the input space (a solution of e) to be looked at on its own if the whole is too large."""
        a = bdd.pick(e, None) if e else None
        if a:
            self.hints.append({(bdd.VARINFO[v][0], bdd.VARINFO[v][2]): b for v, b in a.items() if not bdd.VARINFO[v][1]})

    def reset(self):
        """Another independent state over the same inputs."""
        self.st = State(1, {})
        self.sentences = []
        self.earlier = []

    def anchor(self, suffix):
        for b in self.w.j['bodies']:
            if b['local'] and b['path'].endswith(suffix) and b.get('pub', True):
                return b['id']
        raise Missing('public function %s' % suffix.strip(':'))

    # -- inputs ------------------------------------------------------------
    def bits(self, n, name='b'):
        return [bdd.new_var('%s%d' % (name, i)) for i in range(n)]

    def rows(self, k, n, name='r'):
        """k lists of n bits each, their variables next to each other."""
        out = [[] for _ in range(k)]
        for i in range(n):
            for j in range(k):
                out[j].append(bdd.new_var('%s%d.%d' % (name, j, i)))
        return out

    def char7(self, name, exclude=',*', only=None, bs=None):
        """A free 7-bit character; excluded ones are removed from the domain."""
        v = IntV(32, None, tuple(reversed(bs or self.bits(7, name + '.'))) + (0,) * 25)
        for x in exclude:
            self.assume(ieq(v, ch(ord(x))) ^ 1)
        if only is not None:
            e = 0
            for x in only:
                e = OR(e, ieq(v, ch(ord(x))))
            self.assume(e)
        return v

    def pick_char(self, name, alphabet):
        """A character ranging over a finite alphabet through an index (no constraint on the domain)."""
        n = max(1, (len(alphabet) - 1).bit_length())
        bs = self.bits(n, name + '.')
        iv = IntV(n, None, tuple(reversed(bs)))
        r = ch(ord(alphabet[0]))
        for i in range(1, 1 << n):
            r = ite(ieq(iv, IntV(n, i)), ch(ord(alphabet[i % len(alphabet)])), r)
        return r

    def digit(self, name, bs=None):
        """A decimal digit: 4 bits, 10..15 wrap to 0..5."""
        bs = bs or self.bits(4, name + '.')
        iv = IntV(4, None, tuple(reversed(bs)))
        big = ilt(iv, IntV(4, 10)) ^ 1
        iv = ite(big, isub(iv, IntV(4, 10)), iv)
        return IntV(32, None, iv.bits + (1, 1) + (0,) * 26)

    def assume(self, e):
        self.st.pc = AND(self.st.pc, e)
        if self.st.pc == 0 and bdd.FIXED is not None:
            raise Vacuous()

    def text(self, *parts):
        """StrV of python strings, single characters (IntV), StrVs and lists of these."""
        chs = []
        for p in parts:
            if isinstance(p, str):
                chs.extend(cstr(p).ch)
            elif isinstance(p, IntV):
                chs.append(p)
            elif isinstance(p, StrV):
                chs.extend(p.ch)
            else:
                chs.extend(self.text(*p).ch)
        bl = []
        for c in chs:
            if c.c is not None:
                bl.append(len(chr(c.c).encode('utf8', 'surrogatepass')))
            else:
                bl.append(1)
        return StrV(tuple(chs), None if all(b == 1 for b in bl) else tuple(bl))

    def payload(self, bits):
        assert len(bits) % 6 == 0
        return [armor_char(bits[i:i + 6]) for i in range(0, len(bits), 6)]

    def vdm(self, bits, talker='AI', kind='VDM', frag='1,1,,A', fill=0):
        if self.envelope and (talker, kind, frag, fill) == ('AI', 'VDM', '1,1,,A', 0):
            n = str(len(self.sentences))
            if self.vd is None:
                self.vd = self.pick_char('vd', 'MO')
            return self.signed(self.text('!', self.char7('t0' + n), self.char7('t1' + n), 'VD', self.vd, ',1,', self.digit('fn' + n), ',', self.digit('fi' + n),
                                         ',', self.char7('fc' + n), ',', self.payload(bits), ',', self.char7('ff' + n)))
        return self.text('!', talker, kind, ',', frag, ',', self.payload(bits), ',%d' % fill)

    def signed(self, s):
        """The sentence with its right checksum."""
        from .props_state import xor_digits
        hi, lo = xor_digits(s)
        return self.text(s, '*', hi, lo)

    # -- running -----------------------------------------------------------
    def parser(self):
        if self.one_parser:
            if self.kept is None:
                self.kept = self.new_parser()
            return self.kept
        return self.new_parser()

    def new_parser(self):
        r = self.I.call_body(self.st, self.new_id, [])
        self.st, v = r
        if scalars(v) and not self.young:
            v = self.repeated(v)
        p = self.I.alloc(self.st, v)
        for s in HISTORY if self.history else ():
            self.parse(p, cstr(s))
        return p

    def repeated(self, v):
        """Any number of earlier sentences of some kinds that leave no trace but in plain counters of the parser.

        Started from the parser value v, a group of sentences changes nothing but integers, each by a constant; if that
        is also so for the integers that n groups lead to (for every n below some m), n is left open up to m."""
        opened = set()
        rows = self.rows(len(WARM), 20, 'earlier')
        for seq, row in zip(WARM, rows):
            one = self.run_group(v, seq, 1)
            if one is None:
                continue
            st1, v1 = one
            step = {}
            for p, x in scalars(v).items():
                y = scalars(v1).get(p)
                d = isub(y, x) if y is not None and y.w == x.w else None
                if d is None or d.c is None or d.c > 1000 or x.w > 64:
                    break
                if d.c:
                    step[p] = d.c
            else:
                if set(step) - opened and self.alike(v, st1, v1, step):
                    v = self.open_count(v, seq, step, row)
                    opened |= set(step)
        return v

    def run_group(self, v, seq, pc):
        st = self.st.with_pc(AND(self.st.pc, pc))
        ptr = self.I.alloc(st, v)
        n = len(self.I.events)
        try:
            for s in seq:
                self.I.LOOP_LIMIT = 700
                r = self.I.call_body(st, self.parse_id, [ptr, cstr(s)])
                if r is None:
                    return None
                st = r[0]
            return st, self.I.load(st, ptr)
        except Limit:
            return None
        finally:
            del self.I.events[n:]

    def alike(self, v, st, w, step):
        """Whether w is v but for the integers in step."""
        from .props_state import same
        w = put(w, {p: scalars(v)[p] for p in step})
        d, u = same(self, self.st, v, st, w, st.pc)
        return d == 0 and u == 0

    def open_count(self, v, seq, step, row):
        old = scalars(v)
        w = min(x.w for p, x in old.items() if p in step)
        n = row[len(row) - min(20, w):]
        n = IntV(48, None, tuple(reversed(n)) + (0,) * (48 - len(n)))

        def at(n):
            new, fit = {}, 1
            for p, k in step.items():
                x = old[p]
                t = iadd(IntV(96, None, x.bits + (0,) * (96 - x.w)), imul_wide(n, IntV(48, k)))
                for b in t.bits[x.w - x.sg:]:
                    fit = AND(fit, b ^ 1)
                new[p] = IntV(x.w, None, t.bits[:x.w], x.sg)
            return new, fit
        new, fit = at(n)
        nxt, fit2 = at(iadd(n, IntV(48, 1)))
        got = self.run_group(put(v, new), seq, fit)
        good = 0
        if got is not None:
            st, u = got
            bad = 0
            for p, x in scalars(u).items():
                want = nxt.get(p, old.get(p))
                bad = OR(bad, ieq(x, want) ^ 1 if want is not None else 1)
            if self.alike(put(v, new), st, u, new):
                good = AND(st.pc, bad ^ 1)
        # every n up to the first one for which the next step is something else
        stop = AND(AND(AND(self.st.pc, fit), self.I.env.get('now_ok', 1)), good ^ 1)
        self.assume(fit)
        if stop:
            first = []
            for b in reversed(n.bits):
                if b in (0, 1):
                    first.append(b)
                    continue
                z = AND(stop, b ^ 1)
                first.append(0 if z else 1)
                stop = z or AND(stop, b)
            m = sum(b << i for i, b in enumerate(reversed(first)))
            self.assume(ilt(IntV(48, m), n) ^ 1)
        self.earlier.append((seq, n))
        return put(v, new)

    def parse(self, parser, sentence, label=None):
        """Parse on self.st; returns Res (v None when the call never returns)."""
        self.sentences.append((self.st.pc, sentence))
        if self.pace:
            models_time.set_clock(self.I, self.I.env['unix'] + self.pace[0])
            self.pace = self.pace[1:] + self.pace[:1]
        pc0 = self.st.pc
        self.I.LOOP_LIMIT = max(700, 8 * len(sentence.ch)) if isinstance(sentence, StrV) else 700
        r = self.I.call_body(self.st, self.parse_id, [parser, sentence])
        if r is None:
            self.lost(pc0, label)
            self.st = State(0, {})
            return Res(None, self.result_ty, 0)
        self.st, v = r
        now_ok = self.I.env.get('now_ok', 1)
        gone = AND(AND(pc0, now_ok), self.st.pc ^ 1)
        if gone:
            self.lost(gone, label)
        elif self.total:
            self.record((label or 'sentence %d' % len(self.sentences)) + ': a result is returned', 0, 0)
        return Res(v, self.result_ty, self.st.pc)

    def call(self, body_id, args):
        pc0 = self.st.pc
        r = self.I.call_body(self.st, body_id, args)
        if r is None:
            self.lost(pc0, None)
            self.st = State(0, {})
            return Res(None, None, 0)
        self.st, v = r
        gone = AND(AND(pc0, self.I.env.get('now_ok', 1)), self.st.pc ^ 1)
        if gone:
            self.lost(gone, None)
        return Res(v, self.w.bodies[body_id]['locals'][0], self.st.pc)

    def lost(self, pc, label):
        evs = [e for e in self.I.events[self.seen_events:]]
        where = '; '.join(sorted(set('%s at %s:%s (%s)' % (e.msg, e.file, e.line, e.func) for e in evs if AND(e.pc, pc)))[:4])
        self.record((label or 'result') + ': a result is returned', pc, 0, where or 'no result')

    # -- structure ---------------------------------------------------------
    def into(self, v, ty, name):
        """(guard, unknown, payload value, payload type) of enum variant `name` (first field)."""
        g = u = 0
        pv = None
        pt = None
        t = self.types[ty]
        for x in t.get('vs', ()):
            if x['n'] == name:
                pt = x['f'][0]['t'] if x['f'] else None
                break
        else:
            raise Missing('variant %s of %s' % (name, t['s']))
        if v is None:
            return 0, 0, None, pt
        for gg, x in alts(v):
            if isinstance(x, AggV):
                var = variant(self.types, ty, x)
                if var is not None:
                    if var['n'] == name:
                        g = OR(g, gg)
                        y = x.fs[0] if x.fs else None
                        pv = y if pv is None else ite(gg, y, pv)
                    continue
            u = OR(u, gg)
        return g, u, pv, pt

    def fields(self, v, ty):
        """{field: (value, type)} of a struct value."""
        t = self.types[ty]
        if t['k'] != 'adt' or not t.get('vs'):
            raise Missing('struct')
        fs = t['vs'][0]['f']
        self.site_ty = ty
        out = {}
        for i, f in enumerate(fs):
            def get(x, i=i):
                if isinstance(x, AggV) and i < len(x.fs):
                    return x.fs[i]
                return TopV(None, 'field of unknown')
            out[f['n']] = (self.I.mapcases(v, get, self.st.pc) if v is not None else None, f['t'])
        return out

    def variant_guard(self, v, ty, name):
        """(guard, unknown) of an enum value being the variant `name`."""
        g = u = 0
        if v is None or ty is None:
            return 0, 0
        if not any(x['n'] == name for x in self.types[ty].get('vs', ())):
            raise Missing('variant %s of %s' % (name, self.types[ty]['s']))
        for gg, x in alts(v):
            var = variant(self.types, ty, x) if isinstance(x, AggV) else None
            if var is None:
                u = OR(u, gg)
            elif var['n'] == name:
                g = OR(g, gg)
        return g, u

    # -- obligations -------------------------------------------------------
    def record(self, label, bad, unk, info='', site=None):
        """bad: inputs on which the obligation fails."""
        status = 'ok'
        wit = None
        if bad:
            ws = bdd.weak_support(bad)
            if ws:
                ws = set(ws)
                # the input alone forces the failure whatever the unknown values are
                bad2 = bdd.exists(bad ^ 1, ws) ^ 1
                if bad2:
                    bad = bad2
                else:
                    unk = OR(unk, bad)
                    bad = 0
        if bad:
            status = 'violated'
            wit = self.witness(bad)
            w = self.where(site, self.site_ty if site else None)
            if w:
                info = (info + '; ' if info else '') + 'at ' + w
        elif unk:
            status = 'undecided'
        self.oblig.append({'label': label, 'status': status, 'info': info, 'witness': wit})
        return status

    def holds(self, label, cond, care=None, info='', unk=0):
        c = self.st.pc if care is None else AND(self.st.pc, care)
        return self.record(label, AND(AND(c, cond ^ 1), unk ^ 1), AND(c, unk), info)

    def expect(self, label, v, ty, spec, care=None, known=None, site=None):
        c = self.st.pc if care is None else AND(self.st.pc, care)
        self.D.state = self.st
        bad, unk = self.D.diff(v, ty, spec, c)
        bad = AND(bad, c)
        info = ''
        if bad:
            a = bdd.pick(bad, None)
            info = 'got %s' % (concretise(v, a, self.types),)
            e = self.render(spec, a)
            if e:
                info += ', expected %s' % e
        if bad and known is not None:
            key, wrong = known
            b2, u2 = self.D.diff(v, ty, wrong, c)
            if b2 == 0 and u2 == 0:
                if key is None:
                    return self.record(label, 0, 0, '', site)
                self.oblig.append({'label': label, 'status': 'known', 'info': info, 'witness': self.witness(bad), 'key': key})
                return 'known'
        return self.record(label, bad, unk, info, site)

    def render(self, spec, a):
        try:
            if isinstance(spec, Num):
                return str(ev_int(spec.v, a))
            if isinstance(spec, Flt):
                for g, f in spec.cs:
                    if bdd.ev(g, a):
                        return str(ev_float(f, a))
            if isinstance(spec, Txt):
                for g, s in spec.cs:
                    if bdd.ev(g, a):
                        return repr(ev_str(s, a))
            if isinstance(spec, Sum):
                for g, n, fs in spec.cs:
                    if bdd.ev(g, a):
                        if not fs:
                            return n
                        it = fs.values() if isinstance(fs, dict) else fs
                        return '%s(%s)' % (n, ', '.join(str(self.render(f, a)) for f in it))
            if isinstance(spec, When):
                return '-'.join(str(ev_int(x, a)) if x is not None else '?' for x in spec.p)
            if isinstance(spec, Lst):
                for g, es in spec.cs:
                    if bdd.ev(g, a):
                        return '[%s]' % ', '.join(str(self.render(e, a)) for e in es)
            if isinstance(spec, Rec):
                return '{%s}' % ', '.join('%s: %s' % (k, self.render(s, a)) for k, s in spec.fs.items())
        except Exception:
            return None
        return '(any)'

    def witness(self, bad):
        a = bdd.pick(bad, None)
        out = []
        for pc, s in self.sentences:
            if bdd.ev(pc, a):
                out.append(ev_str(s, a))
        for seq, n in reversed(self.earlier):
            k = ev_int(n, a)
            if k:
                out.insert(0, '(%d times %s)' % (k, ' and '.join(seq)))
        if len(out) > 40:
            out[20:-10] = ['(%d further sentences)' % (len(out) - 30)]
        n = self.I.env.get('now')
        if n is not None:
            sup = bdd.support(bad)
            if any(bdd.VARINFO[x][0].startswith('now.') for x in sup):
                out.append('at %s' % '-'.join(str(ev_int(x, a)) for x in n.fs[:6]))
                if 'local' in self.I.env:
                    out.append('local hour %d' % ev_int(self.I.env['local'].fs[1].fs[3], a))
        return out

    def where(self, field, sty=None):
        """Constructs of the analysed functions that give the struct field its value: function, file:line."""
        if field is None:
            b = self.w.j_body(self.parse_id)
            return '%s (%s:%d)' % (b['path'], b['file'], b['line'])
        if field.startswith('fn:'):
            bs = [b for b in self.w.j['bodies'] if b['local'] and b['path'] in self.I.covered and b['name'] == field[3:]]
            return '; '.join('%s (%s:%d)' % (b['path'], b['file'], b['line']) for b in bs[:3])
        out = []
        for b in self.w.j['bodies']:
            if not b['local'] or b['path'] not in self.I.covered:
                continue
            defs = {}
            sites = []
            for bb in b['bbs']:
                for s in bb['s']:
                    if s[0] != '=':
                        continue
                    if not s[1][1]:
                        defs.setdefault(s[1][0], []).append((s[2], s[3]))
                    rv = s[2]
                    if rv[0] == 'agg' and rv[1] == 'adt':
                        t = self.types[rv[2]]
                        if sty is not None and rv[2] != sty or not t.get('vs') or rv[3] >= len(t['vs']):
                            continue
                        for i, f in enumerate(t['vs'][rv[3]]['f']):
                            if f['n'] == field and i < len(rv[4]):
                                sites.append((rv[4][i], s[3]))
                t = bb['t']
                if t[0] == 'call' and not t[3][1]:
                    c = t[1]
                    defs.setdefault(t[3][0], []).append((('call', c.get('path') if isinstance(c, dict) else '?'), t[-1] if type(t[-1]) is int else None))
            for o, line in sites:
                seen = set()
                note = ''
                while isinstance(o, list) and o[0] in 'cm' and not o[1][1] and o[1][0] not in seen:
                    seen.add(o[1][0])
                    ds = defs.get(o[1][0], ())
                    if len(ds) != 1:
                        lines = sorted(set(d[1] for d in ds if d[1]))
                        if lines:
                            line = lines[0]
                        break
                    rv, ln = ds[0]
                    line = ln or line
                    if rv[0] == 'use':
                        o = rv[1]
                    elif rv[0] == 'cast':
                        o = rv[2]
                    elif rv[0] == 'call':
                        note = ' from call of %s' % rv[1]
                        break
                    elif rv[0] == 'agg' and rv[4]:
                        o = rv[4][0]
                    else:
                        break
                out.append('%s:%s in %s%s' % (b['file'], line, b['path'], note))
        return '; '.join(sorted(set(out))[:4])

    def summary(self):
        loc = {}
        for p, blocks in self.I.covered.items():
            loc[p] = len(blocks)
        return {'name': self.name, 'oblig': self.oblig, 'covered': loc,
                'local': sorted(p for p in loc if p in self.localpaths()),
                'unknown': {str(k): v for k, v in self.I.unknown_calls.items()},
                'blocks': {p: sorted(b) for p, b in self.I.covered.items()} if self.total else {},
                'steps': self.I.steps, 'nodes': len(bdd.V),
                'exact_floats': self.D.exact_floats, 'sampled_floats': self.D.sampled_floats,
                'events': [{'kind': e.kind, 'msg': e.msg, 'func': e.func, 'file': e.file, 'line': e.line,
                            'weak': bool(bdd.weak_support(e.pc))} for e in self.I.events]}

    def localpaths(self):
        s = getattr(self.w, '_localpaths', None)
        if s is None:
            s = self.w._localpaths = {b['path'] for b in self.w.j['bodies'] if b['local']}
        return s
