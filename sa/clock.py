"""Instants and durations as linear terms in microseconds (UTC); the clock stands still during one rule."""
import ast
import calendar
import datetime as _dt
import re as _re
import time as _time
from .crypto import *
from .domain import lin_of, _ladd
from .expr import lin_value

US = {'days': 86400000000, 'seconds': 1000000, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60000000, 'hours': 3600000000, 'weeks': 604800000000}
ORDER = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
NOWUS = T('NOWUS')
NOW = T('NOW')
NAIVE, UTC = K(None), K('utc')
TYPE = {'at': 'datetime', 'tdelta': 'timedelta', 'st': 'struct_time', 'strptime': 'struct_time', 'secsf': 'float', 'timegm': 'int', 'strftime': 'str', 'strftimeus': 'str', 'secs': 'int',
        'localst': 'struct_time'}
UTCS = ('datetime.timezone.utc', 'datetime.UTC', 'pytz.utc')


def op(v):
    return v[1] if v[0] == 't' else None


def scale(l, n):
    return {t: c * n for t, c in l[0].items() if c * n}, l[1] * n


def at(l, tz=NAIVE):
    return T('at', lin_value(l), tz)


def secs(v):
    """whole seconds of a number of microseconds after 1970"""
    d, c = lin_of(v)
    whole, rest = {}, {}
    for t, k in d.items():
        q, r = divmod(k, 1000000)
        if q:
            whole[t] = q
        if r:
            rest[t] = r
    q, r = divmod(c, 1000000)
    if not rest:
        return lin_value((whole, q))        # a part of a second does not matter then
    if rest == {NOWUS: 1} and not r:
        x = NOW
    else:
        x = T('secs', lin_value((rest, r)))
    return lin_value(_ladd((whole, q), lin_of(x), 1))


class Clock(Crypto):
    def __init__(self, root):
        super().__init__(root)
        h = self.hooks
        h['datetime.timedelta'] = self.c_delta
        h['datetime.datetime'] = self.c_datetime
        h['datetime.datetime.utcnow'] = lambda s, st, n, a, k: at(lin_of(NOWUS))
        h['datetime.datetime.now'] = h['datetime.datetime.today'] = self.c_now
        h['datetime.datetime.utcfromtimestamp'] = lambda s, st, n, a, k: at(self.us_of(st, a[0]))
        h['datetime.datetime.fromtimestamp'] = self.c_fromts
        h['datetime.datetime.strptime'] = self.c_dtparse
        h['time.time'] = lambda s, st, n, a, k: T('secsf', NOWUS)
        h['time.time_ns'] = lambda s, st, n, a, k: T('ns')
        h['time.gmtime'] = lambda s, st, n, a, k: T('st', self.whole(st, a[0]) if a and a[0] != NONE else NOW)
        h['time.localtime'] = lambda s, st, n, a, k: T('localst', self.whole(st, a[0]) if a and a[0] != NONE else NOW)
        h['calendar.timegm'] = self.c_timegm
        h['time.strptime'] = self.c_parse
        h['time.strftime'] = self.c_strftime
        h['re.compile'] = self.c_compile
        for n in ('match', 'fullmatch', 'search'):
            h['re.' + n] = self.c_re
        prev = h['meth']
        h['meth'] = lambda s, st, v, m, a, kw: self.c_meth(prev, s, st, v, m, a, kw)
        for n, i in zip(('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec', 'tm_wday', 'tm_yday'), range(8)):
            TERM_DATA_ATTRS[n] = self.field(i)

    def field(self, i):
        def get(*a):
            v = [x for x in a if isinstance(x, tuple) and x and x[0] == 't'][0]
            if op(v) in ('st', 'strptime') and self.epoch(v)[0] == 'k':
                return K(_time.gmtime(self.epoch(v)[2])[i])
            return T('attr', v, str(i))
        return get

    # -------------------------------------------------------- constructors
    def us_of(self, st, v):
        """microseconds of a number of seconds"""
        v = self.freeze(st, v)
        if op(v) == 'secsf':
            return lin_of(v[2])
        l = lin_of(v)
        if l is None:
            raise Undecided('time stamp %r' % (v,))
        return scale(l, 1000000)

    def whole(self, st, v):
        v = self.freeze(st, v)
        if op(v) == 'secsf':
            return secs(v[2])
        if v[0] == 'k' and v[1] == 'float':
            return K(int(v[2]))
        return v

    def c_delta(self, s, st, n, a, k):
        l = ({}, 0)
        for u, v in list(zip(ORDER, a)) + list(k.items()):
            if u not in US:
                self.raise_(st, 'TypeError')
            v = self.freeze(st, v)
            x = lin_of(v)
            if v[0] == 'k' and v[1] == 'float':
                x = ({}, round(v[2] * US[u]))
                l = _ladd(l, x, 1)
                continue
            if op(v) == 'secsf' and u == 'seconds':
                l = _ladd(l, lin_of(v[2]), 1)
                continue
            if x is None:
                if v[0] == 'k' or v[0] == 'tup':
                    self.raise_(st, 'TypeError')
                x = ({v: 1}, 0)
            l = _ladd(l, scale(x, US[u]), 1)
        return T('tdelta', lin_value(l))

    def tz(self, v):
        if v is None or v == NONE:
            return NAIVE
        if v[0] == 'ext' and v[1] in UTCS:
            return UTC
        return T('tz', v)

    def c_datetime(self, s, st, n, a, k):
        k = dict(k)
        names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')
        k.update(zip(names, a))
        tz = self.tz(k.pop('tzinfo', None))
        if all(v[0] == 'k' for v in k.values()):
            try:
                d = _dt.datetime(**{x: v[2] for x, v in k.items()})
            except (TypeError, ValueError) as e:
                self.raise_(st, type(e).__name__)
            return at(({}, calendar.timegm(d.timetuple()) * 1000000 + d.microsecond), tz)
        return None

    def c_now(self, s, st, n, a, k):
        tz = a[0] if a else k.get('tz')
        if tz is None or tz == NONE:
            return at(lin_of(T('LOCALUS')))
        return at(lin_of(NOWUS), self.tz(tz))

    def c_fromts(self, s, st, n, a, k):
        tz = a[1] if len(a) > 1 else k.get('tz')
        if tz is None or tz == NONE:
            return None
        return at(self.us_of(st, a[0]), self.tz(tz))

    def c_parse(self, s, st, n, a, k):
        v = s.strptime(st, 'time.strptime', a)
        return v

    def epoch(self, v):
        """seconds of a broken-down time, read as UTC"""
        if op(v) == 'st':
            return v[2]
        if op(v) == 'strptime' and v[3][0] == v[4][0] == 'k':
            return K(calendar.timegm(_time.strptime(v[3][2], v[4][2])))
        return T('timegm', v)

    def c_dtparse(self, s, st, n, a, k):
        v = self.c_parse(s, st, n, a, k)
        if v[4][0] == 'k' and '%f' not in v[4][2]:
            return at(scale(lin_of(self.epoch(v)), 1000000))
        return None

    def c_timegm(self, s, st, n, a, k):
        return self.epoch(self.freeze(st, a[0]))

    def c_strftime(self, s, st, n, a, k):
        f = self.freeze(st, a[0])
        if len(a) < 2:
            return T('strftimelocal', f)
        v = self.freeze(st, a[1])
        return T('strftime', f, self.epoch(v))

    # -------------------------------------------------------- patterns on known texts
    def c_compile(self, s, st, n, a, k):
        if all(x[0] == 'k' for x in a) and not k:
            return T('rx', *a)
        return None

    def c_re(self, s, st, n, a, k):
        if len(a) == 2 and not k and op(a[0]) == 'rx':
            return self.rx(st, n.split('.')[1], a[0], a[1])
        if a[0][0] == 'k' and not k and len(a) == 2:
            return self.rx(st, n.split('.')[1], T('rx', a[0]), a[1])
        return None

    def rx(self, st, m, v, t):
        t = self.freeze(st, t)
        if t[0] != 'k':
            return None
        if t[1] != 'str':
            self.raise_(st, 'TypeError')
        r = getattr(_re.compile(*[x[2] for x in v[2:]]), m)(t[2])
        if r is None:
            return NONE
        return T('rxm', ('tup', tuple(K(r.group(i)) for i in range(len(r.groups()) + 1))), tuple(sorted(r.re.groupindex.items())))

    def c_meth(self, prev, s, st, v, m, a, kw):
        o = op(v)
        if o == 'rx' and m in ('match', 'fullmatch', 'search'):
            return self.rx(st, m, v, a[0])
        if o == 'rxm':
            g = v[2][1]
            if m == 'groups':
                return ('tup', g[1:])
            if m in ('group', '__getitem__'):
                ix = [dict(v[3]).get(x[2], x[2]) for x in a] or [0]
                try:
                    r = [g[i] for i in ix]
                except (IndexError, TypeError):
                    self.raise_(st, 'IndexError')
                return r[0] if len(r) == 1 else ('tup', tuple(r))
        if o == 'at':
            if m == 'strftime':
                f = self.freeze(st, a[0])
                if f[0] == 'k' and '%f' not in f[2]:
                    return T('strftime', f, secs(v[2]))
                return T('strftimeus', f, v[2])
            if m == 'utctimetuple' or m == 'timetuple':
                return T('st', secs(v[2]))
            if m == 'timestamp':
                if v[3] == UTC:
                    return T('secsf', v[2])
                return T('localts', v)
            if m == 'replace':
                k = dict(kw)
                r = v
                if 'microsecond' in k and k.pop('microsecond') == K(0):
                    r = T('at', lin_value(scale(lin_of(secs(r[2])), 1000000)), r[3])
                if 'tzinfo' in k:
                    r = T('at', r[2], self.tz(k.pop('tzinfo')))
                return r if not k and not a else None
            if m == '__add__' or m == '__sub__':
                return self.binop(st, ast.Add if m == '__add__' else ast.Sub, v, a[0])
        if o == 'tdelta' and m == 'total_seconds':
            return T('secsf', v[2])
        return prev(s, st, v, m, a, kw)

    # -------------------------------------------------------- operators
    def binop(self, st, o, l, r):
        a, b = op(l), op(r)
        if a in ('at', 'tdelta') or b in ('at', 'tdelta'):
            sign = 1 if o is ast.Add else -1
            if o in (ast.Add, ast.Sub):
                if b == 'tdelta' and a in ('at', 'tdelta'):
                    x = lin_value(_ladd(lin_of(l[2]), lin_of(r[2]), sign))
                    return T('at', x, l[3]) if a == 'at' else T('tdelta', x)
                if a == 'tdelta' and b == 'at' and o is ast.Add:
                    return T('at', lin_value(_ladd(lin_of(l[2]), lin_of(r[2]), 1)), r[3])
                if a == b == 'at' and o is ast.Sub:
                    if l[3] != r[3]:
                        self.raise_(st, 'TypeError')
                    return T('tdelta', lin_value(_ladd(lin_of(l[2]), lin_of(r[2]), -1)))
                self.raise_(st, 'TypeError')
            if a == b == 'tdelta' and r[2] == K(1000000):
                if o is ast.Div:
                    return T('secsf', l[2])
                if o is ast.FloorDiv:
                    return secs(l[2])
            if o is ast.Mult:
                for x, y in ((l, r), (r, l)):
                    if op(x) == 'tdelta' and y[0] == 'k' and y[1] == 'int':
                        return T('tdelta', lin_value(scale(lin_of(x[2]), y[2])))
        for x, y in ((l, r), (r, l)):
            if op(x) == 'secsf' and o in (ast.Add, ast.Sub):
                u = self.us_of(st, l), self.us_of(st, r)
                return T('secsf', lin_value(_ladd(u[0], u[1], 1 if o is ast.Add else -1)))
        return super().binop(st, o, l, r)

    def e_UnaryOp(self, n, st, ctx):
        r = super().e_UnaryOp(n, st, ctx)
        if r[0] == 't' and r[1] != 'tdelta':
            l = lin_of(r)
            if l and len(l[0]) == 1:
                (t, c), = l[0].items()
                if op(t) == 'tdelta':
                    return T('tdelta', lin_value(scale(lin_of(t[2]), c)))
        return r

    def b_int(self, st, args, kw):
        v = args[0] if len(args) == 1 else None
        if v is not None:
            if op(v) == 'secsf':
                return secs(v[2])
            if op(v) == 'fmt' and v[2] == '%d' and op(v[3]) is not None:
                return self.b_int(st, [v[3]], kw)
            if op(v) in ('secs', 'timegm', 'NOW'):
                return v
        return super().b_int(st, args, kw)

    def comparable(self, st, v):
        v = self.freeze(st, v)
        if op(v) == 'strptime':
            # its last field, the daylight saving flag, is -1 and not 0
            v = T('st', self.epoch(v), K(-1))
        return v if op(v) in ('at', 'st', 'tdelta', 'secsf') else None

    def order(self, st, o, l, r):
        a, b = self.comparable(st, l), self.comparable(st, r)
        if a is not None and b is not None and a[1] == b[1]:
            if a[1] == 'at' and a[3] != b[3]:
                self.raise_(st, 'TypeError')
            if a[1] == 'st' and len(a) != len(b):
                # the flag decides between equal seconds
                less = isinstance(o, (ast.Lt, ast.LtE))
                o = (ast.LtE if len(a) == 4 else ast.Lt)() if less else (ast.Gt if len(a) == 4 else ast.GtE)()
            return super().order(st, o, a[2], b[2])
        if a is not None or b is not None:
            x, y = self.known(st, l), self.known(st, r)
            if x and y and x != y and not {x, y} <= {'int', 'float'}:
                self.raise_(st, 'TypeError')
        return super().order(st, o, l, r)

    def known(self, st, v):
        return TYPE.get(op(v)) or self.known_type(st, v)

    def equal(self, st, l, r):
        a, b = self.comparable(st, l), self.comparable(st, r)
        if a is not None and b is not None:
            if a[1] != b[1] or len(a) != len(b) or a[1] == 'at' and a[3] != b[3]:
                return False
            return super().equal(st, a[2], b[2])
        return super().equal(st, l, r)

    def isinstance_(self, st, v, c):
        t = TYPE.get(op(v))
        if t is not None and c[0] in ('bi', 'ext'):
            return self.type_name(c).split('.')[-1] == t or c == ('bi', 'object') or t == 'struct_time' and c == ('bi', 'tuple')
        return super().isinstance_(st, v, c)

    def truth(self, st, v):
        if op(v) in ('at', 'st', 'strptime', 'rxm', 'rx', 'localst'):
            return True
        if op(v) == 'tdelta':
            return not super().equal(st, v[2], K(0))
        return super().truth(st, v)
