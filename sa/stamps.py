"""Wall-clock readings: ('lt', reading, zone) with the reading in microseconds after 1970-01-01 on the clock of the zone.
The zone is ('tz', offset) or none for a reading without one. The offset of the local zone at an instant is an unknown function of that instant, so
two instants never have the same local offset by accident. What cannot be followed is undecided."""
from .clock import *
from .clock import _dt, _ladd

TYPE['lt'] = 'datetime'
TYPE['stamp'] = 'str'
LOCAL = K('local')
DAY, CLOCK, OFFSET = ('%Y-%m-%d', '%F'), ('%H:%M:%S', '%T'), '%z'


def lt(l, z=NONE):
    return T('lt', lin_value(l), z)


def off(l):
    return T('off', lin_value(l))


def plus(l, x, n=1):
    return _ladd(l, lin_of(x), n)


def canonical(f):
    for a, b in ((DAY[1], DAY[0]), (CLOCK[1], CLOCK[0])):
        f = f.replace('%%', '\0').replace(a, b).replace('\0', '%%')
    return f


class Stamps(Clock):
    def __init__(self, root):
        super().__init__(root)
        h = self.hooks
        p = 'datetime.datetime.'
        h[p + 'now'] = lambda s, st, n, a, k: self.shown(lin_of(NOWUS), a[0] if a else k.get('tz', NONE))
        h[p + 'today'] = lambda s, st, n, a, k: self.shown(lin_of(NOWUS), NONE)
        h[p + 'utcnow'] = lambda s, st, n, a, k: lt(lin_of(NOWUS))
        h[p + 'fromtimestamp'] = lambda s, st, n, a, k: self.shown(self.us_of(st, a[0]), a[1] if len(a) > 1 else k.get('tz', NONE))
        h[p + 'utcfromtimestamp'] = lambda s, st, n, a, k: lt(self.us_of(st, a[0]))
        h[p + 'strptime'] = self.l_parse
        h[p + 'fromisoformat'] = self.l_iso
        h['datetime.datetime'] = h['datetime.datetime.combine'] = h['time.strptime'] = self.refuse_time
        h['time.strftime'] = self.l_strftime
        h['time.mktime'] = self.refuse_time
        TERM_DATA_ATTRS['tzinfo'] = lambda s, st, v, name: v[3] if op(v) == 'lt' else T('attr', v, name)

    def refuse_time(self, s, st, n, a, k):
        raise Undecided(n)

    def zone(self, z):
        if z[0] == 'ext' and z[1] in UTCS:
            return T('tz', K(0))
        if z == NONE or op(z) == 'tz':
            return z
        raise Undecided('time zone')

    def shown(self, i, z):
        """the reading at an instant; without zone that of the local clock"""
        z = self.zone(z)
        return lt(plus(i, off(i))) if z == NONE else lt(plus(i, z[2]), z)

    def instant(self, v):
        l = lin_of(v[2])
        if v[3] != NONE:
            return plus(l, v[3][2], -1)
        # a local reading: the instant it is the reading of
        for t in l[0]:
            if op(t) == 'off' and l[0][t] == 1:
                i = plus(l, t, -1)
                if off(i) == t:
                    return i
        return None

    def l_parse(self, s, st, n, a, k):
        x, f = self.freeze(st, a[0]), self.freeze(st, a[1])
        if f[0] != 'k':
            raise Undecided('time format')
        if x[0] == 'k':
            try:
                return self.constant(_dt.datetime.strptime(x[2], f[2]))
            except (ValueError, TypeError) as e:
                self.raise_(st, type(e).__name__)
        if op(x) == 'stamp':
            w, g = x[2][2], canonical(f[2])
            if g == w or w == 'iso' and g == '%Y-%m-%dT%H:%M:%S%z' and x[4] != NONE:
                if '%z' in g:
                    return T('lt', x[3], x[4])
                if DAY[0] in g and CLOCK[0] in g:
                    return T('lt', x[3], NONE)
        raise Undecided('reading a time')

    def constant(self, d):
        us = calendar.timegm(d.timetuple()) * 1000000 + d.microsecond
        z = d.utcoffset()
        return lt(({}, us), NONE if z is None else T('tz', K(int(z.total_seconds()) * 1000000)))

    def l_iso(self, s, st, n, a, k):
        x = self.freeze(st, a[0])
        if x[0] == 'k':
            try:
                return self.constant(_dt.datetime.fromisoformat(x[2]))
            except (ValueError, TypeError) as e:
                self.raise_(st, type(e).__name__)
        if op(x) == 'stamp' and x[2][2] in ('iso', '%Y-%m-%dT%H:%M:%S%z', '%Y-%m-%dT%H:%M:%S'):
            return T('lt', x[3], x[4])
        raise Undecided('reading a time')

    def stamp(self, st, f, v):
        f = self.freeze(st, f)
        if f[0] != 'k' or v[3] == NONE and '%z' in f[2]:
            raise Undecided('time format')
        g = canonical(f[2])
        return T('stamp', K(g), v[2], v[3] if '%z' in g or g == 'iso' else NONE)

    def l_strftime(self, s, st, n, a, k):
        v = a[1] if len(a) > 1 else T('localst', NOW)
        if op(v) == 'localst':
            i = scale(lin_of(v[2]), 1000000)
            return self.stamp(st, a[0], lt(plus(i, off(i)), T('tz', off(i))))
        if op(v) == 'st':
            return self.stamp(st, a[0], lt(scale(lin_of(v[2]), 1000000)))
        raise Undecided('time.strftime')

    def c_meth(self, prev, s, st, v, m, a, kw):
        if op(v) != 'lt':
            return super().c_meth(prev, s, st, v, m, a, kw)
        if m == 'astimezone':
            z = self.zone(a[0] if a else kw.get('tz', NONE))
            i = self.instant(v)
            if i is None:
                # a reading of another clock taken for a local one: some instant, and its offset is unknown
                i = lin_of(T('somewhen', v[2]))
            if z == NONE:
                return lt(plus(i, off(i)), T('tz', off(i)))
            return lt(plus(i, z[2]), z)
        if m == 'replace' and not a and set(kw) <= {'tzinfo', 'microsecond'}:
            w = v[2]
            if 'microsecond' in kw:
                if kw['microsecond'] != K(0):
                    raise Undecided('microsecond')
                d, c = lin_of(w)
                if any(n % 1000000 and op(t) != 'off' for t, n in d.items()) or c % 1000000:
                    raise Undecided('microsecond')
            return T('lt', w, self.zone(kw['tzinfo']) if 'tzinfo' in kw else v[3])
        if m == 'timestamp' and not a:
            i = self.instant(v)
            if i is None:
                i = lin_of(T('somewhen', v[2]))
            return T('secsf', lin_value(i))
        if m == 'strftime' or m == '__format__':
            return self.stamp(st, a[0], v)
        if m == 'isoformat' and (not a or a[0] == K('T')) and set(kw) <= {'timespec'}:
            return self.stamp(st, K('iso'), v)
        if m == 'utcoffset':
            return NONE if v[3] == NONE else T('tdelta', v[3][2])
        raise Undecided('datetime.%s' % m)

    def b_str(self, st, args, kw):
        if args and op(args[0]) == 'stamp':
            return args[0]
        return super().b_str(st, args, kw)

    def identical(self, st, a, b):
        if NONE in (a, b) and (op(a) in TYPE or op(b) in TYPE):
            return False
        return super().identical(st, a, b)

    def truth(self, st, v):
        if op(v) in ('lt', 'stamp'):
            return True
        return super().truth(st, v)
