import calendar
import itertools
import time
from sa.clock import Clock, ORDER


def run(ck):
    a = ck.analyzer(Clock)
    a.inline_concrete = True
    ck.explain = ('Each helper is followed with an unknown whole number for every unit alone, every pair, and all together; durations and instants are linear terms in microseconds, so the result '
                  'must be the same term as the current UTC instant plus or minus the duration the standard library makes of the same unit names. Comparison helpers are followed on unknown '
                  'texts, numbers and broken-down times; the verdict must be the order of the seconds since 1970-01-01 UTC.')
    fr = ck.load(ck.rules_path('T01.py'), ck.lib())
    T = lambda u: ('tup', tuple(ck.k(x) for x in u))
    combos = [()] + [(u,) for u in ORDER] + list(itertools.combinations(ORDER, 2)) + [ORDER]
    for u in combos:
        for r in ('forwards', 'backwards', 'text_forwards', 'text_backwards', 'epoch'):
            ck.rule('%s(%s)' % (r, ', '.join(u)), fr[r], [T(u)])
    for r in ('by_position', 'shift', 'now', 'parsed', 'parsed_as', 'compared', 'open_ended', 'later'):
        ck.rule(r, fr[r], [])
    for s in ('1970-01-01T00:00:00Z', '1969-12-31T23:59:59Z', '2000-02-29T12:13:14Z', '2021-03-28T02:30:00Z', '2021-10-31T02:30:00Z', '2038-01-19T03:14:08Z', '2016-12-31T23:59:59Z', '9999-12-31T23:59:59Z'):
        n = calendar.timegm(time.strptime(s, '%Y-%m-%dT%H:%M:%SZ'))
        for t in (s, s[:-1] + '.5Z', s[:-1] + '.999999Z', s[:-1] + '.Z'):
            ck.rule('read(%s)' % t, fr['read'], [ck.k(t), ck.k(n)])
    for s in ('2000-01-01', '12:00:00Z', '2000-13-01T00:00:00Z', '2001-02-29T00:00:00Z', '2000-01-01T25:00:00Z', '2000-01-01T00:00:00.5', 'x2000-01-01T00:00:00.5Z', 'tomorrow'):
        ck.rule('unreadable(%s)' % s, fr['unreadable'], [ck.k(s)])
    ck.need(len(combos), 30, 'combinations of units')
