import time
from calendar import timegm
from datetime import datetime
from datetime import timedelta
from oidcmsg import time_util as tu

EPOCH = datetime(1970, 1, 1)
FORMAT = '%Y-%m-%dT%H:%M:%SZ'


def num(name):
    n = sym(name)
    assume(isinstance(n, int))
    assume(not isinstance(n, bool))
    return n


def amounts(units):
    return {u: num(u) for u in units}


def forwards(units):
    d = amounts(units)
    if tu.time_in_a_while(**d) != datetime.utcnow() + timedelta(**d):
        fail('time_in_a_while(%s) is not that far ahead of now in UTC' % ', '.join(units))
    reached()


def backwards(units):
    d = amounts(units)
    if tu.time_a_while_ago(**d) != datetime.utcnow() - timedelta(**d):
        fail('time_a_while_ago(%s) is not that far behind now in UTC' % ', '.join(units))
    reached()


def text_forwards(units):
    d = amounts(units)
    t = datetime.utcnow() + timedelta(**d)
    if tu.in_a_while(**d) != t.strftime(FORMAT):
        fail('in_a_while(%s) is another instant or format' % ', '.join(units))
    f = sym('format')
    assume(isinstance(f, str))
    assume(f)
    if tu.in_a_while(time_format=f, **d) != t.strftime(f):
        fail('in_a_while(%s) does not use the given format' % ', '.join(units))
    reached()


def text_backwards(units):
    d = amounts(units)
    t = datetime.utcnow() - timedelta(**d)
    if tu.a_while_ago(**d) != t.strftime(FORMAT):
        fail('a_while_ago(%s) is another instant or format' % ', '.join(units))
    f = sym('format')
    assume(isinstance(f, str))
    assume(f)
    if tu.a_while_ago(time_format=f, **d) != t.strftime(f):
        fail('a_while_ago(%s) does not use the given format' % ', '.join(units))
    reached()


def epoch(units):
    d = amounts(units)
    if tu.epoch_in_a_while(**d) != int((datetime.utcnow() + timedelta(**d) - EPOCH).total_seconds()):
        fail('epoch_in_a_while(%s) does not count the seconds from 1970-01-01 UTC' % ', '.join(units))
    reached()


def by_position():
    a = [num(u) for u in ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')]
    d = timedelta(days=a[0], seconds=a[1], microseconds=a[2], milliseconds=a[3], minutes=a[4], hours=a[5], weeks=a[6])
    now = datetime.utcnow()
    if tu.time_in_a_while(*a) != now + d or tu.time_a_while_ago(*a) != now - d:
        fail('the units are taken in another order')
    if tu.in_a_while(*a) != (now + d).strftime(FORMAT) or tu.a_while_ago(*a) != (now - d).strftime(FORMAT):
        fail('the units are taken in another order')
    if tu.epoch_in_a_while(*a) != int((now + d - EPOCH).total_seconds()):
        fail('the units are taken in another order')
    reached()


def shift():
    t = datetime.utcnow() - timedelta(days=num('d'))
    n = num('n')
    if tu.shift_time(t, n) != t + timedelta(seconds=n):
        fail('shift_time does not shift by that many seconds')
    reached()


def now():
    n = int(time.time())
    if tu.utc_time_sans_frac() != n or tu.time_sans_frac() != n:
        fail('the current time is not the seconds since 1970-01-01 UTC')
    if tu.instant() != time.strftime(FORMAT, time.gmtime()):
        fail('instant is not the current UTC time')
    for f in ('%Y', '%d/%m/%y %H:%M:%S', '%Y%m%dT%H%M%SZ'):
        if tu.instant(f) != time.strftime(f, time.gmtime()):
            fail('instant is not the current UTC time in the given format')
    reached()


def text(name, fmt):
    s = sym(name)
    assume(isinstance(s, str))
    assume(s)
    try:
        time.strptime(s, fmt)
    except ValueError:
        assume(False)
    return s


def parsed():
    s = text('s', FORMAT)
    if timegm(tu.str_to_time(s)) != timegm(time.strptime(s, FORMAT)):
        fail('a text is read as another time')
    reached()


def parsed_as():
    f = sym('format')
    assume(isinstance(f, str))
    s = text('s', f)
    if tu.str_to_time(s, f) != time.gmtime(timegm(time.strptime(s, f))):
        fail('the format is not used')
    reached()


def read(s, epoch):
    if timegm(tu.str_to_time(s)) != epoch:
        fail('%s is read as another time' % s)
    reached()


def unreadable(s):
    try:
        tu.str_to_time(s)
    except Exception:
        reached()
        return
    fail('%s is read as a time' % s)


def kinds(name):
    """the three ways to give a time, with the seconds since 1970 that each stands for"""
    k = sym(name + ' kind')
    if k == 'int':
        n = num(name)
        assume(n)
        return n, n
    if k == 'str':
        s = text(name, FORMAT)
        return s, timegm(time.strptime(s, FORMAT))
    n = num(name)
    return time.gmtime(n), n


def compared():
    p, n = kinds('p')
    now = int(time.time())
    b = tu.before(p)
    if bool(b) != (now < n):
        fail('before: now is before the point exactly when its seconds are less')
    if bool(tu.after(p)) == bool(b):
        fail('after is not the complement of before')
    if bool(tu.valid(p)) != bool(b) or bool(tu.not_on_or_after(p)) != bool(b) or bool(tu.not_before(p)) == bool(b):
        fail('valid, not_on_or_after and not_before are not before and after')
    reached()


def open_ended():
    for p in (None, 0, ''):
        if not tu.before(p) or not tu.after(p):
            fail('a missing point excludes now')
    reached()


def later():
    p, n = kinds('p')
    q, m = kinds('q')
    if bool(tu.later_than(p, q)) != (n >= m):
        fail('later_than(a, b): a is not before b')
    reached()
