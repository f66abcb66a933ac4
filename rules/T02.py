import datetime
from oidcmsg.oidc.identity_assurance import (date_deser, date_ser, from_iso8601_2004_time, time_stamp_deser, time_stamp_ser, to_iso8601_2004_time)


def _seconds():
    v = sym('v')
    assume(isinstance(v, int) and not isinstance(v, bool))
    return v


def _refused(f, x):
    try:
        f(x)
    except Exception as e:
        return True
    return False


def written_and_read():
    """any whole number of seconds, before and after 1970, in any season"""
    v = _seconds()
    if int(time_stamp_deser(time_stamp_ser(v))) != v:
        fail('a time stamp that was written is read as another instant')
    reached()


def this_number(v, n):
    if int(time_stamp_deser(time_stamp_ser(v))) != n:
        fail('a time stamp that was written is read as another instant')
    reached()


def from_datetime():
    v = _seconds()
    d = datetime.datetime.fromtimestamp(v, datetime.timezone.utc)
    if int(from_iso8601_2004_time(to_iso8601_2004_time(d))) != v:
        fail('the time stamp of a time in UTC denotes another instant')
    d = datetime.datetime.fromtimestamp(v)
    if int(from_iso8601_2004_time(to_iso8601_2004_time(d))) != v:
        fail('the time stamp of a local time denotes another instant')
    reached()


def day_written():
    v = _seconds()
    if date_ser(v) != datetime.datetime.fromtimestamp(v).strftime('%Y-%m-%d'):
        fail('the date written is not that of the instant')
    reached()


def text_kept(t):
    if time_stamp_ser(t) != t or date_ser(t) != t:
        fail('a text that is a time stamp already is changed')
    reached()


def text_read(t, n):
    if int(time_stamp_deser(t)) != n:
        fail('a time stamp is read as another instant')
    reached()


def number_read():
    v = _seconds()
    if time_stamp_deser(v) != v or date_deser(v) != v:
        fail('a number of seconds is read as another instant')
    reached()


def unreadable(t):
    if not _refused(time_stamp_deser, t):
        fail('a text that is no time stamp is read as one')
    reached()


def no_time(kind):
    v = {'null': None, 'list': [1], 'dict': {'a': 1}}[kind]
    if not _refused(time_stamp_ser, v) or not _refused(date_ser, v):
        fail('a time stamp is made of something that is no time')
    reached()
