import datetime

from sa.stamps import Stamps

TEXTS = ('2021-07-01T12:00:00Z', '2021-07-01T14:00:00+0200', '2021-12-31T23:59:59-0330', '1970-01-01T00:00:00+0000', '1969-12-31T23:00:00-0100', '2020-02-29T12:34:56+1245')


def run(ck):
    a = ck.analyzer(Stamps)
    a.inline_concrete = True
    ck.explain = ('Writers and readers of time stamps are followed with an unknown number of seconds; a reading of the local clock is the instant plus an offset that is an unknown function '
                  'of the instant, so reading back gives the same term only where the offset written is the one the clock was read with.')
    fr = ck.load(ck.rules_path('T02.py'), ck.lib())
    for r in ('written_and_read', 'from_datetime', 'day_written', 'number_read'):
        ck.rule(r, fr[r], [])
    for v, n in ((0, 0), (1, 1), (-1, -1), ('0', 0), ('1625140800', 1625140800), (1625140800.0, 1625140800), (0.0, 0), (1636000000.75, 1636000000)):
        ck.rule('this_number(%r)' % (v,), fr['this_number'], [ck.k(v), ck.k(n)])
    for t in TEXTS:
        ck.rule('text_kept(%s)' % t, fr['text_kept'], [ck.k(t)])
        ck.rule('text_read(%s)' % t, fr['text_read'], [ck.k(t), ck.k(int(datetime.datetime.strptime(t, '%Y-%m-%dT%H:%M:%S%z').timestamp()))])
    for t in ('tomorrow', '', '2021-13-01T00:00:00Z', '2021-02-29T00:00:00Z', '2021-07-01T25:00:00Z', '2021-07-01', '2021-07-01T12:00:00'):
        ck.rule('unreadable(%s)' % t, fr['unreadable'], [ck.k(t)])
    for k in ('null', 'list', 'dict'):
        ck.rule('no_time(%s)' % k, fr['no_time'], [ck.k(k)])
