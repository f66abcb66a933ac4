from itertools import product

from sa.sql import Sql

OPS = ('set', 'item', 'update', 'delete', 'get', 'flush')


def run(ck):
    a = ck.analyzer(Sql)
    ck.explain = ('Abstract interpretation of the SQL store on a modelled table and session (unknown keys and values, none, one or two rows of the key, '
                  'a row of another key): effects of every statement on matching rows, what is committed when a call returns, and at every commit in between.')
    fr = ck.load(ck.rules_path('S05.py'), ck.lib())
    for rows in (0, 1, 2):
        for how in ('set', 'item'):
            ck.rule('setting(%d, %s)' % (rows, how), fr['setting'], [ck.k(rows), ck.k(how)])
        ck.rule('updating(%d)' % rows, fr['updating'], [ck.k(rows)])
        ck.rule('deleting(%d)' % rows, fr['deleting'], [ck.k(rows)])
        ck.rule('iterating(%d)' % rows, fr['iterating'], [ck.k(rows)])
    for how in ('there', 'missing'):
        ck.rule('reading(%s)' % how, fr['reading'], [ck.k(how)])
    for n in range(1, 4 if ck.tier == 'thorough' else 3):
        for ops in product(OPS, repeat=n):
            ck.rule('history(%s)' % ' '.join(ops), fr['history'], [ck.k(ops)])
    ck.need(len(a.sql_events), 4, 'database statements')
