from itertools import product

from sa.files import Files

HOW = ('item', 'get', 'contains', 'keys', 'call', 'items', 'iter', 'len')
OPS = ('get', 'set', 'delete', 'update', 'keys', 'items', 'clear')


def run(ck):
    a = ck.analyzer(Files)
    ck.explain = ('Abstract interpretation of histories of two file stores and foreign programs on one modelled directory (unknown key and values): '
                  'whatever the history, each kind of read is compared with the content term the directory holds. A foreign write is tried at every '
                  'point of every operation where the lock of the file is free, a fault at every access.')
    a.fs_events = set()
    fr = ck.load(ck.rules_path('S03.py'), ck.lib())
    one = ('a.set', 'a.delete', 'a.get', 'a.keys', 'a.clear', 'b.set', 'b.delete', 'b.get', 'put', 'drop')
    n = 4 if (ck.tier == 'thorough') else 2
    seqs = [s for l in range(1, n + 1) for s in product(one, repeat=l)]
    for s in seqs:
        for how in HOW:
            if len(s) >= 4 and how not in ('item', 'items'):
                continue
            ck.rule('history(%s, %s)' % (' '.join(s), how), fr['history'], [ck.k(s), ck.k(how)])
    if ck.tier != 'thorough':
        for s in (('put', 'a.get', 'put'), ('a.set', 'b.set', 'a.get'), ('a.set', 'a.get', 'b.set'), ('a.set', 'b.get', 'a.set'), ('a.set', 'b.delete', 'a.get'),
                  ('put', 'a.keys', 'drop'), ('put', 'a.get', 'drop', 'put'), ('a.set', 'a.delete', 'put'), ('put', 'a.delete', 'put'), ('a.set', 'a.clear', 'put'),
                  ('b.set', 'a.get', 'b.set'), ('b.set', 'a.items', 'b.set'), ('b.update', 'a.keys', 'b.update'), ('a.set', 'drop', 'a.get', 'put')):
            for how in HOW:
                ck.rule('history(%s, %s)' % (' '.join(s), how), fr['history'], [ck.k(s), ck.k(how)])
    # an old file moved back after the store has noticed that the file was gone
    for w in ('a.get', 'a.delete', 'a.clear', 'a.keys', 'a.items'):
        for b in (('a.set',), ('put', 'a.get'), ('put', 'a.keys'), ('a.set', 'b.set', 'a.get')):
            for d in (('drop', w), ('b.delete', w), (w,)) if w in ('a.delete', 'a.clear') else (('drop', w), ('b.delete', w)):
                s = b + d + ('restore',)
                for how in HOW:
                    ck.rule('history(%s, %s)' % (' '.join(s), how), fr['history'], [ck.k(s), ck.k(how)])
    for b in ('', 'put', 'known', 'set'):
        for op in OPS:
            for how in ('item', 'get', 'keys', 'items'):
                ck.rule('race(%s, %s, %s)' % (b, op, how), fr['race'], [ck.k(b), ck.k(op), ck.k(how)])
                if b:
                    ck.rule('race_gone(%s, %s, %s)' % (b, op, how), fr['race_gone'], [ck.k(b), ck.k(op), ck.k(how)])
                ck.rule('fault(%s, %s, %s)' % (b, op, how), fr['fault'], [ck.k(b), ck.k(op), ck.k(how)])
    ck.rule('repaired', fr['repaired'], [ck.k('item')])
    ck.need(len(a.fs_events), 8, 'file-system call sites')
