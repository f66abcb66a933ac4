from sa.files import Files

OPS = ('get', 'item', 'set', 'delete', 'contains', 'update', 'keys', 'items', 'iter', 'len', 'clear', 'synch', 'call')
NAMES = (('alpha.lock',), ('beta.lock',), ('.lock', 'x.lock.lock', 'a%20b.lock', 'lock.lock'))


def run(ck):
    a = ck.analyzer(Files)
    ck.explain = ('Abstract interpretation of every operation of the file store on a modelled directory: each open, read, write and removal is an obligation '
                  'to hold the lock named after that very file; every exit, also after an injected fault, is an obligation to hold no lock; '
                  'no access may concern a lock file.')
    a.fs_events = set()
    fr = ck.load(ck.rules_path('S02.py'), ck.lib())
    for op in OPS:
        for there in (False, True):
            for c in ('', 'my.converter.Conv'):
                for f in (False, True):
                    ck.rule('locked(%s, %s, %s, %s)' % (op, there, c, f), fr['locked'], [ck.k(op), ck.k(there), ck.k(c), ck.k(f)])
        for n in NAMES:
            ck.rule('lockfiles(%s, %s)' % (op, n), fr['lockfiles'], [ck.k(op), ck.k(n)])
    for n in NAMES:
        for f in (False, True):
            ck.rule('listed(%s, %s)' % (n, f), fr['listed'], [ck.k(n), ck.k(f)])
    for c in ('', 'my.converter.Conv'):
        ck.rule('named(%s)' % c, fr['named'], [ck.k(c)])
    ck.need(len(a.fs_events), 8, 'file-system call sites')
