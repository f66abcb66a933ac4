from sa.files import Files

KEYS = ('a', 'a b', 'a+b', 'a/b', '/etc/x', '../up', 'x.lock', 'x%2Elock', 'x', '.lock', 'X.LOCK', 'å', 'https://op.example.com/?a=b&c=%20', 'a%20b', 'x.lock.lock',
        'tab\there', 'back\\slash', 'nul-free', '~', '*')


def run(ck):
    a = ck.analyzer(Files)
    ck.explain = ('Abstract interpretation of every operation of the file store on a modelled directory with an unknown key and value, with the default converter '
                  'and with an unknown one: each file-system call is an obligation on its path term (directory of the store, name = what the converter gives '
                  'for that key, no separator). Constant keys of every kind are followed exactly.')
    a.fs_events = set()
    fr = ck.load(ck.rules_path('S01.py'), ck.lib())
    for op in ('get', 'item', 'set', 'delete', 'contains', 'update'):
        for there in (False, True):
            ck.rule('default_file(%s, %s)' % (op, there), fr['default_file'], [ck.k(op), ck.k(there)])
            ck.rule('custom_file(%s, %s)' % (op, there), fr['custom_file'], [ck.k(op), ck.k(there)])
    for c in ('', 'my.converter.Conv'):
        ck.rule('agree(%s)' % c, fr['agree'], [ck.k(c)])
    for o in ('', 'other', 'a/b', 'x.lock'):
        ck.rule('listing(%s)' % o, fr['listing'], [ck.k(o)])
    for t, i, d in (('db/{issuer}', 'op', 'db/op'), ('db/{issuer}/entries', 'op', 'db/op/entries'), ('{issuer}', 'op', 'op')):
        ck.rule('issuer_directory(%s)' % t, fr['issuer_directory'], [ck.k(t), ck.k(i), ck.k(d)])
    for c in ((('fdir', 'db/{issuer}'),), (('fdir', 'db/{issuer}'), ('issuer', ''))):
        ck.rule('issuer_missing(%d)' % len(c), fr['issuer_missing'], [ck.k(c)])
    ck.rule('constants', fr['constants'], [ck.k(KEYS)])
    for f in (False, True):
        ck.rule('subdirectory(%s)' % f, fr['subdirectory'], [ck.k(f)])
    ck.need(len(a.fs_events), 8, 'file-system call sites')
