from sa.ctx import Ctx

KINDS = (('default',), ('keyjar', 'default'), ('default', 'state', 'keyjar'), ('keyjar',), ('keyjar', 'state'))


def run(ck):
    ck.analyzer(Ctx)
    ck.explain = ('Abstract interpretation of storage selection and of the context on configurations with and without each entry (unknown values): '
                  'the created store is a term of its handler and the dictionary it was given; configurations are compared before and after.')
    fr = ck.load(ck.rules_path('S06.py'), ck.lib())
    for t in ('keyjar', 'client'):
        for how in ('null', 'empty'):
            ck.rule('empty_entry(%s, %s)' % (t, how), fr['empty_entry'], [ck.k(t), ck.k(how)])
    for ks in KINDS:
        for t in ('default', 'keyjar', 'session'):
            ck.rule('entries(%s, %s)' % (ks, t), fr['entries'], [ck.k(ks), ck.k(t)])
            if t != 'default' or 'default' in ks:
                ck.rule('selected(%s, %s)' % (ks, t), fr['selected'], [ck.k(ks), ck.k(t), ck.k(True)])
        if 'default' in ks:
            ck.rule('selected(%s)' % (ks,), fr['selected'], [ck.k(ks), ck.k('default'), ck.k(False)])
        for e in ('', 'abstract', 'issuer'):
            ck.rule('issuers(%s, %s)' % (ks, e), fr['issuers'], [ck.k(ks), ck.k(e)])
        for i in (False, True):
            ck.rule('context(%s, %s)' % (ks, i), fr['context'], [ck.k(ks), ck.k(i)])
        ck.rule('boxes(%s)' % (ks,), fr['boxes'], [ck.k(ks), ck.k(('keyjar', 'session'))])
    for t in ('default', 'keyjar'):
        ck.rule('memory(%s)' % t, fr['memory'], [ck.k(t)])
    for h in ('handler', 'missing', 'empty', 'none'):
        ck.rule('factory(%s)' % h, fr['factory'], [ck.k(h)])
    ck.rule('nodefault', fr['nodefault'], [])
    ck.rule('names', fr['names'], [])
