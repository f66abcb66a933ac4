from sa.ctx import Ctx

KINDS = ((), ('default',), ('keyjar',), ('default', 'keyjar'), ('default', 'state'), ('state',))


def run(ck):
    ck.analyzer(Ctx)
    ck.explain = ('Abstract interpretation of OidcContext: values under unknown keys, messages with known structure, and key jars as terms of the '
                  'constructor and its arguments, with every import into them recorded.')
    fr = ck.load(ck.rules_path('S07.py'), ck.lib())
    for o in ('', 'before', 'same', 'after'):
        ck.rule('values(%s)' % o, fr['values'], [ck.k(o)])
    ck.rule('two', fr['two'], [])
    ck.rule('seed', fr['seed'], [])
    for w in ('plain', 'request', 'nested', 'registration'):
        ck.rule('messages(%s)' % w, fr['messages'], [ck.k(w)])
    for e in ('', 'me'):
        ck.rule('given(%s)' % e, fr['given'], [ck.k(e)])
    for w in ('keys', 'jwks', 'both', ''):
        for ks in KINDS:
            for i in (False, True):
                for e in (False, True):
                    ck.rule('configured(%s, %s, %s, %s)' % (w, ks, i, e), fr['configured'], [ck.k(w), ck.k(ks), ck.k(i), ck.k(e)])
