import json
import os
from sa.driver import VERIF
from checks.M10 import SAMPLE


def run(ck):
    a = ck.analyzer()
    a.inline_concrete = True
    ck.explain = ('Both factories are followed for the name of every message type of their protocol family, for an unknown name, and for an unknown name known to differ from that of every '
                  'message type; type and content of the result must be those of a direct construction.')
    fr = ck.load(ck.rules_path('F01.py'), ck.lib())
    cs = ck.message_classes()
    oauth2, oidc = fr['oauth2'], fr['oidc']
    here = {m: {c[1].split('.')[-1]: c for c in cs if c[1].rpartition('.')[0] == 'oidcmsg.' + m} for m in ('oauth2', 'oidc')}
    with open(os.path.join(VERIF, 'data', 'profile.json')) as f:
        prof = json.load(f)
    n = 0
    for f, fn, table in ((oauth2, 'oauth2.factory', here['oauth2']), (oidc, 'oidc.factory', dict(here['oauth2'], **here['oidc']))):
        for name, c in sorted(table.items()):
            n += 1
            ck.rule('empty(%s, %s)' % (fn, ck.cname(c)), fr['empty'], [f, c])
            kinds = {p: k.partition(' ')[0] for p, k in prof.get(ck.cname(c), {'params': {}})['params'].items()}
            ps = [p for p in ck.table(c, 'c_param') if p in kinds]
            for p in ps:
                ck.rule('made(%s, %s, %s)' % (fn, ck.cname(c), p), fr['made'], [f, c, ck.k(json.dumps({p: SAMPLE[kinds[p]]}))])
            ck.rule('made(%s, %s, all)' % (fn, ck.cname(c)), fr['made'], [f, c, ck.k(json.dumps({p: SAMPLE[kinds[p]] for p in ps}))])
        for name, c in sorted(table.items()):
            ck.rule('odd_content(%s, %s)' % (fn, ck.cname(c)), fr['odd_content'], [f, c])
        ck.rule('any_name(%s)' % fn, fr['any_name'], [f])
        names = sorted({c[1].split('.')[-1] for c in cs})
        ck.rule('unknown(%s)' % fn, fr['unknown'], [f, ('tup', tuple(ck.k(x) for x in names))])
        for x in ('', 'Unknown', 'JWT', 'MissingRequiredAttribute', 'factory', 'Messag', 'message', 'authorizationrequest', 'AuthorizationRequest ', 'AuthorizationRequestX', 'oauth2', 'OPTIONAL_MESSAGE'):
            ck.rule('not_a_message(%s, %s)' % (fn, x), fr['not_a_message'], [f, ck.k(x)])
    ck.need(n, 50, 'names')
