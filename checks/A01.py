def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_verify('Message.verify')
    a.summarise_loading()
    ck.explain = ('Abstract interpretation of the verification of the OpenID authentication request (and subclasses with an own verify) with unknown '
                  'content and arguments, request object loading and merging included; the content left in an accepted message must satisfy each '
                  'cross-parameter rule, and a request that satisfies them must be accepted on every exit.')
    fr = ck.load(ck.rules_path('A01.py'), ck.lib())
    base = ck.cls('oidcmsg.oidc.AuthorizationRequest')
    seen = set()
    for c in ck.message_classes():
        if base in a.classes[c[1]].mro:
            v = ck.method(c, 'verify')
            if v in seen:
                continue
            seen.add(v)
            for n in ('without_openid', 'without_response_type', 'without_nonce', 'other_nonce', 'offline_without_consent', 'none_and_others'):
                for where in ('own', 'object'):
                    ck.rule('%s(%s %s)' % (n, ck.cname(c), where), fr[n], [c, ck.k(where)])
            for n in ('accepts_login', 'accepts_offline', 'accepts_code_without_nonce'):
                ck.rule('%s(%s)' % (n, ck.cname(c)), fr[n], [c])
    ck.need(len(seen), 1, 'authentication request verifications')
