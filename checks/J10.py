def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.jwe_possible = True
    ck.explain = ('from_jwt of every message class with its own loader, and verify of every message class that carries a request object or an ID token, are interpreted '
                  'abstractly on a token that may be encrypted and unknown options. The rules assume that the algorithms the caller demands are not those in the '
                  'header of the encryption (or that the token is not encrypted at all): no exit may take or accept the token; and that they are: no exit refuses it for that reason.')
    ck.assumptions = ['cryptojwt: the factory compares the algorithms it is given with the header of the token and raises HeaderError']
    fr = ck.load(ck.rules_path('J10.py'), ck.lib())
    done = {}
    for c in ck.message_classes():
        done.setdefault(ck.method(c, 'from_jwt'), []).append(c)
    ck.need(sum(len(v) for v in done.values()), 60, 'message classes sharing a loader')
    for f, cs in done.items():
        c = min(cs, key=lambda x: len(a.classes[x[1]].mro))
        for how in ('alg', 'enc', 'plain'):
            ck.rule('load_wrong(%s, %s)' % (ck.cname(c), how), fr['load_wrong'], [c, ck.k(how)])
        ck.rule('load_right(%s)' % ck.cname(c), fr['load_right'], [c])
    a.summarise_verify('IdToken.verify', 'LogoutToken.verify', 'Message.verify')
    claims = ck.cls('oidcmsg.oidc.ClaimsRequest')      # its id_token is a description of claims, no token
    seen = {}
    for c in ck.message_classes():
        sch = ck.schema(c)
        for claim in ('request', 'id_token', 'id_token_hint'):
            if claim in sch and not sch[claim].islist and claims not in a.classes[c[1]].mro:
                seen.setdefault((claim, ck.method(c, 'verify')), c)
    openid = ck.method(ck.cls('oidcmsg.oidc.AuthorizationRequest'), 'verify')
    base = ck.method(ck.cls('oidcmsg.message.Message'), 'verify')
    todo = [(c, claim) for (claim, v), c in seen.items() if v != base]
    ck.need(len(todo), 7, 'message classes that carry a token')
    for c, claim in todo:
        for how in ('alg', 'enc', 'plain'):
            ck.rule('carried_wrong(%s, %s, %s)' % (ck.cname(c), claim, how), fr['carried_wrong'], [c, ck.k(claim), ck.k(how)])
        if (claim, ck.method(c, 'verify')) != ('request', openid):     # its request object may carry a hint of its own
            ck.rule('carried_right(%s, %s)' % (ck.cname(c), claim), fr['carried_right'], [c, ck.k(claim)])
