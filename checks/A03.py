def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_verify('Message.verify', 'IdToken.verify')
    a.summarise_loading()
    ck.explain = ('Abstract interpretation of the verification of every authorization response type on unknown content and options: no accepting exit when '
                  'the named client, issuer or audience differs from the given one, no refusing exit when they agree or nothing is named.')
    fr = ck.load(ck.rules_path('A03.py'), ck.lib())
    base = ck.cls('oidcmsg.oauth2.AuthorizationResponse')
    oidc = ck.cls('oidcmsg.oidc.AuthorizationResponse')
    seen = set()
    for c in ck.message_classes():
        mro = a.classes[c[1]].mro
        if base not in mro and c != oidc:
            continue
        v = ck.method(c, 'verify')
        key = (v, oidc in mro)
        if key in seen:
            continue
        seen.add(key)
        names = ['other_client', 'other_issuer', 'right_party', 'names_nothing', 'nothing_to_compare']
        if oidc in mro:
            names.append('other_audience')
        for n in names:
            ck.rule('%s(%s)' % (n, ck.cname(c)), fr[n], [c])
    ck.need(len(seen), 2, 'authorization response verifications')
