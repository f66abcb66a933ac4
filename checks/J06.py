def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    ck.explain = ('Abstract interpretation of IdToken.to_jwt and pack (and of subclasses that override them) with unknown content, algorithm, key and '
                  'lifetime. The argument of the signer is recovered on every path and its members compared, as terms, with left_hash of the values that '
                  'were in the token, the current time and its sum with the lifetime; the raw values must be absent.')
    ck.assumptions = ['cryptojwt.jws.utils.left_hash computes the left-half hash', 'cryptojwt JWS.sign_compact signs the message it was constructed with']
    fr = ck.load(ck.rules_path('J06.py'), ck.lib())
    base = ck.cls('oidcmsg.oidc.IdToken')
    seen = {}
    for c in ck.message_classes():
        if base in a.classes[c[1]].mro:
            seen.setdefault((ck.method(c, 'to_jwt'), ck.method(c, 'pack'), ck.method(c, 'val_hash'), ck.method(c, 'pack_init')), c)
    ck.need(len(seen), 1, 'ID token classes')
    for c in seen.values():
        for n in ('with_lifetime', 'without_lifetime', 'packing', 'packing_without_lifetime'):
            ck.rule('%s(%s)' % (n, ck.cname(c)), fr[n], [c])
