def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_verify('IdToken.verify', 'Message.verify')
    ck.explain = ('Abstract interpretation of AuthorizationResponse.verify (and of overriding subclasses) with a signed ID token of unknown content; '
                  'left_hash is an uninterpreted function of value and hash function. A missing or different hash must make every exit refuse; '
                  'with the hash equal to left_hash(value, "HS" + last three characters of the header algorithm) and everything else in order every exit accepts.')
    fr = ck.load(ck.rules_path('J05.py'), ck.lib())
    base = ck.cls('oidcmsg.oidc.AuthorizationResponse')
    seen = {}
    for c in ck.message_classes():
        if base in a.classes[c[1]].mro:
            seen.setdefault(ck.method(c, 'verify'), c)
    ck.need(len(seen), 1, 'authentication response classes')
    for c in seen.values():
        for v, h in (('access_token', 'at_hash'), ('code', 'c_hash')):
            for n in ('refused_without_hash', 'refused_wrong_hash', 'good_hash_is_accepted'):
                ck.rule('%s(%s, %s)' % (n, ck.cname(c), v), fr[n], [c, ('k', 'str', v), ('k', 'str', h)])
