def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_loading()
    ck.explain = ('merge() is interpreted abstractly on two messages of unknown content for every treatment and an unknown parameter name: what is left must '
                  'be exactly what the treatment says. verify() of every request type that can carry a request object is interpreted with the object’s content '
                  'unknown: accepting exits need the object loaded with the key material given, must leave the content the treatment says, and are '
                  'unreachable when the merged content lacks a required parameter or has a value outside a vocabulary.')
    fr = ck.load(ck.rules_path('A02.py'), ck.lib())
    base = ck.cls('oidcmsg.oauth2.AuthorizationRequest')
    par = ck.cls('oidcmsg.oauth2.PushedAuthorizationRequest')
    merges, verifies = set(), {}
    for c in ck.message_classes():
        if base not in a.classes[c[1]].mro:
            continue
        f = ck.method(c, 'merge')
        if f not in merges:
            merges.add(f)
            for t in ('strict', 'lax', 'whitelist'):
                ck.rule('object_wins(%s, %s)' % (ck.cname(c), t), fr['object_wins'], [c, ck.k(t)])
            for n in ('strict_drops', 'default_is_strict', 'whitelist_drops', 'whitelist_keeps', 'no_whitelist_drops', 'lax_keeps', 'unknown_treatment'):
                ck.rule('%s(%s)' % (n, ck.cname(c)), fr[n], [c])
        if 'request' in ck.schema(c):
            verifies.setdefault(ck.method(c, 'verify'), []).append(c)
    ck.need(len(verifies), 3, 'request types with request object')
    todo = []
    for v, cs in verifies.items():
        c = cs[0]
        lax = par in a.classes[c[1]].mro
        n = 'lax_in_use' if lax else 'strict_in_use'
        sch = ck.schema(c)
        for p, e in sch.items():
            if p != '*' and e.required:
                ck.rule('result_complete(%s, %s)' % (ck.cname(c), p), fr['result_complete'], [c, ck.k(p), ck.k(lax)])
                ck.rule('result_nonempty(%s, %s)' % (ck.cname(c), p), fr['result_nonempty'], [c, ck.k(p)])
        for p in ck.table(c, 'c_allowed_values'):
            if p in sch:
                ck.rule('result_vocabulary(%s, %s)' % (ck.cname(c), p), fr['result_vocabulary'], [c, ck.k(p), ck.k(sch[p].islist)])
        todo.append((c, n))
    a.summarise_verify('Message.verify')
    for c, n in todo:
        ck.rule('object_authenticated(%s)' % ck.cname(c), fr['object_authenticated'], [c])
        ck.rule('%s(%s)' % (n, ck.cname(c)), fr[n], [c])
        ck.rule('good_object(%s)' % ck.cname(c), fr['good_object'], [c, ck.k(n == 'lax_in_use')])
