BAD = ('yesterday', '1999-13-01', '1999-02-30', '01-02-1999', '1999-01-02T10:00:00Z', '1999/01/02', '19990102x', '99', '1999-01', 'x1999-01-02', '1999-01-02x', '')
GOOD = ('1999-01-02', '1999', '0000-01-02', '2000-02-29')


def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_loading()
    a.summarise_verify('Message.verify')
    ck.explain = ('Abstract interpretation of the verification of the OpenID claims set and of every type that inherits from it, on unknown content: a null '
                  'claim of any name (declared or not), or a birthdate that none of the three forms parses, leaves no accepting exit; without nulls and with '
                  'a birthdate that one form parses there is no refusing exit of the shared rule. Constants of each kind are also followed exactly.')
    fr = ck.rules('A08.py', names=()) if False else ck.load(ck.rules_path('A08.py'), ck.lib())
    base = ck.cls('oidcmsg.oidc.OpenIDSchema')
    n = 0
    seen = set()
    for c in ck.message_classes():
        if base not in a.classes[c[1]].mro:
            continue
        n += 1
        v = ck.method(c, 'verify')
        if v in seen and ck.tier != 'thorough':
            continue
        seen.add(v)
        ck.rule('null_claim(%s)' % ck.cname(c), fr['null_claim'], [c])
        ck.rule('bad_birthdate(%s)' % ck.cname(c), fr['bad_birthdate'], [c])
        sch = ck.schema(c)
        for p in (sorted(sch) if ck.tier == 'thorough' else ['email', 'birthdate']):
            if not sch[p].null:
                ck.rule('null_declared(%s, %s)' % (ck.cname(c), p), fr['null_declared'], [c, ck.k(p)])
        for t in BAD:
            ck.rule('odd_birthdate(%s, %s)' % (ck.cname(c), t), fr['odd_birthdate'], [c, ck.k(t)])
    ck.need(n, 3, 'claims set types')
    ck.rule('no_birthdate', fr['no_birthdate'], [base, base])
    for f in ('%Y-%m-%d', '%Y', '0000-%m-%d'):
        ck.rule('good_birthdate(%s)' % f, fr['good_birthdate'], [base, base, ck.k(f)])
    for t in GOOD:
        ck.rule('plain_birthdate(%s)' % t, fr['plain_birthdate'], [base, base, ck.k(t)])
