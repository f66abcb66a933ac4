KINDS = ('essential', 'value', 'values', 'short', 'long', 'char')
BUILTIN = {'str': ('bi', 'str'), 'int': ('bi', 'int'), 'bool': ('bi', 'bool')}


def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_verify('Message.verify')
    ck.explain = ('Abstract interpretation of verify_claims_request and of the request messages that use it, for every declared text, number and boolean claim '
                  '(read from the evaluated class tables) × kind of constraint; constraints of unknown content, the wrong one stated as a premise.')
    with open(ck.rules_path('claimspec.py')) as f:
        fr = ck.load(ck.rules_path('I02.py'), ck.lib() + f.read())
    ida = 'oidcmsg.oidc.identity_assurance.'
    ve, claims = ck.cls(ida + 'VerificationElement'), ck.cls(ida + 'IdentityAssuranceClaims')
    n = 0
    for c in (ve, claims):
        for p, e in ck.schema(c).items():
            if e.islist and e.elem in BUILTIN:
                t = BUILTIN[e.elem]
                for k in KINDS:
                    ck.rule('item_bad(%s, %s, %s)' % (ck.cname(c), p, k), fr['item_bad'], [c, ck.k(p), t, ck.k(k)])
                ck.rule('item_good(%s, %s)' % (ck.cname(c), p), fr['item_good'], [c, ck.k(p), t])
            if e.islist or e.elem not in BUILTIN:
                continue
            n += 1
            t = BUILTIN[e.elem]
            for k in KINDS:
                ck.rule('claim_bad(%s, %s, %s)' % (ck.cname(c), p, k), fr['claim_bad'], [c, ck.k(p), t, ck.k(k)])
                names = [x for x in ck.schema(c) if x != '*']
                i = names.index(p)
                if k in ('value', 'essential') or ck.tier == 'thorough':
                    for f in ('among_others', 'among_others_reversed'):
                        ck.rule('%s(%s, %s, %s)' % (f, ck.cname(c), p, k), fr[f],
                                [c, ck.k(p), t, ck.k(k), ck.k(tuple(names[:i])), ck.k(tuple(names[i + 1:])), ck.k('claims' if c == claims else 'verification')])
                if c == claims:
                    ck.rule('nested_claims_bad(%s, %s)' % (p, k), fr['nested_claims_bad'], [ck.k(p), t, ck.k(k)])
                else:
                    ck.rule('nested_verification_bad(%s, %s)' % (p, k), fr['nested_verification_bad'], [ck.k(p), t, ck.k(k)])
            ck.rule('claim_good(%s, %s)' % (ck.cname(c), p), fr['claim_good'], [c, ck.k(p), t])
            ck.rule('claim_null(%s, %s)' % (ck.cname(c), p), fr['claim_null'], [c, ck.k(p)])
            for k in (3, 4, 299, 300):
                ck.rule('purpose_fine(%s, %s, %d)' % (ck.cname(c), p, k), fr['purpose_fine'], [c, ck.k(p), ck.k(k), t])
            if c == claims:
                ck.rule('nested_good(%s)' % p, fr['nested_good'], [ck.k(p), t])
        ck.rule('no_claims(%s)' % ck.cname(c), fr['no_claims'], [c])
    ck.need(n, 20, 'declared text, number and boolean claims')
    for k in KINDS:
        ck.rule('evidence_bad(%s)' % k, fr['evidence_bad'], [ck.k(k)])
    ck.rule('evidence_any', fr['evidence_any'], [ck.k('value')])
    ver, vcr = ck.cls(ida + 'VerificationElementRequest'), ck.cls(ida + 'VerifiedClaimsRequest')
    for k in KINDS:
        for p in ('trust_framework', 'verification_process'):
            ck.rule('request_bad(%s, %s)' % (p, k), fr['request_bad'], [ver, ck.k(p), BUILTIN['str'], ck.k(k)])
            ck.rule('request_nested_bad(verification.%s, %s)' % (p, k), fr['request_nested_bad'], [vcr, ck.k('verification'), ck.k(p), BUILTIN['str'], ck.k(k)])
            ck.rule('openid_nested_bad(verification.%s, %s)' % (p, k), fr['openid_nested_bad'], [ck.k('verification'), ck.k(p), BUILTIN['str'], ck.k(k)])
        for p, t in (('given_name', 'str'), ('email_verified', 'bool'), ('updated_at', 'int'), ('title', 'str')):
            ck.rule('request_nested_bad(claims.%s, %s)' % (p, k), fr['request_nested_bad'], [vcr, ck.k('claims'), ck.k(p), BUILTIN[t], ck.k(k)])
            ck.rule('openid_nested_bad(claims.%s, %s)' % (p, k), fr['openid_nested_bad'], [ck.k('claims'), ck.k(p), BUILTIN[t], ck.k(k)])
    for p in ('trust_framework', 'verification_process'):
        ck.rule('request_good(%s)' % p, fr['request_good'], [ver, ck.k(p), BUILTIN['str']])
