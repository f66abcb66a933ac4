from sa.core import State

CARRIERS = [('oidcmsg.oidc.AccessTokenResponse', 'id_token'), ('oidcmsg.oidc.AuthorizationResponse', 'id_token'),
            ('oidcmsg.oidc.MessageWithIdToken', 'id_token'), ('oidcmsg.oidc.session.EndSessionRequest', 'id_token_hint')]
ALL = ('refused_unsigned', 'refused_not_signed_token', 'refused_other_algorithm', 'refused_other_pinned_algorithm',
       'refused_unknown_issuer', 'refused_unless_verified', 'unsigned_is_accepted_when_allowed')


def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    ck.explain = ('Abstract interpretation of the verification of every message class that carries an ID token (response, session message, logout hint, '
                  'authentication request hint; subclasses with an own verify included), token loading inlined, cryptojwt modelled by uninterpreted '
                  'propositions. Each rule describes a token that must be refused; an exit with a true verdict is a violation.')
    a.summarise_verify('IdToken.verify', 'Message.verify')
    fr = ck.load(ck.rules_path('J02.py'), ck.lib())
    carriers = []
    seen = {}
    for base, claim in CARRIERS:
        b = ck.cls(base)
        for c in ck.message_classes():
            if b in a.classes[c[1]].mro:
                v = ck.method(c, 'verify')
                if (claim, v) not in seen:
                    seen[(claim, v)] = c
                    carriers.append((c, claim))
    ck.need(len(carriers), 4, 'token carrying message classes')
    for c, claim in carriers:
        for n in ALL:
            ck.rule('%s(%s)' % (n, ck.cname(c)), fr[n], [c, ('k', 'str', claim)])
    c = ck.cls('oidcmsg.oidc.AuthorizationRequest')
    for n in ('hint_unsigned', 'hint_verified'):
        ck.rule('%s(%s)' % (n, ck.cname(c)), fr[n], [c])
    a.summarise_verify('Message.verify')
    ck.rule('good_hint(%s)' % ck.cname(c), fr['good_hint'], [c])
