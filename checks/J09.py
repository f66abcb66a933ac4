from sa.core import State
from sa.domain import K, NONE

CLAIMS = ('id_token', 'id_token_hint', 'request', 'logout_token')


def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_verify('IdToken.verify', 'LogoutToken.verify')
    ck.explain = ('Abstract interpretation of the verification of every message class that carries a token parameter, started with a message whose '
                  'verified-token slots may already hold anything (as they arrive from the wire) and with request objects that may contain such names '
                  'too. On every accepting exit a slot is empty or holds an object created during this verification from the token in the message.')
    fr = ck.load(ck.rules_path('J09.py'), ck.lib())
    seen = {}
    n = 0
    for c in ck.message_classes():
        cp = State().obj(a.find_attr(State(), c[1], 'c_param'))
        for claim in CLAIMS:
            e = cp.conc.get(K(claim))
            if e is None or ck.cls('oidcmsg.oidc.ClaimsRequest') in a.classes[c[1]].mro:
                continue
            n += 1
            key = (claim, ck.method(c, 'verify'))
            if key in seen:
                continue
            seen[key] = c
            ck.rule('slot_holds_token(%s, %s)' % (ck.cname(c), claim), fr['slot_holds_token'], [c, K(claim), NONE])
            own = a.funcs[ck.method(c, 'verify')[1]].qual
            if own == 'AuthorizationRequest.verify' and claim == 'id_token_hint':
                ck.rule('slot_holds_token(%s, verified_id_token_hint)' % ck.cname(c), fr['slot_holds_token'], [c, K(claim), K('verified_id_token_hint')])
                ck.rule('slot_is_filled(%s, verified_id_token_hint)' % ck.cname(c), fr['slot_is_filled'], [c, K(claim), K('verified_id_token_hint')])
            else:
                ck.rule('slot_is_filled(%s, %s)' % (ck.cname(c), claim), fr['slot_is_filled'], [c, K(claim), NONE])
    ck.need(n, 12, 'token parameters')
