from sa.core import State
from sa.domain import K


def carriers(ck, a, claims=('id_token', 'id_token_hint')):
    """(class, claim) for each way an ID token is carried and verified; the hint of an authentication request need not be live or for the receiver"""
    seen = {}
    for c in ck.message_classes():
        cp = State().obj(a.find_attr(State(), c[1], 'c_param'))
        for claim in claims:
            if cp.conc.get(K(claim)) is None or ck.cls('oidcmsg.oidc.ClaimsRequest') in a.classes[c[1]].mro:
                continue
            if claim == 'id_token_hint' and ck.cls('oidcmsg.oauth2.AuthorizationRequest') in a.classes[c[1]].mro:
                continue
            seen.setdefault((claim, ck.method(c, 'verify')), c)
    return [(c, claim) for (claim, f), c in seen.items()]


def carried(ck, a, names, n, claims=('id_token', 'id_token_hint'), skip=()):
    a.summarise_codecs()
    fr = ck.load(ck.rules_path('carried.py'), ck.lib())
    found = [x for x in carriers(ck, a, claims) if x[0] not in skip]
    ck.need(len(found), n, 'messages that carry a token')
    for c, claim in found:
        for r in names:
            if r.startswith('no_'):
                ck.rule('carried_missing(%s, %s, %s)' % (ck.cname(c), claim, r[3:]), fr['carried_missing'], [c, ck.k(claim), ck.k(r[3:])])
            else:
                ck.rule('%s(%s, %s)' % (r, ck.cname(c), claim), fr[r], [c, ck.k(claim)])


def run(ck):
    a = ck.analyzer()
    ck.explain = ('Abstract interpretation of IdToken.verify and everything it calls (generic verification included) with an ID token of '
                  'unknown content and unknown keyword arguments. Each rule restricts the unknowns to one way of being wrong and '
                  'examines every exit: an exit with a true verdict is a violation. The last rule assumes that everything is in order '
                  'and treats every refusing exit as a violation. The same for every message that carries an ID token, '
                  'with the unknown content in the token and the expectations in the keyword arguments of the message\'s verification.')
    ck.rules('J03.py')
    carried(ck, a, ('carried_other_issuer', 'carried_not_in_audience', 'carried_azp_not_client', 'carried_other_nonce'), 4)
