from oidcmsg import verified_claim_name
from oidcmsg.oidc.session import EndSessionRequest

SLOT = verified_claim_name('id_token_hint')


def redirect_without_hint():
    m = message(EndSessionRequest)
    kw = kwargs()
    assume('post_logout_redirect_uri' in m and 'id_token_hint' not in m)
    refuses(m, kw, 'a logout redirect without ID token hint is accepted')


def hint_checked():
    m = message(EndSessionRequest)
    kw = kwargs()
    assume('id_token_hint' in m)
    t = str(m['id_token_hint'])
    if accepted(m, kw):
        require('keyjar' in kw and loaded(t, kw['keyjar']) or 'verify' in kw and not kw['verify'], 'the hint was not loaded with the key material given')
        require(idtoken_checked(t), 'a logout request is accepted although its hint was not verified with the arguments given')
        require(SLOT in m and content_of(m[SLOT], t), 'the verified hint is not exposed')
    reached()


def neither():
    m = message(EndSessionRequest)
    kw = kwargs()
    flag('always_verified')
    assume('post_logout_redirect_uri' not in m and 'id_token_hint' not in m)
    accepts(m, kw, 'a logout request without redirect and hint is refused')


def good_hint():
    m = message(EndSessionRequest)
    kw = kwargs()
    flag('always_verified')
    assume('id_token_hint' in m)
    t = m['id_token_hint']
    assume(isinstance(t, str))
    assume(t)
    assume(is_jws(t))
    assume(header(t)['alg'] != 'none')
    assume('allowed_sign_alg' not in kw and 'sigalg' not in kw)
    assume('keyjar' in kw)
    assume('iss' in payload(t) and payload(t)['iss'] in kw['keyjar'])
    accepts(m, kw, 'a logout request with a good hint is refused')
