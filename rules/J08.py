from oidcmsg.oidc.session import LogoutToken, BackChannelLogoutRequest

EVENT = 'http://schemas.openid.net/event/backchannel-logout'


def _start():
    m = message(LogoutToken)
    return m, kwargs()


def refused_with_nonce():
    m, kw = _start()
    assume('nonce' in m)
    refuses(m, kw, 'a logout token with a nonce is accepted')


def refused_several_events():
    m, kw = _start()
    assume('events' in m and isinstance(m['events'], dict))
    assume(len(m['events']) > 1)
    refuses(m, kw, 'a logout token with several events is accepted')


def refused_no_event():
    m, kw = _start()
    assume('events' in m and isinstance(m['events'], dict))
    assume(len(m['events']) == 0)
    refuses(m, kw, 'a logout token without event is accepted')


def refused_other_event():
    m, kw = _start()
    assume('events' in m and isinstance(m['events'], dict))
    assume(EVENT not in m['events'])
    refuses(m, kw, 'a logout token with another event is accepted')


def refused_event_with_content():
    m, kw = _start()
    assume('events' in m and isinstance(m['events'], dict))
    assume(EVENT in m['events'] and m['events'][EVENT] != {})
    refuses(m, kw, 'a logout token whose event is not an empty object is accepted')


def refused_without_events():
    m, kw = _start()
    assume('events' not in m)
    refuses(m, kw, 'a logout token without events is accepted')


def refused_without_subject_and_session():
    m, kw = _start()
    assume('sub' not in m and 'sid' not in m)
    refuses(m, kw, 'a logout token without subject and session id is accepted')


def refused_other_audience():
    m, kw = _start()
    assume('aud' in m and 'aud' in kw)
    assume(kw['aud'] not in m['aud'])
    refuses(m, kw, 'a logout token for another audience is accepted')


def refused_other_issuer():
    m, kw = _start()
    assume('iss' in m and 'iss' in kw)
    assume(kw['iss'] != m['iss'])
    refuses(m, kw, 'a logout token from another issuer is accepted')


def refused_issued_in_future():
    m, kw = _start()
    assume('iat' in m)
    assume(m['iat'] > now() + skew_of(kw))
    refuses(m, kw, 'a logout token issued in the future is accepted')


def refused_other_algorithm():
    m, kw = _start()
    m.jws_header = symdict('header')
    assume('alg' in m.jws_header)
    assume('allowed_sign_alg' in kw and kw['allowed_sign_alg'])
    assume(m.jws_header['alg'] != kw['allowed_sign_alg'])
    refuses(m, kw, 'a logout token with another algorithm than the pinned one is accepted')


def accepted_when_in_order():
    m, kw = _start()
    for n in ('iss', 'aud', 'iat', 'jti', 'events'):
        assume(n in m)
        assume(m[n])
    m['events'] = {EVENT: {}}
    assume('nonce' not in m)
    assume('sub' in m or 'sid' in m)
    if 'aud' in kw:
        assume(kw['aud'] in m['aud'])
    if 'iss' in kw:
        assume(kw['iss'] == m['iss'])
    assume(m['iat'] <= now() + skew_of(kw))
    assume('allowed_sign_alg' not in kw)
    accepts(m, kw, 'a logout token in order is refused')


def _request():
    m = message(BackChannelLogoutRequest)
    kw = kwargs()
    assume('keyjar' in kw and 'logout_token' in m)
    t = m['logout_token']
    assume(isinstance(t, str))
    if 'verify' in kw:
        assume(kw['verify'])
    return m, kw, t


def request_refused_unsigned():
    m, kw, t = _request()
    assume(is_jws(t))
    assume(header(t)['alg'] == 'none')
    if 'sigalg' in kw:
        assume(kw['sigalg'] != 'none')
    if 'allow_sign_alg_none' in kw:
        assume(not kw['allow_sign_alg_none'])
    refuses(m, kw, 'an unsigned logout token is accepted without having been allowed')


def request_refused_not_a_signed_token():
    m, kw, t = _request()
    assume(not is_jws(t))
    if 'sigalg' in kw:
        assume(kw['sigalg'] != 'none')
    if 'allow_sign_alg_none' in kw:
        assume(not kw['allow_sign_alg_none'])
    refuses(m, kw, 'something that is not a signed token is accepted as logout token')


def request_verified():
    m, kw, t = _request()
    assume(is_jws(t))
    assume(header(t)['alg'] != 'none')
    if accepted(m, kw):
        require(sig_verified(t, kw['keyjar']), 'a logout token is accepted without its signature having been verified')
    reached()


def request_follows_token_rules():
    """the verdict of the token's own verification decides"""
    m, kw, t = _request()
    assume(is_jws(t))
    assume('nonce' in payload(t))
    refuses(m, kw, 'a logout request is accepted although its token breaks the rules for logout tokens')


def request_accepted():
    m, kw, t = _request()
    assume(t)
    assume(is_jws(t))
    assume(header(t)['alg'] != 'none')
    p = payload(t)
    for n in ('iss', 'aud', 'iat', 'jti', 'events', 'sub'):
        assume(n in p)
        assume(p[n])
    assume(isinstance(p['events'], dict))
    assume(EVENT in p['events'] and len(p['events']) == 1 and p['events'][EVENT] == {})
    assume('nonce' not in p)
    for n in ('aud', 'iss', 'allowed_sign_alg', 'sigalg'):
        assume(n not in kw)
    assume(p['iat'] <= now() + skew_of(kw))
    assume(kw['keyjar'])
    sig_good(t, kw['keyjar'])
    accepts(m, kw, 'a back-channel logout request in order is refused')
