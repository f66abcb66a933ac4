from oidcmsg.oidc import IdToken




def _start():
    return message(IdToken), kwargs()


def refused_other_issuer():
    m, kw = _start()
    assume('iss' in kw and 'iss' in m)
    assume(kw['iss'] != m['iss'])
    refuses(m, kw, 'an ID token from another issuer is accepted')


def refused_not_in_audience():
    m, kw = _start()
    assume('client_id' in kw and 'aud' in m)
    assume(kw['client_id'] not in m['aud'])
    refuses(m, kw, 'an ID token without the client in its audience is accepted')


def refused_several_audiences_without_azp():
    m, kw = _start()
    assume('aud' in m and 'azp' not in m)
    assume(len(m['aud']) > 1)
    refuses(m, kw, 'an ID token for several audiences without authorized party is accepted')


def refused_azp_outside_audience():
    m, kw = _start()
    assume('aud' in m and 'azp' in m)
    assume(len(m['aud']) > 1)
    assume(m['azp'] not in m['aud'])
    refuses(m, kw, 'an ID token whose authorized party is outside the audience is accepted')


def refused_azp_not_client():
    m, kw = _start()
    assume('client_id' in kw and 'azp' in m)
    assume(kw['client_id'] != m['azp'])
    refuses(m, kw, 'an ID token whose authorized party is another client is accepted')


def refused_other_nonce():
    m, kw = _start()
    assume('nonce' in kw and 'nonce' in m)
    assume(kw['nonce'] != m['nonce'])
    refuses(m, kw, 'an ID token with another nonce is accepted')


def accepted_when_in_order():
    m, kw = _start()
    wellformed(m)
    live(m, kw)
    for_me(m, kw)
    accepts(m, kw, 'an ID token in order is refused')
