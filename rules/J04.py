from oidcmsg.oidc import IdToken


def _start():
    return message(IdToken), kwargs()


def refused_expired():
    m, kw = _start()
    assume('exp' in m)
    assume(now() - skew_of(kw) > m['exp'])
    refuses(m, kw, 'an expired ID token is accepted')


def refused_too_old():
    m, kw = _start()
    assume('iat' in m)
    assume(m['iat'] + storage_of(kw) < now() - skew_of(kw))
    refuses(m, kw, 'an ID token issued longer ago than the storage time is accepted')


def refused_without_exp():
    m, kw = _start()
    assume('exp' not in m)
    refuses(m, kw, 'an ID token without expiry is accepted')


def refused_without_iat():
    m, kw = _start()
    assume('iat' not in m)
    refuses(m, kw, 'an ID token without issue time is accepted')


def accepted_when_live():
    m, kw = _start()
    wellformed(m)
    live(m, kw)
    assume('iss' not in kw and 'client_id' not in kw and 'nonce' not in kw)
    assume(len(m['aud']) == 1)
    accepts(m, kw, 'a live ID token is refused')


def accepted_with_own_bounds_at_the_limit():
    """exp and iat exactly on the limit are still good"""
    m, kw = _start()
    wellformed(m)
    assume(now() - skew_of(kw) == m['exp'])
    assume(m['iat'] + storage_of(kw) == now() - skew_of(kw))
    assume('iss' not in kw and 'client_id' not in kw and 'nonce' not in kw)
    assume(len(m['aud']) == 1)
    accepts(m, kw, 'an ID token exactly at the limit is refused')
