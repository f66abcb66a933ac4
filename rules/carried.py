def _carried(C, claim):
    """a message with a token in it, and what the token says"""
    m = message(C)
    kw = kwargs()
    assume(claim in m)
    t = m[claim]
    assume(isinstance(t, str))
    assume(is_jws(t))
    return m, kw, payload(t)


def carried_other_issuer(C, claim):
    m, kw, p = _carried(C, claim)
    assume('iss' in kw and 'iss' in p)
    assume(kw['iss'] != p['iss'])
    refuses(m, kw, 'a message is accepted although the token it carries is from another issuer')


def carried_not_in_audience(C, claim):
    m, kw, p = _carried(C, claim)
    assume('client_id' in kw and 'aud' in p)
    assume(isinstance(p['aud'], list))
    assume(kw['client_id'] not in p['aud'])
    refuses(m, kw, 'a message is accepted although the client is not in the audience of the token it carries')


def carried_azp_not_client(C, claim):
    m, kw, p = _carried(C, claim)
    assume('client_id' in kw and 'azp' in p)
    assume(isinstance(p['azp'], str))
    assume(kw['client_id'] != p['azp'])
    refuses(m, kw, 'a message is accepted although the authorized party of the token it carries is another client')


def carried_other_nonce(C, claim):
    m, kw, p = _carried(C, claim)
    assume('nonce' in kw and 'nonce' in p)
    assume(kw['nonce'] != p['nonce'])
    refuses(m, kw, 'a message is accepted although the token it carries has another nonce')


def carried_expired(C, claim):
    m, kw, p = _carried(C, claim)
    assume('exp' in p)
    assume(isinstance(p['exp'], int))
    assume(now() - skew_of(kw) > p['exp'])
    refuses(m, kw, 'a message is accepted although the token it carries has expired')


def carried_too_old(C, claim):
    m, kw, p = _carried(C, claim)
    assume('iat' in p)
    assume(isinstance(p['iat'], int))
    assume(p['iat'] + storage_of(kw) < now() - skew_of(kw))
    refuses(m, kw, 'a message is accepted although the token it carries is too old')


def carried_missing(C, claim, name):
    m, kw, p = _carried(C, claim)
    assume(name not in p)
    refuses(m, kw, 'a message is accepted although the token it carries has no ' + name)


def carried_wrong_aud(C, claim):
    m, kw, p = _carried(C, claim)
    assume('aud' in kw and 'aud' in p)
    assume(isinstance(p['aud'], list))
    assume(kw['aud'] not in p['aud'])
    refuses(m, kw, 'a message is accepted although the token it carries is for another audience')


def carried_future(C, claim):
    m, kw, p = _carried(C, claim)
    assume('iat' in p)
    assume(isinstance(p['iat'], int))
    assume(p['iat'] > now() + skew_of(kw))
    refuses(m, kw, 'a message is accepted although the token it carries was issued in the future')


def carried_with_nonce(C, claim):
    m, kw, p = _carried(C, claim)
    assume('nonce' in p)
    assume(isinstance(p['nonce'], str) and p['nonce'])
    refuses(m, kw, 'a logout token with a nonce is accepted')


def carried_no_events(C, claim):
    m, kw, p = _carried(C, claim)
    assume('events' not in p)
    refuses(m, kw, 'a logout token without events is accepted')
