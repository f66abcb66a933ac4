from oidcmsg.oidc import JsonWebToken


def _start():
    return message(JsonWebToken), kwargs()


def refused_expired():
    m, kw = _start()
    assume('exp' in m)
    assume(m['exp'] < now() - skew_of(kw))
    refuses(m, kw, 'an expired JSON web token is accepted')


def refused_issued_in_future():
    m, kw = _start()
    assume('iat' in m)
    assume(m['iat'] > now() + skew_of(kw))
    refuses(m, kw, 'a JSON web token issued in the future is accepted')


def refused_not_yet_valid():
    m, kw = _start()
    assume('nbf' in m)
    assume(m['nbf'] > now() + skew_of(kw))
    refuses(m, kw, 'a JSON web token is accepted before its not-before time')


def refused_other_audience():
    m, kw = _start()
    assume('aud' in m and 'aud' in kw)
    assume(kw['aud'] not in m['aud'])
    refuses(m, kw, 'a JSON web token for another audience is accepted')


def refused_other_issuer():
    m, kw = _start()
    assume('iss' in m and 'iss' in kw)
    assume(kw['iss'] != m['iss'])
    refuses(m, kw, 'a JSON web token from another issuer is accepted')


def accepted_when_in_order():
    m, kw = _start()
    s = skew_of(kw)
    if 'exp' in m:
        assume(m['exp'] >= now() - s)
    if 'iat' in m:
        assume(m['iat'] <= now() + s)
    if 'nbf' in m:
        assume(m['nbf'] <= now() + s)
    if 'aud' in m and 'aud' in kw:
        assume(kw['aud'] in m['aud'])
    if 'iss' in m and 'iss' in kw:
        assume(kw['iss'] == m['iss'])
    accepts(m, kw, 'a JSON web token in order is refused')


def a_larger_skew_only_tolerates_more():
    m, kw = _start()
    a, b = sym('skew_small'), sym('skew_large')
    assume(a <= b)
    assume('skew' not in kw)
    for n in ('exp', 'iat', 'nbf', 'aud', 'iss'):
        known(n in m)
    known('aud' in kw), known('iss' in kw)
    kw['skew'] = a
    if accepted(m, kw):
        kw['skew'] = b
        require(accepted(m, kw), 'a token accepted with one skew is refused with a larger one')
