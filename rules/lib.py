def accepted(m, kw):
    """the verification verdict: no exception and a true answer"""
    try:
        return bool(m.verify(**kw))
    except Exception:
        return False


def refuses(m, kw, why):
    if accepted(m, kw):
        fail(why)
    reached()


def accepts(m, kw, why):
    try:
        r = m.verify(**kw)
    except Exception as e:
        fail(why)
    if not r:
        fail(why)
    reached()


def wellformed(m):
    """what the other rules ask of an ID token"""
    for v in m.values():
        assume(v is not None)
    for n in ('iss', 'sub', 'aud', 'exp', 'iat'):
        assume(n in m)
        assume(m[n])
    for n in ('birthdate', 'error', 'error_description', 'error_uri'):
        assume(n not in m)


def skew_of(kw):
    if 'skew' in kw:
        return kw['skew']
    return 0


def storage_of(kw):
    if 'nonce_storage_time' in kw:
        return kw['nonce_storage_time']
    return 14400


def live(m, kw):
    skew = skew_of(kw)
    assume(now() - skew <= m['exp'])
    assume(m['iat'] + storage_of(kw) >= now() - skew)


def for_me(m, kw):
    """issuer, audience, party and nonce are right"""
    if 'iss' in kw:
        assume(kw['iss'] == m['iss'])
    if 'client_id' in kw:
        assume(kw['client_id'] in m['aud'])
        if 'azp' in m:
            assume(kw['client_id'] == m['azp'])
    if len(m['aud']) > 1:
        assume('azp' in m and m['azp'] in m['aud'])
    if 'nonce' in kw and 'nonce' in m:
        assume(kw['nonce'] == m['nonce'])


def known(c):
    """analyse both cases separately"""
    if c:
        return True
    return False
