def _start(C):
    m = message(C)
    kw = kwargs()
    return m, kw


def other_client(C):
    m, kw = _start(C)
    assume('client_id' in m and 'client_id' in kw)
    assume(m['client_id'] != kw['client_id'])
    refuses(m, kw, 'a response for another client is accepted')


def other_issuer(C):
    m, kw = _start(C)
    assume('iss' in m and 'iss' in kw)
    assume(m['iss'] != kw['iss'])
    refuses(m, kw, 'a response of another issuer is accepted')


def other_audience(C):
    m, kw = _start(C)
    assume('aud' in m and 'client_id' in kw)
    assume(kw['client_id'] not in m['aud'])
    refuses(m, kw, 'a response for another audience is accepted')


def _plain(m, kw):
    flag('always_verified')
    for n in ('error', 'error_description', 'id_token', 'id_token_hint'):
        assume(n not in m)


def right_party(C):
    m, kw = _start(C)
    _plain(m, kw)
    if 'client_id' in m and 'client_id' in kw:
        assume(m['client_id'] == kw['client_id'])
    if 'iss' in m and 'iss' in kw:
        assume(m['iss'] == kw['iss'])
    if 'aud' in m and 'client_id' in kw:
        assume(kw['client_id'] in m['aud'])
    accepts(m, kw, 'a response that names the right client and issuer is refused')


def names_nothing(C):
    m, kw = _start(C)
    _plain(m, kw)
    assume('client_id' not in m and 'iss' not in m and 'aud' not in m)
    accepts(m, kw, 'a response that names neither client nor issuer is refused')


def nothing_to_compare(C):
    m, kw = _start(C)
    _plain(m, kw)
    assume('client_id' not in kw and 'iss' not in kw)
    accepts(m, kw, 'a response is refused although no client or issuer is given')
