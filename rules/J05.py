from oidcmsg.oidc import AuthorizationResponse


def _start(C):
    m = message(C)
    kw = kwargs()
    assume('id_token' in m)
    t = m['id_token']
    assume(isinstance(t, str))
    assume(is_jws(t))
    assume(header(t)['alg'] != 'none')
    return m, kw, t


def refused_without_hash(C, value, hash):
    m, kw, t = _start(C)
    assume(value in m)
    assume(hash not in payload(t))
    refuses(m, kw, 'accepted although the ID token lacks the ' + hash)


def refused_wrong_hash(C, value, hash):
    m, kw, t = _start(C)
    assume(value in m and hash in payload(t))
    assume(payload(t)[hash] != left_hash(m[value], 'HS' + header(t)['alg'][-3:]))
    refuses(m, kw, 'accepted although the ' + hash + ' of the ID token is not that of the ' + value)


def good_hash_is_accepted(C, value, hash):
    """with a token in order and right hashes only reasons unrelated to hashes are left"""
    m, kw, t = _start(C)
    other, other_hash = ('code', 'c_hash') if value == 'access_token' else ('access_token', 'at_hash')
    assume(other not in m)
    assume(value in m and hash in payload(t))
    assume(payload(t)[hash] == left_hash(m[value], 'HS' + header(t)['alg'][-3:]))
    assume('keyjar' in kw and kw['keyjar'] and 'iss' in payload(t) and payload(t)['iss'] in kw['keyjar'])
    assume('allowed_sign_alg' not in kw and 'sigalg' not in kw and 'aud' not in m)
    for n in ('client_id', 'iss', 'error', 'error_description', 'error_uri'):
        assume(n not in m)
    sig_good(t, kw['keyjar'])
    always_verified()
    accepts(m, kw, 'an authentication response with a matching ' + hash + ' is refused')
