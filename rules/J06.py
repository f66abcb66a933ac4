from oidcmsg.oidc import IdToken


def _issue(C):
    m = message(C)
    at, code = None, None
    if 'access_token' in m:
        at = m['access_token']
        assume(isinstance(at, str))
    if 'code' in m:
        code = m['code']
        assume(isinstance(code, str))
    return m, at, code


def _check(m, alg, lifetime, at, code, jwt, key, exp):
    require(is_signed(jwt), 'what is issued is not a signed token')
    c = signed_content(jwt)
    hfunc = 'HS' + alg[-3:]
    require('access_token' not in c, 'the access token itself is in the ID token')
    require('code' not in c, 'the code itself is in the ID token')
    if at is not None:
        require('at_hash' in c, 'there is no access token hash in the ID token')
        require(same(c['at_hash'], left_hash(at, hfunc)), 'the access token hash is not the left hash of the access token')
    if code is not None:
        require('c_hash' in c, 'there is no code hash in the ID token')
        require(same(c['c_hash'], left_hash(code, hfunc)), 'the code hash is not the left hash of the code')
    require('iat' in c, 'there is no issue time in the ID token')
    require(c['iat'] == now(), 'the issue time is not the current time')
    if lifetime is not None:
        require('exp' in c, 'there is no expiry in the ID token')
        require(c['exp'] == now() + lifetime, 'the expiry is not issue time plus lifetime')
    else:
        require(('exp' in c) == exp[0], 'expiry appears or disappears without a lifetime')
        if exp[0]:
            require(same(c['exp'], exp[1]), 'the expiry is changed without a lifetime')
    require(same(signed_alg(jwt), alg), 'the token is signed with another algorithm')
    require(same(signed_key(jwt), key), 'the token is signed with another key')


def _exp(m):
    if 'exp' in m:
        return True, m['exp']
    return False, None


def with_lifetime(C):
    m, at, code = _issue(C)
    alg, key, lifetime = sym('alg'), sym('key'), sym('lifetime')
    assume(isinstance(alg, str) and isinstance(lifetime, int))
    assume(lifetime > 0)
    exp = _exp(m)
    jwt = m.to_jwt(key=key, algorithm=alg, lifetime=lifetime)
    _check(m, alg, lifetime, at, code, jwt, key, exp)


def without_lifetime(C):
    m, at, code = _issue(C)
    alg, key = sym('alg'), sym('key')
    assume(isinstance(alg, str))
    exp = _exp(m)
    jwt = m.to_jwt(key=key, algorithm=alg)
    _check(m, alg, None, at, code, jwt, key, exp)
    # what else the token said stays
    c = signed_content(jwt)
    for n in ('iss', 'sub', 'nonce', 'aud', 'auth_time', 'acr', 'azp'):
        if n in m:
            require(n in c and same(c[n], m[n]), n + ' is not taken over into the issued token')


def packing(C):
    """pack alone does the same to the message"""
    m, at, code = _issue(C)
    alg, lifetime = sym('alg'), sym('lifetime')
    assume(isinstance(alg, str) and isinstance(lifetime, int))
    assume(lifetime > 0)
    m.pack(alg=alg, lifetime=lifetime)
    hfunc = 'HS' + alg[-3:]
    require('access_token' not in m and 'code' not in m, 'packing leaves the access token or code in the ID token')
    if at is not None:
        require(same(m['at_hash'], left_hash(at, hfunc)), 'packing does not set the access token hash')
    if code is not None:
        require(same(m['c_hash'], left_hash(code, hfunc)), 'packing does not set the code hash')
    require(m['iat'] == now(), 'packing does not stamp the issue time')
    require(m['exp'] == now() + lifetime, 'packing does not set the expiry')


def packing_without_lifetime(C):
    m, at, code = _issue(C)
    alg = sym('alg')
    assume(isinstance(alg, str))
    exp = _exp(m)
    m.pack(alg=alg)
    require('access_token' not in m and 'code' not in m, 'packing leaves the access token or code in the ID token')
    require('iat' in m and m['iat'] == now(), 'packing does not stamp the issue time')
    require(('exp' in m) == exp[0], 'expiry appears or disappears without a lifetime')
    if exp[0]:
        require(same(m['exp'], exp[1]), 'the expiry is changed without a lifetime')
