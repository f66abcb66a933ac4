from oidcmsg.oidc import RegistrationRequest, RegistrationResponse
from urllib.parse import urlparse

PARAMS = ('request_object_encryption', 'id_token_encrypted_response', 'userinfo_encrypted_response')


def _https(u):
    assume(isinstance(u, str))
    assume(u.startswith('https://'))
    assume(u.startswith('https:'))
    assume(u.startswith('https'))
    assume(urlparse(u).scheme == 'https')


def _not_https(u):
    assume(isinstance(u, str))
    assume(not u.startswith('https'))
    assume(not u.startswith('https:'))
    assume(not u.startswith('https://'))
    assume(urlparse(u).scheme != 'https')


def login_uri():
    m = message(RegistrationRequest)
    kw = kwargs()
    assume('initiate_login_uri' in m)
    _not_https(m['initiate_login_uri'])
    refuses(m, kw, 'a login initiation URI that is not https is accepted')


def method_without_algorithm(p):
    m = message(RegistrationRequest)
    kw = kwargs()
    assume(p + '_enc' in m)
    assume(p + '_alg' not in m)
    refuses(m, kw, 'an encryption method without algorithm is accepted: ' + p)


def default_method(p):
    m = message(RegistrationRequest)
    kw = kwargs()
    assume(p + '_alg' in m)
    assume(p + '_enc' not in m)
    if accepted(m, kw):
        require(p + '_enc' in m and m[p + '_enc'] == 'A128CBC-HS256', 'no default encryption method for ' + p)
        require(p + '_alg' in m, 'the encryption algorithm got lost')
    reached()


def method_is_kept(p):
    m = message(RegistrationRequest)
    before = message(RegistrationRequest)
    kw = kwargs()
    assume(p + '_alg' in m and p + '_enc' in m)
    if accepted(m, kw):
        require(p + '_enc' in m and m[p + '_enc'] == before[p + '_enc'], 'the encryption method given is replaced')
    reached()


def no_method_from_nowhere(p):
    m = message(RegistrationRequest)
    kw = kwargs()
    assume(p + '_alg' not in m and p + '_enc' not in m)
    if accepted(m, kw):
        require(p + '_enc' not in m and p + '_alg' not in m, 'encryption parameters appear from nowhere')
    reached()


def endpoint_alg_none():
    m = message(RegistrationRequest)
    kw = kwargs()
    assume('token_endpoint_auth_signing_alg' in m)
    assume(m['token_endpoint_auth_signing_alg'] == 'none')
    refuses(m, kw, 'an unsigned client authentication is accepted')


def accepts_in_order():
    m = message(RegistrationRequest)
    kw = kwargs()
    flag('always_verified')
    if 'initiate_login_uri' in m:
        _https(m['initiate_login_uri'])
    for p in PARAMS:
        if p + '_enc' in m:
            assume(p + '_alg' in m)
    if 'token_endpoint_auth_signing_alg' in m:
        assume(m['token_endpoint_auth_signing_alg'] != 'none')
    accepts(m, kw, 'a registration request that obeys the rules is refused')


def uri_without_token():
    m = message(RegistrationResponse)
    kw = kwargs()
    assume('registration_client_uri' in m and 'registration_access_token' not in m)
    refuses(m, kw, 'a registration URI without access token is accepted')


def token_without_uri():
    m = message(RegistrationResponse)
    kw = kwargs()
    assume('registration_client_uri' not in m and 'registration_access_token' in m)
    refuses(m, kw, 'a registration access token without URI is accepted')


def accepts_both():
    m = message(RegistrationResponse)
    kw = kwargs()
    flag('always_verified')
    assume('error_description' not in m)
    assume('registration_client_uri' in m and 'registration_access_token' in m)
    accepts(m, kw, 'a registration response with URI and access token is refused')


def accepts_neither():
    m = message(RegistrationResponse)
    kw = kwargs()
    flag('always_verified')
    assume('error_description' not in m)
    assume('registration_client_uri' not in m and 'registration_access_token' not in m)
    accepts(m, kw, 'a registration response with neither URI nor access token is refused')
