from oidcmsg.oidc import ProviderConfigurationResponse
from urllib.parse import urlparse

ALPHABET = [chr(i) for i in range(0x21, 0x7f) if i not in (0x22, 0x5c)]


def _start():
    return message(ProviderConfigurationResponse), kwargs()


def issuer_not_https():
    m, kw = _start()
    if 'allow_http' in kw:
        assume(not kw['allow_http'])
    assume('issuer' in m)
    u = m['issuer']
    assume(urlparse(u).scheme != 'https')
    assume(not u.startswith('https'))
    assume(not u.startswith('https:'))
    assume(not u.startswith('https://'))
    refuses(m, kw, 'an issuer that is not https is accepted')


def issuer_with_query():
    m, kw = _start()
    assume('issuer' in m)
    assume(urlparse(m['issuer']).query)
    assume('?' in m['issuer'])
    refuses(m, kw, 'an issuer with a query is accepted')


def issuer_with_fragment():
    m, kw = _start()
    assume('issuer' in m)
    assume(urlparse(m['issuer']).fragment)
    assume('#' in m['issuer'])
    refuses(m, kw, 'an issuer with a fragment is accepted')


def without_openid():
    m, kw = _start()
    assume('scopes_supported' in m)
    assume('openid' not in m['scopes_supported'])
    refuses(m, kw, 'supported scopes without openid are accepted')


def scope_alphabet():
    m, kw = _start()
    assume('scopes_supported' in m)
    s = sym('scope')
    assume(isinstance(s, str))
    assume(s in m['scopes_supported'])
    c = sym('char')
    assume(c in s)
    assume(c not in ALPHABET)
    refuses(m, kw, 'a scope with a character outside the alphabet is accepted')


def without_rs256():
    m, kw = _start()
    assume('id_token_signing_alg_values_supported' in m)
    assume('RS256' not in m['id_token_signing_alg_values_supported'])
    refuses(m, kw, 'ID token signing without RS256 is accepted')


def code_without_token_endpoint():
    m, kw = _start()
    assume('token_endpoint' not in m and 'response_types_supported' in m)
    r = sym('response_type')
    assume(isinstance(r, str))
    assume(r in m['response_types_supported'])
    assume('code' in r)
    assume('code' in r.split(' '))
    assume('code' in r.split())
    refuses(m, kw, 'a code flow without token endpoint is accepted')


def _good():
    m, kw = _start()
    flag('always_verified')
    for n in ('error', 'error_description'):
        assume(n not in m)
    assume('issuer' in m and isinstance(m['issuer'], str))
    u = urlparse(m['issuer'])
    assume(not u.query and not u.fragment)
    assume('?' not in m['issuer'] and '#' not in m['issuer'])
    assume('response_types_supported' in m)
    assume('id_token_signing_alg_values_supported' in m)
    assume('RS256' in m['id_token_signing_alg_values_supported'])
    return m, kw


def _https(m):
    assume(urlparse(m['issuer']).scheme == 'https')
    assume(m['issuer'].startswith('https'))
    assume(m['issuer'].startswith('https:'))
    assume(m['issuer'].startswith('https://'))


def accepts_scopes():
    m, kw = _good()
    _https(m)
    assume('token_endpoint' in m)
    s = sym('scope')
    assume(isinstance(s, str))
    for c in s:
        assume(c in ALPHABET)
    m._dict['scopes_supported'] = ['openid', s]
    accepts(m, kw, 'provider metadata that satisfies the rules is refused')


def accepts_without_scopes():
    m, kw = _good()
    _https(m)
    assume('token_endpoint' in m and 'scopes_supported' not in m)
    accepts(m, kw, 'provider metadata that satisfies the rules is refused')


def accepts_implicit_only():
    m, kw = _good()
    _https(m)
    assume('token_endpoint' not in m and 'scopes_supported' not in m)
    for r in m['response_types_supported']:
        assume(isinstance(r, str))
        assume('code' not in r)
        assume('code' not in r.split())
        assume('code' not in r.split(' '))
    accepts(m, kw, 'metadata of a provider without code flow and token endpoint is refused')


def accepts_http_when_allowed():
    m, kw = _good()
    assume('allow_http' in kw and kw['allow_http'] is True)
    assume(urlparse(m['issuer']).scheme == 'http')
    assume(m['issuer'].startswith('http'))
    assume(m['issuer'].startswith('http:'))
    assume(m['issuer'].startswith('http://'))
    assume('token_endpoint' in m and 'scopes_supported' not in m)
    accepts(m, kw, 'an http issuer is refused although http is allowed')
