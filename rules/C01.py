"""The token library's own JWT class is followed; only its signing primitive and its choice of key are replaced,
by classes that remember what they were given."""
import json
from library.jwt import JWT
from oidcmsg.oidc import AuthorizationRequest
from oidcmsg.oidc import make_openid_request

RESERVED = ('iss', 'iat', 'exp', 'aud', 'jti')


class Signed:
    def __init__(self, text, alg, keys, header):
        self.text = text
        self.alg = alg
        self.keys = keys
        self.header = header


class Signature:
    def __init__(self, msg=None, alg='RS256', **kwargs):
        self.msg = msg
        self.alg = alg
        self.header = kwargs

    def sign_compact(self, keys=None, **kwargs):
        return Signed(self.msg, self.alg, keys, self.header)


class Key:
    def __init__(self, jar, owner, kid, alg):
        self.jar = jar
        self.owner = owner
        self.kid = kid
        self.alg = alg


class Token(JWT):
    def pack_key(self, issuer_id='', kid=''):
        return Key(self.key_jar, issuer_id, kid, self.alg)


def words(name):
    v = sym(name)
    assume(isinstance(v, str))
    assume(v)
    return v


def options(jti, lifetime):
    d = {}
    if jti is not None:
        d['with_jti'] = jti
    if lifetime is not None:
        d['lifetime'] = lifetime
    return d


def signed(r, jar, issuer, alg):
    if not isinstance(r, Signed):
        fail('the request object is not a signed token')
    if r.alg != alg:
        fail('not signed with the requested algorithm')
    if alg != 'none':
        k = r.keys[0]
        if len(r.keys) != 1 or k.owner != issuer or k.jar != jar or k.alg != alg:
            fail('not signed with a key of the issuer')
    return json.loads(r.text)


def whole(arq, jti, lifetime):
    jar, issuer, recv, alg = sym('jar'), words('issuer'), words('recv'), words('alg')
    assume(alg != 'none')
    given = arq.to_dict()
    r = make_openid_request(arq, jar, issuer, alg, recv, **options(jti, lifetime))
    got = signed(r, jar, issuer, alg)
    k = sym('parameter')
    if k not in RESERVED:
        if (k in given) != (k in got):
            fail('a parameter of the request is missing from the request object, or one is added')
        if k in given and got[k] != given[k]:
            fail('a parameter of the request has another value in the request object')
    if got.get('iss') != issuer:
        fail('the request object is not issued by the issuer')
    if got.get('aud') != [recv]:
        fail('the request object is not for the receiver')
    if 'iat' not in got:
        fail('the request object has no time of issue')
    if lifetime:
        if 'exp' not in got or got['exp'] != got['iat'] + lifetime:
            fail('the request object does not live as long as asked')
    elif ('exp' in got) != ('exp' in given):
        fail('the request object has a lifetime that was not asked for')
    if jti:
        if 'jti' not in got:
            fail('the request object has no token id')
    elif ('jti' in got) != ('jti' in given):
        fail('the request object has a token id that was not asked for')
    if arq.to_dict() != given:
        fail('the request is changed')
    reached()


class AnyRequest(AuthorizationRequest):
    """a request with unknown content"""
    def to_dict(self, lev=0):
        return dict(symdict('content'))

    def to_json(self, lev=0, indent=None):
        return json.dumps(self.to_dict())


def any_request(jti, lifetime):
    whole(AnyRequest(), jti, lifetime)


def any_lifetime(jti):
    n = sym('lifetime')
    assume(isinstance(n, int))
    whole(AnyRequest(), jti, n)


def known_request(names, jti, lifetime):
    """a request with these parameters, their values unknown texts"""
    whole(AuthorizationRequest(**{n: words(n) for n in names}), jti, lifetime)


def unsigned():
    jar, issuer, recv = sym('jar'), words('issuer'), words('recv')
    arq = AuthorizationRequest(client_id='me', redirect_uri='https://example.com/cb')
    got = signed(make_openid_request(arq, jar, issuer, 'none', recv), jar, issuer, 'none')
    if got['client_id'] != 'me' or got['redirect_uri'] != 'https://example.com/cb':
        fail('a parameter of the request is missing from the request object')
    reached()
