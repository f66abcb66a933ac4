import glob

from sa.crypto import *


class Tokens(Crypto):
    def __init__(self, root):
        super().__init__(root)
        h = self.hooks
        for n in ('cryptojwt.jwt.JWT', 'cryptojwt.JWT'):
            h[n] = lambda s, st, n, a, k: s.call(st, self.frame['Token'], a, k)
        for n in ('cryptojwt.jws.jws.JWS', 'cryptojwt.JWS', 'cryptojwt.jws.JWS', 'library.jws.jws.JWS'):
            h[n] = lambda s, st, n, a, k: s.call(st, self.frame['Signature'], a, k)

    def load_source(self, st, name, src, path):
        super().load_source(st, name, src, path)
        if path == '<prelude>':
            p = sorted(glob.glob('/opt/venv/lib/python3*/site-packages/cryptojwt/jwt.py') + glob.glob('/usr/lib/python3*/site-packages/cryptojwt/jwt.py'))[0]
            with open(p) as f:
                super().load_source(st, 'library.jwt', f.read(), p)


def run(ck):
    a = ck.analyzer(Tokens)
    a.inline_concrete = True
    fr = a.frame = ck.load(ck.rules_path('C01.py'), ck.lib())
    ck.explain = ('make_openid_request is followed together with the token library\'s JWT class on a request with unknown content, unknown keys, issuer, algorithm and receiver, '
                  'for every combination of options; the text handed to the signing primitive, its key and its algorithm are compared with the request and the options.')
    T = lambda u: ('tup', tuple(ck.k(x) for x in u))
    table = ck.schema(ck.cls('oidcmsg.oidc.AuthorizationRequest'))
    one = sorted(n for n, e in table.items() if e.kind == 'str' and not e.islist)
    ck.need(len(one), 8, 'text parameters of an authentication request')
    for jti in (None, True, False):
        for life in (None, 0, 300):
            ck.rule('any request(%s; %s)' % (jti, life), fr['any_request'], [ck.k(jti), ck.k(life)])
        ck.rule('any request(%s; any lifetime)' % jti, fr['any_lifetime'], [ck.k(jti)])
    for names in ((), one[:4], one[4:8], one[8:], ('client_id', 'iss', 'exp', 'jti', 'iat', 'aud'), ('extra', 'state', 'another')):
        for jti, life in ((None, None), (True, 300)):
            ck.rule('request(%s; %s; %s)' % (','.join(names), jti, life), fr['known_request'], [T(names), ck.k(jti), ck.k(life)])
    ck.rule('unsigned', fr['unsigned'], [])
