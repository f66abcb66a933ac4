import json
import os
from sa.driver import VERIF
from sa.crypto import *
from checks.M10 import SAMPLE


class Primitives(Crypto):
    def __init__(self, root):
        super().__init__(root)
        h = self.hooks
        for n in ('cryptojwt.jws.jws.JWS', 'cryptojwt.JWS', 'cryptojwt.jws.JWS'):
            h[n] = lambda s, st, n, a, k: s.call(st, self.frame['Signature'], a, k)
        for n in ('cryptojwt.jwe.jwe.JWE', 'cryptojwt.JWE', 'cryptojwt.jwe.JWE'):
            h[n] = lambda s, st, n, a, k: s.call(st, self.frame['Encryption'], a, k)


def run(ck):
    a = ck.analyzer(Primitives)
    a.inline_concrete = True
    fr = a.frame = ck.load(ck.rules_path('M14.py'), ck.lib())
    ck.explain = ('serialize and deserialize are followed for every message type with each method name and compared with the codec of that name; to_jwt, to_jwe and from_jwe with unknown keys and algorithms, '
                  'the signing and encryption primitives replaced by classes that remember their arguments, which are compared with the content of the message.')
    with open(os.path.join(VERIF, 'data', 'profile.json')) as f:
        prof = json.load(f)
    idt = ck.cls('oidcmsg.oidc.IdToken')
    n = 0
    for c in ck.message_classes():
        nm = ck.cname(c)
        kinds = {p: k.partition(' ')[0] for p, k in prof.get(nm, {'params': {}})['params'].items()}
        ck.rule('unknown_name(%s)' % nm, fr['unknown_name'], [c])
        ps = [p for p in ck.table(c, 'c_param') if p in kinds]
        n += len(ps)
        for names in [ps, ps[:1], ps[len(ps) // 2:][:1], ps[-1:]] if len(ps) > 3 else [ps] + [[p] for p in ps]:
            t = ck.k(json.dumps({p: SAMPLE[kinds[p]] for p in names}))
            for r in ('by_name', 'keeps', 'sealed_content', 'opened_content') + (('signed_content',) if idt not in a.classes[c[1]].mro else ()):
                ck.rule('%s(%s, %s)' % (r, nm, 'all' if names is ps else ' '.join(names)), fr[r], [c, t])
    ck.need(n, 500, 'parameters')
