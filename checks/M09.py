import json
import os
from sa.driver import VERIF

SAMPLE = {'str': 'some text', 'int': 5, 'bool': True, 'list': ['a', 'b'], 'sp': ['a', 'b'], 'json': {'a': {'b': 'c'}}, 'jwt': 'a.b.c', 'timestamp': '2020-02-29T12:34:56Z',
          'msg': {'a': 'b'}, 'msgs': [{'a': 'b'}], 'evidence': [{'type': 'id_document'}]}

# name, in form encoding, declaration that applies
NAMES = [('name', 'NAME'), ('name#en', 'NAME'), ('name#en-x', 'NAME'), ('name#en#x', 'NAME'), ('name#', 'NAME'), ('exact#en', 'TAGGED'), ('exact', 'BASE'), ('exact#fr', 'BASE'),
         ('exact#en#x', 'BASE'), ('exact#', 'BASE'), ('exact#EN', 'BASE'), ('other', None), ('other#en', None), ('Name', None), ('nam', None), ('name ', None), ('en', None),
         ('#name', None), ('#', None), ('other#name', None), ('name.x', None), ('name-x#en', None)]


def run(ck):
    from urllib.parse import quote_plus
    a = ck.analyzer()
    a.inline_concrete = True
    ck.explain = ('A message type whose declarations are distinguishable by what their encoder and decoder return is loaded and written through every codec with exact, tagged and undeclared names; '
                  'every declared parameter of every real type is loaded and written with and without language tag and the results compared.')
    with open(os.path.join(VERIF, 'data', 'profile.json')) as f:
        prof = json.load(f)
    fr = ck.load(ck.rules_path('M09.py'), ck.lib())
    for t in ('Plain', 'Wild'):
        anym = 'ANY' if t == 'Wild' else None
        for n, mark in NAMES:
            for r in ('loads', 'writes'):
                ck.rule('%s(%s, %s)' % (r, t, n), fr[r], [fr[t], ck.k(n), ck.k(quote_plus(n)), ck.k(mark or anym)])
        for r in ('any_name_loads', 'any_name_writes'):
            ck.rule('%s(%s)' % (r, t), fr[r], [fr[t], ck.k(anym)])
    n = 0
    for c in ck.message_classes():
        nm = ck.cname(c)
        for p in ck.table(c, 'c_param'):
            if nm not in prof or p not in prof[nm]['params'] or p == '*':
                continue
            n += 1
            k = prof[nm]['params'][p].partition(' ')[0]
            form = k not in ('msg', 'msgs', 'evidence', 'timestamp') or nm not in ('oidc.IdToken', 'oidc.OpenIDSchema', 'oidc.JRD') and not nm.startswith('oidc.identity_assurance.')
            ck.rule('tagged_like_plain(%s, %s)' % (nm, p), fr['tagged_like_plain'], [c, ck.k(p), ck.k(json.dumps(SAMPLE[k])), ck.k(form)])
    ck.need(n, 500, 'parameters')
