import json
import os
from sa.driver import VERIF

SAMPLE = {'str': ['some text', 'a+b&c=d%20#é'], 'int': [5, 0], 'bool': [True, False], 'list': [['a'], ['b', 'a', 'b'], ['z', 'b', 'c+d&e']], 'sp': [['a'], ['b', 'a', 'b'], ['z', 'b', 'c+d&e']],
          'json': [{'a': {'b': 'c'}}, {'a': ['b', 5, True]}], 'jwt': ['a.b.c'], 'timestamp': ['2020-02-29T12:34:56Z'],
          'msg': [{'a': 'b'}], 'msgs': [[{'a': 'b'}], [{'a': 'c'}, {'a': 'b'}, {'a': 'c'}]], 'evidence': [[{'type': 'id_document'}]]}


def run(ck):
    a = ck.analyzer()
    a.inline_concrete = True
    ck.explain = ('Every parameter of every message type is written with to_urlencoded, to_dict and to_json and read back, with all code of its encoder and decoder followed; '
                  'lists and texts also with unknown members.')
    with open(os.path.join(VERIF, 'data', 'profile.json')) as f:
        prof = json.load(f)
    fr = ck.load(ck.rules_path('M08.py'), ck.lib())
    n = 0
    for c in ck.message_classes():
        nm = ck.cname(c)
        if nm not in prof:
            continue
        for p in ck.table(c, 'c_param'):
            if p not in prof[nm]['params']:
                continue
            n += 1
            k, _, m = prof[nm]['params'][p].partition(' ')
            args = [c, ck.k(p)]
            # these only travel as JSON
            form = k not in ('msg', 'msgs', 'evidence', 'timestamp') or nm not in ('oidc.IdToken', 'oidc.OpenIDSchema', 'oidc.JRD') and not nm.startswith('oidc.identity_assurance.')
            ck.rule('through_all(%s, %s)' % (nm, p), fr['through_all'], args + [ck.k(json.dumps(SAMPLE[k])), ck.k(k not in ('int', 'bool', 'timestamp')), ck.k(form)])
            if m:
                ck.rule('through_all_message(%s, %s)' % (nm, p), fr['through_all_message'], args + [ck.cls('oidcmsg.' + m), ck.k(k == 'msgs'), ck.k(form)])
            if k == 'msg' and p in ('claims', 'userinfo', 'id_token', 'address', 'document') and 'VerifiedClaims' not in nm:
                ck.rule('text_value(%s, %s)' % (nm, p), fr['text_value'], args + [ck.k(json.dumps({'a': 'b', 'c': {'d': None}}))])
            if k in ('list', 'sp'):
                for i in (1, 2, 3):
                    ck.rule('list_in_form(%s, %s, %d)' % (nm, p, i), fr['list_in_form'], args + [ck.k(i)])
                    ck.rule('list_in_dict(%s, %s, %d)' % (nm, p, i), fr['list_in_dict'], args + [ck.k(i)])
            if k in ('str', 'jwt'):
                ck.rule('text_in_form(%s, %s)' % (nm, p), fr['text_in_form'], args)
                if nm.startswith('oauth2.'):
                    ck.rule('form_as_list(%s, %s)' % (nm, p), fr['form_as_list'], args)
    ck.need(n, 500, 'parameters')
