import json
import os
from sa.driver import VERIF

SAMPLE = {'str': 'some text', 'int': 5, 'bool': True, 'list': ['some text'], 'sp': ['some text'], 'json': {'a': 'b'}, 'jwt': 'a.b.c', 'timestamp': '2020-02-29T12:34:56Z',
          'msg': {'a': 'b'}, 'msgs': [{'a': 'b'}], 'evidence': [{'type': 'id_document'}]}


def run(ck):
    ck.analyzer()

    def js(x):
        return ck.k(json.dumps(x))

    ck.explain = ('data/vocab.json (written from the specifications) is compared with the evaluated vocabulary of every message type; Message.verify is followed on messages of '
                  'the type with every permitted value and with values that are not (all values of other vocabularies among them); the content of a message made without '
                  'arguments is compared with the specified defaults.')
    with open(os.path.join(VERIF, 'data', 'vocab.json')) as f:
        voc = json.load(f)
    with open(os.path.join(VERIF, 'data', 'profile.json')) as f:
        prof = json.load(f)
    fr = ck.load(ck.rules_path('M07.py'), ck.lib())
    every = sorted({v for e in voc.values() for vs in e['allowed'].values() for v in vs})
    n = 0
    for c in ck.message_classes():
        nm = ck.cname(c)
        if nm not in prof:
            continue
        kinds = prof[nm]['params']
        filler = {p: SAMPLE[kinds[p].split(' ')[0]] for p in prof[nm]['required']}
        e = voc.pop(nm, {'allowed': {}, 'default': {}})
        filler.update({p: vs[0] for p, vs in e['allowed'].items() if p in filler})
        ck.rule('starts_with(%s)' % nm, fr['starts_with'], [c, js(e['default'])])
        for p in e['default']:
            k = kinds.get(p, 'str').split(' ')[0]
            other = {'str': (e['allowed'].get(p) or ['other'])[0], 'bool': not e['default'][p], 'list': ['other'], 'sp': ['other']}[k]
            ck.rule('keeps(%s, %s)' % (nm, p), fr['keeps'], [c, ck.k(p), js(other)])
        for p in ck.table(c, 'c_allowed_values'):
            if p not in e['allowed']:
                ck.bad('unrestricted(%s, %s)' % (nm, p), '%s restricts %s, for which the specification has no list of values' % (nm, p))
        for p, vs in e['allowed'].items():
            n += 1
            ot = sorted(set(every + ['x', '', ' ', vs[0].upper(), vs[0][:-1], vs[0] + ' ', vs[0] + ' ' + vs[-1]] + EXTRA.get(p, [])) - set(vs))
            if kinds[p] == 'sp':
                ot = [v for v in ot if ' ' not in v and v]
            elif '' in ot:
                ot.remove('')
            ck.rule('restricts(%s, %s)' % (nm, p), fr['restricts'], [c, js(filler), ck.k(p), ck.k(vs), ck.k(ot), ck.k(kinds[p] in ('sp', 'list'))])
            got = ck.table(c, 'c_allowed_values').get(p)
            more = [x for x in (got or []) if x not in vs]
            if more:
                ck.bad('vocabulary(%s, %s)' % (nm, p), 'values beyond the specification: %s' % ', '.join(map(str, more)))
            else:
                ck.ok('vocabulary(%s, %s)' % (nm, p))
        for p, k in kinds.items():
            if k == 'str' and p not in e['allowed']:
                ck.rule('unrestricted(%s, %s)' % (nm, p), fr['unrestricted'], [c, js(filler), ck.k(p)])
    for nm in voc:
        ck.bad('type(%s)' % nm, 'the message type %s is gone' % nm)
    ck.need(n, 15, 'vocabularies')


EXTRA = {'grant_type': ['password', 'implicit', 'authorization_code', 'urn:ietf:params:oauth:grant-type:jwt-bearer'],
         'client_assertion_type': ['urn:ietf:params:oauth:client-assertion-type:saml2-bearer']}
