import json
import os
from sa.driver import VERIF

SAMPLE = {'str': 'some text', 'int': 5, 'bool': True, 'list': ['a', 'b'], 'sp': ['a', 'b'], 'json': {'a': {'b': 'c'}}, 'jwt': 'a.b.c', 'timestamp': '2020-02-29T12:34:56Z',
          'msg': {'a': 'b'}, 'msgs': [{'a': 'b'}], 'evidence': [{'type': 'id_document'}]}
FORM = {'str': ('a', 'b'), 'int': ('5', '6'), 'bool': ('True', 'False'), 'json': ('%7B%7D', '%7B%22a%22%3A1%7D'), 'jwt': ('a.b.c', 'b.c.d'), 'timestamp': ('2020-02-29T12%3A34%3A56Z', '2020-02-29T12%3A34%3A57Z'),
        'msg': ('%7B%22a%22%3A1%7D', '%7B%22b%22%3A1%7D')}
BAD = ['x', 'abc', '&', '&&', 'a&b', '{"a": "b"}', 'eyJhbGciOiJub25lIn0.e30.', 'state', ' ', 'code&state&']


def run(ck):
    a = ck.analyzer()
    a.inline_concrete = True
    ck.explain = ('to_urlencoded is followed for every message type on unknown content without a required parameter (and on content where only that one is missing): no exit that returns a text; '
                  'from_urlencoded on forms that repeat every declared single-valued parameter, and on texts without key-value pair: no exit that returns.')
    with open(os.path.join(VERIF, 'data', 'profile.json')) as f:
        prof = json.load(f)
    fr = ck.load(ck.rules_path('M10.py'), ck.lib())
    n = r = 0
    for c in ck.message_classes():
        nm = ck.cname(c)
        sch = ck.schema(c)
        kinds = {p: k.partition(' ')[0] for p, k in prof.get(nm, {'params': {}})['params'].items()}
        need = [p for p, e in sch.items() if e.required]
        filler = ck.k(json.dumps({p: SAMPLE[kinds.get(p, 'str')] for p in need}))
        ck.rule('default_is_strict(%s)' % nm, fr['default_is_strict'], [c])
        ck.rule('lax(%s)' % nm, fr['lax'], [c])
        ck.rule('complete(%s)' % nm, fr['complete'], [c, filler])
        ck.rule('malformed(%s)' % nm, fr['malformed'], [c, ck.k(json.dumps(BAD))])
        if '*' not in sch:
            for p in ['zz0', 'x.y'] + [x + '#en' for x, e in sch.items() if not e.null][:2]:
                ck.rule('null_left_out(%s, %s)' % (nm, p), fr['null_left_out'], [c, ck.k(p), filler, ck.k(False)])
        for p in need:
            r += 1
            ck.rule('drops_required(%s, %s)' % (nm, p), fr['drops_required'], [c, ck.k(p)])
            ck.rule('drops_required_only(%s, %s)' % (nm, p), fr['drops_required_only'], [c, ck.k(p), filler])
        for p, e in sch.items():
            if p not in kinds:
                continue
            n += 1
            ck.rule('null_left_out(%s, %s)' % (nm, p), fr['null_left_out'], [c, ck.k(p), filler, ck.k(bool(e.null))])
            if kinds[p] in FORM:
                ck.rule('repeated(%s, %s)' % (nm, p), fr['repeated'], [c, ck.k(p)] + [ck.k(x) for x in FORM[kinds[p]]])
            if kinds[p] in ('str', 'jwt'):
                ck.rule('once(%s, %s)' % (nm, p), fr['once'], [c, ck.k(p), ck.k(FORM[kinds[p]][0])])
    ck.need(n, 500, 'parameters')
    ck.need(r, 80, 'required parameters')
