import json
import os
from sa.driver import VERIF
from checks.M10 import SAMPLE


def run(ck):
    a = ck.analyzer()
    a.inline_concrete = True
    ck.explain = ('Message.request is followed for every message type with an unknown location and concrete content; the result must be the same text term as location, separator and '
                  'to_urlencoded() of the same message, with the separator given by whether the location has a query part and where the message is to go.')
    with open(os.path.join(VERIF, 'data', 'profile.json')) as f:
        prof = json.load(f)
    fr = ck.load(ck.rules_path('M11.py'), ck.lib())
    n = 0
    for c in ck.message_classes():
        nm = ck.cname(c)
        sch = ck.schema(c)
        kinds = {p: k.partition(' ')[0] for p, k in prof.get(nm, {'params': {}})['params'].items()}
        base = {p: SAMPLE[kinds.get(p, 'str')] for p, e in sch.items() if e.required}
        for name, content in (('required', base), ('more', dict(base, zzz='a b&c=d?#é', list=['a', 'b'])), ('one', dict(base, state='x'))):
            if not content:
                continue
            n += 1
            for r in ('in_fragment', 'in_new_query', 'in_old_query', 'in_known_query', 'keeps_message'):
                ck.rule('%s(%s, %s)' % (r, nm, name), fr[r], [c, ck.k(json.dumps(content))])
        for p in base:
            ck.rule('incomplete(%s, %s)' % (nm, p), fr['incomplete'], [c, ck.k(p), ck.k(json.dumps(dict(base, state='x')))])
    ck.need(n, 60, 'message types and contents')
