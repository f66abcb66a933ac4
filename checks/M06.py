import json
import os
from sa.driver import VERIF


def run(ck):
    ck.analyzer()
    ck.explain = ('The profile of every message type (data/profile.json, written from the specifications) is compared with what the type, as evaluated from '
                  'the source, marks as required and declares; the kind and encoding of a parameter are decided by following the constructor and the codecs on '
                  'values of that kind and of other kinds.')
    with open(os.path.join(VERIF, 'data', 'profile.json')) as f:
        prof = json.load(f)
    fr = ck.load(ck.rules_path('M06.py'), ck.lib())
    n = 0
    for c in ck.message_classes():
        nm = ck.cname(c)
        if nm not in prof:
            continue
        e = prof.pop(nm)
        ck.rule('required(%s)' % nm, fr['required'], [c, ck.k(e['required'])])
        ck.rule('declared(%s)' % nm, fr['declared'], [c, ck.k(list(e['params']))])
        for p, k in e['params'].items():
            if p not in ck.table(c, 'c_param'):
                continue
            n += 1
            k, _, m = k.partition(' ')
            ck.rule('kind(%s, %s)' % (nm, p), fr['kind_' + k], [c, ck.k(p)] + ([ck.cls('oidcmsg.' + m)] if m else []))
    for nm in prof:
        ck.bad('type(%s)' % nm, 'the message type %s is gone' % nm)
    ck.need(n, 500, 'parameters')
