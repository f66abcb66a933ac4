import json
import os
from sa.driver import VERIF
from checks.M10 import SAMPLE


def run(ck):
    a = ck.analyzer()
    a.inline_concrete = True
    ck.explain = ('The mapping operations are followed for every message type: on unknown content with an unknown name and value (what is set, read, deleted, updated; another unknown name stays as it was), '
                  'and on known content for each declared parameter with a value of its kind.')
    with open(os.path.join(VERIF, 'data', 'profile.json')) as f:
        prof = json.load(f)
    fr = ck.load(ck.rules_path('M13.py'), ck.lib())
    T = lambda u: ('tup', tuple(ck.k(x) for x in u))
    n = 0
    for c in ck.message_classes():
        nm = ck.cname(c)
        sch = ck.schema(c)
        kinds = {p: k.partition(' ')[0] for p, k in prof.get(nm, {'params': {}})['params'].items()}
        ps = [p for p in ck.table(c, 'c_param') if p != '*']
        some = [p for p in ps if p in kinds]
        for r in ('set_reads', 'set_frame', 'absent', 'deleted', 'update_any', 'update_refused', 'copy_any'):
            ck.rule('%s(%s)' % (r, nm), fr[r], [c])
        ck.rule('views(%s)' % nm, fr['views'], [c, T(ps)])
        ck.rule('updated(%s)' % nm, fr['updated'], [c, T(ps[:2] or ['zzz']), fr['Unlike']])
        for p in ps:
            ck.rule('types(%s, %s)' % (nm, p), fr['types'], [c, ck.k(p), ck.k(bool(sch[p].required))])
        for p in some:
            n += 1
            t = ck.k(json.dumps(SAMPLE[kinds[p]]))
            ck.rule('set_declared(%s, %s)' % (nm, p), fr['set_declared'], [c, ck.k(p), t])
            ck.rule('refused_set(%s, %s)' % (nm, p), fr['refused_set'], [c, ck.k(p), t])
            ck.rule('copied(%s, %s)' % (nm, p), fr['copied'], [c, ck.k(p), t])
    ck.need(n, 500, 'parameters')
