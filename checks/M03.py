from sa.core import State


def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    ck.explain = ('For every class that overrides verify() the override is interpreted abstractly on a message with unknown content and options; what the '
                  'inherited verification (next in the MRO) and the verification of every other message object answer on each path is recorded. No '
                  'accepting exit may be reachable without the inherited verification having run and accepted, or after one of the others refused; no exit may '
                  'have the verdict None.')
    fr = ck.load(ck.rules_path('M03.py'), ck.lib())
    fns = {}
    for c in ck.message_classes():
        fns.setdefault(ck.method(c, 'verify')[1], c)
    n = 0
    seen = set()
    for c in ck.message_classes():
        chain = []
        for b in a.classes[c[1]].mro:
            v, owner = a.find_attr_owner(State(), b[1], 'verify') if b[0] == 'cls' else (None, None)
            if v is not None and v[0] == 'fn' and owner == b:
                chain.append(v[1])
        if len(chain) < 2 or tuple(chain[:2]) in seen:
            continue
        seen.add(tuple(chain[:2]))
        n += 1
        a.watch_verdicts(chain[1], list(fns))
        ck.rule('keeps_checks(%s)' % ck.cname(c), fr['keeps_checks'], [c, ck.k(ck.wraps(c))])
    ck.need(n, 10, 'specialised verifications')
