def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    ck.explain = ('For every message class and every parameter in its evaluated table of permitted values, verify() is interpreted abstractly on a message '
                  'with unknown content whose value (any member, at any position, for list-valued parameters) is not on the list: no accepting exit may be '
                  'reachable; with values on the list the generic verification must have no refusing exit.')
    fr = ck.load(ck.rules_path('M02.py'), ck.lib())
    n = 0
    for c in ck.message_classes():
        sch = ck.schema(c)
        nm = ck.cname(c)
        vocab = ck.table(c, 'c_allowed_values')
        for p, vals in vocab.items():
            if p not in sch:
                ck.bad('declared(%s, %s)' % (nm, p), 'permitted values for a parameter that is not declared: they are never applied', ck.class_where(c))
                continue
            n += 1
            others = [q for q, e in sch.items() if e.required and q not in ('*', p) and q not in vocab]
            if sch[p].islist:
                ck.rule('other_member(%s, %s)' % (nm, p), fr['other_member'], [c, ck.k(p)])
                ck.rule('permitted_list(%s, %s)' % (nm, p), fr['permitted_list'], [c, ck.k(others), ck.k(p)])
            else:
                ck.rule('other_value(%s, %s)' % (nm, p), fr['other_value'], [c, ck.k(p)])
                ck.rule('permitted_value(%s, %s)' % (nm, p), fr['permitted_value'], [c, ck.k(others), ck.k(p)])
    ck.need(n, 15, 'restricted parameters')
