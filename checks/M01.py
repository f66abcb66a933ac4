def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    ck.explain = ('For every message class of the package and every parameter its evaluated schema marks as required, verify() of that class is '
                  'interpreted abstractly on a message with unknown content and unknown options that lacks the parameter, and on one where it is empty: '
                  'no accepting exit may be reachable. For every class the generic verification must have no refusing exit once the required parameters are '
                  'present, non-empty and the restricted ones permitted.')
    ck.assumptions = ['signature verification of embedded tokens behaves as modelled (sa/crypto.py)']
    fr = ck.load(ck.rules_path('M01.py'), ck.lib())
    cs = ck.message_classes()
    ck.need(len(cs), 60, 'message types')
    n = 0
    for c in cs:
        sch = ck.schema(c)
        vocab = ck.table(c, 'c_allowed_values')
        nm = ck.cname(c)
        wraps = ck.wraps(c)
        req = [p for p, e in sch.items() if p != '*' and e.required]
        for p in req:
            n += 1
            ck.rule('absent(%s, %s)' % (nm, p), fr['absent'], [c, ck.k(p), ck.k(wraps)])
            if wraps:
                ck.rule('wrapped(%s, %s)' % (nm, p), fr['wrapped'], [c, ck.k(p)])
            if not sch[p].isbool:
                ck.rule('empty(%s, %s)' % (nm, p), fr['empty'], [c, ck.k(p), ck.k(wraps)])
        ck.rule('generic_accepts(%s)' % nm, fr['generic_accepts'], [c, ck.k(req), ck.k([(p, sch[p].islist) for p in vocab if p in sch])])
    ck.need(n, 60, 'required parameters')
