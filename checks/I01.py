import itertools
KINDS = {'id_document': 'IdDocument', 'utility_bill': 'UtilityBill', 'qes': 'QES'}


def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    ck.explain = ('Abstract interpretation of Evidence.verify and of its subclasses on unknown content: evidence that names a type and lacks a parameter that '
                  'type requires, names an unknown type, or names none and fits none leaves no accepting exit; untyped evidence that fits one type is labelled '
                  'with it on accepting exits; complete evidence of each type is accepted.')
    fr = ck.load(ck.rules_path('I01.py'), ck.lib())
    base = ck.cls('oidcmsg.oidc.identity_assurance.Evidence')
    kinds = {t: ck.cls('oidcmsg.oidc.identity_assurance.' + n) for t, n in KINDS.items()}
    need = {t: [p for p, e in ck.schema(c).items() if e.required and p != 'type'] for t, c in kinds.items()}
    for t in kinds:
        ck.need(len(need[t]), 1, 'parameters required of ' + t)
        for p in need[t]:
            ck.rule('typed_lacking(%s, %s)' % (t, p), fr['typed_lacking'], [base, ck.k(t), ck.k(p)])
            ck.rule('typed_empty(%s, %s)' % (t, p), fr['typed_empty'], [base, ck.k(t), ck.k(p)])
            for combo in itertools.product(*[need[u] for u in kinds if u != t]):
                ck.rule('untyped_empty(%s, %s, %s)' % (t, p, ' '.join(combo)), fr['untyped_empty'], [base, ck.k(p), ck.k(combo)])
    ck.rule('unknown_type', fr['unknown_type'], [base, ck.k(tuple(kinds))])
    for t in ('passport', 'id', 'ID_DOCUMENT', 'id_documents', 'IdDocument', 'q'):
        ck.rule('odd_type(%s)' % t, fr['odd_type'], [base, ck.k(t)])
    for combo in itertools.product(*[need[t] for t in kinds]):
        ck.rule('untyped_none%s' % (combo,), fr['untyped_none'], [base, ck.k(combo)])
    for t in kinds:
        others = [u for u in kinds if u != t]
        for combo in itertools.product(*[need[u] for u in others]):
            own = set(ck.schema(kinds[t]))
            if not own & set(combo):
                for c in (base, kinds[t]):
                    ck.rule('untyped_fine(%s, %s, %s)' % (ck.cname(c), t, ' '.join(combo)), fr['untyped_fine'], [c, ck.k(t), kinds[t], ck.k(combo)])
            for c in (base, kinds[t]):
                ck.rule('untyped_label(%s, %s, %s)' % (ck.cname(c), t, ' '.join(combo)), fr['untyped_label'], [c, ck.k(t), ck.k(combo)])
        ck.rule('typed_fine(%s)' % t, fr['typed_fine'], [base, ck.k(t), kinds[t]])
    for t, c in kinds.items():
        for u in kinds:
            if u != t:
                for p in need[u]:
                    ck.rule('typed_lacking(%s as %s, %s)' % (KINDS[t], u, p), fr['typed_lacking'], [c, ck.k(u), ck.k(p)])
        ck.rule('unknown_type(%s)' % KINDS[t], fr['unknown_type'], [c, ck.k(tuple(kinds))])
        others = [u for u in kinds if u != t]
        for p in need[t]:
            for combo in itertools.product(*[need[u] for u in others]):
                ck.rule('untyped_none(%s, %s, %s)' % (KINDS[t], p, ' '.join(combo)), fr['untyped_none'], [c, ck.k((p,) + combo)])
