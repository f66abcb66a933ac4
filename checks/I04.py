import json

KINDS = ('essential', 'value', 'values', 'short', 'long', 'char')
BUILTIN = {'str': ('bi', 'str'), 'int': ('bi', 'int'), 'bool': ('bi', 'bool')}
OTHER = {'str': [5, True, 1.5, ['x'], [], 0], 'int': ['x', '5', [5], 1.5, ''], 'bool': ['x', 'true', 5, 0, [True], 1.5]}


def run(ck):
    a = ck.analyzer()
    a.inline_concrete = True
    ck.explain = ('The claims constructor is followed for every text, number and boolean claim of the user info and identity assurance message types on unknown specifications (well-formed, or with one '
                  'wrong constraint), on values of other kinds, and for every claim that is a message of its own with nested constructors of that and of another type; what it writes is compared with what was put in.')
    with open(ck.rules_path('claimspec.py')) as f:
        fr = ck.load(ck.rules_path('I04.py'), ck.lib() + f.read())
    msg = ck.cls('oidcmsg.message.Message')
    n = m = 0
    for c in ck.message_classes():
        if c[1].rpartition('.')[0] != 'oidcmsg.oidc.identity_assurance' and c != ck.cls('oidcmsg.oidc.OpenIDSchema') and c != ck.cls('oidcmsg.oidc.AddressClaim'):
            continue
        nm = ck.cname(c)
        for form in ('type', 'instance', c[1]):
            F = ck.k(form)
            ck.rule('undeclared(%s, %s)' % (nm, form), fr['undeclared'], [c, F])
            ck.rule('separate(%s, %s)' % (nm, form), fr['separate'], [c, F])
            for p, e in ck.schema(c).items():
                if p == '*':
                    continue
                ck.rule('null_taken(%s, %s, %s)' % (nm, p, form), fr['null_taken'], [c, ck.k(p), F])
                t = e.typ
                if not e.islist and e.elem in BUILTIN:
                    n += 1
                    b = BUILTIN[e.elem]
                    for k in KINDS:
                        ck.rule('wrong_refused(%s, %s, %s, %s)' % (nm, p, k, form), fr['wrong_refused'], [c, ck.k(p), b, ck.k(k), F])
                    ck.rule('right_taken(%s, %s, %s)' % (nm, p, form), fr['right_taken'], [c, ck.k(p), b, F])
                    ck.rule('other_kind_refused(%s, %s, %s)' % (nm, p, form), fr['other_kind_refused'], [c, ck.k(p), b, ck.k(json.dumps(OTHER[e.elem])), F])
                    ck.rule('nested_wrong(%s, %s, %s)' % (nm, p, form), fr['nested_wrong'], [c, ck.k(p), F, fr['Stranger']])
                elif isinstance(t, tuple) and t[0] == 'cls' and msg in a.classes[t[1]].mro:
                    if t != msg:
                        m += 1
                        for o in [fr['Stranger']] + [('cls', x) for x in a.classes[t[1]].mro if x != t[1] and x in a.classes and msg in a.classes[x].mro]:
                            ck.rule('nested_wrong(%s, %s, %s, %s)' % (nm, p, form, ck.cname(o)), fr['nested_wrong'], [c, ck.k(p), F, o])
                    ck.rule('nested_right(%s, %s, %s)' % (nm, p, form), fr['nested_right'], [c, ck.k(p), t, F])
    ck.need(n, 40, 'declared text, number and boolean claims')
    ck.need(m, 5, 'claims that are messages of their own')
