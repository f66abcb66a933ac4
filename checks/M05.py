from sa.tables import Tables


SOME = {'quick': 5, 'thorough': 30}


def run(ck):
    a = ck.analyzer(Tables)
    ck.explain = ('The package is loaded statement by statement: a statement that changes a table (parameters, defaults, permitted values, at any depth) which '
                  'belongs to another message type is a violation. Then every operation of every message type is interpreted abstractly on unknown content, '
                  'after which all tables of all types must be what they were, and list-valued defaults are changed in one instance and looked up in others.')
    cs = ck.message_classes()
    ck.need(len(cs), 60, 'message types')
    ck.counts['module-level statements'] = a.statements
    ck.counts['tables'] = len(a.snap)
    bad = {q for q, _, _ in a.faults}
    for q, msg, where in a.faults:
        ck.bad('types', msg, where)
    for c in cs:
        if c[1] not in bad:
            ck.ok('type(%s)' % ck.cname(c))
    fr = ck.load(ck.rules_path('M05.py'), ck.lib())
    size = {c: len(ck.table(c, 'c_param')) for c in cs}

    def chosen(*methods):
        """the types that matter for code shared by all: every one that has its own, and some for each shared one"""
        groups = {}
        for c in cs:
            groups.setdefault(tuple(ck.method(c, m) for m in methods) + ('*' in ck.table(c, 'c_param'),), []).append(c)
        r = []
        for g in groups.values():
            g.sort(key=lambda c: (not size[c], size[c], c[1]))
            r += g[:SOME[ck.tier]]
        return r

    for c in chosen('from_dict', '__init__', '__setitem__', '_add_value'):
        ck.rule('filled(%s)' % ck.cname(c), fr['filled'], [c])
        ck.rule('read(%s, from_dict)' % ck.cname(c), fr['read'], [c, ck.k('from_dict')])
    for m in ('from_json', 'from_urlencoded'):
        for c in chosen(m, 'from_dict'):
            ck.rule('read(%s, %s)' % (ck.cname(c), m), fr['read'], [c, ck.k(m)])
    for h, ms in (('to_urlencoded', ('to_urlencoded',)), ('extra', ('extra', 'only_extras', 'weed')), ('blanks', ('rm_blanks', 'set_defaults')),
                  ('lists', ('parameters', 'required_parameters', 'value_type')), ('copy', ('copy', 'update'))):
        for c in chosen(*ms):
            ck.rule('written(%s, %s)' % (ck.cname(c), h), fr['written'], [c, ck.k(h)])
    hooks = dict(a.fn_hooks)
    a.summarise_codecs()
    for c in cs:
        ck.rule('verified(%s)' % ck.cname(c), fr['verified'], [c])
    a.fn_hooks.clear()
    a.fn_hooks.update(hooks)
    for c in cs:
        nm = ck.cname(c)
        lists = [p for p, v in ck.table(c, 'c_default').items() if isinstance(v, list)]
        if lists:
            ck.rule('defaults(%s)' % nm, fr['defaults'], [c, ck.k(lists)])
        ck.rule('separate(%s)' % nm, fr['separate'], [c])
    for c in chosen('to_dict', 'to_json', '__setitem__'):
        for p in list(ck.table(c, 'c_param')) + ['undeclared']:
            if p != '*':
                ck.rule('converted(%s, %s)' % (ck.cname(c), p), fr['converted'], [c, ck.k(p)])
