from oidcmsg.oidc.identity_assurance import Evidence


def typed_lacking(C, typ, name):
    m = message(C)
    kw = kwargs()
    assume('type' in m and m['type'] == typ)
    assume(name not in m)
    refuses(m, kw, 'evidence of type %s is accepted without %s' % (typ, name))


def unknown_type(C, types):
    m = message(C)
    kw = kwargs()
    assume('type' in m)
    t = m['type']
    assume(isinstance(t, str))
    assume(t)
    for x in types:
        assume(t != x)
    refuses(m, kw, 'evidence of unknown type is accepted')


def odd_type(C, text):
    m = message(C)
    kw = kwargs()
    assume('type' in m)
    assume(m['type'] == text)
    refuses(m, kw, 'evidence of unknown type is accepted')


def untyped_none(C, missing):
    m = message(C)
    kw = kwargs()
    assume('type' not in m)
    for n in missing:
        assume(n not in m)
    refuses(m, kw, 'untyped evidence that is of no known type is accepted')


def untyped_label(C, typ, missing):
    """only one kind is possible"""
    m = message(C)
    kw = kwargs()
    assume('type' not in m)
    for n in missing:
        assume(n not in m)
    if accepted(m, kw):
        if 'type' not in m or m['type'] != typ:
            fail('untyped evidence is not labelled with the type it verified as')
    reached()


def typed_fine(C, typ, K):
    m = message(C)
    kw = kwargs()
    assume('type' in m and m['type'] == typ)
    for n, d in K.c_param.items():
        if d[1]:
            assume(n in m)
            assume(m[n])
    for n in ('self', 'set_defaults'):
        assume(n not in m)
    flag('always_verified')
    accepts(m, kw, 'well-formed evidence of type %s is refused' % typ)


def untyped_empty(C, name, missing):
    m = message(C)
    kw = kwargs()
    assume('type' not in m)
    assume(name in m)
    assume(m[name] == '')
    for n in missing:
        assume(n not in m)
    refuses(m, kw, 'untyped evidence is accepted with an empty ' + name)


def typed_empty(C, typ, name):
    m = message(C)
    kw = kwargs()
    assume('type' in m and m['type'] == typ)
    assume(name in m)
    assume(m[name] == '')
    refuses(m, kw, 'evidence of type %s is accepted with an empty %s' % (typ, name))


def untyped_fine(C, typ, K, missing):
    """everything there is for one kind, and not for another"""
    m = message(C)
    kw = kwargs()
    assume('type' not in m)
    for n, d in K.c_param.items():
        if n != 'type':
            assume(n in m)
            assume(m[n])
    for n in missing:
        assume(n not in m)
    for n in ('self', 'set_defaults'):
        assume(n not in m)
    flag('always_verified')
    accepts(m, kw, 'well-formed evidence that is %s but does not say so is refused' % typ)
