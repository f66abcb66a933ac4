from oidcmsg.message import Message


def other_value(C, p):
    """a single value that is not on the list"""
    m = message(C)
    kw = kwargs()
    assume(p in m)
    assume(m[p])
    assume(not isinstance(m[p], list))
    assume(m[p] not in C.c_allowed_values[p])
    refuses(m, kw, 'verified with a value that is not permitted for ' + p)


def other_member(C, p):
    """a list with a member that is not on the list, at any position"""
    m = message(C)
    kw = kwargs()
    assume(p in m)
    assume(isinstance(m[p], list))
    x = sym('member')
    assume(x in m[p])
    assume(x not in C.c_allowed_values[p])
    refuses(m, kw, 'verified with a member that is not permitted in ' + p)


def permitted_value(C, required, p):
    m = message(C)
    kw = kwargs()
    for r in required:
        assume(r in m)
        assume(m[r])
    for q in C.c_allowed_values:
        if q != p:
            assume(q not in m)
    assume(p in m)
    assume(not isinstance(m[p], list))
    assume(m[p] in C.c_allowed_values[p])
    _generic(m, kw)


def permitted_list(C, required, p):
    m = message(C)
    kw = kwargs()
    for r in required:
        assume(r in m)
        assume(m[r])
    for q in C.c_allowed_values:
        if q != p:
            assume(q not in m)
    assume(p in m)
    assume(isinstance(m[p], list))
    for x in m[p]:
        assume(x in C.c_allowed_values[p])
    _generic(m, kw)


def _generic(m, kw):
    try:
        r = Message.verify(m, **kw)
    except Exception as e:
        fail('a message with permitted values only is refused by the generic verification')
    if not r:
        fail('a message with permitted values only is refused by the generic verification')
    reached()
