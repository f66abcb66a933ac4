from oidcmsg.message import Message


def absent(C, p, wraps):
    m = message(C)
    kw = kwargs()
    if wraps:
        # the content may come with a request object: see wrapped()
        assume('request' not in m and 'request_uri' not in m)
    assume(p not in m)
    refuses(m, kw, 'verified without the required parameter ' + p)


def empty(C, p, wraps):
    m = message(C)
    kw = kwargs()
    if wraps:
        assume('request' not in m and 'request_uri' not in m)
    assume(p in m)
    assume(not m[p])
    refuses(m, kw, 'verified with an empty value for the required parameter ' + p)


def wrapped(C, p):
    """a request object was merged in: what results is complete"""
    keep_apart(p)
    m = message(C)
    kw = kwargs()
    assume('request' in m)
    if accepted(m, kw):
        require(p in m and m[p], 'verified without the required parameter after merging the request object: ' + p)


def generic_accepts(C, required, vocabulary):
    """only required parameters and vocabularies can make the generic verification refuse"""
    m = message(C)
    kw = kwargs()
    for p in required:
        assume(p in m)
        assume(m[p])
    for p, is_list in vocabulary:
        if p in m:
            vals = C.c_allowed_values[p]
            if is_list:
                assume(isinstance(m[p], list))
                for x in m[p]:
                    assume(x in vals)
            else:
                assume(not isinstance(m[p], list))
                assume(m[p] in vals)
    try:
        r = Message.verify(m, **kw)
    except Exception as e:
        fail('the generic verification refuses a message that has all required parameters')
    if r is not True:
        fail('the generic verification gives no positive verdict to a message that has all required parameters')
    reached()
