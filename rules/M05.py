from oidcmsg.message import Message


def _text(n):
    v = sym(n)
    assume(isinstance(v, str))
    return v


def defaults(C, names):
    """list-valued defaults belong to one instance"""
    v = sym('value')
    old = C()
    a = C()
    b = C(another='value')
    c = C(set_defaults=False, another='value')
    c.set_defaults()
    before = {}
    for n in names:
        before[n] = [x for x in C.c_default[n]]
    for m in (a, b, c):
        for n in names:
            if n in m:
                m[n].append(v)
    for n in names:
        if n in c:
            c[n].clear()
        if n in a:
            a[n].insert(0, v)
    if not tables_intact():
        fail('changing a default value inside a message changes the defaults of its type')
    d = C()
    e = C(set_defaults=False, another='value')
    e.set_defaults()
    f = C()
    for n in names:
        if n in f:
            del f[n]
    f.set_defaults()
    for n in names:
        if C.c_default[n] != before[n]:
            fail('changing a default value inside a message changes the defaults of its type')
        for m in (old, d, e, f):
            if n in m and m[n] != before[n]:
                fail('changing a default value inside a message changes another message')
    reached()


def separate(C):
    """two messages of one type"""
    a = C()
    b = C()
    v = sym('value')
    a['some other parameter'] = v
    if 'some other parameter' in b or 'some other parameter' in C():
        fail('two messages share their content')
    if not tables_intact():
        fail('setting a parameter changes the tables of a type')
    reached()


def filled(C):
    """making a message out of anything"""
    d = sym('content')
    assume(isinstance(d, dict))
    try:
        m = C(**d)
    except Exception as e:
        m = None
    if not tables_intact():
        fail('making a message changes the tables of a type')
    reached()


def verified(C):
    """verifying any message, with any options"""
    m = message(C)
    kw = kwargs()
    try:
        m.verify(**kw)
    except Exception as e:
        m = None
    if not tables_intact():
        fail('verifying a message changes the tables of a type')
    reached()


def written(C, how):
    """the other operations on any message"""
    m = message(C)
    try:
        if how == 'to_urlencoded':
            m.to_urlencoded()
        elif how == 'extra':
            m.extra()
            m.only_extras()
            m.weed()
        elif how == 'blanks':
            m.rm_blanks()
            m.set_defaults()
        elif how == 'lists':
            m.parameters().append('some other parameter')
            m.required_parameters().append('some other parameter')
            for k in m.parameters():
                m.value_type(k)
        elif how == 'copy':
            o = m.copy()
            o['some other parameter'] = 1
            m.update({'some other parameter': 2})
    except Exception as e:
        m = None
    if not tables_intact():
        fail('using a message (%s) changes the tables of a type' % how)
    reached()


def converted(C, p):
    """the representations of a message with one (unknown) parameter"""
    m = C()
    v = sym('value')
    try:
        m[p] = v
        d = m.to_dict()
        d['some other parameter'] = 1
        for k in d:
            if isinstance(d[k], list):
                d[k].append('x')
        m.to_json()
    except Exception as e:
        m = None
    if not tables_intact():
        fail('using a message (to_dict) changes the tables of a type')
    reached()


def read(C, how):
    m = C()
    d = sym('content')
    try:
        if how == 'from_dict':
            assume(isinstance(d, dict))
            m.from_dict(d)
        elif how == 'from_json':
            assume(isinstance(d, str))
            m.from_json(d)
        else:
            assume(isinstance(d, str))
            m.from_urlencoded(d)
    except Exception as e:
        m = None
    if not tables_intact():
        fail('reading a message (%s) changes the tables of a type' % how)
    reached()
