import json
from oidcmsg.message import Message


class Mark:
    def __init__(self, mark):
        self.mark = mark

    def enc(self, val, sformat='urlencoded', lev=0):
        return self.mark

    def dec(self, val, sformat='urlencoded'):
        return {'by': self.mark}


def _entry(mark):
    k = Mark(mark)
    return (dict, False, k.enc, k.dec, False)


class Plain(Message):
    c_param = {'name': _entry('NAME'), 'exact#en': _entry('TAGGED'), 'exact': _entry('BASE'), 'name2': _entry('OTHER')}


class Wild(Message):
    c_param = {'name': _entry('NAME'), 'exact#en': _entry('TAGGED'), '*': _entry('ANY'), 'exact': _entry('BASE')}


def _loaded(v, mark, what):
    if mark is None:
        if v != 'v':
            fail('%s: an undeclared parameter is not passed through unchanged' % what)
    elif not isinstance(v, dict) or v['by'] != mark:
        fail('%s: a parameter is not treated as the declaration says that applies' % what)


def loads(C, name, form, mark):
    w = C(set_defaults=False).from_dict({name: 'v'})
    _loaded(w[name], mark, 'from_dict')
    w = C(set_defaults=False).from_json(json.dumps({name: 'v'}))
    _loaded(w[name], mark, 'from_json')
    # null is a value like any other
    w = C(set_defaults=False).from_dict({name: None})
    if name not in w or w[name] is not None:
        fail('from_dict: a null value is not kept')
    w = C(set_defaults=False).from_urlencoded(form + '=v')
    _loaded(w[name], mark, 'from_urlencoded')
    reached()


def writes(C, name, form, mark):
    v = {'a': 'b'}
    m = exact_message(C, {name: v})
    m.lax = True
    d = m.to_dict()
    t = json.loads(m.to_json())
    if d[name] != (mark or v):
        fail('to_dict: a parameter is not treated as the declaration says that applies')
    if t[name] != (mark or v):
        fail('to_json: a parameter is not treated as the declaration says that applies')
    if mark is None:
        if exact_message(C, {name: 'text'}).to_urlencoded() != form + '=text':
            fail('to_urlencoded: an undeclared parameter is not passed through unchanged')
        if exact_message(C, {name: ['a', 'b']}).to_urlencoded() != form + '=a&' + form + '=b':
            fail('to_urlencoded: an undeclared list is not passed through unchanged')
        if C(set_defaults=False).from_urlencoded(form + '=a&' + form + '=b')[name] != ['a', 'b']:
            fail('from_urlencoded: an undeclared repeated parameter is not passed through unchanged')
    elif m.to_urlencoded() != form + '=' + mark:
        fail('to_urlencoded: a parameter is not treated as the declaration says that applies')
    if len(d) != 1 or len(t) != 1:
        fail('a parameter appears under several names')
    reached()


def _undeclared(C):
    n = sym('name')
    assume(isinstance(n, str))
    assume('#' not in n)
    assume(n not in C.c_param)
    return n


def any_name_loads(C, mark):
    n = _undeclared(C)
    w = C(set_defaults=False).from_dict({n: 'v'})
    _loaded(w[n], mark, 'from_dict')
    reached()


def any_name_writes(C, mark):
    n = _undeclared(C)
    v = {'a': 'b'}
    d = exact_message(C, {n: v}).to_dict()
    if d[n] != (mark or v):
        fail('to_dict: a parameter is not treated as the declaration says that applies')
    reached()


def _same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_same(a[i], b[i]) for i in range(len(a)))
    if isinstance(a, Message) and isinstance(b, Message):
        return isinstance(a, type(b)) and isinstance(b, type(a)) and a.to_dict() == b.to_dict()
    return a == b and isinstance(a, list) == isinstance(b, list) and isinstance(a, Message) == isinstance(b, Message)


def tagged_like_plain(C, p, value, form):
    """a parameter with a language tag is treated as the one without"""
    v = json.loads(value)
    t = p + '#de'
    m = C(set_defaults=False).from_dict({p: v})
    n = C(set_defaults=False).from_dict({t: v})
    if not _same(m[p], n[t]):
        fail('from_dict treats %s other than %s' % (t, p))
    if p in n or t in m:
        fail('from_dict loads under another name')
    if m.to_dict()[p] != n.to_dict()[t]:
        fail('to_dict treats %s other than %s' % (t, p))
    if form:
        m.lax = True
        n.lax = True
        a = m.to_urlencoded()
        b = n.to_urlencoded()
        if b != a.replace(p + '=', p + '%23de=', 1):
            fail('to_urlencoded treats %s other than %s' % (t, p))
        if not _same(C(set_defaults=False).from_urlencoded(a)[p], C(set_defaults=False).from_urlencoded(b)[t]):
            fail('from_urlencoded treats %s other than %s' % (t, p))
    reached()
