"""The claims constructor: what goes in, what comes out."""
import json
from oidcmsg.message import Message
from oidcmsg.oidc.identity_assurance import ClaimsConstructor


def _before(C, form):
    """a constructor given its message type in each of the ways there are"""
    if form == 'type':
        c = ClaimsConstructor(C)
    elif form == 'instance':
        c = ClaimsConstructor(C())
    else:
        c = ClaimsConstructor(form)
    c['zzz'] = {'essential': True}
    return c


def _untouched(c):
    if c.to_dict() != {'zzz': {'essential': True}}:
        fail('a refused claims request is kept')


def null_taken(C, p, form):
    c = _before(C, form)
    c[p] = None
    if c.to_dict() != {'zzz': {'essential': True}, p: None}:
        fail('the dictionary is not what was put in')
    if json.loads(c.to_json()) != {'zzz': {'essential': True}, p: None}:
        fail('the JSON document is not what was put in')
    reached()


def wrong_refused(C, p, typ, kind, form):
    c = _before(C, form)
    s = _bad(kind, typ)
    try:
        c[p] = s
    except Exception:
        _untouched(c)
        reached()
        return
    fail('a claims request with a wrong %s is taken for %s' % (kind, p))


def right_taken(C, p, typ, form):
    c = _before(C, form)
    s = _good(typ)
    try:
        c[p] = s
    except Exception as e:
        fail('a well-formed claims request is refused for %s' % p)
    d = c.to_dict()
    if len(d) != 2 or d['zzz'] != {'essential': True} or p not in d or d[p] is not s and d[p] != s:
        fail('the dictionary is not what was put in')
    reached()


def other_kind_refused(C, p, typ, text, form):
    """something that is neither null nor a specification nor of the claim's type"""
    c = _before(C, form)
    for v in json.loads(text):
        try:
            c[p] = v
        except Exception:
            _untouched(c)
        else:
            fail('%s takes a value of another kind' % p)
    reached()


def nested_right(C, p, D, form):
    c = _before(C, form)
    n = ClaimsConstructor(D)
    n['xxx'] = {'value': 'a'}
    n['yyy'] = None
    try:
        c[p] = n
    except Exception as e:
        fail('a nested request of the right type is refused for %s' % p)
    want = {'zzz': {'essential': True}, p: {'xxx': {'value': 'a'}, 'yyy': None}}
    if c.to_dict() != want:
        fail('the dictionary is not what was put in')
    if json.loads(c.to_json()) != want:
        fail('the JSON document is not what was put in')
    n['vvv'] = None
    want[p]['vvv'] = None
    if c.to_dict() != want:
        fail('a nested request is not written as it is')
    reached()


class Stranger(Message):
    pass


def nested_wrong(C, p, form, other):
    c = _before(C, form)
    n = ClaimsConstructor(other)
    n['xxx'] = None
    try:
        c[p] = n
    except Exception:
        _untouched(c)
        reached()
        return
    fail('a nested request of another type is taken for %s' % p)


def undeclared(C, form):
    c = _before(C, form)
    s, n = symdict('spec'), sym('name')
    assume(isinstance(n, str))
    assume(n not in C.c_param)
    assume(n != 'zzz')
    c[n] = s
    d = c.to_dict()
    if len(d) != 2 or d['zzz'] != {'essential': True} or n not in d or d[n] is not s and d[n] != s:
        fail('the dictionary is not what was put in')
    reached()


def separate(C, form):
    a = _before(C, form)
    b = _before(C, form)
    a['yyy'] = None
    a['zzz'] = None
    _untouched(b)
    a.to_dict()['xxx'] = None
    if a.to_dict() != {'zzz': None, 'yyy': None} or json.loads(a.to_json()) != {'zzz': None, 'yyy': None}:
        fail('the last request for a claim is not the one written')
    _untouched(_before(C, form))
    reached()
