import json
from oidcmsg.message import Message
from oidcmsg.oauth2 import factory as oauth2
from oidcmsg.oidc import factory as oidc


def made(f, C, text):
    kw = json.loads(text)
    kw['zzz'] = sym('value')
    try:
        b = C(**kw)
    except Exception:
        reached()
        return
    a = f(C.__name__, **kw)
    if type(a) is not C:
        fail('the factory makes another type than %s' % C.__name__)
    if a is b or dict(a.items()) != dict(b.items()):
        fail('the content is not the given one')
    reached()


def odd_content(f, C):
    # values that count as false, a name with a language tag, names of the factory's own variables: all kept as given
    kw = {'zz_false': False, 'zz_zero': 0, 'zz_none': None, 'zz_list': [], 'zz_dict': {}, 'zz_text': '', 'zz_float': 0.0, 'zz#en': 'a', 'cls': 'b', 'obj': 'c', 'name': 'd', 'kwargs': 'e', 'zz_blank': ' '}
    try:
        b = C(**kw)
    except Exception:
        b = None
    if b is None:
        reached()
        return
    a = f(C.__name__, **kw)
    if type(a) is not C:
        fail('the factory makes another type than %s' % C.__name__)
    x, y = dict(a.items()), dict(b.items())
    for k in y:
        if k not in x or x[k] is not y[k] and x[k] != y[k] or type(x[k]) is not type(y[k]):
            fail('the content is not the given one: %s' % k)
    for k in x:
        if k not in y:
            fail('content that was not given: %s' % k)
    reached()


def empty(f, C):
    a = f(C.__name__)
    if type(a) is not C:
        fail('the factory makes another type than %s' % C.__name__)
    if dict(a.items()) != dict(C().items()):
        fail('the factory adds content')
    c = f(C.__name__, zzz='a')
    if c is a or 'zzz' in a:
        fail('the factory returns the same message again')
    reached()


def unknown(f, names):
    n = sym('name')
    assume(isinstance(n, str))
    for x in names:
        assume(n != x)
    if f(n, zzz=sym('value')) is not None:
        fail('an unknown name yields something')
    reached()


def any_name(f):
    n = sym('name')
    assume(isinstance(n, str))
    r = f(n, zzz='a')
    if r is not None:
        if not isinstance(r, Message):
            fail('the factory makes something that is not a message')
        if type(r).__name__ != n:
            fail('the factory makes a type of another name')
    reached()


def not_a_message(f, n):
    if f(n) is not None:
        fail('%s yields something' % n)
    reached()
