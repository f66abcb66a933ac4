import json
from oidcmsg.message import Message


def _back(v, w):
    """the value that comes back is the one that was put in"""
    if isinstance(v, list) and isinstance(w, list):
        return len(v) == len(w) and all(_back(v[i], w[i]) for i in range(len(v)))
    if isinstance(v, Message):
        v = v.to_dict()
    if isinstance(w, Message):
        w = w.to_dict()
    return v == w


def _form(C, p, m, held, text):
    try:
        w = C(set_defaults=False).from_urlencoded(m.to_urlencoded())
    except Exception as e:
        fail('%s cannot be written to or read from form encoding' % p)
    if p not in w:
        fail('%s is lost in form encoding' % p)
    if text and not _back(held, w[p]):
        fail('%s is another value after form encoding' % p)


def _all_codecs(C, p, v, text, form):
    m = C(set_defaults=False, **{p: v})
    m.lax = True
    held = m[p]
    if form:
        _form(C, p, m, held, text)
    try:
        w = C(set_defaults=False).from_dict(m.to_dict())
    except Exception as e:
        fail('%s cannot be written to or read from a dictionary' % p)
    if p not in w:
        fail('%s is lost in a dictionary' % p)
    if not _back(held, w[p]):
        fail('%s is another value after reading it from a dictionary' % p)
    try:
        w = C(set_defaults=False).from_json(m.to_json())
    except Exception as e:
        fail('%s cannot be written to or read from JSON' % p)
    if p not in w:
        fail('%s is lost in JSON' % p)
    if not _back(held, w[p]):
        fail('%s is another value after reading it from JSON' % p)


def through_all(C, p, values, text, form):
    for v in json.loads(values):
        _all_codecs(C, p, v, text, form)
    reached()


def through_all_message(C, p, M, many, form):
    v = M(set_defaults=False, a='b')
    if many:
        v = [v]
    _all_codecs(C, p, v, False, form)
    reached()


def _texts(n):
    r = []
    for name in ('a', 'b', 'c')[:n]:
        x = sym(name)
        assume(isinstance(x, str))
        assume(x)
        assume(' ' not in x)
        r.append(x)
    return r


def list_in_form(C, p, n):
    """any texts without blanks"""
    v = _texts(n)
    m = C(set_defaults=False, **{p: v})
    m.lax = True
    w = C(set_defaults=False).from_urlencoded(m.to_urlencoded())
    if not isinstance(w[p], list) or len(w[p]) != n:
        fail('a list of %s texts has another length after form encoding' % n)
    for i in range(n):
        if w[p][i] != v[i]:
            fail('a list of texts is another one after form encoding')
    reached()


def list_in_dict(C, p, n):
    v = _texts(n)
    m = C(set_defaults=False, **{p: v})
    w = C(set_defaults=False).from_dict(m.to_dict())
    if not isinstance(w[p], list) or len(w[p]) != n:
        fail('a list of %s texts has another length after reading it from a dictionary' % n)
    for i in range(n):
        if w[p][i] != v[i]:
            fail('a list of texts is another one after reading it from a dictionary')
    reached()


def text_in_form(C, p):
    x = sym('x')
    assume(isinstance(x, str))
    assume(x)
    m = C(set_defaults=False, **{p: x})
    m.lax = True
    w = C(set_defaults=False).from_urlencoded(m.to_urlencoded())
    if w[p] != x:
        fail('a text is another one after form encoding')
    w = C(set_defaults=False).from_dict(m.to_dict())
    if w[p] != x:
        fail('a text is another one after reading it from a dictionary')
    reached()


def text_value(C, p, text):
    """the JSON text of an embedded message instead of the object"""
    d = C(set_defaults=False, **{p: json.loads(text)})
    m = C(set_defaults=False, **{p: text})
    if p not in m or type(m[p]) is not type(d[p]) or m[p].to_dict() != d[p].to_dict():
        fail('the JSON text of %s is not taken for what it says' % p)
    m = C(set_defaults=False)
    m[p] = text
    if p not in m or type(m[p]) is not type(d[p]) or m[p].to_dict() != d[p].to_dict():
        fail('the JSON text of %s is not taken for what it says when assigned' % p)
    reached()


def form_as_list(C, p):
    """a form text that comes as the only member of a list"""
    x = sym('x')
    assume(isinstance(x, str))
    assume(x)
    m = C(set_defaults=False, **{p: x})
    m.lax = True
    t = m.to_urlencoded()
    w = C(set_defaults=False).from_urlencoded([t])
    if w[p] != x or len(w) != 1:
        fail('a form text in a list is read as something else')
    reached()
