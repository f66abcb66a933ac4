from oidcmsg.message import Message


def _takes(C, p, v):
    """what becomes of a value, None if it is refused"""
    try:
        m = C(set_defaults=False, **{p: v})
        return m.get(p)
    except Exception as e:
        return None


def _refuses(C, p, v):
    try:
        C(set_defaults=False, **{p: v})
    except Exception as e:
        return True
    return False


def _wire(C, p, v):
    """form encoded"""
    m = C(set_defaults=False, **{p: v})
    m.lax = True
    return m.to_urlencoded()


def _read(C, text, p):
    return C(set_defaults=False).from_urlencoded(text)[p]


def required(C, names):
    r = [n for n in C().required_parameters()]
    for n in names:
        if n not in r:
            fail('the required parameter %s is not marked as required' % n)
    for n in r:
        if n not in names:
            fail('the parameter %s is marked as required and is not' % n)
    reached()


def declared(C, names):
    r = C().parameters()
    for n in names:
        if n not in r:
            fail('the parameter %s is not declared' % n)
    reached()


def kind_str(C, p):
    if _takes(C, p, 'some text') != 'some text' or _read(C, p + '=some+text', p) != 'some text' or _wire(C, p, 'some text') != p + '=some+text':
        fail('a text is not taken as it is')
    if not _refuses(C, p, ['a', 'b']) or not _refuses(C, p, {'a': 'b'}):
        fail('something else than a text is taken')
    reached()


def kind_int(C, p):
    if _takes(C, p, 5) != 5 or _takes(C, p, '5') != 5:
        fail('a number is not taken')
    if not _refuses(C, p, 'some text') or not _refuses(C, p, True) or not _refuses(C, p, ['a', 'b']):
        fail('something else than a number is taken')
    if _wire(C, p, 5) != p + '=5':
        fail('a number is not written as such')
    if C(set_defaults=False, **{p: 5}).to_dict().get(p) != 5:
        fail('a number is not a number in JSON')
    reached()


def kind_bool(C, p):
    if _takes(C, p, True) is not True or C(set_defaults=False, **{p: False})[p] is not False:
        fail('a truth value is not taken')
    if not _refuses(C, p, 'some text') or not _refuses(C, p, 1) or not _refuses(C, p, [True, False]):
        fail('something else than a truth value is taken')
    if C(set_defaults=False, **{p: True}).to_dict().get(p) is not True:
        fail('a truth value is not one in JSON')
    reached()


def kind_list(C, p):
    if _takes(C, p, ['a', 'b c']) != ['a', 'b c']:
        fail('a list of texts is not taken')
    if C(set_defaults=False, **{p: ['a', 'b c']}).to_dict().get(p) != ['a', 'b c']:
        fail('a list is not a list in JSON')
    if not isinstance(_takes(C, p, 'a'), list) or not isinstance(_read(C, p + '=a', p), list):
        fail('a single member does not become a list')
    if not _refuses(C, p, 5) or not _refuses(C, p, {'a': 'b'}):
        fail('something else than a list is taken')
    reached()


def kind_sp(C, p):
    if _takes(C, p, ['a', 'b']) != ['a', 'b'] or _takes(C, p, 'a b') != ['a', 'b']:
        fail('a list of texts is not taken')
    if _wire(C, p, ['a', 'b']) != p + '=a+b' or _read(C, p + '=a+b', p) != ['a', 'b']:
        fail('a list is not space separated in form encoding')
    if C(set_defaults=False, **{p: ['a', 'b']}).to_dict().get(p) != 'a b':
        fail('a list is not space separated in JSON')
    if not _refuses(C, p, 5) or not _refuses(C, p, {'a': 'b'}):
        fail('something else than a list is taken')
    reached()


def kind_json(C, p):
    d = {'a': {'b': 'c'}}
    if _takes(C, p, d) != d or _takes(C, p, '{"a": {"b": "c"}}') != d:
        fail('a JSON object is not taken')
    if C(set_defaults=False, **{p: d}).to_dict().get(p) != d:
        fail('a JSON object is not one in JSON')
    if _read(C, p + '=%7B%22a%22%3A+%7B%22b%22%3A+%22c%22%7D%7D', p) != d or _read(C, _wire(C, p, d), p) != d:
        fail('a JSON object is not JSON in form encoding')
    if not _refuses(C, p, 'some text') or not _refuses(C, p, 5) or not _refuses(C, p, ['a', 'b']):
        fail('something else than a JSON object is taken')
    reached()


def kind_msg(C, p, M):
    d = {'a': 'b'}
    v = C(set_defaults=False, **{p: d})[p]
    if not isinstance(v, M):
        fail('an object is not taken as message of its type')
    if v.get('a') != 'b':
        fail('an object loses its content')
    w = C(set_defaults=False, **{p: M(**d)})
    if not isinstance(w[p], M) or w.to_dict().get(p) != d:
        fail('a message is not an object in JSON')
    if not _refuses(C, p, 5):
        fail('something else than an object is taken')
    reached()


def kind_msgs(C, p, M):
    d = {'a': 'b'}
    v = C(set_defaults=False, **{p: [d, d]})[p]
    if len(v) != 2 or not isinstance(v[0], M) or not isinstance(v[1], M):
        fail('a list of objects is not taken as list of messages of their type')
    if C(set_defaults=False, **{p: [d]}).to_dict().get(p) != [d]:
        fail('a list of messages is not a list of objects in JSON')
    if not _refuses(C, p, 5) or not _refuses(C, p, 'some text'):
        fail('something else than a list of objects is taken')
    reached()


def kind_jwt(C, p):
    if _takes(C, p, 'a.b.c') != 'a.b.c' or _wire(C, p, 'a.b.c') != p + '=a.b.c' or _read(C, p + '=a.b.c', p) != 'a.b.c':
        fail('a token is not taken as it is')
    if not _refuses(C, p, 5) or not _refuses(C, p, ['a', 'b']):
        fail('something else than a token is taken')
    reached()


def kind_timestamp(C, p):
    t = '2020-02-29T12:34:56Z'
    if _takes(C, p, t) != t or C(set_defaults=False, **{p: t}).to_dict().get(p) != t:
        fail('a point in time is not taken')
    if not _refuses(C, p, ['a', 'b']):
        fail('something else than a point in time is taken')
    reached()


def kind_evidence(C, p):
    d = {'type': 'id_document', 'method': 'pipp'}
    v = C(set_defaults=False, **{p: [d]})
    if len(v[p]) != 1 or v[p][0].get('method') != 'pipp':
        fail('a list of evidence objects is not taken')
    if v.to_dict().get(p) != [d]:
        fail('a list of evidence is not a list of objects in JSON')
    if not _refuses(C, p, 5) or not _refuses(C, p, [5]):
        fail('something else than a list of evidence objects is taken')
    reached()
