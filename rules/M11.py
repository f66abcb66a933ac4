import json
from oidcmsg.message import Message


def _location():
    x = sym('location')
    assume(isinstance(x, str))
    return x


def _check(r, want):
    if r != want:
        fail('the URL is not the location, the right separator and the encoded message')
    reached()


def in_fragment(C, content):
    m = exact_message(C, json.loads(content))
    x = _location()
    t = m.to_urlencoded()
    _check(m.request(x, fragment_enc=True), x + '#' + t)


def in_new_query(C, content):
    m = exact_message(C, json.loads(content))
    x = _location()
    assume('?' not in x)
    t = m.to_urlencoded()
    _check(m.request(x), x + '?' + t)
    _check(m.request(x, fragment_enc=False), x + '?' + t)
    _check(m.request(x, False), x + '?' + t)


def in_old_query(C, content):
    m = exact_message(C, json.loads(content))
    x = _location()
    assume('?' in x)
    t = m.to_urlencoded()
    _check(m.request(x), x + '&' + t)
    _check(m.request(x, fragment_enc=False), x + '&' + t)


def in_known_query(C, content):
    m = exact_message(C, json.loads(content))
    t = m.to_urlencoded()
    x = _location()
    assume('?' not in x)
    for loc in ('https://example.com/authz?a=b', '?', 'https://example.com/?', 'https://example.com/authz?a=b#c', 'https://example.com/a?b/c', x + '?a=b', x + '?'):
        _check(m.request(loc), loc + '&' + t)
        _check(m.request(loc, True), loc + '#' + t)
    for loc in ('https://example.com', '', '/', 'https://example.com/a&b=c', 'https://example.com/#a', x + '/path', x + '#'):
        _check(m.request(loc), loc + '?' + t)
        _check(m.request(loc, True), loc + '#' + t)


def keeps_message(C, content):
    m = exact_message(C, json.loads(content))
    n = dict(m.to_dict())
    m.request('https://example.com')
    m.request('https://example.com?a=b', True)
    if m.to_dict() != n:
        fail('the message is another one afterwards')
    reached()


def incomplete(C, p, content):
    m = exact_message(C, json.loads(content))
    x = _location()
    if p in m:
        del m[p]
    try:
        m.request(x)
    except Exception as e:
        reached()
        return
    fail('a URL is made of a message without %s' % p)
