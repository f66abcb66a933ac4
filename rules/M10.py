import json
from oidcmsg.message import Message


def drops_required(C, p):
    """whatever else the message holds"""
    m = message(C)
    m.lax = False
    assume(p not in m)
    try:
        m.to_urlencoded()
    except Exception as e:
        reached()
        return
    fail('a message without the required parameter %s is form encoded' % p)


def drops_required_only(C, p, filler):
    """the only parameter that is missing"""
    m = exact_message(C, json.loads(filler))
    if p in m:
        del m[p]
    try:
        m.to_urlencoded()
    except Exception as e:
        reached()
        return
    fail('a message that only lacks the required parameter %s is form encoded' % p)


def default_is_strict(C):
    if C().lax or C(set_defaults=False).lax or C(a='b').lax:
        fail('a new message is lax')
    reached()


def complete(C, filler):
    m = exact_message(C, json.loads(filler))
    try:
        t = m.to_urlencoded()
    except Exception as e:
        fail('a complete message is not form encoded')
    for p in m:
        if (p + '=') not in t:
            fail('the parameter %s is not in the form' % p)
    reached()


def lax(C):
    m = exact_message(C, {'state': 'x'})
    m.lax = True
    try:
        t = m.to_urlencoded()
    except Exception as e:
        fail('a message that was made lax is not form encoded')
    if t != 'state=x':
        fail('a message that was made lax is form encoded as something else')
    reached()


def null_left_out(C, p, filler, null_allowed):
    c = json.loads(filler)
    c[p] = None
    c['zzz'] = 'b'
    m = exact_message(C, c)
    m.lax = True
    t = m.to_urlencoded()
    if null_allowed:
        if (p + '=None') not in t:
            fail('a null value that is allowed is left out')
    elif ('&' + p + '=') in ('&' + t) or ('&' + p + '%') in ('&' + t):
        fail('a null value is form encoded')
    if 'zzz=b' not in t:
        fail('a parameter after a null value is left out')
    reached()


def _refused(C, text):
    try:
        C(set_defaults=False).from_urlencoded(text)
    except Exception as e:
        return True
    return False


def repeated(C, p, a, b):
    for t in (p + '=' + a + '&' + p + '=' + b, p + '=' + a + '&' + p + '=' + a, 'x=y&' + p + '=' + a + '&z=u&' + p + '=' + b + '&v=w', p + '=' + a + '&' + p + '=' + b + '&' + p + '=' + a,
              p + '%23de=' + a + '&' + p + '%23de=' + b):
        if not _refused(C, t):
            fail('a form that repeats the single-valued parameter %s is read' % p)
    if not _refused(C, [p + '=' + a + '&' + p + '=' + b]):
        fail('a form that repeats the single-valued parameter %s is read' % p)
    reached()


def once(C, p, a):
    """a text is read, alone or among others"""
    if C(set_defaults=False).from_urlencoded(p + '=' + a)[p] != a or C(set_defaults=False).from_urlencoded('x=y&' + p + '=' + a + '&z=u')[p] != a:
        fail('a form with one %s is read as something else' % p)
    reached()


def malformed(C, texts):
    for t in json.loads(texts):
        if not _refused(C, t):
            fail('%s, which has no key-value pair, is read as a form' % t)
    w = C(set_defaults=False).from_urlencoded('')
    if len(w) != 0:
        fail('an empty form is read as something')
    if C(set_defaults=False).from_urlencoded('zzz=b')['zzz'] != 'b':
        fail('a form is not read')
    reached()
