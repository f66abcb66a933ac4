import json
from oidcmsg.message import Message
from oidcmsg.exception import NotAllowedValue


def starts_with(C, content):
    """content of a message that was made without arguments"""
    content = json.loads(content)
    m = C()
    for p in content:
        if p not in m:
            fail('a new message has no %s' % p)
        if m[p] != content[p] or isinstance(m[p], bool) != isinstance(content[p], bool):
            fail('a new message has a %s that is not the default of the specification' % p)
        if C(set_defaults=False).get(p) is not None:
            fail('a message made without defaults has a %s' % p)
    for p in m:
        if p not in content:
            fail('a new message has the parameter %s, for which the specification has no default' % p)
    if len(m) != len(content):
        fail('a new message has other parameters than the specified defaults')
    reached()


def keeps(C, p, other):
    other = json.loads(other)
    if C(**{p: other}).get(p) != other:
        fail('the default of %s replaces the given value' % p)
    reached()


def _verdict(C, filler, p, v):
    m = C(set_defaults=False, **json.loads(filler))
    m[p] = v
    try:
        Message.verify(m)
    except NotAllowedValue:
        return False
    return True


def restricts(C, filler, p, values, others, many):
    for v in values:
        if not _verdict(C, filler, p, v):
            fail('the permitted value %s of %s is refused' % (v, p))
    for v in others:
        if _verdict(C, filler, p, v):
            fail('the value %s of %s, which is not one of the specification, is accepted' % (v, p))
        if many and _verdict(C, filler, p, [values[0], v]):
            fail('the value %s of %s, which is not one of the specification, is accepted next to another one' % (v, p))
    if many and not _verdict(C, filler, p, [values[0], values[1]]):
        fail('two permitted values of %s are refused' % p)
    reached()


def unrestricted(C, filler, p):
    if not _verdict(C, filler, p, 'any text'):
        fail('values of %s are restricted, which the specification does not do' % p)
    reached()
