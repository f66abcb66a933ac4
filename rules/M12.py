from oidcmsg.message import Message
from oidcmsg.message import add_non_standard
from oidcmsg.message import by_schema


def _held(m):
    """any parameter of the message"""
    n = sym('name')
    assume(isinstance(n, str))
    assume(n in m)
    return n


def extra_holds_others(C):
    m = message(C)
    n = _held(m)
    assume(n not in C.c_param)
    v = m[n]
    e = m.extra()
    if n not in e:
        fail('an undeclared parameter is not among the extra ones')
    if e[n] != v:
        fail('an extra parameter has another value')
    if n not in m:
        fail('the message lost a parameter')
    reached()


def extra_holds_no(C, p):
    m = message(C)
    if p in m.extra():
        fail('the declared parameter %s is among the extra ones' % p)
    reached()


def extra_adds_nothing(C):
    m = message(C)
    n = sym('other')
    assume(n not in m)
    if n in m.extra():
        fail('a parameter the message does not have is among the extra ones')
    reached()


def weed_keeps(C, p):
    m = message(C)
    assume(p in m)
    v = m[p]
    m.weed()
    if p not in m:
        fail('the declared parameter %s is weeded out' % p)
    if m[p] != v:
        fail('weeding changes %s' % p)
    reached()


def weed_removes(C):
    m = message(C)
    n = _held(m)
    assume(n not in C.c_param)
    m.weed()
    if n in m:
        fail('an undeclared parameter survives weeding')
    reached()


def weed_adds_nothing(C):
    m = message(C)
    n = sym('name')
    assume(n not in m)
    m.weed()
    if n in m:
        fail('weeding adds a parameter')
    reached()


def blanks_removed(C):
    m = message(C)
    n = _held(m)
    assume(not m[n])
    m.rm_blanks()
    if n in m:
        fail('a parameter without value survives the removal of blanks')
    reached()


def others_kept(C):
    m = message(C)
    n = _held(m)
    v = m[n]
    assume(v)
    m.rm_blanks()
    if n not in m:
        fail('a parameter with a value is removed as blank')
    if m[n] != v:
        fail('the removal of blanks changes a value')
    reached()


def blank_values(C, p):
    """each kind of empty value, each kind of value that is not empty"""
    for v in ('', [], {}, None, 0, False):
        m = exact_message(C, {'x1': 'a', p: v, 'x2': v, 'x3': ['b']})
        m.rm_blanks()
        if p in m or 'x2' in m:
            fail('an empty value survives the removal of blanks')
        if len(m) != 2 or m['x1'] != 'a' or m['x3'] != ['b']:
            fail('the removal of blanks removes other values')
    for v in (' ', 'a', [''], {'a': ''}, 1, True, [None]):
        m = exact_message(C, {p: v, 'x2': '', 'x3': v})
        m.rm_blanks()
        if len(m) != 2 or m[p] != v or m['x3'] != v:
            fail('the removal of blanks removes a value that is not empty')
    reached()


def not_only_extras(C, p):
    m = message(C)
    assume(p in m)
    if m.only_extras():
        fail('a message with the declared parameter %s is said to have extra parameters only' % p)
    reached()


def only_extras(C):
    for d in ({}, {'zzz': 'a'}, {'zzz': 'a', 'yyy': ['b']}):
        if not exact_message(C, d).only_extras():
            fail('a message with extra parameters only is said to have others')
    m = exact_message(C, {})
    n = sym('name')
    assume(isinstance(n, str))
    assume(n not in C.c_param)
    m[n] = 'a'
    if not m.only_extras():
        fail('a message with extra parameters only is said to have others')
    reached()


def bookkeeping(C, p):
    """declared, undeclared, tagged"""
    m = exact_message(C, {'zzz': 'a', p: 'v', p + '#de': 'w', '': 'x'})
    if dict(m.extra()) != {'zzz': 'a', p + '#de': 'w', '': 'x'}:
        fail('the extra parameters are not exactly the undeclared ones')
    if m.only_extras():
        fail('a message with a declared parameter is said to have extra parameters only')
    m.weed()
    if len(m) != 1 or m[p] != 'v':
        fail('weeding does not remove exactly the undeclared parameters')
    if m.extra():
        fail('a weeded message has extra parameters')
    reached()


def equal(C, p):
    v = sym('v')
    a = exact_message(C, {p: v, 'zzz': ['a', {'b': 'c'}]})
    b = exact_message(C, {'zzz': ['a', {'b': 'c'}], p: v})
    if not a == b:
        fail('messages of the same type and content are not equal')
    if a != b:
        fail('messages of the same type and content are different')
    c = exact_message(C, {p: v, 'zzz': ['a', {'b': 'd'}]})
    if a == c or c == a:
        fail('messages with different content are equal')
    c = exact_message(C, {p: v})
    if a == c or c == a:
        fail('a message is equal to one that has less')
    c = exact_message(C, {p: v, 'zzz': ['a', {'b': 'c'}], 'yyy': None})
    if a == c or c == a:
        fail('a message is equal to one that has more')
    c = exact_message(C, {p: v, 'yyy': ['a', {'b': 'c'}]})
    if a == c or c == a:
        fail('a message is equal to one with other names')
    w = sym('w')
    assume(v != w)
    c = exact_message(C, {p: w, 'zzz': ['a', {'b': 'c'}]})
    if a == c or c == a or not a != c:
        fail('messages with different content are equal')
    reached()


class Unrelated(Message):
    pass


def equal_types(C, D, same):
    a = exact_message(C, {'zzz': 'a'})
    b = exact_message(D, {'zzz': 'a'})
    if same:
        if not (a == b and b == a):
            fail('messages with the same type name and content are not equal')
    elif a == b or b == a or not a != b:
        fail('messages of different types are equal')
    reached()


def equal_others(C):
    a = exact_message(C, {'zzz': 'a'})
    b = exact_message(Unrelated, {'zzz': 'a'})
    if a == b or b == a:
        fail('messages of different types are equal')
    for x in ({'zzz': 'a'}, None, 'zzz', [a], a.to_json(), 5, C):
        if a == x:
            fail('a message is equal to something that is not a message')
    reached()


def schema_selects(C, p):
    v = sym('v')
    kw = {p: v, 'zzz': 'a', p + '#de': 'w'}
    d = by_schema(C, **kw)
    if p not in d or d[p] != v:
        fail('by_schema loses the declared parameter %s' % p)
    if len(d) != 1:
        fail('by_schema keeps undeclared parameters')
    if by_schema(C):
        fail('by_schema makes up parameters')
    reached()


def non_standard_added(C, p):
    a = exact_message(C, {p: 'v', 'aaa': 'b'})
    b = exact_message(Unrelated, {p: 'other', 'zzz': ['a'], 'yyy': 'c'})
    add_non_standard(a, b)
    if a[p] != 'v':
        fail('a declared parameter is overwritten')
    if a.get('zzz') != ['a'] or a.get('yyy') != 'c' or a['aaa'] != 'b' or len(a) != 4:
        fail('the undeclared parameters are not exactly added')
    if len(b) != 3:
        fail('the source is changed')
    b = exact_message(C, {p: 'v'})
    a = exact_message(Unrelated, {})
    add_non_standard(a, b)
    if len(a):
        fail('a standard parameter is added')
    reached()


def any_non_standard_added(C):
    a = message(C, 'a')
    b = message(C, 'b')
    n = sym('name')
    assume(isinstance(n, str))
    assume(n in b)
    assume(n not in C.c_param)
    add_non_standard(a, b)
    if n not in a or a[n] != b[n]:
        fail('an undeclared parameter is not added')
    reached()
