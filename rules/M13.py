"""A message is the mapping of its parameters."""
import json
from oidcmsg.message import Message


class Unlike(Message):
    """declares nothing"""


def name(n):
    v = sym(n)
    assume(isinstance(v, str))
    return v


def set_reads(C):
    """an undeclared parameter, any value"""
    m = message(C)
    n, v = name('name'), sym('value')
    assume(n not in C.c_param)
    m[n] = v
    if n not in m:
        fail('a parameter that was set is not in the message')
    if m[n] is not v and m[n] != v:
        fail('a parameter that was set reads as another value')
    if m.get(n) is not v and m.get(n) != v:
        fail('a parameter that was set reads as another value')
    reached()


def set_frame(C):
    """the others stay"""
    m = message(C)
    n, o, v = name('name'), name('other'), sym('value')
    assume(n not in C.c_param)
    assume(n != o)
    was = o in m
    old = m.get(o)
    m[n] = v
    if (o in m) != was:
        fail('setting a parameter adds or removes another')
    if was and m[o] != old:
        fail('setting a parameter changes another')
    reached()


def set_declared(C, p, text):
    """a declared one, a value of its kind: exactly it"""
    v = json.loads(text)
    m = exact_message(C, {'zz1': 'a', 'zz2': ['b']})
    m[p] = v
    if p not in m:
        fail('a parameter that was set is not in the message')
    if len(m) != 3 or m['zz1'] != 'a' or m['zz2'] != ['b']:
        fail('setting a parameter changes another')
    if not isinstance(v, (dict, list)) and isinstance(m[p], str) and m[p] != v:
        fail('a text reads as another')
    w = m[p]
    if m.get(p) is not w and m.get(p) != w:
        fail('get and reading differ')
    if m.get(p, 'x') is not w and m.get(p, 'x') != w:
        fail('get gives the default for a parameter that is there')
    m['zz1'] = 'c'
    if m[p] is not w and m[p] != w or m['zz1'] != 'c' or len(m) != 3:
        fail('setting a parameter again changes another or adds one')
    del m[p]
    if p in m or len(m) != 2 or m['zz1'] != 'c' or m['zz2'] != ['b']:
        fail('deleting a parameter does not remove exactly it')
    reached()


def absent(C):
    m = message(C)
    n, d = name('name'), sym('default')
    assume(n not in m)
    if m.get(n) is not None:
        fail('get invents a value')
    r = m.get(n, d)
    if r is not d and r != d:
        fail('get does not give the default for an absent parameter')
    if n in m:
        fail('get adds a parameter')
    try:
        m[n]
    except KeyError:
        try:
            del m[n]
        except KeyError:
            reached()
            return
        fail('deleting an absent parameter is no error')
    fail('an absent parameter reads as something')


def deleted(C):
    m = message(C)
    n, o = name('name'), name('other')
    assume(n in m)
    assume(n != o)
    was = o in m
    old = m.get(o)
    del m[n]
    if n in m:
        fail('a deleted parameter is still there')
    if (o in m) != was:
        fail('deleting a parameter adds or removes another')
    if was and m[o] != old:
        fail('deleting a parameter changes another')
    reached()


def views(C, ps):
    """what the different views report"""
    d = {'zz1': 'a', '': 'empty name', 'zz2': None, 'zz3': [], 'zz#en': 'b', 'zz4': False}
    for p in ps:
        d[p] = 'v'
    m = exact_message(C, d)
    if len(m) != len(d):
        fail('the length is not the number of parameters')
    if sorted(m.keys()) != sorted(d) or sorted(m) != sorted(d) or sorted([x for x in m]) != sorted(d):
        fail('the keys are not the parameters')
    if dict(m.items()) != d:
        fail('the items are not the parameters with their values')
    if len(list(m.values())) != len(d) or list(m.values()) != [m[x] for x in m.keys()]:
        fail('the values are not those of the parameters')
    for k in d:
        if k not in m or m[k] != d[k] or m.get(k, 'zzz') != d[k]:
            fail('%s is missing or reads as another value' % k)
    for k in ('zz', 'ZZ1', 'zz1#en', 'zz1 ', 'zz#', 'en', None):
        if k in m or m.get(k, 5) != 5:
            fail('%s is in the message' % k)
    if exact_message(C, {}).keys() or len(exact_message(C, {})) or list(exact_message(C, {}).items()):
        fail('an empty message has parameters')
    reached()


def updated(C, ps, other):
    """by a dictionary, by a message"""
    for p in ps:
        for how in (0, 1, 2):
            m = exact_message(C, {p: 'v', 'zz1': 'a', 'zz2': 'b'})
            u = {p: 'w', 'zz2': None, 'zz3': '', 'zz4': [], 'zz#en': 'd'}
            if how == 1:
                u = exact_message(C, u)
            elif how == 2:
                u = exact_message(other, u)
            m.update(u)
            if dict(m.items()) != {p: 'w', 'zz1': 'a', 'zz2': None, 'zz3': '', 'zz4': [], 'zz#en': 'd'}:
                fail('updating does not take over exactly what is given')
            if dict(u.items()) != {p: 'w', 'zz2': None, 'zz3': '', 'zz4': [], 'zz#en': 'd'}:
                fail('updating changes its source')
            m[ps[0] + '#x'] = 'e'
            if ps[0] + '#x' in u:
                fail('two messages share their content')
    m = exact_message(C, {'zz1': 'a'})
    m.update({})
    m.update(exact_message(C, {}))
    if dict(m.items()) != {'zz1': 'a'}:
        fail('an update with nothing changes the message')
    reached()


def update_any(C):
    m = message(C)
    n, o, v = name('name'), name('other'), sym('value')
    assume(n != o)
    was = o in m
    old = m.get(o)
    m.update({n: v})
    if n not in m or m[n] is not v and m[n] != v:
        fail('updating does not take over what is given')
    if (o in m) != was or was and m[o] != old:
        fail('updating changes other parameters')
    reached()


def update_refused(C):
    for x in (None, 'a=b', ['a'], 5):
        m = exact_message(C, {'zz1': 'a'})
        try:
            m.update(x)
        except Exception:
            if dict(m.items()) != {'zz1': 'a'}:
                fail('a refused update changes the message')
        else:
            fail('an update with something that is no mapping is accepted')
    reached()


def copied(C, p, text):
    v = json.loads(text)
    m = C(set_defaults=False)
    m[p] = v
    m['zz1'] = {'a': ['b', {'c': 'd'}]}
    m['zz2'] = None
    c = m.copy()
    if type(c) is not type(m):
        fail('a copy is a message of another type')
    if not c == m or len(c) != 3 or dict(c.items()) != dict(m.items()):
        fail('a copy differs from the original')
    c['zz1']['a'][1]['c'] = 'x'
    c['zz1']['a'].append('y')
    c['zz3'] = 'z'
    del c['zz2']
    if isinstance(c[p], list):
        c[p].append('more')
        if len(m[p]) == len(c[p]):
            fail('a copy shares a list with the original')
    elif isinstance(c[p], (dict, Message)):
        c[p]['more'] = 'w'
        if 'more' in m[p]:
            fail('a copy shares an object with the original')
    if m['zz1'] != {'a': ['b', {'c': 'd'}]} or 'zz3' in m or 'zz2' not in m:
        fail('changing a copy changes the original')
    reached()


def copy_any(C):
    m = message(C)
    n = name('name')
    was = n in m
    old = m.get(n)
    c = m.copy()
    if (n in c) != was or was and c[n] != old:
        fail('a copy differs from the original')
    c[n + '#x'] = 'a'
    if (n in m) != was or was and m[n] != old:
        fail('copying or changing the copy changes the original')
    reached()


def types(C, p, required):
    """what the message type says about itself"""
    m = C(set_defaults=False)
    if (p in m.required_parameters()) != required:
        fail('%s is wrongly listed as required or not' % p)
    if p not in m.parameters():
        fail('%s is not listed as parameter' % p)
    if m.value_type(p) is not C.c_param[p][0]:
        fail('the value type of %s is another one' % p)
    if m.value_type(p + '#x') is not None or m.value_type('zzz') is not None:
        fail('an undeclared parameter has a value type')
    if m.type() != C.__name__:
        fail('the type has another name')
    if len(m.parameters()) != len(C.c_param):
        fail('the list of parameters is not complete')
    reached()


def refused_set(C, p, text):
    """a refused assignment changes nothing"""
    for v in (True, 5, 1.5, 'x', [5], ['x', {}], {'a': 5}, [], {}, None, ['x', 5], [None]):
        m = C(set_defaults=False)
        m[p] = json.loads(text)
        m['zz1'] = 'a'
        w = m[p]
        try:
            m[p] = v
        except Exception:
            if p not in m or m[p] is not w and m[p] != w:
                fail('a refused assignment changes the parameter')
        if len(m) != 2 or p not in m or m['zz1'] != 'a':
            fail('an assignment changes other parameters')
    reached()
