from oidcmsg.storage.abfile import AbstractFileSystem
from oidcmsg.storage.converter import QPKey
from oidcmsg.storage.utils import importer

DIR = 'db/entries'


def _store(conv, vconv):
    conf = {'fdir': DIR}
    if conv:
        conf['key_conv'] = conv
    if vconv:
        conf['value_conv'] = vconv
    watch_directory(DIR)
    return AbstractFileSystem(conf)


def _do(s, op, k, v):
    if op == 'get':
        s.get(k)
    elif op == 'item':
        s[k]
    elif op == 'set':
        s[k] = v
    elif op == 'delete':
        del s[k]
    elif op == 'contains':
        k in s
    elif op == 'update':
        s.update({k: v})
    elif op == 'keys':
        for x in s.keys():
            pass
    elif op == 'items':
        for x in s.items():
            pass
    elif op == 'iter':
        for x in s:
            pass
    elif op == 'len':
        len(s)
    elif op == 'clear':
        s.clear()
    elif op == 'synch':
        s.synch()
    elif op == 'call':
        s()


def _text(n):
    v = sym(n)
    assume(isinstance(v, str))
    return v


def locked(op, there, conv, faults):
    """no access to contents without the lock; no lock held afterwards"""
    s = _store(conv, conv)
    k, v = _text('key'), _text('value')
    if conv:
        c = importer(conv)()
    else:
        c = QPKey()
    n = c.serialize(k)
    if conv:
        plain_name(n)
        assume(isinstance(n, str))
        assume(not n.endswith('.lock'))
    if there:
        put_file(n, _text('content'))
        put_file('other', _text('content of another'))
    if faults:
        flag('faults')
    try:
        _do(s, op, k, v)
    except Exception as e:
        pass
    if locks_held():
        fail('a lock is still held after ' + op)
    reached()


def lockfiles(op, names):
    """lock files in the directory are no entries"""
    flag('lockfiles')
    s = _store('', '')
    k, v = _text('key'), _text('value')
    put_file('alpha', 'content of alpha')
    for n in names:
        put_file(n, '')
    _calmly(s, op, k, v)
    for n in names:
        if not has_file(n):
            fail('a lock file is removed by ' + op)
    reached()


def _calmly(s, op, k, v):
    try:
        _do(s, op, k, v)
    except Exception as e:
        pass


def listed(names, first):
    """what is reported in a directory with lock files, in whatever order it is listed"""
    flag('lockfiles')
    watch_directory(DIR)
    if not first:
        put_file('alpha', 'content of alpha')
    for n in names:
        put_file(n, '')
    if first:
        put_file('alpha', 'content of alpha')
    s = AbstractFileSystem({'fdir': DIR})
    if [x for x in s.keys()] != ['alpha']:
        fail('a lock file is listed as an entry')
    if s() != ['alpha']:
        fail('a lock file is listed as an entry')
    if [x for x in s.items()] != [('alpha', 'content of alpha')]:
        fail('a lock file is listed as an entry')
    if [x for x in s] != [('alpha', 'content of alpha')]:
        fail('a lock file is listed as an entry')
    if len(s) != 1:
        fail('a lock file is counted as an entry')
    for n in names:
        if n in s:
            fail('a lock file is a member')
        if s.get(n) is not None:
            fail('a lock file is read as an entry')
    s.clear()
    if has_file('alpha'):
        fail('clear leaves an entry')
    for n in names:
        if not has_file(n):
            fail('a lock file is removed by clear')
    if len(s) != 0 or [x for x in s.keys()] != []:
        fail('a lock file is counted as an entry')
    reached()


def named(conv):
    """the lock file that an operation itself leaves behind"""
    flag('lockfiles')
    s = _store(conv, '')
    k, v = _text('key'), _text('value')
    if conv:
        c = importer(conv)()
        n = c.serialize(k)
        plain_name(n)
        assume(isinstance(n, str))
        assume(not n.endswith('.lock'))
    s[k] = v
    if len(s) != 1:
        fail('a lock file is counted as an entry')
    if len([x for x in s.keys()]) != 1 or len([x for x in s.items()]) != 1:
        fail('a lock file is listed as an entry')
    s[k] = v
    del s[k]
    if len(s) != 0:
        fail('a lock file is counted as an entry')
    for x in s.keys():
        fail('a lock file is listed as an entry')
    s.clear()
    reached()
