from oidcmsg.storage.abfile import AbstractFileSystem
from oidcmsg.storage.converter import QPKey
from oidcmsg.storage.utils import importer

DIR = 'db/entries'
OPS = ('get', 'item', 'set', 'delete', 'contains', 'update')


def _store(conv, vconv):
    conf = {'fdir': DIR}
    if conv:
        conf['key_conv'] = conv
    if vconv:
        conf['value_conv'] = vconv
    watch_directory(DIR)
    return AbstractFileSystem(conf)


def _do(s, op, k, v):
    if op == 'get':
        s.get(k)
    elif op == 'item':
        s[k]
    elif op == 'set':
        s[k] = v
    elif op == 'delete':
        del s[k]
    elif op == 'contains':
        k in s
    elif op == 'update':
        s.update({k: v})
    elif op == 'keys':
        for x in s.keys():
            pass
    elif op == 'items':
        for x in s.items():
            pass
    elif op == 'iter':
        for x in s:
            pass
    elif op == 'len':
        len(s)
    elif op == 'clear':
        s.clear()
    elif op == 'synch':
        s.synch()
    elif op == 'call':
        s()


def _text(n):
    v = sym(n)
    assume(isinstance(v, str))
    return v


def default_file(op, there):
    """the default converter: no file but that of the key"""
    s = _store('', '')
    k, v = _text('key'), _text('value')
    name = QPKey().serialize(k)
    if not is_plain(name):
        fail('a key reaches outside the directory of the store')
    if there:
        put_file(name, _text('content'))
        s.keys()
    only_file(name)
    try:
        _do(s, op, k, v)
    except Exception as e:
        pass
    reached()


def custom_file(op, there):
    """any converter"""
    s = _store('my.converter.Conv', 'my.converter.Value')
    k, v = _text('key'), _text('value')
    conv = importer('my.converter.Conv')()
    name = conv.serialize(k)
    plain_name(name)
    assume(isinstance(name, str))
    assume(not name.endswith('.lock'))
    if there:
        put_file(name, _text('content'))
        s.keys()
    only_file(name)
    try:
        _do(s, op, k, v)
    except Exception as e:
        pass
    reached()


def agree(conv):
    """what is set is found, tested, listed and removed in the same file"""
    s = _store(conv, '')
    k, v = _text('key'), _text('value')
    if conv:
        c = importer(conv)()
    else:
        c = QPKey()
    name = c.serialize(k)
    plain_name(name)
    if conv:
        assume(isinstance(name, str))
        assume(not name.endswith('.lock'))
    s[k] = v
    if not has_file(name):
        fail('setting an entry does not write the file the converter assigns to its key')
    if not has(file_content(name), v):
        fail('the file of an entry does not hold its value')
    if k not in s:
        fail('an entry that was set is not a member')
    if not has(s[k], v):
        fail('an entry that was set is not what is read')
    if not has(s.get(k), v):
        fail('an entry that was set is not what is read')
    if len(s) != 1:
        fail('a store with one entry does not count one')
    del s[k]
    if has_file(name):
        fail('deleting an entry leaves its file')
    if k in s:
        fail('a deleted entry is still a member')
    reached()


def listing(other):
    """listing gives the original keys"""
    s = _store('', '')
    k, v = _text('key'), _text('value')
    if other:
        assume(k != other)
        s[other] = 'something'
    s[k] = v
    ks = [x for x in s.keys()]
    if k not in ks:
        fail('a listing does not have the original key')
    if other and other not in ks:
        fail('a listing does not have the original key')
    if len(ks) != (2 if other else 1):
        fail('a listing has other keys than were set')
    for a, b in s.items():
        if a == k and not has(b, v):
            fail('a listing has another value than was set')
        if a != k and a != other:
            fail('a listing has another key than was set')
    reached()


def constants(keys):
    """keys with all kinds of characters, exactly"""
    s = _store('', '')
    n = 0
    for k in keys:
        s[k] = 'value of ' + k
        n = n + 1
        if len(s) != n:
            fail('two keys share a file, or a key has none')
    for k in keys:
        if k not in s:
            fail('an entry that was set is not a member')
        if s[k] != 'value of ' + k:
            fail('an entry that was set is not what is read')
    ks = [x for x in s.keys()]
    for k in keys:
        if k not in ks:
            fail('a listing does not have the original key')
    if len(ks) != n:
        fail('a listing has other keys than were set')
    d = dict(s.items())
    for k in keys:
        if k not in d or d[k] != 'value of ' + k:
            fail('a listing has another value than was set')
    for k in keys:
        del s[k]
        n = n - 1
        if len(s) != n:
            fail('a deletion removes something else')
        if k in s:
            fail('a deleted entry is still a member')
    reached()


def issuer_directory(template, issuer, expected):
    """a directory name with a place for the issuer"""
    watch_directory(expected)
    conf = {'fdir': template, 'issuer': issuer}
    s = AbstractFileSystem(conf)
    k, v = _text('key'), _text('value')
    only_file(QPKey().serialize(k))
    s[k] = v
    if not has(s[k], v):
        fail('a stored value is not found')
    if conf != {'fdir': template, 'issuer': issuer}:
        fail('the configuration is changed')
    reached()


def issuer_missing(conf):
    c = dict(conf)
    try:
        AbstractFileSystem(c)
    except Exception as e:
        reached()
        return
    fail('a store for no issuer in particular')


def subdirectory(first):
    """a directory within the directory, like that of another store, is no entry"""
    watch_directory(DIR)
    if first:
        put_directory('sub')
    put_file('alpha', 'content of alpha')
    if not first:
        put_directory('sub')
    s = AbstractFileSystem({'fdir': DIR})
    if [x for x in s.keys()] != ['alpha'] or s() != ['alpha']:
        fail('a directory is listed as an entry')
    if [x for x in s.items()] != [('alpha', 'content of alpha')] or [x for x in s] != [('alpha', 'content of alpha')]:
        fail('a directory is listed as an entry')
    if len(s) != 1:
        fail('a directory is counted as an entry')
    if 'sub' in s or s.get('sub') is not None:
        fail('a directory is read as an entry')
    s['beta'] = 'content of beta'
    if len(s) != 2 or sorted(s.keys()) != ['alpha', 'beta']:
        fail('a directory is counted as an entry')
    s.clear()
    if has_file('alpha') or has_file('beta'):
        fail('clear leaves an entry')
    if not has_file('sub'):
        fail('clear removes a directory')
    if len(s) or [x for x in s.keys()]:
        fail('a directory is counted as an entry')
    reached()
