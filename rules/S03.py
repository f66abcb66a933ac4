from oidcmsg.storage.abfile import AbstractFileSystem
from oidcmsg.storage.converter import QPKey

DIR = 'db/entries'


def _store():
    watch_directory(DIR)
    return AbstractFileSystem({'fdir': DIR})


def _text(n):
    v = sym(n)
    assume(isinstance(v, str))
    return v


def _agrees(s, k, name, how):
    """every kind of read gives what the directory holds"""
    c = file_content(name)
    if how == 'item':
        if c is None:
            refuses(_item, s, k)
        elif not has(_read(s, k), c):
            fail('a read gives something else than the directory holds')
    elif how == 'get':
        x = s.get(k)
        if c is None:
            if x is not None:
                fail('an entry whose file is gone is still read')
        elif not has(x, c):
            fail('a read gives something else than the directory holds')
    elif how == 'contains':
        if (k in s) != (c is not None):
            fail('membership contradicts the directory')
    elif how == 'keys':
        ks = [x for x in s.keys()]
        if (k in ks) != (c is not None):
            fail('a listing contradicts the directory')
        if len(ks) != (0 if c is None else 1):
            fail('a listing contradicts the directory')
    elif how == 'call':
        ks = s()
        if (k in ks) != (c is not None):
            fail('a listing contradicts the directory')
    elif how == 'items' or how == 'iter':
        n = 0
        for a, b in (s.items() if how == 'items' else s):
            n = n + 1
            if c is None or a != k or not has(b, c):
                fail('a listing contradicts the directory')
        if n != (0 if c is None else 1):
            fail('a listing contradicts the directory')
    elif how == 'len':
        if len(s) != (0 if c is None else 1):
            fail('the count contradicts the directory')


def _item(s, k):
    s[k]


def _read(s, k):
    try:
        return s[k]
    except KeyError:
        return None


def _op(s, op, k, v):
    if op == 'get':
        s.get(k)
    elif op == 'set':
        s[k] = v
    elif op == 'delete':
        del s[k]
    elif op == 'update':
        s.update({k: v})
    elif op == 'keys':
        for x in s.keys():
            pass
    elif op == 'items':
        for x in s.items():
            pass
    elif op == 'clear':
        s.clear()
    elif op == 'contains':
        k in s
    elif op == 'len':
        len(s)


def history(ops, how):
    """operations of two stores and of foreign programs on one directory, then a read"""
    k = _text('key')
    watch_directory(DIR)
    a = AbstractFileSystem({'fdir': DIR})
    b = AbstractFileSystem({'fdir': DIR})
    name = QPKey().serialize(k)
    n = 0
    for op in ops:
        n = n + 1
        if op == 'put':
            put_file(name, _text('foreign' + str(n)))
        elif op == 'restore':
            restore_file(name, _text('old' + str(n)))
        elif op == 'drop':
            drop_file(name)
        elif op.startswith('a.'):
            _op(a, op[2:], k, _text('value' + str(n)))
        else:
            _op(b, op[2:], k, _text('value' + str(n)))
    _agrees(a, k, name, how)
    if not how == 'contains':
        _agrees(a, k, name, 'get')
    if has_file(name):
        flag('there')
    reached()


def race(before, op, how):
    """another program writes the file at any point of an operation where it can; the next read sees it"""
    k = _text('key')
    s = _store()
    name = QPKey().serialize(k)
    if before == 'put' or before == 'known':
        put_file(name, _text('content'))
    if before == 'set':
        s[k] = _text('first')
    if before == 'known':
        s.get(k)
    interfere(name, _text('foreign'))
    try:
        _op(s, op, k, _text('value'))
    except KeyError as e:
        pass
    except OSError as e:
        pass
    calm()
    _agrees(s, k, name, how)
    reached()


def race_gone(before, op, how):
    """another program removes the file at any point of an operation where it can"""
    k = _text('key')
    s = _store()
    name = QPKey().serialize(k)
    c = _text('content')
    if before == 'put' or before == 'known':
        put_file(name, c)
    if before == 'set':
        s[k] = c
    if before == 'known':
        s.get(k)
    interfere(name, None)
    try:
        if op == 'get':
            x = s[k]
            if not has(x, c):
                fail('a read of a file that another program removes gives something else than it held')
        elif op == 'items':
            for a, b in s.items():
                if a != k or not has(b, c):
                    fail('a listing of a file that another program removes gives something else than it held')
        else:
            _op(s, op, k, _text('value'))
    except KeyError as e:
        pass
    except OSError as e:
        pass
    calm()
    _agrees(s, k, name, how)
    reached()


def fault(before, op, how):
    """an operation that fails leaves no wrong idea of the file"""
    k = _text('key')
    s = _store()
    name = QPKey().serialize(k)
    if before == 'put' or before == 'known':
        put_file(name, _text('content'))
    if before == 'known':
        s.get(k)
        put_file(name, _text('later'))
    if before == 'set':
        s[k] = _text('first')
    flag('faults')
    try:
        _op(s, op, k, _text('value'))
    except KeyError as e:
        pass
    except OSError as e:
        flag('failed')
    calm()
    _agrees(s, k, name, how)
    reached()


def repaired(how):
    """a file that could not be converted is read again"""
    k = _text('key')
    watch_directory(DIR)
    name = QPKey().serialize(k)
    put_file(name, '{not json')
    s = AbstractFileSystem({'fdir': DIR, 'value_conv': 'oidcmsg.storage.converter.JSON'})
    for i in (1, 2):
        try:
            x = s[k]
        except ValueError as e:
            x = 'refused'
        except KeyError as e:
            x = 'unknown'
        if x != 'refused':
            fail('a file that cannot be read is served from the cache')
    put_file(name, '["now"]')
    if s[k] != ['now']:
        fail('a repaired file is not read')
    put_file(name, '{not json')
    for i in (1, 2):
        try:
            x = s[k]
        except ValueError as e:
            x = 'refused'
        if x != 'refused':
            fail('a failed read marks the file as seen')
    reached()
