from oidcmsg.storage.absqlalchemy import AbstractStorageSQLAlchemy


def _store():
    return AbstractStorageSQLAlchemy({'url': 'sqlite:///x.db', 'params': {'table': 'thing'}})


def _text(n):
    v = sym(n)
    assume(isinstance(v, str))
    return v


def _world(rows):
    """rows of the key, and of another one"""
    k, o = _text('key'), _text('another key')
    assume(k != o)
    put_row(o, 'data of another')
    n = 0
    for r in range(rows):
        n = n + 1
        put_row(k, 'old ' + str(n))
    return k, o


def _others(o):
    if committed(o) != ('data of another',):
        fail('the row of another key is touched')


def setting(rows, how):
    s = _store()
    k, o = _world(rows)
    v = _text('value')
    if rows:
        never_without(k)
    if how == 'set':
        s.set(k, v)
    else:
        s[k] = v
    restart()
    c = committed(k)
    if v not in c:
        fail('what was set is not committed when the call returns')
    if len(c) != 1:
        fail('a set leaves a previous row of the key')
    _others(o)
    t = _store()
    if t.get(k) != v or t[k] != v or k not in t:
        fail('what was set is not what is read')
    reached()


def updating(rows):
    s = _store()
    k, o = _world(rows)
    v = _text('value')
    if rows:
        never_without(k)
    s.update(k, v)
    restart()
    c = committed(k)
    if rows and v not in c:
        fail('an update is not committed when the call returns')
    if len(c) != rows:
        fail('an update adds or removes rows')
    for x in c:
        if x != v:
            fail('an update leaves an old row')
    _others(o)
    reached()


def deleting(rows):
    s = _store()
    k, o = _world(rows)
    n = s.delete(k)
    if n != rows:
        fail('a deletion does not give the number of rows')
    restart()
    if len(committed(k)) != 0:
        fail('a deletion is not committed when the call returns')
    _others(o)
    t = _store()
    if k in t or t.get(k) is not None or t[k] is not None:
        fail('a deleted row is still read')
    if t.get(o) != 'data of another' or o not in t:
        fail('the row of another key is not read')
    reached()


def reading(how):
    s = _store()
    k, o = _text('key'), _text('another key')
    assume(k != o)
    v = _text('value')
    assume(v)
    put_row(o, 'data of another')
    if how == 'there':
        put_row(k, v)
    if how == 'there':
        if s.get(k) != v or s[k] != v or k not in s:
            fail('reading does not give the data of the asked key')
    else:
        if s.get(k) is not None or s[k] is not None or k in s:
            fail('reading gives the data of another key')
    if len(committed(k)) != (1 if how == 'there' else 0):
        fail('reading changes the table')
    _others(o)
    reached()


def history(ops):
    s = _store()
    k, o = _world(0)
    expect = None
    n = 0
    for op in ops:
        n = n + 1
        if op == 'set':
            s.set(k, 'value ' + str(n))
            expect = 'value ' + str(n)
        elif op == 'item':
            s[k] = 'value ' + str(n)
            expect = 'value ' + str(n)
        elif op == 'update':
            s.update(k, 'value ' + str(n))
            if expect is not None:
                expect = 'value ' + str(n)
        elif op == 'delete':
            s.delete(k)
            expect = None
        elif op == 'get':
            s.get(k)
        elif op == 'flush':
            s.flush()
        elif op == 'restart':
            restart()
            s = _store()
        if s.get(k) != expect:
            fail('a read does not give what was last written')
        restart()
        if s.get(k) != expect:
            fail('a modification is lost when the process ends after the call returned')
        _others(o)
    if (k in s) != (expect is not None):
        fail('membership contradicts the table')
    reached()


def iterating(rows):
    s = _store()
    k, o = _world(rows)
    n = 0
    for x in s:
        n = n + 1
        if x.owner != k and x.owner != o:
            fail('iteration gives something that is no row')
    if n != rows + 1 or len(s()) != rows + 1:
        fail('iteration does not give every row')
    reached()
