from oidcmsg.storage.abfile import LabeledAbstractFileSystem
from oidcmsg.storage.extension import LabeledDict
from oidcmsg.storage.extension import SetGetDict

DIR = 'db/entries'


def _make(kind, label, shared):
    if kind == 'dict':
        s = LabeledDict(label)
        if shared is not None:
            s.storage = shared.storage
        return s
    watch_directory(DIR)
    if kind == 'conf':
        return LabeledAbstractFileSystem({'fdir': DIR, 'label': label})
    return LabeledAbstractFileSystem({'fdir': DIR}, label)


def _text(n):
    v = sym(n)
    assume(isinstance(v, str))
    return v


def _set(s, k, v, op):
    if op == 'set':
        s.set(k, v)
    elif op == 'update':
        s.update({k: v})
    else:
        s[k] = v


def _absent(s, k, msg):
    if k in s:
        fail(msg)
    if s.get(k) is not None:
        fail(msg)
    if s.get(k, 'the default') != 'the default':
        fail('get of a missing key does not yield the default')
    ks = [x for x in s.keys()]
    if k in ks:
        fail(msg)
    for a, b in s:
        if a == k:
            fail(msg)


def _counts(kind):
    return kind != 'dict'


def own(kind, label, op, key):
    """one entry: every operation sees it under the key that was used"""
    s = _make(kind, label, None)
    if key == '':
        k = _text('key')
    else:
        k = key
    v = _text('value')
    _absent(s, k, 'an empty store has an entry')
    _set(s, k, v, op)
    if k not in s:
        fail('an entry that was set is not a member')
    if not has(s.get(k), v) or not has(s.get(k, 'default'), v):
        fail('get does not yield what was set')
    if not has(s[k], v):
        fail('an item is not what was set')
    if [x for x in s.keys()] != [k]:
        fail('the listed key is not the key that was set')
    n = 0
    for a, b in s:
        n = n + 1
        if a != k or not has(b, v):
            fail('iteration gives another key or value than was set')
    if n != 1:
        fail('iteration does not give the one entry')
    if _counts(kind):
        n = 0
        for a, b in s.items():
            n = n + 1
            if a != k or not has(b, v):
                fail('items gives another key or value than was set')
        if n != 1:
            fail('items does not give the one entry')
        if len(s) != 1:
            fail('a store with one entry does not count one')
    del s[k]
    _absent(s, k, 'a deleted entry is still there')
    if _counts(kind) and len(s) != 0:
        fail('a deleted entry is still counted')
    reached()


def isolated(kind, label, other, op, key):
    """the entries of another label"""
    a = _make(kind, label, None)
    b = _make(kind, other, a)
    if key == '':
        k = _text('key')
    else:
        k = key
    v, w = _text('value'), _text('another value')
    _set(b, k, w, op)
    _absent(a, k, 'an entry of another label is visible')
    if [x for x in a.keys()] != [] or [x for x in a] != []:
        fail('an entry of another label is listed')
    if _counts(kind) and (len(a) != 0 or [x for x in a.items()] != []):
        fail('an entry of another label is counted')
    _set(a, k, v, op)
    if not has(b[k], w) or not has(b.get(k), w):
        fail('setting an entry changes the entry of another label')
    if not has(a[k], v) or not has(a.get(k), v):
        fail('an item is not what was set')
    if [x for x in a.keys()] != [k] or [x for x in b.keys()] != [k]:
        fail('an entry of another label is listed')
    for x, y in a:
        if x != k or not has(y, v):
            fail('iteration gives another key or value than was set')
    if _counts(kind) and (len(a) != 1 or len(b) != 1):
        fail('an entry of another label is counted')
    del a[k]
    if k not in b or not has(b.get(k), w):
        fail('deleting an entry removes the entry of another label')
    _absent(a, k, 'a deleted entry is still there')
    reached()


def overlapping():
    """labels of which one continues the other with an underscore"""
    a = _make('file', 'x', None)
    b = _make('file', 'x_', a)
    b['foo'] = 'value'
    if [x for x in a.keys()] != []:
        fail('an entry under a label that ends in an underscore is listed under the label without it')
    reached()


def many(kind, label):
    """several entries at once, of which some existed"""
    s = _make(kind, label, None)
    v, w = _text('value'), _text('another value')
    s['a'] = 'old'
    s['b'] = 'kept'
    s.update({'c': v, 'a': w, 'd': 'x'})
    for k in ('a', 'b', 'c', 'd'):
        if k not in s or k not in s.keys():
            fail('an entry that was set is not a member')
    if not has(s['c'], v) or not has(s['a'], w) or s['d'] != 'x':
        fail('update does not set every entry')
    if s['b'] != 'kept':
        fail('update changes an entry it does not mention')
    if len([x for x in s.keys()]) != 4 or len([x for x in s]) != 4:
        fail('a listing has another number of entries than were set')
    del s['c']
    if 'a' not in s or 'b' not in s or 'd' not in s or not has(s.get('a'), w):
        fail('deleting an entry removes another one')
    if len([x for x in s.keys()]) != 3:
        fail('deleting an entry removes another one')
    reached()


def plain(op):
    """the dictionary below"""
    d = SetGetDict()
    k, v = _text('key'), _text('value')
    if d.get(k) is not None or d.get(k, 'default') != 'default':
        fail('get of a missing key does not yield the default')
    if op == 'set':
        d.set(k, v)
    else:
        d[k] = v
    if d.get(k) != v or d.get(k, 'default') != v or d[k] != v or k not in d:
        fail('an entry that was set is not what is read')
    if op == 'set':
        d.delete(k)
    else:
        del d[k]
    if k in d or d.get(k) is not None:
        fail('a deleted entry is still there')
    refuses(_del, d, k)
    reached()


def _del(d, k):
    d.delete(k)
