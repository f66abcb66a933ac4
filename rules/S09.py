import json
from oidcmsg.storage.abfile import AbstractFileSystem
from oidcmsg.storage.converter import JSON, PassThru, QPKey
from oidcmsg.storage.utils import importer

DIR = 'db/entries'
JSONCONV = 'oidcmsg.storage.converter.JSON'


def _store(conv):
    conf = {'fdir': DIR}
    if conv:
        conf['value_conv'] = conv
    return AbstractFileSystem(conf)


def json_values(text):
    for x in json.loads(text):
        t = JSON().serialize(x)
        if not isinstance(t, str):
            fail('the JSON converter does not give a text')
        if json.loads(t) != x or json.dumps(json.loads(t), sort_keys=True) != json.dumps(x, sort_keys=True):
            fail('the JSON converter writes another value')
        y = JSON().deserialize(t)
        if y != x or json.dumps(y, sort_keys=True) != json.dumps(x, sort_keys=True):
            fail('the JSON converter does not give back the value')
    reached()


def json_unknown():
    v = symdict('value')
    y = JSON().deserialize(JSON().serialize(v))
    if y is not v and y != v:
        fail('the JSON converter does not give back the value')
    t = sym('text')
    assume(isinstance(t, str))
    y = JSON().serialize(t)
    if json.loads(y) != t or JSON().deserialize(y) != t:
        fail('the JSON converter does not give back a text')
    reached()


def json_texts(texts):
    for t in texts:
        if json.dumps(JSON().deserialize(t), sort_keys=True) != json.dumps(json.loads(t), sort_keys=True):
            fail('the JSON converter reads another value')
    reached()


def json_malformed(t):
    try:
        JSON().deserialize(t)
    except ValueError as e:
        reached()
        return
    fail('the JSON converter takes a text that is not JSON')


class Stranger:
    pass


def _not_json(kind):
    if kind == 'set':
        return {'a', 'b'}
    if kind == 'bytes':
        return b'abc'
    if kind == 'member':
        return {'a': [b'abc']}
    return Stranger()


def json_refuses(kind):
    try:
        JSON().serialize(_not_json(kind))
    except Exception as e:
        reached()
        return
    fail('the JSON converter takes a value that is not JSON')


def passthru():
    v = sym('value')
    if not same(PassThru().serialize(v), v) or not same(PassThru().deserialize(v), v):
        fail('a text that is passed through is changed')
    reached()


def through_the_store(conv, text):
    """what one store writes another one reads"""
    watch_directory(DIR)
    a, b = _store(conv), _store(conv)
    c = JSON() if conv else PassThru()
    for x in json.loads(text):
        a['some key'] = x
        name = QPKey().serialize('some key')
        t = file_content(name)
        if t is None or t != c.serialize(x):
            fail('the file does not hold what the converter makes of the value')
        for s in (a, b, _store(conv)):
            y = s['some key']
            if json.dumps(y, sort_keys=True) != json.dumps(x, sort_keys=True):
                fail('a store reads something else than was stored')
            for k, z in s.items():
                if k != 'some key' or json.dumps(z, sort_keys=True) != json.dumps(x, sort_keys=True):
                    fail('a store lists something else than was stored')
    reached()


def foreign_file(conv, texts):
    """files made by other programs"""
    watch_directory(DIR)
    s = _store(conv)
    c = JSON() if conv else PassThru()
    for t in texts:
        put_file('k', t)
        y = s['k']
        if json.dumps(y, sort_keys=True) != json.dumps(c.deserialize(t.strip()), sort_keys=True) and json.dumps(y, sort_keys=True) != json.dumps(c.deserialize(t), sort_keys=True):
            fail('a store reads something else than the file says')
    reached()


def own_converter():
    """a converter of the caller's"""
    watch_directory(DIR)
    a, b = _store('my.converter.Value'), _store('my.converter.Value')
    c = importer('my.converter.Value')()
    v = sym('value')
    t = c.serialize(v)
    assume(isinstance(t, str))
    a['k'] = v
    if not same(file_content('k'), t):
        fail('the file does not hold what the configured converter makes of the value')
    y = b['k']
    if not same(y, c.deserialize(t)) and not same(y, c.deserialize(t.strip())):
        fail('what is read is not what the configured converter makes of the content')
    reached()


def refused_keeps(kind, how):
    """a value that cannot be converted leaves everything as it was"""
    watch_directory(DIR)
    a, b = _store(JSONCONV), _store(JSONCONV)
    a['k'] = ['old']
    a['l'] = 'other'
    try:
        if how == 'item':
            a['k'] = _not_json(kind)
        else:
            a.update({'k': _not_json(kind)})
    except Exception as e:
        pass
    else:
        fail('a value that is not JSON is stored')
    if file_content('k') != '["old"]':
        fail('a refused value replaces what was stored')
    if a['k'] != ['old'] or b['k'] != ['old'] or a['l'] != 'other':
        fail('a refused value replaces what was stored')
    if len(a) != 2:
        fail('a refused value makes an entry')
    reached()


def refused_makes_nothing(kind):
    watch_directory(DIR)
    a = _store(JSONCONV)
    try:
        a['k'] = _not_json(kind)
    except Exception as e:
        pass
    if has_file('k') or 'k' in a or len(a) != 0 or a.get('k') is not None:
        fail('a refused value makes an entry')
    reached()


def new_directory(conv):
    """the directory of a store is made when it is needed"""
    watch_directory(DIR)
    remove_directory()
    s = _store(conv)
    if not directory_exists() or len(s) or list(s.keys()):
        fail('a new store does not start out with an empty directory')
    s['k'] = 'text'
    if s['k'] != 'text' or _store(conv)['k'] != 'text':
        fail('a store in a new directory reads something else than was stored')
    reached()


def directory_gone(conv, how):
    watch_directory(DIR)
    s = _store(conv)
    s['a'] = 'before'
    remove_directory()
    if s.get('a') is not None or 'a' in s:
        fail('an entry is there although the directory is gone')
    if how == 'list' and (list(s.keys()) or list(s.items()) or len(s) or s()):
        fail('an entry is there although the directory is gone')
    if how == 'clear':
        s.clear()
        if len(s) or list(s.keys()):
            fail('a cleared store is not empty')
    if how != 'update':
        s['k'] = 'text'
    else:
        s.update({'k': 'text'})
    if s['k'] != 'text' or _store(conv)['k'] != 'text':
        fail('a store whose directory was removed reads something else than was stored')
    if 'a' in s or list(s.keys()) != ['k']:
        fail('an entry is there although the directory it was in is gone')
    reached()
