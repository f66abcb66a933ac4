from oidcmsg.context import OidcContext
from oidcmsg.message import Message
from oidcmsg.oauth2 import AuthorizationRequest
from oidcmsg.oidc import RegistrationRequest


def _text(n):
    v = sym(n)
    assume(isinstance(v, str))
    return v


def values(other):
    """set and get"""
    c = OidcContext({})
    v = sym('value')
    assume(not isinstance(v, Message))
    k = _text('key')
    assume(k != 'seed')
    if other == 'before':
        c.set('other', 'earlier')
        assume(k != 'other')
    if other == 'same':
        c.set(k, 'earlier')
    c.set(k, v)
    if other == 'after':
        assume(k != 'other')
        c.set('other', 'later')
    if c.get(k) is not v and c.get(k) != v:
        fail('a value that was set is not what is read')
    if other == 'before' and c.get('other') != 'earlier' or other == 'after' and c.get('other') != 'later':
        fail('setting a value changes another one')
    if c.get(k) is not v and c.get(k) != v:
        fail('reading a value changes it')
    reached()


def two():
    """contexts do not share values"""
    a = OidcContext({})
    b = OidcContext()
    a.set('x', 'of a')
    b.set('x', 'of b')
    b.set('y', 'of b')
    if a.get('x') != 'of a' or b.get('x') != 'of b':
        fail('two contexts share values')
    if a.get('y') is not None:
        fail('two contexts share values')
    reached()


def seed():
    c = OidcContext({})
    s = _text('seed text')
    c.set('seed', s)
    r = c.get('seed')
    if r != bytes(s, 'utf-8') and r != s.encode('utf-8') and r != s.encode():
        fail('the seed is not given as bytes')
    reached()


def messages(which):
    """a message is kept as plain data"""
    c = OidcContext({})
    if which == 'plain':
        m = Message(a='b', n=1, l=['x', 'y'])
        d = {'a': 'b', 'n': 1, 'l': ['x', 'y']}
    elif which == 'request':
        m = AuthorizationRequest(client_id='c', response_type='code token', scope='openid email', state='s')
        d = {'client_id': 'c', 'response_type': ['code', 'token'], 'scope': ['openid', 'email'], 'state': 's'}
        if m.to_dict() != d:
            d = m.to_dict()
    elif which == 'nested':
        m = Message(a='b', inner=Message(c='d', deep=Message(e='f')), several=[Message(g='h'), Message(i='j')])
        d = {'a': 'b', 'inner': {'c': 'd', 'deep': {'e': 'f'}}, 'several': [{'g': 'h'}, {'i': 'j'}]}
    else:
        m = RegistrationRequest(redirect_uris=['https://example.org/cb'], client_name='n')
        d = m.to_dict()
    c.set('key', m)
    r = c.get('key')
    if isinstance(r, Message):
        fail('a message is kept as message object')
    if which == 'nested' and (isinstance(r['inner'], Message) or isinstance(r['inner']['deep'], Message) or isinstance(r['several'][1], Message)):
        fail('a message within a message is kept as message object')
    if r != d:
        fail('a message is not kept with its content')
    # the stored data are not tied to the message
    m['later'] = 'x'
    r = c.get('key')
    if 'later' in r:
        fail('changing the message afterwards changes what is stored')
    reached()


def given(entity):
    """a key jar that is given"""
    kj = sym('key jar')
    assume(kj is not None)
    conf = {'keys': {'key_defs': [{'type': 'EC'}]}, 'httpc_params': {'verify': False}, 'db_conf': {'default': {'handler': 'my.Store'}}, 'jwks': {'keys': []}}
    for c in (None, {}, conf):
        x = OidcContext(c, keyjar=kj, entity_id=entity)
        if x.keyjar is not kj:
            fail('the given key jar is not used')
        if all_imports() or any_attr_set(kj):
            fail('the given key jar is changed')
    reached()


def _stores(kinds, issuer):
    """configuration of the stores and the arguments of the store for keys"""
    c = {}
    r = None
    for k in kinds:
        c[k] = {'handler': 'my.' + k, 'dir': 'dir_' + k}
    for k in ('keyjar', 'default'):
        if k in kinds and r is None:
            d = {'dir': 'dir_' + k}
            if issuer:
                d['issuer'] = 'iss'
            r = store('my.' + k, d)
    return c, r


def configured(what, kinds, issuer, entity):
    """a key jar from the configuration"""
    db, st = _stores(kinds, issuer)
    c = {}
    if kinds:
        c['db_conf'] = db
    if issuer:
        c['issuer'] = 'iss'
    defs = sym('key definitions')
    jwks = sym('key set')
    assume(isinstance(jwks, dict))
    if what in ('keys', 'both'):
        c['keys'] = {'key_defs': defs, 'uri_path': 'static/jwks.json', 'private_path': 'p.json', 'public_path': 'q.json', 'read_only': False}
    if what in ('jwks', 'both'):
        c['jwks'] = jwks
    name = ''
    if entity:
        name = _text('entity')
        assume(name)
    x = OidcContext(c, entity_id=name)
    if what in ('keys', 'both'):
        a = {'key_defs': defs, 'private_path': 'p.json', 'public_path': 'q.json', 'read_only': False}
        if st is not None:
            a['storage'] = st
        if x.keyjar != keyjar('init_key_jar', a):
            fail('the key jar is not made from the configured keys on the configured storage')
        if imports(x.keyjar, jwks, ''):
            flag('also the key set')
    else:
        a = {}
        if st is not None:
            a['storage'] = st
        if x.keyjar != keyjar('KeyJar', a):
            fail('the key jar is not on the configured storage')
        if what == 'jwks' and imports(x.keyjar, jwks, '') != 1:
            fail('the configured key set is not imported as own keys')
        if what == '' and all_imports() and not entity:
            fail('keys come from nowhere')
    if entity:
        if '' in x.keyjar and not own_keys_under(x.keyjar, name):
            fail('the own keys are not registered under the name of the entity')
    elif all_imports() > imports(x.keyjar, jwks, ''):
        fail('keys are registered under a name that was not given')
    reached()
