from urllib.parse import quote_plus

from oidcmsg.context import OidcContext
from oidcmsg.context import add_issuer
from oidcmsg.storage.extension import LabeledDict
from oidcmsg.storage.init import ConfigurationError
from oidcmsg.storage.init import get_storage_conf
from oidcmsg.storage.init import init_storage
from oidcmsg.storage.init import storage_factory
from oidcmsg.storage.utils import importer
from oidcmsg.storage.utils import modsplit


def _text(n):
    v = sym(n)
    assume(isinstance(v, str))
    return v


def _entry(name):
    """entry of a configuration"""
    return {'handler': 'my.storage.' + name, 'fdir': sym('directory of ' + name), 'value_conv': 'some.Converter', 'extra': sym('more of ' + name)}


def _rest(name):
    d = _entry(name)
    del d['handler']
    return d


def refused(f, *args):
    try:
        f(*args)
    except Exception as e:
        return
    fail('a configuration that names nothing is accepted')


def _conf(kinds):
    r = {}
    for k in kinds:
        r[k] = _entry(k)
    return r


def entries(kinds, typ):
    """which entry is used"""
    c = _conf(kinds)
    if typ in kinds:
        if get_storage_conf(c, typ) != _entry(typ):
            fail('the entry of the requested kind is not the one that is used')
        if typ == 'default' and get_storage_conf(c) != _entry('default'):
            fail('the default entry is not the default')
    elif typ != 'default' and 'default' in kinds:
        if get_storage_conf(c, typ) != _entry('default'):
            fail('the default entry is not used for a kind without one')
    elif typ != 'default':
        if get_storage_conf(c, typ):
            fail('an entry of another kind is used')
    else:
        refused(_conf_of, c, typ)
    if c != _conf(kinds):
        fail('the configuration is modified')
    if get_storage_conf(None, typ) or get_storage_conf({}, typ) or get_storage_conf():
        fail('there is an entry without a configuration')
    reached()


def empty_entry(typ, how):
    e = None if how == 'null' else {}
    if get_storage_conf({'default': _entry('default'), typ: e}, typ) != _entry('default'):
        fail('the default entry is not used for a kind with an empty entry')
    if get_storage_conf({typ: e}, typ):
        fail('an empty entry is used')
    if init_storage({'default': _entry('default'), typ: e}, typ) != store('my.storage.default', _rest('default')):
        fail('the store is not made by the handler of the default entry with the rest of that entry')
    refused(_conf_of, {'default': e, typ: _entry(typ)}, 'default')
    reached()


def _conf_of(c, typ):
    get_storage_conf(c, typ)


def selected(kinds, typ, named):
    """what init_storage gives"""
    c = _conf(kinds)
    if not named:
        s = init_storage(c)
    else:
        s = init_storage(c, typ)
    if typ in kinds:
        if s != store('my.storage.' + typ, _rest(typ)):
            fail('the store is not made by the handler of the entry with the rest of the entry')
    elif 'default' in kinds:
        if s != store('my.storage.default', _rest('default')):
            fail('the store is not made by the handler of the default entry with the rest of that entry')
    else:
        if type(s) is not LabeledDict:
            fail('without an entry the store is not kept in memory')
    if c != _conf(kinds):
        fail('the configuration is modified')
    reached()


def memory(typ):
    for c in (None, {}):
        s = init_storage(c, typ)
        if type(s) is not LabeledDict:
            fail('without an entry the store is not kept in memory')
        if type(init_storage(c)) is not LabeledDict:
            fail('without an entry the store is not kept in memory')
        s['key'] = 'value'
        if s.get('key') != 'value' or [x for x in s.keys()] != ['key']:
            fail('a store in memory does not keep what is set')
        if 'key' in init_storage(c, typ) or init_storage(c, typ).get('key') is not None:
            fail('two stores in memory share their content')
    if type(init_storage()) is not LabeledDict:
        fail('without an entry the store is not kept in memory')
    reached()


def nodefault():
    """the default kind is asked for and there is none"""
    c = _conf(['keyjar'])
    refused(_conf_of, c, 'default')
    refused(_init, c)
    try:
        get_storage_conf(c)
        fail('a missing default entry is no configuration error')
    except ConfigurationError as e:
        pass
    reached()


def _init(c):
    init_storage(c)


def factory(how):
    e = _entry('x')
    if how == 'handler':
        if storage_factory(e) != store('my.storage.x', _rest('x')):
            fail('the handler does not get exactly the rest of the entry')
        if e != _entry('x'):
            fail('the entry is modified')
    else:
        del e['handler']
        if how == 'empty':
            e['handler'] = ''
        if how == 'none':
            e['handler'] = None
        try:
            storage_factory(e)
            fail('a missing handler is no configuration error')
        except ConfigurationError as x:
            pass
    reached()


def names():
    """import by name"""
    if modsplit('a.b.C') != ('a.b', 'C') or modsplit('a.b:C') != ('a.b', 'C') or modsplit('a:C') != ('a', 'C') or modsplit('a.C') != ('a', 'C'):
        fail('a name is split in another way')
    for n in ('C', '', 'a:b:C'):
        refused(_split, n)
    if importer('oidcmsg.storage.extension.LabeledDict') is not LabeledDict or importer('oidcmsg.storage.extension:LabeledDict') is not LabeledDict:
        fail('another thing than the named one is imported')
    refused(_import, 'oidcmsg.storage.extension.Missing')
    reached()


def _split(n):
    modsplit(n)


def _import(n):
    importer(n)


def issuers(kinds, extra):
    """an issuer is added to every entry"""
    c = _conf(kinds)
    iss = _text('issuer')
    if extra == 'abstract':
        c['abstract_storage_cls'] = 'some.Class'
    if extra == 'issuer':
        for k in kinds:
            c[k]['issuer'] = 'earlier'
    r = add_issuer(c, iss)
    for k in kinds:
        d = _entry(k)
        d['issuer'] = quote_plus(iss)
        if k not in r or r[k] != d:
            fail('an entry does not get the escaped issuer')
    if extra == 'abstract' and r['abstract_storage_cls'] != 'some.Class':
        fail('the class of the storage is lost')
    if len(r) != len(c):
        fail('there are other entries than before')
    o = _conf(kinds)
    if extra == 'abstract':
        o['abstract_storage_cls'] = 'some.Class'
    if extra == 'issuer':
        for k in kinds:
            o[k]['issuer'] = 'earlier'
    if c != o:
        fail('the configuration is modified')
    # the result is not tied to the configuration
    for k in kinds:
        r[k]['more'] = 1
    if c != o:
        fail('the result shares entries with the configuration')
    reached()


def _full(kinds, iss):
    c = {'db_conf': _conf(kinds), 'keys': {'key_defs': [{'type': 'EC'}], 'uri_path': 'jwks.json', 'private_path': 'p.json'}, 'httpc_params': {'verify': False}}
    if iss is not None:
        c['issuer'] = iss
    return c


def context(kinds, with_issuer):
    """what a context uses, and what it leaves"""
    iss = None
    if with_issuer:
        iss = _text('issuer')
        assume(iss)
    c = _full(kinds, iss)
    x = OidcContext(c, entity_id='me')
    if c != _full(kinds, iss):
        fail('creating a context modifies the configuration')
    if 'default' in kinds:
        d = _rest('default')
        if iss is not None:
            d['issuer'] = quote_plus(iss)
        if x.db != store('my.storage.default', d):
            fail('a context does not use the default entry with the escaped issuer')
    elif type(x.db) is not LabeledDict:
        fail('without a default entry the context is not kept in memory')
    reached()


def boxes(kinds, wanted):
    """further stores of a context"""
    x = OidcContext({})
    c = _conf(kinds)
    b = {}
    for w in wanted:
        b[w] = 'box_' + w
    x.add_boxes(b, c)
    for w in wanted:
        s = getattr(x, 'box_' + w)
        if w in kinds:
            if s != store('my.storage.' + w, _rest(w)):
                fail('a box is not made from the entry of its kind')
        elif 'default' in kinds:
            if s != store('my.storage.default', _rest('default')):
                fail('a box is not made from the default entry')
        elif type(s) is not LabeledDict:
            fail('without an entry the box is not kept in memory')
    if c != _conf(kinds):
        fail('the configuration is modified')
    reached()
