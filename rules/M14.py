"""Serialisation by name, signing and encryption. The signing and encryption primitives are replaced by classes that remember what they were given."""
import json
from oidcmsg.exception import FormatError
from oidcmsg.message import Message


class Signed:
    def __init__(self, text, alg, keys, header):
        self.text = text
        self.alg = alg
        self.keys = keys
        self.header = header


class Signature:
    def __init__(self, msg=None, alg='RS256', **kwargs):
        self.msg = msg
        self.alg = alg
        self.header = kwargs

    def sign_compact(self, keys=None, **kwargs):
        return Signed(self.msg, self.alg, keys, self.header)


class Sealed:
    def __init__(self, text, alg, enc, keys):
        self.text = text
        self.alg = alg
        self.enc = enc
        self.keys = keys


class Encryption:
    def __init__(self, msg=None, alg='RSA-OAEP', enc='A128CBC-HS256', **kwargs):
        self.msg = msg
        self.alg = alg
        self.enc = enc

    def encrypt(self, keys=None, cek='', iv='', **kwargs):
        return Sealed(self.msg, self.alg, self.enc, keys)

    def decrypt(self, token=None, keys=None, alg=None, cek=None):
        if token.keys is not keys:
            raise ValueError('not the keys')
        return token.text.encode('utf-8')


def _filled(C, text):
    m = C(set_defaults=False)
    d = json.loads(text)
    for p in d:
        m[p] = d[p]
    m['zz5'] = Message(a='b', c=None)
    m['zz6'] = [Message(a='b'), Message(d=['e'])]
    m['zz1'] = {'a': ['b']}
    m['zz2'] = False
    m['zz3'] = 0
    if '*' not in C.c_param:
        m['zz4'] = None
    m['zz#en'] = 'x'
    m.lax = True
    return m


def _same_text(a, b, why):
    if a is not b and a != b:
        fail(why)


def by_name(C, text):
    m = _filled(C, text)
    _same_text(m.serialize('json'), m.to_json(), 'serialising as JSON by name is something else')
    _same_text(m.serialize('dict'), m.to_dict(), 'serialising as dictionary by name is something else')
    try:
        t = m.to_urlencoded()
    except Exception:
        t = None        # an embedded message that lacks something
    if t is not None:
        _same_text(m.serialize('urlencoded'), t, 'serialising in form encoding by name is something else')
        _same_text(m.serialize(), t, 'serialising is not form encoding when nothing is said')
    t = m.to_json()
    if json.loads(t) != m.to_dict():
        fail('the JSON document is not the dictionary form')
    a = C(set_defaults=False).deserialize(t, 'json')
    b = C(set_defaults=False).from_json(t)
    if type(a) is not C or dict(a.items()) != dict(b.items()) or len(a) != len(m):
        fail('reading JSON by name is something else')
    d = m.to_dict()
    a = C(set_defaults=False).deserialize(d, 'dict')
    b = C(set_defaults=False).from_dict(d)
    if type(a) is not C or dict(a.items()) != dict(b.items()) or len(a) != len(m):
        fail('reading a dictionary by name is something else')
    t = 'zz1=a&zz2=b+c'
    for a in (C(set_defaults=False).deserialize(t, 'urlencoded'), C(set_defaults=False).deserialize(t)):
        if type(a) is not C or dict(a.items()) != {'zz1': 'a', 'zz2': 'b c'}:
            fail('reading form encoding by name is something else')
    reached()


def unknown_name(C):
    for x in ('JSON', 'yaml', 'xml', 'Json', 'form', 'urlencode', 'jws'):
        m = exact_message(C, {'zz1': 'a'})
        try:
            m.deserialize('{"a": "b"}', x)
        except FormatError:
            if dict(m.items()) != {'zz1': 'a'}:
                fail('reading in an unknown way changes the message')
        else:
            fail('an unknown way of reading is accepted')
        try:
            m.serialize(x)
        except Exception:
            if dict(m.items()) != {'zz1': 'a'}:
                fail('writing in an unknown way changes the message')
        else:
            fail('an unknown way of writing is accepted')
    reached()


def keeps(C, text):
    """writing does not change what is written"""
    m = _filled(C, text)
    was = dict(m.items())
    for x in ('json', 'dict', 'urlencoded'):
        try:
            m.serialize(x)
        except Exception:
            if x != 'urlencoded':
                fail('a message cannot be written')
    if dict(m.items()) != was:
        fail('writing a message changes it')
    d = m.to_dict()
    d['zz9'] = 'a'
    d['zz2'] = True
    del d['zz1']
    if 'zz9' in m or 'zz1' not in m or m['zz2'] is not False:
        fail('the dictionary is the message itself')
    reached()


def signed_content(C, text):
    key, alg = sym('key'), sym('alg')
    assume(isinstance(alg, str))
    m = _filled(C, text)
    was = m.to_dict()
    r = m.to_jwt(key=key, algorithm=alg)
    if not isinstance(r, Signed):
        fail('not a signed token')
    if json.loads(r.text) != was or m.to_dict() != was:
        fail('what is signed is not the whole message')
    if r.alg != alg:
        fail('signed with another algorithm')
    if r.keys is not key and r.keys != key:
        fail('signed with other keys')
    s = m.serialize('jwt', key=key, algorithm=alg)
    if not isinstance(s, Signed) or json.loads(s.text) != was or s.alg != alg or s.keys is not key and s.keys != key:
        fail('signing by name is something else')
    reached()


def sealed_content(C, text):
    keys, alg, enc = sym('keys'), sym('alg'), sym('enc')
    assume(isinstance(alg, str))
    assume(isinstance(enc, str))
    m = _filled(C, text)
    was = m.to_dict()
    r = m.to_jwe(keys, enc, alg)
    if not isinstance(r, Sealed):
        fail('not an encrypted token')
    if json.loads(r.text) != was or m.to_dict() != was:
        fail('what is encrypted is not the whole message')
    if r.alg != alg or r.enc != enc:
        fail('encrypted with other algorithms')
    if r.keys is not keys and r.keys != keys:
        fail('encrypted for other keys')
    reached()


def opened_content(C, text):
    keys = ['key']
    m = _filled(C, text)
    t = m.to_jwe(keys, 'A128CBC-HS256', 'RSA-OAEP')
    w = C(set_defaults=False).from_jwe(t, keys)
    d = C(set_defaults=False).from_json(m.to_json())
    if type(w) is not C or dict(w.items()) != dict(d.items()):
        fail('what is read from an encrypted token is not what it contains')
    m = C(set_defaults=False)
    try:
        m.from_jwe(t, ['other key'])
    except Exception:
        if len(m):
            fail('content without decryption')
        reached()
        return
    fail('an encrypted token is read without its key')
